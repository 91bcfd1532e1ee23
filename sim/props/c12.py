"""C12: frozen parameters and structural zeros survive every training history."""
import numpy as np

from .. import common, spec, train
from ..common import Out

QUICK, THOROUGH = 2600, 60000
ABOUT = ("training clients fit subsets of their parameters, from given or freshly initialised "
         "values, are interrupted at arbitrary lines and allocations, reloaded and refitted; "
         "after every operation, completed or not, the parameters outside the fitted subset "
         "and the zeros of start and transition probabilities must be where they were")

LETTER = {"start": "s", "trans": "t", "emission": "e", "means": "m", "covars": "c",
          "weights": "w", "lambdas": "l", "beta": "m", "dof": "c", "scale": "c"}


def subset(r, codes, empty=True):
    x = r.random()
    if x < .15 and empty:
        return ""
    if x < .3:
        return codes
    return "".join(c for c in codes if r.random() < .5)


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, params=False,
                             styles=r.choice([None, ["sparse", "dense", "lr"]]), max_T=40)
    train.gen_trials(r, trs)
    cl = []
    for i, t in enumerate(trs):
        m = t["m"]
        if m["sstyle"] == "lr":
            m["sstyle"] = "sparse"
        if m.get("estyle") == "lr":
            m["estyle"] = "sparse"
        codes = spec.CODES[m["family"]]
        t["params"] = subset(r, codes)
        ops = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if r.random() < .2 and ops:
                op = train.gen_edit(r, i)
            elif x < .2:
                op = {"op": r.choice(train.RELOAD), "tr": i}
            elif x < .35:
                op = {"op": r.choice(common.INFER), "tr": i}
            else:
                op = {"op": "fit", "tr": i, "params": subset(r, codes),
                      "init": subset(r, codes) if r.random() < .3 else ""}
                if r.random() < .15:
                    op["op"] = "badfit"
            if r.random() < .4 and op["op"] not in train.RELOAD + ["edit"]:
                op["fault"] = common.gen_fault(r, lines=r.choice([60, 200, 500]))
            ops.append(op)
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .6), "trainers": trs, "clients": cl}


class W(train.TrainWorld):
    def before(self, op, ev):
        T = self.tr[op["tr"]]
        if op["op"] in ("fit", "badfit"):
            self.count_trials(T)
            T["model"].params = op["params"]
            T["model"].init_params = op["init"]
        ev["pre"] = self.state(T)

    def state(self, T):
        s = self.snap(T)
        d = {k: v for k, v in (s["P"] or {}).items() if k in LETTER}
        for k, v in (s["V"] or {}).items():
            if isinstance(v, np.ndarray):
                d["vb:" + k] = v
        if s["P"] is None:      # interrupted before everything was set: read what there is
            for k, n in (("start", "startprob_"), ("trans", "transmat_"),
                         ("emission", "emissionprob_"), ("means", "means_"),
                         ("weights", "weights_"), ("lambdas", "lambdas_")):
                if hasattr(T["model"], n):
                    d[k] = np.array(getattr(T["model"], n), float)
        return d

    def after(self, op, ev):
        T = self.tr[op["tr"]]
        ev["post"] = self.state(T)

    def apply(self, op, ev):
        if op["op"] == "badfit":
            T = self.tr[op["tr"]]
            n = len(T["data"][1])
            return T["model"].fit(T["data"][0], [n + 1]) and None
        return super().apply(op, ev)


def letter(k):
    return LETTER[k[3:].rsplit("_", 1)[0] if k.startswith("vb:") else k]


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if op["op"] == "edit":
            continue
        T = w.tr[op["tr"]]
        m = T["m"]
        fit = op["op"] in ("fit", "badfit")
        free = set(op["params"]) | set(op["init"]) if fit else set()
        where = f"trainer {op['tr']} op {ev.k} {op} ({m['family']} {m.get('ct', '')} " \
                f"{m['impl']}), {'raised ' + type(ev.exc).__name__ if ev.exc else 'completed'}: "
        out.probes["completed" if ev.exc is None else "interrupted"] += 1
        for k, a in ev.pre.items():
            if op["op"] == "rebuild":
                # the round trip through public values may round
                tol = 1e-12
            else:
                tol = 0
            if k not in ev.post:
                if letter(k) not in free and not fit:
                    out.bad("lost", where + f"{k} disappeared")
                continue
            b = ev.post[k]
            if letter(k) not in free:
                out.probes["frozen_checked"] += 1
                if not common.same(a, b, tol, tol):
                    out.bad("frozen-changed", where + f"{k} changed from {common.show(a)} to "
                            f"{common.show(b)}")
                    break
            if k in ("start", "trans") and fit and letter(k) not in op["init"] \
                    and m["family"] in train.EM and a.shape == b.shape \
                    and np.all(np.isfinite(b)):
                if np.any(a == 0):
                    out.probes["zeros_checked"] += 1
                if np.any(b[a == 0] != 0):
                    out.bad("zero-lost", where + f"{k} had zeros {common.show(a)}, now "
                            f"{common.show(b)}")
                    break
        if op["op"] == "badfit" and ev.exc is None:
            out.bad("malformed-accepted", where + "malformed lengths accepted")
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
