"""C15: a client inside a native pass never keeps the other threads from running."""
import numpy as np
import _simcore as sc

from .. import common, engine, spec
from ..common import Out, World

QUICK, THOROUGH = 1600, 40000
ABOUT = ("long scoring, decoding and training passes, each possibly frozen for millions of "
         "steps at an arbitrary memory access inside a native loop; meanwhile every other "
         "client must finish its work, and the steps a pass makes while holding the "
         "interpreter lock must not grow with the data")
STALL = 4_000_000
LIMIT = 2_500_000


def gen(r, tier):
    models, datas = [], []
    for i in range(r.choice([1, 2])):
        m = spec.gen_model(r, max_nc=6, min_nc=2, styles=["dense", "dense", "sticky"])
        m["sstyle"] = "dense"
        if m.get("estyle") == "sticky":
            m["estyle"] = "dense"
        m["hyper"] = {}
        m["nm"] = m.get("nm") and min(m["nm"], 2)
        models.append(m)
        datas.append({"m": i, "seed": r.getrandbits(30), "Ts": [r.choice([150, 250, 400])],
                      "src": "model", "none": r.random() < .5, "form": "plain",
                      "lform": "list", "scale": 1.0})
    cl = []
    for i in range(r.choice([2, 2, 3])):
        ops = []
        for _ in range(r.randint(1, 2)):
            d = r.randrange(len(datas))
            op = {"op": r.choice(common.INFER + ["fit", "fit"]), "m": d, "d": d}
            if op["op"] == "decode":
                op["alg"] = r.choice(["viterbi", "map"])
            if r.random() < .5:
                op["fault"] = {"stall": r.choice([r.randint(1, 3000), r.randint(1, 60000)]),
                               "stall_len": STALL}
            ops.append(op)
        cl.append(ops)
    if r.random() < .6:
        cl.append([{"op": "tick"} for _ in range(r.randint(1, 12))])
    sim = common.gen_sim(r)
    sim["gap"] = max(sim["gap"], 30)
    return {"sim": sim, "models": models, "data": datas, "clients": cl}


class W(World):
    def calibrate(self):
        """Native steps of each kind of call on a short prefix of its data."""
        self.short, got = {}, {}
        for i, d in enumerate(self.plan["data"]):
            self.short[i] = spec.make_data(self.mspecs[d["m"]], {**d, "Ts": [40]},
                                           self.P0[d["m"]])
        keys = {}
        for ops in self.plan["clients"]:
            for op in ops:
                if op["op"] != "tick":
                    keys[self.key(op)] = {k: v for k, v in op.items() if k != "fault"}

        def body():
            for k, op in keys.items():
                ev = common.Event()
                self.before(op, ev)
                sc.arm()
                try:
                    self.ask(op, ev, self.short[op["d"]])
                except Exception:
                    sc.disarm()
                    continue
                got[k] = sc.disarm()
        engine.run({**self.plan["sim"], "pline": 0.0}, [body])
        self.base = got

    @staticmethod
    def key(op):
        return (op["op"], op["m"], op["d"], op.get("alg"))

    def before(self, op, ev):
        if op["op"] == "fit":
            m = self.mspecs[op["m"]]
            ev["model"] = spec.set_params(spec.new_model(
                self.hm, m, n_iter=1, tol=-np.inf, init_params="",
                params=spec.CODES[m["family"]]), m, self.P0[op["m"]])

    def apply(self, op, ev):
        if op["op"] == "tick":
            return sum(range(10))
        return self.ask(op, ev, self.data[op["d"]])

    def ask(self, op, ev, data):
        if op["op"] == "fit":
            ev.model.fit(data[0], data[2])
            return None
        return common.infer(self.models[op["m"]], op, data)


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.calibrate()
    w.run(script)
    st = out.stats
    work = st["steps"] - st["jumped"]
    for ev in w.hist:
        op = ev.op
        f = ev.fired
        who = f"client {ev.c} op {ev.k} {op['op']}"
        if op["op"] != "tick":
            m = w.mspecs[op["m"]]
            who += f" ({m['family']} {m['impl']} {m['nc']} states)"
            b = w.base.get(w.key(op))
            if b and ev.exc is None and f["kev"] > 2 * b["kev"]:
                more, held = f["kev"] - b["kev"], f["kheld"] - b["kheld"]
                out.probes["passes_measured"] += 1
                out.probes["held_growth_permille_max"] = max(
                    out.probes["held_growth_permille_max"], 1000 * held // more)
                if held > 0.02 * more:
                    out.bad("lock-held", f"{who}: {held} of the {more} native steps that longer "
                            "data adds are made while holding the interpreter lock")
            if f["stall"]:
                out.probes["frozen_in_loop" if not f["blocked"] else "frozen_in_prologue"] += 1
        if f["stall"]:
            continue
        if ev.end - ev.start > LIMIT and work < LIMIT // 2:
            out.bad("held-up", f"{who} took {ev.end - ev.start} steps while another client was "
                    f"frozen inside its pass; all work of the run is {work} steps")
        else:
            out.probes["finished_meanwhile"] += 1
    if work >= LIMIT // 2:
        out.probes["too_much_work"] += 1
    out.nontrivial = st["switches"] > 0 and len(w.hist) > 1
    return out
