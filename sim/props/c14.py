"""C14: models trained side by side do not influence each other or what they share."""
import copy
import pickle

import numpy as np

from .. import common, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1800, 45000
ABOUT = ("clients train models that share their data, lengths, prior and initial-value arrays, "
         "or that were copied, cloned or unpickled from one base model which other clients "
         "keep reading; every operation is compared with the same client's history run alone, "
         "and everything shared must be bitwise intact, also after failures half-way")


def gen(r, tier):
    m = train.gen_train_model(r, train.EM + train.VB, max_nc=4)
    d = train.gen_train_data(r, m, 40)
    cl = []
    faults = r.random() < .4
    for i in range(r.choice([2, 2, 3, 4])):
        ops = [{"op": "make", "how": r.choice(["shared", "shared", "shared", "deepcopy", "pickle",
                                               "clone", "new"]), "cl": i,
                "k": r.choice([1, 2, 3]), "rs": r.randrange(3),
                "impl": r.choice(["log", "scaling"])}]
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5:
                op = {"op": "fit", "cl": i, "init": r.choice(["", "", "all"]),
                      "params": r.choice([spec.CODES[m["family"]],
                                          train.gen_params(r, m["family"])])}
            elif x < .7:
                op = {"op": r.choice(common.INFER), "cl": i}
            elif x < .8:
                op = {"op": "sample", "cl": i, "n": r.choice([1, 5]), "seed": r.randrange(99)}
            else:
                op = {"op": r.choice(common.INFER), "base": 1, "cl": i}
            if faults and r.random() < .25:
                op["fault"] = common.gen_fault(r, lines=200)
            ops.append(op)
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .8), "m": m, "d": d, "clients": cl}


ATTR = ("startprob_", "transmat_", "emissionprob_", "means_", "lambdas_", "weights_",
        "startprob_prior_", "startprob_posterior_", "transmat_prior_", "transmat_posterior_",
        "emissionprob_prior_", "emissionprob_posterior_", "means_prior_", "means_posterior_",
        "beta_prior_", "beta_posterior_", "dof_prior_", "dof_posterior_", "scale_prior_",
        "scale_posterior_")


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        m = self.m = plan["m"]
        self.P = spec.make_params(m)
        self.X, _, self.L = spec.make_data(m, plan["d"], self.P)
        self.hyper = spec.hyper(m)
        self.base = self.configured({"k": 1, "rs": 0, "impl": m["impl"]})
        spec.set_params(self.base, m, self.P)
        try:
            self.base.fit(self.X, self.L)
        except Exception:
            pass
        spec.set_params(self.base, m, self.P)
        try:
            self.base.score(self.X, self.L)
        except Exception:
            pass
        self.donor = spec.set_params(self.configured({"k": 1, "rs": 0, "impl": "log"}), m, self.P)
        # the arrays a user keeps and hands to several models
        self.arrays = {n: np.array(getattr(self.donor, n)) for n in ATTR
                       if isinstance(getattr(self.donor, n, None), np.ndarray)
                       and (m["family"] != "vgauss" or n != "means_")}
        if m["family"] in ("gauss", "gmm"):
            self.arrays["covars_"] = np.array(self.P["covars"])
        self.models = {}

    def configured(self, op):
        # the prior arrays themselves are shared, not copies of them
        m = {k: v for k, v in self.m.items() if k != "hyper"}
        return spec.new_model(self.hm, m, n_iter=op["k"], tol=-np.inf, random_state=op["rs"],
                              **self.hyper)

    def make(self, op):
        how = op["how"]
        if how in ("shared", "new"):
            model = self.configured(op)
            if how == "shared":
                for n, a in self.arrays.items():
                    if n == "covars_" and self.m["family"] == "gauss":
                        model.n_features = self.m["nf"]
                    setattr(model, n, a)
                for n in ("n_features", "dof_prior_", "dof_posterior_"):
                    if hasattr(self.donor, n) and n not in self.arrays:
                        setattr(model, n, getattr(self.donor, n))
        elif how == "deepcopy":
            model = copy.deepcopy(self.base)
        elif how == "pickle":
            model = pickle.loads(pickle.dumps(self.base))
        else:
            from sklearn.base import clone
            model = clone(self.base)
        model.set_params(n_iter=op["k"], random_state=op["rs"], implementation=op["impl"])
        self.models[op["cl"]] = model

    def apply(self, op, ev):
        if op["op"] == "make":
            return self.make(op)
        model = self.base if op.get("base") else self.models[op["cl"]]
        if op["op"] == "fit":
            new = not hasattr(model, "transmat_") and not hasattr(model, "transmat_posterior_")
            model.init_params = spec.CODES[self.m["family"]] if op["init"] or new else ""
            model.params = op["params"]
            model.fit(self.X, self.L)
            return [float(x) for x in model.monitor_.history]
        if op["op"] == "sample":
            return model.sample(op["n"], random_state=op["seed"])
        return common.infer(model, op, (self.X, None, self.L))

    def after(self, op, ev):
        if op.get("base") or ev["exc"] is not None or op["op"] == "make":
            return
        ev["state"] = common.public_state(self.models[op["cl"]])

    def shared(self):
        s = {"array:" + k: np.array(v) for k, v in self.arrays.items()}
        s.update({"prior:" + k: np.array(v) for k, v in self.hyper.items()})
        s["X"], s["lengths"] = np.array(self.X), np.array(self.L)
        for k, v in common.public_state(self.base).items():
            s["base:" + k] = v
        s["base:record"] = list(self.base.monitor_.history)
        return s


def fine(ev):
    s = ev.get("state") or {}
    return all(np.all(np.isfinite(v)) for v in s.values()
               if isinstance(v, np.ndarray) and v.dtype.kind == "f")


def execute(plan, script, hm):
    out = Out()
    # each client's history, alone in a world of its own
    alone = {}
    for i, ops in enumerate(plan["clients"]):
        o2 = Out()
        w2 = W(hm, {**plan, "clients": [[{k: v for k, v in op.items() if k != "fault"}
                                         for op in ops]]}, o2)
        for k, op in enumerate(ops):
            ev = common.Event(exc=None, res=None)
            try:
                ev["res"] = w2.apply(op, ev)
            except Exception as e:
                ev["exc"] = e
            w2.after(op, ev)
            alone[i, k] = ev
    w = W(hm, plan, out)
    before = w.shared()
    w.run(script)
    d = common.diff_state(w.shared(), before)
    m = w.m
    if d:
        out.bad("shared-changed", f"{d} ({m['family']} {m.get('ct', '')}) changed: "
                f"{common.show(before.get(d[0]))} -> {common.show(w.shared().get(d[0]))}")
    spoiled = set()
    for ev in sorted(w.hist, key=lambda e: (e.c, e.k)):
        op = ev.op
        if ev.c in spoiled and not op.get("base"):
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            if not op.get("base"):
                spoiled.add(ev.c)
            continue
        want = alone[ev.c, ev.k]
        where = f"client {ev.c} op {ev.k} {op} ({m['family']} {m.get('ct', '')}): "
        if (ev.exc is None) != (want.exc is None):
            if not fine(want) or not fine(ev):
                out.probes["degenerate"] += 1
                spoiled.add(ev.c)
                continue
            out.bad("outcome", where + f"{ev.exc and common.describe(ev.exc)}, alone "
                    f"{want.exc and common.describe(want.exc)}")
            spoiled.add(ev.c)
            continue
        if ev.exc is not None:
            out.probes["refused"] += 1
            continue
        if not fine(want):
            out.probes["degenerate"] += 1
            spoiled.add(ev.c)
            continue
        out.probes[op["op"] if op["op"] in ("fit", "make", "sample") else "infer"] += 1
        if not common.same(ev.res, want.res, 1e-6, 1e-7):
            out.bad("result", where + f"got {common.show(ev.res)}, alone {common.show(want.res)}")
            spoiled.add(ev.c)
            continue
        d = common.diff_state(ev.get("state") or {}, want.get("state") or {}, 1e-5, 1e-7)
        if d:
            out.bad("state", where + f"{d[0]}: {common.show(ev.state.get(d[0]))}, alone "
                    f"{common.show(want.state.get(d[0]))}")
            spoiled.add(ev.c)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
