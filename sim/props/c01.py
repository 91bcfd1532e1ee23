"""C01: concurrent scoring and posteriors are exact."""
import numpy as np

from .. import common, ref, spec
from ..common import Out, World

QUICK, THOROUGH = 2500, 60000
OPS = ["score", "score_samples", "predict_proba"]


def gen_ops(r, nd, datas, ops, n, faults, algs=None):
    out = []
    for _ in range(n):
        d = r.randrange(nd)
        op = {"op": r.choice(ops), "m": datas[d]["m"], "d": d}
        if op["op"] == "decode" and algs:
            op["alg"] = r.choice(algs)
        if faults and r.random() < .25:
            op["fault"] = common.gen_fault(r)
        out.append(op)
    return out


def gen(r, tier, ops=OPS, algs=None):
    nm = r.choice([1, 1, 2, 3])
    x = r.random()
    long, large = x < .06, x > .985
    models = [spec.gen_model(r, max_nc=12) for _ in range(nm)]
    if large:
        m = spec.gen_model(r, ["cat", "pois", "gauss"])
        m["nc"] = r.choice([17, 33, 65, 130, 257, 300])
        models[0] = m
    if long and r.random() < .5:                # long recordings of a rich alphabet
        m = spec.gen_model(r, ["cat"], max_nc=3)
        m["nf"] = r.choice([40, 256, 257, 300, 400])
        models = [m]
    datas = []
    for _ in range(r.choice([1, 2, 3])):
        m = 0 if large else r.randrange(len(models))
        d = spec.gen_data(r, models[m], max_T=600 if long else 8 if large else 60)
        if long:
            d["Ts"][0] = r.choice([300, 600])
            if models[m]["nc"] <= 3:
                d["Ts"][0] *= r.choice([1, 4, 8])
        d["m"] = m
        datas.append(d)
    ncl = r.choice([1, 2, 2]) if long or large else r.choice([1, 2, 2, 3, 4])
    faults = r.random() < .5
    cl = [gen_ops(r, len(datas), datas, ops, r.randint(1, 2 if large else 4), faults, algs)
          for _ in range(ncl)]
    for c in cl:
        if not large and r.random() < .3:     # a model of its own, edited between uses
            own = spec.gen_model(r, max_nc=8)
            d = spec.gen_data(r, own, max_T=30)
            d["m"] = len(models)
            models.append(own)
            datas.append(d)
            for k in range(r.randint(2, 4)):
                op = gen_ops(r, 1, [d], ops, 1, faults, algs)[0]
                op["d"] = len(datas) - 1
                at = r.randint(0, len(c))
                c[at:at] = [op, {"op": "edit", "m": d["m"], "seed": r.randrange(10 ** 6),
                                 "how": r.choice(["inplace", "inplace", "new"])}]
    sim = common.gen_sim(r)
    if large or long:
        sim["gap"] = max(sim["gap"], 50)
    return {"sim": sim, "models": models, "data": datas, "clients": cl}


class W(World):
    edited = ()

    def apply(self, op, ev):
        if op["op"] == "edit":
            self.edited += (op["m"],)
            return spec.edit(self.models[op["m"]], self.mspecs[op["m"]], op)
        return super().apply(op, ev)

    def before(self, op, ev):
        if op["m"] in self.edited:
            ev["P"] = spec.read_params(self.models[op["m"]], self.mspecs[op["m"]])


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    O = common.Oracle()
    for ev in w.hist:
        op = ev.op
        if op["op"] == "edit":
            continue
        m, data = w.mspecs[op["m"]], w.data[op["d"]]
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        P = ev.P or w.P0[op["m"]]
        try:
            E = O.ev((op["m"], op["d"], op["m"] if ev.P is None else id(ev)), P, data)
        except ref.Degenerate:
            continue
        common.check_infer(out, op, ev.res, ev.exc, E, m, len(data[1]), f"client {ev.c}: ")
        out.probes[m["family"] + "/" + m["impl"]] += 1
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
