"""C20: information criteria are exact in every history."""
import numpy as np

from .. import common, ref, spec, train
from ..common import INFER, Out

QUICK, THOROUGH = 2000, 60000
ABOUT = ("owners train, interrupt, edit, reload and refit models and ask for AIC and BIC in "
         "between while others ask for those of shared models; every answer is compared with "
         "the definition, from the exact likelihood of the parameters shown and the number of "
         "free parameters of the family")

OPS = ["aic", "bic"]


def free_params(m, P):
    """Free scalar parameters of a model, from the definitions of the families."""
    nc, nf, nm, ct = m["nc"], P["nf"], m.get("nm"), m.get("ct")
    k = nc - 1 + nc * (nc - 1)
    sym = nf * (nf + 1) // 2
    if m["family"] in ("cat", "multi"):
        return k + nc * (nf - 1)
    if m["family"] == "pois":
        return k + nc * nf
    if m["family"] == "gauss":
        return k + nc * nf + {"spherical": nc, "diag": nc * nf, "full": nc * sym, "tied": sym}[ct]
    return k + nc * (nm - 1) + nc * nm * nf + {
        "spherical": nc * nm, "diag": nc * nm * nf, "full": nc * nm * sym, "tied": nc * sym}[ct]


def gen(r, tier, ops=OPS):
    trs = train.gen_trainers(r, train.EM, r.choice([1, 1, 2, 2]), max_T=40, max_nc=5)
    faults = r.random() < .6
    cl = []
    for i, t in enumerate(trs):
        t["auto"] = r.random() < .4
        train.gen_narrow(r, t)
        t["d2"] = spec.gen_data(r, t["m"], max_T=20)
        h = train.gen_history(r, i, t, r.randint(1, 4), faults, edits=.3)
        out = []
        for op in h:
            if r.random() < .6:
                out.append({"op": r.choice(ops), "tr": i})
            out.append(op)
        out.append({"op": r.choice(ops), "tr": i})
        for op in out:
            if op["op"] in ops:
                op["alt"] = r.random() < .4
                if faults and r.random() < .2:
                    op["fault"] = common.gen_fault(r)
        cl.append(out)
    models = [spec.gen_model(r, train.EM, max_nc=8) for _ in range(r.choice([0, 1, 2]))]
    datas = []
    for i, m in enumerate(models):
        datas.append({**spec.gen_data(r, m, max_T=40), "m": i})
    for _ in range(r.choice([1, 2]) if models else 0):
        out = []
        for _ in range(r.randint(1, 4)):
            d = r.randrange(len(datas))
            out.append({"op": r.choice(ops + ops + INFER), "m": datas[d]["m"], "d": d})
            if faults and r.random() < .2:
                out[-1]["fault"] = common.gen_fault(r)
        cl.append(out)
    return {"sim": common.gen_sim(r), "trainers": trs, "models": models, "data": datas,
            "clients": cl}


class W(train.TrainWorld):
    ask = OPS

    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        for T in self.tr:
            if T["t"].get("auto") and T["m"]["family"] == "cat":
                T["model"].n_features = None
            T["alt"] = spec.make_data(T["m"], T["t"]["d2"])

    def apply(self, op, ev):
        if op.get("alt"):
            T = self.tr[op["tr"]]
            return common.infer(T["model"], op, T["alt"])
        return super().apply(op, ev)

    def before(self, op, ev):
        super().before(op, ev)
        if op["op"] in self.ask:
            own = "tr" in op
            m = self.tr[op["tr"]]["m"] if own else self.mspecs[op["m"]]
            ev["m"] = m
            if own:
                T = self.tr[op["tr"]]
                data = T["alt" if op.get("alt") else "data"]
                ev["data"] = (None, np.array(data[1]),
                              None if data[2] is None else list(data[2]))
                try:
                    ev["P"] = spec.read_params(T["model"], m)
                    if T["t"]["auto"] and getattr(T["model"], "n_features", None) not in (
                            None, ev["P"]["nf"]):
                        ev["P"] = None  # inferred from data with fewer symbols: refused
                    elif m["family"] == "cat" and ev["data"][1].max() >= ev["P"]["nf"]:
                        ev["P"] = None  # the model never saw such symbols
                except Exception:       # left incomplete by a failed fit
                    ev["P"] = None
            else:
                ev["P"], ev["data"] = self.P0[op["m"]], self.data[op["d"]]


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if op["op"] not in OPS:
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if ev.P is None or not spec.valid_params(ev.P):
            out.probes["incomplete"] += 1
            continue
        m = ev.m
        try:
            E = ref.Eval(ev.P, ev.data[1], ev.data[2])
        except ref.Degenerate:
            continue
        where = f"client {ev.c} op {ev.k} {op} ({m['family']} {m.get('ct', '')} {m['impl']}): "
        safe = E.possible and (m["impl"] == "log" or E.safe())
        if ev.exc is not None:
            if safe:
                out.bad("raised", where + common.describe(ev.exc))
            continue
        k, n = free_params(m, ev.P), len(ev.data[1])
        if not E.possible:
            out.probes["impossible_data"] += 1
            if m["impl"] == "log" and not ev.res == np.inf:
                out.bad("criterion", where + f"impossible data: {ev.res}")
            continue
        if not safe:
            continue
        want = -2 * E.ll + k * (2 if op["op"] == "aic" else np.log(n))
        out.probes[m["family"] + "/" + op["op"]] += 1
        if not (np.ndim(ev.res) == 0 and common.close(float(ev.res), want, 1e-8, 1e-6)):
            out.bad("criterion", where + f"got {ev.res!r}, expected {want!r} "
                    f"({k} free parameters, log-likelihood {E.ll!r}, {n} samples)")
    out.nontrivial = len(w.hist) > 1 and (out.stats["switches"] > 0 or len(plan["clients"]) == 1)
    return out
