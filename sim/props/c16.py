"""C16: damaged distributions are refused by every operation, never used."""
import numpy as np

from .. import common, ref, spec
from ..common import Out, World
from ..train import gen_params

QUICK, THOROUGH = 2600, 60000
ABOUT = ("each client keeps a model's parameters in simulated storage that suffers bit flips, "
         "torn, lost and misplaced writes, zeroed pages and short reads, restores them (through "
         "the attributes or in place) and scores, decodes, samples and trains; operations on "
         "damaged distributions must fail, operations on intact ones must be exact")

DIST = {"cat": ["startprob_", "transmat_", "emissionprob_"],
        "gauss": ["startprob_", "transmat_"], "gmm": ["startprob_", "transmat_", "weights_"],
        "multi": ["startprob_", "transmat_", "emissionprob_"], "pois": ["startprob_", "transmat_"]}
KEY = {"startprob_": "start", "transmat_": "trans", "emissionprob_": "emission",
       "weights_": "weights"}
OPS = common.INFER + ["sample", "fit", "fit", "aic", "stationary"]


def gen(r, tier):
    models, datas, cl = [], [], []
    for i in range(r.choice([1, 2, 2, 3])):
        m = spec.gen_model(r, list(DIST), max_nc=6)
        m["hyper"] = {}
        models.append(m)
        d = spec.gen_data(r, m, max_T=30, min_total=4)
        d["m"] = i
        datas.append(d)
        ops = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < .45:
                op = {"op": "restore", "m": i, "name": r.choice(DIST[m["family"]]),
                      "how": r.choice(["attr", "attr", "inplace"]),
                      "damage": r.choice(["flip", "flip", "flips", "torn", "torn", "page", "lost",
                                          "misplaced", "short", "long", "none", "neg", "nan",
                                          "scale", "swap"]),
                      "seed": r.getrandbits(30)}
            else:
                op = {"op": r.choice(OPS), "m": i, "d": i}
                if op["op"] == "decode":
                    op["alg"] = r.choice([None, "viterbi", "map"])
                if r.random() < .3:         # what is trained is no matter
                    op["params"] = gen_params(r, m["family"]) if r.random() < .8 else ""
                if r.random() < .12:
                    op["fault"] = common.gen_fault(r)
            ops.append(op)
        ops.append({"op": r.choice(OPS), "m": i, "d": i})
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .7), "models": models, "data": datas,
            "clients": cl}


def damaged(a, new, kind, rs):
    """What a faulty disk gives back for the array written to it."""
    raw = bytearray(np.ascontiguousarray(a, float).tobytes())
    n = len(raw)
    if kind in ("flip", "flips"):
        for _ in range(1 if kind == "flip" else rs.randint(2, 6)):
            # any bit, the high-order half of a word more often
            w, bit = rs.randint(n // 8), rs.randint(64) if rs.rand() < .5 else rs.randint(48, 64)
            raw[8 * w + bit // 8] ^= 1 << (bit % 8)
    elif kind == "torn":
        k = rs.randint(n + 1) if rs.rand() < .5 else 8 * rs.randint(n // 8 + 1)
        raw = bytearray(np.ascontiguousarray(new, float).tobytes()[:k]) + raw[k:]
    elif kind == "page":
        i = rs.randint(n // 8)
        j = rs.randint(i, n // 8) + 1
        raw[8 * i:8 * j] = bytes(8 * (j - i))
    elif kind == "misplaced":
        k = 8 * rs.randint(n // 8)
        raw = raw[k:] + raw[:k]
    b = np.frombuffer(bytes(raw), float).reshape(np.shape(a)).copy()
    if kind == "lost":
        b = np.array(new, float)
    elif kind == "neg":
        i = rs.randint(b.size)
        b.flat[i] = -abs(b.flat[i]) - 0.25
        if rs.rand() < .7 and b.shape[-1] > 1:      # the row still sums to 1
            row = i // b.shape[-1]
            r2 = b.reshape(-1, b.shape[-1])
            r2[row, (i + 1) % b.shape[-1]] += 1 - r2[row].sum()
    elif kind == "nan":
        b.flat[rs.randint(b.size)] = rs.choice([np.nan, np.inf, -np.inf])
    elif kind == "scale":
        b = b * rs.choice([0.5, 1.001, 0.999, 2, 1 + 1e-3])
    elif kind == "swap" and b.ndim > 1:
        b = b[rs.permutation(len(b))]
    elif kind == "short":
        b = b[:-1] if b.ndim == 1 or rs.rand() < .5 else b[:, :-1]
    elif kind == "long":
        b = np.concatenate([b, b[:1]])
    return b


class W(World):
    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        self.other = [spec.make_params({**m, "seed": m["seed"] + 1}) for m in self.mspecs]

    def names(self, i):
        return DIST[self.mspecs[i]["family"]]

    def before(self, op, ev):
        if op["op"] == "restore":
            return
        model = self.models[op["m"]]
        model.params = op.get("params", spec.CODES[self.mspecs[op["m"]]["family"]])
        model.init_params = ""
        ev["A"] = {n: np.array(getattr(model, n), float) for n in self.names(op["m"])}

    def after(self, op, ev):
        if op["op"] == "fit":
            model = self.models[op["m"]]
            ev["B"] = {n: np.array(getattr(model, n), float) for n in self.names(op["m"])}
            # later operations start from known parameters again
            m = self.mspecs[op["m"]]
            self.models[op["m"]] = self.build(m, self.P0[op["m"]])
            for n in self.names(op["m"]):
                setattr(self.models[op["m"]], n, np.array(ev["A"][n]))

    def build(self, m, P):
        model = spec.new_model(self.hm, m, n_iter=1, tol=-np.inf)
        if m["family"] == "multi":     # a model in use knows its number of symbols
            model.n_features = m["nf"]
        return spec.set_params(model, m, P)

    def apply(self, op, ev):
        model = self.models[op["m"]]
        if op["op"] == "restore":
            P = self.P0[op["m"]]
            a, new = P[KEY[op["name"]]], self.other[op["m"]][KEY[op["name"]]]
            b = damaged(a, new, op["damage"], np.random.RandomState(op["seed"]))
            cur = getattr(model, op["name"])
            if op["how"] == "inplace" and isinstance(cur, np.ndarray) and cur.shape == b.shape \
                    and cur.flags.writeable and cur.dtype.kind == "f":
                cur[...] = b
            else:
                setattr(model, op["name"], b)
            return None
        X, _, L = self.data[op["d"]]
        if op["op"] == "sample":
            return model.sample(5, random_state=3)
        if op["op"] == "fit":
            model.fit(X, L)
            return None
        if op["op"] == "stationary":
            return model.get_stationary_distribution()
        return common.infer(model, op, self.data[op["d"]])


def verdict(P0, m, A):
    """'valid', 'invalid' or 'borderline' for the distributions a model holds."""
    border = False
    for n, a in A.items():
        if a.shape != np.shape(P0[KEY[n]]):
            return "invalid", f"{n} has shape {a.shape}"
        if not np.all(np.isfinite(a)):
            return "invalid", f"{n} is not finite"
        if np.any(a < 0):
            return "invalid", f"{n} has negative entries"
        off = np.max(np.abs(a.sum(-1) - 1))
        if off > 1e-4:
            return "invalid", f"{n} is off by {off:.3g}"
        # scipy moves a multinomial's rounding error to its last symbol
        border |= off > (1e-14 if m["family"] == "multi" and n == "emissionprob_" else 1e-6)
    return ("borderline" if border else "valid"), ""


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if op["op"] == "restore":
            out.faults["disk_" + op["damage"]] += op["damage"] != "none"
            if ev.exc is not None:
                out.bad("restore-raised", f"{op}: {common.describe(ev.exc)}")
            continue
        m = w.mspecs[op["m"]]
        where = f"client {ev.c} op {ev.k} {op['op']} ({m['family']} {m.get('ct', '')} " \
                f"{m['impl']}): "
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        used = {"transmat_": ev.A["transmat_"]} if op["op"] == "stationary" else ev.A
        v, why = verdict(w.P0[op["m"]], m, used)
        out.probes[v] += 1
        if v == "invalid":
            if ev.exc is None:
                out.bad("damage-used", where + f"answered although {why}")
            elif not isinstance(ev.exc, ValueError):
                out.bad("damage-crash", where + f"{why}: {common.describe(ev.exc)}")
            elif op["op"] == "fit" and not common.same(ev.A, ev.B):
                out.bad("damage-spread", where + f"refused ({why}) but changed the parameters")
            continue
        if v == "borderline":
            continue
        P = dict(w.P0[op["m"]])
        for n, a in ev.A.items():
            P[KEY[n]] = a
        if op["op"] in common.INFER:
            try:
                E = ref.Eval(P, w.data[op["d"]][1], w.data[op["d"]][2])
            except ref.Degenerate:
                continue
            common.check_infer(out, op, ev.res, ev.exc, E, m, len(w.data[op["d"]][1]), where)
            out.probes["intact_checked"] += 1
        elif ev.exc is not None and op["op"] == "sample":
            # numpy's choice() and multinomial() are stricter than hmmlearn
            if m["family"] not in ("gmm", "multi"):
                out.bad("intact-refused", where + common.describe(ev.exc))
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
