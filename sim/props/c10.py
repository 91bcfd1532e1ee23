"""C10: samples lie in the model's support and follow its law, whatever the draws."""
import copy
import pickle
import random

import numpy as np
from scipy import special, stats

from .. import common, ref, spec, train
from ..common import Out, World

QUICK, THOROUGH = 2600, 60000
ABOUT = ("clients sample one shared model at once, each from a generator under the "
         "simulator's control that returns 0, the last float below 1 and the exact boundaries "
         "of the model's cumulative distributions as well as ordinary draws; one run in ten "
         "draws long samples and bounds their distance from the model's law")


class Tape(np.random.RandomState):
    """A generator whose uniform draws are chosen by the simulator."""

    def __init__(self, seed, marks, hot):
        super().__init__(seed)
        self._r, self._marks, self._hot = random.Random(seed), marks, hot

    def _u(self):
        u = super().random_sample()
        if self._r.random() >= self._hot:
            return u
        x = self._r.random()
        if x < .3:
            return 0.0
        if x < .6:
            return float(np.nextafter(1.0, 0.0))
        v = self._r.choice(self._marks)
        y = self._r.random()
        if y < .3:
            v = np.nextafter(v, 0.0)
        elif y < .6:
            v = np.nextafter(v, 2.0)
        return float(min(max(v, 0.0), np.nextafter(1.0, 0.0)))

    def random_sample(self, size=None):
        if size is None:
            return self._u()
        n = int(np.prod(size))
        return np.array([self._u() for _ in range(n)]).reshape(size)

    def rand(self, *shape):
        return self.random_sample(shape or None)

    def random(self, size=None):
        return self.random_sample(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random_sample(size)

    def __deepcopy__(self, memo):
        t = Tape(0, self._marks, self._hot)
        t.set_state(self.get_state())
        t._r = random.Random()
        t._r.setstate(self._r.getstate())
        return t


def gen(r, tier):
    law = r.random() < .1
    models = []
    for _ in range(r.choice([1, 1, 2])):
        m = spec.gen_model(r, max_nc=4 if law else 8, styles=r.choice(
            [None, ["sparse", "dense"], ["sparse", "point"], ["dense", "ties"]]))
        if m["family"] == "gmm" and r.random() < .4:
            m["wstyle"] = "sparse"
        m["fit"] = r.random() < .25
        m["denorm"] = r.choice([0, 0, 0, 4e-6, -4e-6, 1e-12, -1e-12])
        models.append(m)
    datas = []
    for i, m in enumerate(models):
        d = train.gen_train_data(r, m, 40)
        d["m"] = i
        datas.append(d)
    cl = []
    faults = r.random() < .4
    for _ in range(1 if law and r.random() < .5 else r.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(1 if law else r.randint(1, 4)):
            i = r.randrange(len(models))
            x = r.random()
            if x < .15 and not law:
                ops.append({"op": r.choice(common.INFER), "m": i, "d": i})
                continue
            op = {"op": "sample", "m": i, "n": r.choice([1, 2, 5, 20, 60]),
                  "seed": r.getrandbits(30), "cur": None, "hot": r.choice([0, .3, .7]),
                  "how": r.choice(["arg", "arg", "attr"])}
            if r.random() < .4:
                op["cur"] = r.randrange(models[i]["nc"])
            if law:
                op["op"], op["hot"], op["n"], op["how"] = "law", 0, 1500, "arg"
                op["calls"] = 300
            elif r.random() < .3:
                op["op"] = "walk"
                op["n"] = r.choice([1, 2, 4])
                op["calls"] = r.randint(2, 5)
            elif r.random() < .2:      # a copy of its own, edited between two samples
                op["op"] = "edit"
                op["edits"] = [{"seed": r.randrange(10 ** 6), "how": r.choice(
                    ["inplace", "inplace", "new"])} for _ in range(r.randint(1, 3))]
            if faults and r.random() < .3 and op["op"] != "edit":
                op["fault"] = common.gen_fault(r, lines=100)
            ops.append(op)
        cl.append(ops)
    sim = common.gen_sim(r, kernel=False)
    if law:
        sim["pline"] = min(sim["pline"], .02)
    return {"sim": sim, "models": models, "data": datas, "clients": cl}


def marks_of(P):
    v = [np.cumsum(P["start"])] + [np.cumsum(a) for a in P["trans"]]
    for k in ("emission", "weights"):
        if k in P:
            v += [np.cumsum(a) for a in P[k]]
    v = np.concatenate(v)
    return [float(x) for x in v if 0 <= x <= 1.1] + [0.5]


class W(World):
    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        for i, m in enumerate(self.mspecs):
            model, (X, _, L) = self.models[i], self.data[i]
            if m["fit"]:
                model.set_params(n_iter=2)
                try:
                    model.fit(X, L)
                except Exception:
                    pass
            elif m["denorm"]:
                for n in ("startprob_", "transmat_", "emissionprob_", "weights_"):
                    if hasattr(model, n) and (n != "emissionprob_" or m["family"] != "multi"):
                        # numpy's own choice() tolerates less for mixture weights
                        f = np.sign(m["denorm"]) * 1e-12 if n == "weights_" else m["denorm"]
                        setattr(model, n, np.asarray(getattr(model, n)) * (1 + f))
            try:
                model.score(X, L)
            except Exception:
                pass
        self.P = []
        for m, model in zip(self.mspecs, self.models):
            try:
                self.P.append(spec.read_params(model, m))
            except Exception as e:
                out.bad("unreadable", f"{m['family']} {m.get('ct')}: {common.describe(e)}")
                self.P.append(None)
        for i, m in enumerate(self.mspecs):
            P = self.P[i]
            if P is not None and not (spec.valid_params(P) and (
                    m["family"] != "multi" or np.allclose(P["emission"].sum(-1), 1))):
                self.P[i] = None
        self.ks = [np.ravel(getattr(m, "n_trials", None) or 0) for m in self.models]

    def apply(self, op, ev):
        if op["op"] in common.INFER:
            return common.infer(self.models[op["m"]], op, self.data[op["d"]])
        model = self.models[op["m"]]
        P = self.P[op["m"]]
        if P is None:
            return None
        rng = Tape(op["seed"], marks_of(P), op["hot"])
        ev["rng0"] = copy.deepcopy(rng)
        if op["op"] == "sample":
            return [model.sample(op["n"], random_state=rng, currstate=op["cur"])]
        if op["op"] == "edit":
            own = copy.deepcopy(model)
            m = self.mspecs[op["m"]]
            res = []
            for e in [None] + op["edits"]:
                if e:
                    spec.edit(own, m, e)
                twin = spec.set_params(spec.new_model(self.hm, m), m,
                                       spec.raw_params(spec.read_params(own, m), m))
                if m["family"] in train.VB:
                    twin = None
                r = copy.deepcopy(rng)
                X, z = own.sample(op["n"], random_state=rng, currstate=op["cur"])
                res.append((X, z, spec.read_params(own, m), twin, r))
            return res
        if op["op"] == "walk":
            res, cur = [], op["cur"]
            for _ in range(op["calls"]):
                res.append(model.sample(op["n"], random_state=rng, currstate=cur))
                cur = int(res[-1][1][-1])
            return res
        res = [model.sample(op["n"], random_state=rng)]
        res += [model.sample(1, random_state=rng) for _ in range(op["calls"])]
        return res


def radius(P, z, x):
    C = ref.full_covars(P)
    if P["family"] == "gmm":
        best = np.inf
        for k in range(P["nm"]):
            if P["weights"][z, k] > 0:
                best = min(best, maha(C[z, k], x - P["means"][z, k]))
        return best
    return maha(C[z], x - P["means"][z])


def maha(C, d):
    w, V = np.linalg.eigh(C)
    # numpy draws through an SVD of C: allow for its rounding when C is close to singular
    w = np.maximum(w, 1e-9 * max(w[-1], 1e-300))
    return float(np.sqrt((((V.T @ d) ** 2) / w).sum()))


def check_draw(out, P, m, X, z, n, cur, where, trials):
    X, z = np.asarray(X), np.asarray(z)
    nf = P["nf"] if P["family"] not in ("cat", "vcat") else 1
    if z.shape != (n,) or not np.issubdtype(z.dtype, np.integer):
        return out.bad("states-shape", f"{where}{z.shape} {z.dtype} for {n} samples")
    if X.shape != (n, nf):
        return out.bad("sample-shape", f"{where}{X.shape}, expected {(n, nf)}")
    if z.min() < 0 or z.max() >= P["nc"]:
        return out.bad("state-range", f"{where}{z.tolist()}")
    if cur is not None and z[0] != cur:
        return out.bad("currstate", f"{where}first state {z[0]}, asked to start in {cur}")
    if cur is None and not P["start"][z[0]] > 0:
        return out.bad("impossible-start", f"{where}first state {z[0]} has probability 0")
    for a, b in zip(z[:-1], z[1:]):
        if not P["trans"][a, b] > 0:
            return out.bad("impossible-transition", f"{where}{a} -> {b} has probability 0")
    fam = P["family"]
    for t in range(n):
        x = X[t]
        if fam in ("cat", "vcat"):
            if not (float(x[0]).is_integer() and 0 <= x[0] < P["emission"].shape[1]):
                return out.bad("symbol-range", f"{where}{x}")
            if not P["emission"][z[t], int(x[0])] > 0:
                return out.bad("impossible-symbol",
                               f"{where}state {z[t]} emitted {x[0]}, probability 0")
        elif fam == "multi":
            if np.any(x < 0) or np.any(x != np.round(x)) or not np.any(x.sum() == trials):
                return out.bad("counts", f"{where}{x} with n_trials {trials}")
            if np.any((P["emission"][z[t]] == 0) & (x > 0)):
                return out.bad("impossible-symbol", f"{where}state {z[t]} emitted {x}")
        elif fam == "pois":
            if np.any(x < 0) or np.any(x != np.round(x)):
                return out.bad("counts", f"{where}{x}")
            lam = P["lambdas"][z[t]]
            if np.any(stats.poisson.sf(x - 1, lam) < 1e-30):
                return out.bad("improbable", f"{where}state {z[t]}: {x} from rates {lam}")
        else:
            if not np.all(np.isfinite(x)):
                return out.bad("not-finite", f"{where}{x}")
            rad = radius(P, z[t], x)
            if rad > 13:
                return out.bad("improbable", f"{where}state {z[t]}: {x} lies {rad:.1f} "
                               f"deviations from the state's mean")


def dkw(n, alpha=1e-14):
    """sup |F_n - F| exceeds this with probability below alpha, for every n."""
    return np.sqrt(np.log(2 / alpha) / (2 * n)) if n else np.inf


def law_discrete(out, where, what, counts, p):
    n = counts.sum()
    p = p / p.sum()
    d = np.max(np.abs(np.cumsum(counts) / max(n, 1) - np.cumsum(p)))
    if d > dkw(n):
        out.bad("law", f"{where}{what}: frequencies {np.round(counts / n, 3).tolist()} of {n}, "
                f"probabilities {np.round(p, 3).tolist()}")


def ks(x, cdf, n):
    x = np.sort(x)
    F = cdf(x)
    i = np.arange(len(x))
    # for discrete laws compare at the right of each atom only
    last = np.append(x[1:] != x[:-1], True)
    d = np.max(np.abs((i + 1)[last] / len(x) - F[last]))
    return d


def check_law(out, P, m, res, where):
    X, z = np.asarray(res[0][0], float), np.asarray(res[0][1])
    nc, fam = P["nc"], P["family"]
    first = np.bincount([int(r[1][0]) for r in res], minlength=nc)
    law_discrete(out, where, "start", first, P["start"])
    for i in range(nc):
        law_discrete(out, where, f"transitions from {i}",
                     np.bincount(z[1:][z[:-1] == i], minlength=nc), P["trans"][i])
    rs = np.random.RandomState(m["seed"])
    C = ref.full_covars(P) if fam in ("gauss", "vgauss", "gmm") else None
    for i in range(nc):
        Y = X[z == i]
        n = len(Y)
        if n < 60:
            continue
        out.probes["laws_tested"] += 1
        if fam in ("cat", "vcat"):
            law_discrete(out, where, f"symbols of {i}", np.bincount(
                Y[:, 0].astype(int), minlength=P["emission"].shape[1]), P["emission"][i])
            continue
        dirs = list(np.eye(Y.shape[1])) + [rs.normal(size=Y.shape[1]) for _ in range(4)]
        for a in dirs[:Y.shape[1]] if fam in ("pois", "multi") else dirs:
            y = Y @ a
            if fam == "pois":
                lam = P["lambdas"][i] @ a
                d = ks(y, lambda v: stats.poisson.cdf(v, lam), n)
            elif fam == "multi":
                q = (P["emission"][i] / P["emission"][i].sum()) @ a
                d = ks(y, lambda v: stats.binom.cdf(v, m["trials"], q), n)
            elif fam == "gmm":
                w = P["weights"][i] / P["weights"][i].sum()
                d = ks(y, lambda v: sum(
                    w[k] * special.ndtr((v - P["means"][i, k] @ a)
                                        / np.sqrt(a @ C[i, k] @ a))
                    for k in range(P["nm"])), n)
            else:
                d = ks(y, lambda v: special.ndtr((v - P["means"][i] @ a)
                                                 / np.sqrt(a @ C[i] @ a)), n)
            if d > dkw(n):
                out.bad("law", f"{where}emissions of state {i} along {np.round(a, 2).tolist()}:"
                        f" distance {d:.3f} from the model's law over {n} samples "
                        f"(bound {dkw(n):.3f})")
                return


def check_edited(out, w, ev):
    op = ev.op
    m = w.mspecs[op["m"]]
    where = f"client {ev.c} op {ev.k} ({m['family']} {m.get('ct', '')}), sampled between " \
            f"edits {op['edits']}: "
    for X, z, P, twin, rng in ev.res:
        out.probes["edited"] += 1
        if not spec.valid_params(P):
            return
        check_draw(out, P, m, X, z, op["n"], op["cur"], where, w.ks[op["m"]])
        if out.violations:
            return
        if twin is not None and not m["fit"]:
            Y, y = twin.sample(op["n"], random_state=rng, currstate=op["cur"])
            if not (common.same(z, y) and common.same(X, Y, 1e-9, 1e-12)):
                return out.bad("edited-draws", where + "differs from a model built with the "
                               f"same parameters: {z.tolist()} / {y.tolist()}")


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    twins = [pickle.dumps(m) for m in w.models]
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if op["op"] == "edit" and ev.res is not None:
            check_edited(out, w, ev)
            continue
        m, P = w.mspecs[op["m"]], w.P[op["m"]]
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if op["op"] in common.INFER or P is None:
            out.probes["skipped"] += 1
            continue
        where = f"client {ev.c} op {ev.k} ({m['family']} {m.get('ct', '')}): "
        if ev.exc is not None:
            if m["fit"]:      # what a fit leaves behind is C18's question
                out.probes["refused_fitted"] += 1
                continue
            out.bad("raised", where + common.describe(ev.exc))
            continue
        out.probes[op["op"]] += 1
        out.probes["draws"] += sum(len(r[1]) for r in ev.res)
        cur = op["cur"]
        ns = [op["n"]] * len(ev.res) if op["op"] != "law" else [op["n"]] + [1] * op["calls"]
        if op["op"] == "law":
            cur = None
        for (X, z), n in zip(ev.res, ns):
            check_draw(out, P, m, X, z, n, cur, where, w.ks[op["m"]])
            if out.violations:
                break
            if op["op"] == "walk":
                cur = int(np.asarray(z)[-1])
        if out.violations:
            continue
        if op["op"] == "law":
            check_law(out, P, m, ev.res, where)
        elif op["op"] == "sample":
            X, z = pickle.loads(twins[op["m"]]).sample(
                op["n"], random_state=ev.rng0, currstate=op["cur"])
            if not (common.same(z, ev.res[0][1]) and common.same(X, ev.res[0][0], 1e-9, 1e-12)):
                out.bad("shared-draws", where + "differs from the same call made alone: "
                        f"{ev.res[0][1].tolist()} / {z.tolist()}")
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
