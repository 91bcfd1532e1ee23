"""C18: every completed fit leaves a valid, usable model."""
import pickle

import numpy as np

from .. import common, ref, spec, train
from ..common import Out

QUICK, THOROUGH = 1600, 40000
ABOUT = ("trainers start from scratch (any subset of parameters initialised from the data), "
         "on ample, tiny, duplicated or gridded data, are interrupted and restarted; after "
         "every completed fit the model must satisfy the documented constraints, be usable "
         "for inference and sampling, and survive serialisation and rebuilding")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, params=False, max_T=40,
                             k=(0, 0, 1, 2, 5, 10))
    cl = []
    for i, t in enumerate(trs):
        m = t["m"]
        codes = spec.CODES[m["family"]]
        t["preset"] = r.random() < .4
        t["init"] = codes if not t["preset"] or r.random() < .4 else \
            "".join(c for c in codes if r.random() < .5)
        t["fitp"] = codes if r.random() < .6 else train.gen_params(r, m["family"])
        t["tolv"] = r.choice([None, 1e-2, 10.])
        if r.random() < .25:
            t["d"]["Ts"] = [r.choice([1, 2, 3, 5]) for _ in range(r.randint(1, 4))]
            if len(t["d"]["Ts"]) > 1:
                t["d"]["none"] = False
            t["tiny"] = True
        if r.random() < .2:
            t["few"] = r.choice([.5, 1., 3.])
        elif m["family"] not in ("gmm", "vgauss") and r.random() < .08:
            t["const"] = r.choice(["row", "all"] if m["family"] == "pois" else ["row"])
        if not t.get("tiny"):
            train.gen_narrow(r, t)
        if m["family"] in ("cat", "vcat") and not t["preset"]:
            t["auto"] = t.get("auto", r.random() < .3)
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .15:
                op = {"op": r.choice(train.RELOAD), "tr": i}
            elif x < .3:
                op = {"op": r.choice(common.INFER), "tr": i}
            else:
                op = {"op": "fit", "tr": i, "scratch": r.random() < .7}
                if r.random() < .35:
                    op["fault"] = common.gen_fault(r, lines=r.choice([60, 200, 500]))
            ops.append(op)
        ops.append({"op": "fit", "tr": i, "scratch": True})
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .5), "trainers": trs, "clients": cl}


class W(train.TrainWorld):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        self.tr = []
        for t in plan["trainers"]:
            m = t["m"]
            P = spec.make_params(m)
            given, plain, L = spec.make_data(m, t["d"], P)
            if t.get("const"):
                plain = np.array(plain)
                plain[:] = plain[0] if t["const"] == "row" else plain[0, 0]
                given = plain.copy()
            if t.get("auto") and not t["preset"]:
                m = t["m"] = {**m, "nf": int(plain.max()) + 1, "auto": True}
                m["hyper"] = {k: v for k, v in m.get("hyper", {}).items()
                              if k != "emissionprob_prior"}
            if t.get("few") and m["family"] in ("gauss", "gmm", "vgauss"):
                plain = np.round(plain / t["few"]) * t["few"]
                given = plain.copy()
            T = {"m": m, "t": t, "P": P, "data": (given, plain, L)}
            T["model"] = self.make(T, t["k"])
            T["init"] = self.initial(T)
            self.tr.append(T)

    def make(self, T, k):
        t, m = T["t"], T["m"]
        model = spec.new_model(self.hm, m, n_iter=k, random_state=t["rs"],
                               tol=-np.inf if t["tolv"] is None else t["tolv"],
                               init_params=t["init"], params=t["fitp"])
        return spec.set_params(model, m, T["P"]) if t["preset"] else model

    def initial(self, T):
        """What initialisation alone produces (no training step)."""
        model = self.make(T, 0)
        try:
            model.fit(T["data"][0], T["data"][2])
        except Exception as e:
            return {"err": common.describe(e)}
        return self.snap({**T, "model": model})

    def before(self, op, ev):
        T = self.tr[op["tr"]]
        if op["op"] == "fit":
            T["model"].init_params = T["t"]["init"] if op["scratch"] else ""
            ev["pre"] = self.snap(T)

    def after(self, op, ev):
        if op["op"] == "fit":
            T = self.tr[op["tr"]]
            ev["post"] = self.snap(T)
            ev["nf"] = getattr(T["model"], "n_features", None)
            if ev["exc"] is None:
                ev["use"] = self.use(T)

    def use(self, T):
        """Answers of the fitted model, of its pickle and of its rebuilt copy."""
        X, _, L = T["data"]
        out = {}
        models = {"fitted": T["model"]}
        try:
            models["pickled"] = pickle.loads(pickle.dumps(T["model"]))
            keep = T["model"]
            self.reload({"op": "rebuild", "tr": self.tr.index(T)})
            models["rebuilt"], T["model"] = T["model"], keep
        except Exception as e:
            out["copy_err"] = common.describe(e)
        for n, mo in models.items():
            try:
                out[n] = [mo.score(X, L), mo.predict_proba(X, L), mo.decode(X, L)[0]]
                x, z = mo.sample(4, random_state=3)
                out[n] += [np.asarray(x, float), z]
            except Exception as e:
                out[n] = common.describe(e)
        return out


def distinct(X):
    return len(np.unique(np.asarray(X), axis=0))


def simplex_ok(a, tol=1e-6):
    return np.all(np.isfinite(a)) and np.all(a >= 0) and np.allclose(a.sum(-1), 1, atol=tol)


def psd_ok(C, lim):
    C = C.reshape(-1, *C.shape[-2:])
    return all(np.allclose(c, c.T, rtol=1e-8, atol=1e-10 * max(1, np.abs(c).max()))
               and np.linalg.eigvalsh(c).min() > lim for c in C)


def invalid(P, m, zero_rows=False):
    """The first documented constraint these parameters break, or None."""
    nc, nf, nm, fam = m["nc"], m["nf"], m.get("nm"), m["family"]
    shapes = {"start": (nc,), "trans": (nc, nc), "lambdas": (nc, nf),
              "means": (nc, nm, nf) if fam == "gmm" else (nc, nf), "weights": (nc, nm)}
    if fam == "gmm":
        shapes["covars"] = {"spherical": (nc, nm), "diag": (nc, nm, nf), "tied": (nc, nf, nf),
                            "full": (nc, nm, nf, nf)}[m["ct"]]
    else:
        shapes["covars"] = (nc, nf, nf)
    if fam in ("cat", "multi", "vcat"):
        shapes["emission"] = (nc, nf)
    for k, s in shapes.items():
        if k in P and np.shape(P[k]) != s:
            return f"{k} has shape {np.shape(P[k])}, documented {s}"
    for k in ("start", "trans", "emission", "weights"):
        if k not in P:
            continue
        a = np.asarray(P[k])
        if k == "trans" and zero_rows:
            a = a[a.sum(1) != 0]
        if not simplex_ok(a):
            return f"{k} not normalised: {common.show(np.asarray(P[k]))}"
    for k in ("means", "lambdas"):
        if k in P and not np.all(np.isfinite(P[k])):
            return f"{k} not finite: {common.show(P[k])}"
    if "lambdas" in P and np.any(P["lambdas"] < 0):
        return f"negative rates {common.show(P['lambdas'])}"
    if "covars" in P:
        C = np.asarray(P["covars"])
        if not np.all(np.isfinite(C)):
            return f"covars not finite: {common.show(C)}"
        F = ref.full_covars(P)
        if not psd_ok(F, 0):
            return f"covars not positive-definite: {common.show(C)}"
        ct = m["ct"]
        if fam != "gmm":
            off = F - np.einsum("cff->cf", F)[..., None] * np.eye(nf)
            if ct in ("diag", "spherical") and np.any(off != 0):
                return "off-diagonal covariance of a diagonal model"
            if ct == "spherical" and np.ptp(np.einsum("cff->cf", F), axis=1).max() > 0:
                return "unequal variances of a spherical model"
            if ct == "tied" and np.any(F != F[0]):
                return "states of a tied model differ in covariance"
    return None


def invalid_vb(V, m):
    for k, a in V.items():
        if not isinstance(a, np.ndarray):
            continue
        if not np.all(np.isfinite(a)):
            return f"{k} not finite: {common.show(a)}"
        if m["family"] == "vgauss" and k.split("_")[0] in ("beta", "dof") \
                and a.shape not in ((m["nc"],), () if k.startswith("dof") else 0):
            return f"{k} has shape {a.shape}"
        if k.split("_")[0] in ("start", "trans", "emission", "beta", "dof") and np.any(a <= 0):
            return f"{k} not positive: {common.show(a)}"
        if k.startswith("dof") and np.any(a <= m["nf"] - 1):
            return f"{k} too small for {m['nf']} features: {common.show(a)}"
    return None


def chain(m, H, s, data, params, k):
    """Do k exact updates from snapshot s stay clear of degenerate cases?

    Returns (well-conditioned, a state was never left).
    """
    empty = False
    try:
        if m["family"] in train.VB:
            V = s["V"]
            for _ in range(k):
                if m["impl"] == "scaling" and not all(
                        f.scaling_safe() for f in ref.vb_fbs(V, data[1], data[2])[0]):
                    return False, False
                _, V = ref.vb_step(V, data[1], data[2], params)
            return True, False
        P = s["P"]
        for j in range(k):
            E = ref.Eval(P, data[1], data[2])
            if not E.possible or (m["impl"] == "scaling" and not E.safe()):
                return False, False
            _, P = ref.em_step(P, H, data[1], data[2], params)
            if P.get("trans_empty") is not None:
                return j + 1 == k, True
            if "covars" in P and not psd_ok(ref.full_covars(P), 1e-5):
                return False, False
        return True, empty
    except (ref.Degenerate, np.linalg.LinAlgError, FloatingPointError):
        return False, False


def check(out, w, ev):
    op = ev.op
    T = w.tr[op["tr"]]
    m, t, data = T["m"], T["t"], T["data"]
    H = spec.hyper(m)
    where = f"trainer {op['tr']} op {ev.k} {'from scratch' if op['scratch'] else ''} " \
            f"({m['family']} {m.get('ct', '')} {m['impl']} init={t['init']} fit={t['fitp']}): "
    if op["scratch"] and (t["preset"] or t["init"] == spec.CODES[m["family"]]):
        s = T["init"]
        if "err" in s:
            if not t.get("tiny") and not t.get("const") and distinct(data[1]) >= m["nc"] * m.get("nm", 1):
                out.bad("init-raised", where + s["err"])
            else:
                out.probes["refused_tiny"] += 1
            return
        if t["init"] != spec.CODES[m["family"]]:
            # the part not initialised is what the history left
            s = dict(s)
            if ev.k or m["family"] in train.VB:
                out.probes["partial_init"] += 1
                s = None
    else:
        s = ev.pre
    vb = m["family"] in train.VB
    if s is None or s["V" if vb else "P"] is None:
        out.probes["no_start"] += 1
        return
    bad = invalid_vb(s["V"], m) if vb else invalid(s["P"], m)
    if op["scratch"] and s is T["init"] and bad \
            and (m["family"] == "pois" or not t.get("tiny")):
        if not ("covars" in bad and t.get("few")):
            out.bad("init-invalid", where + bad)
        return
    if bad:
        out.probes["start_not_valid"] += 1
        return
    if m["family"] == "vgauss" and "c" in t["fitp"] and "m" not in t["fitp"]:
        out.probes["unspecified_update"] += 1
        return
    good, empty = chain(m, H, s, data, t["fitp"], t["k"])
    if not good:
        out.probes["degenerate"] += 1
        return
    if ev.exc is not None and t.get("tiny"):
        out.probes["refused_tiny"] += 1
        return
    if ev.exc is not None:
        out.bad("fit-raised", where + common.describe(ev.exc))
        return
    out.probes["fits_checked"] += 1
    out.probes[m["family"] + "_k" + str(t["k"])] += 1
    R = ev.post["P"]
    if R is None:
        out.bad("unreadable", where + str(ev.post.get("Perr")))
        return
    bad = invalid(R, m, zero_rows=empty)
    if bad is None and m["family"] in train.VB:
        bad = invalid_vb(ev.post["V"], m) if ev.post["V"] is not None else ev.post["Verr"]
    if bad:
        out.bad("fit-invalid", where + bad)
        return
    if m["family"] != "gmm" and ev.nf is not None and ev.nf != m["nf"]:
        out.bad("n_features", where + f"n_features is {ev.nf}, data has {m['nf']}")
        return
    if empty:
        out.probes["never_left_state"] += 1
        return
    try:
        E = ref.Eval(R, data[1], data[2])
    except ref.Degenerate:
        return
    if not E.possible or not E.safe():
        out.probes["not_scored"] += 1
        return
    u = ev["use"]
    if "copy_err" in u:
        out.bad("not-copied", where + u["copy_err"])
        return
    for n in ("fitted", "pickled", "rebuilt"):
        a = u[n]
        if isinstance(a, str):
            out.bad("unusable", where + f"{n} model: {a}")
            return
        if m["family"] in train.VB:
            # scored through the posteriors; the copies must agree
            if n != "fitted" and not common.same(a[:3], u["fitted"][:3], 1e-7, 1e-7):
                out.bad("copy-differs", where + f"{n}: {a[0]} / {u['fitted'][0]}")
                return
            continue
        if not common.close(a[0], E.ll, 1e-7, 1e-6):
            out.bad("score", where + f"{n} model scores {a[0]}, exact {E.ll}")
            return
        if a[1].shape != E.gamma.shape or np.abs(a[1] - E.gamma).max() > 1e-6:
            out.bad("posterior", where + f"{n} model")
            return
        if a[3].shape != (4, 1 if m["family"] == "cat" else m["nf"]) \
                or not np.all(np.isfinite(a[3])) or np.shape(a[4]) != (4,):
            out.bad("sample", where + f"{n} model: {a[3].shape} {a[4]}")
            return
    out.probes["used"] += 1


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        if ev.op["op"] != "fit":
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        check(out, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
