"""C07: interrupted or failed training never leaves a silently broken model."""
import numpy as np
import _simcore as sc

from .. import common, engine, ref, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1600, 40000
ABOUT = ("trainers killed at arbitrary source lines, by failing allocations, by their own "
         "monitor, or by bad input; then queried and refitted. Inference must refuse or agree "
         "with the parameters the model shows; a refit must equal a fresh model's fit")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, k=(1, 2, 3), params=False,
                             max_T=40)
    cl = []
    for i, t in enumerate(trs):
        t["start"] = r.choice(["set", "new", "fitted"])
        # the number of symbols is inferred from the data of the first fit
        t["auto"] = t["start"] != "set" and t["m"]["family"] in ("cat", "vcat") and r.random() < .6
        if t["auto"] and isinstance(t["m"]["hyper"].get("emissionprob_prior"), list):
            del t["m"]["hyper"]["emissionprob_prior"]
        ops = []
        for _ in range(r.randint(2, 5)):
            x = r.random()
            if x < .55:
                op = {"op": "fit", "tr": i, "scratch": r.random() < .6}
                y = r.random()
                if y < .65:
                    op["fault"] = common.gen_fault(r, lines=r.choice([60, 200, 500]))
                elif y < .8:
                    op["mon"] = r.randint(1, 3)
                elif y < .95:
                    op["bad"] = r.choice(["nan", "short", "long", "neg", "zero", "empty",
                                          "nan", "neg", "type"])
                    op["wide"] = r.choice([0, 0, 1, -1])
                if not op.get("bad") and r.random() < .35:
                    op["other"] = r.randrange(1000)
            else:
                op = {"op": r.choice(common.INFER), "tr": i}
                if op["op"] == "decode":
                    op["alg"] = r.choice([None, "viterbi", "map"])
                if r.random() < .15:
                    op["fault"] = common.gen_fault(r)
            ops.append(op)
        for _ in range(r.randint(1, 2)):
            ops.append({"op": r.choice(common.INFER), "tr": i})
        ops.append({"op": "refit", "tr": i})
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .7), "trainers": trs, "clients": cl}


class MonitorFailed(engine.Fault):
    pass


def bad_input(kind, X, plain, L, m, wide=0):
    """wide: refused data that, on top, has more (1) or fewer (-1) symbols or features."""
    n = len(plain)
    if kind == "nan":
        Y = np.array(plain, float)
        Y[n // 2] = np.nan
        if wide:
            Y = np.hstack([Y, Y])
        return Y, L
    if kind in ("neg", "type") and m["family"] in ("cat", "vcat", "multi"):
        Y = np.array(plain)
        if m["family"] != "multi":
            Y = Y + 3 if wide > 0 else Y * 0 if wide < 0 else Y
        if kind == "neg":
            Y[n // 2] = -1
        return Y if kind == "neg" else Y.astype(float), L
    if kind == "long":
        return X, [n + 1]
    if kind == "zero":
        return X, [n, 0]
    if kind == "empty":
        return X, []
    return X, [n - 1] if n > 1 else [n + 3]


def other_data(m, plain, seed):
    """Another valid data set of the same shape (and, if discrete, the same symbols)."""
    rs = np.random.RandomState(seed)
    Y = np.array(plain)[rs.permutation(len(plain))]
    if m["family"] in ("gauss", "gmm", "vgauss"):
        Y = Y * rs.choice([.5, 2.]) + rs.choice([0., 7.]) + rs.normal(size=Y.shape)
    elif m["family"] == "pois":
        Y = Y + rs.randint(3)
    return Y


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        self.tr = []
        for t in plan["trainers"]:
            m = t["m"]
            P = spec.make_params(m)
            T = {"t": t, "m": m, "data": spec.make_data(m, t["d"], P)}
            T["bytes"] = np.asarray(T["data"][0]).tobytes()
            T["hyper"] = {k: v for k, v in spec.hyper(m).items()}
            T["fresh"] = self.attempt(self.make(t, m), T)
            T["model"] = self.make(t, m)
            if t["start"] == "set":
                spec.set_params(T["model"], m, P)
            elif t["start"] == "fitted" and T["fresh"] is not None:
                T["model"].fit(T["data"][0], T["data"][2])
            T["kw"] = self.ctor(T["model"])
            self.tr.append(T)

    def make(self, t, m):
        kw = {"n_features": None} if t.get("auto") else {}
        return spec.new_model(self.hm, m, n_iter=t["k"], tol=-np.inf, random_state=t["rs"],
                              **kw)

    @staticmethod
    def ctor(model):
        """Constructor parameters that no fit may change."""
        skip = ("weights_prior", "means_prior", "means_weight", "covars_prior",
                "covars_weight") if type(model).__name__ == "GMMHMM" else ()
        kw = model.get_params()
        return {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kw.items()
                if k not in skip and k not in ("n_features", "init_params")}

    def attempt(self, model, T):
        try:
            model.fit(T["data"][0], T["data"][2])
            return common.public_state(model)
        except Exception as e:
            T["fresh_err"] = common.describe(e)
            return None

    def before(self, op, ev):
        T = self.tr[op["tr"]]
        if op["op"] in common.INFER:
            ev["P"] = self.read(T)

    def read(self, T):
        try:
            return spec.read_params(T["model"], T["m"])
        except Exception:
            return None

    def after(self, op, ev):
        T = self.tr[op["tr"]]
        where = f"trainer {op['tr']} op {ev.k} {op} ({T['m']['family']} " \
                f"{T['m'].get('ct', '')} {T['m']['impl']}): "
        if np.asarray(T["data"][0]).tobytes() != T["bytes"]:
            self.out.bad("data-changed", where + "X was modified")
        kw = self.ctor(T["model"])
        if not common.same(kw, T["kw"]):
            bad = [k for k in kw if not common.same(kw[k], T["kw"].get(k))]
            self.out.bad("ctor-changed", where + f"constructor parameter {bad} changed")
        if op["op"] in common.INFER:
            P2 = self.read(T)
            if (P2 is None) != (ev.P is None) or (P2 is not None and not common.same(
                    {k: v for k, v in P2.items()}, ev.P)):
                self.out.bad("inference-wrote", where + "inference changed the parameters")

    def apply(self, op, ev):
        T = self.tr[op["tr"]]
        model, (X, plain, L) = T["model"], T["data"]
        codes = spec.CODES[T["m"]["family"]]
        if op["op"] == "fit":
            model.init_params = codes if op["scratch"] else ""
            if op.get("other") is not None:
                X = other_data(T["m"], plain, op["other"])
            if op.get("mon"):
                real = model.monitor_.report
                left = [op["mon"]]

                def report(lp):
                    left[0] -= 1
                    if left[0] == 0:
                        self.out.faults["monitor_error"] += 1
                        ev["mon_fired"] = True
                        raise MonitorFailed("simulated")
                    real(lp)
                model.monitor_.report = report
                try:
                    model.fit(X, L)
                finally:
                    del model.monitor_.report
            elif op.get("bad"):
                X, L = bad_input(op["bad"], X, plain, L, T["m"], op.get("wide", 0))
                ev["bad_ok"] = True
                model.fit(X, L)
            else:
                model.fit(X, L)
            return None
        if op["op"] == "refit":
            model.init_params = codes
            model.fit(X, L)
            return common.public_state(model)
        return common.infer(model, op, T["data"])


def collapsed(P):
    """Covariances so near singular that rounding decides whether they are any."""
    if "covars" not in P:
        return False
    C = ref.full_covars(P)
    e = np.linalg.eigvalsh(C.reshape(-1, *C.shape[-2:]))
    return np.any(e[:, 0] < 1e-12 * np.maximum(1, e[:, -1]))


def check(out, w, ev):
    op = ev.op
    T = w.tr[op["tr"]]
    m = T["m"]
    where = f"trainer {op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')} {m['impl']}): "
    if op["op"] == "fit":
        if op.get("bad") and ev.exc is None:
            out.bad("bad-input-accepted", where + f"fit accepted {op['bad']} input")
        return
    if op["op"] == "refit":
        if T["fresh"] is None:
            out.probes["no_reference"] += 1
            return
        if ev.exc is not None:
            out.bad("refit-raised", where + common.describe(ev.exc))
            return
        d = common.diff_state(ev.res, T["fresh"], 1e-6, 1e-9)
        out.probes["refits_compared"] += 1
        if d:
            out.bad("refit-differs", where + f"{d[0]}: {common.show(ev.res.get(d[0]))}, a "
                    f"fresh model has {common.show(T['fresh'].get(d[0]))}")
        return
    # inference on whatever the history left behind
    P = ev.P
    if ev.exc is not None:
        out.probes["refused_after_failure"] += 1
        if P is not None and spec.valid_params(P) and P["start"].shape == (m["nc"],):
            try:
                E = ref.Eval(P, T["data"][1], T["data"][2])
            except ref.Degenerate:
                return
            if E.possible and E.safe() and not collapsed(P) and "_posterior" not in str(ev.exc) \
                    and "prior" not in str(ev.exc):
                out.bad("refused-valid", where + f"{op['op']}: {common.describe(ev.exc)}")
        return
    if P is None:
        out.bad("answered-unfitted", where + f"{op['op']} answered without parameters")
        return
    if not spec.valid_params(P):
        fin = all(np.all(np.isfinite(v)) for v in P.values() if isinstance(v, np.ndarray))
        if fin:
            out.bad("answered-invalid", where + f"{op['op']} answered with start "
                    f"{common.show(P['start'])}, trans {common.show(P['trans'])}")
        return
    try:
        E = ref.Eval(P, T["data"][1], T["data"][2])
    except ref.Degenerate:
        return
    out.probes["answers_checked"] += 1
    common.check_infer(out, op, ev.res, None, E, m, len(T["data"][1]), where)


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        if ev.exc is not None and (common.expected_fault(ev) or ev.get("mon_fired")):
            out.probes["failed_by_fault"] += 1
            continue
        check(out, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
