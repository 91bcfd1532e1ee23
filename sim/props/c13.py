"""C13: training stops exactly when its monitor says so, and its record is true."""
import pickle
import sys

import numpy as np
import _simcore as sc

from .. import common, engine, spec, train
from ..common import Out

QUICK, THOROUGH = 2000, 50000
ABOUT = ("concurrent fits with every kind of tolerance and budget, set at construction, by "
         "set_params, through the monitor or by a monitor of the user's own; monitors and "
         "stderr that fail; each completed fit is compared with the rule applied to its own "
         "record and replayed as single iterations")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, params=False, max_T=40, max_nc=3)
    cl = []
    faults = r.random() < .5
    for i, t in enumerate(trs):
        t["k"] = r.choice([0, 1, 1, 2, 3, 5, 12, r.choice([12, 60, 130])])
        if t["k"] > 12:
            t["d"]["Ts"] = t["d"]["Ts"][:3]
        t["tol"] = r.choice(["-inf", "-inf", 0.0, 1e-9, 1e-3, 1e-2, 0.3, 5.0, "inf", "nan", -0.5])
        t["verbose"] = r.random() < .4
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            op = {"op": "fit", "tr": i}
            if x < .2:
                op = {"op": "config", "tr": i, "how": r.choice(
                    ["set_params", "set_params", "assign", "monitor"]),
                    "k": r.choice([1, 2, 4, 20]), "tol": r.choice(["-inf", 1e-3, 1.0, "inf"])}
            elif x < .3:
                op = {"op": r.choice(["pickle", "deepcopy"]), "tr": i}
            elif x < .42:
                op = {"op": "own", "tr": i, "at": r.choice([1, 2, 3, 4, 50])}
            elif faults and x < .6:
                op["fault"] = common.gen_fault(r, lines=200)
            elif faults and x < .7:
                op["mon"] = r.randint(1, 3)
            elif faults and x < .8:
                op["stderr"] = r.randint(1, 4)
            ops.append(op)
        ops.append({"op": "fit", "tr": i})
        cl.append(ops)
    return {"sim": common.gen_sim(r, kernel=r.random() < .5), "trainers": trs, "clients": cl}


def own_monitor(hm, at, old):
    class Own(hm.base.ConvergenceMonitor):
        @property
        def converged(self):
            return self.iter >= at
    Own.__qualname__ = Own.__name__ = "Own"
    return Own(old.tol, old.n_iter, old.verbose)


class Failed(engine.Fault):
    pass


class Err(common.Stderr):
    """The process's stderr, with a record of what each client wrote."""

    def __init__(self):
        super().__init__()
        self.by, self.fail = {}, {}

    def write(self, s):
        me = sc.me()
        if self.fail.get(me):
            self.fail[me] -= 1
            if not self.fail[me]:
                raise OSError(28, "No space left on device")
        self.by[me] = self.by.get(me, "") + s
        return len(s)


class W(train.TrainWorld):
    def __init__(self, hm, plan, out):
        for t in plan["trainers"]:
            t["tolv"] = float(t["tol"])
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        self.tr = []
        for t in plan["trainers"]:
            m = t["m"]
            P = spec.make_params(m)
            model = spec.set_params(spec.new_model(
                hm, m, n_iter=t["k"], tol=t["tolv"], init_params="", verbose=t["verbose"],
                random_state=0), m, P)
            self.tr.append({"m": m, "model": model, "data": spec.make_data(m, t["d"], P),
                            "t": t, "n_iter": t["k"], "tol": t["tolv"], "own": None,
                            "assigned": False})

    def before(self, op, ev):
        T = self.tr[op["tr"]]
        if op["op"] == "fit":
            T["verbose"] = T["t"]["verbose"]
            ev["twin"] = self.frozen(T)
            ev["rule"] = (T["n_iter"], T["tol"], T["own"], T["assigned"])
            sys.stderr.by[ev.c] = ""
            sys.stderr.fail[ev.c] = op.get("stderr", 0)

    def frozen(self, T):
        model = T["model"]
        mon = model.monitor_
        model.monitor_ = None       # monitors of the user's own need not pickle
        try:
            return pickle.dumps(model)
        finally:
            model.monitor_ = mon

    def after(self, op, ev):
        T = self.tr[op["tr"]]
        if op["op"] == "fit":
            ev["said"] = sys.stderr.by.get(ev.c, "")
            sys.stderr.fail[ev.c] = 0
            mon = T["model"].monitor_
            ev["h"] = [float(x) for x in mon.history]
            ev["iter"] = mon.iter
            ev["conv"] = bool(mon.converged)
            ev["P"] = self.snap(T)["P"]
            ev["ret"] = ev["res"] is T["model"]
            ev["res"] = None

    def apply(self, op, ev):
        T = self.tr[op["tr"]]
        model, o = T["model"], op["op"]
        if o == "config":
            k, tol = op["k"], float(op["tol"])
            if op["how"] == "set_params":
                model.set_params(n_iter=k, tol=tol)
                T["n_iter"], T["tol"], T["assigned"] = k, tol, False
            elif op["how"] == "assign":
                model.n_iter, model.tol = k, tol
                T["n_iter"], T["tol"] = k, tol
                T["assigned"] = True
            else:
                model.monitor_.tol = tol
                T["tol"] = tol
            return None
        if o == "own":
            model.monitor_ = own_monitor(self.hm, op["at"], model.monitor_)
            T["own"] = op["at"]
            return None
        if o == "pickle" or o == "deepcopy":
            if T["own"] is None:
                self.reload(op)
            return None
        if op.get("mon"):
            real, left = model.monitor_.report, [op["mon"]]

            def report(lp):
                left[0] -= 1
                if left[0] == 0:
                    self.out.faults["monitor_error"] += 1
                    raise Failed("simulated")
                real(lp)
            model.monitor_.report = report
            try:
                return model.fit(T["data"][0], T["data"][2])
            finally:
                del model.monitor_.report
        return model.fit(T["data"][0], T["data"][2])


def lines_ok(ev, h):
    ls = ev.said.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    if len(ls) != len(h):
        return f"{len(ls)} lines for {len(h)} iterations"
    for j, ln in enumerate(ls):
        f = ln.split()
        if len(f) != 3 or int(f[0]) != j + 1:
            return f"line {j + 1} is {ln!r}"
        want = [h[j], h[j] - h[j - 1] if j else np.nan]
        for a, b in zip(map(float, f[1:]), want):
            if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-7 + 1e-12 * abs(b)):
                return f"line {j + 1} is {ln!r}, record {want}"
    return None


def check_fit(out, hm, w, ev):
    T = w.tr[ev.op["tr"]]
    m, t = T["m"], T["t"]
    K, tol, own, assigned = ev.rule
    h, n = ev.h, len(ev.h)
    where = f"trainer {ev.op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')}) n_iter {K} tol " \
            f"{tol} own {own}: "
    out.probes["fits"] += 1
    if not ev.ret:
        out.bad("return", where + "fit did not return the model")
    if ev.iter != n:
        out.bad("record-length", where + f"iter {ev.iter}, {n} entries in the record")
        return

    def stop(j):            # does the rule stop after iteration j (1-based)?
        if own is not None:
            return j >= own
        return j >= 2 and h[j - 1] - h[j - 2] < tol
    want = next((j for j in range(1, n + 1) if stop(j)), None)
    bad = None
    if n > K:
        bad = f"{n} iterations, budget {K}: {h}"
    elif want is not None and want < n:
        bad = f"went on after iteration {want}: {h}"
    elif want is None and n < K:
        bad = f"stopped after {n} iterations: {h}"
    if bad:
        v = {"kind": "stopping", "detail": where + bad}
        if assigned:
            v["finding"] = "C13-assigned"
        out.violations.append(v)
        if not assigned:
            return
    if n and not assigned and own is None and not ev.conv:
        out.bad("not-converged", where + f"finished but does not report convergence: {h}")
    if t["verbose"]:
        bad = lines_ok(ev, h)
        out.probes["verbose_checked"] += 1
        if bad:
            out.bad("report", where + bad)
    # the same fit, one iteration at a time
    model = pickle.loads(ev.twin)
    hs = []
    try:
        for _ in range(n):
            model.n_iter = 1
            model.monitor_ = hm.base.ConvergenceMonitor(-np.inf, 1, False)
            model.fit(T["data"][0], T["data"][2])
            hs += [float(x) for x in model.monitor_.history]
        Q = spec.read_params(model, m)
    except Exception:
        out.probes["degenerate"] += 1
        return
    if not all(np.all(np.isfinite(v)) for v in Q.values() if isinstance(v, np.ndarray)) \
            or not np.all(np.isfinite(hs)):
        out.probes["degenerate"] += 1
        return
    out.probes["replayed"] += 1
    if len(hs) != n or not np.allclose(hs, h, rtol=1e-6, atol=1e-6):
        out.bad("record", where + f"record {h}, one iteration at a time {hs}")
        return
    if ev.P is None:
        out.bad("unreadable", where + "parameters unreadable")
        return
    d = train.diff_params(ev.P, Q, T["data"][1], 1e-5)
    if d and well(Q, m):
        out.bad("iterations-done", where + f"not the model of {n} iterations: {d[0]}: {d[1]}")


def well(Q, m):
    """Not so close to a collapsed covariance that rounding decides."""
    C = Q.get("covars")
    if C is None:
        return True
    if C.shape[-1] == C.shape[-2:][0] and (m["family"] != "gmm" or m["ct"] in ("full", "tied")):
        e = np.linalg.eigvalsh(C)
        return e.min() > 1e-6 * max(1., e.max())
    return C.min() > 1e-6


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    old, sys.stderr = sys.stderr, Err()
    try:
        w.run(script)
    finally:
        sys.stderr = old
    for ev in w.hist:
        if ev.op["op"] != "fit":
            if ev.exc is not None and not common.expected_fault(ev):
                out.bad("raised", f"{ev.op}: {common.describe(ev.exc)}")
            continue
        op = ev.op
        if ev.exc is not None:
            if common.expected_fault(ev) or isinstance(ev.exc, Failed) \
                    or (isinstance(ev.exc, OSError) and op.get("stderr")):
                if op.get("stderr"):
                    out.faults["stderr_full"] += 1
                out.probes["failed_by_fault"] += 1
                # (what the record shows after an interruption is bounded by the budget)
                if len(ev.h) > max(ev.rule[0], 0):
                    T = w.tr[op["tr"]]
                    prev = [e for e in w.hist if e.c == ev.c and e.k < ev.k
                            and e.op["op"] == "fit"]
                    if not prev or prev[-1].h != ev.h:
                        out.bad("record-length", f"{op} ({T['m']['family']}): interrupted fit "
                                f"left {ev.h}, budget {ev.rule[0]}")
                continue
            m = w.tr[op["tr"]]["m"]
            out.probes["fit_refused"] += 1
            if isinstance(ev.exc, (ValueError, ArithmeticError, np.linalg.LinAlgError)):
                continue     # collapsed covariances and the like: C18's question
            out.bad("raised", f"trainer {op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')}): "
                    f"{common.describe(ev.exc)}")
            continue
        if op.get("stderr") and w.tr[op["tr"]]["t"]["verbose"] \
                and len(ev.h) and op["stderr"] == 1:
            out.bad("write-error-lost", f"{op}: stderr failed and fit said nothing")
        check_fit(out, hm, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
