"""Shared pieces of the simulated scenarios: worlds, client operations, oracles."""
import copy
import io
import os
import pickle
import sys
import traceback
import zlib
from collections import Counter

import numpy as np
import _simcore as sc

from . import engine, ref, spec


def fold(x):
    """A repeatable picture of a value (no addresses)."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, str(x.dtype), zlib.crc32(np.ascontiguousarray(x).tobytes()))
    if isinstance(x, dict):
        return [(str(k), fold(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [fold(v) for v in x]
    if isinstance(x, BaseException):
        return type(x).__name__
    if x is None or isinstance(x, (int, float, str, bytes, np.generic)):
        return repr(x)
    return type(x).__name__


class Out:
    """What one simulated run reports."""

    def __init__(self):
        self.violations = []
        self.probes = Counter()
        self.faults = Counter()
        self.stats = {}
        self.schedule = []
        self.nontrivial = False
        self.digest = 0

    def note(self, *what):
        """Fold something that must be repeatable into the run's digest."""
        self.digest = zlib.crc32(repr([fold(x) for x in what]).encode(), self.digest)
        if LOG:
            print("NOTE", what, [fold(x) for x in what], file=sys.stderr, flush=True)

    def bad(self, kind, detail):
        self.violations.append({"kind": kind, "detail": str(detail)[:1500]})

    def absorb(self, st, sched):
        self.schedule = sched
        self.stats = st


def gen_sim(r, kernel=True):
    """Scheduler and heap knobs, different for every run."""
    return {"seed": r.getrandbits(60),
            "gap": r.choice([3, 8, 30, 100, 400, 2000, 20000] if kernel else [200, 3000, 1e6]),
            "pline": r.choice([0.0, 0.02, 0.1, 0.3, 0.6]),
            "heap": 1, "poison": r.choice([0x7ff8dead0000beef, 0x7ff0000000000000,
                                           0xc08f400000000000, 0x3ff0000000000000, 0])}


def describe(e):
    return f"{type(e).__name__}: {e}"


LOG = os.environ.get("SIM_LOG")


class Event(dict):
    __getattr__ = dict.get


class World:
    """Models and data of one run, shared by its clients."""

    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out = hm, plan, out
        self.mspecs = plan.get("models", [])
        self.P0 = [spec.make_params(m) for m in self.mspecs]
        self.models = []
        for m, P in zip(self.mspecs, self.P0):
            self.models.append(self.build(m, P))
        self.data = []
        for d in plan.get("data", []):
            self.data.append(spec.make_data(self.mspecs[d["m"]], d, self.P0[d["m"]]))
        self.hist = []

    def build(self, m, P):
        model = spec.new_model(self.hm, m, **m.get("kw", {}))
        return spec.set_params(model, m, P)

    def run(self, script=None, extra_bodies=()):
        bodies = [self.client(i, ops) for i, ops in enumerate(self.plan["clients"])]
        bodies += list(extra_bodies)
        st, sched = engine.run(self.plan["sim"], bodies, script)
        self.out.absorb(st, sched)
        bad, _ = sc.heap_check()
        if bad:
            self.out.bad("heap-corruption", f"{bad} damaged heap blocks")
        return self

    def client(self, i, ops):
        def body():
            try:
                for k, op in enumerate(ops):
                    self.do(i, k, op)
            except engine.StepCap:
                self.out.bad("nontermination", "step budget exhausted between operations")
        return body

    def do(self, cid, k, op):
        sc.op()
        ev = Event(c=cid, k=k, op=op, start=sc.now(), res=None, exc=None)
        f = op.get("fault") or {}
        self.before(op, ev)
        if f:
            sc.arm(line=f.get("line", 0), exc=f.get("exc", 0), uline=f.get("uline", 0),
                   wline=f.get("wline", 0), occ=f.get("occ", 1), alloc=f.get("alloc", 0),
                   new=f.get("new", 0), stall=f.get("stall", 0),
                   stall_len=f.get("stall_len", 0))
        else:
            sc.arm()
        try:
            ev["res"] = self.apply(op, ev)
        except engine.StepCap as e:
            ev["exc"] = e
            self.out.bad("nontermination", f"step budget exhausted in {op}")
        except (Exception, KeyboardInterrupt) as e:
            ev["exc"] = e
            ev["tb"] = traceback.format_exc(limit=-4)
        fired = sc.disarm()
        self.after(op, ev)
        ev["fired"] = fired
        ev["fault_fired"] = [x for x in ("line", "alloc", "new") if fired[x]]
        for x in ("line", "alloc", "new", "stall"):
            if fired[x]:
                self.out.faults[x] += 1
        ev["end"] = sc.now()
        self.hist.append(ev)
        # byte counts depend on what library caches the process already holds
        self.out.note(cid, k, ev["start"], ev["end"], ev["exc"], ev["res"],
                      {n: v for n, v in fired.items()
                       if n not in ("bytes", "peak")})
        sc.op()
        return ev

    def before(self, op, ev):
        pass

    def after(self, op, ev):
        pass

    def apply(self, op, ev):
        return infer(self.models[op["m"]], op, self.data[op["d"]])


INFER = ["score", "score_samples", "predict_proba", "decode", "predict"]


def infer(model, op, data):
    X, _, L = data
    o = op["op"]
    if o == "decode":
        return model.decode(X, L, op["alg"]) if op.get("alg") else model.decode(X, L)
    return getattr(model, o)(X, L)


def gen_fault(r, kinds=("alloc", "new", "stall", "line"), lines=60):
    k = r.choice(kinds)
    if k == "alloc":
        return {"alloc": r.choice([1, 2, 3, 5, 8, r.randint(1, 60)])}
    if k == "new":
        return {"new": r.choice([1, 1, 2, r.randint(1, 6)])}
    if k == "stall":
        return {"stall": r.choice([1, 5, 50, r.randint(1, 3000)]),
                "stall_len": r.choice([50, 2000, 50000, 10 ** 7])}
    y = r.random()
    if y < .25:     # between two assignments to attributes
        return {"wline": r.choice([r.randint(1, 12), r.randint(1, 40)]),
                "exc": r.choice([0, 0, 1, 2])}
    if y < .6:      # every source line is equally likely, however often it runs
        return {"uline": r.choice([r.randint(1, 60), r.randint(1, 180)]),
                "occ": r.choice([1, 1, 1, 2, 3]), "exc": r.choice([0, 0, 1, 2])}
    return {"line": r.choice([r.randint(1, 12), r.randint(1, lines), r.randint(1, lines)]),
            "exc": r.choice([0, 0, 1, 2])}


def expected_fault(ev):
    """Is this operation's exception the injected one (or caused by it)?"""
    e = ev["exc"]
    ff = ev["fault_fired"]
    if not ff:
        return False
    if "alloc" in ff or "new" in ff:
        return True        # numpy and scipy may turn a failed allocation into anything
    while e is not None:
        if isinstance(e, (KeyboardInterrupt, MemoryError, engine.Fault)):
            return True
        e = e.__cause__ or e.__context__
    return False


LL_RTOL = 1e-8
PO_ATOL = 1e-7


def close(a, b, rtol=LL_RTOL, atol=1e-7):
    return abs(a - b) <= atol + rtol * abs(b)


class Oracle:
    """Caches reference evaluations of (parameters, data)."""

    def __init__(self):
        self.cache = {}

    def ev(self, key, P, data):
        if key not in self.cache:
            self.cache[key] = ref.Eval(P, data[1], data[2])
        return self.cache[key]


def check_infer(out, op, res, exc, E, m, n, who=""):
    """Compare one inference result with the reference evaluation E."""
    impl = m["impl"]
    o = op["op"]
    viterbi = (o in ("decode", "predict") and (op.get("alg") or m["alg"]) == "viterbi")
    scaled = impl == "scaling" and not viterbi
    safe = E.possible and (not scaled or E.safe())
    where = f"{who}{o}{'/' + op['alg'] if op.get('alg') else ''} {m['family']} {impl}"
    if exc is not None:
        if safe or (viterbi and E.possible):
            out.bad("raised", f"{where}: {describe(exc)}")
        elif not isinstance(exc, (ValueError, ArithmeticError)):
            out.bad("raised", f"{where}: {describe(exc)}")
        else:
            out.probes["refused_extreme"] += 1
        return
    if not E.possible:
        out.probes["impossible_data"] += 1
        if o == "score" and not scaled and not (res == -np.inf):
            out.bad("score", f"{where}: impossible data scored {res}")
        return
    if not safe:
        out.probes["unsafe_scaling"] += 1
        return
    if o in ("score", "score_samples"):
        ll = res if o == "score" else res[0]
        if not (np.ndim(ll) == 0 and close(float(ll), E.ll)):
            out.bad("score", f"{where}: got {ll!r}, exact {E.ll!r}")
            return
    if o in ("score_samples", "predict_proba"):
        po = np.asarray(res[1] if o == "score_samples" else res)
        if po.shape != E.gamma.shape:
            out.bad("posterior-shape", f"{where}: {po.shape} != {E.gamma.shape}")
        elif not np.all(np.abs(po - E.gamma) <= PO_ATOL):
            t = int(np.argmax(np.nan_to_num(np.abs(po - E.gamma), nan=9).max(1)))
            out.bad("posterior", f"{where}: sample {t}: got {po[t].tolist()}, "
                    f"exact {E.gamma[t].tolist()}")
    if o in ("decode", "predict"):
        z = np.asarray(res[1] if o == "decode" else res)
        if z.shape != (n,):
            out.bad("path-shape", f"{where}: {z.shape} for {n} samples")
            return
        if not np.issubdtype(z.dtype, np.integer) or z.min() < 0 or z.max() >= m["nc"]:
            out.bad("path-range", f"{where}: {z.tolist()[:20]}")
            return
        if viterbi:
            opt, got = E.vit(), E.path(z)
            if not close(got, opt):
                out.bad("viterbi-suboptimal", f"{where}: path scores {got}, best {opt}")
            if o == "decode" and not close(float(res[0]), got):
                out.bad("viterbi-logprob", f"{where}: reported {res[0]}, path scores {got}")
        else:
            g = E.gamma
            short = g.max(1) - g[np.arange(n), z]
            if short.max() > 2 * PO_ATOL:
                t = int(short.argmax())
                out.bad("map-suboptimal", f"{where}: sample {t}: state {z[t]} of "
                        f"{g[t].tolist()}")


# ---- model state snapshots ----

def same(a, b, rtol=0., atol=0.):
    """Structural comparison; exact unless tolerances are given."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
            if rtol or atol:
                return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
            return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))
        return bool((a == b).all())
    if isinstance(a, np.random.RandomState) and isinstance(b, np.random.RandomState):
        x, y = a.get_state(legacy=False), b.get_state(legacy=False)
        return same(x, y)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if a != a and b != b:
            return True
        return a == b or (abs(a - b) <= atol + rtol * abs(b))
    if type(a).__module__.split(".")[0] in ("hmmlearn", "sim") and type(a) is type(b):
        return same(vars(a), vars(b), rtol, atol)
    try:
        return bool(a == b)
    except Exception:
        return False


PUB = ("startprob_", "transmat_", "emissionprob_", "means_", "covars_", "weights_",
       "lambdas_", "startprob_prior_", "startprob_posterior_", "transmat_prior_",
       "transmat_posterior_", "emissionprob_prior_", "emissionprob_posterior_",
       "means_prior_", "means_posterior_", "beta_prior_", "beta_posterior_",
       "dof_prior_", "dof_posterior_", "scale_prior_", "scale_posterior_")


def public_state(model, quiet=True):
    """Copies of the fitted parameters a user can read."""
    s = {}
    for n in PUB:
        try:
            v = getattr(model, n)
        except AttributeError:
            continue
        except Exception as e:      # e.g. covars_ without n_features
            v = describe(e)
        s[n] = copy.deepcopy(v)
    return s


def user_state(model):
    """Parameters plus constructor parameters plus convergence record."""
    s = public_state(model)
    for k, v in model.get_params().items():
        s["param:" + k] = copy.deepcopy(v)
    mon = model.monitor_
    s["monitor"] = (mon.iter, list(mon.history), mon.tol, mon.n_iter)
    return s


def diff_state(a, b, rtol=0., atol=0.):
    ks = [k for k in sorted(set(a) | set(b))
          if k not in a or k not in b or not same(a[k], b[k], rtol, atol)]
    return ks


def show(v):
    return np.array2string(np.asarray(v), precision=6, threshold=40) \
        if isinstance(v, np.ndarray) else repr(v)[:300]


class Stderr(io.StringIO):
    """sys.stderr of a run; can be made to fail like a full disk."""
    fail_at = 0

    def write(self, s):
        if self.fail_at:
            self.fail_at -= 1
            if not self.fail_at:
                raise OSError(28, "No space left on device")
        return super().write(s)
