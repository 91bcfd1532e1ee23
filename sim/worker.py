"""Worker: imports the staged build once, then forks one child per chunk.

stdin: one JSON request per line {"id", "runs": [...], "timeout"}; a run is either
{"seed": text} (plan drawn from it) or {"plan": ..., "script": ...}.
stdout: JSON lines; the last of each request is {"id", "end": true, "status"}.
"""
import gc
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import warnings
import zlib


def main():
    stage, prop, tier = sys.argv[1:4]
    sys.path.insert(0, stage)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(1, verif)
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    hm = load(stage)
    mod = importlib.import_module("sim.props." + prop.lower())
    if hasattr(mod, "warm"):
        mod.warm(hm)
    gc.collect()
    gc.freeze()
    gc.disable()
    proto.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                child(os.fdopen(w, "w", buffering=1), req, mod, hm, tier)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        status = relay(r, pid, proto, req)
        proto.write(json.dumps({"id": req["id"], "end": True, "status": status}) + "\n")


def relay(r, pid, proto, req):
    deadline = time.monotonic() + req.get("timeout", 300)
    buf = b""
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
        *lines, buf = buf.split(b"\n")
        for ln in lines:
            proto.write(ln.decode() + "\n")
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return "timeout"
    return "ok" if st == 0 else f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) \
        else f"exit {os.WEXITSTATUS(st)}"


def load(stage):
    import logging
    import threading
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.stats  # noqa: F401
    import scipy.special  # noqa: F401
    import sklearn.cluster  # noqa: F401
    from sim import engine
    threading.Lock = engine.SimLock
    threading.RLock = engine.SimRLock
    import hmmlearn.hmm
    import hmmlearn.vhmm
    import hmmlearn
    if not os.path.realpath(hmmlearn.__file__).startswith(os.path.realpath(stage)):
        raise SystemExit("staged hmmlearn not in use: " + hmmlearn.__file__)
    mods = [m for n, m in sorted(sys.modules.items())
            if n.split(".")[0] == "hmmlearn" and getattr(m, "__file__", "")
            and m.__file__.endswith(".py")]
    engine.instrument(mods)
    logging.getLogger("hmmlearn").setLevel(logging.CRITICAL)
    logging.raiseExceptions = False
    numpy.seterr(all="ignore")
    engine.sc.watch_crashes()
    prewarm(hmmlearn)
    return hmmlearn


def prewarm(hm):
    """First-use initialisation (lazy imports, caches) happens before any run."""
    import pickle
    import random as _r
    import numpy as np
    from sim import spec
    for i, fam in enumerate(spec.FAMS):
        for ct in (spec.CT if fam in ("gauss", "gmm", "vgauss") else [None]):
            r = _r.Random(i)
            m = spec.gen_model(r, [fam], max_nc=3, styles=["dense"], min_nc=2)
            if ct:
                m["ct"] = ct
            for impl in ("log", "scaling"):
                m["impl"] = impl
                d = spec.gen_data(r, m, max_T=30, min_total=20)
                X, _, L = spec.make_data(m, d)
                try:
                    model = spec.new_model(hm, m, n_iter=2, random_state=1)
                    model.fit(X, L)
                    model.decode(X, L)
                    model.score_samples(X, L)
                    if fam not in ("vcat", "vgauss"):
                        model.bic(X, L)
                    pickle.loads(pickle.dumps(model))
                    model.sample(3)
                except Exception:
                    pass
    from sklearn.base import clone
    clone(hm.hmm.GaussianHMM())
    np.random.seed(0)


def child(out, req, mod, hm, tier):
    for i, run in enumerate(req["runs"]):
        t0 = time.perf_counter()
        plan = run.get("plan")
        if plan is None:
            plan = mod.gen(random.Random(run["seed"]), tier)
        # no run may see what another one left in the shared generators
        seed = zlib.crc32(json.dumps(plan, sort_keys=True, default=str).encode())
        random.seed(seed)
        sys.modules["numpy"].random.seed(seed)
        res = mod.execute(plan, run.get("script"), hm)
        msg = {"id": req["id"], "i": i, "violations": res.violations,
               "probes": dict(res.probes), "faults": dict(res.faults), "stats": res.stats,
               "nontrivial": bool(res.nontrivial), "wall": time.perf_counter() - t0,
               "digest": res.digest}
        if res.violations or req.get("full"):
            msg["plan"] = plan
            msg["schedule"] = res.schedule
        out.write(json.dumps(msg, default=str) + "\n")
        gc.collect(1)


if __name__ == "__main__":
    main()
