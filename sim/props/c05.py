"""C05: EM never lowers the likelihood, whatever happens to the training run."""
import numpy as np

from .. import common, ref, spec, train
from ..common import Out

QUICK, THOROUGH = 2200, 50000
ABOUT = ("maximum-likelihood trainers (flat priors) interrupted at arbitrary points, resumed, "
         "reloaded and restored from checkpoints; the exact likelihood of the parameters left "
         "behind by every operation, and every monitor history, must not fall")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM, n, flat=True, k=(1, 2, 4, 8))
    train.gen_trials(r, trs)
    faults = r.random() < .7
    cl = [train.gen_history(r, i, t, r.randint(2, 5), faults, infers=.05)
          for i, t in enumerate(trs)]
    for i, ops in enumerate(cl):
        for o in ops:
            o.pop("init", None)
            if o["op"] == "fit" and faults and r.random() < .4:
                o["fault"] = {"exc": r.choice([0, 0, 0, 1, 2])}
                if r.random() < .5:
                    o["fault"]["line"] = r.choice([r.randint(1, 300), r.randint(1, 1200)])
                else:
                    o["fault"].update(uline=r.randint(1, 180), occ=r.choice([1, 1, 1, 2, 3]))
        if not any(o["op"] == "fit" for o in ops):
            ops.append({"op": "fit", "tr": i})
    return {"sim": common.gen_sim(r, kernel=r.random() < .8), "trainers": trs, "clients": cl}


def ok_cov(P):
    if "covars" not in P:
        return True
    C = ref.full_covars(P)
    return np.all(np.isfinite(C)) and np.linalg.eigvalsh(C).min() > 1e-4


def evaluate(P, m, data):
    """Exact log-likelihood, or None where the claim is not made."""
    if P is None or not spec.valid_params(P) or not ok_cov(P):
        return None
    try:
        E = ref.Eval(P, data[1], data[2])
    except ref.Degenerate:
        return None
    if not E.possible or (m["impl"] == "scaling" and not E.safe()):
        return None
    return E.ll


def check(out, w, ev):
    op = ev.op
    T = w.tr[op["tr"]]
    m, data = T["m"], ev.data
    where = f"trainer {op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')} {m['impl']} " \
            f"params={ev.params}{' failed' if ev.exc is not None else ''}): "
    a = evaluate(ev.pre["P"], m, data)
    b = evaluate(ev.post["P"], m, data)
    if a is None or b is None:
        out.probes["not_claimed"] += 1
        return
    out.probes["checked_failed" if ev.exc is not None else "checked"] += 1
    out.probes[m["family"] + "/" + m["impl"]] += 1
    tol = 1e-8 * abs(a) + 1e-6
    if b < a - tol:
        out.bad("likelihood-fell", where + f"{a!r} -> {b!r}")
        return
    h = ev.post["hist"]
    if ev.exc is not None:
        # what an interrupted fit leaves is at least as good as the last
        # iteration it has put on record
        if h != ev.pre["hist"] and h and np.isfinite(h[-1]) and b < h[-1] - tol:
            out.bad("below-record", where + f"record {h}, left behind {b!r}")
        return
    if ev.exc is None:
        if any(not np.isfinite(x) for x in h):
            out.bad("history", where + f"{h}")
            return
        for x, y in zip(h, h[1:]):
            if y < x - tol:
                out.bad("history-fell", where + f"{h}")
                return
        if h and (h[0] < a - tol or h[-1] > b + tol):
            out.bad("history", where + f"{h} between {a!r} and {b!r}")


def execute(plan, script, hm):
    out = Out()
    w = train.TrainWorld(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        if ev.op["op"] == "fit" and ev.get("post"):
            if ev.exc is not None and not common.expected_fault(ev):
                out.probes["refused"] += 1
            check(out, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
