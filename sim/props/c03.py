"""C03: every EM step equals the exact re-estimation, in every history."""
import numpy as np

from .. import common, ref, spec, train
from ..common import Out

QUICK, THOROUGH = 2200, 50000
ABOUT = ("training clients, each taking its own model through fit / failed fit / reload / "
         "restore histories; each completed fit is compared with the reference EM steps "
         "from the parameters it started with")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    long = r.random() < .05
    trs = train.gen_trainers(r, train.EM, n, max_T=300 if long else 60, k=(1, 1, 1, 2, 2, 3, 6))
    for t in trs:
        train.gen_long(r, t)
    train.gen_trials(r, trs)
    faults = r.random() < .5
    cl = [train.gen_history(r, i, t, r.randint(1, 4), faults) for i, t in enumerate(trs)]
    for i, ops in enumerate(cl):
        if not any(o["op"] == "fit" for o in ops):
            ops.append({"op": "fit", "tr": i})
    return {"sim": common.gen_sim(r, kernel=r.random() < .8), "trainers": trs, "clients": cl}


def steps(P, H, data, params, k, new):
    lls = []
    for j in range(k):
        ll, P = ref.em_step(P, H, data[1], data[2], params, gmm_new_means=new)
        lls.append(ll)
        if np.any(np.asarray(P["start"]).sum() < .5) or P.get("trans_empty") is not None:
            if j + 1 < k:
                raise ref.Degenerate("empty row")
        if j + 1 < k and hinges(P, data):
            raise ref.Degenerate("hinges on rounding")
    return lls, P


def hinges(P, data):
    """Does rounding decide how the data are explained?"""
    a, b = (ref.Eval(p, data[1], data[2]) for p in (P, ref.rounded(P)))
    return not b.possible or abs(a.ll - b.ll) > 1e-6 or np.abs(a.gamma - b.gamma).max() > 1e-6


def safe(P, m, data):
    return m["impl"] == "log" or ref.Eval(P, data[1], data[2]).safe()


def check_fit(out, w, ev):
    op = ev.op
    T = w.tr[op["tr"]]
    m, data = T["m"], ev.data
    P, H = ev.pre["P"], spec.hyper(m)
    where = f"trainer {op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')} {m['impl']} " \
            f"params={ev.params}): "
    if P is None:
        out.probes["unreadable_before"] += 1
        return
    if not spec.valid_params(P):
        out.probes["invalid_before"] += 1
        if ev.exc is None and op["op"] == "fit":
            pass        # whether it must be refused is C16's question
        return
    k = T["t"]["k"]
    try:
        if not safe(P, m, data):
            out.probes["unsafe_scaling"] += 1
            return
        lls, Q = steps(P, H, data, ev.params, k, False)
    except ref.Degenerate as e:
        out.probes["degenerate_" + str(e).replace(" ", "_")] += 1
        return
    if ev.exc is not None:
        out.bad("raised", where + common.describe(ev.exc))
        return
    R = ev.post["P"]
    if R is None:
        out.bad("unreadable", where + str(ev.post.get("Perr")))
        return
    h = ev.post["hist"]
    out.probes["fits_checked"] += 1
    out.probes[m["family"] + "/" + m["impl"]] += 1
    rt = 1e-6 * (1 if k == 1 else 30 if k < 4 else 1000)
    if len(h) != k:
        out.bad("iterations", where + f"history {h}, {k} iterations asked")
        return
    for j, (a, b) in enumerate(zip(h, lls)):
        if not common.close(a, b, rtol=1e-8 if j == 0 else 1e-5, atol=1e-6 if j else 1e-7):
            out.bad("loglik", where + f"iteration {j}: reported {a!r}, exact {b!r}")
            return
    skip = Q.get("trans_empty")
    if skip is not None:
        R = {**R, "trans": np.where(skip[:, None], Q["trans"], R["trans"])}
        out.probes["empty_rows"] += 1
    d = train.diff_params(R, Q, data[1], rt)
    if d and m["family"] == "gmm" and "c" in ev.params and "m" in ev.params:
        try:
            lls2, Q2 = steps(P, H, data, ev.params, k, True)
            d = d if train.diff_params(R, Q2, data[1], rt) else None
        except ref.Degenerate:
            d = None
    if d:
        out.bad("update", where + f"{d[0]}: {d[1]}")


def execute(plan, script, hm):
    out = Out()
    w = train.TrainWorld(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if ev.op["op"] == "fit":
            out.probes["fits_from_scratch"] += bool(ev.op.get("init"))
            check_fit(out, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
