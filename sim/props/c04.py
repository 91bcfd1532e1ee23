"""C04: variational training updates exactly and its bound never falls."""
import numpy as np

from .. import common, ref, spec, train
from ..common import Out

QUICK, THOROUGH = 2200, 50000
ABOUT = ("variational trainers taken through fit / failed fit / reload histories; each "
         "completed fit is compared with the reference variational updates and bound")

POST = ("start", "trans", "emission", "beta", "means", "dof", "scale")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.VB, n, k=(1, 2, 3, 5))
    for t in trs:
        train.gen_long(r, t)
    faults = r.random() < .5
    cl = [train.gen_history(r, i, t, r.randint(1, 4), faults) for i, t in enumerate(trs)]
    for i, ops in enumerate(cl):
        if not any(o["op"] == "fit" for o in ops):
            ops.append({"op": "fit", "tr": i})
    return {"sim": common.gen_sim(r, kernel=r.random() < .8), "trainers": trs, "clients": cl}


def sane(V):
    for k, v in V.items():
        if isinstance(v, np.ndarray) and not np.all(np.isfinite(v)):
            return False
    return all(np.all(V[k] > 0) for k in V if k.startswith(("start_", "trans_", "emission_",
                                                            "beta_")))


def subnorm_safe(V, X, L):
    """Is the scaled recursion within double range for these posteriors?"""
    return ref.vb_fbs(V, X, L) is not None and all(
        f.scaling_safe() for f in ref.vb_fbs(V, X, L)[0])


def check_fit(out, w, ev):
    op = ev.op
    T = w.tr[op["tr"]]
    m, data = T["m"], ev.data
    V = ev.pre["V"]
    where = f"trainer {op['tr']} op {ev.k} ({m['family']} {m.get('ct', '')} {m['impl']} " \
            f"params={ev.params}): "
    if V is None or not sane(V):
        out.probes["unusable_before"] += 1
        return
    if "c" in ev.params and "m" not in ev.params and m["family"] == "vgauss":
        out.probes["unspecified_update"] += 1
        return
    if op.get("init"):
        H = spec.hyper(m)
        for n, v in H.items():
            n = next(a for a, b in spec.VB_NAMES.items() if n.startswith(b)) + "_prior"
            if not np.array_equal(V[n], np.broadcast_to(v, V[n].shape)):
                out.bad("prior", where + f"{n}: {common.show(V[n])}, given {common.show(v)}")
                return
    k = T["t"]["k"]
    bounds, full = [], True
    try:
        for j in range(k):
            if m["impl"] == "scaling" and not subnorm_safe(V, data[1], data[2]):
                out.probes["unsafe_scaling"] += 1
                return
            if ref.vb_underflow(V):
                out.probes["below_double_range"] += 1
                return
            b, V = ref.vb_step(V, data[1], data[2], ev.params)
            bounds.append(b)
    except (ref.Degenerate, np.linalg.LinAlgError):
        out.probes["degenerate"] += 1
        return
    if ev.exc is not None:
        out.bad("raised", where + common.describe(ev.exc))
        return
    R = ev.post["V"]
    if R is None:
        out.bad("unreadable", where + str(ev.post.get("Verr")))
        return
    h = ev.post["hist"]
    out.probes["fits_checked"] += 1
    out.probes[m["family"] + "/" + m["impl"]] += 1
    if len(h) != k:
        out.bad("iterations", where + f"history {h}, {k} iterations asked")
        return
    rt = 1e-6 * (1 if k == 1 else 30)
    s = train.scale_of(np.asarray(data[1], float))
    for n in V:
        if n.endswith("_post") or n.endswith("_prior"):
            a, b = np.asarray(R[n], float), np.asarray(V[n], float)
            atol = 1e-7 * (s if n.startswith(("scale", "means")) else 1) * max(1, data[1].shape[0] / 50)
            if a.shape != b.shape or not np.allclose(a, b, rtol=rt, atol=atol):
                out.bad("update", where + f"{n}: got {common.show(a)}, expected {common.show(b)}")
                return
    # derived point estimates follow the posteriors
    P = ev.post["P"]
    if P is not None:
        for c, name in (("s", "start"), ("t", "trans"), ("e", "emission")):
            if c in ev.params and name in P:
                q = np.asarray(R[name + "_post"], float)
                if not np.allclose(P[name], q / q.sum(-1, keepdims=True), rtol=1e-9):
                    out.bad("point-estimate", where + name)
                    return
        if m["family"] == "vgauss" and "c" in ev.params:
            C = ref.vb_full_scale(R, "post") / np.broadcast_to(
                np.asarray(R["dof_post"], float), (m["nc"],))[:, None, None]
            if not np.allclose(P["covars"], C, rtol=1e-8, atol=1e-10 * s):
                out.bad("point-estimate", where + "covars")
                return
    for j in range(1, k):
        mag = max(abs(h[j]), abs(h[j - 1]), abs(bounds[j]), abs(bounds[j - 1]))
        got, want = h[j] - h[j - 1], bounds[j] - bounds[j - 1]
        if abs(got - want) > 1e-5 * max(1, abs(want)) + 1e-9 * mag:
            out.bad("bound-increment", where + f"iteration {j}: {got!r}, exact {want!r}")
            return
        # coordinate ascent over the full conjugate family cannot lower the bound
        if m.get("ct") in (None, "full", "tied") and got < -1e-9 * mag - 1e-7:
            out.bad("bound-fell", where + f"iteration {j}: {h}")
            return


def execute(plan, script, hm):
    out = Out()
    w = train.TrainWorld(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if ev.op["op"] == "fit":
            out.probes["fits_from_scratch"] += bool(ev.op.get("init"))
            check_fit(out, w, ev)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
