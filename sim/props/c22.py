"""C22: the stationary distribution is invariant, in every history."""
import numpy as np

from .. import common, spec, train
from ..common import Out
from . import c20

QUICK, THOROUGH = 2000, 60000
ABOUT = ("owners train, interrupt, edit, damage, reload and refit models and ask for the "
         "stationary distribution in between while others ask for those of shared models; the "
         "answer must be the invariant distribution of the transitions shown, or a refusal of "
         "transitions that are none")

OPS = ["stationary"]
STYLES = ["dense", "dense", "cyclic", "sticky", "ties", "sparse", "slow", "period"]


def gen(r, tier):
    plan = c20.gen(r, tier, OPS)
    plan["data"] = [{**d, "Ts": [min(t, 12) for t in d["Ts"]]} for d in plan["data"]]
    for t in plan["trainers"]:
        t["m"]["tstyle"] = r.choice(STYLES)
    for m in plan["models"]:
        m["tstyle"] = r.choice(STYLES)
        if r.random() < .1:
            m["nc"], m["family"] = r.choice([20, 40, 80]), "cat"
            m["nf"], m["estyle"] = 3, "dense"
    for ops in plan["clients"]:
        for op in list(ops):
            if op["op"] == "edit" and r.random() < .3:
                op["what"] = "damage"
                ops.insert(ops.index(op) + 1, {"op": "stationary", "tr": op["tr"]})
    return plan


class W(c20.W):
    ask = OPS

    def apply(self, op, ev):
        if op["op"] == "stationary":
            model = self.tr[op["tr"]]["model"] if "tr" in op else self.models[op["m"]]
            res = model.get_stationary_distribution()
            ev["copy"] = np.array(res)
            res[...] = 7.            # the caller's own
            return ev["copy"]
        return train.TrainWorld.apply(self, op, ev)

    def before(self, op, ev):
        super().before(op, ev)
        if op["op"] == "stationary":
            model = self.tr[op["tr"]]["model"] if "tr" in op else self.models[op["m"]]
            ev["A"] = np.array(model.transmat_, float) if hasattr(model, "transmat_") else None

    def edit(self, op):
        if op["what"] != "damage":
            return super().edit(op)
        model = self.tr[op["tr"]]["model"]
        if not hasattr(model, "transmat_"):
            return
        rs = np.random.RandomState(op["seed"])
        A = np.array(model.transmat_)
        i, kind = rs.randint(len(A)), rs.randint(5)
        if kind == 0:
            A[i] *= 1.25
        elif kind == 1:
            A[i] = 0
        elif kind == 2:
            A[i, rs.randint(len(A))] = np.nan
        elif kind == 3:
            A[i] = -.5
            A[i, i] += 1 - A[i].sum()
        else:
            A = A[:-1, :-1] if len(A) > 1 else np.ones((2, 2)) / 2
        model.transmat_ = A


def invariant(A):
    """(stationary distribution, smallest singular value) of a transition matrix."""
    n = len(A)
    M = np.vstack([A.T - np.eye(n), np.ones((1, n))])
    s = np.linalg.svd(M, compute_uv=False)[-1]
    if s < 1e-10:
        return None, s
    return np.linalg.lstsq(M, np.append(np.zeros(n), 1.), rcond=None)[0], s


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if op["op"] != "stationary":
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        A, m = ev.A, ev.m
        where = f"client {ev.c} op {ev.k} {op} ({m['family']}): "
        if A is None:
            if ev.exc is None:
                out.bad("answered", where + "without transitions")
            continue
        ok = A.shape == (m["nc"],) * 2 and bool(np.all(np.isfinite(A)) and np.all(A >= 0))
        off = np.max(np.abs(A.sum(-1) - 1)) if ok else 1
        if not ok or off > 1e-4:
            out.probes["damaged"] += 1
            if ev.exc is None:
                out.bad("damage-used", where + f"answered {ev.res} for {common.show(A)}")
            elif not isinstance(ev.exc, ValueError):
                out.bad("damage-crash", where + common.describe(ev.exc))
            continue
        if off > 1e-9:
            continue
        want, s = invariant(A)
        if want is None:
            out.probes["several_classes"] += 1
            continue
        if ev.exc is not None:
            out.bad("raised", where + common.describe(ev.exc))
            continue
        out.probes["checked"] += 1
        p = np.asarray(ev.res)
        tol = (3e-15 * len(A) + 3 * off) / s + 1e-9
        out.probes["slow_chains"] += bool(s < 1e-5)
        if p.shape != want.shape or p.dtype.kind != "f":
            out.bad("shape", where + f"{p.shape} {p.dtype} for {m['nc']} states")
        elif not np.all(np.abs(p - want) <= tol):
            out.bad("not-invariant", where + f"got {common.show(p)}, invariant is "
                    f"{common.show(want)}")
    out.nontrivial = len(w.hist) > 1 and (out.stats["switches"] > 0 or len(plan["clients"]) == 1)
    return out
