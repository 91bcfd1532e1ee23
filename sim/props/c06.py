"""C06: a training job restarted from a checkpoint continues the same trajectory."""
import hashlib
import pickle

import numpy as np
import _simcore as sc

from .. import common, engine, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1800, 40000
ABOUT = ("training jobs that checkpoint pickled models into two slots of a simulated disk and "
         "are killed mid-fit, mid-write and between epochs; only what the disk kept survives. "
         "Each completed epoch is compared with the uninterrupted job")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, k=(1, 1, 2, 3, r.choice([5, 8, 13])))
    cl = []
    for t in trs:
        t["epochs"] = r.randint(1, 5)
        t["inst"] = r.random() < .5
        t["mid"] = r.random() < .3
        t["own"] = r.choice([0, 0, 2, 3, 4])
        t["proto"] = r.choice([2, 4, 5])
        t["fresh"] = r.random() < .3
        evs = []
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            e = {"epoch": r.randrange(t["epochs"]),
                 "disk": r.choice(["ok", "ok", "lost", "torn", "flip"]),
                 "cut": r.random(), "crash": r.random() < .6}
            if r.random() < .6:
                e["fault"] = common.gen_fault(r, lines=200)
            evs.append(e)
        cl.append(evs)
    return {"sim": common.gen_sim(r, kernel=r.random() < .7), "trainers": trs,
            "history": cl}


def monitor_class(hm):
    """A monitor that hands a snapshot to `sink` after every iteration."""
    if "SnapMonitor" in globals():
        return globals()["SnapMonitor"]
    from hmmlearn.base import ConvergenceMonitor

    class SnapMonitor(ConvergenceMonitor):
        def report(self, log_prob):
            super().report(log_prob)
            self.sink(self)

        def __getstate__(self):
            d = dict(vars(self))
            d.pop("sink", None)
            return d
    SnapMonitor.__qualname__ = "SnapMonitor"
    SnapMonitor.__module__ = __name__
    globals()["SnapMonitor"] = SnapMonitor
    return SnapMonitor


def own_monitor(hm):
    """A user's monitor with its own rule and its own memory."""
    if "OwnMonitor" in globals():
        return globals()["OwnMonitor"]
    from hmmlearn.base import ConvergenceMonitor

    class OwnMonitor(ConvergenceMonitor):
        every, total = 2, 0

        def report(self, log_prob):
            super().report(log_prob)
            self.total += 1

        @property
        def converged(self):
            return self.total % self.every == 0 or self.iter == self.n_iter
    OwnMonitor.__qualname__ = "OwnMonitor"
    OwnMonitor.__module__ = __name__
    globals()["OwnMonitor"] = OwnMonitor
    return OwnMonitor


class Job:
    def __init__(self, hm, t):
        self.hm, self.t, self.m = hm, t, t["m"]
        self.P = spec.make_params(self.m)
        self.data = spec.make_data(self.m, t["d"], self.P)

    def start(self):
        t, m = self.t, self.m
        rs = np.random.RandomState(t["rs"]) if t["inst"] else t["rs"]
        model = spec.new_model(self.hm, m, n_iter=t["k"], tol=-np.inf, params=t["params"],
                               init_params=spec.CODES[m["family"]] if t["fresh"] else "",
                               random_state=rs)
        if not t["fresh"]:
            spec.set_params(model, m, self.P)
        if t.get("own") and not t["mid"]:
            old = model.monitor_
            model.monitor_ = own_monitor(self.hm)(old.tol, old.n_iter, old.verbose)
            model.monitor_.every = t["own"]
        return model

    def epoch(self, model, sink=None):
        if sink is not None:
            old = model.monitor_
            mon = monitor_class(self.hm)(old.tol, old.n_iter, old.verbose)
            mon.sink = sink
            model.monitor_ = mon
        model.fit(self.data[0], self.data[2])
        model.init_params = ""
        if self.t["inst"]:
            X, z = model.sample(3)
            return np.array(X, float), np.array(z)
        return None


def state(model):
    s = common.public_state(model)
    s["history"] = [float(x) for x in model.monitor_.history]
    s["iter"] = model.monitor_.iter
    if hasattr(model.monitor_, "total"):
        s["total"] = model.monitor_.total
    return s


def pack(obj, proto):
    b = pickle.dumps(obj, protocol=proto)
    return hashlib.sha256(b).digest() + b


def unpack(b):
    if b is None or len(b) < 32 or hashlib.sha256(b[32:]).digest() != b[:32]:
        return None
    return pickle.loads(b[32:])


def trajectory(job):
    """States and samples of the uninterrupted job, or None if it fails."""
    model, out = job.start(), []
    for _ in range(job.t["epochs"]):
        x = job.epoch(model)
        out.append((state(model), x))
    return out


def usable(traj):
    """Bounded, non-degenerate trajectories only (the comparison is numeric)."""
    for s, _ in traj:
        for k, v in s.items():
            if isinstance(v, np.ndarray) and not np.all(np.isfinite(v)):
                return False
        c = s.get("covars_")
        if c is not None and np.min(np.abs(c[c != 0]), initial=1) < 1e-6 and \
                np.max(np.abs(c)) < 1e-4:
            return False
    return True


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out = hm, plan, out
        self.hist = []
        self.jobs = [Job(hm, t) for t in plan["trainers"]]
        self.traj = []
        for j in self.jobs:
            try:
                tr = trajectory(j)
                self.traj.append(tr if usable(tr) else None)
            except Exception:
                self.traj.append(None)

    def bodies(self):
        return [lambda i=i: self.life(i) for i in range(len(self.jobs))]

    def compare(self, i, g, s, x, what):
        ref_s, ref_x = self.traj[i][g - 1]
        t, m = self.jobs[i].t, self.jobs[i].m
        self.out.probes["states_compared"] += 1
        sc_ = train.scale_of(np.asarray(self.jobs[i].data[1], float))
        bad = common.diff_state(s, ref_s, 1e-5, 1e-8 * sc_)
        if bad:
            k = bad[0]
            self.out.bad("diverged", f"job {i} ({m['family']} {m.get('ct', '')} {m['impl']}) "
                         f"{what}, epoch {g}: {k} is {common.show(s.get(k))}, uninterrupted "
                         f"job has {common.show(ref_s.get(k))}")
        elif x is not None and not (common.same(x[1], ref_x[1])
                                    and common.same(x[0], ref_x[0], 1e-5, 1e-6)):
            self.out.bad("rng-diverged", f"job {i} ({m['family']}) {what}, epoch {g}: sampled "
                         f"{x[1].tolist()} {common.show(x[0])}, uninterrupted job "
                         f"{ref_x[1].tolist()} {common.show(ref_x[0])}")

    def life(self, i):
        job, t = self.jobs[i], self.jobs[i].t
        if self.traj[i] is None:
            self.out.probes["no_reference"] += 1
            return
        events = list(self.plan["history"][i])
        disk = {0: None, 1: None}
        model, g, resumed = job.start(), 0, "fresh"
        for _ in range(t["epochs"] * (len(events) + 1) + 2):
            if g >= t["epochs"]:
                break
            e = next((e for e in events if e["epoch"] == g), None)
            if e is not None:
                events.remove(e)
            f = (e or {}).get("fault") or {}
            snaps = []
            sink = None
            if t["mid"]:
                sink = lambda mon: snaps.append(pickle.dumps(model))  # noqa: E731
            sc.op()
            sc.arm(line=f.get("line", 0), exc=f.get("exc", 0), uline=f.get("uline", 0),
                   occ=f.get("occ", 1), alloc=f.get("alloc", 0),
                   new=f.get("new", 0), stall=f.get("stall", 0),
                   stall_len=f.get("stall_len", 0), wline=f.get("wline", 0))
            x = err = None
            try:
                x = job.epoch(model, sink)
            except (Exception, KeyboardInterrupt) as ex:
                err = ex
            fired = sc.disarm()
            for k in ("line", "wline", "alloc", "new", "stall"):
                if fired.get(k):
                    self.out.faults[k] += 1
            hit = [k for k in ("line", "alloc", "new") if fired[k]]
            if err is not None and not hit:
                self.out.bad("raised", f"job {i} ({job.m['family']}) epoch {g + 1} after "
                             f"{resumed}: {common.describe(err)}")
                return
            if err is not None:
                self.out.faults["crash"] += 1
                if snaps and t["k"] == 1 and not t["inst"]:
                    # the monitor's snapshot of the finished iteration survived
                    self.out.probes["resumed_from_monitor_snapshot"] += 1
                    model, g, resumed = pickle.loads(snaps[-1]), g + 1, "monitor snapshot"
                    model.init_params = ""
                    self.compare(i, g, state(model), None, "after a " + resumed)
                else:
                    model, g, resumed = self.restart(i, disk)
                continue
            g += 1
            self.compare(i, g, state(model), x, f"after {resumed}")
            blob = pack((g, model), t["proto"])
            d = e["disk"] if e else "ok"
            if d == "ok":
                disk[g % 2] = blob
            elif d == "torn":
                disk[g % 2] = blob[:int(e["cut"] * len(blob))]
                self.out.faults["torn_write"] += 1
            elif d == "flip":
                p = int(e["cut"] * len(blob))
                disk[g % 2] = blob[:p] + bytes([blob[p] ^ 16]) + blob[p + 1:]
                self.out.faults["flipped_bit"] += 1
            else:
                self.out.faults["lost_write"] += 1
            if e and e["crash"]:
                self.out.faults["crash"] += 1
                model, g, resumed = self.restart(i, disk)
        if g < t["epochs"]:
            self.out.bad("no-progress", f"job {i} stuck at epoch {g}")
        self.hist.append(i)

    def restart(self, i, disk):
        best = None
        for b in disk.values():
            o = unpack(b)
            if o is not None and (best is None or o[0] > best[0]):
                best = o
        if best is None:
            self.out.probes["restarted_from_scratch"] += 1
            return self.jobs[i].start(), 0, "restart from scratch"
        self.out.probes["restarted_from_checkpoint"] += 1
        return best[1], best[0], f"restart from checkpoint {best[0]}"


def execute(plan, script, hm):
    out = Out()
    monitor_class(hm)
    w = W(hm, plan, out)
    st, sched = engine.run(plan["sim"], w.bodies(), script)
    out.absorb(st, sched)
    bad, _ = sc.heap_check()
    if bad:
        out.bad("heap-corruption", f"{bad} damaged heap blocks")
    out.nontrivial = st["switches"] > 0 and len(w.hist) > 1
    return out
