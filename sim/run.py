"""Check one property: build, explore, minimise, report.

  python -m sim.run C01            quick or thorough from VERIF_TIER
  python -m sim.run C01 --replay F replay a violation file
"""
import copy
import hashlib
import importlib.util
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNK = 20
# numpy itself died of an injected allocation failure: the run tells nothing
LIBRARY_CRASH = "exit 78"


class Harness(Exception):
    pass


class Worker:
    def __init__(self, stage, prop, tier, env=None):
        e = build.env()
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [build.PY, "-m", "sim.worker", stage, prop, tier], cwd=VERIF, env=e,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True)
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            raise Harness("worker did not start:\n" + self.stderr())

    def stderr(self):
        self.err.seek(0)
        return self.err.read()[-6000:].decode(errors="replace")

    def ask(self, req):
        req.setdefault("id", 0)
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        msgs = []
        for line in self.p.stdout:
            m = json.loads(line)
            if m.get("end"):
                return msgs, m["status"]
            msgs.append(m)
        raise Harness("worker died:\n" + self.stderr())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


def crash_kind(status):
    if status.startswith("signal"):
        return "crash: " + status
    if status == "exit 77":
        return "nontermination: a native loop did not end"
    return None


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except FileNotFoundError:
        return {}
    return {x["id"]: x for x in k.get("findings", []) if x["property"] == prop}


def kind_of(v):
    return v["kind"]


class Check:
    def __init__(self, prop, tier, seed, jobs=None, runs=None, budget=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.jobs = jobs or max(1, min(8, len(os.sched_getaffinity(0))))
        self.known = known_findings(prop)
        consts = self.constants()
        quick = tier != "thorough"
        self.runs = runs or consts["QUICK" if quick else "THOROUGH"]
        self.budget = budget or (consts.get("QUICK_S", 75) if quick
                                 else consts.get("THOROUGH_S", 780))
        self.about = consts.get("ABOUT", "")
        self.rule = consts.get("RULE", "")

    def constants(self):
        out = {}
        path = os.path.join(VERIF, "sim", "props", self.prop.lower() + ".py")
        import ast
        tree = ast.parse(open(path).read())
        for n in tree.body:
            if isinstance(n, ast.Assign):
                try:
                    v = ast.literal_eval(n.value)
                except ValueError:
                    continue
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = v
                    elif isinstance(t, ast.Tuple):
                        for a, b in zip(t.elts, v):
                            out[a.id] = b
        return out

    def run_seed(self, i):
        return f"{self.prop}:{self.seed}:{i}"

    def main(self):
        t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="hmmsim-")
        try:
            self.stage = build.stage(os.path.join(self.scratch, "stage"))
            self.build_s = time.time() - t0
            return self.explore(t0)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- exploration ----
    def explore(self, t0):
        self.agg = {"runs": 0, "nontrivial": 0, "fps": set(), "faults": Counter(),
                    "probes": Counter(), "stats": Counter(), "known": Counter(),
                    "wall": 0.0}
        self.samples, self.harness, found = [], [], []
        nchunks = (self.runs + CHUNK - 1) // CHUNK
        nextc = iter(range(nchunks))
        lock = threading.Lock()
        stop = threading.Event()
        deadline = time.time() + self.budget

        def loop():
            w = None
            try:
                w = Worker(self.stage, self.prop, self.tier)
                while not stop.is_set() and time.time() < deadline:
                    with lock:
                        c = next(nextc, None)
                    if c is None:
                        break
                    runs = [{"seed": self.run_seed(i)} for i in
                            range(c * CHUNK, min(self.runs, (c + 1) * CHUNK))]
                    while runs:
                        msgs, status = w.ask({"runs": runs, "timeout": 240})
                        with lock:
                            self.collect(msgs)
                            bad = self.judge(c, runs, msgs, status)
                            if bad:
                                found.append(bad)
                                stop.set()
                            if bad or status != LIBRARY_CRASH:
                                break
                            self.agg["probes"]["numpy_crashed_out_of_memory"] += 1
                            runs = runs[len(msgs) + 1:]
            except Harness as e:
                with lock:
                    self.harness.append(str(e))
                stop.set()
            except Exception:
                import traceback
                with lock:
                    self.harness.append(traceback.format_exc())
                stop.set()
            finally:
                if w:
                    w.close()
        t1 = time.time()
        ths = [threading.Thread(target=loop) for _ in range(self.jobs)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.agg["wall"] = time.time() - t1
        viol = None
        found.sort(key=lambda b: b["chunk"])
        for b in found:
            if b["kind"] == "harness":
                self.harness.append(b["detail"])
            elif viol is None:
                viol = b
        path = None
        if viol:
            path = self.minimise(viol)
            if path is None:
                self.harness.append("violation did not reproduce: " + json.dumps(viol)[:3000])
                viol = None
        self.evidence(time.time() - t0, 1 if viol else 0)
        for k in sorted(self.agg["known"]):
            print(f"KNOWN-FINDING: property={self.prop} {self.known[k]['what']}")
        a = self.agg
        print(f"{self.prop}: {a['runs']} runs ({a['nontrivial']} with interleaving), "
              f"{len(a['fps'])} distinct interleavings, {a['stats']['steps']} steps, "
              f"faults {dict(a['faults'])}, {time.time() - t0:.1f}s")
        if viol:
            print(f"violation: {viol['kind']}: {viol['detail']}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.harness:
            print("HARNESS ERROR\n" + "\n".join(self.harness)[-6000:], file=sys.stderr)
            return 2
        if not a["runs"]:
            print("no run finished", file=sys.stderr)
            return 2
        return 0

    def collect(self, msgs):
        a = self.agg
        for m in msgs:
            a["runs"] += 1
            a["faults"].update(m["faults"])
            for k, v in m["probes"].items():
                a["probes"][k] = max(a["probes"][k], v) if k.endswith("_max") \
                    else a["probes"][k] + v
            st = m["stats"]
            for k in ("steps", "switches", "kernel", "line", "op", "held", "heap_allocs", "jumped"):
                a["stats"][k] += st.get(k, 0)
            if m["nontrivial"]:
                a["nontrivial"] += 1
                a["fps"].add(st.get("fp"))

    def split_known(self, vs):
        new = []
        for v in vs:
            if v.get("finding") in self.known:
                self.agg["known"][v["finding"]] += 1
            else:
                new.append(v)
        return new

    def judge(self, c, runs, msgs, status):
        for m in msgs:
            vs = self.split_known(m["violations"])
            if vs:
                return {"chunk": c, "kind": vs[0]["kind"], "detail": vs[0]["detail"],
                        "plan": m["plan"], "script": m["schedule"],
                        "prelude": runs[:m["i"]], "seed": runs[m["i"]]["seed"]}
        if status in ("ok", LIBRARY_CRASH):
            return None
        i = len(msgs)
        ck = crash_kind(status)
        if ck and i < len(runs):
            return {"chunk": c, "kind": ck, "detail": f"run {runs[i]['seed']}",
                    "seed": runs[i]["seed"], "plan": None, "script": None,
                    "prelude": runs[:i]}
        return {"chunk": c, "kind": "harness",
                "detail": f"chunk {c} run {i} ({runs[min(i, len(runs) - 1)]['seed']}): "
                          f"{status}"}

    # ---- reproduction and minimisation ----
    def attempt(self, w, runs, kind):
        """Do these runs (in a fresh fork) end in a violation of this kind?"""
        msgs, status = w.ask({"runs": runs, "timeout": 120, "full": True})
        ck = crash_kind(status)
        if ck is not None:
            return {"crash": True} if ck == kind else None
        if not msgs or len(msgs) < len(runs):
            return None
        for v in self.split_known(msgs[-1]["violations"]):
            if kind_of(v) == kind:
                return {**msgs[-1], "v": v}
        return None

    def minimise(self, b):
        kind = b["kind"]
        end = time.time() + (60 if self.tier != "thorough" else 180)
        w = Worker(self.stage, self.prop, self.tier)
        try:
            first = {"seed": b["seed"]} if b["plan"] is None else {"plan": b["plan"]}
            prelude = []
            r = self.attempt(w, [first], kind)
            if r is None:
                prelude = b["prelude"]
                r = self.attempt(w, prelude + [first], kind)
                if r is None:
                    return None
                while prelude and time.time() < end:   # shortest suffix that suffices
                    r2 = self.attempt(w, prelude[1:] + [first], kind)
                    if r2 is None:
                        break
                    prelude, r = prelude[1:], r2
            best = {"property": self.prop, "kind": kind, "detail": b["detail"],
                    "seed": b["seed"], "tier": self.tier, "prelude": prelude,
                    "run": first}
            crash = "crash" in r
            plan = r.get("plan")
            if crash and b["plan"] is None:
                plan = self.plan_of(b["seed"])
                if plan is not None and self.attempt(w, prelude + [{"plan": plan}], kind) is None:
                    plan = None
            if plan is not None:
                tried = 0
                changed = True
                while changed and time.time() < end:
                    changed = False
                    for cand in shrinks(plan):
                        if time.time() >= end:
                            break
                        tried += 1
                        r2 = self.attempt(w, prelude + [{"plan": cand}], kind)
                        if r2 is not None:
                            plan, r, changed = cand, r2, True
                            break
                best["run"] = {"plan": plan}
                if "v" in r:
                    best["detail"] = r["v"]["detail"]
                if not crash:
                    script = [list(x) for x in r["schedule"]]
                    if self.attempt(w, prelude + [{"plan": plan, "script": script}], kind):
                        script = self.ddmin(w, prelude, plan, script, kind,
                                            min(time.time() + 30, end + 20))
                        best["run"]["script"] = script
        finally:
            w.close()
        # replaying the file in a fresh process must reproduce it
        w = Worker(self.stage, self.prop, self.tier, {"PYTHONHASHSEED": "7"})
        try:
            if self.attempt(w, best["prelude"] + [best["run"]], kind) is None:
                best["run"], best["prelude"] = first, b["prelude"]
                if self.attempt(w, best["prelude"] + [first], kind) is None:
                    return None
        finally:
            w.close()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, "replays", f"{self.prop}-{self.seed}-{h}.json")
        with open(path, "w") as f:
            json.dump(best, f, indent=1)
        return path

    def plan_of(self, seed):
        code = ("import sys,json,random;sys.path.insert(0,sys.argv[1]);"
                "sys.path.insert(1,sys.argv[2]);import importlib;"
                "m=importlib.import_module('sim.props.'+sys.argv[3].lower());"
                "print(json.dumps(m.gen(random.Random(sys.argv[4]),sys.argv[5])))")
        p = subprocess.run([build.PY, "-c", code, self.stage, VERIF, self.prop, seed, self.tier],
                           capture_output=True, text=True, env=build.env())
        return json.loads(p.stdout) if p.returncode == 0 else None

    def ddmin(self, w, prelude, plan, script, kind, end):
        n = 2
        while len(script) > 1 and time.time() < end:
            size = max(1, len(script) // n)
            for i in range(0, len(script), size):
                cand = script[:i] + script[i + size:]
                if self.attempt(w, prelude + [{"plan": plan, "script": cand}], kind):
                    script = cand
                    n = max(n - 1, 2)
                    break
                if time.time() >= end:
                    break
            else:
                if size == 1:
                    break
                n = min(len(script), n * 2)
        return script

    # ---- evidence ----
    def evidence(self, wall, violations):
        a = self.agg
        hours = max(a["wall"], 1e-9) / 3600
        samples = self.sample_plans()
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "exploration", "wall_s": round(wall, 2), "violations": violations,
            "coverage": {
                "evaluations": a["runs"],
                "distinct_nontrivial": len(a["fps"]),
                "rule": self.rule or
                "each evaluation is one simulated run drawn from its own seed (plan, schedule, "
                "faults); counted when at least two clients interleaved, distinct by the hash "
                "of its sequence of context switches (step, client)",
                "samples": samples,
                "about": self.about,
                "runs_per_hour": int(a["runs"] / hours),
                "seeds": f"{self.run_seed(0)} .. {self.run_seed(max(a['runs'] - 1, 0))}",
                "interleaved_runs": a["nontrivial"],
                "simulated_steps": a["stats"]["steps"],
                "simulated_steps_jumped_while_all_stalled": a["stats"]["jumped"],
                "context_switches": a["stats"]["switches"],
                "native_yield_points": a["stats"]["kernel"],
                "python_line_yield_points": a["stats"]["line"],
                "native_events_holding_gil": a["stats"]["held"],
                "simulated_heap_allocations": a["stats"]["heap_allocs"],
                "faults_fired": dict(a["faults"]),
                "conditions_reached": dict(a["probes"]),
                "known_findings_seen": dict(a["known"]),
                "build_s": round(self.build_s, 1),
                "real_components": [
                    "hmmlearn's Python modules from the working tree, unmodified",
                    "hmmlearn's C++ extension from the working tree, recompiled with "
                    "yield-point instrumentation", "numpy, scipy, scikit-learn, CPython"],
                "stub_components": [
                    "thread scheduler (baton passing)", "numpy data allocator and C++ heap",
                    "convergence monitors and stderr where a plan injects failures",
                    "storage under checkpoints (in-memory)"],
            },
            "assumptions": [
                "numpy/scipy/scikit-learn calls are atomic between yield points",
                "the reference model in sim/ref.py (validated by path enumeration in "
                "sim/selftest.py)"],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def sample_plans(self):
        try:
            w = Worker(self.stage, self.prop, self.tier)
            msgs, _ = w.ask({"runs": [{"seed": self.run_seed(i)} for i in range(3)],
                             "timeout": 120, "full": True})
            w.close()
        except Harness:
            return []
        out = []
        for m in msgs:
            out.append({"seed": self.run_seed(m["i"]), "plan": m["plan"],
                        "schedule_head": m["schedule"][:12], "stats": m["stats"],
                        "faults": m["faults"]})
        return out or ["no sample"]


LISTS = ("clients", "ops", "history", "events", "queries", "extra")


def shrinks(plan):
    """Simpler plans, most drastic first."""
    def paths(o, p=()):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in LISTS and isinstance(v, list):
                    yield p + (k,)
                yield from paths(v, p + (k,))
        elif isinstance(o, list):
            for i, v in enumerate(o):
                if isinstance(v, list) and p and p[-1] == "clients":
                    yield p + (i,)
                yield from paths(v, p + (i,))

    def get(o, p):
        for k in p:
            o = o[k]
        return o

    def edit(p, f):
        c = copy.deepcopy(plan)
        f(get(c, p))
        return c
    seen = set()
    for p in list(paths(plan)):
        if p in seen:
            continue
        seen.add(p)
        n = len(get(plan, p))
        lo = 1 if p[-1] == "clients" else 0
        if n >= 4:
            yield edit(p, lambda x: x.__delitem__(slice(n // 2, n)))
            yield edit(p, lambda x: x.__delitem__(slice(0, n // 2)))
        if n > lo:
            for i in range(n - 1, -1, -1):
                yield edit(p, lambda x: x.__delitem__(i))

    def dicts(o, p=()):
        if isinstance(o, dict):
            yield p, o
            for k, v in o.items():
                yield from dicts(v, p + (k,))
        elif isinstance(o, list):
            for i, v in enumerate(o):
                yield from dicts(v, p + (i,))
    for p, o in list(dicts(plan)):
        if o.get("fault"):
            yield edit(p, lambda x: x.__setitem__("fault", None))
            if len(o["fault"]) > 1 and "stall" in o["fault"]:
                continue
        if "Ts" in o:
            Ts = o["Ts"]
            if len(Ts) > 1:
                for i in range(len(Ts)):
                    yield edit(p, lambda x: x["Ts"].__delitem__(i))
            for i, t in enumerate(Ts):
                for nt in (1, 2, t // 2, t - 1):
                    if 1 <= nt < t:
                        yield edit(p, lambda x: x["Ts"].__setitem__(i, nt))
            if o.get("form", "plain") != "plain":
                yield edit(p, lambda x: x.__setitem__("form", "plain"))
        if "gap" in o and "pline" in o:
            if o["pline"]:
                yield edit(p, lambda x: x.__setitem__("pline", 0.0))
            if o["gap"] < 1e6:
                yield edit(p, lambda x: x.__setitem__("gap", x["gap"] * 20))
            if o.get("poison") != 0x7ff8dead0000beef:
                yield edit(p, lambda x: x.__setitem__("poison", 0x7ff8dead0000beef))


def replay(path, prop=None):
    with open(path) as f:
        b = json.load(f)
    scratch = tempfile.mkdtemp(prefix="hmmsim-")
    try:
        c = Check(b["property"], b["tier"], 0)
        c.agg = {"known": Counter()}
        c.stage = build.stage(os.path.join(scratch, "stage"))
        w = Worker(c.stage, b["property"], b["tier"])
        r = c.attempt(w, b["prelude"] + [b["run"]], b["kind"])
        w.close()
        if r is None:
            print("not reproduced")
            return 0
        print(json.dumps(r.get("v", r), indent=1)[:3000])
        print(f"VIOLATION property={b['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if "--replay" in args:
        return replay(args[args.index("--replay") + 1])
    prop = args[0]
    opt = dict(a[2:].split("=", 1) for a in args[1:] if a.startswith("--"))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    try:
        return Check(prop, tier, seed, jobs=int(opt.get("jobs", 0)),
                     runs=int(opt.get("runs", 0)), budget=float(opt.get("budget", 0))).main()
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e), file=sys.stderr)
        return 2
    except Harness as e:
        print("HARNESS ERROR\n" + str(e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
