"""C23: what an operation costs follows the data it is given, not the history."""
import collections
import functools
import gc
import pickle
import sys
import types
import weakref

import numpy as np
import _simcore as sc

from .. import common, spec
from ..common import Out, World

QUICK, THOROUGH = 900, 24000
ABOUT = ("clients use and train models on one, two and four times the same data - longer or more "
         "sequences - over and over, some operations failing; the simulated clock and heap must "
         "show work and memory in proportion to the data, the same early and late in the "
         "history, and nothing piling up")

SCALES = [1, 2, 4]
ROUNDS = 4
# what is measured, and the growth of it that is not worth a word
METERS = {"kev": 3000, "lines": 120, "peak": 10_000, "bytes": 40_000}
PROBES = {"kev": "native_steps", "lines": "lines_of_code", "peak": "bytes_held_at_once",
          "bytes": "bytes_asked_for"}


def gen(r, tier):
    m = spec.gen_model(r, max_nc=5, styles=["dense", "dense", "sticky"], min_nc=1)
    m["nm"] = m.get("nm") and min(m["nm"], 3)
    m["hyper"] = {}
    grow = r.choice(["long", "long", "many"])
    if grow == "long":
        Ts = [r.choice([100, 300, 600])] if r.random() < .6 else \
            [r.randint(40, 200) for _ in range(r.choice([2, 3]))]
    else:
        Ts = [r.choice([2, 3, 5, 8]) for _ in range(30 if m["family"] == "gmm" else
                                                     r.choice([30, 60, 100]))]
    d = {"seed": r.getrandbits(30), "Ts": Ts, "src": r.choice(["model", "model", "noise"]),
         "none": False, "form": "plain", "lform": r.choice(["list", "array"]), "scale": 1.0}
    cl = []
    for i in range(r.choice([1, 2, 2, 3])):
        kinds = []
        for _ in range(r.choice([1, 2, 2])):
            op = {"op": r.choice(common.INFER + ["fit", "fit", "fit", "sample"]
                                + ["ic"] * (m["family"][0] != "v"))}
            if op["op"] == "decode":
                op["alg"] = r.choice(["viterbi", "map"])
            if op["op"] == "ic":
                op["which"] = r.choice(["aic", "bic"])
            kinds.append(op)
        ops = [{**k, "x": x} for k in kinds for x in SCALES]
        r.shuffle(ops)
        for _ in range(r.choice([0, 2, 5])):
            op = dict(r.choice(ops))
            if r.random() < .5:
                op["fault"] = common.gen_fault(r, ("alloc", "new", "line"))
            ops.insert(r.randrange(len(ops) + 1), op)
        if r.random() < .5:
            ops.append({"op": "rounds", "kinds": kinds, "x": 1,
                        "upset": r.random() < .4 and r.randint(1, 40)})
        cl.append(ops)
    sim = common.gen_sim(r)
    sim["gap"] = max(sim["gap"], 100)
    sim["pline"] = min(sim["pline"], .1)
    return {"sim": sim, "m": m, "d": d, "grow": grow, "clients": cl}


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        m = self.m = plan["m"]
        self.P = spec.make_params(m)
        self.shared = self.build(m, self.P)
        self.tr = [self.fresh() for _ in plan["clients"]]
        X, _, _ = spec.make_data(m, plan["d"], self.P)
        Ts = plan["d"]["Ts"]
        parts = np.split(np.asarray(X), np.cumsum(Ts)[:-1])
        self.data = {}
        for x in SCALES:
            a, b = (x, 1) if plan["grow"] == "long" else (1, x)
            seqs = [np.concatenate([p] * a) for p in parts] * b
            L = [len(s) for s in seqs]
            self.data[x] = (np.concatenate(seqs), None,
                            np.array(L) if plan["d"]["lform"] == "array" else L)

    def fresh(self):
        return spec.set_params(spec.new_model(
            self.hm, self.m, n_iter=1, tol=-np.inf, init_params="",
            params=spec.CODES[self.m["family"]]), self.m, self.P)

    def before(self, op, ev):
        if op["op"] == "fit":
            ev["model"] = self.fresh()

    def apply(self, op, ev):
        if op["op"] == "rounds":
            return self.rounds(op, ev)
        self.use(op, ev.model if op["op"] == "fit" else self.shared)

    def use(self, op, model):
        X, _, L = self.data[op["x"]]
        if op.get("turn"):              # other data, otherwise divided
            X, L = np.roll(X, op["turn"], 0), list(L)
            for k in range(min(op["turn"], max(L) - 1)):
                i, j = L.index(max(L)), L.index(min(L))
                L[i] -= 1
                L[j] += i != j
            X = X[:sum(L)]
        if op["op"] == "fit":
            model.fit(X, L)
        elif op["op"] == "sample":
            model.sample(len(X), random_state=5)
        elif op["op"] == "ic":
            getattr(model, op["which"])(X, L)
        else:
            common.infer(model, op, (X, None, L))

    def rounds(self, op, ev):
        """Such work again and again, on ever new data; what each time leaves behind."""
        left = []
        mine = self.tr[ev.c]
        alone = len(self.plan["clients"]) == 1
        for k in range(ROUNDS):
            for j, kind in enumerate(op["kinds"]):
                kind = {**kind, "x": op["x"], "turn": 3 * k}
                if op["upset"]:
                    sc.arm(alloc=op["upset"])
                    try:
                        self.use(kind, mine)
                    except Exception:
                        pass
                    sc.arm()
                spec.set_params(mine, self.m, self.P)
                self.use(kind, mine)
            left.append((len(pickle.dumps(mine)), sc.live(ev.c),
                         package_state(self.hm) if alone else 0))
        ev["left"] = left    # not repeatable: depends on what ran before in this process
        return len(left)


CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque, types.CellType,
              types.FunctionType, types.MethodType, classmethod, staticmethod, property,
              functools.partial, functools._lru_cache_wrapper, weakref.WeakKeyDictionary,
              weakref.WeakValueDictionary, type, np.ndarray)


def package_state(hm):
    """How many objects hmmlearn's modules, classes and functions hold on to."""
    name = hm.__name__.split(".")[0]
    mods = [m for k, m in sorted(sys.modules.items()) if m is not None
            and (k == name or k.startswith(name + "."))]
    seen = {id(vars(m)) for m in [*sys.modules.values()] if isinstance(m, types.ModuleType)}
    todo = [v for m in mods for k, v in list(vars(m).items())
            if k not in ("__warningregistry__", "__builtins__")]
    count = 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, types.ModuleType):
            continue
        count += 1
        own = str(getattr(type(x), "__module__", "")).split(".")[0] == name
        if not own and not isinstance(x, CONTAINERS):
            continue
        if isinstance(x, (type, types.FunctionType)) \
                and str(getattr(x, "__module__", "")).split(".")[0] != name:
            continue
        seen.add(id(x))
        todo.extend(gc.get_referents(x))
    return count


def cost(ev):
    return {k: ev.fired[k] for k in METERS}


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    m = plan["m"]
    seen = {}
    for ev in w.hist:
        op = ev.op
        who = f"client {ev.c} op {ev.k} {op['op']} ({m['family']} {m['impl']}): "
        if ev.exc is not None:
            out.probes["failed"] += 1
            if not common.expected_fault(ev) and op["op"] != "ic" \
                    and not isinstance(ev.exc, (ValueError, ArithmeticError)):
                out.bad("raised", who + common.describe(ev.exc))
            continue
        if op["op"] == "rounds":
            out.probes["rounds"] += 1
            for i, what in ((0, "the serialised model"), (1, "the number of arrays alive"),
                            (2, "what the package holds on to")):
                if i == 1 and op["upset"]:       # scipy's wrappers leak when they fail
                    continue
                v = [a[i] for a in ev.left]
                if all(y > x for x, y in zip(v[1:], v[2:])) and v[1] > v[0]:
                    out.bad("piles-up", who + f"{what} grows with every repetition of "
                            f"{op['kinds']}: {v}")
            continue
        if op.get("fault"):
            continue
        key = (op["op"], op.get("alg") or op.get("which"), op["x"])
        seen.setdefault(key, []).append((who, cost(ev)))
    for key, evs in seen.items():
        first = evs[0][1]
        for who, c in evs[1:]:
            out.probes["repeated"] += 1
            for k, slack in METERS.items():
                if noisy(key[0], m, k):
                    continue
                if c[k] > 1.4 * first[k] + slack:
                    out.bad("dearer", who + f"{c[k]} {PROBES[k].replace('_', ' ')} on "
                            f"{key[2]}-fold data, {first[k]} when first done")
    for key in seen:
        if key[2] != 1:
            continue
        evs = [seen.get((key[0], key[1], x)) for x in SCALES]
        if not all(evs):
            continue
        out.probes["growths"] += 1
        for k, slack in METERS.items():
            if noisy(key[0], m, k):
                continue
            c1, c2, c4 = (min(c[k] for _, c in e) for e in evs)
            # doubling at most doubles; numpy saves temporaries of large arrays
            if c4 > 2.35 * c2 + slack or c2 > 2.35 * c1 + slack:
                out.bad("superlinear", f"{key[0]} {key[1] or ''} ({m['family']} {m['impl']}, "
                        f"{plan['grow']}): {c1}, {c2}, {c4} {PROBES[k].replace('_', ' ')} for "
                        f"1, 2, 4 times {sum(plan['d']['Ts'])} samples")
    out.nontrivial = len(w.hist) > 2 and (out.stats["switches"] > 0 or len(plan["clients"]) == 1)
    return out


def noisy(op, m, meter):
    """GMMHMM clusters the data before training: as long as that happens to take."""
    return op == "fit" and m["family"] == "gmm" and meter == "bytes"
