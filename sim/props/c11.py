"""C11: sequences given together are treated as if given one by one."""
import pickle

import numpy as np

from .. import common, spec, train
from ..common import Out, World

QUICK, THOROUGH = 2600, 60000
ABOUT = ("clients score, decode and train on differently ordered batches of the same sequences "
         "at once, some sequences impossible under the model, some batches with malformed "
         "lengths; every batch must answer as its sequences do alone")

BAD = ["short", "long", "zero", "neg", "empty", "zeros", "swap", "wrap", "wrap"]


def gen(r, tier):
    m = spec.gen_model(r, max_nc=6)
    m["hyper"] = spec.gen_hyper(r, m, flat=True) if r.random() < .5 else {}
    d = spec.gen_data(r, m, max_T=40, lengths_none=False)
    while len(d["Ts"]) < 2 or sum(d["Ts"]) < 6 * m["nc"] * m.get("nm", 1) + 10:
        d["Ts"].append(r.choice([1, 2, 5, 13, 30]))
    ns = len(d["Ts"])
    cl = []
    faults = r.random() < .4
    for _ in range(r.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(r.randint(1, 4)):
            pick = list(range(ns))
            r.shuffle(pick)
            x = r.random()
            if x < .3:
                pick = pick[:r.randint(1, ns)]
            elif x < .4:
                pick = [r.choice(pick) for _ in range(r.randint(2, 6))]
            op = {"op": r.choice(common.INFER), "pick": pick,
                  "form": r.choice(["plain", "fortran", "stride", "ro", "list", "neg",
                                    "reuse"]),
                  "lform": r.choice(["list", "array", "tuple", "i32", "i8", "u8", "reuse",
                                     "reuse"])}
            if op["op"] == "decode":
                op["alg"] = r.choice([None, "viterbi", "map"])
            if r.random() < .25:
                op["op"] = "fit"
                op["params"] = r.choice([spec.CODES[m["family"]],
                                         train.gen_params(r, m["family"])])
                op["k"] = r.choice([1, 1, 1, 2])
            elif r.random() < .25 and x >= .3:
                op["poison"] = r.randrange(len(pick))
            if r.random() < .2:
                op["bad"] = r.choice(BAD)
            if faults and r.random() < .3:
                op["fault"] = common.gen_fault(r)
            if ops and r.random() < .3:      # the same sequences in the same buffers
                op["form"], op["lform"] = "reuse", "reuse"
                op["pick"] = r.sample(ops[-1]["pick"], len(ops[-1]["pick"]))
                if op.get("poison") is not None:
                    op["poison"] = 0
                ops[-1]["form"], ops[-1]["lform"] = r.choice(["plain", "reuse"]), "reuse"
            ops.append(op)
        cl.append(ops)
    return {"sim": common.gen_sim(r), "m": m, "d": d, "clients": cl}


def spoil(m, x):
    """A sequence that no state can have produced (where the family has any)."""
    x = np.array(x)
    if m["family"] in ("gauss", "gmm", "vgauss"):
        x = x.astype(float)
        x[len(x) // 2] = 1e170
    elif m["family"] == "pois":
        x[len(x) // 2] = 10 ** 7
    return x


def shape_as(X, form):
    if form == "fortran":
        return np.asfortranarray(X)
    if form == "stride":
        big = np.zeros((2 * len(X), X.shape[1]), X.dtype)
        big[::2] = X
        return big[::2]
    if form == "neg":
        return np.ascontiguousarray(X[::-1])[::-1]
    if form == "ro":
        X.flags.writeable = False
        return X
    return X.tolist() if form == "list" else X


def mangle(kind, L):
    n = sum(L)
    if kind == "short":
        return [n - 1] if len(L) == 1 or n < 2 else L[:-1]
    if kind == "long":
        return L + [1]
    if kind == "zero":
        return L + [0]
    if kind == "zeros":
        return [0] + L
    if kind == "neg":
        return L[:-1] + [L[-1] + 2, -2]
    if kind == "swap":
        return [-1, 1] + L
    if kind == "wrap":      # would slice from the end: n-1 samples, then one
        return [-1, n + 1]
    return []


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        m = self.m = plan["m"]
        self.P = spec.make_params(m)
        self.model = self.build(m, self.P)
        _, plain, _ = spec.make_data(m, {**plan["d"], "form": "plain"}, self.P)
        self.seqs = np.split(plain, np.cumsum(plan["d"]["Ts"])[:-1])
        try:
            self.model.score(self.seqs[0])
        except Exception:
            pass
        self.bytes = pickle.dumps(self.model)
        self.memo, self.buffers = {}, {}
        self.state = common.public_state(self.model)

    def batch(self, op, cid):
        xs = [self.seqs[i] for i in op["pick"]]
        if op.get("poison") is not None:
            xs[op["poison"]] = spoil(self.m, xs[op["poison"]])
        X = np.concatenate(xs)
        L = [len(x) for x in xs]
        if op.get("bad"):
            L = mangle(op["bad"], L)
        form, lform = op["form"], op["lform"]
        if lform == "reuse":          # one list per client, refilled for every call
            lens = self.buffers.setdefault((cid, "lens"), [])
            lens[:] = L
        elif lform in ("i8", "u8") and (not L or not 0 <= min(L) <= max(L) < 128):
            lens = L
        else:
            lens = {"list": list, "tuple": tuple, "array": np.array, "i32": np.int32,
                    "i8": np.int8, "u8": np.uint8}[lform](L)
        if form == "reuse":
            buf = self.buffers.setdefault((cid, X.shape, X.dtype), X)
            buf[...] = X
            X = buf
        return xs, shape_as(X, form), lens

    def apply(self, op, ev):
        xs, X, L = ev.batch
        if op["op"] == "fit":
            ev.model.fit(X, L)
            return None
        return common.infer(self.model, op, (X, None, L))

    def trainee(self, op):
        model = spec.new_model(self.hm, self.m, n_iter=op["k"], tol=-np.inf, init_params="",
                               params=op["params"])
        return spec.set_params(model, self.m, self.P)

    def before(self, op, ev):
        ev["batch"] = self.batch(op, ev.c)
        ev["lens"] = list(ev.batch[2])
        if op["op"] == "fit":
            ev["model"] = self.trainee(op)

    def after(self, op, ev):
        if op["op"] == "fit" and ev["exc"] is None:
            try:
                ev["post"] = spec.read_params(ev["model"], self.m)
                ev["ll"] = [float(x) for x in ev["model"].monitor_.history]
            except Exception as e:
                ev["post"] = common.describe(e)

    def alone(self, op, x):
        """The same question about one sequence, put to a private copy."""
        key = (op["op"], op.get("alg"), x.tobytes())
        if key not in self.memo:
            model = pickle.loads(self.bytes)
            try:
                self.memo[key] = ("ok", common.infer(model, op, (x, None, None)))
            except Exception as e:
                self.memo[key] = ("err", e)
        return self.memo[key]


def join(op, parts):
    o = op["op"]
    if o == "score":
        return (sum(parts), None)
    if o == "predict":
        return (None, np.concatenate(parts))
    if o == "predict_proba":
        return (None, np.concatenate(parts))
    return (sum(p[0] for p in parts), np.concatenate([p[1] for p in parts]))


def check_infer(out, w, ev, where):
    op, m = ev.op, w.m
    xs = ev.batch[0]
    alone = [w.alone(op, x) for x in xs]
    if any(k == "err" for k, _ in alone):
        out.probes["sequence_refused"] += 1
        if ev.exc is None:
            out.bad("refusal-lost", where + "answered a batch containing a sequence that is "
                    "refused on its own")
        return
    if ev.exc is not None:
        out.bad("raised", where + common.describe(ev.exc))
        return
    ll, rows = join(op, [v for _, v in alone])
    got = ev.res if isinstance(ev.res, tuple) else \
        ((ev.res, None) if op["op"] == "score" else (None, ev.res))
    out.probes["batches_compared"] += 1
    if ll is not None:
        a, b = float(got[0]), float(ll)
        if not (a == b or (a != a and b != b) or common.close(a, b, 1e-9, 1e-8)):
            out.bad("batch-score", where + f"{a!r}, one by one {b!r}")
            return
    if rows is None:
        return
    a = np.asarray(got[1])
    if a.shape != rows.shape:
        out.bad("batch-shape", where + f"{a.shape}, one by one {rows.shape}")
    elif a.dtype.kind == "f":
        if not np.allclose(a, rows, rtol=0, atol=1e-8, equal_nan=True):
            t = int(np.argmax(np.nan_to_num(np.abs(a - rows), nan=9).max(1)))
            out.bad("batch-posterior", where + f"row {t}: {a[t].tolist()}, alone "
                    f"{rows[t].tolist()}")
    elif not np.array_equal(a, rows):
        # equally good paths may differ by rounding; the log probabilities agree (above)
        t = int(np.argmax(a != rows))
        if not near_tie(w, op, xs, a, rows):
            out.bad("batch-path", where + f"sample {t}: state {a[t]}, alone {rows[t]}")
        out.probes["path_ties"] += 1



def near_tie(w, op, xs, a, b):
    from .. import ref
    X = np.concatenate(xs)
    E = ref.Eval(w.P, X, [len(x) for x in xs])
    if not E.possible:
        return True
    alg = op.get("alg") or w.m["alg"]
    if alg == "viterbi":
        return common.close(E.path(a), E.path(b))
    g = E.gamma
    i = np.arange(len(a))
    return bool(np.all(np.abs(g[i, a] - g[i, b]) < 1e-7))


def check_fit(out, w, ev, where):
    op, m = ev.op, w.m
    order = sorted(op["pick"])
    model = w.trainee(op)
    xs = [w.seqs[i] for i in order]
    try:
        model.fit(np.concatenate(xs), [len(x) for x in xs])
        want = spec.read_params(model, m)
    except Exception as e:
        out.probes["fit_refused"] += 1
        if ev.exc is None and isinstance(ev.post, dict):
            if all(np.all(np.isfinite(v)) for v in ev.post.values() if isinstance(v, np.ndarray)):
                out.bad("fit-refusal", where + f"fitted; in another order: {common.describe(e)}")
        return
    if not all(np.all(np.isfinite(v)) for v in want.values() if isinstance(v, np.ndarray)):
        out.probes["degenerate"] += 1
        return
    if "covars" in want and np.size(want["covars"]):
        C = np.asarray(want["covars"])
        if m["family"] in ("gauss", "vgauss") or m["ct"] in ("full", "tied"):
            if np.linalg.eigvalsh(C).min() < 1e-6:
                out.probes["degenerate"] += 1
                return
        elif C.min() < 1e-6:
            out.probes["degenerate"] += 1
            return
    if ev.exc is not None:
        out.bad("fit-raised", where + common.describe(ev.exc))
        return
    if not isinstance(ev.post, dict):
        out.bad("fit-unreadable", where + str(ev.post))
        return
    out.probes["fits_compared"] += 1
    h = [float(x) for x in model.monitor_.history]
    if len(h) != len(ev.ll) or not np.allclose(h, ev.ll, rtol=1e-7, atol=1e-6, equal_nan=True):
        out.bad("fit-order", where + f"log likelihoods {ev.ll}, in another order {h}")
        return
    d = train.diff_params(ev.post, want, np.concatenate(xs), 1e-6 * 10 ** (2 * op["k"] - 2))
    if d:
        out.bad("fit-order", where + f"{d[0]} depends on the order: {d[1]}")


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    m = w.m
    for ev in w.hist:
        op = ev.op
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        where = f"client {ev.c} op {ev.k} {op['op']} ({m['family']} {m.get('ct', '')} " \
                f"{m['impl']}) sequences {op['pick']} lengths {ev.lens}: "
        if op.get("bad"):
            out.probes["malformed_" + op["bad"]] += 1
            if ev.exc is None:
                out.bad("malformed-accepted", where + "malformed lengths were accepted")
            elif not isinstance(ev.exc, (ValueError, TypeError, IndexError)):
                out.bad("malformed-raised", where + common.describe(ev.exc))
            continue
        (check_fit if op["op"] == "fit" else check_infer)(out, w, ev, where)
    d = common.diff_state(common.public_state(w.model), w.state)
    if d:
        out.bad("model-changed", f"{d} changed by inference")
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
