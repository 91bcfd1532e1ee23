"""C17: no input, failure or schedule makes a pass touch memory that is not its own."""
import gc

import numpy as np
import _simcore as sc

from .. import common, ref, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1600, 40000
ABOUT = ("every array sits against an inaccessible page (after or before it) and starts out as "
         "one of two poison patterns; each scenario runs once with either pattern and must "
         "answer identically; inputs include malformed lengths, one-sample and impossible "
         "sequences, user-defined emission models returning arrays of odd layout, type and "
         "shape; allocations fail and clients are interrupted; aborted calls must not leak")

FORMS = ["plain", "fortran", "stride", "neg", "f32", "ro", "sub"]
WRONG = ["cols+", "cols-", "1d", "3d", "rows+", "rows-", "none"]
POISONS = [0x7ff8dead0000beef, 0x3fe5555555555555, 0xc08f400000000000, 0x0, 0x7ff0000000000000]


def gen(r, tier):
    models, datas = [], []
    for i in range(r.choice([1, 1, 2])):
        m = spec.gen_model(r, max_nc=8)
        m["hyper"] = {}
        large = r.random() < .02
        if large:
            m = spec.gen_model(r, ["cat", "pois", "gauss"])
            m["hyper"], m["nc"] = {}, r.choice([17, 33, 65, 130, 257, 300])
        models.append(m)
        d = spec.gen_data(r, m, max_T=2 if m["nc"] > 99 else 8 if large else 40,
                          max_seqs=2 if large else 4)
        d["m"] = i
        datas.append(d)
    cust = spec.gen_model(r, ["cat"], max_nc=8)
    cd = spec.gen_data(r, cust, max_T=30)
    cl = []
    for _ in range(r.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(r.randint(1, 4)):
            i = r.randrange(len(models))
            op = {"op": r.choice(common.INFER + ["fit", "sample"]), "m": i, "d": i}
            if op["op"] == "decode":
                op["alg"] = r.choice([None, "viterbi", "map"])
            x = r.random()
            if x < .15:
                op["bad"] = r.choice(["short", "long", "zero", "neg", "empty", "huge", "swap"])
            elif x < .5 and op["op"] != "sample":
                op["m"] = op["d"] = -1
                op["form"] = r.choice(FORMS) if r.random() < .6 else r.choice(WRONG)
            if op["op"] in common.INFER and r.random() < .15:
                op["spoil"] = 1
            if r.random() < .3:
                op["fault"] = common.gen_fault(r, ("alloc", "alloc", "new", "line"), lines=100)
            ops.append(op)
        cl.append(ops)
    if r.random() < .3:
        of = {k: v for k, v in r.choice(r.choice(cl)).items() if k != "fault"}
        if of["op"] in common.INFER and r.random() < .4:
            of["spoil"] = 1
        op = {"op": "leak", "of": of,
              "alloc": r.choice([0, 0, r.randint(1, 12)]), "new": r.choice([0, 0, 1, 2])}
        if op["alloc"]:
            op["new"] = 0
        cl.append([op])
    sim = common.gen_sim(r)
    if any(m["nc"] > 99 for m in models):
        sim["gap"] = max(sim["gap"], 1000)
    sim["heap"] = r.choice([2, 2, 3])
    sim["poison"], p2 = r.sample(POISONS, 2)
    return {"sim": sim, "poison2": p2, "models": models, "data": datas, "custom": cust,
            "cdata": cd, "clients": cl}


Custom = None


def warm(hm):
    global Custom

    class Custom_(hm.base.BaseHMM):
        """A user's emission model; what it returns is the plan's business."""
        form = "plain"

        def _get_n_fit_scalars_per_param(self):
            return None

        def _compute_log_likelihood(self, X):
            with np.errstate(divide="ignore"):
                a = np.log(self.table[:, X[:, 0]].T)
            return shaped(a, self.form)

        def _compute_likelihood(self, X):
            return shaped(self.table[:, X[:, 0]].T, self.form)

    Custom_.__name__ = Custom_.__qualname__ = "Custom"
    Custom = Custom_


def shaped(a, form):
    a = np.ascontiguousarray(a)
    n, c = a.shape
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "stride":
        b = np.empty((2 * n, 2 * c))
        b[::2, ::2] = a
        return b[::2, ::2]
    if form == "neg":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if form == "f32":
        return a.astype(np.float32)
    if form == "ro":
        a.flags.writeable = False
        return a
    if form == "sub":
        b = np.empty((n + 3, c + 2))
        b[1:n + 1, 1:c + 1] = a
        return b[1:n + 1, 1:c + 1]
    if form == "cols+":
        return np.concatenate([a, a[:, :1]], axis=1)
    if form == "cols-":
        return a[:, :-1]
    if form == "1d":
        return a[:, 0]
    if form == "3d":
        return a[None]
    if form == "rows+":
        return np.concatenate([a, a[:1]])
    if form == "rows-":
        return a[:-1]
    if form == "none":
        return np.empty((0, c))
    return a


def mangle(kind, L, n):
    L = list(L) if L is not None else [n]
    return {"short": [n - 1] if n > 1 else [n + 2], "long": L + [3], "zero": L + [0],
            "neg": L[:-1] + [L[-1] + 4, -4], "empty": [], "huge": [n, 2 ** 40],
            "swap": [-1, 1] + L}[kind]


def impossible(m, X):
    """Data whose last sample no state can have produced (where there is such a thing)."""
    X = np.array(X)
    if m["family"] in ("gauss", "gmm", "vgauss"):
        X = X.astype(float)
        X[-1] = 1e170
    elif m["family"] == "pois":
        X[-1] = 10 ** 7
    return X


class W(World):
    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        m = self.cm = plan["custom"]
        self.cP = spec.make_params(m)
        self.cdata = spec.make_data(m, {**plan["cdata"], "form": "plain"}, self.cP)

    def custom(self, form):
        c = Custom(n_components=self.cm["nc"], implementation=self.cm["impl"],
                   algorithm=self.cm["alg"], n_iter=1, tol=-np.inf, params="st", init_params="")
        c.form, c.table = form, self.cP["emission"]
        c.startprob_ = np.array(self.cP["start"])
        c.transmat_ = np.array(self.cP["trans"])
        return c

    def before(self, op, ev):
        ev["live"] = sc.live(ev.c)
        if op["op"] != "leak":
            ev["model"], ev["data"] = self.parts(op)

    def parts(self, op):
        if op["m"] < 0:
            c = self.custom(op["form"])
            if op.get("spoil"):         # the last symbol becomes impossible
                c.table = np.array(c.table)
                c.table[:, self.cdata[1][-1, 0]] = 0
            return c, self.cdata
        model, data = self.models[op["m"]], self.data[op["d"]]
        if op["op"] == "fit":
            m = self.mspecs[op["m"]]
            model = spec.set_params(spec.new_model(
                self.hm, m, n_iter=2, tol=-np.inf, init_params="",
                params=spec.CODES[m["family"]]), m, self.P0[op["m"]])
        if op.get("spoil"):
            X = impossible(self.mspecs[op["m"]], data[1])
            data = (X, X, data[2])
        if op.get("bad"):
            data = (data[0], data[1], mangle(op["bad"], data[2], len(data[1])))
        return model, data

    def apply(self, op, ev):
        if op["op"] == "leak":
            return self.leak(op, ev)
        return self.ask(op, ev.model, ev.data)

    def ask(self, op, model, data):
        if op["op"] == "sample":
            return model.sample(7, random_state=5)
        if op["op"] == "fit":
            model.fit(data[0], data[2])
            return {k: v for k, v in vars(model).items() if isinstance(v, np.ndarray)}
        return common.infer(model, op, data)

    def leak(self, op, ev):
        """The same call again and again: what stays allocated must not grow."""
        seen = []
        ev["foreign"] = False
        for _ in range(8):
            model, data = self.parts(op["of"])
            sc.arm(alloc=op["alloc"], new=op["new"])
            try:
                self.ask(op["of"], model, data)
            except Exception as e:
                # scipy's wrappers leak when an allocation inside them fails
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                here = tb.tb_frame.f_globals.get("__name__", "")
                if op["alloc"] and not here.startswith("hmmlearn"):
                    ev["foreign"] = True
                del tb
            sc.disarm()
            del model, data
            gc.collect()
            seen.append(sc.live(ev.c))
        sc.arm()
        return seen


def picture(ev):
    if ev.exc is not None:
        return type(ev.exc).__name__
    return ev.res


def execute(plan, script, hm):
    out = Out()
    o2 = Out()
    p2 = {**plan, "sim": {**plan["sim"], "poison": plan["poison2"]}}
    w2 = W(hm, p2, o2)
    w2.run(script)
    w = W(hm, plan, out)
    w.run(script)
    out.violations += o2.violations
    other = {(e.c, e.k): e for e in w2.hist}
    for ev in w.hist:
        op = ev.op
        if op["op"] == "leak":
            if ev.exc is None:
                out.probes["leaks_tested"] += 1
                seen = ev.res
                if ev["foreign"]:
                    out.probes["leak_in_dependency_possible"] += 1
                elif all(a < b for a, b in zip(seen[2:], seen[3:])):
                    out.bad("leak", f"{op}: live arrays after each of 8 identical calls: {seen}")
            continue
        where = f"client {ev.c} op {ev.k} {op}: "
        e2 = other.get((ev.c, ev.k))
        if e2 is None:
            out.bad("uninitialised", where + "not reached with the other memory contents")
            continue
        out.probes["pairs_compared"] += 1
        a, b = picture(ev), picture(e2)
        if (ev.exc is None) != (e2.exc is None) or not common.same(a, b):
            out.bad("uninitialised", where + f"depends on what fresh memory contains: "
                    f"{common.show(a)} / {common.show(b)}")
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if op.get("bad"):
            out.probes["malformed"] += 1
            if ev.exc is None and op["op"] != "sample":
                out.bad("malformed-accepted", where + "malformed lengths accepted")
            continue
        if op["m"] < 0:
            out.probes["custom_" + op["form"]] += 1
            if op["form"] in ("cols+", "cols-", "1d", "3d"):
                if ev.exc is None and (w.cm["nc"] > 1 or op["form"] != "1d"):
                    out.bad("shape-accepted", where + f"emission array of shape "
                            f"'{op['form']}' accepted")
                continue
            if op["form"] in WRONG or op.get("spoil"):
                continue
            if op["op"] == "fit":
                continue
            E = ref.Eval(w.cP, w.cdata[1], w.cdata[2])
            if op["form"] == "f32":
                continue
            common.check_infer(out, op, ev.res, ev.exc, E, w.cm, len(w.cdata[1]), where)
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
