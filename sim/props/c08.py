"""C08: using a model never changes it, even when the use fails half-way."""
import copy
import pickle

import numpy as np

from .. import common, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1600, 40000
ABOUT = ("clients sharing fitted or hand-set models and running every read operation on them, "
         "some of which are killed half-way; answers, caller-owned buffers, model parameters "
         "and constructor parameters are compared with copies taken before the run")

READS = ["score", "score_samples", "predict_proba", "decode", "predict", "sample", "aic", "bic",
         "stationary", "pickle", "deepcopy", "clone", "params", "covars", "repr"]


def gen(r, tier):
    nm = r.choice([1, 1, 2])
    models = []
    for _ in range(nm):
        m = spec.gen_model(r, max_nc=8, styles=r.choice([None, ["dense"]]))
        m["fit"] = r.random() < .5
        m["rs"] = r.choice(["none", "int", "inst"])
        m["loose"] = r.random() < .3
        m["virgin"] = r.random() < .5
        models.append(m)
    datas = []
    for _ in range(r.choice([1, 2, 3])):
        i = r.randrange(nm)
        d = spec.gen_data(r, models[i], max_T=50, min_total=4 * models[i]["nc"])
        d["m"] = i
        datas.append(d)
    fit = []
    for i, m in enumerate(models):
        fit.append(train.gen_train_data(r, m, 40))
    cl = []
    faults = r.random() < .6
    for _ in range(r.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(r.randint(1, 4)):
            d = r.randrange(len(datas))
            op = {"op": r.choice(READS), "m": datas[d]["m"], "d": d}
            if op["op"] == "decode":
                op["alg"] = r.choice([None, "viterbi", "map"])
            if op["op"] == "sample":
                op["seed"], op["n"] = r.randrange(10 ** 6), r.choice([1, 5, 20])
            if faults and r.random() < .35:
                op["fault"] = common.gen_fault(r)
            ops.append(op)
        cl.append(ops)
    return {"sim": common.gen_sim(r), "models": models, "data": datas, "fit": fit,
            "clients": cl}


def call(hm, model, op, data):
    o = op["op"]
    if o in common.INFER:
        return common.infer(model, op, data)
    if o == "sample":
        return model.sample(op["n"], random_state=op["seed"])
    if o in ("aic", "bic"):
        return getattr(model, o)(data[0], data[2])
    if o == "stationary":
        return model.get_stationary_distribution()
    if o == "pickle":
        return pickle.loads(pickle.dumps(model))
    if o == "deepcopy":
        return copy.deepcopy(model)
    if o == "clone":
        from sklearn.base import clone
        c = clone(model)
        return {k: v for k, v in c.get_params().items() if k != "random_state"}
    if o == "params":
        return {k: copy.deepcopy(v) for k, v in model.get_params().items()}
    if o == "covars":
        return {k: copy.deepcopy(getattr(model, k)) for k in ("covars_", "means_")
                if hasattr(model, k)}
    if o == "repr":
        return repr(model.monitor_)
    raise KeyError(o)


def finish(op, res):
    """What an answer amounts to (outside the reach of injected faults)."""
    return common.public_state(res) if op["op"] in ("pickle", "deepcopy") \
        else copy.deepcopy(res)


def whole(model):
    s = common.public_state(model)
    for k, v in model.get_params().items():
        s["param:" + k] = copy.deepcopy(v)
    mon = model.monitor_
    s["monitor"] = [mon.iter, [float(x) for x in mon.history], mon.tol, mon.n_iter, mon.verbose]
    s["n_features"] = getattr(model, "n_features", None)
    return s


class W(World):
    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        self.virgin = []
        for i, m in enumerate(self.mspecs):
            X, _, L = spec.make_data(m, plan["fit"][i], self.P0[i])
            model = self.models[i]
            if m["fit"]:
                model.set_params(n_iter=2)
                try:
                    model.fit(X, L)
                except Exception:
                    pass
            if m["loose"] and m["family"] not in train.VB:
                # normalised only up to the documented tolerance, as hand-typed values are
                g = np.random.RandomState(m["seed"] % 1000)
                for n in ("startprob_", "transmat_"):
                    a = np.array(getattr(model, n), float)
                    setattr(model, n, a * (1 + g.uniform(-4e-6, 4e-6, a.shape[:-1] + (1,))))
            rs = {"none": None, "int": 7, "inst": np.random.RandomState(7)}[m["rs"]]
            model.random_state = rs
            self.virgin.append(pickle.dumps(model))
            given = copy.deepcopy(model.get_params())
            try:     # attributes are brought into shape by the first use
                model.score(X, L)
            except Exception:
                pass
            now = model.get_params()
            for k in now:
                if not common.same(now[k], given[k]):
                    out.bad("model-changed", f"model {i} ({m['family']}): the first use changed "
                            f"{k} from {common.show(given[k])} to {common.show(now[k])}")
        self.expected = {}
        for ops in plan["clients"]:
            for op in ops:
                self.expected.setdefault(self.key(op), self.solo(op))
        self.before_all = [whole(m) for m in self.models]
        self.bufs = [self.buf(d) for d in self.data]

    @staticmethod
    def buf(d):
        return [np.array(d[0]), None if d[2] is None else np.array(d[2])]

    @staticmethod
    def key(op):
        return repr(sorted((k, v) for k, v in op.items() if k != "fault"))

    def solo(self, op):
        if self.mspecs[op["m"]]["virgin"] and op["op"] in common.INFER + ["sample", "aic"]:
            # the first use must answer as later ones do
            want = self.put(op, self.virgin[op["m"]])
            if want[0] == "ok":
                return want
        return self.put(op, pickle.dumps(self.models[op["m"]]))

    def put(self, op, pickled):
        model = pickle.loads(pickled)
        try:
            return ("ok", finish(op, call(self.hm, model, op, self.data[op["d"]])))
        except Exception as e:
            return ("err", type(e).__name__)

    def apply(self, op, ev):
        return call(self.hm, self.models[op["m"]], op, self.data[op["d"]])

    def after(self, op, ev):
        if ev["exc"] is None:
            res = ev["res"]
            ev["res"] = finish(op, res)
            self.scribble(res)

    def scribble(self, res):
        """The caller owns what it was given: overwriting it must be harmless."""
        for a in (res if isinstance(res, (tuple, list)) else [res]):
            if isinstance(a, np.ndarray) and a.flags.writeable and a.ndim:
                a.fill(1 if a.dtype.kind in "iu" else 0.123)


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        kind, want = w.expected[w.key(op)]
        m = w.mspecs[op["m"]]
        where = f"client {ev.c} op {ev.k} {op['op']} ({m['family']} {m.get('ct', '')} " \
                f"{m['impl']}): "
        if ev.exc is not None:
            if kind != "err":
                out.bad("raised", where + common.describe(ev.exc))
            continue
        out.probes[op["op"]] += 1
        if kind == "err":
            out.bad("answer-changed", where + f"answered, a private copy raised {want}")
        elif not common.same(ev.res, want, 1e-9, 1e-12):
            out.bad("answer-changed", where + f"got {common.show(ev.res)}, a private copy "
                    f"gave {common.show(want)}")
    for i, model in enumerate(w.models):
        d = common.diff_state(whole(model), w.before_all[i])
        if d:
            out.bad("model-changed", f"model {i} ({w.mspecs[i]['family']}): {d} changed by "
                    f"read operations; {d[0]}: {common.show(w.before_all[i].get(d[0]))} -> "
                    f"{common.show(whole(model).get(d[0]))}")
    for i, d in enumerate(w.data):
        if not all(common.same(a, b) for a, b in zip(W.buf(d), w.bufs[i]) if b is not None):
            out.bad("data-changed", f"data set {i} modified")
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
