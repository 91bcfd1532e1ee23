"""C09: a fixed seed fixes the result, whatever else happens in the process."""
import copy
import random

import numpy as np

from .. import common, spec, train
from ..common import Out, World

QUICK, THOROUGH = 1600, 40000
ABOUT = ("seeded fits and samples run among other clients that train, sample, reseed and drain "
         "the global generators and fail half-way; each result is compared with the same call "
         "made alone by a fresh model")


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    trs = train.gen_trainers(r, train.EM + train.VB, n, k=(1, 2), params=False, max_T=40,
                             max_nc=3)
    cl = []
    noise = r.random() < .6
    for i, t in enumerate(trs):
        t["inst"] = r.random() < .3
        t["none"] = (not noise and n == 1 and r.random() < .5)
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5:
                op = {"op": "fit", "tr": i, "rs": r.choice([t["rs"], t["rs"], 5])}
                if r.random() < .3:
                    op["alt"] = 1
                if r.random() < .4:
                    ops.append(gen_reconf(r, i, t["m"]))
            elif x < .8:
                op = {"op": "sample", "tr": i, "n": r.choice([1, 4, 15]),
                      "seed": r.choice([t["rs"], 11, 0, None])}
            else:
                op = {"op": r.choice(common.INFER), "tr": i}
            if r.random() < .3:
                op["fault"] = common.gen_fault(r, lines=200)
            ops.append(op)
        ops.append({"op": "fit", "tr": i, "rs": t["rs"]})
        ops.append({"op": "sample", "tr": i, "n": 6, "seed": r.choice([3, 0, None])})
        cl.append(ops)
    if noise:
        for _ in range(r.choice([1, 2])):
            cl.append([{"op": r.choice(["np_rand", "np_seed", "py_seed", "np_shuffle"]),
                        "v": r.randrange(1000)} for _ in range(r.randint(2, 8))])
    shared = None
    if r.random() < .35:     # readers of one model, each sampling with a seed of its own
        shared = spec.gen_model(r, max_nc=4)
        shared["rs"] = r.choice([None, 3, "inst"])
        for _ in range(r.choice([2, 2, 3])):
            cl.append([{"op": "draw", "n": r.choice([1, 3, 10, 30]), "seed": r.choice([0, r.randrange(1000),
                                                                          r.randrange(1000)]),
                        "inst": r.random() < .3,
                        **({"fault": common.gen_fault(r, lines=100)} if r.random() < .2 else {})}
                       for _ in range(r.randint(1, 4))])
    return {"sim": common.gen_sim(r, kernel=r.random() < .6), "trainers": trs, "clients": cl,
            "noise": noise, "shared": shared}


def gen_reconf(r, i, m):
    """The owner changes the configuration of a model that may have been used."""
    conf = {"implementation": r.choice(["log", "scaling"]),
            "algorithm": r.choice(["viterbi", "map"])}
    fixed = any(isinstance(v, list) for v in m.get("hyper", {}).values())
    if not fixed:
        conf["n_components"] = r.choice([1, 2, 3, 4])
        if m["family"] == "gmm":
            conf["n_mix"] = r.choice([1, 2, 3])
    if m["family"] in ("gauss", "vgauss", "gmm") and "covars_prior" not in m.get("hyper", {}):
        conf["covariance_type"] = r.choice(["spherical", "diag", "full", "tied"])
    for k in list(conf):
        if len(conf) > 1 and r.random() < .4:
            del conf[k]
    return {"op": "reconf", "tr": i, "conf": conf}


SHORT = {"n_components": "nc", "n_mix": "nm", "covariance_type": "ct", "implementation": "impl",
         "algorithm": "alg"}


class W(World):
    def __init__(self, hm, plan, out):
        self.hm, self.plan, self.out, self.hist = hm, plan, out, []
        self.tr, self.memo = [], {}
        np.random.seed(plan["sim"]["seed"] & 0xffff)
        random.seed(1)
        for t in plan["trainers"]:
            T = {"t": t, "m": t["m"], "data": spec.make_data(t["m"], t["d"])}
            X, plain, L = T["data"]
            T["alt"] = (np.array(plain)[::-1].copy(), np.array(plain)[::-1].copy(), None)
            T["model"] = self.make(t)
            self.tr.append(T)
        if plan.get("shared"):
            m = plan["shared"]
            self.shared = spec.set_params(spec.new_model(hm, m), m, spec.make_params(m))
            self.shared.random_state = np.random.RandomState(8) if m["rs"] == "inst" else m["rs"]
            self.shared0 = copy.deepcopy(self.shared)
        # expected results, each from a fresh model, alone
        self.want, memo = {}, {}
        for i, T in enumerate(self.tr):
            conf = {}
            for k, op in enumerate(plan["clients"][i]):
                if op["op"] == "reconf":
                    conf = {**conf, **op["conf"]}
                elif op["op"] == "fit":
                    key = (i, op["rs"], op.get("alt", 0), tuple(sorted(conf.items())))
                    if key not in memo:
                        memo[key] = self.solo(T, op["rs"], conf, op.get("alt"))
                    self.want[i, k] = memo[key]
        np.random.seed(4242)

    def make(self, t, conf={}):
        m = {**t["m"], **{SHORT[k]: v for k, v in conf.items()}}
        return spec.new_model(self.hm, m, n_iter=t["k"], tol=-np.inf)

    def seed_of(self, T, rs):
        t = T["t"]
        if t["none"]:
            np.random.seed(rs)
            return None
        return np.random.RandomState(rs) if t["inst"] else rs

    def solo(self, T, rs, conf, alt):
        model = self.make(T["t"], conf)
        model.random_state = self.seed_of(T, rs)
        data = T["alt" if alt else "data"]
        try:
            model.fit(data[0], data[2])
        except Exception as e:
            return ("err", common.describe(e))
        return ("ok", self.picture(model))

    @staticmethod
    def picture(model):
        return {"state": common.public_state(model),
                "rng": copy.deepcopy(model.random_state),
                "hist": [float(x) for x in model.monitor_.history], "model":
                copy.deepcopy(model)}

    def before(self, op, ev):
        ev["np"] = np.random.get_state(legacy=False)
        ev["py"] = random.getstate()
        if op["op"] == "fit":
            T = self.tr[op["tr"]]
            T["model"].random_state = self.seed_of(T, op["rs"])
        if "tr" in op:
            ev["given"] = copy.deepcopy(self.given(op))
        if op["op"] == "sample":
            T = self.tr[op["tr"]]
            ev["twin"] = copy.deepcopy(T["model"])
            ev["new"] = T.get("new")
            ev["rng"] = copy.deepcopy(T["model"].random_state)
            if T["t"]["none"] and op["seed"] is None:
                np.random.seed(9)

    def given(self, op):
        """The arguments the user configured the model with."""
        p = self.tr[op["tr"]]["model"].get_params()
        return {k: v for k, v in p.items() if k != "random_state"}

    def after(self, op, ev):
        o = op["op"]
        if "tr" in op and o != "reconf":
            now = self.given(op)
            k = next((k for k in now if not common.same(now[k], ev["given"][k])), None)
            if k is not None:
                self.out.bad("argument-changed", f"client {ev.c} op {ev.k} {op} "
                             f"({self.tr[op['tr']]['m']['family']}): {k} was "
                             f"{common.show(ev['given'][k])}, is {common.show(now[k])}")
        if o == "fit" and ev["exc"] is None:
            ev["res"] = self.picture(self.tr[op["tr"]]["model"])
            self.tr[op["tr"]]["new"] = self.want[ev.c, ev.k]
        elif o in ("fit", "reconf"):
            self.tr[op["tr"]]["new"] = None
        if not self.plan["noise"] and len(self.tr) == 1 and not self.tr[0]["t"]["none"]:
            if not common.same(ev["np"], np.random.get_state(legacy=False)) \
                    or ev["py"] != random.getstate():
                self.out.bad("global-rng-used", f"{op}: global generator state changed by a "
                             f"seeded operation ({self.tr[0]['m']['family']})")

    def apply(self, op, ev):
        o = op["op"]
        if o == "draw":
            seed = np.random.RandomState(op["seed"]) if op["inst"] else op["seed"]
            return self.shared.sample(op["n"], random_state=seed)
        if o == "np_rand":
            return np.random.rand(op["v"] % 50 + 1) is None
        if o == "np_seed":
            return np.random.seed(op["v"])
        if o == "np_shuffle":
            return np.random.permutation(op["v"] + 1) is None
        if o == "py_seed":
            return random.seed(op["v"])
        T = self.tr[op["tr"]]
        model = T["model"]
        if o == "reconf":
            model.set_params(**op["conf"])
            return None
        if o == "fit":
            data = T["alt" if op.get("alt") else "data"]
            model.fit(data[0], data[2])
            return None
        if o == "sample":
            return model.sample(op["n"], random_state=op["seed"])
        return common.infer(model, op, T["data"])


def finite(want):
    return all(np.all(np.isfinite(v)) for v in want["state"].values()
               if isinstance(v, np.ndarray) and v.dtype.kind == "f")


def check_shared(out, w):
    if not w.plan.get("shared"):
        return
    for ev in w.hist:
        op = ev.op
        if op["op"] != "draw":
            continue
        where = f"client {ev.c} op {ev.k} {op} ({w.plan['shared']['family']}): "
        if ev.exc is not None:
            if not common.expected_fault(ev):
                out.bad("raised", where + common.describe(ev.exc))
            continue
        X, z = copy.deepcopy(w.shared0).sample(op["n"], random_state=op["seed"])
        out.probes["draws_compared"] += 1
        if not (common.same(z, ev.res[1]) and common.same(X, ev.res[0], 1e-9, 1e-12)):
            out.bad("sample-differs", where + f"{ev.res[1].tolist()}, alone: {z.tolist()}")
    if not common.same(w.shared.random_state, w.shared0.random_state):
        out.bad("rng-differs", f"a model sampled with other seeds has random_state "
                f"{w.shared.random_state!r} instead of {w.shared0.random_state!r}")


def check_new(out, ev, where):
    """The sample of a model just fitted in the same way and not used otherwise."""
    new = copy.deepcopy(ev["new"][1]["model"])
    if common.diff_state(common.public_state(new), common.public_state(ev["twin"])):
        return
    new.random_state = ev["rng"]
    if ev["rng"] is None and ev.op["seed"] is None:
        np.random.seed(9)
    X, z = new.sample(ev.op["n"], random_state=ev.op["seed"])
    out.probes["new_models_compared"] += 1
    if not (common.same(z, ev.res[1]) and common.same(X, ev.res[0], 1e-9, 1e-12)):
        out.bad("sample-differs", where + f"{ev.res[1].tolist()} {common.show(ev.res[0])}"
                f", from a new model: {z.tolist()} {common.show(X)}")


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    check_shared(out, w)
    for ev in w.hist:
        op = ev.op
        if "tr" not in op:
            continue
        T = w.tr[op["tr"]]
        m = T["m"]
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        where = f"client {ev.c} op {ev.k} {op} ({m['family']} {m.get('ct', '')}): "
        if op["op"] == "fit":
            kind, want = w.want[ev.c, ev.k]
            if kind == "err":
                out.probes["no_reference"] += 1
                continue
            if ev.exc is not None:
                out.bad("raised", where + common.describe(ev.exc))
                continue
            if not finite(want):
                out.probes["degenerate"] += 1
                continue
            out.probes["fits_compared"] += 1
            d = common.diff_state(ev.res["state"], want["state"], 1e-6, 1e-9)
            if d:
                out.bad("fit-differs", where + f"{d[0]}: {common.show(ev.res['state'].get(d[0]))}"
                        f", alone: {common.show(want['state'].get(d[0]))}")
            elif not common.same(ev.res["rng"], want["rng"]):
                out.bad("rng-differs", where + f"random_state left as {ev.res['rng']!r}, "
                        f"alone {want['rng']!r}")
        elif op["op"] == "sample" and ev.exc is None:
            if ev.get("new") and ev["new"][0] == "ok":
                check_new(out, ev, where)
            twin = ev["twin"]
            if T["t"]["none"] and op["seed"] is None:
                np.random.seed(9)
            X, z = twin.sample(op["n"], random_state=op["seed"])
            out.probes["samples_compared"] += 1
            if not (common.same(z, ev.res[1]) and common.same(X, ev.res[0], 1e-9, 1e-12)):
                out.bad("sample-differs", where + f"{ev.res[1].tolist()} {common.show(ev.res[0])}"
                        f", alone: {z.tolist()} {common.show(X)}")
    out.nontrivial = out.stats["switches"] > 0 and len(w.hist) > 1
    return out
