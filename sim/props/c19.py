"""C19: emission models supplied by the user are served as documented."""
import copy
import pickle

import numpy as np

from .. import common, ref, spec
from ..common import INFER, Out, World

QUICK, THOROUGH = 2000, 60000
ABOUT = ("clients own and share models of classes that override the documented methods (one or "
         "both of the likelihoods, statistics, M step, sampling, initialisation), some of whose "
         "overrides fail at an arbitrary call; answers, training steps, what the overrides were "
         "handed and how often they were called are compared with the reference")

PAR = {"cat": ("e", "emissionprob_", "emission"), "pois": ("l", "lambdas_", "lambdas"),
       "gauss": ("m", "means_", "means")}
CLS = {}
CRIT = ["aic", "bic"]
METHODS = ["init", "check", "lik", "istats", "acc", "mstep", "gen"]


class Broken(Exception):
    """Raised by a user's override."""


EXCS = [Broken, AttributeError, NotImplementedError, KeyError, IndexError, ValueError, TypeError,
        FloatingPointError, OSError, MemoryError, KeyboardInterrupt, np.linalg.LinAlgError]


def warm(hm):
    base = hm.base.BaseHMM

    def call(self, what):
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.boom and self.boom[0] == what and self.calls[what] == self.boom[1]:
            exc, self.boom = EXCS[self.boom[2]], None
            raise exc(what)

    class Own(base):
        family = None

        def attach(self, m, P):
            self.calls, self.boom, self.trace, self.mine = {}, None, None, [m["seed"]]
            self.sigma, self.counted = m.get("sigma", .7), m.get("counted")
            self.gain = m.get("gain", 0)
            return self

        def _get_n_fit_scalars_per_param(self):
            nc = self.n_components
            return {"s": nc - 1, "t": nc * (nc - 1), PAR[self.family][0]: nc * self.width} \
                if self.counted else None

        def _init(self, X, lengths=None):
            super()._init(X, lengths)
            call(self, "init")
            code, name, _ = PAR[self.family]
            if self._needs_init(code, name):
                rs = np.random.RandomState(len(X))
                if self.family == "cat":
                    self.emissionprob_ = rs.dirichlet(np.ones(self.width), self.n_components)
                elif self.family == "pois":
                    self.lambdas_ = X.mean(0) * rs.uniform(.5, 1.5, (self.n_components, self.width))
                else:
                    self.means_ = X[rs.randint(len(X), size=self.n_components)].astype(float)

        def _check(self):
            super()._check()
            call(self, "check")

        def logs(self, X):
            call(self, "lik")
            return self.gain + self.own_logs(X)

        def own_logs(self, X):
            with np.errstate(divide="ignore"):
                if self.family == "cat":
                    return np.log(self.emissionprob_[:, X[:, 0]].T)
                if self.family == "pois":
                    from scipy.special import gammaln, xlogy
                    X = X.astype(float)
                    return (xlogy(X, self.lambdas_[:, None]) - self.lambdas_[:, None]
                            - gammaln(X + 1)).sum(-1).T
            d = (X - self.means_[:, None]) / self.sigma
            return (-.5 * d ** 2 - np.log(self.sigma) - .5 * np.log(2 * np.pi)).sum(-1).T

        def _initialize_sufficient_statistics(self):
            stats = super()._initialize_sufficient_statistics()
            call(self, "istats")
            stats["own"] = [0., 0.]
            return stats

        def _accumulate_sufficient_statistics(self, stats, X, lattice, posteriors, fwdlattice,
                                              bwdlattice):
            super()._accumulate_sufficient_statistics(stats, X, lattice, posteriors, fwdlattice,
                                                      bwdlattice)
            call(self, "acc")
            if self.trace is not None:
                self.trace.append((np.array(X), np.array(posteriors), np.array(lattice),
                                   np.array(fwdlattice), np.array(bwdlattice)))
            Y = np.eye(self.width)[X[:, 0]] if self.family == "cat" else X
            stats["own"][0] = stats["own"][0] + posteriors.T @ Y
            stats["own"][1] = stats["own"][1] + posteriors.sum(0)[:, None]

        def _do_mstep(self, stats):
            super()._do_mstep(stats)
            call(self, "mstep")
            if self.trace is not None:
                self.trace.append("mstep")
            code, name, _ = PAR[self.family]
            if code in self.params:
                setattr(self, name, stats["own"][0] / stats["own"][1])

        def _generate_sample_from_state(self, state, random_state):
            call(self, "gen")
            u = random_state.rand()
            x = [int(state), int(u * 1000)] if self.family != "gauss" else [float(state), u]
            if self.trace is not None:
                self.trace.append((state, x))
            return x

    for fam in PAR:
        for over in ("lik", "log", "both"):
            d = {"family": fam, "__module__": __name__}
            if over in ("log", "both"):
                d["_compute_log_likelihood"] = lambda self, X: self.logs(X)
            if over in ("lik", "both"):
                def lik(self, X):
                    with np.errstate(under="ignore"):
                        return np.exp(self.logs(X))
                d["_compute_likelihood"] = lik
            name = f"Own_{fam}_{over}"
            CLS[fam, over] = globals()[name] = type(name, (Own,), d)


def gen_own(r):
    m = spec.gen_model(r, list(PAR), max_nc=5)
    if m["family"] == "gauss":
        m["ct"], m["sep"] = "spherical", r.choice([.5, 1.])
        m["sigma"] = r.choice([.7, .7, .2, .03, 4.])
        m["sep"] *= m["sigma"] / .7
    # the user's densities may be in any unit, and so of any magnitude
    m["gain"] = r.choice([0, 0, 0, r.choice([-250, -100, -30, 30, 100, 265])])
    m["counted"] = r.random() < .5
    m["over"] = r.choice(["lik", "log", "both"])
    m["codes"] = "st" + PAR[m["family"]][0]
    return m


def gen(r, tier):
    own, shared, cl = [], [], []
    faults = r.random() < .6
    for i in range(r.choice([1, 1, 2, 2, 3])):
        m = gen_own(r)
        d = spec.gen_data(r, m, max_T=40, min_total=5 * m["nc"])
        if d["form"] in ("f32", "list") and m["family"] == "gauss":
            d["form"] = "plain"
        own.append({"m": m, "d": d, "k": r.choice([1, 1, 2, 3])})
        ops = []
        for _ in range(r.randint(2, 5)):
            x = r.random()
            op = {"tr": i}
            if x < .4:
                op["op"] = "fit"
                op["params"] = m["codes"] if r.random() < .5 else \
                    "".join(c for c in m["codes"] if r.random() < .5)
                if r.random() < .1:
                    op["init"] = m["codes"]
            elif x < .65:
                op["op"] = r.choice(INFER + (CRIT if m["counted"] else []))
                if op["op"] == "decode":
                    op["alg"] = r.choice([None, "viterbi", "map"])
            elif x < .8:
                op["op"], op["n"], op["seed"] = "sample", r.choice([1, 4, 15]), r.randrange(1000)
            elif x < .9:
                op["op"] = r.choice(["pickle", "deepcopy"])
            else:
                op.update(op="edit", seed=r.randrange(10 ** 6), how=r.choice(["inplace", "new"]))
            if op["op"] in ["fit", "sample"] + INFER + CRIT and faults:
                if r.random() < .3:
                    op["boom"] = [r.choice(METHODS), r.choice([1, 1, 2, 3, 5]),
                                  r.choice([0, r.randrange(len(EXCS))])]
                elif r.random() < .2:
                    op["fault"] = common.gen_fault(r)
            ops.append(op)
        cl.append(ops)
    for i in range(r.choice([0, 1, 1])):
        m = gen_own(r)
        shared.append({"m": m, "d": spec.gen_data(r, m, max_T=40)})
        for _ in range(r.choice([1, 2])):
            cl.append([{"op": r.choice(INFER), "sh": i} for _ in range(r.randint(1, 3))])
    return {"sim": common.gen_sim(r), "own": own, "shared": shared, "clients": cl}


class W(World):
    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        self.own = [self.make(x) for x in plan["own"]]
        self.shared = [self.make(x) for x in plan["shared"]]

    def make(self, x):
        m = x["m"]
        P = self.params0(m)
        c = CLS[m["family"], m["over"]](
            n_components=m["nc"], implementation=m["impl"], algorithm=m["alg"],
            n_iter=x.get("k", 1), tol=-np.inf, params=m["codes"], init_params="",
            random_state=1).attach(m, P)
        c.width = m["nf"]
        c.startprob_, c.transmat_ = np.array(P["start"]), np.array(P["trans"])
        _, name, key = PAR[m["family"]]
        setattr(c, name, np.array(P[key]))
        return {"m": m, "model": c, "data": spec.make_data(m, x["d"]), "k": x.get("k")}

    @staticmethod
    def params0(m):
        P = spec.make_params(m)
        P["gain"] = m["gain"]
        if m["family"] == "gauss":
            P["covars"] = np.full(m["nc"], m["sigma"] ** 2)
        return P

    def slot(self, op):
        return self.own[op["tr"]] if "tr" in op else self.shared[op["sh"]]

    def read(self, T):
        m, model = T["m"], T["model"]
        P = self.params0(m)
        P["start"], P["trans"] = np.array(model.startprob_), np.array(model.transmat_)
        _, name, key = PAR[m["family"]]
        P[key] = np.array(getattr(model, name))
        return P

    def before(self, op, ev):
        T = self.slot(op)
        model = T["model"]
        ev["P"] = self.read(T)
        ev["hist0"] = list(model.monitor_.history)
        if "tr" in op:
            model.calls, model.trace = {}, []
            model.boom = op.get("boom")
            if op["op"] == "fit":
                model.params = op["params"]
                model.init_params = op.get("init", "")

    def after(self, op, ev):
        T = self.slot(op)
        model = T["model"]
        if "tr" in op:
            ev["boomed"] = bool(op.get("boom")) and model.boom is None
            ev["trace"], model.trace, model.boom = model.trace, None, None
            ev["calls"] = dict(model.calls)
            ev["Q"] = self.read(T)
            ev["hist1"] = [float(x) for x in model.monitor_.history]
            ev["mine"] = list(model.mine)

    def apply(self, op, ev):
        T = self.slot(op)
        model, o = T["model"], op["op"]
        if o == "fit":
            model.fit(T["data"][0], T["data"][2])
        elif o == "sample":
            return model.sample(op["n"], random_state=op["seed"])
        elif o == "pickle":
            T["model"] = pickle.loads(pickle.dumps(model))
        elif o == "deepcopy":
            T["model"] = copy.deepcopy(model)
        elif o == "edit":
            spec.edit(model, T["m"], op)
        else:
            return common.infer(model, op, T["data"])


def lattices_ok(impl, f, lat, fwd, bwd, trained):
    """Are these the emission, forward and backward (log-)probabilities?

    After an update, what is e**-25 less likely than the likeliest may be rounding.
    """
    if not lat.shape == fwd.shape == bwd.shape == f.B.shape:
        return False
    if impl == "log":
        for a, b in ((lat, f.B), (fwd, f.la), (bwd, f.lb)):
            low = b < b.max(1, keepdims=True) - 25
            if trained and not np.all(a[low] < np.broadcast_to(b.max(1, keepdims=True) - 20, b.shape)[low]):
                return False
            a, b = (a[~low], b[~low]) if trained else (a, b)
            if not np.array_equal(np.isfinite(a), np.isfinite(b)) or \
                    not np.allclose(a, b, rtol=1e-7, atol=1e-6):
                return False
        return True
    rows = lambda a: a / a.sum(1, keepdims=True)  # noqa: E731
    exp = lambda a: np.exp(a - a.max(1, keepdims=True))  # noqa: E731
    with np.errstate(all="ignore"):
        return np.allclose(lat, np.exp(f.B), rtol=1e-7, atol=0) and all(
            np.allclose(rows(a), rows(exp(b)), atol=1e-7)
            for a, b in ((fwd, f.la), (bwd, f.lb)))


def check_fit(out, w, ev, T, where):
    """Every E step hands each sequence over once, in order, with exact posteriors; every
    completed iteration and no other is in the parameters and the record."""
    m, data, op = T["m"], T["data"], ev.op
    P, k, H = ev.P, T["k"], {}
    sl = ref.split(len(data[1]), data[2])
    tr = list(ev.trace)
    done, lls = 0, []
    for it in range(k):
        E = ref.Eval(P, data[1], data[2])
        if it and not all(lattices_ok("log", f, g.B, g.la, g.lb, True) for f, g in
                          zip(E.fbs, ref.Eval(ref.rounded(P), data[1], data[2]).fbs)):
            raise ref.Degenerate("hinges on rounding")
        for (a, b), f in zip(sl, E.fbs):
            if not tr:
                break
            x = tr.pop(0)
            if isinstance(x, str):
                return out.bad("calls", where + f"M step before sequence {a}:{b} was handed over")
            X, g, lat, fwd, bwd = x
            if not np.array_equal(X, data[1][a:b]):
                return out.bad("handed-data", where + f"iteration {it}: sequence {a}:{b} was "
                               f"handed over as {common.show(X)}")
            if g.shape != f.gamma.shape or not np.allclose(g, f.gamma, atol=1e-6):
                return out.bad("handed-posteriors", where + f"iteration {it}, sequence {a}:{b}: "
                               f"{common.show(g)}, exact {common.show(f.gamma)}")
            if not lattices_ok(m["impl"], f, lat, fwd, bwd, it > 0):
                return out.bad("handed-lattice", where + f"iteration {it}, sequence {a}:{b}: "
                               f"{common.show(lat)} {common.show(fwd)} {common.show(bwd)}, exact "
                               f"logs {common.show(f.B)} {common.show(f.la)} {common.show(f.lb)}")
            out.probes["lattices_checked"] += 1
        else:
            if not tr:
                break
            x = tr.pop(0)
            if not isinstance(x, str):
                return out.bad("calls", where + f"iteration {it}: {len(x)} extra hand-over")
            ll, P = ref.em_step(P, H, data[1], data[2], op["params"].translate(
                {ord("m"): None}))
            if m["family"] == "gauss" and "m" in op["params"]:
                g = E.gamma
                if g.sum(0).min() < 1e-4:
                    raise ref.Degenerate("post")
                P["means"] = (g.T @ np.asarray(data[1], float)) / g.sum(0)[:, None]
            if P.get("trans_empty") is not None and it + 1 < k:
                raise ref.Degenerate("empty row")
            lls.append(ll)
            done += 1
            continue
        break
    if tr:
        return out.bad("calls", where + f"{len(tr)} calls too many")
    if ev.exc is None and done != k:
        return out.bad("iterations", where + f"{done} iterations instead of {k}")
    part = ev.exc is not None and (not ev.boomed or op["boom"][0] == "mstep")
    if part:        # stopped between the parts of an iteration: nothing more to compare
        out.probes["stopped_midway"] += 1
        return
    h = ev.hist1
    if ev.exc is not None and op["boom"][0] in ("init", "check"):
        lls = ev.hist0
    if len(h) != len(lls) or not np.allclose(h, lls, rtol=1e-6, atol=1e-6):
        return out.bad("record", where + f"record {h}, exact {lls}")
    out.probes["iterations_checked"] += done
    for key in ("start", "trans", PAR[m["family"]][2]):
        if key == "trans" and P.get("trans_empty") is not None:
            continue
        if not np.allclose(ev.Q[key], P[key], rtol=1e-5, atol=1e-7):
            return out.bad("update", where + f"{key} after {done} iterations: "
                           f"{common.show(ev.Q[key])}, exact {common.show(P[key])}")


def check_sample(out, ev, T, where):
    X, Z = ev.res
    n, P = ev.op["n"], ev.P
    tr = ev.trace
    if len(Z) != n or len(X) != n:
        return out.bad("sample-shape", where + f"{np.shape(X)} {np.shape(Z)}")
    if [s for s, _ in tr] != list(Z) or not np.array_equal(np.array([x for _, x in tr]), X):
        return out.bad("sample-calls", where + f"states {list(Z)} but the emission was asked for "
                       f"{[s for s, _ in tr]}, or its samples were changed")
    if P["start"][Z[0]] <= 0 or any(P["trans"][a, b] <= 0 for a, b in zip(Z, Z[1:])):
        out.bad("sample-support", where + f"{list(Z)}")
    out.probes["samples_checked"] += 1


def check_criterion(out, ev, E, T, where):
    m, n = T["m"], len(T["data"][1])
    if m["impl"] == "scaling" and not E.safe():
        return
    if ev.exc is not None:
        return out.bad("raised", where + common.describe(ev.exc))
    k = m["nc"] ** 2 - 1 + m["nc"] * m["nf"]
    want = -2 * E.ll + k * (2 if ev.op["op"] == "aic" else np.log(n))
    out.probes["criteria_checked"] += 1
    if not (np.ndim(ev.res) == 0 and common.close(float(ev.res), want, 1e-8, 1e-6)):
        out.bad("criterion", where + f"got {ev.res!r}, expected {want!r} for the {k} parameters "
                "the class counts")


def execute(plan, script, hm):
    out = Out()
    w = W(hm, plan, out)
    w.run(script)
    for ev in w.hist:
        op = ev.op
        T = w.slot(op)
        m = T["m"]
        where = f"client {ev.c} op {ev.k} {op} ({m['family']}/{m['over']} {m['impl']}): "
        if "tr" in op and ev.mine != [m["seed"]]:
            out.bad("user-attribute", where + "an attribute of the user's class changed")
        if op["op"] in ("pickle", "deepcopy", "edit"):
            if ev.exc is not None:
                out.bad("raised", where + common.describe(ev.exc))
            elif op["op"] != "edit" and common.diff_state(ev.P, ev.Q):
                out.bad("copy", where + f"{common.diff_state(ev.P, ev.Q)} differ")
            continue
        if ev.exc is not None and common.expected_fault(ev):
            out.probes["failed_by_fault"] += 1
            continue
        if ev.boomed:
            out.faults["override_" + op["boom"][0]] += 1
            if type(ev.exc) is not EXCS[op["boom"][2]]:
                out.bad("override-failure-lost", where + f"{op['boom']} raised; the caller got "
                        f"{ev.exc!r}")
                continue
        if not spec.valid_params(ev.P) or op.get("init"):
            continue
        if op["op"] != "fit":
            if "tr" in op and common.diff_state(ev.P, ev.Q):
                out.bad("changed", where + f"{common.diff_state(ev.P, ev.Q)} changed")
            if ev.boomed:
                continue
        if op["op"] == "sample":
            if ev.exc is not None:
                out.bad("raised", where + common.describe(ev.exc))
            else:
                check_sample(out, ev, T, where)
            continue
        try:
            E = ref.Eval(ev.P, T["data"][1], T["data"][2])
            if not E.possible or m["over"] == "lik" and not E.safe():
                continue
            if op["op"] in CRIT:
                check_criterion(out, ev, E, T, where)
                continue
            if op["op"] != "fit":
                common.check_infer(out, op, ev.res, ev.exc, E, m, len(T["data"][1]), where)
                out.probes["answers_checked"] += 1
                continue
            if m["impl"] == "scaling" and not E.safe():
                continue
            if ev.exc is not None and not ev.boomed:
                if T["k"] == 1:
                    out.bad("raised", where + common.describe(ev.exc))
                continue
            check_fit(out, w, ev, T, where)
        except ref.Degenerate:
            out.probes["degenerate"] += 1
    out.nontrivial = len(w.hist) > 1 and (out.stats["switches"] > 0 or len(plan["clients"]) == 1)
    return out
