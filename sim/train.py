"""Training clients: each owns one model and takes it through a history."""
import copy
import pickle

import numpy as np

from . import common, ref, spec
from .common import World, infer

EM = ["cat", "gauss", "gmm", "multi", "pois"]
VB = ["vcat", "vgauss"]


def gen_params(r, fam):
    codes = spec.CODES[fam]
    if r.random() < .55:
        return codes
    p = "".join(c for c in codes if r.random() < .6)
    if fam == "vgauss" and "c" in p and "m" not in p:
        p = p.replace("c", "")
    return p or codes


def gen_train_model(r, fams, max_nc=4, flat=False, styles=None):
    m = spec.gen_model(r, fams, max_nc=max_nc, styles=styles)
    m["hyper"] = spec.gen_hyper(r, m, flat)
    return m


def gen_train_data(r, m, max_T=60, forms=None):
    d = spec.gen_data(r, m, max_T=max_T, min_total=6 * m["nc"] * m.get("nm", 1) + 10)
    if d["form"] == "f32" and m["family"] in ("gauss", "gmm", "vgauss"):
        d["form"] = "plain"
    if forms:
        d["form"] = r.choice(forms)
    return d


def gen_long(r, t):
    """A few long recordings for a small model."""
    m, d = t["m"], t["d"]
    if r.random() < .04:
        m["nc"] = r.choice([1, 2, 2, 3])
        m["hyper"] = {}
        d["Ts"] = [r.choice([260, 520, 1030, 2100, 4200]) for _ in range(r.choice([1, 1, 2]))]
        d["none"] &= len(d["Ts"]) == 1
        d["lform"] = "list"
        t["k"] = min(t["k"], 2)


RELOAD = ["pickle", "deepcopy", "rebuild"]


class TrainWorld(World):
    """plan["trainers"][i] = {"m", "d", "k", ...}; client i owns trainer i."""

    def __init__(self, hm, plan, out):
        super().__init__(hm, plan, out)
        self.tr = []
        for t in plan["trainers"]:
            m = t["m"]
            P = spec.make_params(m)
            model = spec.set_params(spec.new_model(
                hm, m, n_iter=t["k"], tol=t.get("tol", -np.inf),
                init_params=t.get("init", ""), params=t.get("params", spec.CODES[m["family"]]),
                random_state=t.get("rs", 0)), m, P)
            self.tr.append({"m": m, "model": model, "data": spec.make_data(m, t["d"], P),
                            "t": t})

    @staticmethod
    def count_trials(T):
        """The numbers of trials of samples that differ in them."""
        if T["m"].get("vt"):
            T["model"].n_trials = T["data"][1].sum(1)

    @staticmethod
    def initialised(T):
        """A twin of a model about to be trained from scratch, only initialised."""
        twin = copy.deepcopy(T["model"])
        twin.set_params(n_iter=0)
        try:
            twin.fit(T["data"][0], T["data"][2])
        except Exception:
            pass
        return {**T, "model": twin}

    def snap(self, T):
        m, model = T["m"], T["model"]
        s = {"P": None, "V": None}
        try:
            s["P"] = spec.read_params(model, m)
        except Exception as e:
            s["Perr"] = common.describe(e)
        if m["family"] in VB:
            try:
                s["V"] = spec.read_vb(model, m)
            except Exception as e:
                s["Verr"] = common.describe(e)
        s["hist"] = [float(x) for x in model.monitor_.history]
        s["iter"] = model.monitor_.iter
        return s

    def before(self, op, ev):
        if op["op"] == "fit":
            T = self.tr[op["tr"]]
            self.count_trials(T)
            if "params" in op:
                T["model"].params = op["params"]
            if op.get("init"):
                T["model"].init_params = spec.CODES[T["m"]["family"]]
            ev["params"] = T["model"].params
            ev["pre"] = self.snap(self.initialised(T) if op.get("init") else T)
            ev["data"] = (None, np.array(T["data"][1]),
                          None if T["data"][2] is None else list(T["data"][2]))

    def after(self, op, ev):
        if op["op"] == "fit":
            T = self.tr[op["tr"]]
            ev["post"] = self.snap(T)
            T["model"].init_params = T["t"].get("init", "")
            if ev["exc"] is not None and op.get("recover") is not None and T.get("ckpt"):
                T["model"] = pickle.loads(T["ckpt"])
            elif ev["exc"] is None and op.get("save", True):
                T["ckpt"] = pickle.dumps(T["model"])

    def apply(self, op, ev):
        o = op["op"]
        if o == "fit":
            T = self.tr[op["tr"]]
            T["model"].fit(T["data"][0], T["data"][2])
            return None
        if o in RELOAD:
            self.reload(op)
            return None
        if o == "edit":
            return self.edit(op)
        if "tr" in op:
            T = self.tr[op["tr"]]
            return infer(T["model"], op, T["data"])
        return super().apply(op, ev)

    def edit(self, op):
        """The owner changes parameters or data between two uses."""
        T = self.tr[op["tr"]]
        if op["what"] == "data":
            T["data"] = spec.edit_data(T["data"], op["seed"])
            return
        try:
            spec.edit(T["model"], T["m"], {**op, "vb": 1})
        except AttributeError:      # nothing there yet
            pass

    def reload(self, op):
        T = self.tr[op["tr"]]
        o, m, model = op["op"], T["m"], T["model"]
        if o == "pickle":
            T["model"] = pickle.loads(pickle.dumps(model, protocol=op.get("proto", 4)))
        elif o == "deepcopy":
            T["model"] = copy.deepcopy(model)
        else:
            new = model.__class__(**model.get_params())
            if m["family"] in VB:
                for n in common.PUB:
                    if n.startswith("means_") and n == "means_":
                        continue
                    if hasattr(model, n):
                        v = getattr(model, n)
                        if n == "covars_":
                            P = spec.raw_params(spec.read_params(model, m), m)
                            v = P["covars"]
                        elif n.startswith("dof") and m["ct"] == "tied":
                            v = float(v)
                        setattr(new, n, copy.deepcopy(v))
                new.n_features = m["nf"]
            else:
                spec.set_params(new, m, spec.raw_params(spec.read_params(model, m), m))
            T["model"] = new


def gen_trainers(r, fams, n, flat=False, styles=None, max_T=60, k=(1, 1, 2, 3),
                 params=True, max_nc=4):
    out = []
    for _ in range(n):
        m = gen_train_model(r, fams, flat=flat, styles=styles, max_nc=max_nc)
        out.append({"m": m, "d": gen_train_data(r, m, max_T), "k": r.choice(k),
                    "params": gen_params(r, m["family"]) if params else
                    spec.CODES[m["family"]], "rs": r.choice([0, r.randrange(1000),
                                                               r.randrange(1000)])})
    return out


def gen_narrow(r, t):
    """Symbols and lengths counted in the narrow types that files come in."""
    m, d = t["m"], t["d"]
    if m["family"] in ("cat", "vcat") and r.random() < .25:
        m["estyle"] = "dense"
        d["src"] = "noise"
        t["auto"] = True
        if m["family"] == "cat" and r.random() < .6:
            m["nf"], m["nc"], d["form"] = 256, r.choice([1, 2, 3]), "u8"
            m["hyper"] = {}
        else:
            m["nc"], d["form"] = 12, "i8"
            m["hyper"] = {}
    if r.random() < .15:
        d["Ts"], d["none"], d["lform"] = [r.choice([70, 100, 127]), 60], False, \
            r.choice(["i8", "u8"])


def gen_trials(r, trs):
    """Samples that differ in their number of trials."""
    for t in trs:
        if t["m"]["family"] == "multi" and r.random() < .3:
            t["m"]["vt"], t["d"]["src"] = 1, "model"


def gen_edit(r, i):
    return {"op": "edit", "tr": i, "what": r.choice(["data", "model"]),
            "seed": r.randrange(10 ** 6), "how": r.choice(["inplace", "inplace", "new"])}


def gen_history(r, i, t, n, faults, reload=.3, infers=.2, change=.2, edits=.15):
    ops = []
    for _ in range(n):
        x = r.random()
        if r.random() < edits and ops:
            ops.append(gen_edit(r, i))
        if x < reload:
            op = {"op": r.choice(RELOAD), "tr": i}
        elif x < reload + infers:
            op = {"op": r.choice(common.INFER), "tr": i}
            if op["op"] == "decode":
                op["alg"] = r.choice([None, "viterbi", "map"])
        else:
            op = {"op": "fit", "tr": i}
            if r.random() < change:
                op["params"] = gen_params(r, t["m"]["family"])
            if r.random() < .5:
                op["recover"] = 1
            if not ops and r.random() < .25:
                op["init"] = 1
        if faults and r.random() < .3 and op["op"] not in RELOAD:
            op["fault"] = common.gen_fault(r, lines=150)
        ops.append(op)
    return ops


def scale_of(X):
    return float(max(1., np.max(np.abs(X)) ** 2)) if len(X) else 1.


TOL = {"start": 1, "trans": 1, "emission": 1, "weights": 1, "lambdas": 1, "means": 1,
       "covars": 3}


def diff_params(A, B, X, rtol=1e-6, skip=()):
    """First named parameter in which A (actual) and B (expected) differ."""
    s = scale_of(np.asarray(X, float))
    for k in ("start", "trans", "emission", "weights", "lambdas", "means", "covars"):
        if k not in B or k in skip:
            continue
        a, b = np.asarray(A[k], float), np.asarray(B[k], float)
        atol = 1e-8 if k in ("start", "trans", "emission", "weights") else 1e-8 * s
        if a.shape != b.shape:
            return k, f"shape {a.shape} vs {b.shape}"
        if not np.allclose(a, b, rtol=rtol, atol=atol):
            return k, f"got {common.show(a)}, expected {common.show(b)}"
    return None
