"""Seeded workload pieces: model parameters, data sets, model objects.

Everything is a JSON-able spec; arrays are rebuilt from the spec's own seed, so
a replay file needs no arrays.
"""
import numpy as np

FAMS = ["cat", "gauss", "gmm", "multi", "pois", "vcat", "vgauss"]
CT = ["spherical", "diag", "full", "tied"]
CODES = {"cat": "ste", "gauss": "stmc", "gmm": "stmcw", "multi": "ste",
         "pois": "stl", "vcat": "ste", "vgauss": "stmc"}


def gen_model(r, fams=FAMS, max_nc=6, styles=None, impl=None, min_nc=1):
    fam = r.choice(fams)
    nc = r.choice([n for n in (1, 2, 2, 3, 3, 4, 5, 6, 8, 12) if min_nc <= n <= max_nc])
    if fam == "gmm":
        nc = min(nc, 4)
    m = {"family": fam, "nc": nc, "seed": r.getrandbits(30),
         "impl": impl or r.choice(["log", "scaling"]),
         "alg": r.choice(["viterbi", "viterbi", "map"]),
         "tstyle": r.choice(styles or ["dense", "dense", "sparse", "lr", "cyclic", "sticky",
                                       "ties", "point"]),
         "sstyle": r.choice(styles or ["dense", "sparse", "point", "ties"])}
    if r.random() < .25:
        m["pform"] = r.choice(["int", "fortran", "stride", "big", "neg", "ro", "list"])
        if m["pform"] == "list" and fam in ("gmm", "vcat", "vgauss"):   # arrays only
            m["pform"] = "neg"
    if fam in ("cat", "vcat"):
        m["nf"] = r.choice([1, 2, 3, 4, 6, 9])
        m["estyle"] = r.choice(styles or ["dense", "dense", "sparse", "ties"])
    elif fam == "multi":
        m["nf"] = r.choice([1, 2, 3, 4, 5])
        m["trials"] = r.choice([1, 2, 5, 12])
        m["estyle"] = r.choice(styles or ["dense", "dense", "sparse"])
    elif fam == "pois":
        m["nf"] = r.choice([1, 2, 3])
        m["lam"] = r.choice([0.5, 3.0, 12.0])
    else:
        m["nf"] = r.choice([1, 1, 2, 3, 4])
        m["ct"] = r.choice(CT)
        m["sep"] = r.choice([0.3, 1.0, 3.0, 6.0])
        if r.random() < .2:         # units of measurement of the data
            m["unit"] = r.choice([.03, .1, 20.])
        if fam == "gmm":
            m["nm"] = r.choice([1, 2, 2, 3, 4])
            m["wstyle"] = r.choice(["dense", "dense", "ties"])
    if r.random() < .05:        # beyond the sizes of toy examples
        m.update({"cat": lambda: {"nf": r.choice([17, 40, 150, 300])},
                  "vcat": lambda: {"nf": r.choice([17, 40, 100, 256])},
                  "multi": lambda: {"nf": r.choice([5, 8, 20]), "trials": r.choice([40, 200])},
                  "pois": lambda: {"nf": r.choice([1, 5, 10]), "lam": r.choice([80., 600.])},
                  "gauss": lambda: {"nf": r.choice([6, 10])},
                  "vgauss": lambda: {"nf": r.choice([6, 10])},
                  "gmm": lambda: {"nf": r.choice([1, 6]), "nm": r.choice([6, 9])}}[fam]())
    return m


def simplex(rs, n, style):
    """One probability vector of length n; sums to 1 to rounding."""
    if style == "ties":
        return np.full(n, 1.0 / n)
    p = rs.dirichlet(np.full(n, 1.5))
    p = np.maximum(p, 1e-3)
    if style == "sparse" and n > 1:
        k = rs.randint(1, n + 1)
        keep = rs.permutation(n)[:k]
        z = np.zeros(n)
        z[keep] = p[keep]
        p = z
    elif style == "point":
        z = np.zeros(n)
        z[rs.randint(n)] = 1
        p = z
    return p / p.sum()


def transmat(rs, n, style):
    if style == "lr":
        A = np.zeros((n, n))
        for i in range(n):
            A[i, i:] = simplex(rs, n - i, "dense")
        return A
    if style == "cyclic":
        A = np.zeros((n, n))
        for i in range(n):
            a = rs.uniform(.2, .8)
            A[i, i] += a
            A[i, (i + 1) % n] += 1 - a
        return A
    if style == "slow":         # almost decomposable, any rate of mixing
        e = 10. ** -rs.uniform(1, 9)
        A = np.stack([simplex(rs, n, "dense") for _ in range(n)]) * e
        return A + np.eye(n) * (1 - A.sum(1))
    if style == "period":
        return np.eye(n)[rs.permutation(n)][:, np.roll(np.arange(n), 1)]
    if style == "sticky":
        A = np.full((n, n), 0.02) + np.eye(n)
        return A / A.sum(1, keepdims=True)
    return np.stack([simplex(rs, n, style) for _ in range(n)])


def spd(rs, nf):
    a = rs.normal(size=(nf, nf))
    q, _ = np.linalg.qr(a)
    e = rs.uniform(.3, 2.5, nf)
    C = (q * e) @ q.T
    return (C + C.T) / 2


def make_params(m):
    """Generative parameters, keyed neutrally (see ref.py)."""
    P = _make_params(m)
    u = m.get("unit", 1)
    if u != 1 and "covars" in P:
        P["means"], P["covars"] = P["means"] * u, P["covars"] * u ** 2
    return P


def _make_params(m):
    rs = np.random.RandomState(m["seed"])
    nc, nf, fam = m["nc"], m["nf"], m["family"]
    P = {"family": fam, "nc": nc, "nf": nf, "ct": m.get("ct"), "nm": m.get("nm"),
         "start": simplex(rs, nc, m["sstyle"]), "trans": transmat(rs, nc, m["tstyle"])}
    if fam in ("cat", "vcat", "multi"):
        P["emission"] = np.stack([simplex(rs, nf, m["estyle"]) for _ in range(nc)])
        if fam == "multi":
            P["trials"], P["vt"] = m["trials"], m.get("vt")
    elif fam == "pois":
        P["lambdas"] = m["lam"] * (0.2 + rs.gamma(1.5, 1.0, size=(nc, nf)))
    elif fam in ("gauss", "vgauss"):
        P["means"] = rs.normal(size=(nc, nf)) * m["sep"]
        ct = m["ct"]
        if ct == "spherical":
            P["covars"] = rs.uniform(.3, 2.5, nc)
        elif ct == "diag":
            P["covars"] = rs.uniform(.3, 2.5, (nc, nf))
        elif ct == "tied":
            P["covars"] = spd(rs, nf)
        else:
            P["covars"] = np.stack([spd(rs, nf) for _ in range(nc)])
    elif fam == "gmm":
        nm = m["nm"]
        P["weights"] = np.stack([simplex(rs, nm, m["wstyle"]) for _ in range(nc)])
        P["means"] = rs.normal(size=(nc, nm, nf)) * m["sep"]
        ct = m["ct"]
        if ct == "spherical":
            P["covars"] = rs.uniform(.3, 2.5, (nc, nm))
        elif ct == "diag":
            P["covars"] = rs.uniform(.3, 2.5, (nc, nm, nf))
        elif ct == "tied":
            P["covars"] = np.stack([spd(rs, nf) for _ in range(nc)])
        else:
            P["covars"] = np.stack([np.stack([spd(rs, nf) for _ in range(nm)])
                                    for _ in range(nc)])
    return P


def cov_of(P, i, k=None):
    from .ref import full_covars
    C = full_covars(P)
    return C[i] if k is None else C[i, k]


def sample(P, T, rs):
    """Draw a sequence from the generative model (own sampler)."""
    nc = P["nc"]
    z = rs.choice(nc, p=P["start"])
    out = []
    for t in range(T):
        if t:
            z = rs.choice(nc, p=P["trans"][z])
        out.append(emit(P, z, rs))
    return np.array(out)


def emit(P, z, rs):
    fam = P["family"]
    if fam in ("cat", "vcat"):
        return [rs.choice(P["nf"], p=P["emission"][z])]
    if fam == "multi":
        p = P["emission"][z]
        n = rs.randint(1, P["trials"] + 1) if P.get("vt") else P["trials"]
        x = np.bincount(rs.choice(P["nf"], p=p, size=n), minlength=P["nf"])
        return x
    if fam == "pois":
        return rs.poisson(P["lambdas"][z])
    if fam == "gmm":
        k = rs.choice(P["nm"], p=P["weights"][z])
        L = np.linalg.cholesky(cov_of(P, z, k))
        return P["means"][z, k] + L @ rs.normal(size=P["nf"])
    L = np.linalg.cholesky(cov_of(P, z))
    return P["means"][z] + L @ rs.normal(size=P["nf"])


def gen_data(r, m, max_T=60, max_seqs=4, min_total=1, dirty=True, lengths_none=True):
    """A data-set spec for model spec m."""
    ns = r.choice([1, 1, 2, 3, 4][:max_seqs + 1])
    Ts = [r.choice([1, 2, 3, 5, 8, 13, 21, 34, 60, 100, 200]) for _ in range(ns)]
    Ts = [min(t, max_T) for t in Ts]
    if r.random() < .06 and max_T >= 20 and max_seqs > 1:      # many short recordings
        Ts = [r.choice([1, 1, 2, 3]) for _ in range(r.choice([6, 10, 20, 40]))]
        ns = len(Ts)
    while sum(Ts) < min_total:
        Ts[r.randrange(len(Ts))] += 5
    d = {"seed": r.getrandbits(30), "Ts": Ts, "src": r.choice(["model", "model", "noise"]),
         "none": bool(lengths_none and ns == 1 and r.random() < .5),
         "form": r.choice(["plain", "plain", "f32", "fortran", "stride", "ro", "list",
                           "neg"]) if dirty else "plain",
         "lform": r.choice(["list", "array", "tuple"]), "scale": 1.0}
    if dirty and r.random() < .2:
        d["form"] = r.choice(["i8", "u8", "i16", "big"])
    if dirty and r.random() < .1:
        d["lform"] = r.choice(["i8", "u8", "i32"])
    if d["src"] == "noise":
        d["scale"] = r.choice([0.5, 1.0, 3.0])
    return d


NARROW = {"u8": np.uint8, "i8": np.int8, "i16": np.int16}


def lengths_of(d):
    L = None if d["none"] else list(d["Ts"])
    lf = d["lform"]
    if L is None or lf == "list" or lf in ("i8", "u8") and max(L) > 127:
        return L, L
    if lf == "tuple":
        return L, tuple(L)
    return L, np.array(L, {"array": int, "i8": np.int8, "u8": np.uint8, "i32": np.int32}[lf])


def make_data(m, d, P=None):
    """-> (X as handed to hmmlearn, X as a plain array, lengths)."""
    P = P or make_params(m)
    rs = np.random.RandomState(d["seed"])
    fam, nf = m["family"], m["nf"]
    parts = []
    for T in d["Ts"]:
        if d["src"] == "model":
            x = sample(P, T, rs)
        elif fam in ("cat", "vcat"):
            x = rs.randint(0, nf, size=(T, 1))
        elif fam == "multi":
            x = rs.multinomial(m["trials"], np.full(nf, 1. / nf), size=T)
        elif fam == "pois":
            x = rs.poisson(m["lam"], size=(T, nf))
        else:
            x = rs.normal(size=(T, nf)) * d["scale"] * m["sep"] * m.get("unit", 1)
        parts.append(np.asarray(x).reshape(T, -1))
    X = np.concatenate(parts)
    isint = fam in ("cat", "vcat", "multi", "pois")
    X = X.astype(np.int64 if isint else np.float64)
    form = d["form"]
    if form in NARROW and m.get("unit", 1) < 1:
        form = "plain"
    if form in NARROW:          # whole numbers, as read from a file
        lo, hi = {"u8": (0, 255), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1)}[form]
        if not isint:
            X = np.clip(np.round(X * {"u8": 2, "i8": 3, "i16": 60}[form]), lo, hi)
        elif X.max() > hi:
            form = "plain"
    if form in NARROW:
        plain = np.array(X)
        return X.astype(NARROW[form]), plain, lengths_of(d)[1]
    if form == "big":
        plain = np.array(X)
        return X.astype(">i8" if isint else ">f8"), plain, lengths_of(d)[1]
    if form == "f32":
        X = X.astype(np.int32 if isint else np.float32)
    elif form == "fortran":
        X = np.asfortranarray(X)
    elif form == "stride":
        big = np.zeros((2 * len(X), X.shape[1]), X.dtype)
        big[::2] = X
        X = big[::2]
    elif form == "neg":
        X = np.ascontiguousarray(X[::-1])[::-1]
    elif form == "ro":
        X.flags.writeable = False
    plain = np.array(X)
    given = X.tolist() if form == "list" else X
    return given, plain, lengths_of(d)[1]


HYPER = ("startprob_prior", "transmat_prior", "emissionprob_prior", "means_prior",
         "means_weight", "covars_prior", "covars_weight", "lambdas_prior",
         "lambdas_weight", "weights_prior", "min_covar")


def hyper(m):
    return {k: np.array(v) if isinstance(v, list) else v
            for k, v in m.get("hyper", {}).items()}


def gen_hyper(r, m, flat=False):
    """Random priors in the documented shapes (JSON-able)."""
    fam, nc, nf = m["family"], m["nc"], m["nf"]
    h = {}

    def arr(*shape, lo=1.0, hi=4.0):
        if not shape:
            return round(r.uniform(lo, hi), 3)
        return [arr(*shape[1:], lo=lo, hi=hi) for _ in range(shape[0])]

    def pick(name, *opts):
        if r.random() < .5:
            h[name] = r.choice(opts)()

    def each(n, lo, hi=4.):
        """One number for all, or one for each of n states or components."""
        return arr(*[n][r.random() < .6:], lo=lo, hi=hi)
    if fam in ("vcat", "vgauss"):
        pick("startprob_prior", lambda: arr(nc, lo=.2), lambda: arr(lo=.2))
        pick("transmat_prior", lambda: arr(nc, nc, lo=.2), lambda: arr(lo=.2))
        if fam == "vcat":
            pick("emissionprob_prior", lambda: arr(nc, nf, lo=.2), lambda: arr(lo=.2))
        else:
            ct = m["ct"]
            pick("means_prior", lambda: arr(nc, nf, lo=-2, hi=2))
            pick("beta_prior", lambda: arr(nc, lo=.2))
            pick("dof_prior", lambda: arr(*[nc][ct == "tied":], lo=nf, hi=nf + 4))
            pick("scale_prior", lambda: scale_prior(arr, ct, nc, nf))
        return whole(r, h)
    if flat:
        if fam == "gauss":
            h["covars_prior"] = 0.0
        return h
    pick("startprob_prior", lambda: arr(nc), lambda: arr())
    pick("transmat_prior", lambda: arr(nc, nc), lambda: arr(),
         lambda: arr(nc, nc, lo=.3, hi=1.5))
    if fam == "cat":
        pick("emissionprob_prior", lambda: arr(nc, nf), lambda: arr())
    elif fam == "pois":
        if r.random() < .6:
            h["lambdas_prior"], h["lambdas_weight"] = each(nc, .5), each(nc, .2)
    elif fam == "gauss":
        if r.random() < .5:
            h["means_weight"] = each(nc, .1)
            h["means_prior"] = r.choice([lambda: each(nc, -2, 2),
                                         lambda: arr(nc, nf, lo=-2, hi=2)])()
        if r.random() < .7:
            h["covars_prior"] = each(nc, .01, 2) if m["ct"] in ("diag", "spherical") \
                else arr(lo=.01, hi=2) if nf == 1 else r.choice([0.0, 0.01])
            h["covars_weight"] = r.choice([0, 1, 2.5, 7])
            if m["ct"] != "tied" and r.random() < .3:
                h["covars_weight"] = [r.choice([0, 1, 2.5, 7]) for _ in range(nc)]
    elif fam == "gmm":
        nm = m["nm"]
        pick("weights_prior", lambda: each(nm, 1), lambda: arr(nc, nm))
        if r.random() < .5:
            h["means_weight"] = each(nm, .1)
            h["means_prior"] = r.choice([lambda: each(nm, -2, 2),
                                         lambda: arr(nc, nm, nf, lo=-2, hi=2)])()
        if r.random() < .4:
            if m["ct"] in ("spherical", "diag"):
                h["covars_prior"], h["covars_weight"] = each(nm, .5), each(nm, .1)
            else:
                v = arr(lo=.05, hi=1)
                h["covars_prior"] = (np.eye(nf) * v).tolist()
                h["covars_weight"] = arr(lo=.5)
    return whole(r, h)


def scale_prior(arr, ct, nc, nf):
    if ct in ("spherical", "diag"):
        return arr(*[nc, nf][:1 + (ct == "diag")], lo=.1, hi=2)
    v = [(np.eye(nf) * arr(lo=.1, hi=2)).tolist() for _ in range(nc)]
    return v if ct == "full" else v[0]


def whole(r, h):
    """Some users write their priors in whole numbers."""
    for k in h:
        if isinstance(h[k], list) and r.random() < .2:
            up = np.round if k == "means_prior" else np.ceil
            h[k] = up(np.array(h[k])).astype(int).tolist()
    return h


def raw_params(P, m):
    """Neutral parameters with covariances in the constructor's layout."""
    P = dict(P)
    if m["family"] in ("gauss", "vgauss"):
        C = P["covars"]
        ct = m["ct"]
        P["covars"] = (C if ct == "full" else C[0] if ct == "tied"
                       else np.einsum("cff->cf", C) if ct == "diag" else C[:, 0, 0])
        P["ct"] = ct
    return P


def valid_params(P):
    """Would the documented constraints accept these distributions?"""
    for k in ("start", "trans", "emission", "weights"):
        if k in P:
            a = np.asarray(P[k])
            if not (np.all(a >= 0) and np.allclose(a.sum(-1), 1)):
                return False
    return all(np.all(np.isfinite(P[k])) for k in ("means", "covars", "lambdas") if k in P)


def class_of(hm, fam):
    return {"cat": hm.hmm.CategoricalHMM, "gauss": hm.hmm.GaussianHMM,
            "gmm": hm.hmm.GMMHMM, "multi": hm.hmm.MultinomialHMM,
            "pois": hm.hmm.PoissonHMM, "vcat": hm.vhmm.VariationalCategoricalHMM,
            "vgauss": hm.vhmm.VariationalGaussianHMM}[fam]


def new_model(hm, m, **kw):
    """An unfitted model object."""
    fam = m["family"]
    a = {"n_components": m["nc"], "implementation": m["impl"], "algorithm": m["alg"]}
    if fam in ("gauss", "gmm", "vgauss"):
        a["covariance_type"] = m["ct"]
    if fam == "gmm":
        a["n_mix"] = m["nm"]
    if fam in ("cat", "vcat") and not m.get("auto"):
        a["n_features"] = m["nf"]
    if fam == "multi":
        a["n_trials"] = m["trials"]
    a.update(hyper(m))
    a.update(kw)
    return class_of(hm, fam)(**a)


def as_form(a, form):
    """The same numbers in another form the user may hold them in."""
    a = np.array(a)
    if form == "list":
        return a.tolist()
    if form == "int" and np.all(a == np.round(a)):
        return a.astype(int)
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "stride":
        big = np.full((2 * len(a), *a.shape[1:]), np.nan)
        big[::2] = a
        return big[::2]
    if form == "big":
        return a.astype(">f8")
    if form == "neg":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if form == "ro":
        a.flags.writeable = False
    return a


class Formed:
    """Sets the attributes of a model in a given form."""

    def __init__(self, model, form):
        self.__dict__.update(model=model, form=form)

    def __setattr__(self, name, value):
        if isinstance(value, np.ndarray) and name != "covars_":
            value = as_form(value, self.form)
        setattr(self.model, name, value)

    def __getattr__(self, name):
        return np.asarray(getattr(self.model, name))


def set_params(model, m, P):
    """Install parameters through the documented attributes."""
    if m.get("pform"):
        plain_params(Formed(model, m["pform"]), m, P)
    else:
        plain_params(model, m, P)
    return model


def plain_params(model, m, P):
    fam = m["family"]
    model.startprob_ = np.array(P["start"])
    model.transmat_ = np.array(P["trans"])
    if fam in ("cat", "multi", "vcat"):
        model.emissionprob_ = np.array(P["emission"])
        if fam in ("cat", "vcat"):
            model.n_features = m["nf"]
    elif fam == "pois":
        model.lambdas_ = np.array(P["lambdas"])
    elif fam == "gauss":
        model.means_ = np.array(P["means"])
        model.n_features = m["nf"]
        model.covars_ = np.array(P["covars"])
    elif fam == "gmm":
        model.weights_ = np.array(P["weights"])
        model.means_ = np.array(P["means"])
        model.covars_ = np.array(P["covars"])
    if fam in ("vcat", "vgauss"):
        N = 20.0 * m["nc"]
        model.startprob_prior_ = np.full(m["nc"], 1. / m["nc"])
        model.startprob_posterior_ = model.startprob_ * 3 + .1
        model.transmat_prior_ = np.full((m["nc"], m["nc"]), 1. / m["nc"])
        model.transmat_posterior_ = model.transmat_ * N + .1
    if fam == "vcat":
        model.emissionprob_prior_ = np.full((m["nc"], m["nf"]), 1. / m["nf"])
        model.emissionprob_posterior_ = model.emissionprob_ * N + .1
    if fam == "vgauss":
        nc, nf = m["nc"], m["nf"]
        rs = np.random.RandomState(m["seed"] ^ 0x5a5a)
        model.n_features = nf
        model.means_prior_ = rs.normal(size=(nc, nf)) * .5
        model.means_posterior_ = np.array(P["means"])
        model.beta_prior_ = rs.uniform(.5, 2, nc)
        model.beta_posterior_ = rs.uniform(3, 9, nc)
        dof = rs.uniform(nf + 2, nf + 12, nc)
        c = np.array(P["covars"])
        model.covars_ = c if m["ct"] != "spherical" else c
        if m["ct"] == "tied":
            model.dof_prior_ = float(nf)
            model.dof_posterior_ = float(dof[0])
            model.scale_prior_ = np.identity(nf) * .3
            model.scale_posterior_ = c * dof[0]
        else:
            model.dof_prior_ = np.full(nc, float(nf))
            model.dof_posterior_ = dof
            if m["ct"] == "full":
                model.scale_prior_ = np.stack([np.identity(nf) * .3] * nc)
                model.scale_posterior_ = c * dof[:, None, None]
            elif m["ct"] == "diag":
                model.scale_prior_ = np.full((nc, nf), .3)
                model.scale_posterior_ = c * dof[:, None]
            else:
                model.scale_prior_ = np.full(nc, .3)
                model.scale_posterior_ = c * dof


def read_params(model, m):
    """Parameters in the neutral form, from public attributes."""
    fam = m["family"]
    g = lambda n: np.array(getattr(model, n), float)  # noqa: E731
    P = {"family": fam, "nc": m["nc"], "nf": m["nf"], "ct": m.get("ct"), "nm": m.get("nm"),
         "start": g("startprob_"), "trans": g("transmat_")}
    if fam in ("cat", "multi", "vcat"):
        P["emission"] = g("emissionprob_")
        P["nf"] = P["emission"].shape[-1]
    elif fam == "pois":
        P["lambdas"] = g("lambdas_")
    elif fam in ("gauss", "vgauss"):
        P["means"] = g("means_")
        C = g("covars_")           # always full matrices
        P["covars"] = C
        P["ct"], P["mct"] = "full", m["ct"]
    elif fam == "gmm":
        P["weights"], P["means"], P["covars"] = g("weights_"), g("means_"), g("covars_")
    return P


def edit(model, m, op):
    """The owner changes a few parameters of a model, most often in place."""
    rs = np.random.RandomState(op["seed"])
    names = ["startprob_", "transmat_", "transmat_", "transmat_"]
    if op.get("vb") and m["family"] in ("vcat", "vgauss"):
        names = ["startprob_posterior_", "transmat_posterior_", "transmat_posterior_"]
        names += ["emissionprob_posterior_" if m["family"] == "vcat" else "means_posterior_"]
    names += {"cat": ["emissionprob_"], "multi": ["emissionprob_"], "pois": ["lambdas_"],
              "gauss": ["means_"], "gmm": ["means_", "weights_"]}.get(m["family"], [])
    name = names[rs.randint(len(names))]
    a = getattr(model, name)
    b = np.array(a)
    if b.ndim > 1 and rs.rand() < .4:
        b = b[rs.permutation(len(b))]
    rows = b.reshape(-1, b.shape[-1])
    for i in range(len(rows)):
        if rs.rand() < .6:
            lo, hi = (0, b.shape[-1]) if rs.rand() < .5 else (1, b.shape[-1] - 1)
            if hi > lo:
                rows[i, lo:hi] = rows[i, lo:hi][rs.permutation(hi - lo)]
    if op["how"] == "inplace" and isinstance(a, np.ndarray) and a.flags.writeable \
            and a.dtype.kind == "f":
        a[...] = b
    else:
        setattr(model, name, b)


def edit_data(data, seed):
    """The owner refills its buffers with other data of the same kind."""
    given, plain, lens = data
    rs = np.random.RandomState(seed)
    perm = rs.permutation(len(plain))
    if isinstance(given, list):
        given[:] = [given[i] for i in perm]
    elif given.flags.writeable:
        given[...] = given[perm]
    else:
        given = given[perm]
        given.flags.writeable = False
    if lens is not None and len(lens) <= len(plain):
        cuts = np.sort(rs.choice(len(plain) - 1, len(lens) - 1, replace=False)) + 1
        new = np.diff(np.concatenate([[0], cuts, [len(plain)]]))
        if isinstance(lens, tuple):
            lens = tuple(new.tolist())
        elif getattr(lens, "itemsize", 8) == 1 and new.max() > 127:
            pass
        else:
            lens[:] = new.tolist() if isinstance(lens, list) else new
    return given, plain[perm], lens


VB_NAMES = {"start": "startprob", "trans": "transmat", "emission": "emissionprob",
            "means": "means", "beta": "beta", "dof": "dof", "scale": "scale"}


def read_vb(model, m):
    V = {"family": m["family"], "nc": m["nc"], "nf": m["nf"], "ct": m.get("ct")}
    names = ["start", "trans"] + (["emission"] if m["family"] == "vcat"
                                  else ["means", "beta", "dof", "scale"])
    for n in names:
        for a, b in (("prior", "_prior_"), ("posterior", "_posterior_")):
            V[f"{n}_{'prior' if a == 'prior' else 'post'}"] = np.array(
                getattr(model, VB_NAMES[n] + b), float)
    return V
