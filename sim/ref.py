"""Independent reference models (plain numpy, log domain, no hmmlearn code)."""
import numpy as np
from scipy.special import digamma, gammaln, xlogy

NEG = -np.inf


class Degenerate(Exception):
    """The formula is undefined here (empty state, collapsed covariance)."""


def lse(a, axis):
    m = np.max(a, axis=axis, keepdims=True)
    ms = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore", under="ignore"):
        r = np.log(np.sum(np.exp(a - ms), axis=axis, keepdims=True)) + ms
    return np.squeeze(r, axis)


def logz(a):
    with np.errstate(divide="ignore"):
        return np.log(np.asarray(a, float))


def full_covars(P):
    """(nc, [nm,] nf, nf) covariance matrices from the raw parameters."""
    fam, ct = P["family"], P["ct"]
    nc, nf = P["nc"], P["nf"]
    c = np.asarray(P["covars"], float)
    eye = np.eye(nf)
    if fam == "gmm":
        nm = P["nm"]
        if ct == "spherical":
            return c[:, :, None, None] * eye
        if ct == "diag":
            return c[..., None] * eye
        if ct == "tied":
            return np.broadcast_to(c[:, None], (nc, nm, nf, nf))
        return c
    if ct == "spherical":
        return c.reshape(nc, -1)[:, 0][:, None, None] * eye
    if ct == "diag":
        return c[..., None] * eye
    if ct == "tied":
        return np.broadcast_to(c, (nc, nf, nf))
    return c


def log_normal(X, mu, cov):
    nf = len(mu)
    d = X - mu
    try:
        L = np.linalg.cholesky(cov)
    except np.linalg.LinAlgError:
        raise Degenerate("singular covariance")
    z = np.linalg.solve(L, d.T)
    return -.5 * (nf * np.log(2 * np.pi) + 2 * np.log(np.diag(L)).sum() + (z ** 2).sum(0))


def gmm_component_logs(P, X):
    C = full_covars(P)
    nc, nm = P["nc"], P["nm"]
    out = np.empty((len(X), nc, nm))
    lw = logz(P["weights"])
    for i in range(nc):
        for k in range(nm):
            if lw[i, k] == NEG:
                out[:, i, k] = NEG
            else:
                out[:, i, k] = lw[i, k] + log_normal(X, P["means"][i, k], C[i, k])
    return out


def frame_logprob(P, X):
    return emission_logs(P, X) + P.get("gain", 0)   # gain: unit the densities are given in


def emission_logs(P, X):
    X = np.asarray(X)
    fam = P["family"]
    if fam in ("cat", "vcat"):
        return logz(P["emission"])[:, X.reshape(-1).astype(int)].T
    X = X.astype(float)
    if fam in ("gauss", "vgauss"):
        C = full_covars(P)
        return np.stack([log_normal(X, P["means"][i], C[i]) for i in range(P["nc"])], 1)
    if fam == "gmm":
        return lse(gmm_component_logs(P, X), 2)
    if fam == "multi":
        base = gammaln(X.sum(1) + 1) - gammaln(X + 1).sum(1)
        return np.stack([base + xlogy(X, P["emission"][i]).sum(1) for i in range(P["nc"])], 1)
    if fam == "pois":
        base = -gammaln(X + 1).sum(1)
        return np.stack([base + (xlogy(X, P["lambdas"][i]) - P["lambdas"][i]).sum(1)
                         for i in range(P["nc"])], 1)
    raise KeyError(fam)


class FB:
    """Forward-backward in the log domain."""

    def __init__(self, lpi, lA, B):
        T, nc = B.shape
        la = np.empty((T, nc))
        lb = np.zeros((T, nc))
        la[0] = lpi + B[0]
        for t in range(1, T):
            la[t] = lse(la[t - 1][:, None] + lA, 0) + B[t]
        for t in range(T - 2, -1, -1):
            lb[t] = lse(lA + (B[t + 1] + lb[t + 1])[None, :], 1)
        self.la, self.lb, self.B, self.lA = la, lb, B, lA
        self.ll = float(lse(la[-1], 0))
        self.possible = self.ll > NEG
        self.gamma = self.xi = None
        if self.possible:
            with np.errstate(under="ignore"):
                g = np.exp(la + lb - self.ll)
                self.gamma = g / g.sum(1, keepdims=True)
                xi = np.zeros((nc, nc))
                for t in range(T - 1):
                    xi += np.exp(la[t][:, None] + lA + (B[t + 1] + lb[t + 1])[None, :] - self.ll)
                self.xi = xi

    def scaling_safe(self, lim=600.):
        """No intermediate value of a scaled recursion leaves double range."""
        if not self.possible:
            return False
        c = lse(self.la, 1)                      # log P(x_1..x_t)
        ah = self.la - c[:, None]                # scaled forward
        bh = self.lb - (self.ll - c)[:, None]    # scaled backward (no own factor)
        step = np.diff(np.concatenate([[0.], c]))
        for a in (ah, bh, self.B, step, ah[:-1].max(1, initial=NEG)):
            f = np.asarray(a)[np.isfinite(a)]
            if f.size and np.abs(f).max() > lim / 2:
                return False
        return True


def viterbi(lpi, lA, B):
    d = lpi + B[0]
    for t in range(1, len(B)):
        d = (d[:, None] + lA).max(0) + B[t]
    return float(d.max())


def path_logprob(lpi, lA, B, z):
    z = np.asarray(z)
    r = lpi[z[0]] + B[np.arange(len(z)), z].sum()
    if len(z) > 1:
        r += lA[z[:-1], z[1:]].sum()
    return float(r)


def split(n, lengths):
    if lengths is None:
        return [(0, n)]
    e = np.cumsum(lengths)
    return list(zip((e - np.asarray(lengths)).tolist(), e.tolist()))


class Eval:
    """Everything the reference knows about (P, X, lengths)."""

    def __init__(self, P, X, lengths):
        X = np.asarray(X)
        self.lpi, self.lA = logz(P["start"]), logz(P["trans"])
        self.fbs, self.slices = [], split(len(X), lengths)
        for a, b in self.slices:
            self.fbs.append(FB(self.lpi, self.lA, frame_logprob(P, X[a:b])))
        self.ll = float(sum(f.ll for f in self.fbs))
        self.possible = all(f.possible for f in self.fbs)

    @property
    def gamma(self):
        return np.concatenate([f.gamma for f in self.fbs])

    def safe(self):
        return all(f.scaling_safe() for f in self.fbs)

    def vit(self):
        return float(sum(viterbi(self.lpi, self.lA, f.B) for f in self.fbs))

    def path(self, z):
        z = np.asarray(z)
        return float(sum(path_logprob(self.lpi, self.lA, f.B, z[a:b])
                         for f, (a, b) in zip(self.fbs, self.slices)))


def _norm_rows(a):
    s = a.sum(-1, keepdims=True)
    return a / np.where(s == 0, 1, s)


def _sym_min_eig(C):
    return min(np.linalg.eigvalsh(c).min() for c in C.reshape(-1, *C.shape[-2:]))


def per_row(a, n, ndim):
    """A prior given as one number per state (or per mixture component)."""
    a = np.asarray(a)
    return a.reshape((n,) + (1,) * (ndim - 1)) if a.shape == (n,) else a


def em_step(P, H, X, lengths, params, gmm_new_means=False):
    """One exact EM (MAP) update.  Returns (log-likelihood of P, new P)."""
    X = np.asarray(X)
    ev = Eval(P, X, lengths)
    if not ev.possible:
        raise Degenerate("impossible data")
    N = dict(P)
    fam = P["family"]
    if "s" in params:
        s = sum(f.gamma[0] for f in ev.fbs)
        s = np.maximum(np.asarray(H.get("startprob_prior", 1.)) - 1 + s, 0)
        s = np.where(np.asarray(P["start"]) == 0, 0, s)
        if s.sum() <= 0:
            raise Degenerate("start")
        N["start"] = s / s.sum()
    if "t" in params:
        t = sum(f.xi for f in ev.fbs)
        t = np.maximum(np.asarray(H.get("transmat_prior", 1.)) - 1 + t, 0)
        t = np.where(np.asarray(P["trans"]) == 0, 0, t)
        N["trans"] = _norm_rows(t)
        empty = t.sum(1) < 1e-9     # what is left of such a row is rounding
        if np.any(empty):
            N["trans_empty"] = empty
    g = ev.gamma
    post = g.sum(0)
    Xf = X.astype(float)
    if fam in ("cat", "multi") and "e" in params:
        if fam == "cat":
            ns = P["emission"].shape[1]
            obs = np.stack([g[X.reshape(-1) == k].sum(0) for k in range(ns)], 1)
            obs = np.maximum(np.asarray(H.get("emissionprob_prior", 1.)) - 1 + obs, 0)
        else:
            obs = g.T @ Xf
        if np.any(obs.sum(1) <= 1e-9):
            raise Degenerate("emission row")
        N["emission"] = _norm_rows(obs)
    if fam == "pois" and "l" in params:
        a, b = (per_row(H.get(k, 0.), P["nc"], 2) for k in ("lambdas_prior", "lambdas_weight"))
        if np.any(post < 1e-6):
            raise Degenerate("post")
        N["lambdas"] = (a + g.T @ Xf) / (b + post[:, None])
    if fam == "gauss" and ("m" in params or "c" in params):
        if np.any(post < 1e-4):
            raise Degenerate("post")
        mw, mp = (per_row(H.get(k, 0.), P["nc"], 2) for k in ("means_weight", "means_prior"))
        mu = np.asarray(P["means"], float)
        if "m" in params:
            mu = (mw * mp + g.T @ Xf) / (mw + post[:, None])
            N["means"] = mu
        if "c" in params:
            cp, cw = H.get("covars_prior", 1e-2), H.get("covars_weight", 1.)
            nc, nf = mu.shape
            ct = P.get("mct") or P["ct"]
            if ct != "tied":
                cp, cw = (per_row(a, nc, 3 if ct == "full" else 2) for a in (cp, cw))
            D = Xf[:, None, :] - mu
            md = mu - mp
            if ct in ("diag", "spherical"):
                num = mw * md ** 2 + np.einsum("tc,tcf->cf", g, D ** 2)
                den = np.maximum(cw - 1, 0) + post[:, None]
                v = (cp + num) / np.maximum(den, 1e-5)
                if ct == "spherical":
                    v = np.repeat(v.mean(1)[:, None], nf, 1)
                N["covars"] = v[..., None] * np.eye(nf)
                N["ct"], N["mct"] = "full", ct
                if v.min() < 1e-7:
                    raise Degenerate("covars")
            else:
                S = np.einsum("tc,tcf,tcg->cfg", g, D, D) \
                    + np.reshape(mw, (-1, 1, 1)) * np.einsum("cf,cg->cfg", md, md)
                w = np.maximum(cw - nf, 0)
                if ct == "full":
                    C = (cp + S) / (w + post[:, None, None])
                else:
                    C = (cp + S.sum(0)) / (w + post.sum())
                N["covars"] = np.array(np.broadcast_to(C, (nc, nf, nf)))
                N["ct"], N["mct"] = "full", ct
                if _sym_min_eig(C) < 1e-7:
                    raise Degenerate("covars")
    if fam == "gmm":
        nc, nm, nf = P["nc"], P["nm"], P["nf"]
        lc = gmm_component_logs(P, Xf)
        with np.errstate(under="ignore"):
            r = np.exp(lc - lse(lc, 2)[:, :, None]) * g[:, :, None]
        pm = r.sum(0)
        if np.any(pm < 1e-4):
            raise Degenerate("mix")
        if "w" in params:
            wp = np.broadcast_to(np.asarray(H.get("weights_prior", 1.), float), (nc, nm)) - 1
            w = (pm + wp) / (post + wp.sum(1))[:, None]
            if w.min() < 0:
                raise Degenerate("weights")
            N["weights"] = w
        lam = np.broadcast_to(np.asarray(H.get("means_weight", 0.), float), (nc, nm))
        mp = np.broadcast_to(per_row(H.get("means_prior", 0.), nm, 2), (nc, nm, nf))
        mu_old = np.asarray(P["means"], float)
        mu = mu_old
        if "m" in params:
            mu = (lam[..., None] * mp + np.einsum("tik,tf->ikf", r, Xf)) / (pm + lam)[..., None]
            N["means"] = mu
        if "c" in params:
            ct = P["ct"]
            D = Xf[:, None, None, :] - (mu if gmm_new_means else mu_old)
            cm = mu - mp
            S = np.einsum("tik,tikf,tikg->ikfg", r, D, D)
            M = lam[..., None, None] * np.einsum("ikf,ikg->ikfg", cm, cm)
            cp, cw = H.get("covars_prior"), H.get("covars_weight")
            if ct in ("full", "diag") and cp is not None:
                cp = per_row(cp, nm, 3 if ct == "full" else 2)
                cw = per_row(cw, nm, 1 if ct == "full" else 2)
            if cp is None and cw is None:     # defaults: maximum likelihood
                if ct == "full":
                    C = (S + M) / pm[..., None, None]
                elif ct == "tied":
                    C = (S + M).sum(1) / post[:, None, None]
                else:
                    v = np.einsum("ikff->ikf", S + M)
                    C = v / pm[..., None] if ct == "diag" else v.sum(-1) / (nf * pm)
            else:
                if ct == "full":
                    C = (cp + S + M) / (pm + 1 + cw + nf + 1)[..., None, None]
                elif ct == "tied":
                    C = (cp + (S + M).sum(1)) / (post + nm + cw + nf + 1)[:, None, None]
                else:
                    v = np.einsum("ikff->ikf", S + M)
                    if ct == "diag":
                        C = (v + 2 * cw) / (pm[..., None] + 1 + 2 * (cp + 1))
                    else:
                        C = (v.sum(-1) + 2 * cw) / (nf * (pm + 1) + 2 * (cp + 1))
            N["covars"] = C
            if _sym_min_eig(full_covars(N)) < 1e-6:
                raise Degenerate("covars")
    return ev.ll, N


def rounded(P):
    """The same parameters up to the rounding error of the counts behind them."""
    N = dict(P)
    for k in ("start", "trans", "emission"):
        if k in P:
            a = np.asarray(P[k], float)
            N[k] = np.floor(a / 1e-15) * 1e-15
    return N


# ---- variational Bayes ----

def kl_dir(q, p):
    return (gammaln(q.sum()) - gammaln(q).sum() - gammaln(p.sum()) + gammaln(p).sum()
            + ((q - p) * (digamma(q) - digamma(q.sum()))).sum())


def _logB(W_inv, dof):
    """log normaliser of a Wishart with scale inv(W_inv), `dof` degrees."""
    D = len(W_inv)
    return -(.5 * dof * D * np.log(2) - .5 * dof * np.linalg.slogdet(W_inv)[1]
             + D * (D - 1) / 4 * np.log(np.pi)
             + gammaln(.5 * (dof - np.arange(D))).sum())


def _elogdet(W_inv, dof):
    D = len(W_inv)
    return (digamma(.5 * (dof - np.arange(D))).sum() + D * np.log(2)
            - np.linalg.slogdet(W_inv)[1])


def kl_wishart(dq, Sq, dp, Sp):
    D = len(Sq)
    return (_logB(Sq, dq) - _logB(Sp, dp) + .5 * (dq - dp) * _elogdet(Sq, dq)
            - .5 * dq * D + .5 * dq * np.trace(Sp @ np.linalg.inv(Sq)))


def vb_full_scale(V, which):
    S = np.asarray(V["scale_" + which], float)
    nc, nf, ct = V["nc"], V["nf"], V["ct"]
    if ct == "full":
        return S
    if ct == "tied":
        return np.broadcast_to(S, (nc, nf, nf))
    if ct == "diag":
        return S[..., None] * np.eye(nf)
    return S[:, None, None] * np.eye(nf)


def vb_fbs(V, X, lengths):
    """Forward-backward under the posterior's expected log parameters.

    Returns (passes, minus the KL terms of the bound).
    """
    X = np.asarray(X)
    sp, tp = np.asarray(V["start_post"], float), np.asarray(V["trans_post"], float)
    lpi = digamma(sp) - digamma(sp.sum())
    lA = digamma(tp) - digamma(tp.sum(1, keepdims=True))
    nc = V["nc"]
    bound = -kl_dir(sp, np.asarray(V["start_prior"], float))
    for i in range(nc):
        bound -= kl_dir(tp[i], np.asarray(V["trans_prior"], float)[i])
    if V["family"] == "vcat":
        ep = np.asarray(V["emission_post"], float)
        le = digamma(ep) - digamma(ep.sum(1, keepdims=True))
        B = le[:, X.reshape(-1).astype(int)].T
        for i in range(nc):
            bound -= kl_dir(ep[i], np.asarray(V["emission_prior"], float)[i])
    else:
        Xf = X.astype(float)
        nf = V["nf"]
        dof = np.broadcast_to(np.asarray(V["dof_post"], float), (nc,))
        dofp = np.broadcast_to(np.asarray(V["dof_prior"], float), (nc,))
        S, Sp = vb_full_scale(V, "post"), vb_full_scale(V, "prior")
        m, mp = np.asarray(V["means_post"], float), np.asarray(V["means_prior"], float)
        be, bp = np.asarray(V["beta_post"], float), np.asarray(V["beta_prior"], float)
        B = np.empty((len(Xf), nc))
        for i in range(nc):
            d = Xf - m[i]
            q = np.einsum("tf,tf->t", d, np.linalg.solve(S[i], d.T).T)
            B[:, i] = .5 * (_elogdet(S[i], dof[i]) - nf / be[i] - dof[i] * q)
            dm = m[i] - mp[i]
            bound -= .5 * (nf * np.log(be[i] / bp[i]) + nf * bp[i] / be[i] - nf
                           + bp[i] * dof[i] * dm @ np.linalg.solve(S[i], dm))
            if V["ct"] != "tied" or i == 0:
                bound -= kl_wishart(dof[i], S[i], dofp[i], Sp[i])
    fbs = [FB(lpi, lA, B[a:b]) for a, b in split(len(X), lengths)]
    return fbs, bound


def vb_underflow(V):
    """Are sub-normalised start or transition probabilities too small for a double?"""
    for k in ("start_post", "trans_post"):
        q = np.asarray(V[k], float)
        if (digamma(q) - digamma(q.sum(-1, keepdims=True))).min() < -690:
            return True
    return False


def vb_step(V, X, lengths, params):
    """One variational update.  V holds priors and posteriors.

    Returns (lower bound before the update, up to a constant, new V).
    """
    X = np.asarray(X)
    nc = V["nc"]
    fbs, bound = vb_fbs(V, X, lengths)
    if not all(f.possible for f in fbs):
        raise Degenerate("impossible")
    bound += sum(f.ll for f in fbs)
    g = np.concatenate([f.gamma for f in fbs])
    N = dict(V)
    if "s" in params:
        N["start_post"] = np.asarray(V["start_prior"], float) + sum(f.gamma[0] for f in fbs)
    if "t" in params:
        N["trans_post"] = np.asarray(V["trans_prior"], float) + sum(f.xi for f in fbs)
    if V["family"] == "vcat":
        if "e" in params:
            ns = V["emission_post"].shape[1]
            N["emission_post"] = V["emission_prior"] + np.stack(
                [g[X.reshape(-1) == k].sum(0) for k in range(ns)], 1)
    else:
        post = g.sum(0)
        Xf = X.astype(float)
        bp, mp = np.asarray(V["beta_prior"], float), np.asarray(V["means_prior"], float)
        if "m" in params:
            N["beta_post"] = bp + post
            N["means_post"] = (bp[:, None] * mp + g.T @ Xf) / N["beta_post"][:, None]
        if "c" in params:
            # scatter about the (new) posterior mean plus the prior's pull
            mu, bq = np.asarray(N["means_post"]), np.asarray(N["beta_post"])
            S2 = (np.einsum("tc,tf,tg->cfg", g, Xf, Xf)
                  + np.einsum("c,cf,cg->cfg", bp, mp, mp)
                  - np.einsum("c,cf,cg->cfg", bq, mu, mu))
            ct = V["ct"]
            sp0 = np.asarray(V["scale_prior"], float)
            if ct == "full":
                N["scale_post"] = sp0 + S2
            elif ct == "tied":
                N["scale_post"] = sp0 + S2.sum(0)
            elif ct == "diag":
                N["scale_post"] = sp0 + np.einsum("cff->cf", S2)
            else:
                N["scale_post"] = sp0 + np.einsum("cff->cf", S2).mean(1)
            N["dof_post"] = (np.asarray(V["dof_prior"], float)
                             + (post.sum() if ct == "tied" else post))
    return float(bound), N
