"""Checks of the machinery itself.

  python -m sim.selftest --quick     the reference model against path enumeration,
                                     scipy's densities and numerical optimality
  python -m sim.selftest             the same, and determinism: many seeds of every
                                     property twice, in other processes, chunkings and
                                     under another PYTHONHASHSEED; event digests must agree
"""
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

import numpy as np
from scipy import stats

from . import build, ref, spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EM = ["cat", "gauss", "gmm", "multi", "pois"]


def near(a, b, what, rtol=1e-9, atol=1e-9):
    if not np.allclose(a, b, rtol=rtol, atol=atol):
        raise SystemExit(f"selftest: {what}: {a} != {b}")


def density(P, X):
    """Frame log-densities through scipy.stats."""
    fam = P["family"]
    if fam in ("cat", "vcat"):
        return np.log(P["emission"][:, X[:, 0]].T)
    if fam == "multi":
        return np.stack([stats.multinomial.logpmf(X, P["trials"], p) for p in P["emission"]], 1)
    if fam == "pois":
        return np.stack([stats.poisson.logpmf(X, lam).sum(1) for lam in P["lambdas"]], 1)
    C = ref.full_covars(P)
    mvn = stats.multivariate_normal

    def one(m, c):
        return np.atleast_1d(mvn.logpdf(X, m, c))
    if fam == "gmm":
        return np.stack([np.logaddexp.reduce([
            (np.log(w) if w else -np.inf) + one(m, c) for w, m, c in
            zip(P["weights"][i], P["means"][i], C[i])]) for i in range(P["nc"])], 1)
    return np.stack([one(P["means"][i], C[i]) for i in range(P["nc"])], 1)


def brute(P, B):
    """Likelihood, posteriors, transition counts and best path by enumeration."""
    T, nc = B.shape
    tot, g, xi, best = 0., np.zeros((T, nc)), np.zeros((nc, nc)), -np.inf
    for z in itertools.product(range(nc), repeat=T):
        p = P["start"][z[0]] * np.exp(sum(B[t, z[t]] for t in range(T)))
        for a, b in zip(z, z[1:]):
            p *= P["trans"][a, b]
        tot += p
        best = max(best, p)
        for t in range(T):
            g[t, z[t]] += p
        for a, b in zip(z, z[1:]):
            xi[a, b] += p
    return tot, g / tot, xi / tot, best


def enumeration(n):
    for s in range(n):
        r = random.Random(f"enum:{s}")
        m = spec.gen_model(r, EM, max_nc=3)
        P = spec.make_params(m)
        d = spec.gen_data(r, m, max_T=4, max_seqs=1, dirty=False)
        d["Ts"] = d["Ts"][:1]
        d["src"] = "model"
        _, X, _ = spec.make_data(m, {**d, "none": True}, P)
        with np.errstate(divide="ignore"):
            B = density(P, X)
        near(ref.frame_logprob(P, X), B, f"density {m}", 1e-7, 1e-7)
        E = ref.Eval(P, X, None)
        tot, g, xi, best = brute(P, B)
        near(E.ll, np.log(tot), f"likelihood {m}")
        near(E.gamma, g, f"posterior {m}")
        near(E.fbs[0].xi, xi, f"transitions {m}")
        near(E.vit(), np.log(best), f"viterbi {m}")
    return n


def optimality(n):
    """EM: the new parameters beat every small feasible perturbation of themselves."""
    done = 0
    for s in range(n):
        r = random.Random(f"opt:{s}")
        m = spec.gen_model(r, EM, max_nc=3, styles=["dense"])
        P = spec.make_params(m)
        d = spec.gen_data(r, m, max_T=30, min_total=40, dirty=False)
        _, X, L = spec.make_data(m, d, P)
        H = {"covars_prior": 0.} if m["family"] == "gauss" else {}
        rs = np.random.RandomState(s)

        def Q(new):
            """Expected complete-data log-likelihood of `new` under P's posteriors."""
            E = ref.Eval(P, X, L)
            q = sum(f.gamma[0] for f in E.fbs) @ ref.logz(new["start"])
            q += (sum(f.xi for f in E.fbs) * ref.logz(new["trans"])).sum()
            if m["family"] == "gmm":
                lc = ref.gmm_component_logs(P, X.astype(float))
                rr = np.exp(lc - ref.lse(lc, 2)[:, :, None]) * E.gamma[:, :, None]
                return q + (rr * ref.gmm_component_logs(new, X.astype(float))).sum()
            return q + (E.gamma * ref.frame_logprob(new, X)).sum()
        try:
            _, N = ref.em_step(P, H, X, L, spec.CODES[m["family"]], gmm_new_means=True)
        except ref.Degenerate:
            continue
        if m["family"] == "gauss":
            N["ct"] = "full"
        base = Q(N)
        for k in ("start", "trans", "emission", "weights", "lambdas", "means", "covars"):
            if k not in N:
                continue
            for _ in range(4):
                a = np.asarray(N[k])
                if k in ("start", "trans", "emission", "weights"):
                    b = a * np.exp(1e-3 * rs.normal(size=a.shape))
                    b /= b.sum(-1, keepdims=True)
                elif k == "covars":
                    b = a * np.exp(2e-3 * rs.normal())
                else:
                    b = a * (1 + 1e-3 * rs.normal(size=a.shape))
                if Q({**N, k: b}) > base + 1e-9 * abs(base):
                    raise SystemExit(f"selftest: EM update of {k} not optimal: {m}")
        done += 1
    return done


def variational(n):
    """VB: at a fixed point no posterior parameter can be moved to raise the bound."""
    done = 0
    for s in range(n):
        r = random.Random(f"vb:{s}")
        nc, nf = r.choice([1, 2, 3]), r.choice([1, 2])
        rs = np.random.RandomState(s)
        fam = r.choice(["vcat", "vgauss"])
        V = {"family": fam, "nc": nc, "nf": nf, "ct": "full",
             "start_prior": rs.uniform(.5, 2, nc), "start_post": rs.uniform(.5, 2, nc),
             "trans_prior": rs.uniform(.5, 2, (nc, nc)), "trans_post": rs.uniform(.5, 9, (nc, nc))}
        if fam == "vcat":
            nf = V["nf"] = 3
            V["emission_prior"] = rs.uniform(.5, 2, (nc, nf))
            V["emission_post"] = rs.uniform(.5, 9, (nc, nf))
            X, codes = rs.randint(0, nf, (25, 1)), "ste"
        else:
            V.update(ct=r.choice(["full", "tied"]))
            one = V["ct"] == "tied"
            V.update(means_prior=rs.normal(size=(nc, nf)), means_post=rs.normal(size=(nc, nf)) * 2,
                     beta_prior=rs.uniform(.5, 2, nc), beta_post=rs.uniform(2, 5, nc))
            V["dof_prior"] = float(nf) if one else np.full(nc, float(nf))
            V["dof_post"] = nf + 9. if one else np.full(nc, nf + 9.)
            V["scale_prior"] = np.eye(nf) if one else np.stack([np.eye(nf)] * nc)
            V["scale_post"] = 9. * np.eye(nf) if one else np.stack([9. * np.eye(nf)] * nc)
            X, codes = rs.normal(size=(25, nf)) * 2, "stmc"
        last = -np.inf
        for _ in range(400):
            b, V2 = ref.vb_step(V, X, [10, 15], codes)
            if b < last - 1e-8 * abs(last):
                raise SystemExit(f"selftest: bound fell {last} -> {b} ({fam})")
            stop = b - last < 1e-11 * abs(b)
            last, V = b, V2
            if stop:
                break
        base = ref.vb_step(V, X, [10, 15], codes)[0]
        for k in [k for k in V if k.endswith("_post")]:
            for _ in range(3):
                a = np.asarray(V[k], float)
                eps = 1e-3 * rs.normal(size=a.shape)
                b = a * np.exp(eps.mean() if k == "scale_post" else eps)
                if ref.vb_step({**V, k: b}, X, [10, 15], codes)[0] > base + 1e-7 * abs(base):
                    raise SystemExit(f"selftest: bound not maximal in {k} ({fam}, {V['ct']})")
        done += 1
    return done


def digests(stage, prop, seeds, chunk, env, tier="quick"):
    out = {}
    e = build.env()
    e.update(env)
    p = subprocess.Popen([build.PY, "-m", "sim.worker", stage, prop, tier], cwd=VERIF, env=e,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True)

    def feed():
        for i in range(0, len(seeds), chunk):
            p.stdin.write(json.dumps({"id": i, "timeout": 600, "runs": [
                {"seed": s} for s in seeds[i:i + chunk]]}) + "\n")
            p.stdin.flush()
        p.stdin.close()
    t = threading.Thread(target=feed)
    t.start()
    for line in p.stdout:
        m = json.loads(line)
        if "i" in m:
            st = m["stats"]
            out[seeds[m["id"] + m["i"]]] = (m["digest"], st["fp"], st["steps"], st["switches"],
                                            json.dumps(m["faults"]), json.dumps(m["probes"]),
                                            json.dumps([v["kind"] for v in m["violations"]]))
    t.join()
    p.wait()
    return out


def determinism(props, n):
    scratch = tempfile.mkdtemp(prefix="hmmsim-self-")
    bad = 0
    try:
        st = build.stage(os.path.join(scratch, "stage"))
        for prop in props:
            seeds = [f"self:{prop}:{i}" for i in range(n)]
            parts = [seeds[i::8] for i in range(8)]
            runs = {}

            def work(name, i, chunk, env):
                runs[name, i] = digests(st, prop, parts[i], chunk, env)
            for name, chunk, env in (("a", 20, {}), ("b", 1, {"PYTHONHASHSEED": "11"}),
                                     ("c", 7, {"PYTHONHASHSEED": "222"})):
                ths = [threading.Thread(target=work, args=(name, i, chunk, env))
                       for i in range(8)]
                [t.start() for t in ths]
                [t.join() for t in ths]
            diff = []
            for i in range(8):
                for s in parts[i]:
                    v = {k: runs[k, i].get(s) for k in "abc"}
                    if v["a"] is None or len(set(v.values())) != 1:
                        diff.append((s, v))
            print(f"{prop}: {n} seeds x 3, {len(diff)} differ", flush=True)
            for s, v in diff[:4]:
                print("  ", s, v)
            bad += len(diff)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return bad


def main():
    quick = "--quick" in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not args:
        k = 1 if quick else 6
        print("enumeration:", enumeration(60 * k), "models")
        print("EM optimality:", optimality(40 * k), "updates")
        print("variational optimality:", variational(10 * k), "fixed points")
    if quick:
        return 0
    props = args or [f"C{i:02d}" for i in range(1, 24) if i != 21]
    n = int(os.environ.get("SELFTEST_N", "160"))
    return 1 if determinism(props, n) else 0


if __name__ == "__main__":
    sys.exit(main())
