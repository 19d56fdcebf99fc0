"""
Reference model: hidden Markov models computed straight from their definition.

Shares no code with hmmlearn.  Everything is done in log space with per-frame
normalization.  A "params" dict holds the parameter arrays of a family:

  cat    start trans emis(K,S)
  mult   start trans emis(K,F)
  pois   start trans lam(K,F)
  gauss  start trans means(K,F) cov(K,F,F)        [cov always full matrices]
  gmm    start trans weights(K,M) means(K,M,F) cov(K,M,F,F)
"""
import math

import numpy as np
from scipy.special import digamma, gammaln, multigammaln, xlogy

NEG = -np.inf
LOG2PI = math.log(2 * math.pi)


def safe_log(a):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log(a)


def lse(a, axis):
    m = np.max(a, axis=axis, keepdims=True)
    m0 = np.where(np.isfinite(m), m, 0.)
    with np.errstate(all="ignore"):
        s = np.log(np.sum(np.exp(a - m0), axis=axis, keepdims=True)) + m0
    return np.squeeze(s, axis=axis)


# ---------------------------------------------------------------- emissions

def gauss_logpdf(X, mean, cov):
    """Density through an eigen-decomposition-free Cholesky solve."""
    d = X - mean
    f = len(mean)
    if np.count_nonzero(cov - np.diag(np.diagonal(cov))) == 0:
        v = np.diagonal(cov)
        return -.5 * (f * LOG2PI + np.log(v).sum() + (d * d / v).sum(axis=1))
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, d.T)
    return -.5 * (f * LOG2PI + 2 * np.log(np.diagonal(L)).sum()
                  + (z * z).sum(axis=0))


def emission_logprob(fam, P, X):
    """(T, K) log densities and a (T,) bound on their rounding error."""
    eps = np.finfo(float).eps
    if fam == "cat":
        lb = safe_log(P["emis"])[:, np.asarray(X)[:, 0]].T
        return lb, np.full(len(X), 1e-15)
    X = np.asarray(X)
    K = len(P["start"])
    lb = np.empty((len(X), K))
    if fam == "mult":
        Xf = X.astype(float)
        coef = gammaln(Xf.sum(axis=1) + 1) - gammaln(Xf + 1).sum(axis=1)
        for k in range(K):
            lb[:, k] = coef + xlogy(Xf, P["emis"][k]).sum(axis=1)
        mag = np.abs(coef) + gammaln(Xf.sum(axis=1) + 1)
        n = Xf.sum(axis=1)
        # scipy's multinomial recomputes the last probability as one minus
        # the others: an absolute error of a few eps.
        last = np.where(P["emis"][:, -1] > 0, P["emis"][:, -1], 1).min()
        err = 40 * eps * (mag + n * 50 + 10)
        return lb, err + Xf[:, -1] * 4 * eps * X.shape[1] / last
    if fam == "pois":
        Xf = X.astype(float)
        for k in range(K):
            lam = P["lam"][k]
            lb[:, k] = (xlogy(Xf, lam) - lam - gammaln(Xf + 1)).sum(axis=1)
        with np.errstate(all="ignore"):
            l = np.log(np.maximum(P["lam"], 1e-300))
        mag = (Xf * np.abs(l).max() + P["lam"].max()
               + gammaln(Xf + 1)).sum(axis=1)
        return lb, 40 * eps * (mag + 10)
    if fam == "gauss":
        err = np.zeros(len(X))
        for k in range(K):
            lb[:, k] = gauss_logpdf(X, P["means"][k], P["cov"][k])
            c = cond(P["cov"][k])
            err = np.maximum(err, eps * 30 * (c * (np.abs(lb[:, k]) + X.shape[1])))
        return lb, err
    if fam == "gmm":
        err = np.zeros(len(X))
        M = P["weights"].shape[1]
        for k in range(K):
            comp = gmm_component_logprob(P, X, k)
            lb[:, k] = lse(comp, 1)
            c = max(cond(P["cov"][k, m]) for m in range(M))
            err = np.maximum(err, eps * 30 * (c * (np.abs(lb[:, k]) + X.shape[1])))
        return lb, err
    raise KeyError(fam)


def cond(cov):
    off = cov - np.diag(np.diagonal(cov))
    if not off.any():
        return 1.
    w = np.linalg.eigvalsh(cov)
    return w[-1] / max(w[0], 1e-300)


def gmm_component_logprob(P, X, k):
    M = P["weights"].shape[1]
    lw = safe_log(P["weights"])
    return np.stack([lw[k, m] + gauss_logpdf(X, P["means"][k, m], P["cov"][k, m])
                     for m in range(M)], axis=1)


# ---------------------------------------------------------------- inference

class Inference:
    """Exact forward-backward quantities of one sequence."""

    def __init__(self, lstart, ltrans, lb, err=None, want_back=True):
        T, K = lb.shape
        self.lb, self.T, self.K = lb, T, K
        la = np.empty((T, K))
        c = np.empty(T)
        cur = lstart + lb[0]
        c[0] = lse(cur, 0)
        la[0] = cur - c[0] if np.isfinite(c[0]) else NEG
        for t in range(1, T):
            cur = lse(la[t - 1][:, None] + ltrans, 0) + lb[t]
            c[t] = lse(cur, 0)
            la[t] = cur - c[t] if np.isfinite(c[t]) else NEG
        self.la, self.c = la, c
        self.loglik = math.fsum(c) if np.isfinite(c).all() else NEG
        self.possible = np.isfinite(self.loglik)
        # magnitude that an unnormalized log-space recursion goes through
        fin = np.where(np.isfinite(lb), np.abs(lb), 0).max(axis=1)
        self.scale = float(np.abs(np.cumsum(np.where(np.isfinite(c), c, 0))).max()
                           + fin.max() + 1)
        self.err = float(err.sum()) if err is not None else 0.
        # random rounding grows like sqrt(T), that of equal frames like T
        n = 10 + max(math.sqrt(T), .1 * T)
        self.tol = 1e-9 + 2e-15 * self.scale * n + 4 * self.err
        self.rtol = 1e-12 + 2e-15 * self.scale * n + 4 * self.err
        if not (self.possible and want_back):
            return
        lbeta = np.empty((T, K))
        lbeta[T - 1] = 0
        for t in range(T - 2, -1, -1):
            lbeta[t] = lse(ltrans + (lb[t + 1] + lbeta[t + 1])[None, :], 1) - c[t + 1]
        self.lbeta = lbeta
        lg = la + lbeta
        lg -= lse(lg, 1)[:, None]
        self.lgamma = lg
        self.gamma = np.exp(lg)
        self.ltrans = ltrans

    def xi_sum(self):
        K, T = self.K, self.T
        out = np.zeros((K, K))
        step = max(1, 200000 // (K * K))
        for s in range(0, T - 1, step):
            e = min(T - 1, s + step)
            lx = (self.la[s:e, :, None] + self.ltrans[None]
                  + (self.lb[s + 1:e + 1] + self.lbeta[s + 1:e + 1])[:, None, :]
                  - self.c[s + 1:e + 1, None, None])
            with np.errstate(under="ignore"):
                out += np.exp(lx).sum(axis=0)
        return out

    def scaling_status(self):
        """'ok', 'underflow' (must raise) or 'grey' for the scaled recursion."""
        fin = lambda a: a[np.isfinite(a)]
        if not self.possible:
            return "grey"
        under = np.flatnonzero(self.c < -692)
        if len(under):
            t = under[0]
            before = np.concatenate([[0.], fin(self.la[:t]), fin(self.lb[:t])])
            return ("underflow" if before.min() > -500 and before.max() < 500
                    else "grey")
        low = min(fin(self.la).min(), fin(self.lbeta).min(), self.c.min(),
                  fin(self.lb).min())
        high = max(fin(self.lbeta).max(), fin(self.lb).max(), self.c.max(),
                   fin(self.lbeta - self.c[:, None]).max())
        # products on the way, before a division by the scale
        c = self.c[:, None]
        prod = min(fin(self.la + c).min(), fin(self.la + self.lbeta - c).min())
        return "ok" if low > -500 and high < 500 and prod > -690 else "grey"


def split(lengths):
    s = 0
    for n in lengths:
        yield slice(s, s + n)
        s += n


class Full:
    """Inference over a data set of several sequences."""

    def __init__(self, fam, P, X, lengths, lb=None, want_back=True,
                 lstart=None, ltrans=None):
        if lb is None:
            self.lb, self.err = emission_logprob(fam, P, X)
        else:
            self.lb, self.err = lb, np.zeros(len(lb))
        lstart = safe_log(P["start"]) if lstart is None else lstart
        ltrans = safe_log(P["trans"]) if ltrans is None else ltrans
        self.lstart, self.ltrans = lstart, ltrans
        self.lengths = list(lengths)
        self.seqs = [Inference(lstart, ltrans, self.lb[s], self.err[s], want_back)
                     for s in split(self.lengths)]
        self.loglik = (math.fsum(q.loglik for q in self.seqs)
                       if all(q.possible for q in self.seqs) else NEG)
        self.possible = np.isfinite(self.loglik)
        self.tol = sum(q.tol for q in self.seqs)
        self.gtol = 1e-8 + max(q.tol for q in self.seqs)
        self.rtol = max(q.rtol for q in self.seqs)
        self.scale = max(q.scale for q in self.seqs)

    @property
    def gamma(self):
        return np.concatenate([q.gamma for q in self.seqs])

    def start_counts(self):
        return sum(q.gamma[0] for q in self.seqs)

    def trans_counts(self):
        return sum(q.xi_sum() for q in self.seqs)

    def scaling_status(self):
        st = {q.scaling_status() for q in self.seqs}
        return ("underflow" if "underflow" in st
                else "grey" if "grey" in st else "ok")


def viterbi_value(lstart, ltrans, lb):
    v = lstart + lb[0]
    for t in range(1, len(lb)):
        v = (v[:, None] + ltrans).max(axis=0) + lb[t]
    return v.max()


def path_value(lstart, ltrans, lb, path):
    path = np.asarray(path)
    terms = [lstart[path[0]], *lb[np.arange(len(lb)), path],
             *ltrans[path[:-1], path[1:]]]
    if any(np.isneginf(t) for t in terms):
        return NEG
    return math.fsum(terms)


def brute_force(lstart, ltrans, lb):
    """Log-likelihood, posteriors and best path value by enumeration."""
    import itertools
    T, K = lb.shape
    paths = np.array(list(itertools.product(range(K), repeat=T)))
    v = lstart[paths[:, 0]] + lb[0, paths[:, 0]]
    for t in range(1, T):
        v = v + ltrans[paths[:, t - 1], paths[:, t]] + lb[t, paths[:, t]]
    ll = lse(v, 0)
    gamma = np.zeros((T, K))
    if np.isfinite(ll):
        w = np.exp(v - ll)
        for t in range(T):
            np.add.at(gamma[t], paths[:, t], w)
    return ll, gamma, v.max()


# ---------------------------------------------------------------- M-steps

def normalize_rows(a):
    s = a.sum(axis=-1, keepdims=True)
    return a / np.where(s == 0, 1, s)


def mstep_start_trans(P, full, sp=1., tp=1., which="st"):
    out = {}
    if "s" in which:
        a = np.maximum(np.asarray(sp) - 1 + full.start_counts(), 0)
        a = np.where(P["start"] == 0, 0, np.broadcast_to(a, P["start"].shape))
        out["start_raw"] = a
        out["start"] = a / a.sum() if a.sum() else a
    if "t" in which:
        a = np.maximum(np.asarray(tp) - 1 + full.trans_counts(), 0)
        a = np.where(P["trans"] == 0, 0, a)
        out["trans_raw"] = a
        out["trans"] = normalize_rows(a)
    return out


def symbol_counts(gamma, X, S):
    out = np.zeros((S, gamma.shape[1]))
    np.add.at(out, np.asarray(X)[:, 0], gamma)
    return out.T


def gauss_mstep(P, gamma, X, cvtype, params, mp=0., mw=0., cp=1e-2, cw=1.):
    """One documented M-step; returns means, cov (full matrices), counts."""
    K, F = P["means"].shape
    X = np.asarray(X, dtype=float)
    n = gamma.sum(axis=0)
    obs = gamma.T @ X
    mp = np.broadcast_to(np.asarray(mp, dtype=float), (K, F))
    means = P["means"]
    if "m" in params:
        means = (mw * mp + obs) / (mw + n[:, None])
    cov = P["cov"]
    if "c" in params:
        S = np.empty((K, F, F))
        for k in range(K):
            d = X - means[k]
            S[k] = (gamma[:, k, None] * d).T @ d
            dm = means[k] - mp[k]
            S[k] += mw * np.outer(dm, dm)
        if cvtype in ("diag", "spherical"):
            v = np.diagonal(S, axis1=1, axis2=2)
            cpb = np.broadcast_to(np.asarray(cp, dtype=float), (K, F))
            v = (cpb + v) / np.maximum(max(cw - 1, 0) + n[:, None], 1e-5)
            if cvtype == "spherical":
                v = np.repeat(v.mean(axis=1)[:, None], F, axis=1)
            cov = np.stack([np.diag(r) for r in v])
        elif cvtype == "full":
            cov = (cp + S) / (max(cw - F, 0) + n[:, None, None])
        else:
            c = (cp + S.sum(axis=0)) / (max(cw - F, 0) + n.sum())
            cov = np.broadcast_to(c, (K, F, F))
    return means, cov, n


def gmm_responsibilities(P, full, X):
    K, M = P["weights"].shape
    out = np.zeros((len(X), K, M))
    gamma = full.gamma
    for k in range(K):
        comp = gmm_component_logprob(P, X, k)
        if M == 1:
            r = np.ones_like(comp)
        else:
            with np.errstate(all="ignore"):
                r = np.exp(comp - lse(comp, 1)[:, None])
        out[:, k] = gamma[:, k, None] * r
    return out


# ---------------------------------------------------------------- priors

def dirichlet_term(alpha, theta):
    """log Dirichlet density up to the normalization, 0 log 0 = 0."""
    a = np.broadcast_to(np.asarray(alpha, dtype=float) - 1, np.shape(theta))
    return float(xlogy(a, theta).sum())


# ---------------------------------------------------------------- variational

def elog_dirichlet(a):
    a = np.asarray(a, dtype=float)
    return digamma(a) - digamma(a.sum(axis=-1, keepdims=True))


def kl_dirichlet(q, p):
    q = np.asarray(q, dtype=float)
    p = np.asarray(p, dtype=float)
    return float(gammaln(q.sum()) - gammaln(q).sum() - gammaln(p.sum())
                 + gammaln(p).sum() + ((q - p) * elog_dirichlet(q)).sum())


def wishart_elogdet(nu, S):
    """E log|Lambda| for Lambda ~ Wishart(nu, inv(S)) (S: inverse scale)."""
    F = len(S)
    return (digamma(.5 * (nu - np.arange(F))).sum() + F * math.log(2)
            - np.linalg.slogdet(S)[1])


def wishart_logB(nu, S):
    """log normalizer of Wishart(nu, inv(S))."""
    F = len(S)
    return (.5 * nu * np.linalg.slogdet(S)[1] - .5 * nu * F * math.log(2)
            - multigammaln(.5 * nu, F))


def kl_wishart(nq, Sq, npr, Sp):
    F = len(Sq)
    return (wishart_logB(nq, Sq) - wishart_logB(npr, Sp)
            + .5 * (nq - npr) * wishart_elogdet(nq, Sq)
            + .5 * nq * (np.trace(Sp @ np.linalg.inv(Sq)) - F))


def kl_mean_given_precision(mq, bq, mp, bp, nu, S):
    """E over Lambda of KL(N(mq, 1/(bq L)) || N(mp, 1/(bp L)))."""
    F = len(mq)
    d = mq - mp
    return .5 * (F * (bp / bq - 1 + math.log(bq / bp))
                 + bp * nu * d @ np.linalg.solve(S, d))


def vb_gauss_elog(X, m, beta, nu, S):
    """E log N(x | mu, Lambda) without the -F/2 log(2 pi) constant."""
    F = len(m)
    d = X - m
    q = np.einsum("ti,ti->t", d, np.linalg.solve(S, d.T).T)
    return .5 * wishart_elogdet(nu, S) - .5 * (F / beta + nu * q)
