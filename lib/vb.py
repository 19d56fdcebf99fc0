"""Variational models: explicit posteriors, reference update and bound."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gen, oracle as O
from .core import attr, check_array, check_close

BASE = {"vcat": "cat", "vgauss": "gauss"}


def specs(fams=("vcat", "vgauss"), **kw):
    """Like gen.specs; the data come from the plain model of the same kind."""
    extra = {"prior": st.sampled_from(["default", "default", "scalar", "array", "array"]),
             "qscale": st.sampled_from([1., 1., .1, 30.])}
    extra.update(kw.pop("extra", {}))
    args = dict(pmodes=["dense", "sticky", "grid", "peaky", "zeros", "cyclic"],
                emodes=["dense", "peaky", "grid", "zeros"],
                xmodes=("model", "model", "uniform", "outlier"),
                regimes=(65, 93), max_T=150, kmax=8, min_T=3)
    args.update(kw)
    return gen.specs([BASE[f] for f in fams],
                     extra=st.fixed_dictionaries(extra), **args)


def case(spec):
    """spec (fam becomes variational), data, lengths, priors."""
    P, X, lengths = gen.case(spec)
    if spec["fam"] in ("cat", "gauss"):
        spec["fam"] = "v" + spec["fam"]
    return P, X, lengths


def spd(rs, F, scale=1.):
    a = rs.randn(F, F)
    return (a @ a.T + .5 * np.eye(F)) * scale


def priors(spec, X):
    """(constructor arguments, full prior arrays)."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    mode = spec["prior"]
    rs = gen.rng(spec, 70)
    kw, pr = {}, {}
    pr["start"] = np.full(K, 1. / K)
    pr["trans"] = np.full((K, K), 1. / K)
    if mode == "scalar":
        kw["startprob_prior"] = float(rs.choice([.3, 1, 2.5]))
        kw["transmat_prior"] = float(rs.choice([.3, 1, 2.5]))
        pr["start"] = np.full(K, kw["startprob_prior"])
        pr["trans"] = np.full((K, K), kw["transmat_prior"])
    elif mode == "array":
        pr["start"] = rs.uniform(.05, 3, size=K)
        pr["trans"] = rs.uniform(.05, 3, size=(K, K))
        kw["startprob_prior"], kw["transmat_prior"] = pr["start"], pr["trans"]
    if fam == "vcat":
        pr["emis"] = np.full((K, F), 1. / F)
        if mode == "scalar":
            kw["emissionprob_prior"] = float(rs.choice([.3, 1, 2.5]))
            pr["emis"] = np.full((K, F), kw["emissionprob_prior"])
        elif mode == "array":
            pr["emis"] = rs.uniform(.05, 3, size=(K, F))
            kw["emissionprob_prior"] = pr["emis"]
        return ({k: np.array(v) if isinstance(v, np.ndarray) else v
                 for k, v in kw.items()}, pr)
    cv = spec["cv"]
    n = () if cv == "tied" else (K,)
    pr["means"] = np.tile(np.asarray(X, float).mean(axis=0), (K, 1))
    pr["beta"] = np.ones(K)
    pr["dof"] = np.full(n, float(F))
    shape = {"full": (K, F, F), "tied": (F, F), "diag": (K, F), "spherical": (K,)}[cv]
    if cv == "full":
        pr["scale"] = np.tile(np.eye(F) * 1e-3, (K, 1, 1))
    elif cv == "tied":
        pr["scale"] = np.eye(F) * 1e-3
    else:
        pr["scale"] = np.full(shape, 1e-3)
    if mode != "default":
        pr["means"] = rs.randn(K, F) * 2 + spec["offset"]
        pr["beta"] = rs.uniform(.1, 4, size=K)
        pr["dof"] = F - 1 + rs.uniform(.2, 5, size=n)
        s = spec["cscale"]
        if cv in ("full", "tied"):
            pr["scale"] = np.stack([spd(rs, F, s) for _ in range(max(1, int(np.prod(n))))])
            pr["scale"] = pr["scale"].reshape(*n, F, F)
        else:
            pr["scale"] = rs.uniform(.1, 4, size=shape) * s
        kw.update(means_prior=pr["means"], beta_prior=pr["beta"],
                  dof_prior=float(pr["dof"]) if cv == "tied" else pr["dof"],
                  scale_prior=pr["scale"])
    return ({k: np.array(v) if isinstance(v, np.ndarray) else v
             for k, v in kw.items()}, pr)


def posterior(spec, X):
    """Random posterior parameters to start from."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    rs = gen.rng(spec, 71)
    q = spec["qscale"]
    Q = {"start": rs.uniform(.1, 4, size=K) * q,
         "trans": rs.uniform(.1, 4, size=(K, K)) * q}
    if fam == "vcat":
        Q["emis"] = rs.uniform(.1, 4, size=(K, F)) * q
        return Q
    cv = spec["cv"]
    Xf = np.asarray(X, float)
    n = () if cv == "tied" else (K,)
    Q["means"] = Xf[rs.randint(len(Xf), size=K)] + rs.randn(K, F)
    Q["beta"] = rs.uniform(.3, 9, size=K)
    Q["dof"] = F - 1 + rs.uniform(.3, 9, size=n)
    s = spec["cscale"]
    if cv in ("full", "tied"):
        m = np.stack([spd(rs, F, s) for _ in range(max(1, int(np.prod(n))))])
        Q["scale"] = m.reshape(*n, F, F) * q
    else:
        Q["scale"] = rs.uniform(.2, 5, size=(K, F) if cv == "diag" else (K,)) * s * q
    return Q


ATTR = {"start": "startprob", "trans": "transmat", "emis": "emissionprob",
        "means": "means", "beta": "beta", "dof": "dof", "scale": "scale"}


def assign(model, prior, Q, inplace=False):
    if inplace:
        for k, v in Q.items():
            a = getattr(model, ATTR[k] + "_posterior_")
            if (isinstance(a, np.ndarray) and a.shape == np.shape(v)
                    and a.dtype == float and k not in ("scale", "dof")):
                a[...] = v
            else:
                inplace = False
    for k, v in prior.items():
        setattr(model, ATTR[k] + "_prior_",
                np.array(v, copy=True) if np.ndim(v) else float(v))
    for k, v in Q.items():
        if inplace and k not in ("scale", "dof"):
            continue
        setattr(model, ATTR[k] + "_posterior_",
                np.array(v, copy=True) if np.ndim(v) else float(v))
    if "scale" in Q:
        dof = np.asarray(Q["dof"], float)
        s = np.asarray(Q["scale"], float)
        model.covars_ = s / dof.reshape(dof.shape + (1,) * (s.ndim - dof.ndim if dof.ndim else 0))
    return model


def read(model, prior, what="posterior"):
    return {k: np.array(check_array(f"{ATTR[k]}_{what}_",
                                    attr(model, f"{ATTR[k]}_{what}_"), np.shape(v)))
            for k, v in prior.items()}


def full_scale(spec, Q):
    """(K,) dof and (K, F, F) inverse Wishart scales."""
    K, F, cv = spec["K"], spec["F"], spec["cv"]
    dof = np.broadcast_to(np.asarray(Q["dof"], float), (K,))
    s = np.asarray(Q["scale"], float)
    if cv == "full":
        return dof, s
    if cv == "tied":
        return dof, np.broadcast_to(s, (K, F, F))
    if cv == "diag":
        return dof, s[:, :, None] * np.eye(F)
    return dof, s[:, None, None] * np.eye(F)


def estep(spec, Q, X, lengths):
    K = spec["K"]
    ls, lt = O.elog_dirichlet(Q["start"]), O.elog_dirichlet(Q["trans"])
    if spec["fam"] == "vcat":
        lb = O.elog_dirichlet(Q["emis"])[:, np.asarray(X)[:, 0]].T
    else:
        dof, S = full_scale(spec, Q)
        lb = np.stack([O.vb_gauss_elog(np.asarray(X, float), Q["means"][k],
                                       Q["beta"][k], dof[k], S[k])
                       for k in range(K)], axis=1)
    return O.Full(None, None, X, lengths, lb=lb, lstart=ls, ltrans=lt)


def mstep(spec, prior, Q, full, X, params):
    K, F = spec["K"], spec["F"]
    out = dict(Q)
    gamma = full.gamma
    n = gamma.sum(axis=0)
    if "s" in params:
        out["start"] = prior["start"] + full.start_counts()
    if "t" in params:
        out["trans"] = prior["trans"] + full.trans_counts()
    if spec["fam"] == "vcat":
        if "e" in params:
            out["emis"] = prior["emis"] + O.symbol_counts(gamma, X, F)
        return out, n
    X = np.asarray(X, float)
    if "m" in params:
        out["beta"] = prior["beta"] + n
        out["means"] = ((prior["beta"][:, None] * prior["means"] + gamma.T @ X)
                        / out["beta"][:, None])
    if "c" in params:
        # scatter in the numerically benign form around the posterior mean
        S = np.empty((K, F, F))
        for k in range(K):
            d = X - out["means"][k]
            dm = out["means"][k] - prior["means"][k]
            S[k] = ((gamma[:, k, None] * d).T @ d
                    + prior["beta"][k] * np.outer(dm, dm))
        cv = spec["cv"]
        if cv == "tied":
            out["dof"] = prior["dof"] + n.sum()
            out["scale"] = prior["scale"] + S.sum(axis=0)
        else:
            out["dof"] = prior["dof"] + n
            if cv == "full":
                out["scale"] = prior["scale"] + S
            elif cv == "diag":
                out["scale"] = prior["scale"] + np.diagonal(S, axis1=1, axis2=2)
            else:
                out["scale"] = (prior["scale"]
                                + np.diagonal(S, axis1=1, axis2=2).mean(axis=1))
    return out, n


def bound(spec, prior, Q, full):
    """Evidence lower bound without the -T F/2 log(2 pi) constant."""
    v = full.loglik - O.kl_dirichlet(Q["start"], prior["start"])
    for k in range(spec["K"]):
        v -= O.kl_dirichlet(Q["trans"][k], prior["trans"][k])
        if spec["fam"] == "vcat":
            v -= O.kl_dirichlet(Q["emis"][k], prior["emis"][k])
    if spec["fam"] == "vgauss":
        dq, Sq = full_scale(spec, Q)
        dp, Sp = full_scale(spec, prior)
        for k in range(spec["K"]):
            v -= O.kl_mean_given_precision(
                Q["means"][k], Q["beta"][k], prior["means"][k],
                prior["beta"][k], dq[k], Sq[k])
            if spec["cv"] != "tied" or k == 0:
                v -= O.kl_wishart(dq[k], Sq[k], dp[k], Sp[k])
    return v


def conditioning(spec, Q):
    """Largest condition number of the scale matrices."""
    if spec["fam"] == "vcat":
        return 1.
    _, S = full_scale(spec, Q)
    w = np.linalg.eigvalsh(S)
    if (w[:, 0] <= 0).any():
        return np.inf
    return float((w[:, -1] / w[:, 0]).max())


def new_model(spec, kw, **more):
    args = dict(kw)
    args.update(more)
    return gen.new_model(spec, **args)


def normalized(spec, Q):
    """startprob_, transmat_ and emission parameters implied by a posterior."""
    P = {"start": Q["start"] / Q["start"].sum(),
         "trans": Q["trans"] / Q["trans"].sum(axis=1, keepdims=True)}
    if spec["fam"] == "vcat":
        P["emis"] = Q["emis"] / Q["emis"].sum(axis=1, keepdims=True)
    else:
        dof, S = full_scale(spec, Q)
        P["means"] = Q["means"]
        P["cov"] = S / dof[:, None, None]
    return P


def distinct_enough(spec, X):
    """Whether clustering (which fit always performs) can find K clusters."""
    if spec["fam"] == "vcat":
        return True
    return len(np.unique(np.round(np.asarray(X, float), 12), axis=0)) >= spec["K"]
