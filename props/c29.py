"""Symmetries: relabelled states, symbols and features; affine changes of units."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import (Facet, Skip, attr, check_array, check_close, check_same,
                      fail, sut)

from .c03 import check_path

RULE = ("generated model and data, transformed by a generated relabelling of "
        "states, mixture components, symbols, features or sequences, by splitting "
        "a state in two, or by an affine map of the data; inference and one "
        "training step of both are compared; non-trivial: the transformation is "
        "not the identity, and there are at least 2 frames")

FLAT = {"gauss": {"means_prior": 0, "means_weight": 0, "covars_prior": 0.,
                  "covars_weight": 1}}
STATE_PRIORS = {"startprob_prior": 1, "transmat_prior": 2}


# ------------------------------------------------------------ transformations

def permute_states(P, p):
    Q = {k: np.array(v)[p] for k, v in P.items() if k not in ("trans", "native")}
    Q["trans"] = P["trans"][np.ix_(p, p)]
    return Q


def native(fam, cv, cov):
    """Documented storage of full matrices (K[, M], F, F)."""
    if fam == "gmm" and cv == "tied":
        return cov[:, 0].copy()
    if fam == "gauss" and cv == "tied":
        return cov[0].copy()
    if cv == "full":
        return cov.copy()
    d = np.diagonal(cov, axis1=-2, axis2=-1)
    return (d if cv == "diag" else d[..., 0]).copy()


def permute_priors(spec, pri, p, how):
    """Constructor arguments of the relabelled model."""
    K, F = spec["K"], spec["F"]
    out = dict(pri)
    for k, v in pri.items():
        if np.ndim(v) == 0:
            continue
        v = np.array(v)
        if how == "states":
            if k == "startprob_prior":
                v = v[p]
            elif k == "transmat_prior":
                v = v[np.ix_(p, p)] if v.ndim == 2 else v[p]
            elif k == "covars_prior" and spec["cv"] == "tied" and spec["fam"] == "gauss":
                pass
            else:
                v = v[p]
        else:               # features or symbols, along the last axis / axes
            if k in ("startprob_prior", "transmat_prior", "weights_prior"):
                continue
            if spec["fam"] == "gmm" and k == "means_weight":
                continue
            if k == "covars_weight" and v.ndim < 3:
                continue
            if k == "covars_prior" and spec["cv"] in ("full", "tied"):
                v = v[..., p, :][..., p]
            elif spec["fam"] == "gmm" and k == "covars_prior" and spec["cv"] == "spherical":
                continue
            else:
                v = v[..., p]
        out[k] = v
    return out


def transform(spec, P, X, lengths, pri):
    """(P', X', lengths', pri', frames, states, back, jacobian)

    frames: index of the original frame of each new frame; states: original
    state of each new state; back: maps fitted parameters of the transformed
    problem to the original one; jacobian: added to the log-likelihood."""
    fam, K, F, T = spec["fam"], spec["K"], spec["F"], len(X)
    rs = gen.rng(spec, 190)
    how = spec["how"]
    X = np.asarray(X)
    frames, states = np.arange(T), np.arange(K)
    if how == "states":
        p = rs.permutation(K)
        inv = np.argsort(p)
        Q = permute_states(P, p)
        if "cov" in Q:
            Q["native"] = native(fam, spec["cv"], Q["cov"])
        return (Q, X, lengths,
                permute_priors(spec, pri, p, how), frames, p,
                lambda g: permute_states(g, inv), 0., not (p == states).all())
    if how == "sequences":
        o = rs.permutation(len(lengths))
        sl = list(O.split(lengths))
        frames = np.concatenate([np.arange(T)[sl[i]] for i in o])
        return (P, X[frames], [lengths[i] for i in o], pri, frames, states,
                lambda g: g, 0., not (o == np.arange(len(o))).all())
    if how == "mixture":            # components of each state
        M = spec["M"]
        p = rs.permutation(M)
        inv = np.argsort(p)

        def move(g, q):
            out = dict(g)
            for k in ("weights", "means", "cov"):
                out[k] = g[k][:, q]
            return out
        Q = move(P, p)
        Q["native"] = native(fam, spec["cv"], Q["cov"])
        pr = dict(pri)
        for k in ("weights_prior", "means_weight", "means_prior", "covars_prior",
                  "covars_weight"):
            v = pr.get(k)
            if v is None or np.ndim(v) == 0:
                continue
            if spec["cv"] == "tied" and k.startswith("covars"):
                continue
            pr[k] = v[p] if np.ndim(v) == 1 and k == "weights_prior" else v[:, p]
        return (Q, X, lengths, pr, frames, states, lambda g: move(g, inv), 0.,
                not (p == np.arange(M)).all())
    if how == "features":
        p = rs.permutation(F)
        inv = np.argsort(p)

        def move(g, q):
            out = dict(g)
            for k in ("emis", "lam", "means"):
                if k in g:
                    out[k] = g[k][..., q]
            if "cov" in g:
                out["cov"] = g["cov"][..., q, :][..., q]
            return out
        Q = move(P, p)
        if "cov" in Q:
            Q["native"] = native(fam, spec["cv"], Q["cov"])
        Y = inv[X] if fam == "cat" else X[:, p]
        return (Q, Y, lengths, permute_priors(spec, pri, p, how), frames, states,
                lambda g: move(g, inv), 0., not (p == np.arange(F)).all())
    # affine
    A, t = affine(spec, rs)
    Ai = np.linalg.inv(A)

    def move(g, A, t):
        out = dict(g)
        out["means"] = g["means"] @ A.T + t
        out["cov"] = A @ g["cov"] @ A.T
        return out
    Q = move(P, A, t)
    if spec["cv"] in ("diag", "spherical"):     # no rounding off the diagonal
        d = np.diagonal(Q["cov"], axis1=-2, axis2=-1)
        if spec["cv"] == "spherical":
            d = np.repeat(d.mean(axis=-1, keepdims=True), F, axis=-1)
        Q["cov"] = d[..., None] * np.eye(F)
    else:
        Q["cov"] = (Q["cov"] + np.swapaxes(Q["cov"], -1, -2)) / 2
    Q["native"] = native(fam, spec["cv"], Q["cov"])
    jac = -T * np.linalg.slogdet(A)[1]
    return (Q, X @ A.T + t, lengths, pri, frames, states,
            lambda g: move(g, Ai, -Ai @ t), jac, True)


def affine(spec, rs):
    """An affine map that keeps the covariance type."""
    F, cv = spec["F"], spec["cv"]
    kind = spec["map"]
    t = np.round(rs.randn(F) * [0, 1, 20][kind % 3], 2)
    span = [1.5, 1.5, 12, 60][kind // 3 % 4]
    s = 10. ** rs.uniform(-span, span)
    if cv == "diag":
        A = np.diag(10. ** rs.uniform(-span, span, size=F)
                    * rs.choice([-1, 1], size=F))
    else:
        q, _ = np.linalg.qr(rs.randn(F, F))
        A = q * s
        if cv in ("full", "tied") and kind % 2:
            A = A @ np.diag(10. ** rs.uniform(-.5, .5, size=F))
        elif kind % 5 == 0:
            A = np.eye(F) * s
    # (the shift relative to the new units)
    return A, t * np.linalg.norm(A, axis=1)


def rounding(P, X, full):
    """Effect on log-likelihoods of rounding the transformed data and means."""
    sd = np.sqrt(np.linalg.eigvalsh(P["cov"]).min())
    xs = np.abs(np.asarray(X, float)).max() + np.abs(P["means"]).max()
    lb = np.abs(full.lb[np.isfinite(full.lb)]).max()
    return len(X) * 2e-15 * xs / sd * np.sqrt(2 * lb + 10)


# ------------------------------------------------------------ EM families

def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam, K = spec["fam"], spec["K"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-6:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    affine_ = spec["how"] == "affine"
    pri = FLAT.get(fam, {}) if affine_ else em.priors(spec, spec["prior"])
    if fam == "mult":
        pri = {k: v for k, v in pri.items() if k in STATE_PRIORS}
    Q, Y, len2, pri2, frames, states, back, jac, real = transform(
        spec, P, X, lengths, pri)
    s2 = dict(spec)
    if fam == "mult" and spec.get("vary"):
        s2["_ntrials"] = np.asarray(Y).sum(axis=1)
    f2 = O.Full(fam, Q, Y, len2)
    if not f2.possible or f2.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling" and f2.scaling_status() != "ok":
        raise Skip
    ctx.label(spec["how"], fam, spec.get("cv", ""), spec["impl"])
    ctx.interesting(real and len(X) > 1)
    tol, gtol = 2 * (full.tol + f2.tol), full.gtol + f2.gtol
    if affine_:
        e = rounding(P, X, full) + rounding(Q, Y, f2)
        if e > 1e-6:
            raise Skip
        tol, gtol = 4 * tol + e, 4 * gtol + e
    a, b = gen.make_model(spec, P), gen.make_model(s2, Q)
    la, pa = sut("score_samples", a.score_samples, X, lengths)
    lb, pb = sut("score_samples", b.score_samples, Y, len2)
    pa = check_array("posteriors", pa, (len(X), K))
    check_close("score of the transformed problem", lb, la + jac, atol=tol)
    check_close("score()", sut("score", b.score, Y, len2), lb, atol=tol)
    check_close("posteriors of the transformed problem", pb,
                pa[frames][:, states], atol=gtol)
    for alg in ("viterbi", "map"):
        va, qa = sut("decode", a.decode, X, lengths, algorithm=alg)
        vb_, qb = sut("decode", b.decode, Y, len2, algorithm=alg)
        qa = check_path("path", qa, len(X), K)
        qb = states[check_path("path", qb, len(X), K)]      # in original labels
        if alg == "viterbi":
            check_close("viterbi log_prob", vb_, va + jac, atol=2 * tol)
            orig = np.empty(len(X), int)
            orig[frames] = qb
            got = sum(O.path_value(full.lstart, full.ltrans, full.lb[s], orig[s])
                      for s in O.split(lengths))
            check_close("log-probability of the relabelled path", got, va,
                        atol=2 * tol)
        else:
            check_close("map log_prob", vb_, va, atol=2 * len(X) * gtol)
            i = np.arange(len(X))
            gap = pa[frames][i, qa[frames]] - pa[frames][i, qb]
            if (np.abs(gap) > 4 * gtol).any():
                fail("map states of the transformed problem are less probable")
    # training
    params = gen.CODES[fam]
    want, info = em.expected(spec, P, X, lengths, full, pri, params)
    if "start_raw" in info and info["start_raw"].sum() < 1e-6:
        return
    fits, hist = [], []
    for s, R, Z, L, pr in ((spec, P, X, lengths, pri), (s2, Q, Y, len2, pri2)):
        m = gen.make_model(s, R, n_iter=1, tol=-np.inf, **pr)
        sut("fit", m.fit, Z, L)
        fits.append(em.read(m, s))
        hist.append(list(m.monitor_.history)[0])
    check_close("history of training", hist[1], hist[0] + jac, atol=tol)
    got = back(fits[1])
    exp = {**want, **fits[0]}
    which = params
    if affine_:
        A, t = affine(spec, gen.rng(spec, 190))
        ys = np.abs(np.asarray(Y, float)).max() + 1
        blow = ys * np.linalg.norm(np.linalg.inv(A), 2)
        xs = np.abs(np.asarray(X, float)).max() + 1
        loose = 50 * max(1., (blow / xs) ** 2)
    else:
        loose = 8.
    if affine_:
        judged = em.compare_loosely(got, exp, info, spec, X, full, params, which, loose)
    else:
        judged = em.compare(got, exp, info, spec, X, full, params, which, loose, pri)
    if judged:
        ctx.label("judged")


def strategy(how, fams, cvs=gen.CVS):
    return lambda: gen.mixed(
        fams, cvs=cvs, regimes=(65, 95), max_T=200, kmax=8,
        extra=st.fixed_dictionaries({
            "how": st.just(how), "map": st.integers(0, 30),
            "prior": st.sampled_from(["flat", "scalar", "array", "array"])}))


# ------------------------------------------------------------ splitting a state

def check_split(spec, ctx):
    """Two copies of one state share its probability in any proportion."""
    P, X, lengths = gen.case(spec)
    fam, K = spec["fam"], spec["K"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-6:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    rs = gen.rng(spec, 191)
    k = rs.randint(K)
    src = np.append(np.arange(K), k)
    Q = {n: np.array(v)[src] for n, v in P.items() if n not in ("trans", "native")}
    if "cov" in Q:
        Q["native"] = native(fam, spec["cv"], Q["cov"])
    share = rs.choice([0., 1., .5, rs.rand()], size=K + 1)
    share = np.append(share, rs.rand())
    A = P["trans"][np.ix_(src, src)].copy()
    for i in range(K + 1):
        v = P["trans"][src[i], k]
        A[i, k], A[i, K] = v * share[i], v * (1 - share[i])
    start = P["start"][src].copy()
    start[k], start[K] = P["start"][k] * share[-1], P["start"][k] * (1 - share[-1])
    Q["trans"], Q["start"] = A, start
    s2 = dict(spec, K=K + 1)
    f2 = O.Full(fam, Q, X, lengths)
    if f2.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling" and f2.scaling_status() != "ok":
        raise Skip
    tol, gtol = 2 * (full.tol + f2.tol), full.gtol + f2.gtol
    a, b = gen.make_model(spec, P), gen.make_model(s2, Q)
    la, pa = sut("score_samples", a.score_samples, X, lengths)
    lb, pb = sut("score_samples", b.score_samples, X, lengths)
    check_close("score with a state split in two", lb, la, atol=tol)
    pb = check_array("posteriors", pb, (len(X), K + 1))
    merged = pb[:, :K].copy()
    merged[:, k] += pb[:, K]
    check_close("posteriors with a state split in two", merged, pa, atol=gtol)
    ctx.label(fam, spec["impl"])
    ctx.interesting(len(X) > 1)


# ------------------------------------------------------------ variational

def check_vb(spec, ctx):
    P, X, lengths = vb.case(spec)
    fam, K, F, T = spec["fam"], spec["K"], spec["F"], len(X)
    if not vb.distinct_enough(spec, X):
        raise Skip
    X = np.asarray(X)
    kw, prior = vb.priors(dict(spec, prior="array"), X)
    Q = vb.posterior(spec, X)
    full = vb.estep(spec, Q, X, lengths)
    if (not full.possible or full.gtol > 1e-6 or vb.conditioning(spec, Q) > 1e5
            or spec["impl"] == "scaling" and full.scaling_status() != "ok"):
        raise Skip
    rs = gen.rng(spec, 192)
    how = spec["how"]
    jac, Y, A, t = 0., X, np.eye(F), np.zeros(F)
    p = rs.permutation(K if how == "states" else F)
    if how == "affine" and fam == "vcat":
        how = "features"
    if how == "states":
        def move(g, q):
            out = {}
            for k, v in g.items():
                v = np.asarray(v)
                if k == "trans":
                    out[k] = v[np.ix_(q, q)]
                elif k in ("dof", "scale") and spec["cv"] == "tied":
                    out[k] = v
                else:
                    out[k] = v[q]
            return out
        there, back = (lambda g: move(g, p)), (lambda g: move(g, np.argsort(p)))
    elif how == "features":
        def move(g, q):
            out = dict(g)
            for k in ("emis", "means"):
                if k in g:
                    out[k] = g[k][..., q]
            if "scale" in g and spec["cv"] != "spherical":
                s = np.asarray(g["scale"])
                out["scale"] = (s[..., q] if spec["cv"] == "diag"
                                else s[..., q, :][..., q])
            return out
        there, back = (lambda g: move(g, p)), (lambda g: move(g, np.argsort(p)))
        Y = np.argsort(p)[X] if fam == "vcat" else X[:, p]
    else:
        A, t = affine(spec, rs)
        Ai = np.linalg.inv(A)

        def shift(g, A, t):
            out = dict(g)
            out["means"] = g["means"] @ A.T + t
            s = np.asarray(g["scale"])
            if spec["cv"] in ("full", "tied"):
                s = A @ s @ A.T
                out["scale"] = (s + np.swapaxes(s, -1, -2)) / 2
            elif spec["cv"] == "diag":
                out["scale"] = s * np.diag(A) ** 2
            else:
                out["scale"] = s * np.exp(2 * np.linalg.slogdet(A)[1] / F)
            return out
        there = lambda g: shift(g, A, t)                      # noqa: E731
        back = lambda g: shift(g, Ai, -Ai @ t)                # noqa: E731
        Y = X @ A.T + t
        jac = -T * np.linalg.slogdet(A)[1]
    prior2, Q2 = there(prior), there(Q)
    kw2 = dict(kw)
    name = {"startprob_prior": "start", "transmat_prior": "trans",
            "emissionprob_prior": "emis", "means_prior": "means",
            "beta_prior": "beta", "dof_prior": "dof", "scale_prior": "scale"}
    for k in kw:
        v = prior2[name[k]]
        kw2[k] = float(v) if np.ndim(v) == 0 else np.array(v)
    full2 = vb.estep(spec, Q2, Y, lengths)
    if (full2.gtol > 1e-6 or vb.conditioning(spec, Q2) > 1e7
            or spec["impl"] == "scaling" and full2.scaling_status() != "ok"):
        raise Skip
    fits, bounds = [], []
    for k_, pr, q, Z in ((kw, prior, Q, X), (kw2, prior2, Q2, Y)):
        m = vb.new_model(spec, k_, init_params="", n_iter=1, tol=-np.inf)
        vb.assign(m, pr, q)
        sut("fit", m.fit, Z, lengths)
        fits.append(vb.read(m, prior))
        bounds.append(list(m.monitor_.history)[0])
    tol = 2 * (full.tol + full2.tol)
    mag = sum(abs(b) for b in bounds) + abs(jac)
    check_close("lower bound of the transformed problem", bounds[1],
                bounds[0] + jac, atol=20 * tol + 1e-9 * mag + 1e-7)
    got = back(fits[1])
    xs = (np.abs(np.asarray(X, float)).max() + 1
          + (np.abs(prior["means"]).max() if fam == "vgauss" else 0))
    blow = 1.
    if how == "affine":
        ys = np.abs(Y).max() + 1 + np.abs(prior2["means"]).max()
        blow = max(1., (ys * np.linalg.norm(np.linalg.inv(A), 2) / xs) ** 2)
    g = (1e-11 + 20 * (full.rtol + full2.rtol)) * T * blow
    for k in got:
        scale = {"means": xs * 10, "scale": xs ** 2 * 10}.get(k, 1.)
        check_close(f"posterior of {k} of the transformed problem", got[k],
                    fits[0][k], rtol=1e-8,
                    atol=1e-9 + g * scale + 1e-12 * scale * T * blow)
    ctx.label(how, fam, spec.get("cv", ""), spec["impl"])
    ctx.interesting(T > 1)


def vspecs():
    return vb.specs(kmax=6, max_T=80, extra={
        "how": st.sampled_from(["states", "features", "affine", "affine"]),
        "map": st.integers(0, 30)})


FACETS = [
    Facet("states", strategy("states", gen.EMF), check, 1000),
    Facet("symbols and features", strategy("features", gen.EMF), check, 900),
    Facet("sequences", strategy("sequences", gen.EMF), check, 400),
    Facet("mixture components", strategy("mixture", ["gmm"]), check, 250),
    Facet("affine", strategy("affine", ["gauss", "gmm"]), check, 900),
    Facet("split", lambda: gen.mixed(regimes=(65, 95), max_T=200, kmax=8),
          check_split, 500),
    Facet("variational", vspecs, check_vb, 500),
]
