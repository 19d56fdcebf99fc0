"""Models of different families that describe the same distribution."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import (Facet, Skip, attr, check_array, check_close, check_same,
                      fail, sut)

from .c03 import check_path

RULE = ("generated pairs of models of different families or covariance types "
        "with the same emission densities; scores, posteriors, decodings and one "
        "EM step are compared with each other; non-trivial: at least 2 states and "
        "2 frames, and the data are possible")

FLAT = {"means_prior": 0, "means_weight": 0, "covars_prior": 0., "covars_weight": 1}


def eye_cov(v, F):
    """(..., F) variances or (...) variances to full matrices."""
    return v[..., None] * np.eye(F)


# ------------------------------------------------------------ the pairs
# Each builder returns (A, B) with A = (spec, P, X, constructor args), and
# project(fitted B, mass) -> the parameters A has to have after the same step.

def one_trial(spec):
    P, X, lengths = gen.case(spec)
    F = spec["F"]
    B = dict(spec, fam="mult", n=1, vary=False, _ntrials=1)
    XB = np.eye(F, dtype=int)[X[:, 0]]
    return (spec, P, X, {}), (B, P, XB, {}), lengths, lambda g, mass: g, "ste"


def mixture(spec):
    """A Gaussian and a mixture that amounts to it."""
    P, X, lengths = gen.case(spec)
    rs = gen.rng(spec, 180)
    K, F, cv, M = spec["K"], spec["F"], spec["cv"], spec["mix"]
    kind = spec["kind"]
    if kind == "one":
        M = 1
    bcv = cv
    if cv in ("full", "tied") and kind != "one_weight":
        bcv = ["full", "tied"][spec["seed"] % 2]
    elif cv == "tied":
        bcv = "full"
    B = dict(spec, fam="gmm", cv=bcv, M=M)
    Q = {"start": P["start"], "trans": P["trans"],
         "means": np.repeat(P["means"][:, None], M, axis=1),
         "cov": np.repeat(P["cov"][:, None], M, axis=1)}
    main = rs.randint(M)
    if kind == "one_weight":
        Q["weights"] = np.zeros((K, M))
        Q["weights"][:, main] = 1
        other = np.arange(M) != main
        Q["means"] = Q["means"] + other[None, :, None] * rs.randn(K, M, F) * 3
        f = np.where(other, rs.uniform(.2, 4, size=M), 1)
        if bcv != "tied":
            Q["cov"] = Q["cov"] * f[None, :, None, None]
    else:
        Q["weights"] = gen.norm(rs.dirichlet(np.ones(M), size=K) + .02)
    full = Q["cov"]
    Q["native"] = {"full": full, "tied": full[:, 0],
                   "diag": np.diagonal(full, axis1=2, axis2=3),
                   "spherical": full[:, :, 0, 0]}[bcv].copy()

    def project(g, mass):
        out = {"start": g["start"], "trans": g["trans"],
               "means": g["means"][:, main], "cov": g["cov"][:, main]}
        if cv == "tied":
            out["cov"] = np.tile((mass[:, None, None] * out["cov"]).sum(axis=0)
                                 / mass.sum(), (K, 1, 1))
        return out
    params = "stc" if spec["seed"] % 3 == 0 else "stm"
    return ((spec, P, X, FLAT), (B, Q, X, {}), lengths, project, params)


ORDER = [("tied", "full"), ("diag", "full"), ("spherical", "diag"),
         ("spherical", "full"), ("spherical", "spherical2")]


def covariances(spec):
    """The same Gaussian with a structured and with a richer covariance type."""
    cv, rich = ORDER[spec["pair"] % len(ORDER)]
    spec = dict(spec, cv=cv)
    P, X, lengths = gen.case(spec)
    K, F = spec["K"], spec["F"]
    fam = spec["fam"]
    B = dict(spec, cv="spherical" if rich == "spherical2" else rich)
    Q = dict(P)
    dg = np.diagonal(P["cov"], axis1=-2, axis2=-1)
    if rich == "full":
        Q["native"] = P["cov"].copy()
    elif rich == "diag":
        Q["native"] = dg.copy()
    elif fam == "gauss":            # a variance per state, given per feature
        Q["native"] = dg.copy()
    params = {"gauss": "stmc", "gmm": "stwm"}[fam]

    def project(g, mass):
        out = dict(g)
        if fam == "gmm":
            out["cov"] = P["cov"]
            return out
        d = np.diagonal(g["cov"], axis1=-2, axis2=-1)
        if cv == "tied":
            out["cov"] = np.tile((mass[:, None, None] * g["cov"]).sum(axis=0)
                                 / mass.sum(), (K, 1, 1))
        elif cv == "diag":
            out["cov"] = eye_cov(d, F)
        elif rich != "spherical2":
            out["cov"] = eye_cov(np.repeat(d.mean(axis=-1, keepdims=True), F, -1), F)
        return out
    kw = FLAT if fam == "gauss" else {}
    return (spec, P, X, kw), (B, Q, X, kw), lengths, project, params


def one_feature(spec):
    """With one feature all covariance types are the same."""
    spec = dict(spec, F=1, cv="diag")
    P, X, lengths = gen.case(spec)
    K = spec["K"]
    v = P["cov"][:, 0, 0]
    cv = ["spherical", "full", "tied"][spec["pair"] % 3]
    if cv == "tied":
        v = np.full(K, v[0])
        P = dict(P, native=v[:, None].copy(), cov=v[:, None, None].copy())
    A = dict(spec, cv=cv)
    PA = dict(P, native={"spherical": v.copy(), "full": v[:, None, None].copy(),
                         "tied": v[:1, None].copy()}[cv])

    def project(g, mass):
        out = dict(g)
        if cv == "tied":
            out["cov"] = np.tile((mass[:, None, None] * g["cov"]).sum(axis=0)
                                 / mass.sum(), (K, 1, 1))
        return out
    return (A, PA, X, FLAT), (spec, P, X, FLAT), lengths, project, "stmc"


BUILD = {"one_trial": one_trial, "mixture": mixture, "covariances": covariances,
         "one_feature": one_feature}


# ------------------------------------------------------------ comparisons

def same_inference(a, b, XA, XB, lengths, fa, fb, full):
    """fa, fb: the models; full: reference of A, tol from both."""
    tol, gtol = full
    T = len(XA)
    sa, sb = sut("score", a.score, XA, lengths), sut("score", b.score, XB, lengths)
    check_close("score", sa, sb, atol=tol)
    (la, pa), (lb, pb) = (sut("score_samples", m.score_samples, X, lengths)
                          for m, X in ((a, XA), (b, XB)))
    check_close("score_samples()[0]", la, lb, atol=tol)
    check_close("posteriors", pa, check_array("posteriors", pb), atol=gtol)
    check_close("predict_proba", sut("predict_proba", a.predict_proba, XA, lengths),
                pa, atol=gtol)
    for alg in ("viterbi", "map"):
        va, qa = sut("decode", a.decode, XA, lengths, algorithm=alg)
        vb_, qb = sut("decode", b.decode, XB, lengths, algorithm=alg)
        check_close(f"{alg} log_prob", va, vb_, atol=2 * tol + T * gtol)
        qa, qb = check_path("path", qa, T, fa), check_path("path", qb, T, fa)
        if alg == "map":
            d = np.flatnonzero(qa != qb)
            if (np.abs(pa[d, qa[d]] - pa[d, qb[d]]) > 4 * gtol).any():
                fail(f"map states differ at frames {d[:5]}")
    return sa, pa


def check(spec, ctx):
    spec = dict(spec)
    A, B, lengths, project, params = BUILD[spec["what"]](spec)
    (sa, PA, XA, ka), (sb, PB, XB, kb) = A, B
    K = sa["K"]
    fa = O.Full(sa["fam"], PA, XA, lengths)
    fb = O.Full(sb["fam"], PB, XB, lengths)
    if not fa.possible or max(fa.gtol, fb.gtol) > 1e-5:
        raise Skip
    impls = {sa["impl"], spec["impl2"]}
    sb = dict(sb, impl=spec["impl2"])
    if "scaling" in impls and fa.scaling_status() != "ok":
        raise Skip
    ctx.label(spec["what"], f"{sa.get('cv', '')}/{sb.get('cv', '')}",
              spec.get("kind", ""), f"{sa['impl']}/{sb['impl']}")
    ctx.interesting(K > 1 and len(XA) > 1)
    a, b = gen.make_model(sa, PA), gen.make_model(sb, PB)
    tol = 2 * (fa.tol + fb.tol)
    same_inference(a, b, XA, XB, lengths, K, None, (tol, fa.gtol + fb.gtol))
    # a Viterbi path of one model is as good in the other
    for m, X, f in ((a, XA, fb), (b, XB, fa)):
        q = np.asarray(m.decode(X, lengths, algorithm="viterbi")[1])
        got = sum(O.path_value(f.lstart, f.ltrans, f.lb[s], q[s])
                  for s in O.split(lengths))
        best = sum(O.viterbi_value(f.lstart, f.ltrans, f.lb[s])
                   for s in O.split(lengths))
        check_close("log-probability of the other model's path", got, best, atol=tol)
    # one step of EM
    pri = {k: v for k, v in ka.items()}
    want, info = em.expected(sa, PA, XA, lengths, fa, pri, params)
    if "start_raw" in info and info["start_raw"].sum() < 1e-6:
        return
    fits = []
    for s, P, X, kw, p in ((sa, PA, XA, ka, params), (sb, PB, XB, kb, params)):
        m = gen.make_model(s, P, n_iter=1, tol=-np.inf, params=p, **kw)
        sut("fit", m.fit, X, lengths)
        fits.append(em.read(m, s))
        check_close("history[0]", list(m.monitor_.history)[0], fa.loglik, atol=tol)
    exp = dict(want)
    exp.update(project(fits[1], info["mass"]))
    if "c" in params and (info["mass"] < 1e-4).any():
        # GaussianHMM bounds the denominators of variances by 1e-5.
        params = params.replace("c", "")
    if spec.get("kind") == "one_weight" and "c" in params:
        params = params.replace("c", "")
    judged = em.compare_loosely(fits[0], exp, info, sa, XA,
                        fa if fa.rtol > fb.rtol else fb, params, params, loose=8.)
    if spec["what"] == "mixture" and spec["kind"] != "one_weight":
        got = fits[1]["means"]
        ok = info["mass"] > 1e-3
        check_close("means of equal components", got[ok],
                    np.repeat(got[ok][:, :1], got.shape[1], axis=1),
                    atol=1e-6 * (np.abs(XA).max() + 1))
    if judged:
        ctx.label("judged")


def strategy(what, fams, **kw):
    def make():
        return gen.mixed(fams, regimes=(65, 95), max_T=200, kmax=8,
                         extra=st.fixed_dictionaries({
                             "what": st.just(what),
                             "impl2": st.sampled_from(["log", "scaling"]),
                             "pair": st.integers(0, 14),
                             "mix": st.integers(1, 4),
                             "kind": st.sampled_from(["one", "same", "one_weight"])}),
                         **kw)
    return make


# ------------------------------------------------------------ variational

def check_vb(spec, ctx):
    """A fitted variational model is the plain model with its parameters."""
    from hmmlearn import hmm
    P, X, lengths = vb.case(spec)
    fam, K = spec["fam"], spec["K"]
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    m = vb.new_model(spec, kw, init_params="", n_iter=spec["iters"], tol=-np.inf)
    vb.assign(m, prior, vb.posterior(spec, X))
    try:
        m.fit(X, lengths)
    except ValueError:
        raise Skip
    args = dict(n_components=K, implementation=spec["impl2"], random_state=4)
    if fam == "vcat":
        p = hmm.CategoricalHMM(n_features=spec["F"], **args)
        p.emissionprob_ = np.array(attr(m, "emissionprob_"))
        Q = {"emis": p.emissionprob_}
    else:
        native = np.array(attr(m, "covars_"))
        p = hmm.GaussianHMM(covariance_type="full", **args)
        p.means_ = np.array(attr(m, "means_"))
        p.covars_ = native
        Q = {"means": p.means_, "cov": native}
    p.startprob_ = np.array(attr(m, "startprob_"))
    p.transmat_ = np.array(attr(m, "transmat_"))
    Q.update(start=p.startprob_, trans=p.transmat_)
    if not all(np.isfinite(v).all() for v in Q.values()):
        raise Skip
    full = O.Full(vb.BASE[fam], Q, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    if ("scaling" in (spec["impl"], spec["impl2"])
            and full.scaling_status() != "ok"):
        raise Skip
    ctx.label(fam, spec.get("cv", ""), spec["impl"], spec["impl2"])
    ctx.interesting(K > 1 and len(X) > 1)
    check_close("score", sut("score", p.score, X, lengths), full.loglik,
                atol=full.tol)
    same_inference(m, p, X, X, lengths, K, None, (4 * full.tol, 4 * full.gtol))
    (xa, za), (xb, zb) = (sut("sample", o.sample, 9, random_state=5) for o in (m, p))
    check_same("sampled states", za, zb)
    check_close("samples", xa, xb, atol=1e-8 * (np.abs(np.asarray(xb, float)).max() + 1))


def vspecs():
    return vb.specs(extra={"iters": st.integers(1, 4),
                           "impl2": st.sampled_from(["log", "scaling"])})


DISC = dict(pmodes=gen.PMODES)
FACETS = [
    Facet("one-trial", strategy("one_trial", ["cat"]), check, 900),
    Facet("mixture", strategy("mixture", ["gauss"]), check, 1200),
    Facet("covariances", strategy("covariances", ["gauss", "gmm"]), check, 1400),
    Facet("one-feature", strategy("one_feature", ["gauss"]), check, 400),
    Facet("variational", vspecs, check_vb, 600),
]
