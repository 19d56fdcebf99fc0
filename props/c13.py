"""params and init_params."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import (Facet, Skip, attr, check_array, check_close, check_distribution,
                      check_same, fail, sut)

from . import emcheck

RULE = ("generated model, data, split, subsets of params and init_params; "
        "untrained values, initial values and updates compared between runs "
        "that differ only in the subsets or in the old values; non-trivial: "
        "some parameter is not trained or not initialized, several states")

NAMES = {"s": ["start"], "t": ["trans"], "e": ["emis"], "l": ["lam"],
         "w": ["weights"], "m": ["means"], "c": ["cov"]}
VNAMES = {"s": ["start"], "t": ["trans"], "e": ["emis"], "m": ["means", "beta"],
          "c": ["dof", "scale"]}
ATTRS = {"s": ["startprob_"], "t": ["transmat_"], "e": ["emissionprob_"],
         "l": ["lambdas_"], "w": ["weights_"], "m": ["means_"], "c": ["covars_"]}


def sub(spec, bits, codes):
    keep = [c for i, c in enumerate(codes) if bits >> i & 1]
    gen.rng(spec, 90 + bits).shuffle(keep)
    return "".join(keep)


def can_init(spec, X, init):
    """Whether the data can support the data-driven initializations."""
    fam, K = spec["fam"], spec["K"]
    X = np.asarray(X, float)
    if fam in ("gauss", "gmm"):
        if "m" in init and len(np.unique(X, axis=0)) < K * spec.get("M", 1):
            return False
        if "c" in init and len(X) < 2:
            return False
    if fam == "pois" and "l" in init and (X.mean() == 0 or X.var() == 0):
        return False
    return True


def fit_model(spec, P, X, lengths, params, init, n_iter, old=None, seed=5, **pri):
    m = gen.make_model(spec, P, params=params, init_params=init, n_iter=n_iter,
                       tol=-np.inf, random_state=seed, **pri)
    for k, v in (old or {}).items():
        setattr(m, k, v)
    sut(f"fit(params={params!r}, init_params={init!r})", m.fit, X, lengths)
    return m


def old_values(spec, P, init, rs, wrong):
    """Other values, of wrong shapes too, for what will be initialized."""
    K, F = spec["K"], spec["F"]
    k2, f2 = (K + 1, F + 2) if wrong else (K, F)
    out = {}
    if "s" in init:
        out["startprob_"] = rs.dirichlet(np.ones(k2))
    if "t" in init:
        out["transmat_"] = rs.dirichlet(np.ones(k2), size=k2)
    if "e" in init:
        out["emissionprob_"] = rs.dirichlet(np.ones(f2), size=k2)
    if "l" in init:
        out["lambdas_"] = rs.rand(k2, f2) + 1
    if "w" in init:
        out["weights_"] = rs.dirichlet(np.ones(spec["M"]), size=k2)
    if "m" in init:
        out["means_"] = rs.randn(*((k2, f2) if spec["fam"] == "gauss"
                                   else (k2, spec["M"], f2)))
    if "c" in init and spec["fam"] == "gmm":
        out["covars_"] = rs.rand(*np.shape(P["native"])) * 9
    return out


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    if fam == "gmm":
        spec["n_iter"] = min(spec["n_iter"], 1)
    codes = gen.CODES[fam]
    init = sub(spec, spec["init"], codes)
    params = sub(spec, spec["train"], codes)
    if spec["impl"] == "scaling":      # data-driven values may underflow
        init = "".join(c for c in init if c not in "cml")
    if not can_init(spec, X, init):
        raise Skip
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling":
        if full.scaling_status() != "ok":
            raise Skip
    rs = gen.rng(spec, 91)
    # initial values: what a fit that trains nothing ends with
    base = fit_model(spec, P, X, lengths, "", init, spec["n_iter"])
    B = em.read(base, spec)
    if len(base.monitor_.history) != min(spec["n_iter"], 10 ** 9):
        fail("history does not have n_iter values")
    for c in codes:
        for n in NAMES[c]:
            if c not in init:
                check_same(f"{n} with params='' and without {c!r} in init_params",
                           B[n], P[n])
    judge_init(spec, B, X, init, P)
    # old values of initialized parameters do not matter
    old = old_values(spec, P, init, rs, spec["wrong"])
    other = fit_model(spec, P, X, lengths, "", init, spec["n_iter"], old)
    for n, v in em.read(other, spec).items():
        check_same(f"initial {n} with another old value", v, B[n])
    # untrained parameters keep their initial values
    got = None
    mass_ok = True
    f0 = O.Full(fam, B, X, lengths) if valid(B) else None
    if (f0 is not None and f0.possible and f0.gtol < 1e-5
            and (spec["impl"] == "log" or f0.scaling_status() == "ok")):
        mass_ok = (f0.gamma.sum(axis=0) > 1e-3).all()
        n_it = spec["n_iter"] if mass_ok else 1
        if fam in ("gauss", "gmm") and n_it > 1:
            n_it = 1
        model = fit_model(spec, P, X, lengths, params, init, n_it)
        got = em.read(model, spec)
        for c in codes:
            if c not in params:
                for n in NAMES[c]:
                    check_same(f"{n} with params={params!r}", got[n], B[n])
        # the same update whether or not the others are trained
        one = fit_model(spec, P, X, lengths, params, init, 1)
        allp = fit_model(spec, P, X, lengths, codes, init, 1)
        a, b = em.read(one, spec), em.read(allp, spec)
        g = 1e-9 + 4 * f0.rtol * len(X)
        n = f0.gamma.sum(axis=0)
        if fam == "gmm":
            n = O.gmm_responsibilities(B, f0, X).sum(axis=0)
        for c in params:
            if c == "c" and "m" not in params and fam == "gauss":
                continue
            for nm in NAMES[c]:
                if np.isfinite(b[nm]).all():
                    t = g / max(n.min(), 1e-9)
                    s = (np.abs(np.asarray(X, float)).max() + 1) ** 2
                    if t < 1e-4:
                        check_close(f"{nm} trained alone ({params!r}) and with all",
                                    a[nm], b[nm], atol=t * s, rtol=1e-9)
    ctx.label(fam, spec.get("cv", ""), spec["impl"], f"init={len(init)}",
              f"train={len(params)}", "trained" if got is not None else "init only")
    ctx.interesting(K > 1 and (set(params) != set(codes) or set(init) != set(codes)))


def valid(B):
    for k, v in B.items():
        if not np.isfinite(v).all():
            return False
    if "cov" in B:
        e = np.linalg.eigvalsh(B["cov"])
        return bool((e[..., 0] > 1e-9 * np.maximum(e[..., -1], 1)).all())
    return True


def judge_init(spec, B, X, init, P):
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    X = np.asarray(X, float)
    if "s" in init:
        check_distribution("initial startprob_", B["start"])
        if K > 1 and np.array_equal(B["start"], P["start"]):
            fail("startprob_ was not initialized although 's' is in init_params")
    if "t" in init:
        check_distribution("initial transmat_", B["trans"])
        if K > 1 and np.array_equal(B["trans"], P["trans"]):
            fail("transmat_ was not initialized although 't' is in init_params")
    if "e" in init:
        check_distribution("initial emissionprob_", B["emis"])
        if F > 1 and np.array_equal(B["emis"], P["emis"]):
            fail("emissionprob_ was not initialized although 'e' is in init_params")
    if "l" in init:
        if not (np.isfinite(B["lam"]).all() and (B["lam"] >= 0).all()):
            fail(f"initial lambdas_ {B['lam']}")
        if np.array_equal(B["lam"], P["lam"]):
            fail("lambdas_ were not initialized although 'l' is in init_params")
    if "w" in init:
        check_close("initial weights_", B["weights"],
                    np.full((K, spec["M"]), 1 / spec["M"]), rtol=1e-12)
    if "m" in init:
        if np.array_equal(B["means"], P["means"]):
            fail("means_ were not initialized although 'm' is in init_params")
        check_array("initial means_", B["means"], finite=True)
    if "c" in init:
        cv = np.atleast_2d(np.cov(X.T)) + 1e-3 * np.eye(F)
        want = {"full": cv, "tied": cv, "diag": np.diag(np.diag(cv)),
                "spherical": cv.mean() * np.eye(F)}[spec["cv"]]
        check_close("initial covars_", B["cov"],
                    np.broadcast_to(want, B["cov"].shape), rtol=1e-8,
                    atol=1e-9 * np.abs(cv).max())


# ------------------------------------------------------------ variational

def fit_vb(spec, kw, prior, Q, X, lengths, params, init, n_iter, wrong=None):
    m = vb.new_model(spec, kw, params=params, init_params=init, n_iter=n_iter,
                     tol=-np.inf, random_state=5)
    vb.assign(m, prior, Q)
    for k, v in (wrong or {}).items():
        setattr(m, k, v)
    sut(f"fit(params={params!r}, init_params={init!r})", m.fit, X, lengths)
    return m


def check_vb(spec, ctx):
    _, X, lengths = vb.case(spec)
    fam, K = spec["fam"], spec["K"]
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    codes = gen.CODES[fam]
    init = sub(spec, spec["init"], codes)
    params = sub(spec, spec["train"], codes)
    if spec["impl"] == "scaling":
        init = ""
    if "c" in params and "m" not in params:
        params = params.replace("c", "")
    full = vb.estep(spec, Q, X, lengths)
    if full.gtol > 1e-6 or vb.conditioning(spec, Q) > 1e6:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    if fam == "vgauss" and init:
        # degrees of freedom start from cluster sizes
        if len(X) < 2:
            raise Skip
    try:
        base = fit_vb(spec, kw, prior, Q, X, lengths, "", init, spec["n_iter"])
    except Exception:
        if "c" in init:       # a cluster with too few samples
            raise Skip
        raise
    B = vb.read(base, prior)
    if not all(np.isfinite(v).all() for v in B.values()):
        raise Skip
    for c in codes:
        for n in VNAMES[c]:
            if c not in init:
                check_same(f"{n} posterior with params='' and {c!r} not in "
                           "init_params", B[n], Q[n])
            elif K > 1 and c in "ste" and np.array_equal(B[n], Q[n]):
                if n != "emis" or spec["F"] > 1:
                    fail(f"{n} was not initialized although {c!r} is in init_params")
    wrong = {}
    rs = gen.rng(spec, 92)
    if spec["wrong"]:
        if "s" in init:
            wrong["startprob_posterior_"] = rs.rand(K + 1) + .1
        if "t" in init:
            wrong["transmat_posterior_"] = rs.rand(K, K + 1) + .1
        if "e" in init and fam == "vcat":
            wrong["emissionprob_posterior_"] = rs.rand(K + 1, spec["F"]) + .1
        if "m" in init and fam == "vgauss":
            wrong["means_posterior_"] = rs.rand(K, spec["F"] + 1)
        w = fit_vb(spec, kw, prior, Q, X, lengths, "", init, spec["n_iter"], wrong)
        for n, v in vb.read(w, prior).items():
            check_same(f"initial {n} posterior with another old value", v, B[n])
    model = fit_vb(spec, kw, prior, Q, X, lengths, params, init, 1)
    got = vb.read(model, prior)
    allp = vb.read(fit_vb(spec, kw, prior, Q, X, lengths, codes, init, 1), prior)
    g = 1e-9 + 4 * full.rtol * len(X)
    s = (np.abs(np.asarray(X, float)).max() + 1) ** 2
    for c in codes:
        for n in VNAMES[c]:
            if c not in params:
                check_same(f"{n} posterior with params={params!r}", got[n], B[n])
            elif not init:
                check_close(f"{n} posterior trained alone ({params!r}) and with "
                            "all", got[n], allp[n], atol=g * s * 10, rtol=1e-9)
    ctx.label(fam, spec.get("cv", ""), spec["impl"], f"init={len(init)}",
              f"train={len(params)}")
    ctx.interesting(K > 1 and (set(params) != set(codes) or set(init) != set(codes)))


# ------------------------------------------------------------ missing values

def check_missing(spec, ctx):
    """Values that are missing are initialized although not in init_params."""
    P, X, lengths = gen.case(spec)
    fam = spec["fam"]
    codes = gen.CODES[fam]
    gone = sub(spec, spec["init"], codes)
    spec["impl"] = "log"
    gone = gone or codes[spec["train"] % len(codes)]
    if not can_init(spec, X, gone):
        raise Skip
    if fam == "gauss" and "c" in gone and "m" not in gone:
        gone += "m"
        if not can_init(spec, X, gone):
            raise Skip
    m = gen.make_model(spec, P, params="", init_params="", n_iter=1, random_state=5)
    for c in gone:
        for a in ATTRS[c]:
            delattr(m, "_covars_" if (a, fam) == ("covars_", "gauss") else a)
    if fam in ("gauss",) and hasattr(m, "n_features"):
        del m.n_features
    sut(f"fit with {gone!r} missing", m.fit, X, lengths)
    got = em.read(m, spec)
    for c in codes:
        for n in NAMES[c]:
            if c not in gone:
                check_same(f"{n} with {gone!r} missing", got[n], P[n])
    ref = gen.make_model(spec, P, params="", init_params=gone, n_iter=1,
                         random_state=5)
    sut(f"fit with init_params={gone!r}", ref.fit, X, lengths)
    for n, v in em.read(ref, spec).items():
        check_same(f"initialization of missing {n}", got[n], v)
    ctx.label(fam, f"missing={len(gone)}")
    ctx.interesting(spec["K"] > 1)


def check_missing_vb(spec, ctx):
    """One missing value of a variational model is initialized."""
    _, X, lengths = vb.case(spec)
    fam, K = spec["fam"], spec["K"]
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    if vb.conditioning(spec, Q) > 1e6:
        raise Skip
    codes = gen.CODES[fam]
    gone = sub(spec, spec["init"], codes) or codes[spec["train"] % len(codes)]
    spec["impl"] = "log"
    rs = gen.rng(spec, 93)
    try:
        ref = fit_vb(spec, kw, prior, Q, X, lengths, "", gone, 1)
    except Exception:
        if "c" in gone:       # a cluster with too few samples
            raise Skip
        raise
    m = vb.new_model(spec, kw, params="", init_params="", n_iter=1, tol=-np.inf,
                     random_state=5)
    vb.assign(m, prior, Q)
    names = []
    for c in gone:
        opts = [f"{vb.ATTR[n]}_{w}_" for n in VNAMES[c] for w in ("prior", "posterior")]
        if c == "e":          # nothing tells that a lone posterior is welcome
            opts = opts[1:]
        some = [a for a in opts if rs.rand() < .3] or [opts[rs.randint(len(opts))]]
        for a in some:
            delattr(m, a)
            names.append(a)
    sut(f"fit without {names}", m.fit, X, lengths)
    for a in names:
        check_same(f"{a}, which was missing,", np.asarray(attr(m, a), float),
                   np.asarray(attr(ref, a), float))
    got = vb.read(m, prior)
    for c in codes:
        for n in VNAMES[c]:
            if c not in gone:
                check_same(f"{n} posterior with {names} missing", got[n], Q[n])
    ctx.label(fam, spec.get("cv", ""), f"missing={len(names)}")
    ctx.interesting(K > 1)


EX = {"init": st.integers(0, 31), "train": st.integers(0, 31),
      "n_iter": st.sampled_from([1, 1, 2, 3]), "wrong": st.booleans()}
KW = dict(regimes=(80, 98), max_T=100, kmax=6, min_T=3)
FACETS = [
    Facet("em", lambda: gen.mixed(extra=st.fixed_dictionaries(EX), **KW), check, 4000),
    Facet("vb", lambda: vb.specs(extra=EX, **dict(KW, max_T=60)), check_vb, 2400),
    Facet("missing", lambda: gen.mixed(extra=st.fixed_dictionaries(EX), **KW),
          check_missing, 1600),
    Facet("missing vb", lambda: vb.specs(extra=EX, **dict(KW, max_T=60)),
          check_missing_vb, 700),
]
