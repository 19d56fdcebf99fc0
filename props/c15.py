"""Training ends in a valid, usable model."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import (Facet, Skip, Violation, check_array, check_close, check_distribution,
                      fail, sut)

RULE = ("generated data, options and priors; training from the model's own "
        "initialization or from given parameters, one iteration at a time while "
        "the reference says that every state has the mass to determine its "
        "parameters, then in one go; after each, validity of all parameters and "
        "use of the model; non-trivial: several states and two judged fits")


def validate(model, spec, X, lengths, what, sample=True):
    """Every parameter is valid, and the model can be used."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    got = em.read(model, spec)
    for n, v in got.items():
        if not np.isfinite(v).all():
            fail(f"{what}: {n} is not finite: {v.tolist()!r:.300}")
    for n in ("start", "trans", "emis", "weights"):
        if n in got:
            check_distribution(f"{what}: {n}", got[n], atol=1e-8)
    if "lam" in got and (got["lam"] < 0).any():
        fail(f"{what}: negative rates {got['lam']}")
    if "cov" in got:
        c = got["cov"]
        d = np.abs(c - np.swapaxes(c, -1, -2)).max()
        xs = np.abs(np.asarray(X, float)).max()
        if d > 1e-9 * np.abs(c).max() + 1e-14 * xs ** 2:
            fail(f"{what}: covariance is not symmetric (difference {d:.3g})")
        e = np.linalg.eigvalsh(c)
        if not (e[..., 0] > 0).all():
            fail(f"{what}: covariance is not positive definite: {e[..., 0]}")
        if spec["cv"] == "tied" and fam == "gauss" and not (c == c[0]).all():
            fail(f"{what}: tied covariances differ")
        if spec["cv"] in ("diag", "spherical"):
            off = c - np.diagonal(c, axis1=-2, axis2=-1)[..., None] * np.eye(F)
            if off.any():
                fail(f"{what}: {spec['cv']} covariance has off-diagonal entries")
        if spec["cv"] == "spherical":
            dg = np.diagonal(c, axis1=-2, axis2=-1)
            if (np.abs(dg - dg[..., :1]) > 1e-12 * dg).any():
                fail(f"{what}: spherical covariance has unequal variances")
    ll = sut(f"{what}: score", model.score, X, lengths)
    if not np.isfinite(ll):
        fail(f"{what}: score of the training data is {ll!r}")
    post = check_array("posteriors", sut(f"{what}: predict_proba",
                                         model.predict_proba, X, lengths),
                       (len(X), K))
    check_distribution(f"{what}: posteriors", post, atol=1e-6)
    dl, states = sut(f"{what}: decode", model.decode, X, lengths)
    if not np.isfinite(dl):
        fail(f"{what}: decode log probability is {dl!r}")
    states = np.asarray(states)
    if states.shape != (len(X),) or states.min() < 0 or states.max() >= K:
        fail(f"{what}: decoded states {states}")
    if not sample:
        return got
    if fam == "mult":
        sut("set_params", model.set_params, n_trials=int(X.sum(axis=1)[0]))
    Xs, Z = sut(f"{what}: sample", model.sample, 4, random_state=spec["seed"] % 997)
    cols = 1 if fam in ("cat", "vcat") else F
    check_array(f"{what}: sample", Xs, (4, cols), finite=True)
    if np.shape(Z) != (4,):
        fail(f"{what}: sampled states have shape {np.shape(Z)}")
    if fam == "mult":
        sut("set_params", model.set_params, n_trials=spec["_ntrials"])
    return got


def enough(spec, P, X, full):
    F = spec["F"]
    n = full.gamma.sum(axis=0)
    if spec["fam"] in ("gauss", "gmm", "vgauss"):
        if spec["fam"] == "gmm":
            n = O.gmm_responsibilities(P, full, X).sum(axis=0)
        return bool((n > F + 2).all())
    return bool((n > .05).all())


def usable(spec, want, X):
    if not all(np.isfinite(v).all() for k, v in want.items() if k != "native"):
        return False
    for n in ("start", "trans", "emis", "weights"):
        if n in want and (np.abs(want[n].sum(axis=-1) - 1) > 1e-6).any():
            return False
    if "cov" in want:
        e = np.linalg.eigvalsh(want["cov"])
        xs = max(np.abs(X).max(), np.abs(want["means"]).max()) + 1
        if (e[..., 0] < 1e-6 * np.maximum(e[..., -1], xs ** 2)).any():
            return False
    return True


def initial(spec, X, lengths, kw):
    """Initial values of a fit with these options."""
    m = gen.new_model(spec, params="", n_iter=1, tol=-np.inf, **kw)
    sut("fit(params='')", m.fit, X, lengths)
    return em.read(m, spec)


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    Xf = np.asarray(X, float)
    if fam in ("gauss", "gmm") and (
            len(np.unique(Xf, axis=0)) < 2 * K * spec.get("M", 1)):
        raise Skip
    if fam == "pois" and (Xf.mean() == 0 or Xf.var() == 0):
        raise Skip
    pri = em.priors(spec, spec["prior"])
    for k in ("startprob_prior", "transmat_prior", "emissionprob_prior"):
        if k in pri:
            pri[k] = np.maximum(pri[k], 1.) if np.ndim(pri[k]) else max(pri[k], 1)
    kw = dict(pri, random_state=spec["seed"] % 1000)
    if fam == "cat" and spec["infer"]:
        kw["n_features"] = None
        spec["F"] = F = int(X.max()) + 1
        if np.ndim(pri.get("emissionprob_prior", 1.)):
            kw["emissionprob_prior"] = pri["emissionprob_prior"] = 1.5
    if fam == "mult" and spec["infer"]:
        kw["n_trials"] = None
    if spec["own"] or (fam == "cat" and spec["infer"]):
        impl, spec["impl"] = spec["impl"], "log"
        cur = initial(spec, X, lengths, kw)
        spec["impl"] = impl
        init = gen.CODES[fam]
    else:
        cur, init = dict(P), ""
        cur.pop("native", None)
    model = gen.new_model(spec, n_iter=1, tol=-np.inf, init_params=init, **kw)
    if not init:
        gen.set_params(model, fam, P)
    judged = 0
    start = cur
    for i in range(spec["iters"]):
        if "cov" in cur and (np.linalg.eigvalsh(cur["cov"])[..., 0]
                             <= 1e-9 * np.abs(cur["cov"]).max()).any():
            break
        full = O.Full(fam, cur, X, lengths)
        if not full.possible or full.gtol > 1e-6 or not enough(spec, cur, Xf, full):
            break
        if spec["impl"] == "scaling" and full.scaling_status() != "ok":
            break
        want, _ = em.expected(spec, cur, X, lengths, full, pri, gen.CODES[fam])
        if not usable(spec, want, Xf):
            break
        nf = O.Full(fam, want, X, lengths)
        if spec["impl"] == "scaling" and nf.scaling_status() != "ok":
            break
        sut("fit", model.fit, X, lengths)
        got = validate(model, spec, X, lengths, f"after iteration {i + 1}")
        judged += 1
        sut("set_params", model.set_params, init_params="")
        cur = got
    if judged > 1:
        one = gen.new_model(spec, n_iter=judged, tol=-np.inf, init_params=init, **kw)
        if not init:
            gen.set_params(one, fam, P)
        sut("fit", one.fit, X, lengths)
        validate(one, spec, X, lengths, f"after fit({judged} iterations)")
    ctx.label(fam, spec.get("cv", ""), spec["impl"], "prior=" + spec["prior"],
              "own init" if init else "given", f"judged={judged}")
    ctx.interesting(K > 1 and judged >= 2)


def check_vb(spec, ctx):
    _, X, lengths = vb.case(spec)
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    Xf = np.asarray(X, float)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    if fam == "vgauss" and len(np.unique(Xf, axis=0)) < 2 * K:
        raise Skip
    kw["random_state"] = spec["seed"] % 1000
    if fam == "vcat" and spec["infer"] and spec["prior"] != "array":
        kw["n_features"] = None
        spec["F"] = F = int(X.max()) + 1
        prior["emis"] = np.full((K, F), prior["emis"].flat[0]
                                if spec["prior"] == "scalar" else 1. / F)
    # initial posteriors
    spec["impl"], impl = "log", spec["impl"]
    m = vb.new_model(spec, kw, params="", n_iter=1, tol=-np.inf)
    try:
        m.fit(X, lengths)
    except Exception:
        raise Skip
    spec["impl"] = impl
    Q = vb.read(m, prior)
    model = vb.new_model(spec, kw, n_iter=1, tol=-np.inf)
    judged = 0
    for i in range(spec["iters"]):
        if not all(np.isfinite(v).all() for v in Q.values()):
            break
        if any((Q[k] < 1e-3).any() for k in ("start", "trans", "emis") if k in Q):
            break
        if "dof" in Q and (np.asarray(Q["dof"]) <= F - 1 + .05).any():
            break
        if vb.conditioning(spec, Q) > 1e6:
            break
        full = vb.estep(spec, Q, X, lengths)
        if not full.possible or full.gtol > 1e-6:
            break
        if spec["impl"] == "scaling" and full.scaling_status() != "ok":
            break
        Q, n = vb.mstep(spec, prior, Q, full, X, gen.CODES[fam])
        if fam == "vgauss":
            _, S = vb.full_scale(spec, Q)
            e = np.linalg.eigvalsh(S)
            xs = np.abs(Xf).max() + np.abs(Q["means"]).max() + 1
            if (e[:, 0] < 1e-6 * np.maximum(e[:, -1], xs ** 2)).any():
                break
        if any((Q[k].min(axis=-1) < 1e-6).any() for k in ("start", "trans", "emis")
               if k in Q):
            break
        nf = O.Full(vb.BASE[fam], vb.normalized(spec, Q), X, lengths)
        if not nf.possible or (spec["impl"] == "scaling"
                               and nf.scaling_status() != "ok"):
            break
        sut("fit", model.fit, X, lengths)
        validate(model, spec, X, lengths, f"after iteration {i + 1}")
        for k, v in vb.read(model, prior).items():
            if not np.isfinite(v).all() or (k != "means" and np.min(
                    v if k != "scale" else vb.full_scale(spec, {"dof": Q["dof"], "scale": v})[1]
                    .diagonal(axis1=1, axis2=2)) <= 0):
                fail(f"{k} posterior is not finite and positive: {v}")
        judged += 1
        sut("set_params", model.set_params, init_params="")
        Q = vb.read(model, prior)
    ctx.label(fam, spec.get("cv", ""), spec["impl"], "prior=" + spec["prior"],
              f"judged={judged}")
    ctx.interesting(K > 1 and judged >= 2)


FINDING = "gaussian-sums-of-squares"


def check_far(spec, ctx):
    """Clusters of unit spread, far from the origin (prices, time stamps)."""
    rs = gen.rng(spec, 96)
    K, F, fam, cv = spec["K"], spec["F"], spec["fam"], spec["cv"]
    n = 12 * (F + 3) * spec.get("M", 1)
    centres = rs.permutation(K)[:, None] * 12. + rs.uniform(-2, 2, size=(K, F))
    z = np.repeat(np.arange(K), n)
    X = centres[z] + rs.uniform(.5, 2, size=F) * rs.standard_normal((K * n, F))
    far = 10. ** spec["far"] * rs.choice([-1, 1], size=F)
    if spec["scale"]:
        X = X * 10. ** spec["scale"]
        far = far * 10. ** spec["scale"]
    X = X + far
    lengths = [len(X)] if spec["one"] else [n] * K
    kw = {} if fam == "gmm" else {"covars_prior": 0., "min_covar": 0.} \
        if fam == "gauss" else {"scale_prior": {
            "spherical": np.full(K, 1e-3), "diag": np.full((K, F), 1e-3),
            "full": np.tile(np.eye(F) * 1e-3, (K, 1, 1)),
            "tied": np.eye(F) * 1e-3}[cv] * 100. ** spec["scale"]}
    m = gen.new_model(spec, n_iter=spec["iters"], tol=-np.inf,
                      random_state=spec["seed"] % 1000, **kw)
    ctx.label(fam, cv, f"offset 1e{spec['far']}")
    try:
        sut("fit", m.fit, X, lengths)
        validate(m, dict(spec, impl="log"), X, lengths, "after fit()")
    except Violation as e:
        if fam == "gmm" or spec["far"] < 7 or spec["scale"]:
            raise
        ctx.finding(FINDING, str(e))
        ctx.label("finding")
    ctx.interesting(K > 1)


@st.composite
def fars(draw):
    fam = gen.pick(draw, ["gauss", "gmm", "vgauss", "gauss"])
    spec = {"fam": fam, "K": draw(st.integers(1, 3)), "F": draw(st.integers(1, 3)),
            "cv": gen.pick(draw, gen.CVS), "impl": gen.pick(draw, ["log", "scaling"]),
            "far": draw(st.integers(0, 9)), "scale": gen.pick(draw, [0, 0, -6, 6]),
            "one": draw(st.booleans()), "iters": draw(st.integers(1, 4)),
            "seed": draw(st.integers(0, 2**20))}
    if fam == "gmm":
        spec["M"] = draw(st.integers(1, 2))
    if spec["scale"] or spec["impl"] == "scaling":
        spec["far"] = min(spec["far"], 4)
    return spec


EX = {"prior": st.sampled_from(["flat", "int", "scalar", "array", "row"]),
      "own": st.booleans(), "iters": st.sampled_from([1, 2, 3, 6]),
      "infer": st.booleans()}
FACETS = [
    Facet("em", lambda: gen.mixed(
        pmodes=gen.POSITIVE_PMODES + ["zeros", "leftright"],
        emodes=gen.SAFE_EMODES, xmodes=("model", "model", "outlier", "uniform"),
        regimes=(45, 95), max_T=150, kmax=6, min_T=8,
        extra=st.fixed_dictionaries(EX)), check, 2400),
    Facet("vb", lambda: vb.specs(
        regimes=(60, 97), min_T=8, max_T=100, kmax=6, extra={
            "iters": EX["iters"], "infer": EX["infer"]}), check_vb, 1300),
    Facet("far", fars, check_far, 500),
]
