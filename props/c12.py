"""Monotonicity of EM and the recorded log-likelihoods."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O
from lib.core import Facet, Skip, check_close, fail, sut

from . import emcheck

RULE = ("generated model, data, split, priors with a proper mode and trained "
        "subset; up to 12 single-iteration fits, each judged by the reference "
        "log-likelihood plus log prior, then the same in one fit whose history "
        "is compared; non-trivial: at least three judged iterations of a "
        "several-state model in which the objective changed")


def cap(pri):
    """Priors whose penalized likelihood is bounded (Dirichlet >= 1)."""
    out = dict(pri)
    for k in ("startprob_prior", "transmat_prior", "emissionprob_prior"):
        if k in out:
            v = out[k]
            out[k] = np.maximum(v, 1.) if isinstance(v, np.ndarray) else max(v, 1)
    return out


def gauss_term(spec, P, pri, params):
    K, F, cv = spec["K"], spec["F"], spec["cv"]
    mp = np.broadcast_to(np.asarray(pri.get("means_prior", 0.), float), (K, F))
    mw = pri.get("means_weight", 0.)
    cp = pri.get("covars_prior", 1e-2)
    cw = pri.get("covars_weight", 1.)
    d = P["means"] - mp
    v = 0.
    if "m" in params or "c" in params:
        for k in range(K):
            v -= .5 * mw * d[k] @ np.linalg.solve(P["cov"][k], d[k])
    if "c" in params:
        if cv in ("diag", "spherical"):
            s2 = np.diagonal(P["cov"], axis1=1, axis2=2)
            cpb = np.broadcast_to(np.asarray(cp, float), (K, F))
            v -= .5 * max(cw - 1, 0) * np.log(s2).sum() + .5 * (cpb / s2).sum()
        else:
            w = max(cw - F, 0)
            cpb = np.broadcast_to(np.asarray(cp, float), (K, F, F))
            for k in range(K if cv == "full" else 1):
                v -= .5 * w * np.linalg.slogdet(P["cov"][k])[1]
                v -= .5 * np.trace(np.linalg.solve(P["cov"][k], cpb[k]))
    return v


def gmm_term(spec, P, pri, params):
    K, F, M, cv = spec["K"], spec["F"], spec["M"], spec["cv"]
    v = 0.
    if "w" in params:
        v += O.dirichlet_term(pri.get("weights_prior", 1.), P["weights"])
    lam = np.broadcast_to(np.asarray(pri.get("means_weight", 0.), float), (K, M))
    mu0 = np.broadcast_to(np.asarray(pri.get("means_prior", 0.), float), (K, M, F))
    d = P["means"] - mu0
    if "m" in params or "c" in params:
        for k, m in np.ndindex(K, M):
            v -= .5 * lam[k, m] * d[k, m] @ np.linalg.solve(P["cov"][k, m], d[k, m])
    if "c" not in params:
        return v
    a0, b0 = em.gmm_defaults(spec)
    a, b = pri.get("covars_prior"), pri.get("covars_weight")
    a, b = a0 if a is None else a, b0 if b is None else b
    ld = np.linalg.slogdet(P["cov"])[1]
    if cv == "full":
        psi = np.broadcast_to(np.asarray(a, float), (K, M, F, F))
        nu = np.broadcast_to(np.asarray(b, float), (K, M))
        v -= .5 * ((nu + F + 2) * ld).sum()
        v -= .5 * np.trace(np.linalg.solve(P["cov"], psi), axis1=-2, axis2=-1).sum()
    elif cv == "tied":
        psi = np.broadcast_to(np.asarray(a, float), (K, F, F))
        nu = np.broadcast_to(np.asarray(b, float), (K,))
        v -= .5 * ((nu + M + F + 1) * ld[:, 0]).sum()
        v -= .5 * np.trace(np.linalg.solve(P["cov"][:, 0], psi),
                           axis1=-2, axis2=-1).sum()
    else:
        s2 = np.diagonal(P["cov"], axis1=2, axis2=3)
        if cv == "spherical":
            s2 = s2[..., 0]
        a, b = (np.broadcast_to(np.asarray(x, float), s2.shape) for x in (a, b))
        n0 = F if cv == "spherical" else 1
        v -= (.5 * (n0 + 2 * (a + 1)) * np.log(s2) + b / s2).sum()
    return v


def penalty(spec, P, pri, params, masks):
    """Log prior of the trained parameters; forbidden entries do not count."""
    fam = spec["fam"]
    v = 0.
    for code, name, key in (("s", "start", "startprob_prior"),
                            ("t", "trans", "transmat_prior"),
                            ("e", "emis", "emissionprob_prior")):
        if code not in params or name not in P or (name == "emis" and fam != "cat"):
            continue
        a = np.broadcast_to(np.asarray(pri.get(key, 1.), float), P[name].shape)
        a = np.where(masks[name], 1., a) if name in masks else a
        v += O.dirichlet_term(a, P[name])
    if fam == "pois" and "l" in params:
        v += em.log_prior(spec, P, pri, "l")
    elif fam == "gauss":
        v += gauss_term(spec, P, pri, params)
    elif fam == "gmm":
        v += gmm_term(spec, P, pri, params)
    return float(v)


def sound(spec, P, full, X, info_mass):
    """Whether an iteration from here is numerically benign."""
    if (info_mass < 1e-4).any():
        return False
    for k, a in P.items():
        if k != "native" and not np.isfinite(a).all():
            return False
    for name in ("trans", "emis", "weights"):
        if name in P and np.abs(P[name].sum(axis=-1) - 1).max() > 1e-6:
            return False
    if "cov" in P:
        e = np.linalg.eigvalsh(P["cov"])
        xs = max(np.abs(X).max(), np.abs(P["means"]).max()) + 1
        if (e[..., 0] < 1e-7 * np.maximum(xs ** 2, e[..., -1])).any():
            return False
    return True


def singular(cov):
    e = np.linalg.eigvalsh(cov)
    return bool((e[..., 0] <= 1e-12 * np.maximum(e[..., -1], 1.)).any())


def masses(spec, P, full, X):
    m = full.gamma.sum(axis=0)
    if spec["fam"] == "gmm":
        r = O.gmm_responsibilities(P, full, X).sum(axis=0)
        return np.concatenate([m, r.ravel()])
    return m


def evaluate(spec, P, X, lengths):
    full = O.Full(spec["fam"], P, X, lengths)
    ok = (full.possible and full.gtol < 1e-6
          and (spec["impl"] == "log" or full.scaling_status() == "ok"))
    return full, ok


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam = spec["fam"]
    full, ok = evaluate(spec, P, X, lengths)
    if not ok or not sound(spec, P, full, X, masses(spec, P, full, X)):
        raise Skip
    params = emcheck.params_of(spec)
    pri = cap(em.priors(spec, spec["prior"]))
    masks = {k: P[k] == 0 for k in ("start", "trans")}
    args = (X, lengths)
    model = gen.make_model(spec, P, params=params, n_iter=1, tol=-np.inf, **pri)
    if spec["warm"]:
        sut("set_params", model.set_params, n_iter=spec["warm"])
        try:
            model.fit(*args)
        except ValueError:      # ran into a degenerate solution on the way
            raise Skip
        sut("set_params", model.set_params, n_iter=1)
        P = em.read(model, spec)
        if not all(np.isfinite(v).all() for v in P.values()):
            raise Skip
        if "cov" in P and singular(P["cov"]):
            raise Skip
        full, ok = evaluate(spec, P, X, lengths)
        if not ok or not sound(spec, P, full, X, masses(spec, P, full, X)):
            raise Skip
    start = P
    obj = full.loglik + penalty(spec, P, pri, params, masks)
    if not np.isfinite(obj):
        raise Skip
    lls, judged, moved = [(full.loglik, full.tol)], 0, 0.
    for i in range(spec["iters"]):
        sut("fit", model.fit, *args)
        h = list(model.monitor_.history)
        if len(h) != 1:
            fail(f"n_iter=1 recorded {len(h)} values")
        check_close("recorded log-likelihood", h[0], full.loglik,
                    atol=1e-7 + 4 * full.tol, rtol=1e-9)
        new = em.read(model, spec)
        if "cov" in new and (not np.isfinite(new["cov"]).all()
                             or singular(new["cov"])):
            break
        if any(not np.isfinite(new[k]).all() for k in new):
            break
        if any(k in new and np.abs(new[k].sum(axis=-1) - 1).max() > 1e-6
               for k in ("start", "trans", "emis", "weights")):
            break
        nfull, ok = evaluate(spec, new, X, lengths)
        if nfull.gtol > 1e-5:
            break
        if not nfull.possible:
            fail(f"iteration {i}: the data became impossible")
        if not sound(spec, new, nfull, X, np.ones(1)):
            break
        nobj = nfull.loglik + penalty(spec, new, pri, params, masks)
        tol = 1e-7 + 4 * (full.tol + nfull.tol) + 1e-9 * (abs(obj) + len(X))
        if nobj < obj - tol:
            fail(f"iteration {i}: {'penalized ' if spec['prior'] != 'flat' else ''}"
                 f"log-likelihood fell from {obj!r} to {nobj!r} (tolerance "
                 f"{tol:.3g})")
        judged += 1
        moved = max(moved, nobj - obj)
        full, obj = nfull, nobj
        lls.append((full.loglik, full.tol))
        if not ok or not sound(spec, new, full, X, masses(spec, new, full, X)):
            break
    if judged >= 2:
        one = gen.new_model(spec, params=params, n_iter=judged, tol=-np.inf,
                            init_params="", **pri)
        if fam in ("gauss", "gmm"):
            # reuse the storage of the stepwise start
            one = gen.set_params(one, fam, dict(start, native=native(spec, start)))
        else:
            one = gen.set_params(one, fam, start)
        sut("fit", one.fit, *args)
        h = list(one.monitor_.history)
        if len(h) != judged:
            fail(f"{judged} iterations recorded {len(h)} values")
        for i, (ll, t) in enumerate(lls[:judged]):
            check_close(f"history[{i}]", h[i], ll, rtol=1e-6,
                        atol=1e-6 + 100 * t)
    ctx.label(fam, spec.get("cv", ""), spec["impl"], "prior=" + spec["prior"],
              "subset" if spec["drop"] else "all params",
              f"judged={min(judged, 12)}", "warm" if spec["warm"] else "cold")
    ctx.interesting(judged >= 3 and spec["K"] > 1 and moved > 1e-9)


def native(spec, P):
    """Documented covars_ storage of full matrices."""
    cv, c = spec["cv"], P["cov"]
    dg = np.diagonal(c, axis1=-2, axis2=-1)
    if cv == "full":
        return c
    if cv == "diag":
        return dg
    if cv == "spherical":
        return dg[..., 0]
    return c[:, 0] if spec["fam"] == "gmm" else c[0]


def joint():
    def ample(spec):                # enough mass for every state and component
        if spec["fam"] in ("gauss", "gmm") or spec["seed"] % 2:
            spec["K"] = min(spec["K"], 4)
            if "lens" not in spec:
                spec["T"] = max(spec["T"], 30 * spec["K"] * spec.get("M", 1))
            spec["sp"] = "dense"
            spec["tp"] = ("dense", "sticky", "near")[spec["seed"] % 3]
            spec["xmode"] = ("model", "any")[spec["seed"] % 2]
            if "wp" in spec:
                spec["wp"], spec["F"] = "near", min(spec["F"], 4)
                spec["M"], spec["mscale"] = min(spec["M"], 3), 1.
        return spec
    return gen.joint_specs(["cat", "mult", "pois", "gauss", "gmm", "gauss", "gmm"],
                           extra=st.fixed_dictionaries({
        "prior": st.sampled_from(emcheck.PRIORS),
        "drop": st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
        "warm": st.sampled_from([0, 0, 3]),
        "iters": st.sampled_from([3, 6])})).map(ample)


def strategy():
    return gen.specs(
        gen.EMF, regimes=(55, 96), max_T=150, kmax=8, min_T=5,
        pmodes=gen.PMODES + gen.POSITIVE_PMODES, emodes=gen.EMODES + gen.SAFE_EMODES,
        xmodes=("model", "model", "uniform", "outlier"),
        extra=st.fixed_dictionaries({
            "prior": st.sampled_from(emcheck.PRIORS),
            "drop": st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
            "warm": st.sampled_from([0, 0, 3, 25]),
            "iters": st.sampled_from([3, 6, 12])}))


FACETS = [Facet("monotone", strategy, check, 3500),
          Facet("joint", joint, check, 900)]
