"""One EM iteration of every family, priors included, against the reference."""
import numpy as np
from scipy.special import xlogy

from . import gen, oracle as O
from .core import Skip, attr, check_array, check_close, check_same, sut

MASS = 1e-6          # states with less posterior mass than this are not judged


# ------------------------------------------------------------ priors

def dirichlet_prior(rs, mode, shape, low=.3):
    if mode == "flat":
        return 1.
    if mode == "scalar":
        return float(rs.choice([1, 1.5, 2, 4] if low >= 1 else [.5, .9, 1.5, 2, 4]))
    if mode == "int":
        return int(rs.choice([1, 2, 3]))
    return np.round(rs.uniform(low, 4, size=shape), 3)


def priors(spec, mode):
    """Constructor arguments for the priors of the family of *spec*."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    rs = gen.rng(spec, 50)
    out = {"startprob_prior": dirichlet_prior(rs, mode, K),
           "transmat_prior": dirichlet_prior(rs, mode, (K, K))}
    if mode == "row" :
        out["startprob_prior"] = dirichlet_prior(rs, "array", K)
        out["transmat_prior"] = dirichlet_prior(rs, "array", K)
    array = mode in ("array", "row")
    if fam == "cat":
        out["emissionprob_prior"] = dirichlet_prior(
            rs, mode, (K, F) if mode != "row" else F)
    elif fam == "pois" and mode != "flat":
        shape = (K, F) if mode == "array" else (K, 1) if mode == "row" else ()
        out["lambdas_prior"] = rs.choice([0, .5, 2, 10], size=shape)
        out["lambdas_weight"] = rs.choice([0, .5, 1, 3], size=shape)
        if not shape:
            out["lambdas_prior"] = float(out["lambdas_prior"])
            out["lambdas_weight"] = float(out["lambdas_weight"])
    elif fam == "gauss":
        out.update(gauss_priors(rs, spec, mode, array))
    elif fam == "gmm":
        out.update(gmm_priors(rs, spec, mode, array))
    return out


def spd(rs, F):
    a = rs.randn(F, F)
    return a @ a.T + .3 * np.eye(F)


def gauss_priors(rs, spec, mode, array):
    K, F, cv = spec["K"], spec["F"], spec["cv"]
    if mode == "flat":
        return {"means_prior": 0, "means_weight": 0, "covars_prior": 0.,
                "covars_weight": 1}
    if mode == "int":                       # the defaults of the class
        return {}
    out = {"means_weight": float(rs.choice([0, .1, 1, 7])),
           "covars_weight": float(rs.choice([0, 1, 1.5, 3, 12, F + 2])),
           "means_prior": float(rs.choice([0, spec["offset"], 2])),
           "covars_prior": float(rs.choice([0, 1e-2, .5, 3]))}
    if array:
        out["means_prior"] = rs.randn(K, F) * 2 + spec["offset"]
        if mode == "row":
            out["means_prior"] = rs.randn(F) * 2 + spec["offset"]
        if cv in ("diag", "spherical"):
            out["covars_prior"] = rs.uniform(0, 2, size=(K, F))
            if mode == "row":
                out["covars_prior"] = rs.uniform(0, 2, size=F)
        elif cv == "full":
            out["covars_prior"] = np.stack([spd(rs, F) for _ in range(K)])
            if mode == "row":
                out["covars_prior"] = spd(rs, F)
        else:
            out["covars_prior"] = spd(rs, F)
    return out


def gmm_priors(rs, spec, mode, array):
    K, F, M, cv = spec["K"], spec["F"], spec["M"], spec["cv"]
    if mode in ("flat", "int"):
        return {}
    out = {"weights_prior": dirichlet_prior(rs, "scalar", (), 1.),
           "means_weight": float(rs.choice([0, .5, 2])),
           "means_prior": float(rs.choice([0, spec["offset"], 2]))}
    if array:
        out["weights_prior"] = rs.uniform(1, 4, size=(K, M) if mode == "array" else M)
        out["means_weight"] = rs.uniform(0, 3, size=(K, M))
        out["means_prior"] = rs.randn(K, M, F) * 2 + spec["offset"]
    which = rs.randint(3)
    if which == 0:
        return out
    if cv in ("diag", "spherical"):
        shape = (K, M, F) if cv == "diag" else (K, M)
        shape = shape if array else ()
        out["covars_prior"] = rs.uniform(-1.2, 3, size=shape)
        out["covars_weight"] = rs.uniform(.01, 3, size=shape)
    else:
        shape = (K, M) if cv == "full" else (K,)
        out["covars_weight"] = (rs.uniform(0, 6, size=shape) if array
                                else float(rs.choice([0., 1, 5])))
        if array:
            out["covars_prior"] = np.stack(
                [spd(rs, F) for _ in range(int(np.prod(shape)))]
            ).reshape(*shape, F, F)
        else:
            out["covars_prior"] = 0.
    return out


def gmm_defaults(spec):
    F, M, cv = spec["F"], spec["M"], spec["cv"]
    return {"full": (0., -(F + 2.)), "tied": (0., -(M + F + 1.)),
            "diag": (-1.5, 0.), "spherical": (-(F + 2.) / 2, 0.)}[cv]


# ------------------------------------------------------------ reference step

def expected(spec, P, X, lengths, full, pri, params):
    """Parameters after one iteration, with counts of each row."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    gamma = full.gamma
    out = dict(P)
    info = {"mass": gamma.sum(axis=0)}
    st = O.mstep_start_trans(P, full, pri.get("startprob_prior", 1.),
                             pri.get("transmat_prior", 1.), params)
    info.update({k: v for k, v in st.items() if k.endswith("raw")})
    if "s" in params:
        out["start"] = st["start"]
    if "t" in params:
        out["trans"] = st["trans"]
    if fam == "cat" and "e" in params:
        raw = np.maximum(np.asarray(pri.get("emissionprob_prior", 1.)) - 1
                         + O.symbol_counts(gamma, X, F), 0)
        info["emis_raw"] = raw
        out["emis"] = O.normalize_rows(raw)
    elif fam == "mult" and "e" in params:
        raw = gamma.T @ X.astype(float)
        info["emis_raw"] = raw
        out["emis"] = O.normalize_rows(raw)
    elif fam == "pois" and "l" in params:
        a, b = pri.get("lambdas_prior", 0.), pri.get("lambdas_weight", 0.)
        with np.errstate(all="ignore"):
            out["lam"] = ((np.asarray(a) + gamma.T @ X.astype(float))
                          / (np.asarray(b) + info["mass"][:, None]))
    elif fam == "gauss":
        with np.errstate(all="ignore"):
            out["means"], out["cov"], _ = O.gauss_mstep(
                P, gamma, X, spec["cv"], params,
                pri.get("means_prior", 0.), pri.get("means_weight", 0.),
                pri.get("covars_prior", 1e-2), pri.get("covars_weight", 1.))
        cw, n = pri.get("covars_weight", 1.), info["mass"]
        info["cden"] = (np.maximum(max(cw - 1, 0) + n, 1e-5)
                        if spec["cv"] in ("diag", "spherical") else
                        max(cw - F, 0) + (n.sum() if spec["cv"] == "tied" else n))
    elif fam == "gmm":
        gmm_step(spec, P, X, full, pri, params, out, info)
    return out, info


def gmm_step(spec, P, X, full, pri, params, out, info):
    K, F, M, cv = spec["K"], spec["F"], spec["M"], spec["cv"]
    X = np.asarray(X, dtype=float)
    r = O.gmm_responsibilities(P, full, X)
    n = r.sum(axis=0)
    info["mix"], info["r"], info["old_means"] = n, r, P["means"]
    info["old_weights"] = P["weights"]
    lam = np.broadcast_to(np.asarray(pri.get("means_weight", 0.), float), (K, M))
    mu0 = np.broadcast_to(np.asarray(pri.get("means_prior", 0.), float), (K, M, F))
    a0, b0 = gmm_defaults(spec)
    a = pri.get("covars_prior", None)
    b = pri.get("covars_weight", None)
    a, b = a0 if a is None else a, b0 if b is None else b
    with np.errstate(all="ignore"):
        if "w" in params:
            raw = n + (np.asarray(pri.get("weights_prior", 1.)) - 1)
            info["weights_raw"] = raw
            out["weights"] = raw / raw.sum(axis=1, keepdims=True)
        means = P["means"]
        if "m" in params:
            means = ((lam[:, :, None] * mu0 + np.einsum("tkm,tf->kmf", r, X))
                     / (lam + n)[:, :, None])
            out["means"] = means
        if "c" not in params:
            return
        S = np.empty((K, M, F, F))
        for k in range(K):
            for m in range(M):
                d = X - P["means"][k, m]
                S[k, m] = (r[:, k, m, None] * d).T @ d
        info["bmag"] = np.abs(np.asarray(a if cv in ("diag", "spherical") else b, float))
        if cv == "diag":
            info["bmag"] = np.broadcast_to(info["bmag"], (K, M, F)).max(axis=2)
        elif cv == "tied":
            info["bmag"] = np.broadcast_to(info["bmag"], (K,))[:, None]
        info["bmag"] = np.broadcast_to(info["bmag"], (K, M)) + 2 * F + 4
        dm = means - mu0
        # (unused components without a prior have no mean)
        prior = np.where(lam[:, :, None, None] == 0, 0,
                         lam[:, :, None, None] * dm[..., :, None] * dm[..., None, :])
        if cv == "full":
            a = np.broadcast_to(np.asarray(a, float), (K, M, F, F))
            den = n + 1 + np.asarray(b) + F + 1
            cov = (a + prior + S) / den[:, :, None, None]
        elif cv == "tied":
            a = np.broadcast_to(np.asarray(a, float), (K, F, F))
            den = n.sum(axis=1) + M + np.asarray(b) + F + 1
            c = (a + prior.sum(axis=1) + S.sum(axis=1)) / den[:, None, None]
            cov = np.repeat(c[:, None], M, axis=1)
        elif cv == "diag":
            dg = lambda v: np.diagonal(v, axis1=-2, axis2=-1)
            num = dg(prior) + dg(S) + 2 * np.asarray(b)
            den = n[:, :, None] + 1 + 2 * (np.asarray(a) + 1)
            v = num / den
            cov = v[..., None] * np.eye(F)
        else:
            tr = lambda v: np.trace(v, axis1=-2, axis2=-1)
            den = F * (n + 1) + 2 * (np.asarray(a) + 1)
            v = (tr(prior) + tr(S) + 2 * np.asarray(b)) / den
            cov = v[..., None, None] * np.eye(F)
        info["den"] = np.broadcast_to(
            den.reshape(den.shape + (1,) * (2 - den.ndim)) if den.ndim < 2
            else den if den.ndim == 2 else den[..., 0], (K, M))
        out["cov"] = cov


# ------------------------------------------------------------ the code's step

def read(model, spec):
    """Parameters of a model in the form of lib.oracle."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    g = {"start": check_array("startprob_", attr(model, "startprob_"), (K,)),
         "trans": check_array("transmat_", attr(model, "transmat_"), (K, K))}
    if fam in ("cat", "mult", "vcat"):
        g["emis"] = check_array("emissionprob_", attr(model, "emissionprob_"), (K, F))
    elif fam == "pois":
        g["lam"] = check_array("lambdas_", attr(model, "lambdas_"), (K, F))
    elif fam in ("gauss", "vgauss"):
        g["means"] = check_array("means_", attr(model, "means_"), (K, F))
        g["cov"] = check_array("covars_", attr(model, "covars_"), (K, F, F))
    else:
        M = spec["M"]
        g["weights"] = check_array("weights_", attr(model, "weights_"), (K, M))
        g["means"] = check_array("means_", attr(model, "means_"), (K, M, F))
        shape = {"spherical": (K, M), "diag": (K, M, F), "full": (K, M, F, F),
                 "tied": (K, F, F)}[spec["cv"]]
        c = check_array("covars_", attr(model, "covars_"), shape)
        g["cov"] = gen.native_to_full("gmm", spec["cv"], c, K, F, M)
    return {k: np.array(v) for k, v in g.items()}


def row_tol(raw, gtol, T):
    s = raw.sum(axis=-1, keepdims=True)
    return 1e-9 + gtol * T / np.maximum(s, 1e-300)


FLOOR = 1e-30        # posterior mass below which nothing is judged entrywise


def prob_tol(raw, prior, g):
    """Entrywise tolerance of the normalized rows of max(prior - 1 + counts, 0).

    Every count is a sum of positive terms with relative error g, so the small
    entries are known as well as the large ones."""
    pm = np.broadcast_to(np.abs(np.asarray(prior, float) - 1), raw.shape)
    # (adding and removing one costs an ulp of one, unless there is no count)
    err = np.where((raw > 0) | (pm > 0), g * (raw + pm) + 5e-16 * (pm + 2), FLOOR)
    s = np.maximum(raw.sum(axis=-1, keepdims=True), 1e-300)
    return (err + raw / s * err.sum(axis=-1, keepdims=True)) / s + 1e-15 * raw / s


def compare(got, want, info, spec, X, full, params, which, loose=1., pri=None):
    """Judges the parameters *which* (codes); raises Violation."""
    if spec["fam"] in ("gauss", "gmm") and loose > 100:
        return compare_loosely(got, want, info, spec, X, full, params, which, loose)
    pri = pri or {}
    fam, T = spec["fam"], len(X)
    g = (1e-11 + 8 * full.rtol) * loose
    judged = 0
    mass = info["mass"]
    Xf = np.asarray(X, dtype=float)
    for code, name, key, prior in (
            ("s", "startprob_", "start", pri.get("startprob_prior", 1.)),
            ("t", "transmat_", "trans", pri.get("transmat_prior", 1.)),
            ("e", "emissionprob_", "emis",
             pri.get("emissionprob_prior", 1.) if fam == "cat" else 1.)):
        if code not in which or code not in params or key not in got:
            continue
        raw = np.atleast_2d(info[key + "_raw"])
        tol = prob_tol(raw, prior, g)
        for i in np.flatnonzero((tol < 1e-3).all(axis=1)):
            check_close(f"{name}[{i}]" if key != "start" else name,
                        np.atleast_2d(got[key])[i], np.atleast_2d(want[key])[i],
                        atol=tol[i])
            judged += 1
    if "l" in which and "l" in params and fam == "pois":
        for i in np.flatnonzero(mass > FLOOR):
            check_close(f"lambdas_[{i}]", got["lam"][i], want["lam"][i],
                        atol=1e-300, rtol=2 * g + 1e-13)
            judged += 1
    if fam in ("gauss", "gmm"):
        judged += compare_gaussians(got, want, info, spec, Xf, full, params, which,
                                    g, pri)
    return judged


def compare_gaussians(got, want, info, spec, X, full, params, which, g, pri):
    fam, cv, K, F, T = spec["fam"], spec["cv"], spec["K"], spec["F"], len(X)
    judged = 0
    e = 4e-16 * (60 + T)
    if fam == "gauss":
        M = 1
        r = full.gamma[:, :, None]
        shape = lambda v: np.broadcast_to(np.asarray(v, float), (K, F))[:, None]
        w, mw = want["means"][:, None], np.full((K, 1), float(pri.get("means_weight", 0.)))
        mu0 = shape(pri.get("means_prior", 0.))
        centre = w
    else:
        M = spec["M"]
        r = info["r"]
        w = want["means"]
        mw = np.broadcast_to(np.asarray(pri.get("means_weight", 0.), float), (K, M))
        mu0 = np.broadcast_to(np.asarray(pri.get("means_prior", 0.), float), (K, M, F))
        centre = info["old_means"]
    n = r.sum(axis=0)
    rx = np.einsum("tkm,tf->kmf", r, np.abs(X))
    if "w" in which and "w" in params:
        tol = prob_tol(info["weights_raw"], pri.get("weights_prior", 1.), g)
        for i in np.flatnonzero((tol < 1e-3).all(axis=1)):
            check_close(f"weights_[{i}]", got["weights"][i], want["weights"][i],
                        atol=tol[i])
            judged += 1
    # A mean is a ratio of two sums over the same posteriors.
    with np.errstate(all="ignore"):
        spread = np.einsum("tkm,tkmf->kmf", r, np.abs(X[:, None, None] - w[None]))
        spread += mw[..., None] * np.abs(mu0 - w)
        mtol = ((g * spread + e * (rx + mw[..., None] * np.abs(mu0)))
                / (mw + n)[..., None] + e * np.abs(w) + 1e-300)
    ok = (n + mw > FLOOR) & np.isfinite(w).all(axis=-1)
    if "m" in which and "m" in params:
        gm = got["means"].reshape(w.shape)
        for k, m in np.argwhere(ok):
            check_close(f"means_[{k}]" + (f"[{m}]" if fam == "gmm" else ""),
                        gm[k, m], w[k, m], atol=mtol[k, m])
            judged += 1
    if "c" in which and "c" in params:
        with np.errstate(all="ignore"):
            d2 = np.einsum("tkm,tkmf->kmf", r, (X[:, None, None] - centre[None]) ** 2)
            wp = np.where(mw[..., None] == 0, mu0, w)
            d2 += mw[..., None] * (wp - mu0) ** 2
            big = np.einsum("tkm,tkmf->kmf", r,
                            (np.abs(X)[:, None, None] + np.abs(centre)[None]) ** 2)
            big += mw[..., None] * (np.abs(wp) + np.abs(mu0)) ** 2
            # the prior on the mean sees the error of the computed mean
            big_m = np.where(mw[..., None] == 0, 0,
                             2 * mw[..., None] * np.abs(wp - mu0) * mtol)
        cp = pri.get("covars_prior", None)
        num = (g * d2 + e * big + big_m
               + 1e-15 * (np.abs(np.asarray(.01 if cp is None else cp, float)).max()
                          + np.abs(np.asarray(0 if pri.get("covars_weight") is None
                                              else pri["covars_weight"], float)).max()))
        if fam == "gauss":
            den = np.asarray(info["cden"], float)        # (K,) or scalar
            if cv == "tied":
                if not (ok & (n > FLOOR)).all():
                    return judged
                num, den = num.sum(axis=0), np.full((1, 1), float(den))
            else:
                num, den = num[:, 0], den[:, None]
            cols = num / den
            cols = np.broadcast_to(cols, (K, F))
            den = np.broadcast_to(den, (K, 1))[:, :, None]
            good = (ok & (n > FLOOR))[:, 0] if cv != "tied" else np.ones(K, bool)
            if "m" not in params:
                good = np.isfinite(centre).all(axis=(1, 2))
            good = good & (den[:, 0, 0] > FLOOR)
        else:
            den = np.asarray(info["den"], float)
            if cv == "tied":
                unused = ((n == 0) & (info["old_weights"] == 0)
                          & (want["weights"] == 0))
                alive = (ok & (n > FLOOR)) | unused
                alive = (alive.all(axis=1, keepdims=True)
                         & ~unused.all(axis=1, keepdims=True))
                num = np.repeat(num.sum(axis=1, keepdims=True), M, axis=1)
                good = alive & np.ones((1, M), bool)
            else:
                good = ok & (n > FLOOR)
            cols = num / np.abs(den)[..., None]
            good = good & (den > 1e-9)
        # relative error of the denominator
        nn = np.broadcast_to(n.sum(axis=1, keepdims=True) if cv == "tied" else n,
                             good.shape if fam == "gmm" else (K, 1))
        if fam == "gauss":
            tot = n.sum() if cv == "tied" else n[:, 0]
            drel = g * tot / np.broadcast_to(den[:, 0, 0], (K,)) + 1e-15
        else:
            drel = g * nn / den + e * (1 + np.abs(np.broadcast_to(
                info["bmag"], good.shape)) / den)
        for i in np.argwhere(good):
            i = tuple(i)
            v = want["cov"][i]
            if not np.isfinite(v).all():
                continue
            sd = np.sqrt(cols[i])
            tol = np.outer(sd, sd)
            if cv == "spherical":
                tol = np.eye(F) * cols[i].mean()
            elif cv == "diag":
                tol = np.diag(cols[i])
            tol = tol + np.abs(v) * (drel[i] + 1e-14) + 1e-300
            tol = np.minimum(tol, 1e300)
            if np.diagonal(tol).max() < 1e-2 * np.abs(np.diagonal(v)).max():
                check_close(f"covars_{[int(q) for q in i]}", got["cov"][i], v, atol=tol)
                judged += 1
    return judged


def compare_loosely(got, want, info, spec, X, full, params, which, loose=1.):
    """Like compare(), with tolerances relative to the largest counts."""
    fam, T = spec["fam"], len(X)
    g = (1e-11 + 4 * full.rtol) * loose
    judged = 0
    mass = info["mass"]
    Xf = np.asarray(X, dtype=float)
    if "s" in which and "s" in params:
        tol = row_tol(info["start_raw"], g, len(full.seqs))
        if tol.max() < 1e-3:
            check_close("startprob_", got["start"], want["start"], atol=tol.max())
            judged += 1
    if "t" in which and "t" in params:
        tol = row_tol(info["trans_raw"], g, T)[:, 0]
        for i in np.flatnonzero(tol < 1e-3):
            check_close(f"transmat_[{i}]", got["trans"][i], want["trans"][i],
                        atol=tol[i])
            judged += 1
    if "e" in which and "e" in params and fam in ("cat", "mult"):
        tol = row_tol(info["emis_raw"], g, Xf.sum() + T if fam == "mult" else T)[:, 0]
        for i in np.flatnonzero(tol < 1e-3):
            check_close(f"emissionprob_[{i}]", got["emis"][i], want["emis"][i],
                        atol=tol[i])
            judged += 1
    if "l" in which and "l" in params and fam == "pois":
        for i in np.flatnonzero(mass > MASS):
            check_close(f"lambdas_[{i}]", got["lam"][i], want["lam"][i],
                        atol=1e-9 + g * T * (Xf.max() + 1) / mass[i], rtol=1e-9)
            judged += 1
    if fam in ("gauss", "gmm"):
        m = mass if fam == "gauss" else info["mix"]
        xs = max(np.abs(Xf).max(), np.abs(want["means"][m > MASS]).max()
                 if (m > MASS).any() else 0) + 1
        rel = g * T
        if "w" in which and "w" in params:
            for i in np.flatnonzero(mass > MASS):
                check_close(f"weights_[{i}]", got["weights"][i], want["weights"][i],
                            atol=1e-9 + rel / mass[i])
                judged += 1
        if "m" in which and "m" in params:
            for i in np.argwhere(m > MASS):
                i = tuple(i)
                tol = 1e-9 + (rel / m[i] + 1e-13) * xs
                if tol < 1e-2 * xs:
                    check_close(f"means_{[int(v) for v in i]}", got["means"][i],
                                want["means"][i], atol=tol)
                    judged += 1
        if "c" in which and "c" in params:
            tied = spec["cv"] == "tied"
            den = m if fam == "gauss" else np.minimum(info["den"], m)
            if tied:
                den = np.full(m.shape, den.sum() if fam == "gauss" else 0)
                if fam == "gmm":
                    den[:] = info["den"]
            bad = ((m <= MASS).any() if tied and fam == "gauss" else
                   None)
            for i in np.argwhere(den > MASS):
                i = tuple(i)
                if tied and ((m <= MASS).any() if fam == "gauss"
                             else (m[i[0]] <= MASS).any()):
                    continue          # a mean without mass enters the sum
                d = den[i]
                # the mean of a component with little mass is inaccurate
                md = max(m[i], 1e-300) if not tied else (
                    m.min() if fam == "gauss" else m[i[0]].min())
                tol = (1e-9 + (rel / d + 1e-12) * xs ** 2
                       + (rel / md) * xs ** 2 * (1 if not tied else 1))
                want_i = want["cov"][i]
                if not np.isfinite(want_i).all():
                    continue
                if tol < max(1e-3 * np.abs(want_i).max(), 1e-7):
                    check_close(f"covars_{[int(v) for v in i]}", got["cov"][i],
                                want_i, atol=tol, rtol=1e-9)
                    judged += 1
    return judged


def unchanged(got, P, spec, params):
    """Parameters whose code is not in params keep their exact value."""
    names = {"s": ["start"], "t": ["trans"], "e": ["emis"], "l": ["lam"],
             "w": ["weights"], "m": ["means"], "c": ["cov"]}
    for code in gen.CODES[spec["fam"]]:
        if code not in params:
            for n in names[code]:
                check_same(f"untrained {n}", got[n], P[n])


# ------------------------------------------------------------ penalized score

def log_prior(spec, P, pri, params):
    """Log prior density (up to constants) of the trained parameters."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    v = 0.
    if "s" in params:
        v += O.dirichlet_term(pri.get("startprob_prior", 1.), P["start"])
    if "t" in params:
        v += O.dirichlet_term(pri.get("transmat_prior", 1.), P["trans"])
    if fam == "cat" and "e" in params:
        v += O.dirichlet_term(pri.get("emissionprob_prior", 1.), P["emis"])
    if fam == "pois" and "l" in params:
        a = np.broadcast_to(np.asarray(pri.get("lambdas_prior", 0.)), (K, F))
        b = np.broadcast_to(np.asarray(pri.get("lambdas_weight", 0.)), (K, F))
        v += (xlogy(a, P["lam"]) - b * P["lam"]).sum()
    if fam == "gmm" and "w" in params:
        v += O.dirichlet_term(pri.get("weights_prior", 1.), P["weights"])
    return float(v)
