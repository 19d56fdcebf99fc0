"""Initial parameters are valid, of the documented shapes, and as documented."""
import copy
import string

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone

from lib import em, gen, runs, vb
from lib.core import (Facet, Skip, attr, check_array, check_close,
                      check_distribution, check_same, fail, sut)

RULE = ("generated data, sizes, priors, subsets of parameters that are set before "
        "and subsets named by init_params; the model is observed after fit() with "
        "n_iter=0; non-trivial: something is initialized")

NAMES = {"s": ["startprob_"], "t": ["transmat_"], "e": ["emissionprob_"],
         "l": ["lambdas_"], "m": ["means_"], "c": ["covars_"], "w": ["weights_"]}


def vb_names(fam, code):
    base = {"s": ["startprob"], "t": ["transmat"], "e": ["emissionprob"],
            "m": ["means", "beta"], "c": ["dof", "scale"]}[code]
    return [f"{b}_{w}_" for b in base for w in ("prior", "posterior")]


def shapes(spec):
    K, F, M, cv = spec["K"], spec["F"], spec.get("M"), spec.get("cv")
    out = {"startprob_": (K,), "transmat_": (K, K), "emissionprob_": (K, F),
           "lambdas_": (K, F), "weights_": (K, M),
           "means_": (K, M, F) if M else (K, F)}
    if spec["fam"] == "gmm":
        out["covars_"] = {"full": (K, M, F, F), "tied": (K, F, F),
                          "diag": (K, M, F), "spherical": (K, M)}[cv]
    else:
        out["covars_"] = (K, F, F)
    for w in ("prior", "posterior"):
        out.update({f"startprob_{w}_": (K,), f"transmat_{w}_": (K, K),
                    f"emissionprob_{w}_": (K, F), f"means_{w}_": (K, F),
                    f"beta_{w}_": (K,),
                    f"dof_{w}_": () if cv == "tied" else (K,)})
        if spec["fam"] == "vgauss":
            out[f"scale_{w}_"] = {"full": (K, F, F), "tied": (F, F),
                                  "diag": (K, F), "spherical": (K,)}[cv]
    return out


def template(X, eps, cv, n):
    """n full matrices of the data covariance reduced to the type."""
    X = np.asarray(X, float)
    F = X.shape[1]
    d = X - X.mean(axis=0)
    c = d.T @ d / (len(X) - 1) + eps * np.eye(F)
    if cv == "diag":
        c = np.diag(np.diag(c))
    elif cv == "spherical":
        c = c.mean() * np.eye(F)
    return np.tile(c, (n, 1, 1))


def usable(spec, X):
    if spec["fam"] in ("gauss", "gmm", "vgauss"):
        if len(X) < 2 or len(np.unique(X, axis=0)) < spec["K"] * spec.get("M", 1):
            raise Skip


def build(spec):
    """Data, a fresh constructor, what is set and what gets initialized."""
    fam, K = spec["fam"], spec["K"]
    base = dict(spec, fam=vb.BASE.get(fam, fam))
    P, X, lengths = gen.case(base)
    spec["_ntrials"] = base.get("_ntrials")
    usable(spec, X)
    codes = gen.CODES[fam]
    rs = gen.rng(spec, 130)
    given = {"none": "", "all": codes}.get(
        spec["given"], "".join(c for c in codes if rs.rand() < .5))
    init = {"none": "", "all": codes}.get(
        spec["init"], "".join(rs.permutation(
            [c for c in codes if rs.rand() < .5]).tolist()))
    fresh = "".join(c for c in codes if c in init or c not in given)
    kw, prior, Q = {}, None, None
    if fam in vb.BASE:
        kw, prior = vb.priors(spec, X)
        Q = vb.posterior(spec, X)
    elif spec["prior"] != "default":
        kw = em.priors(spec, spec["prior"])
    if fam in ("gauss", "gmm"):
        kw["min_covar"] = spec["min_covar"]
    if fam in ("cat", "vcat"):
        kw["n_features"] = None if spec["infer"] else spec["F"]
        if spec["infer"]:
            spec["F"] = int(X.max()) + 1
            if any(np.ndim(v) for k, v in kw.items() if "emission" in k):
                raise Skip
            if prior is not None:
                if spec["prior"] == "default":
                    prior["emis"] = np.full((K, spec["F"]), 1. / spec["F"])
                else:
                    prior["emis"] = prior["emis"][:, :spec["F"]]
                Q["emis"] = Q["emis"][:, :spec["F"]]
            P = dict(P)
            P["emis"] = P["emis"][:, :spec["F"]]
            if (P["emis"].sum(axis=1) < .01).any():
                raise Skip
            P["emis"] = P["emis"] / P["emis"].sum(axis=1, keepdims=True)
    if fam == "mult" and spec["infer"]:
        kw["n_trials"] = None

    def new(seed=spec["seed"] % 10007, **more):
        m = gen.new_model(spec, **{**kw, "init_params": init, "n_iter": 0,
                                   "random_state": seed, **more})
        if fam in vb.BASE:
            other = dict(spec, prior="array", seed=spec["seed"] + 1)
            vb.assign(m, vb.priors(other, X)[1], Q)
            if "c" not in given and fam == "vgauss":
                del m._covars_
        else:
            gen.set_params(m, fam, P)
        for c in codes:
            if c not in given:
                for n in names(fam, c):
                    delattr(m, "_covars_" if (n, fam) == ("covars_", "gauss")
                            else n)
        return m

    return P, X, lengths, new, given, init, fresh, kw, prior


def names(fam, code):
    return vb_names(fam, code) if fam in vb.BASE else NAMES[code]


@st.composite
def strategy(draw):
    fam = gen.pick(draw, gen.EMF + ["vcat", "vgauss", "gauss", "vgauss"])
    ex = {"given": st.sampled_from(["none", "none", "some", "all"]),
          "init": st.sampled_from(["all", "all", "some", "none"]),
          "min_covar": st.sampled_from([1e-3, 1e-3, 1e-6, .5]),
          "infer": st.booleans()}
    args = dict(regimes=(60, 90), max_T=120, kmax=8,
                xmodes=("model", "model", "uniform", "outlier"))
    if fam in vb.BASE:
        spec = draw(vb.specs([fam], extra=ex, **args))
        spec["fam"] = fam
        if fam == "vcat" and spec["infer"]:
            spec["prior"] = gen.pick(draw, ["default", "scalar"])
    else:
        if fam == "pois":
            args["xmodes"] = ("model", "uniform", "outlier", "const")
        spec = draw(gen.specs([fam], extra=st.fixed_dictionaries(ex), **args))
        spec["prior"] = gen.pick(draw, ["default", "scalar", "array"])
        if fam == "cat" and spec["infer"] and spec["prior"] == "array":
            spec["prior"] = "scalar"
    return spec


def valid_em(spec, code, m, X, lo, hi):
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    if code in "ste":
        for n in NAMES[code]:
            check_distribution(f"initial {n}", attr(m, n))
    elif code == "l":
        lam = check_array("initial lambdas_", attr(m, "lambdas_"), finite=True)
        if (lam <= 0).any():
            fail(f"initial lambdas_ are not positive: {lam.tolist()}")
    elif code == "w":
        check_close("initial weights_", attr(m, "weights_"),
                    np.full((K, spec["M"]), 1. / spec["M"]), rtol=1e-12)
    elif code == "m":
        means = check_array("initial means_", attr(m, "means_"), finite=True)
        eps = 1e-9 * (1 + np.abs(X).max())
        if fam == "gauss":
            if ((means < lo - eps) | (means > hi + eps)).any():
                fail(f"initial means_ {means.tolist()} are outside of the data "
                     f"({lo.tolist()} to {hi.tolist()})")
            if len(np.unique(means, axis=0)) < K:
                fail(f"initial means_ {means.tolist()} coincide")
    elif code == "c":
        scale = (np.abs(X - X.mean(axis=0)).max() + 1) ** 2 + 1e-9 * (X ** 2).max()
        n = K * spec.get("M", 1)
        want = template(X, spec["min_covar"], spec["cv"], n)
        got = attr(m, "covars_")
        if fam == "gmm":
            got = gen.native_to_full("gmm", spec["cv"], got, K, F, spec["M"])
            want = want.reshape(K, spec["M"], F, F)
        check_close("initial covars_", got, want, atol=1e-9 * scale)


def valid_vb(spec, code, m, X, lengths, prior, lo, hi):
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    key = {v: k for k, v in vb.ATTR.items()}
    for n in vb_names(fam, code):
        base, which = n.rsplit("_", 2)[:2]
        v = check_array(f"initial {n}", attr(m, n), finite=True)
        if which == "prior":
            check_close(f"initial {n}", v, prior[key[base]], rtol=1e-9,
                        atol=1e-9 * (1 + np.abs(X).max()) if base == "means" else 0)
        elif base in ("startprob", "transmat", "emissionprob"):
            if (v < prior[key[base]] * (1 - 1e-12)).any() or (v <= 0).any():
                fail(f"initial {n} is below the prior: {v.tolist()}")
        elif base == "means":
            eps = 1e-9 * (1 + np.abs(X).max())
            if ((v < lo - eps) | (v > hi + eps)).any():
                fail(f"initial {n} {v.tolist()} is outside of the data")
            if len(np.unique(v, axis=0)) < K:
                fail(f"initial {n} {v.tolist()} coincide")
        elif base == "beta" and (v <= 0).any():
            fail(f"initial {n} is not positive: {v.tolist()}")
        elif base == "dof" and (v <= F - 1).any():
            fail(f"initial {n} is not above n_features - 1: {v.tolist()}")
        elif base == "scale":
            w = v if spec["cv"] in ("full", "tied") else v[..., None] * np.eye(
                v.shape[-1] if spec["cv"] == "diag" else 1).reshape(
                    (v.shape[-1],) * 2 if spec["cv"] == "diag" else (1,))
            if spec["cv"] in ("full", "tied"):
                if (np.linalg.eigvalsh(v) <= 0).any():
                    fail(f"initial {n} is not positive definite")
            elif (w < 0).any() or (v <= 0).any():
                fail(f"initial {n} is not positive")
    if code == "c":
        scale = (np.abs(X - X.mean(axis=0)).max() + 1) ** 2 + 1e-9 * (X ** 2).max()
        want = template(X, 1e-3, spec["cv"], K)
        check_close("initial covars_", attr(m, "covars_"), want, atol=1e-9 * scale)


def check(spec, ctx):
    spec = dict(spec)
    P, X, lengths, new, given, init, fresh, kw, prior = build(spec)
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    m = new()
    before = runs.params(m)
    before.pop("covars_", None) if fam == "vgauss" else None
    r = runs.outcome(m.fit, X.copy(), list(lengths))
    if r[0] != "ok":
        fail(f"fit(n_iter=0) raised {r[1]}")
    ctx.label(fam, "given " + spec["given"], "init " + spec["init"],
              "prior " + spec["prior"], *(["infer"] if spec["infer"] else []))
    ctx.interesting(bool(fresh))
    if attr(m, "n_features") != F:
        fail(f"n_features is {m.n_features}, expected {F}")
    if fam == "mult" and spec["infer"]:
        check_close("n_trials", np.broadcast_to(m.n_trials, len(X)), X.sum(axis=1))
    sh = shapes(spec)
    Xf = np.asarray(X, float)
    lo, hi = Xf.min(axis=0), Xf.max(axis=0)
    for c in gen.CODES[fam]:
        for n in names(fam, c):
            v = check_array(n, attr(m, n))
            if v.shape != sh[n]:
                fail(f"{n} has shape {v.shape}, expected {sh[n]}")
            if c not in fresh and n in before:
                check_same(f"{n}, which was set and is not in init_params={init!r}",
                           v, before[n])
        if c in fresh:
            if fam in vb.BASE:
                valid_vb(spec, c, m, Xf, lengths, prior, lo, hi)
            else:
                valid_em(spec, c, m, Xf, lo, hi)
    # given priors are used as they are
    for k, v in kw.items():
        if k.endswith(("prior", "weight")) and v is not None and fam != "gmm":
            got = attr(m, k)
            check_close(f"the parameter {k}", np.broadcast_to(
                np.asarray(got, float), np.shape(v)) if np.ndim(v) else got, v)
    # training starts from there
    if fam not in vb.BASE:
        m1 = new(n_iter=1, tol=-np.inf)
        m2 = new()
        m2.fit(X.copy(), list(lengths))
        runs.same_params("fit twice from the same state", runs.params(m2),
                         runs.params(m))
        s = runs.outcome(m.score, X, lengths)
        r = runs.outcome(m1.fit, X.copy(), list(lengths))
        if s[0] == "ok" and r[0] == "ok" and np.isfinite(s[1]):
            h = list(m1.monitor_.history)
            check_close("the first recorded log-likelihood", h[0], s[1],
                        rtol=1e-9, atol=1e-9)


# ------------------------------------------------------------ separated clusters

def check_clusters(spec, ctx):
    """The means found in data of well separated clusters are their centres."""
    fam, K, F, M = spec["fam"], spec["K"], spec["F"], spec["M"]
    rs = gen.rng(spec, 140)
    if fam != "gmm":
        M = 1
    # Centres on a line far apart, in a random direction.
    u = rs.randn(F)
    u /= np.linalg.norm(u)
    w = rs.randn(F)
    w /= np.linalg.norm(w)
    X, label = [], []
    for k in range(K):
        small = rs.rand() < .3
        for j in range(M):
            n = spec["per"] + (0 if small else rs.randint(4))
            c = 1000. * k * u + 30. * j * w + spec["offset"]
            X += list(c + rs.uniform(-1, 1, size=(n, F)))
            label += [(k, j)] * n
    if len(X) < 3:
        raise Skip
    order = rs.permutation(len(X))
    X = np.array(X)[order] * spec["unit"]
    label = [label[i] for i in order]
    centres = np.zeros((K, M, F))
    for k in range(K):
        for j in range(M):
            centres[k, j] = X[[x == (k, j) for x in label]].mean(axis=0)
    kw = {"n_mix": M} if fam == "gmm" else {}
    m = gen.new_model(dict(spec, M=M, impl="log"), n_iter=0,
                      random_state=spec["seed"] % 997, **kw)
    sut("fit", m.fit, X)
    got = attr(m, "means_posterior_" if fam == "vgauss" else "means_")
    got = check_array("means", got, (K, M, F) if fam == "gmm" else (K, F))
    got = got.reshape(K, M, F)
    ctx.label(fam, f"K{K}", f"M{M}")
    ctx.interesting(K > 1)
    left = list(range(K))
    tol = 1e-6 * spec["unit"] * (1 + abs(spec["offset"]) + 1000 * K)
    sizes = []
    for k in range(K):
        d = [np.abs(got[k].mean(axis=0) - centres[i].mean(axis=0)).max()
             for i in range(K)]
        i = int(np.argmin(d))
        if i not in left:
            fail(f"two states start in the same one of {K} separated clusters")
        left.remove(i)
        a = got[k][np.argsort(got[k] @ w)]
        b = centres[i][np.argsort(centres[i] @ w)]
        check_close(f"means of state {k}", a, b, atol=tol)
        sizes.append(sum(x[0] == i for x in label))
    if fam == "vgauss":
        check_close("beta_posterior_", attr(m, "beta_posterior_"), sizes)


@st.composite
def clusters(draw):
    return {"fam": gen.pick(draw, ["gauss", "gmm", "vgauss", "gmm"]),
            "K": draw(st.integers(1, 4)), "F": draw(st.integers(1, 4)),
            "M": draw(st.integers(1, 3)), "per": gen.pick(draw, [1, 1, 2, 3, 5, 8]),
            "cv": gen.pick(draw, ["full", "diag", "spherical", "tied"]),
            "offset": gen.pick(draw, [0., 0., -500., 1e4]),
            "unit": gen.pick(draw, [1., 1., 1e-3, 1e3]),
            "seed": draw(st.integers(0, 2**20))}


# ------------------------------------------------------------ randomness

def check_random(spec, ctx):
    """Random starts vary with the seed, with mean 1/n for every entry."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    n = spec["draws"]
    rs = gen.rng(spec, 150)
    if fam in ("cat", "vcat"):
        X = rs.randint(F, size=(12, 1))
        X[0] = F - 1
    elif fam == "mult":
        X = rs.multinomial(5, np.full(F, 1. / F), size=12)
    elif fam == "pois":
        X = rs.poisson(rs.uniform(1, 20), size=(12, F)) + 1
        X[0] += 1
    else:
        X = rs.randn(max(12, 3 * K), F)
    rows = {}
    for i in range(n):
        m = gen.new_model({"fam": fam, "K": K, "F": F, "cv": "diag", "M": 1,
                           "impl": "log", "_ntrials": None},
                          n_iter=0, random_state=spec["seed"] + i)
        if fam in ("gauss", "gmm", "vgauss"):
            m.init_params = "st"          # the means would take long
            m.means_ = np.zeros((K, F) if fam == "gauss" else (K, 1, F))
            m.covars_ = np.ones((K, F) if fam == "gauss" else (K, 1, F))
            if fam == "gmm":
                m.weights_ = np.ones((K, 1))
        sut("fit", m.fit, X, [5, len(X) - 5])
        for a in ("startprob", "transmat", "emissionprob", "lambdas"):
            name = a + ("_posterior_" if fam == "vcat" else "_")
            if not hasattr(m, name):
                continue
            v = check_array(name, attr(m, name), finite=True)
            if fam == "vcat":
                v = v - attr(m, a + "_prior_")
                v = v / v.sum(axis=-1, keepdims=True)
            rows.setdefault(name, []).append(v)
    ctx.label(fam)
    ctx.interesting(K > 1)
    for name, v in rows.items():
        v = np.array(v)
        if name == "lambdas_":
            if len(np.unique(v)) < v.size - 5:
                fail(f"initial {name} of {n} seeds are not all different")
            sd = v.std()
            check_close(f"mean of the initial {name} over {n} seeds",
                        v.mean(axis=0), np.full((K, F), X.mean()),
                        atol=7 * sd / np.sqrt(n) + 1e-9)
            continue
        D = v.shape[-1]
        if D == 1:
            continue
        flat = v.reshape(-1, D)
        if len(np.unique(np.round(flat, 12), axis=0)) < len(flat) / 8:
            fail(f"initial {name}: only {len(np.unique(flat, axis=0))} different "
                 f"rows in {len(flat)} draws")
        sd = np.sqrt((1. / D) * (1 - 1. / D))       # of the widest distribution
        check_close(f"mean of the initial {name} over {n} seeds", v.mean(axis=0),
                    np.full(v.shape[1:], 1. / D), atol=6.5 * sd / np.sqrt(n))
        if v.ndim == 3 and v.shape[1] > 1:
            same = (np.abs(v[:, 0] - v[:, 1]).max(axis=-1) < 1e-12).mean()
            if same > .5:
                fail(f"the first two rows of the initial {name} are always equal")


@st.composite
def randoms(draw):
    return {"fam": gen.pick(draw, ["cat", "mult", "pois", "gauss", "gmm", "vcat"]),
            "K": draw(st.integers(1, 5)), "F": draw(st.integers(1, 5)),
            "draws": 100, "seed": draw(st.integers(0, 2**20))}


# ------------------------------------------------------------ sparse counts

def check_poisson(spec, ctx):
    """Constant, sparse and large counts have usable starts, too."""
    rs = gen.rng(spec, 160)
    X = np.full((spec["T"], spec["F"]), spec["value"], dtype=int)
    for _ in range(spec["events"]):
        X[rs.randint(spec["T"]), rs.randint(spec["F"])] += spec["size"]
    m = gen.new_model(dict(spec, fam="pois"), n_iter=0,
                      random_state=spec["seed"] % 991)
    sut("fit", m.fit, X)
    lam = check_array("lambdas_", attr(m, "lambdas_"),
                      (spec["K"], spec["F"]), finite=True)
    if (lam <= 0).any():
        fail(f"initial lambdas_ are not positive: {lam.tolist()}")
    ctx.label("constant" if X.std() == 0 else "sparse" if spec["events"] < 4
              else "varied")
    ctx.interesting(True)
    if X.std() == 0 and X[0, 0]:
        check_close("lambdas_ of constant data", lam, np.full(lam.shape, X[0, 0]))


@st.composite
def counts(draw):
    return {"K": draw(st.integers(1, 4)), "F": draw(st.integers(1, 3)),
            "T": gen.pick(draw, [1, 2, 5, 60, 700, 3000]), "impl": "log",
            "value": gen.pick(draw, [0, 0, 1, 3, 10**6]),
            "events": draw(st.integers(0, 6)),
            "size": gen.pick(draw, [1, 5, 10**5]),
            "seed": draw(st.integers(0, 2**20))}


# ------------------------------------------------------------ constructors

ALPHA = string.ascii_letters
EM = [("startprob_prior", 1.0), ("transmat_prior", 1.0)]
VB = [("startprob_prior", None), ("transmat_prior", None)]


def rest(n_iter, tol, codes, early=()):
    return [("algorithm", "viterbi"), *early, ("random_state", None),
            ("n_iter", n_iter), ("tol", tol), ("verbose", False), ("params", codes),
            ("init_params", codes), ("implementation", "log")]


# The documented arguments in the order of the signature, with their defaults.
ARGUMENTS = {
    "base": [("n_components", 1), *EM, *rest(10, 1e-2, ALPHA)],
    "vbase": [("n_components", 1), *VB, *rest(100, 1e-6, "ste")],
    "cat": [("n_components", 1), *EM, "*", ("emissionprob_prior", 1.0),
            ("n_features", None), *rest(10, 1e-2, "ste")],
    "gauss": [("n_components", 1), ("covariance_type", "diag"), ("min_covar", 1e-3), *EM,
              ("means_prior", 0), ("means_weight", 0), ("covars_prior", 1e-2),
              ("covars_weight", 1), *rest(10, 1e-2, "stmc")],
    "gmm": [("n_components", 1), ("n_mix", 1), ("min_covar", 1e-3), *EM,
            ("weights_prior", 1.0), ("means_prior", 0.0), ("means_weight", 0.0),
            ("covars_prior", None), ("covars_weight", None),
            *rest(10, 1e-2, "stmcw", [("covariance_type", "diag")])],
    "mult": [("n_components", 1), ("n_trials", None), *EM, *rest(10, 1e-2, "ste")],
    "pois": [("n_components", 1), *EM, ("lambdas_prior", 0.0), ("lambdas_weight", 0.0),
             *rest(10, 1e-2, "stl")],
    "vcat": [("n_components", 1), *VB, ("emissionprob_prior", None), ("n_features", None),
             *rest(100, 1e-6, "ste")],
    "vgauss": [("n_components", 1), ("covariance_type", "full"), *VB, ("means_prior", None),
               ("beta_prior", None), ("dof_prior", None), ("scale_prior", None),
               *rest(100, 1e-6, "stmc")],
}
OTHER = {"algorithm": "map", "covariance_type": "tied", "verbose": True, "params": "t",
         "init_params": "s", "implementation": "scaling"}


def check_arguments(spec, ctx):
    """Arguments arrive where they belong, and the others have their defaults."""
    from hmmlearn import base
    fam = spec["fam"]
    C = {"base": base.BaseHMM, "vbase": base.VariationalBaseHMM}.get(fam)
    C = C or gen.cls(fam)
    table = ARGUMENTS[fam]
    most = table.index("*") if "*" in table else len(table)
    table = [a for a in table if a != "*"]
    rs = gen.rng(spec, 170)
    want = {}
    for i, (name, default) in enumerate(table):
        want[name] = default
        if i < spec["position"] or rs.rand() < spec["given"]:
            want[name] = OTHER.get(name, int(rs.randint(2, 99)))
    n = min(spec["position"], most)
    args = [want[a] for a, _ in table[:n]]
    kw = {a: want[a] for a, d in table[n:] if want[a] is not d}
    m = sut(f"{C.__name__}(*{args}, **{kw})", C, *args, **kw)
    for how, x in ("constructed", m), ("cloned", clone(m)), ("copied", copy.deepcopy(m)):
        got = x.get_params()
        if set(want) - set(got):
            fail(f"{C.__name__} {how}: arguments are {sorted(got)}")
        for a, v in want.items():
            if got[a] != v or getattr(x, a) != v:
                fail(f"{C.__name__}(*{args}, **{kw}) {how}: {a} is {got[a]!r}, "
                     f"expected {v!r}")
        for a in ("tol", "n_iter", "verbose"):
            if getattr(x.monitor_, a) != want[a]:
                fail(f"{C.__name__}(*{args}, **{kw}) {how}: monitor_.{a} is "
                     f"{getattr(x.monitor_, a)!r}")
    ctx.label(fam, f"{n} by position", f"{len(kw)} by name")
    ctx.interesting(True)


def arguments():
    return st.fixed_dictionaries({
        "fam": st.sampled_from(sorted(ARGUMENTS)),
        "position": st.one_of(st.just(0), st.just(1), st.integers(0, 18)),
        "given": st.sampled_from([0., .1, .3, .7]), "seed": st.integers(0, 2**20)})


FACETS = [
    Facet("starts", strategy, check, 3000),
    Facet("clusters", clusters, check_clusters, 800),
    Facet("random", randoms, check_random, 200),
    Facet("counts", counts, check_poisson, 500),
    Facet("arguments", arguments, check_arguments, 1000),
]
