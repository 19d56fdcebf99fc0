"""The representation of data, lengths and parameters does not matter."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, runs, vb
from lib.core import (Facet, Skip, attr, check_array, check_close, check_same,
                      fail, sut)

from .c03 import check_path

RULE = ("generated model and data whose values are exact in the drawn dtypes, "
        "given as plain C-contiguous arrays and again as lists, Fortran-ordered, "
        "strided, reversed, read-only, unaligned, big-endian or other-dtype "
        "arrays; non-trivial: some argument is not a plain array")

LAYOUTS = ["plain", "list", "tuple", "F", "strided", "reversed", "readonly",
           "unaligned", "view", "swapped"]
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
LENGTH_REPS = ["list", "tuple", "int", "i1", "u1", "i2", "i4", "u4", "u8",
               "readonly", "strided", "scalars", "small scalars"]
NARROW = ["i1", "u1", "small scalars"]


def represent(a, layout, dtype=None):
    """The same values in another representation."""
    a = np.ascontiguousarray(a)
    if dtype is not None:
        b = a.astype(dtype)
        if not np.array_equal(b, a):
            raise Skip
        a = b
    if layout == "list":
        return a.tolist()
    if layout == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist())
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full(tuple(3 * n for n in a.shape), 7).astype(a.dtype)
        b[(slice(1, None, 3),) * a.ndim] = a
        return b[(slice(1, None, 3),) * a.ndim]
    if layout == "reversed":
        r = (slice(None, None, -1),) * a.ndim
        return a[r].copy()[r]
    if layout == "unaligned":
        raw = np.zeros(a.nbytes + 1, "u1")
        b = raw[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b
    if layout == "view":              # part of a larger array
        b = np.full(tuple(n + 2 for n in a.shape), 9).astype(a.dtype)
        b[(slice(1, -1),) * a.ndim] = a
        return b[(slice(1, -1),) * a.ndim]
    if layout == "swapped":
        return a.astype(a.dtype.newbyteorder())
    a = a.copy()
    if layout == "readonly":
        a.flags.writeable = False
    return a


def lengths_as(lengths, rep):
    if rep == "list":
        return list(lengths)
    if rep == "tuple":
        return tuple(lengths)
    if rep == "int":
        return np.array(lengths)
    if rep == "scalars":
        return [np.int32(v) for v in lengths]
    if rep in ("readonly", "strided"):
        return represent(np.array(lengths), rep)
    if rep == "small scalars":
        if max(lengths) > 127:
            raise Skip
        return [np.int8(v) for v in lengths]
    if max(lengths) > np.iinfo(rep).max:
        raise Skip
    return np.array(lengths, dtype=rep)


def integral(P, spec):
    """Means, rates and covariances that integers hold exactly."""
    Q, fam, K, F = dict(P), spec["fam"], spec["K"], spec["F"]
    if "lam" in Q:
        Q["lam"] = np.maximum(1., np.round(Q["lam"]))
    if "means" in Q:
        Q["means"] = np.round(Q["means"])
    if "native" in Q:
        cov = np.asarray(Q["native"])
        if spec["cv"] in ("full", "tied"):
            cov = np.eye(F) * np.ceil(np.diagonal(
                cov, axis1=-2, axis2=-1))[..., None]
        Q["native"] = np.ceil(cov)
        if fam == "gauss":
            cov = Q["native"]
            Q["cov"] = {
                "full": lambda: cov, "tied": lambda: np.tile(cov, (K, 1, 1)),
                "diag": lambda: cov[:, :, None] * np.eye(F),
                "spherical": lambda: cov[:, None, None] * np.eye(F),
            }[spec["cv"]]()
        else:
            Q["cov"] = gen.native_to_full("gmm", spec["cv"], Q["native"], K, F,
                                          spec["M"])
    return Q


NAMES = {"start": "startprob_", "trans": "transmat_", "emis": "emissionprob_",
         "lam": "lambdas_", "weights": "weights_", "means": "means_",
         "native": "covars_"}
ORDER = ["start", "trans", "weights", "emis", "lam", "means", "native"]


def build(spec):
    """Parameters and data that all drawn dtypes represent exactly."""
    fam = spec["fam"]
    P, X, lengths = gen.case(spec)
    if spec["pdtype"] == "int":
        P = integral(P, spec)
    X = np.asarray(X)
    dt = spec["xdtype"]
    if fam in ("gauss", "gmm", "vgauss"):
        if dt.startswith(("i", "u")):
            X = np.round(X * spec["stretch"])
            lim = {"i1": 120, "u1": 250}.get(dt, 32000)
            X = np.clip(X, -lim if dt[0] == "i" else 0, lim)
        elif dt == "f4":
            X = X.astype("f4")
        X = X.astype(float)
    elif dt == "f4":
        dt = "i4"
    if fam not in ("gauss", "gmm", "vgauss") and dt.startswith("f"):
        dt = "i8"
    return P, X, lengths, dt


def assign(spec, model, P, layout, dtype, given):
    for k in ORDER:
        if k in P:
            a = np.asarray(P[k], float)
            whole = dtype == "int" and (a == np.round(a)).all()
            v = represent(a, layout, int if whole else None)
            given.append((NAMES[k], v, snapshot(v)))
            setattr(model, NAMES[k], v)
    return model


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    import copy
    return copy.deepcopy(v)


def untouched(given):
    for name, v, old in given:
        if isinstance(v, np.ndarray):
            check_same(f"the caller's {name}", v, old)
        elif v != old:
            fail(f"the caller's {name} was modified")


@st.composite
def strategy(draw, fams=gen.EMF, **kw):
    spec = draw(gen.specs(fams, regimes=(75, 97), max_T=120, kmax=6,
                          xmodes=("model", "model", "uniform"), **kw))
    spec["xlayout"] = gen.pick(draw, LAYOUTS)
    spec["xdtype"] = gen.pick(draw, ["f8", "f8", "f4", *INTS])
    spec["stretch"] = gen.pick(draw, [1., 8., 40.])
    spec["playout"] = gen.pick(draw, ["plain", *LAYOUTS])
    spec["pdtype"] = gen.pick(draw, ["f8", "f8", "int"])
    spec["lrep"] = gen.pick(draw, LENGTH_REPS)
    if spec["lrep"] in NARROW and spec["lmode"] != "one" and draw(st.booleans()):
        # More samples in total than the type of the lengths can count.
        spec["T"] = draw(st.integers(130, 420))
        spec["K"] = min(spec["K"], 4)
        spec["nseq"] = max(spec["nseq"], spec["T"] // 40)
    spec["prior"] = gen.pick(draw, ["flat", "scalar", "array", "array"])
    return spec


def label(spec, ctx, dt):
    ctx.label(spec["fam"], "X " + spec["xlayout"], "X " + dt, "P " + spec["playout"],
              "P " + spec["pdtype"], "lengths " + spec["lrep"])
    ctx.interesting(spec["xlayout"] != "plain" or dt not in ("f8", "i8")
                    or spec["playout"] != "plain" or spec["pdtype"] != "f8")


def check_queries(spec, ctx):
    P, X, lengths, dt = build(spec)
    fam, K = spec["fam"], spec["K"]
    if fam == "mult":
        spec["_ntrials"] = X.sum(axis=1) if spec.get("vary") else spec["n"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    label(spec, ctx, dt)
    given = []
    s2 = dict(spec)
    if fam == "mult" and np.ndim(spec["_ntrials"]):
        s2["_ntrials"] = represent(spec["_ntrials"], ["plain", "readonly", "strided"][
            spec["seed"] % 3])
    m = assign(spec, gen.new_model(s2, init_params=""), P, spec["playout"],
               spec["pdtype"], given)
    Y = represent(X, spec["xlayout"], dt)
    L = lengths_as(lengths, spec["lrep"])
    given += [("X", Y, snapshot(Y)), ("lengths", L, snapshot(L))]
    ll = sut("score", m.score, Y, L)
    check_close("score", ll, full.loglik, atol=full.tol)
    ll, post = sut("score_samples", m.score_samples, Y, L)
    check_close("score_samples()[0]", ll, full.loglik, atol=full.tol)
    check_close("posteriors", post, full.gamma, atol=full.gtol)
    for alg in ("viterbi", "map"):
        v, q = sut("decode", m.decode, Y, L, algorithm=alg)
        q = check_path("path", q, len(X), K)
        if alg == "viterbi":
            best = sum(O.viterbi_value(full.lstart, full.ltrans, full.lb[s])
                       for s in O.split(lengths))
            check_close("viterbi log_prob", v, best, atol=full.tol)
    check_path("predict", sut("predict", m.predict, Y, L), len(X), K)
    check_close("predict_proba", sut("predict_proba", m.predict_proba, Y, L),
                full.gamma, atol=full.gtol)
    if fam != "mult" or np.ndim(spec["_ntrials"]) == 0:
        plain = gen.set_params(gen.new_model(spec, init_params=""), fam, P)
        (xa, za), (xb, zb) = (sut("sample", o.sample, 8, random_state=3)
                              for o in (m, plain))
        check_same("sampled states", za, zb)
        check_close("samples", xa, xb, rtol=1e-9,
                    atol=1e-9 * (1 + np.abs(np.asarray(xb, float)).max()))
    p = sut("get_stationary_distribution",
            (plain if spec["playout"] in ("list", "tuple") and fam != "mult"
             else m).get_stationary_distribution) if spec["playout"] not in (
                 "list", "tuple") else None
    if p is not None and p.shape != (K,):
        fail(f"stationary distribution of shape {p.shape}")
    untouched(given)


def check_fit(spec, ctx):
    P, X, lengths, dt = build(spec)
    fam = spec["fam"]
    if fam == "mult":
        spec["_ntrials"] = X.sum(axis=1) if spec.get("vary") else spec["n"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    label(spec, ctx, dt)
    pri = em.priors(spec, spec["prior"])
    if spec["pdtype"] == "int":       # as in means_prior=0, means_weight=1
        pri = {k: np.ceil(v).astype(int) if np.ndim(v) else int(np.ceil(v))
               for k, v in pri.items()}
    params = gen.CODES[fam]
    want, info = em.expected(spec, P, X, lengths, full, pri, params)
    if "start_raw" in info and info["start_raw"].sum() < 1e-6:
        raise Skip
    given, kw = [], {}
    for k, v in pri.items():
        if np.ndim(v):
            v = represent(np.asarray(v), ["plain", "readonly", "F", "strided"][
                spec["seed"] % 4])
            given.append((k, v, snapshot(v)))
        kw[k] = v
    m = assign(spec, gen.new_model(spec, init_params="", n_iter=1, tol=-np.inf, **kw),
               P, spec["playout"], spec["pdtype"], given)
    Y = represent(X, spec["xlayout"], dt)
    L = lengths_as(lengths, spec["lrep"])
    given += [("X", Y, snapshot(Y)), ("lengths", L, snapshot(L))]
    sut("fit", m.fit, Y, L)
    got = em.read(m, spec)
    judged = em.compare(got, want, info, spec, X, full, params, params, 1., pri)
    check_close("history[0]", list(m.monitor_.history)[0], full.loglik, atol=full.tol)
    untouched(given)
    if judged:
        ctx.label("judged")


def check_init(spec, ctx):
    """Initialization from the data, plain and represented."""
    fam0 = spec["fam"]
    spec = dict(spec, fam=vb.BASE.get(fam0, fam0))
    P, X, lengths, dt = build(dict(spec, pdtype="f8"))
    if spec["fam"] == "mult":
        spec["_ntrials"] = X.sum(axis=1) if spec.get("vary") else spec["n"]
    spec["fam"] = fam0
    if spec["fam"] in ("gauss", "gmm", "vgauss"):
        if len(np.unique(X, axis=0)) < spec["K"] * spec.get("M", 1) or len(X) < 2:
            raise Skip
    if spec["fam"] == "pois" and X.var() == 0:
        raise Skip
    spec = dict(spec, playout="plain", pdtype="f8")
    label(spec, ctx, dt)
    Y = represent(X, spec["xlayout"], dt)
    L = lengths_as(lengths, spec["lrep"])
    given = [("X", Y, snapshot(Y)), ("lengths", L, snapshot(L))]
    plain = X if spec["fam"] in ("gauss", "gmm", "vgauss") else X.astype(int)
    out = []
    for Z, W in ((plain, lengths), (Y, L)):
        m = gen.new_model(spec, n_iter=0, random_state=spec["seed"] % 1000)
        r = runs.outcome(m.fit, Z, W)
        out.append((r[0] if r[0] == "ok" else r, runs.params(m)))
    if out[0][0] != out[1][0]:
        fail(f"fit() of the same data: {out[0][0]} versus {out[1][0]}")
    untouched(given)
    if out[0][0] != "ok":
        return
    a, b = out[0][1], out[1][1]
    if sorted(a) != sorted(b):
        fail(f"attributes {sorted(a)} versus {sorted(b)}")
    xs = np.abs(X).max() + 1
    for k in a:
        if dt == "f4" and spec["fam"] in ("gauss", "gmm", "vgauss"):
            # k-means of float32 data is computed in float32, where ties
            # between clusterings may be broken differently.
            if np.shape(a[k]) != np.shape(b[k]):
                fail(f"initial {k} has shape {np.shape(b[k])}, expected "
                     f"{np.shape(a[k])}")
            continue
        check_close(f"initial {k}", b[k], a[k], rtol=1e-9,
                    atol=1e-10 * (xs ** 2 if "cov" in k or "scale" in k else xs))


def check_vb(spec, ctx):
    """Variational training with represented data, posteriors and priors."""
    fam0 = spec["fam"]
    s = dict(spec, fam=vb.BASE[fam0], pdtype="f8")
    P, X, lengths, dt = build(s)
    if fam0 == "vcat":
        X = X.astype(int)
    if not vb.distinct_enough(spec, X):
        raise Skip
    sp = dict(spec, prior="array" if spec["prior"] == "array" else "default")
    kw, prior = vb.priors(sp, X)
    Q = vb.posterior(sp, X)
    full = vb.estep(sp, Q, X, lengths)
    if (not full.possible or full.gtol > 1e-7 or vb.conditioning(sp, Q) > 1e5
            or spec["impl"] == "scaling" and full.scaling_status() != "ok"):
        raise Skip
    label(spec, ctx, dt)
    given, kw2 = [], {}
    for k, v in kw.items():
        if np.ndim(v):
            v = represent(np.asarray(v), ["plain", "readonly", "F", "strided"][
                spec["seed"] % 4])
            given.append((k, v, snapshot(v)))
        kw2[k] = v
    Y = represent(X, spec["xlayout"], dt)
    L = lengths_as(lengths, spec["lrep"])
    given += [("X", Y, snapshot(Y)), ("lengths", L, snapshot(L))]
    out = []
    for rep in (False, True):
        m = vb.new_model(sp, kw2 if rep else kw, init_params="", n_iter=1, tol=-np.inf)
        vb.assign(m, prior, Q)
        if rep:
            for k, v in Q.items():
                if np.ndim(v):
                    v = represent(np.asarray(v, float), spec["playout"])
                    n = vb.ATTR[k] + "_posterior_"
                    given.append((n, v, snapshot(v)))
                    setattr(m, n, v)
        sut("fit", m.fit, Y if rep else X, L if rep else lengths)
        out.append((vb.read(m, prior), list(m.monitor_.history)[0]))
    xs = np.abs(X).max() + 1
    g = (1e-11 + 8 * full.rtol) * len(X)
    for k in out[0][0]:
        scale = {"means": xs * 10, "scale": xs ** 2 * 10}.get(k, 1.)
        check_close(f"posterior of {k}", out[1][0][k], out[0][0][k], rtol=1e-9,
                    atol=1e-9 + (g + 1e-13 * len(X)) * scale)
    check_close("lower bound", out[1][1], out[0][1], atol=4 * full.tol, rtol=1e-10)
    untouched(given)


EXTREME = {"i1": [127, 126, 100], "u1": [255, 254, 200, 128], "i2": [32767, 300, 255],
           "u2": [300, 256, 33000], "i4": [70000], "u4": [70000]}


def check_extreme(spec, ctx):
    """Data that use the whole range of a narrow dtype, untrained sizes included."""
    from hmmlearn import hmm, vhmm
    fam, dt = spec["fam"], spec["dt"]
    rs = gen.rng(spec, 170)
    top = EXTREME[dt][spec["top"] % len(EXTREME[dt])]
    K, T = spec["K"], spec["T"]
    lengths = gen.build_lengths(spec)
    kw = dict(n_components=K, n_iter=2, tol=-np.inf, random_state=spec["seed"] % 97,
              implementation="log")
    if fam in ("cat", "vcat"):
        X = rs.choice([0, 1, 2, top - 1, top], size=(T, 1))
        X[rs.randint(T)] = top
        new = lambda: (hmm.CategoricalHMM if fam == "cat"
                       else vhmm.VariationalCategoricalHMM)(**kw)
    elif fam == "mult":
        n = 2 * top
        a = rs.randint(0, top + 1, size=T)
        X = np.stack([np.minimum(a, top), np.minimum(n - a, top)], axis=1)
        X = np.c_[X, n - X.sum(axis=1)]
        if X.max() > np.iinfo(dt).max:
            raise Skip
        new = lambda: hmm.MultinomialHMM(n_trials=None if spec["top"] % 2 else n, **kw)
    else:
        X = rs.choice([0, 1, top - 1, top], size=(T, spec["F"]))
        X[rs.randint(T)] = top
        if X.var() == 0:
            raise Skip
        cls = {"pois": hmm.PoissonHMM, "gauss": hmm.GaussianHMM}[fam]
        if fam == "gauss":
            if len(np.unique(X, axis=0)) < K or T < 3:
                raise Skip
            kw.update(covariance_type=spec["cv"], min_covar=top ** 2 * 1e-2,
                      covars_prior=float(top) ** 2)
        new = lambda: cls(**kw)
    out = []
    for Z in (X.astype(np.int64), X.astype(dt)):
        m = new()
        if not out:               # dead states cannot be scored, for example
            if "raised" in (runs.outcome(m.fit, Z, lengths)[0],
                            runs.outcome(m.score, Z, lengths)[0]):
                raise Skip
            m = new()
        sut(f"fit of {Z.dtype} data", m.fit, Z, lengths)
        got = runs.params(m)
        got["n_features"] = m.n_features
        got["score"] = sut("score", m.score, Z, lengths)
        got["posteriors"] = sut("predict_proba", m.predict_proba, Z, lengths)
        got["history"] = np.array(m.monitor_.history)
        if hasattr(m, "bic"):
            got["bic"] = sut("bic", m.bic, Z, lengths)
        out.append(got)
    a, b = out
    if sorted(a) != sorted(b):
        fail(f"attributes {sorted(a)} versus {sorted(b)}")
    for k in a:
        x = np.asarray(a[k], float)
        if not np.isfinite(x).all():
            raise Skip
        check_close(f"{k} ({dt} data up to {top})", b[k], a[k], rtol=1e-7,
                    atol=1e-9 * (1 + np.abs(x).max()))
    if fam in ("cat", "vcat"):
        if b["n_features"] != top + 1:
            fail(f"n_features is {b['n_features']!r} for symbols up to {top}")
    ctx.label(fam, dt, f"top={top}")
    ctx.interesting()


@st.composite
def especs(draw):
    fam = gen.pick(draw, ["cat", "vcat", "mult", "pois", "gauss"])
    dt = gen.pick(draw, list(EXTREME))
    return {"fam": fam, "dt": dt, "top": draw(st.integers(0, 5)),
            "K": draw(st.integers(1, 3)), "F": draw(st.integers(1, 3)),
            "T": draw(st.integers(2, 12)), "seed": draw(st.integers(0, 2**20)),
            "cv": gen.pick(draw, gen.CVS), "nseq": draw(st.integers(1, 3)),
            "lmode": gen.pick(draw, ["one", "cuts", "ones"])}


@st.composite
def vspecs(draw):
    fam = gen.pick(draw, ["vcat", "vgauss"])
    spec = draw(strategy([vb.BASE[fam]], emodes=gen.SAFE_EMODES, min_T=3))
    spec.update(fam=fam, qscale=1.)
    return spec


@st.composite
def ispecs(draw):
    fam = gen.pick(draw, gen.EMF + ["vcat", "vgauss", "gauss", "gmm"])
    spec = draw(strategy([vb.BASE.get(fam, fam)], min_T=2))
    spec["fam"] = fam
    return spec


FACETS = [
    Facet("queries", strategy, check_queries, 1500),
    Facet("training", strategy, check_fit, 1500),
    Facet("initialization", ispecs, check_init, 500),
    Facet("variational", vspecs, check_vb, 500),
    Facet("extreme", especs, check_extreme, 300),
]
