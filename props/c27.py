"""Memory safety of the compiled extension, on an ASan/UBSan build."""
import copy

import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle as O, runs, vb
from lib.core import (Facet, Skip, check_array, check_close, check_same, fail,
                      sut)

TECHNIQUE = ("fuzzing of the public API with generated valid and corrupted "
             "calls on an AddressSanitizer/UBSan build, memory poisoning")
RULE = ("generated calls of every public method with valid or corrupted "
        "parameters, data and lengths on an ASan+UBSan build with assertions; "
        "every call runs twice with differently poisoned memory and must give "
        "the same bits; non-trivial: the native code was entered")
ASSUMPTIONS = ["only the extension is instrumented; numpy's own native code is "
               "trusted", "reads inside a caller's larger buffer are seen by "
               "comparison with the reference only"]


# ------------------------------------------------------------ instrumentation

ENTERED = [0]


def count_native():
    """Count calls of the extension (delegating wrappers, same semantics)."""
    from hmmlearn import _hmmc
    if getattr(_hmmc, "_counted", False):
        return
    for name in dir(_hmmc):
        f = getattr(_hmmc, name)
        if name.startswith("_") or not callable(f):
            continue

        def wrap(*a, _f=f, **k):
            ENTERED[0] += 1
            return _f(*a, **k)
        setattr(_hmmc, name, wrap)
    _hmmc._counted = True


def poison(sizes, value):
    """Leave blocks full of *value* in numpy's cache of small allocations."""
    for n in sizes:
        n = int(n)
        if 0 < n <= 4096:
            blocks = [np.full(n, value) for _ in range(8)]
            del blocks


def bits(v):
    if isinstance(v, (tuple, list)):
        return [bits(x) for x in v]
    if isinstance(v, dict):
        return {k: bits(x) for k, x in v.items()}
    a = np.asarray(v)
    if a.dtype == object:
        return repr(type(v))
    if a.dtype.kind in "fc":
        a = np.where(np.isnan(a), np.nan, a)       # any NaN is a NaN
    return a.shape, a.dtype.str, a.tobytes()


def twice(what, model, call, sizes):
    """The same call on equal models in differently poisoned memory."""
    got = []
    for value in (np.nan, -1e300):
        m = copy.deepcopy(model)
        poison(sizes, value)
        r = runs.outcome(call, m)
        st_ = runs.outcome(runs.params, m)[1] if r[0] == "ok" else {}
        st_ = st_ if isinstance(st_, dict) else {}    # corrupted: not readable
        got.append((r[0], bits(r[1]) if r[0] == "ok" else r[1], bits(st_)))
    if got[0][0] != got[1][0] or got[0][1] != got[1][1]:
        fail(f"{what} depends on uninitialized memory: "
             f"{str(got[0][:2])[:300]} versus {str(got[1][:2])[:300]}")
    if got[0][2] != got[1][2]:
        bad = [k for k in got[0][2] if got[0][2].get(k) != got[1][2].get(k)]
        fail(f"{what} leaves parameters that depend on uninitialized memory: {bad}")
    return got[0][0]


def sizes_of(K, lengths):
    out = {K, K * K}
    for n in lengths:
        out |= {n, n * K, n + 1, n * K + 1, n * K - 1}
    return sorted(out)


# ------------------------------------------------------------ valid calls

METHODS = ["score", "score_samples", "predict", "predict_proba", "viterbi",
           "map", "fit", "sample", "stationary", "aic", "bic"]


def call_of(name, X, lengths):
    if name == "fit":
        return lambda m: m.fit(X, lengths) and None
    return lambda m: runs.query(m, X, lengths, name)


def valid_specs():
    return gen.specs(
        regimes=(70, 97), max_T=300,
        extra=st.fixed_dictionaries({"methods": st.lists(
            st.sampled_from(METHODS), min_size=1, max_size=4)}))


def check_valid(spec, ctx):
    """In fresh poisoned memory the results are still the right ones."""
    count_native()
    P, X, lengths = gen.case(spec)
    full = O.Full(spec["fam"], P, X, lengths)
    m = gen.make_model(spec, P, n_iter=2, tol=-np.inf)
    ctx.label(spec["fam"], spec["impl"], *spec["methods"])
    ENTERED[0] = 0
    sz = sizes_of(spec["K"], lengths)
    for name in spec["methods"]:
        twice(name, m, call_of(name, X, lengths), sz)
    if (full.possible and full.gtol < 1e-5
            and (spec["impl"] == "log" or full.scaling_status() == "ok")):
        for value in (np.nan, 1e300):
            poison(sz, value)
            ll, post = sut("score_samples", m.score_samples, X, lengths)
            check_close("score", ll, full.loglik, atol=full.tol)
            check_close("posteriors", post, full.gamma, atol=full.gtol)
            poison(sz, value)
            v, path = sut("decode", m.decode, X, lengths, algorithm="viterbi")
            path = np.asarray(path)
            if path.shape != (len(X),) or path.min() < 0 or path.max() >= spec["K"]:
                fail(f"path {path[:20]}")
            best = sum(O.viterbi_value(full.lstart, full.ltrans, full.lb[s])
                       for s in O.split(lengths))
            check_close("viterbi log_prob", v, best, atol=full.tol)
    ctx.interesting(ENTERED[0] > 0)


def check_variational(spec, ctx):
    count_native()
    P, X, lengths = vb.case(spec)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    m = vb.new_model(spec, kw, init_params="", n_iter=2, tol=-np.inf)
    vb.assign(m, prior, Q)
    ctx.label(spec["fam"], spec["impl"])
    ENTERED[0] = 0
    twice("fit", m, call_of("fit", X, lengths), sizes_of(spec["K"], lengths))
    ctx.interesting(ENTERED[0] > 0)


# ------------------------------------------------------------ corrupted calls

MANGLE = ["dtype", "strided", "reversed", "fortran", "unaligned", "empty0",
          "empty1", "crop0", "crop1", "extend0", "extend1", "flat", "deeper",
          "scalar", "none", "list", "nan", "inf", "huge", "negative",
          "broadcast", "transposed", "masked", "matrix", "swap", "repeat",
          "junk", "readonly", "zero"]
LENGTHS = ["none", "empty", "zero", "zero_first", "zero_last", "negative",
           "more", "less", "float", "ones", "nested", "overflow", "uint8",
           "strings", "generator", "scalar", "bool", "object", "perm"]
TARGETS = ["X", "X", "lengths", "param", "param", "n_components", "option"]


def mangle(rs, a, kind):
    a = np.array(a)
    try:
        if kind == "dtype":
            dt = ["f2", "f4", "i1", "u1", "i8", "u8", "?", "c16", "O", ">f8",
                  ">i4", "g", "U8", "S4", "M8[s]"][rs.randint(15)]
            with np.errstate(all="ignore"):
                return a.astype(dt)
        if kind == "strided":
            b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
            b[(slice(None, None, 2),) * a.ndim] = a
            return b[(slice(None, None, 2),) * a.ndim]
        if kind == "reversed":
            return np.ascontiguousarray(a[::-1])[::-1]
        if kind == "fortran":
            return np.asfortranarray(a)
        if kind == "unaligned":
            raw = np.zeros(a.nbytes + 1, "u1")
            b = raw[1:].view(a.dtype).reshape(a.shape)
            b[...] = a
            return b
        if kind == "empty0":
            return a[:0]
        if kind == "empty1":
            return a[..., :0]
        if kind == "crop0":
            return a[:-1]
        if kind == "crop1":
            return a[..., :-1]
        if kind == "extend0":
            return np.concatenate([a, a[:1]])
        if kind == "extend1":
            return np.concatenate([a, a[..., :1]], axis=-1)
        if kind == "flat":
            return a.ravel()
        if kind == "deeper":
            return a[None] if rs.randint(2) else a[..., None]
        if kind == "scalar":
            return a.ravel()[0]
        if kind == "none":
            return None
        if kind == "list":
            return a.tolist()
        if kind in ("nan", "inf", "huge", "negative"):
            b = a.astype(float)
            b.flat[rs.randint(b.size)] = {
                "nan": np.nan, "inf": rs.choice([np.inf, -np.inf]),
                "huge": 1e308, "negative": -1}[kind]
            if kind == "negative" and a.dtype.kind in "iu":
                b = b.astype(int)
            return b
        if kind == "broadcast":
            return np.broadcast_to(a[:1], a.shape)
        if kind == "transposed":
            return a.T
        if kind == "masked":
            return np.ma.masked_array(a, rs.rand(*a.shape) < .3)
        if kind == "matrix":
            return np.matrix(a.reshape(len(a), -1))
        if kind == "swap":
            return a.byteswap()
        if kind == "repeat":
            return np.repeat(a, 3, axis=0)
        if kind == "junk":
            return ["text", object(), {1: 2}, (i for i in range(3)), b"x",
                    np.datetime64("2020"), -1][rs.randint(7)]
        if kind == "readonly":
            a.flags.writeable = False
            return a
        if kind == "zero":
            return np.zeros_like(a)
    except Exception:  # noqa: BLE001  (not applicable to this array)
        return a
    return a


def mangle_lengths(rs, lengths, kind):
    n = sum(lengths)
    return {"none": None, "empty": [], "zero": [0], "zero_first": [0, *lengths],
            "zero_last": [*lengths, 0], "negative": [n + 2, -2],
            "more": [*lengths, 1], "less": lengths[:-1] + [lengths[-1] - 1],
            "float": [float(v) for v in lengths], "ones": [1] * n,
            "nested": [lengths], "overflow": [2**62, 2**62, 2**62, 2**62],
            "uint8": np.array([v % 256 for v in lengths], "u1"),
            "strings": [str(v) for v in lengths],
            "generator": lengths, "scalar": n,
            "bool": [True] * n, "object": np.array(lengths, object),
            "perm": lengths[::-1]}[kind]


@st.composite
def corrupted(draw):
    fams = gen.EMF + ["vcat", "vgauss"]
    fam = gen.pick(draw, fams)
    base = vb.BASE.get(fam, fam)
    spec = draw(gen.specs([base], regimes=(80, 100), max_T=40, kmax=8, min_T=1,
                          extra=st.fixed_dictionaries({
                              "prior": st.just("default"),
                              "qscale": st.just(1.)})))
    spec["family"] = fam
    spec["ops"] = draw(st.lists(st.fixed_dictionaries({
        "target": st.sampled_from(TARGETS), "which": st.integers(0, 30),
        "kind": st.integers(0, 200)}), min_size=1, max_size=3))
    spec["methods"] = draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=3))
    spec["early"] = draw(st.integers(0, 3))
    return spec


def check_corrupted(spec, ctx):
    count_native()
    P, X, lengths = gen.case(spec)
    fam, K = spec["family"], spec["K"]
    rs = gen.rng(spec, 170)
    s = dict(spec, fam=fam)
    if fam in vb.BASE:
        kw, prior = vb.priors(s, X)
        m = vb.new_model(s, kw, init_params="", n_iter=2, tol=-np.inf)
        vb.assign(m, prior, vb.posterior(s, X))
        if spec["early"]:
            runs.outcome(m.fit, X, lengths)
    else:
        m = gen.make_model(spec, P, n_iter=2, tol=-np.inf)
    names = [n for n in runs.DOC if hasattr(m, n)]
    if not spec["early"]:                # used before it is corrupted
        runs.outcome(m.score, X, lengths)
    for op in spec["ops"]:
        t = op["target"]
        kind = MANGLE[op["kind"] % len(MANGLE)]
        if t == "X":
            X = mangle(rs, X, kind)
        elif t == "lengths":
            kind = LENGTHS[op["kind"] % len(LENGTHS)]
            if (isinstance(lengths, list) and lengths
                    and all(type(v) is int and 0 < v < 1000 for v in lengths)):
                lengths = mangle_lengths(rs, lengths, kind)
        elif t == "param":
            n = names[op["which"] % len(names)]
            try:
                old = getattr(m, n)
                new = mangle(rs, old, kind)
                hidden = rs.randint(3) == 0 and hasattr(m, "_" + n)
                setattr(m, ("_" if hidden else "") + n, new)
            except Exception:  # noqa: BLE001
                pass
            ctx.label(n)
        elif t == "n_components":
            kind = "n_components"
            m.n_components = [K + 1, K - 1, 0, -1, 1, 50, 2.0, None][op["kind"] % 8]
        else:
            kind = "option"
            a, v = [("implementation", "log"), ("implementation", "scaling"),
                    ("algorithm", "map"), ("covariance_type", "full"),
                    ("covariance_type", "spherical"), ("covariance_type", "tied"),
                    ("covariance_type", "diag"), ("n_features", 1),
                    ("n_features", 7), ("n_mix", 1), ("n_mix", 4),
                    ("n_trials", 1), ("init_params", "st"), ("params", "st"),
                    ("n_iter", 0)][op["kind"] % 15]
            if hasattr(m, a):
                setattr(m, a, v)
        ctx.label(f"{t}:{kind}" if t in ("X", "lengths") else t)
    ENTERED[0] = 0
    sz = sizes_of(K, [n for n in lengths if isinstance(n, int) and 0 < n < 1000]
                  if isinstance(lengths, list) else [])
    for name in spec["methods"]:
        arg = lengths
        if rs.randint(10) == 0 and isinstance(lengths, list):
            arg = tuple(lengths)
        try:
            model = copy.deepcopy(m)
        except Exception:  # noqa: BLE001
            return
        r = twice(f"{fam} {name}", model, call_of(name, X, arg), sz)
        ctx.label(r)
    ctx.label(fam)
    ctx.interesting(ENTERED[0] > 0)


# ------------------------------------------------------------ subclasses

RESULTS = ["ok", "empty", "short", "long", "narrow", "wide", "flat", "deep",
           "strided", "reversed", "broadcast", "f4", "int", "bool", "object",
           "nan", "inf", "neginf", "none", "list", "zero", "big_endian",
           "unaligned", "nocols", "transposed", "scalar"]


@st.composite
def subclasses(draw):
    return {"seed": draw(st.integers(0, 2**20)), "K": draw(st.integers(1, 5)),
            "T": draw(st.integers(1, 12)), "nseq": draw(st.integers(1, 3)),
            "lmode": gen.pick(draw, ["one", "cuts", "ones"]),
            "result": gen.pick(draw, RESULTS),
            "when": draw(st.integers(0, 2)),
            "log": draw(st.booleans()),
            "impl": gen.pick(draw, ["log", "scaling"]),
            "start": gen.pick(draw, ["ok", "ok", "col", "strided", "f4", "object"]),
            "methods": draw(st.lists(st.sampled_from(
                ["score", "score_samples", "viterbi", "map", "fit"]),
                min_size=1, max_size=3))}


def shaped(a, kind):
    T, K = a.shape
    if kind == "strided":
        b = np.zeros((2 * T, 2 * K))
        b[::2, ::2] = a
        return b[::2, ::2]
    if kind == "unaligned":
        raw = np.zeros(a.nbytes + 1, "u1")
        b = raw[1:].view(float).reshape(a.shape)
        b[...] = a
        return b
    return {
        "ok": lambda: a, "empty": lambda: a[:0].copy(),
        "short": lambda: a[:-1].copy(),
        "long": lambda: np.concatenate([a, a]), "narrow": lambda: a[:, :-1].copy(),
        "wide": lambda: np.concatenate([a, a], axis=1),
        "flat": lambda: a.ravel(), "deep": lambda: a[None],
        "reversed": lambda: np.ascontiguousarray(a[::-1])[::-1],
        "broadcast": lambda: np.broadcast_to(a[:1], a.shape),
        "f4": lambda: a.astype("f4"), "int": lambda: np.ones(a.shape, int),
        "bool": lambda: np.ones(a.shape, bool), "object": lambda: a.astype(object),
        "nan": lambda: a * np.nan, "inf": lambda: a + np.inf,
        "neginf": lambda: a - np.inf, "none": lambda: None,
        "list": lambda: a.tolist(), "zero": lambda: a * 0,
        "big_endian": lambda: a.astype(">f8"),
        "nocols": lambda: a[:, :0].copy(), "transposed": lambda: a.T.copy(),
        "scalar": lambda: 1.,
    }[kind]()


def check_subclass(spec, ctx):
    """Custom emissions that return anything."""
    from hmmlearn.base import BaseHMM
    count_native()
    K = spec["K"]
    rs = gen.rng(spec, 171)
    lengths = gen.build_lengths(spec)
    X = rs.randn(sum(lengths), 2)
    B = rs.rand(sum(lengths), K) + .1
    count = [0]

    class Custom(BaseHMM):
        def _get_n_fit_scalars_per_param(self):
            return None

        def _emit(self, X, log):
            count[0] += 1
            a = B[:len(X)]
            a = np.log(a) if log else a.copy()
            return shaped(a, spec["result"]) if count[0] > spec["when"] else a

    if spec["log"]:
        Custom._compute_log_likelihood = lambda self, X: self._emit(X, True)
    else:
        Custom._compute_likelihood = lambda self, X: self._emit(X, False)
    m = Custom(K, implementation=spec["impl"], init_params="", n_iter=2,
               tol=-np.inf, random_state=0)
    start, trans = rs.dirichlet(np.ones(K)), rs.dirichlet(np.ones(K), size=K)
    if spec["start"] == "strided":
        trans = shaped(trans, "strided")
    elif spec["start"] == "col":
        trans = np.asfortranarray(trans)
    elif spec["start"] in ("f4", "object"):
        start = start.astype(spec["start"] if spec["start"] == "f4" else object)
        trans = trans.astype("f4")
    m.startprob_, m.transmat_ = start, trans
    ENTERED[0] = 0
    for name in spec["methods"]:
        def call(mm):
            count[0] = 0
            return call_of(name, X, lengths)(mm)
        r = twice(f"{name} with {spec['result']} likelihoods", m, call,
                  sizes_of(K, lengths))
        ctx.label(r)
    ctx.label(spec["result"], spec["impl"])
    ctx.interesting(ENTERED[0] > 0)


FACETS = [
    Facet("valid", valid_specs, check_valid, 1000),
    Facet("variational",
          lambda: vb.specs(kmax=5, max_T=40, regimes=(80, 100)),
          check_variational, 150),
    Facet("corrupted", corrupted, check_corrupted, 2500),
    Facet("subclasses", subclasses, check_subclass, 1200),
]
