"""Rejection of invalid models, data and options."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle as O, runs, vb
from lib.core import Facet, Skip, check_close, fail, must_raise, sut

RULE = ("generated valid model, data and lengths of every family, then one "
        "generated invalidating change (size, place and magnitude vary) and one "
        "operation, which must raise; the valid original and valid neighbours "
        "(rounding, other types) must be accepted by the same operation; "
        "non-trivial: a change was judged")

SCORING = ["score", "score_samples", "predict", "predict_proba", "viterbi", "map"]


def operate(model, op, X, lengths):
    if op == "fit":
        return model.fit(X, lengths)
    if op == "sample":
        return model.sample(3, random_state=1)
    return runs.query(model, X, lengths, op)


class NA(Exception):
    """The change does not apply to this case."""


def off_by(rs, n):
    return n + 1 if n == 1 or rs.rand() < .5 else n - 1


def unsum(rs, a):
    """One row of *a* that does not sum to one any more."""
    a = np.array(a, float)
    row = a.reshape(-1, a.shape[-1])[rs.randint(max(1, a.size // a.shape[-1]))]
    kind = rs.randint(5)
    j = int(np.argmax(row))
    if kind == 4 and a.ndim == 2 and len(a) > 1:
        # what one row lacks another one has
        b = a.reshape(-1, a.shape[-1])
        i, k = rs.choice(len(b), size=2, replace=False)
        f = rs.choice([.5, .1, 1e-2])
        if rs.rand() < .5:
            b[i], b[k] = b[i] * (1 - f), b[k] * (1 + f)
        else:
            s = int(np.argmax(b[i]))
            b[k, s] += b[i, s] * f
            b[i, s] *= 1 - f
        return a
    if kind == 0:
        row *= rs.choice([1.01, .9, 2, 1.001])
    elif kind == 1:
        row[j] += rs.choice([1e-3, -1e-3, .5, 1])
    elif kind == 2:
        row[:] = 0
    else:
        row[j] = np.nan
    return a


# -------------------------------------------------- changes of parameters
# each: (spec, P, model, rs) -> None; assigns the invalid value

def start_shape(spec, P, m, rs):
    n = off_by(rs, spec["K"])
    m.startprob_ = rs.dirichlet(np.ones(n)) if rs.rand() < .5 else np.full(n, 1. / n)


def start_sum(spec, P, m, rs):
    m.startprob_ = unsum(rs, P["start"])


def trans_shape(spec, P, m, rs):
    K = spec["K"]
    kind = rs.randint(6)
    n = off_by(rs, K)
    if kind > 2 and K == 1:
        m.transmat_ = np.ones([(1,), (2,), (1, 1, 1)][kind - 3]) / (kind % 2 + 1)
        return
    # of another shape or another number of dimensions, of the same size or not
    shape = [(n, K), (K, n), (n, n), (K,), (K * K, 1), (1, K * K)][kind]
    m.transmat_ = np.full(shape, 1. / shape[-1])


def trans_sum(spec, P, m, rs):
    m.transmat_ = unsum(rs, P["trans"])


def emis_shape(spec, P, m, rs):
    K, F = spec["K"], spec["F"]
    n = off_by(rs, K)
    if spec["fam"] in ("cat", "mult"):
        shape = (n, F)
        if spec["fam"] == "cat" and rs.rand() < .3:
            shape = (K, F + 1)
        m.emissionprob_ = rs.dirichlet(np.ones(shape[1]), size=shape[0])
    elif spec["fam"] == "pois":
        m.lambdas_ = rs.rand(n, F) + .5
    else:
        raise NA


def emis_sum(spec, P, m, rs):
    if spec["fam"] not in ("cat", "mult"):
        raise NA
    m.emissionprob_ = unsum(rs, P["emis"])


def means_shape(spec, P, m, rs):
    K, F = spec["K"], spec["F"]
    if spec["fam"] not in ("gauss", "gmm"):
        raise NA
    shape = list(P["means"].shape)
    i = rs.randint(len(shape) - 1)        # the feature count is that of the data
    shape[i] = off_by(rs, shape[i])
    m.means_ = rs.randn(*shape)


def weights_shape(spec, P, m, rs):
    if spec["fam"] != "gmm":
        raise NA
    K, M = spec["K"], spec["M"]
    shape = [(off_by(rs, K), M), (K, off_by(rs, M))][rs.randint(2)]
    m.weights_ = np.full(shape, 1. / shape[1])


def weights_sum(spec, P, m, rs):
    if spec["fam"] != "gmm":
        raise NA
    m.weights_ = unsum(rs, P["weights"])


def not_positive(spec, P, rs):
    """Covariances with one component that is not positive (definite)."""
    c = np.array(P["native"], float)
    cv, F = spec["cv"], spec["F"]
    if cv in ("spherical", "diag"):
        v = c.reshape(-1)
        # zero is tolerated (with a warning) in mixtures
        bad = [-1., -1e-3, -1e6] + ([0.] if spec["fam"] == "gauss" else [])
        v[rs.randint(len(v))] = rs.choice(bad)
        return c
    mats = c.reshape(-1, F, F)
    i = rs.randint(len(mats))
    w, q = np.linalg.eigh(mats[i])
    kind = rs.randint(4)
    if kind == 3 and spec["fam"] == "gauss":       # a feature without variance
        d = np.diagonal(mats[i]).copy()
        d[rs.randint(F)] = 0.
        mats[i] = np.diag(d)
    elif kind in (0, 3) or F == 1:
        w[rs.randint(F)] = -w.max() * rs.choice([1e-2, 1, 10])
        mats[i] = (q * w) @ q.T
        mats[i] = (mats[i] + mats[i].T) / 2
    elif kind == 1:
        mats[i] = -mats[i]
    else:                                  # not symmetric
        j = rs.randint(F)
        k = (j + 1) % F
        mats[i][j, k] += np.abs(mats[i]).max() * rs.choice([.1, .5]) + 1e-3
    return mats.reshape(c.shape)


def covars_value(spec, P, m, rs):
    if spec["fam"] not in ("gauss", "gmm"):
        raise NA
    m.covars_ = not_positive(spec, P, rs)


def covars_shape(spec, P, m, rs):
    if spec["fam"] not in ("gauss", "gmm"):
        raise NA
    K, F, cv = spec["K"], spec["F"], spec["cv"]
    n = off_by(rs, K)
    eye = np.eye(F)
    if spec["fam"] == "gmm":
        M = spec["M"]
        mm = off_by(rs, M)
        opts = {"spherical": [np.ones((n, M)), np.ones((K, mm)), np.ones((K, M, F))],
                "diag": [np.ones((n, M, F)), np.ones((K, mm, F)), np.ones((K, M)),
                         np.ones((K, M, F + 1))],
                "full": [np.tile(eye, (n, M, 1, 1)), np.tile(eye, (K, mm, 1, 1)),
                         np.tile(eye, (K, 1, 1)), np.tile(np.eye(F + 1), (K, M, 1, 1))],
                "tied": [np.tile(eye, (n, 1, 1)), eye, np.tile(eye, (K, M, 1, 1)),
                         np.tile(np.eye(F + 1), (K, 1, 1))]}[cv]
    else:
        opts = {"spherical": [np.ones(n), np.ones(n)],
                "diag": [np.ones((n, F)), np.ones(K), np.ones((K, F, F)),
                         np.ones((K, F + 1))],
                "full": [np.tile(eye, (n, 1, 1)), np.ones((K, F)),
                         np.ones((K, F, F + 1)), np.tile(np.eye(F + 1), (K, 1, 1))],
                "tied": [np.tile(eye, (K, 1, 1)), np.ones((F, F + 1)),
                         np.eye(F + 1), np.ones(F)]}[cv]
    m.covars_ = opts[rs.randint(len(opts))]


def trials_missing(spec, P, m, rs):
    if spec["fam"] != "mult":
        raise NA
    m.n_trials = None


PARAM = [start_shape, start_sum, trans_shape, trans_sum, emis_shape, emis_sum,
         means_shape, weights_shape, weights_sum, covars_value, covars_shape]


# -------------------------------------------------- changes of data
# each: (spec, X, lengths, rs) -> (X, lengths)

def data_nan(spec, X, lengths, rs):
    X = np.array(X, float)
    X[rs.randint(len(X)), rs.randint(X.shape[1])] = rs.choice([np.nan, np.inf, -np.inf])
    return X, lengths


def data_features(spec, X, lengths, rs):
    fam = spec["fam"]
    X = np.asarray(X)
    if fam in ("cat", "vcat"):
        raise NA                   # other shapes are deprecated, not refused
    n = X.shape[1]
    if n > 1 and rs.rand() < .5:
        return X[:, :n - 1], lengths
    return np.concatenate([X] + [X[:, :1]] * rs.randint(1, 3), axis=1), lengths


def data_rank(spec, X, lengths, rs):
    return (np.asarray(X)[:, 0] if rs.rand() < .5 else np.asarray(X)[None]), lengths


def data_negative(spec, X, lengths, rs):
    if spec["fam"] not in ("cat", "vcat"):
        raise NA
    X = np.array(X)
    X[rs.randint(len(X)), 0] = -rs.randint(1, spec["F"] + 2)
    return X, lengths


def data_large(spec, X, lengths, rs):
    if spec["fam"] not in ("cat", "vcat"):
        raise NA
    X = np.array(X)
    X[rs.randint(len(X)), 0] = spec["F"] + rs.choice([0, 1, 5, 1000])
    return X, lengths


def data_fraction(spec, X, lengths, rs):
    if spec["fam"] not in ("cat", "vcat"):
        raise NA
    X = np.array(X, float)
    X[rs.randint(len(X)), 0] += .5
    return X, lengths


def data_bool(spec, X, lengths, rs):
    """Truth values would select symbols as a mask instead of naming them."""
    if spec["fam"] not in ("cat", "vcat"):
        raise NA
    X = np.asarray(X).astype(bool)
    # also as many observations as symbols, the size of a mask
    F = spec["F"]
    if rs.rand() < .7:
        return X[np.arange(F) % len(X)], [F] if rs.rand() < .5 else [1] * F
    return X, lengths


def counts_invalid(spec, X, lengths, rs):
    """For fit only: multinomial counts are checked there."""
    if spec["fam"] != "mult":
        raise NA
    X = np.array(X)
    kind = rs.randint(3)
    i, j = rs.randint(len(X)), rs.randint(X.shape[1])
    if kind == 0:
        X[i, j] = -1
    elif kind == 1:
        X = X.astype(float)
        X[i, j] += .5
    else:
        X[i, j] += 1               # another number of trials
    return X, lengths


def lengths_sum(spec, X, lengths, rs):
    l = list(lengths)
    i = rs.randint(len(l))
    kind = rs.randint(5)
    if kind == 0:
        l[i] += rs.choice([1, 2, 100, 10 ** 6])
    elif kind == 1:
        if len(l) > 1:
            l.pop(i)
        else:
            l[0] += 1
    elif kind == 2:
        l.append(rs.randint(1, 4))
    elif kind == 3 and l[i] > 1:
        l[i] -= 1
    else:
        l = [len(X) + 1]
    return X, np.asarray(l) if rs.rand() < .5 else [int(v) for v in l]


def lengths_positive(spec, X, lengths, rs):
    l = list(lengths)
    i = rs.randint(len(l) + 1)
    kind = rs.randint(3)
    if kind == 0:
        l.insert(i, 0)
    elif kind == 1:                        # sums to the number of samples
        k = rs.randint(1, 4)
        j = rs.randint(len(l))
        l[j] += k
        l.insert(i, -k)
    else:
        l = [len(X), 0]
    return X, np.asarray(l) if rs.rand() < .5 else [int(v) for v in l]


DATA = [data_nan, data_features, data_rank, data_negative, data_large,
        data_fraction, data_bool, lengths_sum, lengths_positive]


def valid(spec, P, X, lengths):
    full = O.Full(spec["fam"], P, X, lengths)
    if not full.possible:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip


def accepted(spec, P, X, lengths, op, n_iter=1):
    m = gen.make_model(spec, P, n_iter=n_iter)
    sut(f"{op} of a valid model", operate, m, op, X, lengths)
    return m


def pick(seq, n):
    return seq[n % len(seq)]


def check_params(spec, ctx):
    P, X, lengths = gen.case(spec)
    if spec["fam"] == "mult" and spec.get("vary"):
        spec["vary"] = False
        P, X, lengths = gen.case(spec)
    valid(spec, P, X, lengths)
    op = spec["op"]
    accepted(spec, P, X, lengths, op)
    rs = gen.rng(spec, 160)
    change = pick(spec.get("changes") and [covars_value] or PARAM, spec["change"])
    m = gen.make_model(spec, P, n_iter=1)
    if spec["used"]:                       # a change after the model was used
        sut("score", m.score, X, lengths)

    def do():
        change(spec, P, m, rs)
        return operate(m, op, X, lengths)

    try:
        must_raise(f"{op} after {change.__name__} of a {spec['fam']} model "
                   f"({spec.get('cv', '')})", do)
    except NA:
        raise Skip
    ctx.label(change.__name__, spec["fam"], op)
    ctx.interesting()


def check_data(spec, ctx):
    P, X, lengths = gen.case(spec)
    valid(spec, P, X, lengths)
    op = spec["op"] if spec["op"] != "sample" else "score"
    m = accepted(spec, P, X, lengths, op)
    rs = gen.rng(spec, 161)
    change = pick(DATA + [counts_invalid] * (op == "fit"), spec["change"])
    try:
        Y, l = change(spec, X, lengths, rs)
    except NA:
        raise Skip
    if not spec["used"]:
        m = gen.make_model(spec, P, n_iter=1)
    must_raise(f"{op} after {change.__name__} ({spec['fam']}, lengths {l})",
               operate, m, op, Y, l)
    ctx.label(change.__name__, spec["fam"], op)
    ctx.interesting()


def check_vb(spec, ctx):
    _, X, lengths = vb.case(spec)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    spec["impl"] = "log"
    rs = gen.rng(spec, 162)
    m = vb.new_model(spec, kw, n_iter=1, init_params="")
    vb.assign(m, prior, Q)
    sut("fit", m.fit, X, lengths)
    op = spec["op"] if spec["op"] != "sample" else "score"
    sut(op, operate, m, op, X, lengths)
    if spec["change"] % 3:
        change = pick(DATA, spec["change"])
        try:
            Y, l = change(spec, X, lengths, rs)
        except NA:
            raise Skip
        must_raise(f"{op} after {change.__name__} ({spec['fam']}, lengths {l})",
                   operate, m, op, Y, l)
    else:
        # a posterior or prior of the wrong shape
        names = ["startprob", "transmat"] + (
            ["emissionprob"] if spec["fam"] == "vcat" else
            ["means", "beta", "dof", "scale"])
        name = f"{pick(names, spec['seed'])}_{pick(['prior', 'posterior'], spec['N'])}_"
        shape = list(np.shape(getattr(m, name)))
        if not shape:                          # the only degrees of freedom
            setattr(m, name, np.full(int(rs.randint(2, 5)), 30.))
            must_raise(f"fit with {name} of several values", m.fit, X, lengths)
            ctx.label("tied dof")
            ctx.interesting()
            return
        i = rs.randint(len(shape))
        if name.startswith("means"):
            i = 0
        shape[i] = off_by(rs, shape[i])
        setattr(m, name, rs.rand(*shape) + 1)
        must_raise(f"fit with {name} of shape {shape}", m.fit, X, lengths)
        change = check_vb
    ctx.label(change.__name__, spec["fam"], op)
    ctx.interesting()


def check_options(spec, ctx):
    P, X, lengths = gen.case(spec)
    valid(spec, P, X, lengths)
    fam = spec["fam"]
    rs = gen.rng(spec, 163)
    m = gen.make_model(spec, P, n_iter=1)
    kind = pick(["algorithm", "decode", "implementation", "covariance_type",
                 "unfitted", "cov_assign", "sampling"], spec["change"])
    junk = pick(["", "Viterbi", "logs", "scale", "nope", "diagonal", "viterbi ",
                 "max", "FULL", None], spec["seed"])
    if kind == "algorithm":
        m.set_params(algorithm=junk)
        if junk is None or junk == "":      # falls back to ... nothing
            raise Skip
        must_raise(f"predict with algorithm={junk!r}", m.predict, X, lengths)
        must_raise(f"decode with algorithm={junk!r}", m.decode, X, lengths)
    elif kind == "decode":
        if not junk:
            raise Skip                      # the model's own algorithm
        must_raise(f"decode(algorithm={junk!r})", m.decode, X, lengths, junk)
    elif kind == "implementation":
        m.set_params(implementation=junk)
        for op in ("score", "score_samples", "predict_proba", "fit"):
            must_raise(f"{op} with implementation={junk!r}", operate, m, op, X, lengths)
    elif kind == "covariance_type":
        if fam not in ("gauss", "gmm"):
            raise Skip
        m = gen.new_model(dict(spec, cv=junk), n_iter=1)
        must_raise(f"fit with covariance_type={junk!r}", m.fit, X, lengths)
        m = gen.make_model(spec, P)
        m.set_params(covariance_type=junk)
        for op in ("score", "predict_proba", "viterbi", "fit"):
            must_raise(f"{op} with covariance_type={junk!r}", operate, m, op, X, lengths)
    elif kind == "sampling":
        if fam == "mult" and np.ndim(m.n_trials):
            raise Skip
        K = spec["K"]
        n = pick([0, -1, -5], spec["seed"])
        must_raise(f"sample({n})", m.sample, n, random_state=1)
        k = pick([K, -1, K + 7, -K, -K - 1], spec["seed"])
        must_raise(f"sample(currstate={k})", m.sample, spec["seed"] % 3 + 1,
                   random_state=1, currstate=k)
        sut("sample", m.sample, 2, random_state=1, currstate=K - 1)
    elif kind == "cov_assign":
        if fam != "gauss":
            raise Skip
        m = gen.new_model(dict(spec, cv=junk))
        must_raise(f"assigning covars_ with covariance_type={junk!r}",
                   setattr, m, "covars_", P["native"])
    else:
        m = gen.new_model(spec)
        for op in SCORING + ["sample"]:
            must_raise(f"{op} of an unfitted model", operate, m, op, X, lengths)
        # partly set models, the start probabilities missing or nothing else set
        full = gen.make_model(spec, P)
        names = [k for k in runs.params(full)]
        name = pick(names, spec["seed"])
        if name == "covars_" and fam == "gauss":
            name = "_covars_" if hasattr(full, "_covars_") else name
        try:
            delattr(full, name)
        except AttributeError:
            raise Skip
        for op in ("score", "predict", "predict_proba"):
            must_raise(f"{op} without {name}", operate, full, op, X, lengths)
    ctx.label(kind, fam)
    ctx.interesting()


def check_valid(spec, ctx):
    """Valid values close to invalid ones are accepted."""
    P, X, lengths = gen.case(spec)
    if spec["fam"] == "mult" and spec.get("vary"):
        spec["vary"] = False
        P, X, lengths = gen.case(spec)
    valid(spec, P, X, lengths)
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    rs = gen.rng(spec, 164)
    op = spec["op"]
    m = gen.make_model(spec, P, n_iter=1)
    kind = pick(["rounding", "lists", "ints", "covars", "lengths", "decode"],
                spec["change"])
    args = [X, lengths]
    if kind == "rounding":                 # sums off by rounding only
        eps = rs.choice([1e-9, -1e-9, 1e-12])
        m.startprob_ = P["start"] * (1 + eps)
        m.transmat_ = P["trans"] * (1 - eps)
        if fam == "cat":
            m.emissionprob_ = P["emis"] * (1 + eps)
        if fam == "gmm":
            m.weights_ = P["weights"] * (1 + eps)
    elif kind == "lists":
        m.startprob_ = P["start"].tolist()
        m.transmat_ = P["trans"].tolist()
        args = [np.asarray(X).tolist(), list(lengths)]
    elif kind == "ints":                   # degenerate models in integers
        m.startprob_ = np.eye(K, dtype=int)[0]
        m.transmat_ = np.eye(K, dtype=int)
        P2 = dict(P, start=np.eye(K)[0], trans=np.eye(K))
        try:
            valid(spec, P2, X, lengths)
        except Skip:
            if op != "sample":
                raise
    elif kind == "covars":
        if fam not in ("gauss", "gmm"):
            raise Skip
        c = P["native"]
        if spec["cv"] in ("full", "tied"):
            c = c * (1 + 1e-13 * rs.randn(*c.shape))       # asymmetric by rounding
        m.covars_ = c
    elif kind == "lengths":
        args[1] = pick([np.asarray(lengths), tuple(lengths),
                        np.asarray(lengths, dtype=np.int32),
                        np.asarray(lengths, dtype=np.uint8) if max(lengths) < 256
                        else list(lengths)], spec["seed"])
    else:
        op = "viterbi" if spec["seed"] % 2 else "map"
        m.set_params(algorithm=op)
        sut("predict", m.predict, X, lengths)
        sut("decode", m.decode, X, lengths, None)
    sut(f"{op} of a valid model ({kind})", operate, m, op, *args)
    ctx.label(kind, fam, op)
    ctx.interesting()


EX = {"op": st.sampled_from(SCORING + ["sample", "fit", "fit"]),
      "change": st.integers(0, 59), "used": st.booleans(), "N": st.integers(0, 1)}
EXS = st.fixed_dictionaries(EX)
FACETS = [
    Facet("parameters", lambda: gen.specs(max_T=30, kmax=6, extra=EXS),
          check_params, 6000),
    Facet("covariances", lambda: gen.specs(
        ["gauss", "gmm", "gmm"], max_T=20, kmax=4, extra=st.fixed_dictionaries(
            dict(EX, changes=st.just(True)))), check_params, 3000),
    Facet("data", lambda: gen.specs(max_T=30, kmax=6, extra=EXS), check_data, 5000),
    Facet("variational", lambda: vb.specs(max_T=30, kmax=5, extra=EX), check_vb, 1500),
    Facet("options", lambda: gen.specs(max_T=20, kmax=5, extra=EXS), check_options, 2000),
    Facet("valid", lambda: gen.specs(max_T=30, kmax=6, extra=EXS), check_valid, 2000),
]
