"""
Generators.  Hypothesis draws a small JSON "spec" (family, sizes, modes, seeds);
bulk numbers are a pure function of the spec, so that a spec is the whole case:
it can be shrunk, stored and replayed.
"""
import numpy as np
from hypothesis import strategies as st

EMF = ["cat", "mult", "pois", "gauss", "gmm"]
CVS = ["spherical", "diag", "full", "tied"]
PMODES = ["dense", "uniform", "zeros", "sticky", "leftright", "cyclic",
          "tiny", "peaky", "block", "grid", "near"]
POSITIVE_PMODES = ["dense", "uniform", "sticky", "grid", "peaky", "near"]
EMODES = ["dense", "uniform", "zeros", "tiny", "peaky", "grid", "equal", "near"]
SAFE_EMODES = ["dense", "uniform", "peaky", "grid", "equal", "near"]


def pick(draw, options):
    return draw(st.sampled_from(list(options)))


@st.composite
def specs(draw, fams=EMF, pmodes=PMODES, emodes=EMODES, impls=("log", "scaling"),
          cvs=CVS, xmodes=("model", "model", "uniform", "outlier", "const", "echo", "any"),
          regimes=(58, 86), max_T=None, lens=True, min_T=1, kmax=None, extra=None,
          units=(1.,)):
    """A model and a data set for it."""
    fam = pick(draw, fams)
    r = draw(st.integers(0, 99))
    if r < regimes[0]:
        K, F, T = (pick(draw, [2, 3, 1, 4, 2, 3]), pick(draw, [2, 1, 3]),
                   draw(st.integers(min_T, max(min_T, 14))))
    elif r < regimes[1]:
        K, F, T = (draw(st.integers(2, 9)), draw(st.integers(1, 6)),
                   draw(st.integers(max(min_T, 5), max(min_T, 70))))
    else:
        big = pick(draw, [0, 1, 0, 2, 3])
        K = draw(st.integers(2, (40, 6, 12, 3)[big]))
        F = draw(st.integers(1, (4, 12, 6, 2)[big]))
        T = draw(st.integers(min_T, (50, 200, 600, 3000)[big]))
    if kmax:
        K = min(K, kmax)
    huge = r == 99 and regimes[1] < 99 and (kmax is None or kmax >= 8)
    if huge:
        i = draw(st.integers(0, 3))
        K = draw(st.integers(3, (140, 70, 4, 9)[i]))
        F = draw(st.integers(1, (2, 3, 40, 20)[i]))
        T = draw(st.integers(min_T, max(min_T, (25, 70, 60, 40)[i])))
    if max_T:
        T = max(min_T, min(T, max_T))
    spec = {"fam": fam, "K": K, "F": F, "T": T,
            "seed": draw(st.integers(0, 2**20)),
            "sp": pick(draw, pmodes), "tp": pick(draw, pmodes),
            "xmode": pick(draw, xmodes), "impl": pick(draw, impls)}
    if fam in ("cat", "mult", "pois"):
        spec["ep"] = pick(draw, emodes)
        if fam == "cat":
            spec["F"] = draw(st.integers(1, 6 if r < 80 else 60))
        if fam == "mult":
            spec["n"] = draw(st.integers(1, 6 if r < 80 else 60))
            spec["vary"] = draw(st.booleans())
            if spec["ep"] in ("zeros", "tiny"):
                spec["F"] = min(spec["F"], 7)
    else:
        spec["cv"] = pick(draw, cvs)
        spec["mscale"] = pick(draw, [1., 0., 0.1, 10.])
        spec["offset"] = pick(draw, [0., 0., 5., -300.])
        spec["cscale"] = pick(draw, [1., 1., 1e-2, 30.])
        if len(units) > 1:
            spec["unit"] = pick(draw, units)
        spec["share"] = pick(draw, ["", "", "", "", "diagonal", "means", "cov"])
        if fam == "gmm":
            spec["M"] = draw(st.integers(1, 3 if r < 80 else 6))
            if huge:
                spec["M"] = draw(st.integers(1, max(1, min(25, 200 // K))))
            spec["wp"] = pick(draw, emodes)
    if lens:
        spec["lmode"] = pick(draw, ["one", "cuts", "cuts", "ones", "lonely", "equal"])
        spec["nseq"] = draw(st.integers(1, min(T, 4 if r < 60 else 25)))
    else:
        spec["lmode"], spec["nseq"] = "one", 1
    if extra:
        spec.update(draw(extra))
    return spec


@st.composite
def long_specs(draw, fams=("cat", "pois", "gauss", "mult", "gmm"), impls=("log", "scaling"),
               extra=None, Ts=(66000, 33000, 66000, 66000, 132000), many=False):
    """Few states, but more frames (or sequences) than small integers can count."""
    fam = pick(draw, fams)
    T = pick(draw, Ts) + draw(st.integers(0, 999))
    spec = {"fam": fam, "K": pick(draw, [2, 3, 2, 1]), "F": draw(st.integers(1, 2)),
            "T": T, "pool": 40, "seed": draw(st.integers(0, 2**20)),
            "sp": pick(draw, ["dense", "peaky"]), "tp": pick(draw, POSITIVE_PMODES),
            "xmode": pick(draw, ["model", "model", "uniform"]), "impl": pick(draw, impls)}
    if fam in ("cat", "mult", "pois"):
        spec["ep"] = pick(draw, ["peaky", "near", "grid"])
        if fam != "pois":
            spec["F"] += 1
        if fam == "mult":
            spec["n"], spec["vary"] = 3, False
    else:
        spec.update(cv=pick(draw, CVS), mscale=1., offset=0., cscale=1., share="")
        if fam == "gmm":
            spec["M"], spec["wp"] = draw(st.integers(1, 2)), "peaky"
    if many:
        spec["nseq"] = draw(st.integers(70, 400 if T < 9000 else 900))
        spec["lmode"] = "cuts"
    else:
        spec["nseq"] = draw(st.integers(1, 4))
        spec["lmode"] = pick(draw, ["one", "one", "cuts"])
        if draw(st.integers(0, 2)) == 0:
            edge_lengths(draw, spec, LONG_EDGES, 3)
    if extra:
        spec.update(draw(extra))
    return spec


# around the sizes in which data are likely to be processed piecewise
EDGES = [n + d for n in (32, 50, 64, 100, 128, 200, 256) for d in (0, 1, -1)]
LONG_EDGES = [n + d for n in (500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000,
                              16384, 20000, 32768) for d in (0, 1, -1)]


def edge_lengths(draw, spec, edges, n):
    spec["lens"] = draw(st.lists(st.sampled_from(edges), min_size=1, max_size=n))
    spec["T"], spec["nseq"] = sum(spec["lens"]), len(spec["lens"])


@st.composite
def joint_specs(draw, fams=("cat", "pois", "gauss", "mult", "gmm"), impls=("log", "scaling"),
                extra=None, max_T=160, kmax=7):
    """Several states, features, components and sequences at once, T ample."""
    fam = pick(draw, fams)
    K = draw(st.integers(3, kmax))
    F = draw(st.integers(3, 6))
    T = draw(st.integers(min(max_T, 6 * K), max_T))
    spec = {"fam": fam, "K": K, "F": F, "T": T, "seed": draw(st.integers(0, 2**20)),
            "sp": pick(draw, ["dense", "zeros", "peaky", "uniform", "grid"]),
            "tp": pick(draw, ["dense", "sticky", "zeros", "peaky", "cyclic", "leftright",
                              "block"]),
            "xmode": pick(draw, ["model", "model", "any", "echo"]),
            "impl": pick(draw, impls), "lmode": pick(draw, ["cuts", "lonely", "cuts"]),
            "nseq": draw(st.integers(2, 9))}
    if fam in ("cat", "mult", "pois"):
        spec["ep"] = pick(draw, ["dense", "peaky", "near", "zeros", "grid"])
        if fam == "mult":
            spec["n"], spec["vary"] = draw(st.integers(2, 9)), draw(st.booleans())
    else:
        spec.update(cv=pick(draw, CVS), mscale=pick(draw, [1., 3., 10.]),
                    offset=pick(draw, [0., 0., 5.]), cscale=pick(draw, [1., .1]),
                    share=pick(draw, ["", "", "", "means", "cov"]))
        if fam == "gmm":
            spec["M"] = draw(st.integers(2, 4))
            spec["wp"] = pick(draw, ["dense", "peaky", "uniform"])
    if draw(st.integers(0, 2)) == 0:
        edge_lengths(draw, spec, EDGES, 2)
    if extra:
        spec.update(draw(extra))
    return spec


def mixed(fams=EMF, extra=None, joint=None, **kw):
    """specs() with a quarter of joint_specs()."""
    return st.integers(0, 3).flatmap(
        lambda i: joint_specs(fams, extra=extra, **(joint or {})) if i == 3
        else specs(fams, extra=extra, **kw))


@st.composite
def wide_specs(draw, fams=("cat", "pois", "gauss", "mult", "gmm"), impls=("log", "scaling"),
               extra=None, kinds=("states", "features"), max_states=300):
    """More states, features, components or trials than a byte can count."""
    fam = pick(draw, fams)
    kind = pick(draw, kinds)
    spec = {"fam": fam, "K": pick(draw, [2, 3, 1]), "F": draw(st.integers(1, 2)),
            "T": draw(st.integers(2, 40)), "seed": draw(st.integers(0, 2**20)),
            "sp": pick(draw, ["dense", "peaky", "zeros"]),
            "tp": pick(draw, ["dense", "peaky", "zeros", "sticky", "cyclic"]),
            "xmode": pick(draw, ["model", "model", "echo"]), "impl": pick(draw, impls),
            "lmode": pick(draw, ["one", "cuts"]), "nseq": draw(st.integers(1, 3))}
    if fam in ("cat", "mult", "pois"):
        spec["ep"] = pick(draw, ["peaky", "dense", "grid"])
        if fam == "mult":
            spec["n"], spec["vary"] = pick(draw, [3, 200, 1000, 70000]), draw(st.booleans())
            if spec["n"] > 200 and draw(st.booleans()):
                spec["ep"] = "near"         # no state out of the double range
    else:
        spec.update(cv=pick(draw, CVS), mscale=pick(draw, [1., 10.]), offset=0.,
                    cscale=1., share="")
        if fam == "gmm":
            spec["M"], spec["wp"] = draw(st.integers(1, 3)), "dense"
    if kind == "states":
        spec["K"] = draw(st.integers(129, max_states))
        spec["T"] = draw(st.integers(2, 8))
        if fam == "gmm":
            spec["F"], spec["M"] = 1, draw(st.integers(1, 2))
    elif fam == "cat":
        spec["F"] = pick(draw, [257, 300, 700, 1500])
    elif fam == "gmm" and draw(st.booleans()):
        spec["M"] = draw(st.integers(129, 280))
        spec["F"] = 1
    else:
        spec["F"] = draw(st.integers(*{"mult": (20, 300), "pois": (130, 300),
                                       "gauss": (10, 70), "gmm": (8, 40)}[fam]))
        if fam in ("gauss", "gmm"):
            spec["T"] = draw(st.integers(2, 90))
    if extra:
        spec.update(draw(extra))
    return spec


# ------------------------------------------------------------ building blocks

def rng(spec, tag):
    return np.random.RandomState((spec["seed"] * 1000003 + tag * 7919) % (2**32))


def norm(a):
    """Rows that sum to one as exactly as possible."""
    a = a / a.sum(axis=-1, keepdims=True)
    return a


def prob_rows(rs, n, m, mode, square=False):
    """(n, m) stochastic matrix; every row has a positive entry."""
    if m == 1:
        return np.ones((n, 1))
    if mode == "uniform":
        return np.full((n, m), 1. / m)
    if mode == "near":            # almost ties
        return norm(1 + 10. ** rs.choice([-3, -6, -9]) * rs.randn(n, m))
    if mode == "equal":
        return np.tile(norm(rs.dirichlet(np.ones(m)) + 1e-3), (n, 1))
    if mode == "grid":
        return norm(rs.randint(1, 4, size=(n, m)).astype(float))
    if mode == "zeros":
        a = rs.dirichlet(np.ones(m), size=n) + 1e-3
        mask = rs.rand(n, m) < rs.choice([.2, .5, .8])
        mask[np.arange(n), rs.randint(m, size=n)] = False
        a[mask] = 0
        return norm(a)
    if mode == "tiny":
        return norm(np.exp(-rs.rand(n, m) ** 2 * rs.choice([20, 200, 600])))
    if mode == "peaky":
        return norm(np.exp(3 * rs.randn(n, m)))
    if mode == "sticky":
        a = rs.dirichlet(np.ones(m), size=n) * rs.choice([.3, .02, 1e-4])
        a += 1e-9
        a[np.arange(n), np.arange(n) % m] += 1
        return norm(a)
    if mode == "leftright":
        a = np.zeros((n, m))
        for i in range(n):
            if square:
                for j in (i, i + 1, i + 2):
                    if j < m:
                        a[i, j] = rs.rand() + .05
            else:
                a[i, 0] = 1
        return norm(a)
    if mode == "cyclic":
        a = np.zeros((n, m))
        p = rs.permutation(m)
        for i in range(n):
            a[i, p[i % m]] = 1
        return a
    if mode == "block":
        a = rs.dirichlet(np.ones(m), size=n) + 1e-3
        b = rs.randint(0, 2, size=m)
        for i in range(n):
            keep = b == b[i % m]
            a[i, ~keep] = 0
        return norm(a)
    return norm(rs.dirichlet(np.ones(m), size=n) + 1e-4)


def random_cov(rs, F, scale, spread=1.):
    ev = scale * 10. ** rs.uniform(-spread, spread, size=F)
    if F == 1:
        return np.array([[ev[0]]])
    q, _ = np.linalg.qr(rs.randn(F, F))
    c = (q * ev) @ q.T
    return (c + c.T) / 2


def covars(rs, cv, n, F, scale):
    """(native, full (n, F, F)) covariances of n components."""
    if cv == "spherical":
        v = scale * 10. ** rs.uniform(-1, 1, size=n)
        return v, v[:, None, None] * np.eye(F)
    if cv == "diag":
        v = scale * 10. ** rs.uniform(-1, 1, size=(n, F))
        return v, np.stack([np.diag(r) for r in v])
    if cv == "full":
        c = np.stack([random_cov(rs, F, scale) for _ in range(n)])
        return c, c
    c = random_cov(rs, F, scale)
    return c, np.broadcast_to(c, (n, F, F)).copy()


def share(rs, what, means, native, full, n, F):
    """Components that coincide in their means, variances or covariances."""
    if what == "means":
        means[:] = means[:1]
    elif what == "cov":
        native[:] = native[:1]
        full[:] = full[:1]
    elif what == "diagonal" and F > 1:
        sd = np.sqrt(np.diagonal(full[0]))
        for c in full:
            d = np.sqrt(np.diagonal(c))
            c[:] = c / np.outer(d, d) * np.outer(sd, sd)
            c[:] = (c + c.T) / 2
        native[:] = full


def build_params(spec):
    """Parameter arrays in the form of lib.oracle, plus native covariances."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    rs = rng(spec, 1)
    P = {"start": prob_rows(rs, 1, K, spec["sp"], False)[0],
         "trans": prob_rows(rs, K, K, spec["tp"], True)}
    if spec["sp"] == "leftright":
        P["start"] = np.eye(K)[0]
    rs = rng(spec, 2)
    if fam in ("cat", "mult"):
        P["emis"] = prob_rows(rs, K, F, spec["ep"])
    elif fam == "pois":
        ep = spec["ep"]
        lam = rs.uniform(.2, 8, size=(K, F))
        if ep == "tiny":
            lam *= 1e-3
        elif ep == "peaky":
            lam *= 10. ** rs.uniform(0, 3, size=(K, F))
        elif ep == "zeros":
            lam[rs.rand(K, F) < .3] = 0
        elif ep == "dense" and spec["seed"] % 8 == 0:
            lam *= 10. ** rs.uniform(2, 7)     # very frequent events
        elif ep == "equal":
            lam[:] = lam[0]
        elif ep == "near":
            lam = lam[:1] * (1 + 1e-6 * rs.randn(K, F))
        elif ep == "grid":
            lam = np.round(lam) + 1
        P["lam"] = lam
    elif fam == "gauss":
        P["means"] = (rs.randn(K, F) * spec["mscale"] * 3 + spec["offset"])
        nat, full = covars(rs, spec["cv"], K, F, spec["cscale"])
        what = spec.get("share", "")
        if what == "means" or spec["cv"] != "tied":
            if what != "diagonal" or spec["cv"] == "full":
                share(rs, what, P["means"], nat, full, K, F)
        P["native"], P["cov"] = nat, full
    else:
        M = spec["M"]
        P["weights"] = prob_rows(rs, K, M, spec["wp"])
        P["means"] = (rs.randn(K, M, F) * spec["mscale"] * 3 + spec["offset"])
        cv = spec["cv"]
        if cv == "tied":
            c = np.stack([random_cov(rs, F, spec["cscale"]) for _ in range(K)])
            P["native"] = c
            P["cov"] = np.repeat(c[:, None], M, axis=1)
        else:
            nat, full = covars(rs, cv, K * M, F, spec["cscale"])
            if spec.get("share") != "diagonal" or cv == "full":
                share(rs, spec.get("share", ""), P["means"].reshape(K * M, F),
                      nat, full, K * M, F)
            P["native"] = nat.reshape(K, M, *nat.shape[1:])
            P["cov"] = full.reshape(K, M, F, F)
    return P


def emit(rs, fam, P, k, n=None, any_mix=False):
    if fam == "cat":
        return [rs.choice(P["emis"].shape[1], p=P["emis"][k])]
    if fam == "mult":
        return rs.multinomial(n, P["emis"][k])
    if fam == "pois":
        return rs.poisson(P["lam"][k])
    if fam == "gauss":
        return rs.multivariate_normal(P["means"][k], P["cov"][k])
    m = rs.choice(P["weights"].shape[1], p=None if any_mix else P["weights"][k])
    return rs.multivariate_normal(P["means"][k, m], P["cov"][k, m])


def build_lengths(spec):
    T, mode = spec["T"], spec["lmode"]
    if spec.get("lens") and sum(spec["lens"]) == T:
        return list(spec["lens"])
    n = max(1, min(spec["nseq"], T))
    rs = rng(spec, 3)
    if mode == "one" or n == 1 and mode != "ones":
        return [T]
    if mode == "ones":
        return [1] * T
    if mode == "lonely":          # several sequences of length one among longer
        out, left = [], T
        while left:
            out.append(1 if rs.rand() < .5 else rs.randint(1, left + 1))
            left -= out[-1]
        return [int(v) for v in out]
    if mode == "equal":           # all of the same length, but for a rest
        m = T // n
        return [m] * n + ([T - m * n] if T > m * n else [])
    cuts = np.sort(rs.choice(np.arange(1, T), size=n - 1, replace=False))
    return [int(v) for v in np.diff(np.concatenate([[0], cuts, [T]]))]


def build_data(spec, P, lengths, xmode=None):
    fam, K, F, T = spec["fam"], spec["K"], spec["F"], spec["T"]
    xmode = xmode or spec["xmode"]
    rs = rng(spec, 4)
    n = spec.get("n", 1)
    ns = (rs.randint(1, n + 1, size=T) if spec.get("vary") else np.full(T, n))
    if spec.get("pool"):          # long data: a few observations, shuffled
        small = dict(spec, T=spec["pool"], pool=0)
        return build_data(small, P, [spec["pool"]], xmode)[
            rs.randint(spec["pool"], size=T)]
    if fam in ("cat", "mult") and xmode == "uniform":
        if fam == "cat":
            return rs.randint(F, size=(T, 1))
        return np.stack([rs.multinomial(ns[t], np.full(F, 1. / F))
                         for t in range(T)])
    if xmode == "uniform" and fam == "pois":
        return rs.randint(0, 12, size=(T, F))
    if xmode == "uniform":
        s = np.sqrt(spec["cscale"]) * 3 + spec["mscale"]
        return rs.randint(-8, 9, size=(T, F)) / 4. * s + spec["offset"]
    rows, states = [], []
    t = 0
    for L in lengths:
        k = None
        for _ in range(L):
            p = P["start"] if k is None else P["trans"][k]
            k = int(rs.choice(K, p=p / p.sum()))
            states.append(k)
            # "any": also what only unlikely states and components emit
            rows.append(emit(rs, fam, P, rs.randint(K) if xmode == "any" else k,
                             ns[t], xmode == "any"))
            t += 1
    X = np.array(rows)
    if xmode == "const":
        X[:] = X[0]
        if fam == "mult" and not spec.get("vary"):
            pass
    if xmode == "echo":           # the same few observations, again and again
        X = X[rs.randint(min(len(X), rs.randint(1, 5)), size=T)]
        first = X[:lengths[0]].copy()
        for s, L in zip(np.cumsum([0, *lengths]), lengths):
            if L <= len(first) and rs.rand() < .6:
                X[s:s + L] = first[:L]
    if xmode == "outlier" and fam in ("gauss", "gmm", "pois"):
        i = rs.randint(T)
        if fam == "pois":
            X[i] = X[i] * 5 + 30
        else:
            X[i] += rs.choice([-1, 1], size=F) * 12 * np.sqrt(spec["cscale"])
    return X


# ------------------------------------------------------------ models

CODES = {"cat": "ste", "mult": "ste", "pois": "stl", "gauss": "stmc",
         "gmm": "stmcw", "vcat": "ste", "vgauss": "stmc"}


def cls(fam):
    from hmmlearn import hmm, vhmm
    return {"cat": hmm.CategoricalHMM, "mult": hmm.MultinomialHMM,
            "pois": hmm.PoissonHMM, "gauss": hmm.GaussianHMM,
            "gmm": hmm.GMMHMM, "vcat": vhmm.VariationalCategoricalHMM,
            "vgauss": vhmm.VariationalGaussianHMM}[fam]


def new_model(spec, **kw):
    """An unfitted model of the family of *spec* (constructor only)."""
    fam = spec["fam"]
    args = {"n_components": spec["K"], "implementation": spec["impl"],
            "random_state": 0}
    if fam in ("gauss", "gmm", "vgauss"):
        args["covariance_type"] = spec["cv"]
    if fam == "gmm":
        args["n_mix"] = spec["M"]
    if fam == "mult":
        args["n_trials"] = spec.get("_ntrials")
    if fam in ("cat", "vcat"):
        args["n_features"] = spec["F"]
    args.update(kw)
    return cls(fam)(**args)


def set_params(model, fam, P):
    """Assign all parameters of an EM-family model (copies)."""
    c = lambda a: np.array(a, copy=True)
    model.startprob_ = c(P["start"])
    model.transmat_ = c(P["trans"])
    if fam in ("cat", "mult"):
        model.emissionprob_ = c(P["emis"])
    elif fam == "pois":
        model.lambdas_ = c(P["lam"])
    elif fam == "gauss":
        model.means_ = c(P["means"])
        model.covars_ = c(P["native"])
    elif fam == "gmm":
        model.weights_ = c(P["weights"])
        model.means_ = c(P["means"])
        model.covars_ = c(P["native"])
    return model


def make_model(spec, P, fresh=False, **kw):
    """A model with all its parameters set, ready for scoring or fitting.

    Some are used models: asked about the data with other parameters before
    the given ones are assigned, or written into the same arrays."""
    kw.setdefault("init_params", "")
    m = new_model(spec, **kw)
    if (not fresh and spec["seed"] % 4 == 0 and spec["T"] <= 200 and spec["K"] <= 16):
        wear(m, spec)
        if spec["seed"] % 8 == 0:
            return overwrite(m, spec["fam"], P)
    return set_params(m, spec["fam"], P)


def query_model(spec, P, **kw):
    """make_model for queries only: CategoricalHMM need not be told n_features."""
    if spec["fam"] == "cat" and spec["seed"] % 3 == 0:
        kw.setdefault("n_features", None)
    return make_model(spec, P, **kw)


LAST = []           # the data that case() returned last
PARTS = (("startprob_", "start"), ("transmat_", "trans"), ("emissionprob_", "emis"),
         ("lambdas_", "lam"), ("means_", "means"), ("weights_", "weights"),
         ("covars_", "native"))


def wear(m, spec):
    """Uses a model with other parameters."""
    import warnings
    try:
        other = build_params(dict(spec, seed=spec["seed"] + 104729))
    except KeyError:                 # derived from another family's
        return
    set_params(m, spec["fam"], other)
    X = LAST[0] if LAST else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f in (lambda: m.score(X), lambda: m.score_samples(X), lambda: m.decode(X),
                  lambda: m.bic(X), lambda: m.sample(2, random_state=0),
                  m.get_stationary_distribution):
            try:
                f()
            except Exception:  # noqa: BLE001
                pass


def overwrite(m, fam, P):
    """Assigns parameters by writing into the arrays of the model."""
    for name, key in PARTS:
        if key in P:
            if name == "covars_" and fam == "gauss":
                m.covars_ = np.array(P[key], copy=True)      # a copy on every access
                continue
            a = getattr(m, name, None)
            if (isinstance(a, np.ndarray) and a.flags.writeable
                    and a.shape == np.shape(P[key]) and a.dtype == float):
                a[...] = P[key]
            else:
                setattr(m, name, np.array(P[key], copy=True))
    return m


def case(spec, xmode=None):
    """params, data, lengths of a spec."""
    P = build_params(spec)
    lengths = build_lengths(spec)
    X = build_data(spec, P, lengths, xmode)
    u = spec.get("unit", 1.)
    if u != 1:                    # another unit of measurement
        X = X * u
        P["means"] = P["means"] * u
        P["native"], P["cov"] = P["native"] * u ** 2, P["cov"] * u ** 2
    if spec["fam"] == "mult":
        spec["_ntrials"] = X.sum(axis=1) if spec.get("vary") else spec["n"]
    LAST[:] = [X]
    return P, X, lengths


def native_to_full(fam, cv, native, K, F, M=None):
    """Full matrices from the documented storage of covars_."""
    a = np.asarray(native, dtype=float)
    eye = np.eye(F)
    if fam == "gmm":
        if cv == "tied":
            return np.repeat(a[:, None], M, axis=1)
        if cv == "full":
            return a
        if cv == "diag":
            return a[..., None] * eye
        return a[..., None, None] * eye
    raise KeyError(fam)
