"""sample() follows the model: exact support and randomized-PIT statistics."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from scipy.special import ndtr

from lib import em, gen, oracle as O, vb
from lib.core import Facet, Skip, check_array, check_same, fail, sut

RULE = ("generated model with zero probabilities, number of samples, start "
        "state; support and shape are exact; with enough samples, the "
        "randomized probability integral transforms of states and observations "
        "given the model are tested for uniformity and independence (false "
        "alarms < 1e-9 per run); non-trivial: several states or a tested sample")

P_KS = 1e-12
Z = 8.5


def discrete_pit(rs, cdf_below, p):
    return cdf_below + rs.rand(*np.shape(p)) * p


def obs_pit(rs, fam, P, states, X):
    """(T, d) uniforms if X follows the emissions of *states*."""
    X = np.asarray(X)
    if fam == "cat":
        e = P["emis"][states]
        c = np.cumsum(e, axis=1)
        x = X[:, 0].astype(int)
        i = np.arange(len(x))
        return discrete_pit(rs, c[i, x] - e[i, x], e[i, x])[:, None]
    if fam == "pois":
        lam = P["lam"][states]
        return discrete_pit(rs, ss.poisson.cdf(X - 1, lam), ss.poisson.pmf(X, lam))
    if fam == "mult":
        left = X.sum(axis=1)
        e = P["emis"][states]
        rest = np.cumsum(e[:, ::-1], axis=1)[:, ::-1]
        cols = []
        for j in range(X.shape[1] - 1):
            p = np.clip(e[:, j] / np.maximum(rest[:, j], 1e-300), 0, 1)
            u = discrete_pit(rs, ss.binom.cdf(X[:, j] - 1, left, p),
                             ss.binom.pmf(X[:, j], left, p))
            # next to nothing is left; the conditional law is all rounding
            cols.append(np.where(rest[:, j] < 1e-6, np.nan, u))
            left = left - X[:, j]
        return np.stack(cols, axis=1) if cols else np.empty((len(X), 0))
    F = X.shape[1]
    if fam == "gauss":
        out = np.empty((len(X), F))
        for k in np.unique(states):
            L = np.linalg.cholesky(P["cov"][k])
            s = states == k
            out[s] = ndtr(np.linalg.solve(L, (X[s] - P["means"][k]).T).T)
        return out
    a = np.concatenate([np.eye(F), rs.randn(2, F)]) if F > 1 else np.eye(1)
    out = np.zeros((len(X), len(a)))
    for k in np.unique(states):
        s = states == k
        for m in range(P["weights"].shape[1]):
            sd = np.sqrt(np.einsum("di,ij,dj->d", a, P["cov"][k, m], a))
            out[s] += P["weights"][k, m] * ndtr(
                (X[s] @ a.T - P["means"][k, m] @ a.T) / sd)
    return out


def state_pit(rs, P, prev, states):
    p = P["trans"][prev]
    c = np.cumsum(p, axis=1)
    i = np.arange(len(states))
    return discrete_pit(rs, c[i, states] - p[i, states], p[i, states])


def uniform(what, u):
    u = u[~np.isnan(u)]
    if len(u) < 20:
        return 0
    p = ss.kstest(np.clip(u, 0, 1), "uniform").pvalue
    if p < P_KS:
        fail(f"{what}: {len(u)} transforms are not uniform (KS p = {p:.3g}, "
             f"mean {u.mean():.4f})")
    # variance, for over- and underdispersion near the centre
    z = ((u - .5) ** 2 - 1 / 12).sum() / np.sqrt(len(u) / 180)
    if len(u) > 200 and abs(z) > Z:
        fail(f"{what}: spread of the transforms is off by {z:.1f} sigma")
    return 1


def uncorrelated(what, a, b):
    ok = ~(np.isnan(a) | np.isnan(b))
    n = ok.sum()
    if n < 200:
        return
    z = 12 * ((a[ok] - .5) * (b[ok] - .5)).sum() / np.sqrt(n)
    if abs(z) > Z:
        fail(f"{what}: correlation of {z:.1f} sigma over {n} samples")


def support(spec, P, X, states, n, first=None):
    """Exact properties of a sample."""
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    X = np.asarray(X)
    states = np.asarray(states)
    if states.shape != (n,):
        fail(f"states have shape {states.shape}, expected ({n},)")
    if states.dtype.kind not in "iu" or states.min() < 0 or states.max() >= K:
        fail(f"states {states[:10]} of {states.dtype}")
    cols = 1 if fam == "cat" else F
    check_array("X", X, (n, cols), finite=True)
    if first is not None:
        if states[0] != first:
            fail(f"first state is {states[0]}, currstate was {first}")
    elif P["start"][states[0]] == 0:
        fail(f"first state {states[0]} has probability zero")
    p = P["trans"][states[:-1], states[1:]]
    if (p == 0).any():
        i = int(np.flatnonzero(p == 0)[0])
        fail(f"impossible transition {states[i]} -> {states[i + 1]}")
    if fam == "cat":
        if X.dtype.kind not in "iu":
            fail(f"symbols have dtype {X.dtype}")
        if X.min() < 0 or X.max() >= F:
            fail(f"symbols {X.ravel()[:20]} out of range({F})")
        if (P["emis"][states, X[:, 0]] == 0).any():
            fail("a symbol of probability zero was sampled")
    if fam == "mult":
        if X.dtype.kind not in "iu" or X.min() < 0:
            fail(f"counts of dtype {X.dtype}, minimum {X.min()}")
        if (X.sum(axis=1) != spec["_n"]).any():
            fail(f"rows sum to {np.unique(X.sum(axis=1))}, n_trials is {spec['_n']}")
        if (X[P["emis"][states] == 0] != 0).any():
            fail("a symbol of probability zero was sampled")
    if fam == "pois":
        if X.dtype.kind not in "iu" or X.min() < 0:
            fail(f"counts of dtype {X.dtype}, minimum {X.min()}")
        if (X[P["lam"][states] == 0] != 0).any():
            fail("a positive count was sampled from a zero rate")
    if fam in ("gauss", "gmm"):
        # no observation lies 30 standard deviations from its state
        for k in np.unique(states):
            s = states == k
            best = np.full(s.sum(), np.inf)
            for m in range(spec.get("M", 1)):
                if fam == "gmm" and P["weights"][k, m] == 0:
                    continue
                mu = P["means"][k] if fam == "gauss" else P["means"][k, m]
                c = P["cov"][k] if fam == "gauss" else P["cov"][k, m]
                d = X[s] - mu
                best = np.minimum(best, (d * np.linalg.solve(c, d.T).T).sum(axis=1))
            lim = 30 ** 2 + F
            if best.max() > lim and best.max() > lim * O.cond(c) * 1e-9:
                fail(f"an observation is {np.sqrt(best.max()):.3g} standard "
                     f"deviations away from state {k}")


def fresh(spec, P, X):
    """Continuous observations do not repeat."""
    if spec["fam"] not in ("gauss", "gmm"):
        return
    sd = np.sqrt(np.diagonal(P["cov"], axis1=-2, axis2=-1).min())
    if sd < 1e-6 * np.abs(P["means"]).max():
        return
    for lag in range(1, 9):
        n = (X[lag:] == X[:-lag]).all(axis=1).sum()
        if n > 2:
            fail(f"{n} observations equal the one {lag} before")


def sharpen(spec, P):
    """Well-separated components, so that swapped ones are visible."""
    rs = gen.rng(spec, 101)
    if spec["fam"] not in ("gauss", "gmm") or not spec["sharp"]:
        return
    shape = P["means"].shape
    n = int(np.prod(shape[:-1]))
    scale = 100 * np.sqrt(np.linalg.eigvalsh(P["cov"]).max())
    P["means"] = (rs.permutation(n)[:, None] * scale
                  * np.ones(shape[-1])).reshape(shape) + rs.randn(*shape)


def sampler(spec, P):
    """A model with parameters P in the family of *spec*."""
    fam = spec["fam"]
    if fam == "mult":
        spec["_n"] = spec["_ntrials"] = spec["n"]
    return gen.query_model(spec, P, random_state=spec["seed"] % 991)


def check(spec, ctx):
    spec["vary"] = False
    P = gen.build_params(spec)
    sharpen(spec, P)
    fam, K = spec["fam"], spec["K"]
    model = sampler(spec, P)
    rs = gen.rng(spec, 102)
    shared = np.random.RandomState(spec["seed"] % 7919)
    source = {"int": spec["seed"] % 10007, "object": shared, "model": None}[spec["rng"]]
    n = spec["N"]
    first = None
    if spec["curr"]:
        first = rs.randint(K) if spec["curr"] > 1 else 0
        first = [int, np.int64, np.int32, np.intp][spec["curr"] % 4](first)
        if spec["seed"] % 3 == 0 and n > 1:      # as in the documentation
            _, Zs = sut("sample", model.sample, 3, random_state=source)
            first = Zs[-1]
    kw = {"random_state": source}
    if first is not None:
        kw["currstate"] = first
    before = em.read(model, spec)
    X, states = sut("sample", model.sample, n, **kw)
    support(spec, P, X, states, n, first)
    for k, v in em.read(model, spec).items():
        check_same(f"{k} after sampling", v, before[k])
    X1, Z1 = sut("sample", model.sample, random_state=5)
    support(spec, P, X1, Z1, 1)
    # first states, one sample() each
    if spec["starts"]:
        rss = np.random.RandomState(spec["seed"] % 4801)
        zs, xs = [], []
        for _ in range(spec["starts"]):
            Xi, Zi = sut("sample", model.sample, 1, random_state=rss)
            zs.append(int(Zi[0]))
            xs.append(np.asarray(Xi)[0])
        zs = np.array(zs)
        if (P["start"][zs] == 0).any():
            fail("a start state of probability zero was sampled")
        c = np.cumsum(P["start"])
        u = discrete_pit(rs, c[zs] - P["start"][zs], P["start"][zs])
        uniform("start states", u)
        v = obs_pit(rs, fam, P, zs, np.array(xs))
        for j in range(v.shape[1]):
            uniform(f"first observations, coordinate {j}", v[:, j])
            uncorrelated("start state and its observation", u, v[:, j])
        uncorrelated("successive start states", u[1:], u[:-1])
    tested = 0
    if n >= 100:
        states = np.asarray(states)
        w = np.full(n, np.nan)
        w[1:] = state_pit(rs, P, states[:-1], states[1:])
        det = P["trans"][states[:-1], states[1:]] > 1 - 1e-12
        w[1:][det] = np.nan
        u = obs_pit(rs, fam, P, states, X)
        tested += uniform("transitions", w)
        for k in range(K):
            tested += uniform(f"transitions from state {k}", w[1:][states[:-1] == k])
            for j in range(u.shape[1]):
                tested += uniform(f"observations of state {k}, coordinate {j}",
                                  u[states == k, j])
        for lag in range(1, 9):
            uncorrelated(f"transitions {lag} apart", w[1 + lag:], w[1:-lag])
        fresh(spec, P, X)
        for j in range(u.shape[1]):
            tested += uniform(f"observations, coordinate {j}", u[:, j])
            uncorrelated("successive observations", u[1:, j], u[:-1, j])
            uncorrelated("observation and its transition", u[:, j], w)
            uncorrelated("observation and the next transition", u[:-1, j], w[1:])
            for lag in range(2, 9):
                uncorrelated(f"observations {lag} apart", u[:-lag, j], u[lag:, j])
            if fam != "gmm":
                for i in range(j):
                    uncorrelated(f"coordinates {i} and {j}", u[:, i], u[:, j])
    ctx.label(fam, spec.get("cv", ""), f"n={n}", f"currstate={first is not None}",
              "starts" if spec["starts"] else "", "tested" if tested else "support",
              "rng=" + spec["rng"])
    ctx.interesting(K > 1 or tested > 0)


def check_vb(spec, ctx):
    """Variational models sample from their point estimates."""
    _, X, lengths = vb.case(spec)
    fam = spec["fam"]
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    spec["impl"] = "log"
    model = vb.new_model(spec, kw, params="", init_params="", n_iter=1)
    vb.assign(model, prior, Q)
    sut("fit", model.fit, X, lengths)
    P = vb.normalized(spec, Q)
    if fam == "vgauss" and vb.conditioning(spec, Q) > 1e6:
        raise Skip
    s2 = dict(spec, fam=vb.BASE[fam])
    n = spec["N"]
    Xs, states = sut("sample", model.sample, n, random_state=spec["seed"] % 313)
    support(s2, P, Xs, states, n)
    rs = gen.rng(spec, 103)
    tested = 0
    if n >= 100:
        states = np.asarray(states)
        w = state_pit(rs, P, states[:-1], states[1:])
        u = obs_pit(rs, s2["fam"], P, states, Xs)
        fresh(s2, P, Xs)
        tested += uniform("transitions", w)
        for k in range(spec["K"]):
            for j in range(u.shape[1]):
                tested += uniform(f"observations of state {k}", u[states == k, j])
    ctx.label(fam, spec.get("cv", ""), "tested" if tested else "support")
    ctx.interesting(spec["K"] > 1)


def check_base(spec, ctx):
    """The plain BaseHMM samples a chain without observations."""
    from hmmlearn.base import BaseHMM
    P = gen.build_params(spec)
    m = BaseHMM(n_components=spec["K"], random_state=3)
    m.startprob_, m.transmat_ = P["start"], P["trans"]
    n = spec["N"]
    X, states = sut("sample", m.sample, n, random_state=spec["seed"] % 331)
    if np.shape(X) != (n, 0):
        fail(f"BaseHMM samples have shape {np.shape(X)}")
    states = np.asarray(states)
    if states.shape != (n,) or P["start"][states[0]] == 0 or (
            P["trans"][states[:-1], states[1:]] == 0).any():
        fail(f"impossible states {states[:20]}")
    w = state_pit(gen.rng(spec, 104), P, states[:-1], states[1:]) if n > 1 else np.zeros(0)
    uniform("transitions", w)
    ctx.interesting(spec["K"] > 1)


class Edgy(np.random.RandomState):
    """Uniform numbers that are often very near to 0 and 1."""

    def edge(self, u):
        """Each number is, half of the time, moved to an end of the interval."""
        u = np.array(u, dtype=float)
        a = np.abs(np.sin(u * 1e6)) * 1e6 % 1        # a function of u alone
        e = 10. ** -(2 + 10 * (a * 1e3 % 1))
        v = np.where(a < .25, e, np.where(a < .5, 1 - e, u))
        return float(v) if v.ndim == 0 else v

    def rand(self, *a):
        return self.edge(super().rand(*a))

    def random_sample(self, *a, **k):
        return self.edge(super().random_sample(*a, **k))

    def random(self, *a, **k):
        return self.edge(super().random(*a, **k))

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.edge(super().random_sample(size))


def check_edge(spec, ctx):
    """Nothing impossible is drawn, even with extreme random numbers."""
    spec["vary"] = False
    P = gen.build_params(spec)
    sharpen(spec, P)
    model = sampler(spec, P)
    n = spec["N"]
    rs = Edgy(spec["seed"] % 6007)
    X, states = sut("sample", model.sample, n, random_state=rs)
    support(spec, P, X, states, n)
    for i in range(20):
        k = i % spec["K"] if i < 10 else None
        Xi, Zi = sut("sample", model.sample, 3, random_state=rs, currstate=k)
        support(spec, P, Xi, Zi, 3, k)
    ctx.label(spec["fam"], spec["sp"], spec["tp"], spec.get("ep", ""))
    ctx.interesting(spec["K"] > 1)


EX = {"N": st.sampled_from([1, 2, 3, 10, 400, 1500]), "sharp": st.booleans(),
      "curr": st.sampled_from([0, 0, 1, 2, 3, 4, 5]),
      "starts": st.sampled_from([0, 0, 300]),
      "rng": st.sampled_from(["int", "object", "model"])}


def wide():
    return gen.wide_specs(max_states=260, extra=st.fixed_dictionaries(
        dict(EX, N=st.sampled_from([1, 10, 400, 3000]), starts=st.sampled_from([0, 0, 100]))))


FACETS = [
    Facet("em", lambda: gen.specs(
        emodes=["dense", "uniform", "zeros", "peaky", "grid"], regimes=(75, 97),
        kmax=12, max_T=20, lens=False, extra=st.fixed_dictionaries(EX)), check, 1000),
    Facet("wide", wide, check, 150),
    Facet("edge", lambda: gen.specs(
        emodes=["dense", "zeros", "peaky", "tiny", "grid"], regimes=(75, 97), kmax=12,
        max_T=20, lens=False, extra=st.fixed_dictionaries(
            {"N": st.sampled_from([1, 3, 100, 300]), "sharp": st.booleans()})),
          check_edge, 500),
    Facet("vb", lambda: vb.specs(extra={"N": EX["N"]}, max_T=30), check_vb, 250),
    Facet("base", lambda: gen.specs(["cat"], lens=False, max_T=5,
                                    extra=st.fixed_dictionaries({"N": EX["N"]})),
          check_base, 250),
]
