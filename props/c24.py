"""The stationary distribution."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.core import Facet, Skip, check_close, check_same, fail, must_raise, sut

RULE = ("generated transition matrices with one closed class (dense, sparse, "
        "periodic, with transient states, nearly decoupled, very uneven, up to "
        "60 states, rows in any order) against the GTH elimination of the closed "
        "class, which is accurate entrywise; non-trivial: more than one state")


def closed_classes(A):
    """Closed communicating classes of the graph of A."""
    n = len(A)
    R = (A > 0) | np.eye(n, dtype=bool)
    for _ in range(max(1, int(np.ceil(np.log2(n + 1))))):
        R = (R.astype(int) @ R.astype(int)) > 0
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        cls = [j for j in range(n) if R[i, j] and R[j, i]]
        seen.update(cls)
        if not any(R[i, j] and not R[j, i] for j in range(n)):
            out.append(cls)
    return out


def gth(A):
    """Stationary distribution of an irreducible chain without subtractions."""
    A = np.array(A, float)
    n = len(A)
    for k in range(n - 1, 0, -1):
        s = A[k, :k].sum()
        A[:k, k] /= s
        A[:k, :k] += np.outer(A[:k, k], A[k, :k])
    pi = np.zeros(n)
    pi[0] = 1
    for k in range(1, n):
        pi[k] = pi[:k] @ A[:k, k]
    return pi / pi.sum()


def matrix(spec):
    K, mode = spec["K"], spec["mode"]
    rs = gen.rng(spec, 150)
    if mode == "cycle":
        A = np.roll(np.eye(K), 1, axis=1)
    elif mode == "periodic":          # several states per phase
        phase = np.arange(K) % spec["period"]
        A = rs.dirichlet(np.ones(K), size=K) + 1e-3
        A *= (phase[None, :] == (phase[:, None] + 1) % spec["period"])
        if (A.sum(axis=1) == 0).any():
            A = np.roll(np.eye(K), 1, axis=1)
    elif mode == "transient":         # upper block leads into the last states
        A = rs.dirichlet(np.ones(K), size=K) + 1e-3
        t = rs.randint(0, K)
        A[t:, :t] = 0
    elif mode == "absorbing":
        A = rs.dirichlet(np.ones(K), size=K) + 1e-3
        A[-1] = np.eye(K)[-1]
    elif mode == "coupled":           # two blocks that rarely communicate
        h = rs.rand(K) < .5
        A = rs.dirichlet(np.ones(K), size=K) + 1e-3
        A[h[:, None] != h[None, :]] *= 10. ** -rs.randint(1, 10)
    elif mode == "walk":              # birth and death with a drift
        p = rs.uniform(.2, .8)
        A = np.zeros((K, K))
        for i in range(K):
            A[i, min(i + 1, K - 1)] += p
            A[i, max(i - 1, 0)] += 1 - p
    elif mode == "random":
        A = rs.rand(K, K) * (rs.rand(K, K) < rs.choice([.2, .5]))
        A[np.arange(K), rs.randint(K, size=K)] += .1
    elif mode == "same":
        A = np.tile(rs.dirichlet(np.ones(K)), (K, 1))
    else:
        A = gen.prob_rows(rs, K, K, mode, True)
    A = gen.norm(np.asarray(A, float))
    p = rs.permutation(K)
    return A[np.ix_(p, p)]


def check(spec, ctx):
    from hmmlearn.base import BaseHMM
    A = matrix(spec)
    K = len(A)
    cl = closed_classes(A)
    if len(cl) != 1:
        raise Skip
    c = cl[0]
    want = np.zeros(K)
    want[c] = gth(A[np.ix_(c, c)])
    ev = np.linalg.eigvals(A)
    gap = np.sort(np.abs(ev - 1))[1] if K > 1 else 1
    if gap < 1e-9 or not np.isfinite(want).all():
        raise Skip
    # sensitivity of the distribution
    Zm = np.linalg.inv(np.eye(K) - A + np.outer(np.ones(K), want))
    sens = np.abs(Zm).sum(axis=1).max()
    # an eigenvector for an eigenvalue at distance gap from the next one
    tol = 1e-13 * K * max(sens, 1 / gap) + 1e-12
    if not tol < 1e-2:
        raise Skip
    if spec["fam"] == "base":
        m = BaseHMM(K)
    else:
        m = gen.cls(spec["fam"])(K)
    e = must_raise("get_stationary_distribution of an unfitted model",
                   m.get_stationary_distribution)
    given = [A, np.asfortranarray(A), np.ascontiguousarray(A)][spec["seed"] % 3].copy(order="K")
    use = spec["seed"] // 3 % 4
    if use == 1:                      # asked before about other transitions
        m.transmat_ = np.roll(A, 1, axis=1)
        sut("get_stationary_distribution", m.get_stationary_distribution)
    elif use == 2:
        given = np.roll(A, 1, axis=1)
        m.transmat_ = given
        sut("get_stationary_distribution", m.get_stationary_distribution)
        given[...] = A
    m.transmat_ = given
    got = sut("get_stationary_distribution", m.get_stationary_distribution)
    got = np.asarray(got)
    if got.dtype.kind == "c":
        fail(f"the distribution is complex: {got[:5]}")
    check_close("stationary distribution", got, want, atol=tol)
    if (got < -tol).any():
        fail(f"negative probabilities {got.min()}")
    check_close("its sum", got.sum(), 1., atol=1e-12)
    check_close("distribution times transmat_", got @ A, got, atol=1e-12 * K)
    check_same("transmat_ afterwards", m.transmat_, A)
    again = sut("get_stationary_distribution", m.get_stationary_distribution)
    check_same("asked again", again, got)
    ctx.label(spec["mode"], "transient" if len(c) < K else "irreducible")
    ctx.interesting(K > 1)


MODES = ["dense", "uniform", "zeros", "sticky", "peaky", "grid", "tiny", "block",
         "leftright", "cycle", "periodic", "transient", "absorbing", "coupled",
         "walk", "random", "same"]


def strat():
    return st.fixed_dictionaries({
        "K": st.one_of(st.integers(1, 6), st.integers(2, 15), st.integers(2, 60)),
        "mode": st.sampled_from(MODES), "period": st.integers(2, 4),
        "seed": st.integers(0, 2**20),
        "fam": st.sampled_from(["base", "cat", "gauss", "gmm", "pois", "mult"])})


FACETS = [Facet("matrix", strat, check, 4000)]
