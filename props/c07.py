"""Training treats sequences as independent, exchangeable samples."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import Facet, Skip, attr, check_close, fail, sut

RULE = ("generated model, data, split and priors; training on permuted, "
        "replicated and re-placed sequences against training on the original; "
        "non-trivial: at least 2 sequences (before replication) and 2 states")


def reorder(X, lengths, order):
    parts = [X[s] for s in O.split(lengths)]
    return (np.concatenate([parts[i] for i in order]),
            [lengths[i] for i in order])


def train(spec, P, X, lengths, **kw):
    s = dict(spec)
    if s["fam"] == "mult":
        s["_ntrials"] = np.asarray(X).sum(axis=1)
    m = gen.make_model(s, P, tol=-np.inf, **kw)
    sut("fit", m.fit, X, lengths)
    return m, em.read(m, spec)


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam = spec["fam"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-6:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    op = spec["op"]
    rs = gen.rng(spec, 90)
    k = 1
    if op == "replicate":
        k = int(rs.choice([2, 3, 5]))
        pri = em.priors(spec, "flat")
        order = np.tile(np.arange(len(lengths)), k)
        if rs.rand() < .5:
            order = rs.permutation(order)
    else:
        pri = em.priors(spec, spec["prior"])
        order = np.arange(len(lengths))
        if op == "reverse":
            order = order[::-1]
        elif op == "lonely first":       # sequences of length one moved around
            order = np.argsort(np.asarray(lengths) != 1, kind="stable")
        elif op == "lonely last":
            order = np.argsort(np.asarray(lengths) == 1, kind="stable")
        else:
            order = rs.permutation(order)
    params = gen.CODES[fam]
    want, info = em.expected(spec, P, X, lengths, full, pri, params)
    if "start_raw" in info and info["start_raw"].sum() < 1e-6:
        raise Skip
    X2, L2 = reorder(X, lengths, order)
    X2 = X2.astype(X.dtype)
    m1, g1 = train(spec, P, X, lengths, n_iter=1, **pri)
    m2, g2 = train(spec, P, X2, L2, n_iter=1, **pri)
    # Judged with the tolerances of the reference, but against each other.
    which = params
    if k > 1 and info["mass"].min() < 2e-5:
        which = params.replace("c", "")      # the documented floor of the divisor
    judged = em.compare(g2, {**want, **{n: g1[n] for n in g1}}, info, spec, X, full,
                        which, params, loose=4. * k, pri=pri)
    check_close("log-likelihood of the rearranged data", m2.monitor_.history[0],
                k * m1.monitor_.history[0], atol=(k + 1) * full.tol)
    check_close("log-likelihood", m1.monitor_.history[0], full.loglik, atol=full.tol)
    ctx.label(fam, spec.get("cv", ""), op, spec["impl"],
              "has length 1" if 1 in lengths else "no length 1")
    ctx.interesting(judged > 0 and len(lengths) > 1 and spec["K"] > 1)


def check_merge(spec, ctx):
    """No transition is counted between the end of one sequence and the next."""
    P, X, lengths = gen.case(spec)
    fam, K = spec["fam"], spec["K"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-6:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    # the transition counts as the sum of those of each sequence alone,
    # recovered through a large known prior
    big = 10.
    counts, starts = np.zeros((K, K)), np.zeros(K)
    for s, n in zip(O.split(lengths), lengths):
        _, g = train(spec, P, X[s], [n], n_iter=1, params="st",
                     transmat_prior=1. + big, startprob_prior=1. + big)
        allowed = P["trans"] > 0
        tot = n - 1 + 0.
        # row i: (big + c_ij) / (big * allowed_i + sum_j c_ij)
        q = O.Full(fam, P, X[s], [n])
        c = q.trans_counts()
        rowsum = c.sum(axis=1) + big * allowed.sum(axis=1)
        counts += np.where(allowed, g["trans"] * rowsum[:, None] - big, 0)
        a = P["start"] > 0
        starts += np.where(a, g["start"] * (1 + big * a.sum()) - big, 0)
    _, g = train(spec, P, X, lengths, n_iter=1, params="st")
    if abs(starts.sum() - len(lengths)) > 1e-6:
        fail(f"start counts of {len(lengths)} sequences sum to {starts.sum()}")
    check_close("startprob_", g["start"], starts / starts.sum(), atol=1e-6)
    if abs(counts.sum() - (len(X) - len(lengths))) > 1e-6 * len(X):
        fail(f"transition counts sum to {counts.sum()}, expected "
             f"{len(X) - len(lengths)}")
    rs = counts.sum(axis=1)
    for i in np.flatnonzero(rs > 1e-3):
        check_close(f"transmat_[{i}]", g["trans"][i], counts[i] / rs[i],
                    atol=1e-7 * (1 + len(X) / rs[i]))
    ctx.label(fam, spec["impl"], "has length 1" if 1 in lengths else "no length 1")
    ctx.interesting(len(lengths) > 1 and K > 1)


def check_vb(spec, ctx):
    P, X, lengths = vb.case(spec)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    full = vb.estep(spec, Q, X, lengths)
    if (not full.possible or full.gtol > 1e-6 or vb.conditioning(spec, Q) > 1e6
            or spec["impl"] == "scaling" and full.scaling_status() != "ok"):
        raise Skip
    order = gen.rng(spec, 91).permutation(len(lengths))
    out = []
    for XX, LL in ((X, lengths), reorder(X, lengths, order)):
        m = vb.new_model(spec, kw, init_params="", n_iter=1, tol=-np.inf)
        vb.assign(m, prior, Q)
        sut("fit", m.fit, XX, LL)
        out.append((vb.read(m, prior), m.monitor_.history[0]))
    xs = np.abs(np.asarray(X, float)).max() + 1
    g = (1e-11 + 8 * full.rtol) * len(X)
    for k in out[0][0]:
        scale = {"means": xs * 10, "scale": xs ** 2 * 10}.get(k, 1.)
        check_close(f"posterior of {k}", out[1][0][k], out[0][0][k],
                    atol=1e-9 + (g + 1e-13 * len(X)) * scale, rtol=1e-9)
    check_close("lower bound", out[1][1], out[0][1], atol=2 * full.tol, rtol=1e-11)
    ctx.label(spec["fam"])
    ctx.interesting(len(lengths) > 1 and spec["K"] > 1)


OPS = ["permute", "permute", "reverse", "replicate", "replicate", "lonely first",
       "lonely last"]
EX = st.fixed_dictionaries({"op": st.sampled_from(OPS),
                            "prior": st.sampled_from(["flat", "int", "scalar", "array"])})
ARGS = dict(regimes=(65, 95), max_T=150, kmax=8, min_T=2)
FACETS = [
    Facet("rearranged", lambda: gen.specs(extra=EX, **ARGS), check, 3000),
    Facet("counts", lambda: gen.specs(
        pmodes=["dense", "zeros", "sticky", "leftright", "grid"], **ARGS), check_merge, 1200),
    Facet("variational", lambda: vb.specs(), check_vb, 700),
    Facet("many", lambda: gen.long_specs(many=True, Ts=(900, 3000, 9000, 33000), extra=EX),
          check, 48),
]
