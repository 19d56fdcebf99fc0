"""Forbidden starts and transitions stay forbidden."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O
from lib.core import Facet, Skip, check_close, fail, sut

RULE = ("generated model with zero starts and transitions, a history of up to "
        "five fits (new data, iterations, Dirichlet priors, implementation, "
        "trained subset); after each fit the zeros are exact, the rest is a "
        "distribution, and single iterations match the restricted reference "
        "M-step; non-trivial: several states, at least one zero and two fits")

ZERO = ["zeros", "leftright", "cyclic", "block", "zeros"]


def prior(rs, kind, shape):
    if kind == 0:
        return 1.
    if kind == 1:
        return float(rs.choice([.5, 1.5, 3]))
    if kind == 2:
        return rs.uniform(.3, 5, size=shape)
    return int(rs.choice([1, 2, 5]))


def trainable(model, spec, P, full):
    """Whether the next iterations cannot hit dead states."""
    return bool((full.gamma.sum(axis=0) > 1e-4).all())


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam, K = spec["fam"], spec["K"]
    z = {"start": P["start"] == 0, "trans": P["trans"] == 0}
    cur = dict(P)
    model = gen.make_model(spec, P, tol=-np.inf, n_iter=1)
    codes = gen.CODES[fam]
    fits, judged = 0, 0
    for i, op in enumerate(spec["ops"]):
        rs = gen.rng(dict(spec, seed=spec["seed"] + 1000 * i), 95)
        s2 = dict(spec, seed=spec["seed"] + i * 17, impl=op["impl"])
        lengths = gen.build_lengths(s2)
        X = gen.build_data(s2, P, lengths)
        if fam == "mult":
            model.n_trials = X.sum(axis=1)
        full = O.Full(fam, cur, X, lengths)
        if not full.possible or full.gtol > 1e-5:
            continue
        if op["impl"] == "scaling" and full.scaling_status() != "ok":
            continue
        mass = full.gamma.sum(axis=0)
        n_iter = op["n"]
        if (mass < 1e-3).any() or fam in ("gauss", "gmm"):
            n_iter = 1
        params = codes if op["all"] else "st"
        if fam in ("gauss", "gmm") and len(X) < 4 * K * (spec["F"] + 2):
            params = "st"
        if (mass < 1e-3).any():
            params = "st"
        sp, tp = prior(rs, op["sp"], K), prior(rs, op["tp"], (K, K))
        sut("set_params", model.set_params, startprob_prior=sp, transmat_prior=tp,
            n_iter=n_iter, params=params, implementation=op["impl"])
        ref = O.mstep_start_trans(cur, full, sp, tp, "st")
        if ref["start_raw"].sum() < 1e-9 or (params != "st" and (mass < 1e-2).any()):
            continue
        if n_iter > 1 and (np.any(np.asarray(sp) < 1) or np.any(np.asarray(tp) < 1)
                           or len(X) < 8 * K):
            n_iter = 1
            sut("set_params", model.set_params, n_iter=1)
        try:
            model.fit(X, lengths)
        except ValueError:
            if n_iter > 1 or fam in ("gauss", "gmm"):
                break           # a degenerate solution on the way
            raise
        fits += 1
        new = em.read(model, spec)
        for name in ("start", "trans"):
            bad = np.argwhere(z[name] & (new[name] != 0))
            if len(bad):
                j = tuple(bad[0])
                fail(f"fit {i}: forbidden {name}{[int(v) for v in j]} became "
                     f"{new[name][j]!r}")
            if (new[name] < 0).any():
                fail(f"fit {i}: negative {name}")
        if n_iter == 1:
            g = (1e-11 + 4 * full.rtol)
            tol = em.prob_tol(ref["start_raw"], sp, g)
            if tol.max() < 1e-3:
                check_close(f"fit {i}: startprob_", new["start"], ref["start"], atol=tol)
                judged += 1
            tol = em.prob_tol(ref["trans_raw"], tp, g)
            for k in np.flatnonzero((tol < 1e-3).all(axis=1)):
                check_close(f"fit {i}: transmat_[{k}]", new["trans"][k],
                            ref["trans"][k], atol=tol[k])
                judged += 1
        if not np.isfinite(new["start"]).all() or not np.isfinite(new["trans"]).all():
            break
        for name in ("start", "trans"):
            s = new[name].sum(axis=-1)
            if np.abs(np.where(s == 0, 1, s) - 1).max() > 1e-8:
                fail(f"fit {i}: {name} sums to {s}")
        if (new["trans"].sum(axis=1) == 0).any():
            break               # a state that is never left in the data
        if not all(np.isfinite(v).all() for v in new.values()):
            break
        if "cov" in new:
            e = np.linalg.eigvalsh(new["cov"])
            if (e[..., 0] < 1e-6 * np.maximum(e[..., -1], 1)).any():
                break
        if "emis" in new and np.abs(new["emis"].sum(axis=1) - 1).max() > 1e-8:
            break
        cur = new
        z = {n: z[n] | (cur[n] == 0) for n in z}
    ctx.label(fam, f"fits={fits}", "judged" if judged else "",
              "zeros" if z["trans"].any() or z["start"].any() else "no zero")
    ctx.interesting(K > 1 and fits >= 2 and (z["trans"].any() or z["start"].any()))


OP = st.fixed_dictionaries({
    "n": st.sampled_from([1, 1, 2, 5]), "all": st.booleans(),
    "sp": st.integers(0, 3), "tp": st.integers(0, 3),
    "impl": st.sampled_from(["log", "scaling"])})
FACETS = [Facet("history", lambda: gen.specs(
    gen.EMF, pmodes=ZERO, emodes=["dense", "uniform", "peaky", "grid", "zeros"],
    xmodes=("model", "model", "outlier", "uniform"),
    regimes=(60, 96), max_T=150, kmax=8, min_T=4,
    extra=st.fixed_dictionaries({"ops": st.lists(OP, min_size=2, max_size=5)})),
    check, 3500)]
