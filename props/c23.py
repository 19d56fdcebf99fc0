"""The variational lower bound."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, runs, vb
from lib.core import Facet, Skip, check_close, fail

from . import vbcheck

RULE = ("generated priors, posteriors, data, splits and trained subsets; the "
        "recorded values minus the reference bound must be one constant for all "
        "iterations and for other data, priors and posteriors of the same size; "
        "in longer trainings of all parameters the recorded values must not "
        "decrease; non-trivial: two values compared")


def gaps(spec, ctx):
    """Recorded minus reference bound of each iteration, with tolerances."""
    model, X, lengths, prior, hist, got = vbcheck.run(spec, ctx, ())
    H = list(model.monitor_.history)
    if len(H) != len(hist):
        fail(f"{len(H)} values recorded in {len(hist)} iterations")
    out = []
    for h, (v, Q, full) in zip(H, hist):
        if spec["fam"] == "vgauss" and np.min(Q["dof"]) <= spec["F"] - 1:
            continue
        c = vb.conditioning(spec, Q)
        tol = (10 * full.tol + 1e-9 * (1 + abs(v)) + 1e-13 * c * (1 + abs(v))
               + 1e-12 * sum(np.abs(q).sum() for q in Q.values()))
        if not np.isfinite(h):
            fail(f"the recorded bound is {h}, the reference is {v}")
        out.append((h - v, tol, v))
    return out


def check(spec, ctx):
    first = gaps(spec, ctx)
    if not first:
        raise Skip
    c, tol, _ = min(first, key=lambda g: g[1])
    for i, (g, t, v) in enumerate(first):
        check_close(f"recorded minus reference bound ({v:.6g}), iteration {i}",
                    g, c, atol=t + tol)
    n = len(first)
    other = dict(spec, seed=spec["seed"] + 1, drop=0, steps=1, start="set",
                 qscale=1., prior=spec["prior2"],
                 fam=vb.BASE.get(spec["fam"], spec["fam"]))
    try:
        second = gaps(other, type(ctx)())
    except Skip:
        second = []
    for g, t, v in second:
        check_close(f"recorded minus reference bound ({v:.6g}) of other data and "
                    "posteriors of the same size", g, c, atol=t + tol)
        n += 1
    # nor does it depend on the data and the posterior through the states:
    ctx.interesting(n > 1)


def check_mono(spec, ctx):
    run = runs.Run(spec)
    spec = run.spec
    if not run.viable():
        raise Skip
    m = run.new(random_state=spec["seed"] % 1009, n_iter=spec["N"],
                params=run.codes)
    r = run.fit(m)
    if r[0] == "raised":
        if spec["impl"] == "scaling":
            raise Skip
        fail(f"fit raised {r[1]}")
    H = np.array(list(m.monitor_.history), float)
    if not np.isfinite(H).all():
        fail(f"recorded bounds {H[:10]}")
    Q = vb.read(m, run.prior)
    c = vb.conditioning(spec, Q)
    if c > 1e8:
        raise Skip
    xs = np.abs(np.asarray(run.X, float)).max() ** 2 if spec["fam"] == "vgauss" else 1
    tol = 1e-8 * (1 + np.abs(H).max()) + 1e-13 * c * (1 + xs) * len(run.X)
    d = np.diff(H)
    if (d < -tol).any():
        i = int(np.argmin(d))
        fail(f"the bound falls from {H[i]!r} to {H[i + 1]!r} at iteration {i + 1} "
             f"(tolerance {tol:.3g})")
    ctx.label(run.fam, spec.get("cv", ""), spec["start"], "prior=" + spec["prior"])
    ctx.interesting(len(H) > 2 and spec["K"] > 1)


FACETS = [
    Facet("value", lambda: vb.specs(extra={
        "steps": st.sampled_from([1, 2, 3]),
        "start": st.sampled_from(["set", "set", "fit"]),
        "prior2": st.sampled_from(["default", "scalar", "array"]),
        "drop": st.sampled_from([0, 0, 1, 2, 3])}), check, 2000),
    Facet("monotone", lambda: runs.specs(
        ["vcat", "vgauss"], max_T=120, kmax=6,
        extra={"N": st.sampled_from([5, 12, 30])}), check_mono, 600),
]
