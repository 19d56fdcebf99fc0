"""Shared body of C21-C23: variational iterations against the reference."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import Skip, attr, check_close, check_same, fail, sut


def strategy(fams):
    return lambda: vb.specs(fams, extra={
        "steps": st.sampled_from([1, 1, 2, 3]),
        "start": st.sampled_from(["set", "set", "fit"]),
        "drop": st.sampled_from([0, 0, 1, 2, 3])})


def extras():
    return st.fixed_dictionaries({
        "steps": st.just(1), "start": st.sampled_from(["set", "set", "set", "fit"]),
        "drop": st.sampled_from([0, 0, 1, 2, 3]), "qscale": st.sampled_from([1., .1, 30.]),
        "prior": st.sampled_from(["default", "scalar", "array"])})


def wide(fams):
    """Many states, symbols or features."""
    def enough(spec):               # the clustering needs a point for each state
        if spec["fam"] == "gauss" and spec["T"] <= spec["K"]:
            spec["T"] = spec["K"] + spec["seed"] % 40
        return spec
    return lambda: gen.wide_specs([vb.BASE[f] for f in fams], max_states=200,
                                  extra=extras()).map(enough)


def long(fams):
    """Many frames or many sequences."""
    base = [vb.BASE[f] for f in fams]
    return lambda: st.one_of(
        gen.long_specs(base, extra=extras(), Ts=(33000, 66000)),
        gen.long_specs(base, extra=extras(), Ts=(700, 2000), many=True))


def joint(fams):
    """Several states, features and sequences at once."""
    return lambda: gen.joint_specs([vb.BASE[f] for f in fams], extra=st.fixed_dictionaries({
        "steps": st.sampled_from([1, 2]), "start": st.sampled_from(["set", "set", "fit"]),
        "drop": st.sampled_from([0, 0, 1, 2, 3]), "qscale": st.sampled_from([1., .1, 30.]),
        "prior": st.sampled_from(["default", "scalar", "array", "array"])}))


def subset(spec):
    codes = gen.CODES[spec["fam"]]
    if not spec["drop"]:
        return codes
    rs = gen.rng(spec, 72)
    keep = [c for c in codes if rs.rand() < .6] or [codes[spec["drop"] % len(codes)]]
    if "c" in keep and "m" not in keep:
        keep.append("m")
    rs.shuffle(keep)
    return "".join(keep)


def prepare(spec, ctx):
    """A model with priors and a posterior, ready for training from it."""
    P, X, lengths = vb.case(spec)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    args = (X, lengths)
    if spec["start"] == "set":
        Q = vb.posterior(spec, X)
        model = vb.new_model(spec, kw, init_params="", n_iter=1, tol=-np.inf)
        used = spec["seed"] % 4 == 0
        if used:            # trained from another posterior before
            vb.assign(model, prior, vb.posterior(dict(spec, seed=spec["seed"] + 7), X))
            try:
                model.fit(X, lengths)
                model.score(X)
            except Exception:  # noqa: BLE001
                pass
        vb.assign(model, prior, Q, inplace=used and spec["seed"] % 8 == 0)
    else:
        model = vb.new_model(spec, kw, n_iter=1, tol=-np.inf,
                             random_state=spec["seed"] % 1000)
        try:
            model.fit(*args)
        except Exception:
            # an initialization the data cannot support
            if spec["fam"] == "vgauss" or spec["impl"] == "scaling":
                raise Skip
            raise
        Q = vb.read(model, prior)
        got = vb.read(model, prior, "prior")
        for k in prior:
            check_close(f"{vb.ATTR[k]}_prior_", got[k], prior[k], rtol=1e-9,
                        atol=1e-12)
        if not all(np.isfinite(v).all() for v in Q.values()):
            raise Skip
        sut("set_params", model.set_params, init_params="")
    return model, X, lengths, prior, Q


def tolerances(spec, X, full, prior, new):
    T = len(X)
    Xf = np.asarray(X, float)
    g = 1e-11 + 4 * full.rtol
    xs = max(np.abs(Xf).max(), np.abs(prior["means"]).max()) + 1 \
        if spec["fam"] == "vgauss" else 1.
    t = {"start": 1e-9 + g * T, "trans": 1e-9 + g * T, "emis": 1e-9 + g * T,
         "beta": 1e-9 + g * T, "dof": 1e-9 + g * T,
         "means": 1e-9 + g * T * xs * 10,
         "scale": 1e-9 + (g * T + 1e-13 * (T + 10)) * xs ** 2 * 10}
    return t


def run(spec, ctx, which):
    model, X, lengths, prior, Q = prepare(spec, ctx)
    params = subset(spec)
    steps = spec["steps"]
    hist, cur, tol, done = [], Q, None, 0
    loose = 1.
    for i in range(steps):
        if vb.conditioning(spec, cur) > 1e7:
            break
        full = vb.estep(spec, cur, X, lengths)
        if full.gtol > 1e-6 or not full.possible:
            break
        if spec["impl"] == "scaling" and full.scaling_status() != "ok":
            break
        hist.append((vb.bound(spec, prior, cur, full), cur, full))
        cur, n = vb.mstep(spec, prior, cur, full, X, params)
        done += 1
    if not done:
        raise Skip
    want, full = cur, hist[-1][2]
    sut("set_params", model.set_params, n_iter=done, params=params)
    sut("fit", model.fit, X, lengths)
    got = vb.read(model, prior)
    tol = tolerances(spec, X, full, prior, want)
    loose = [1, 100, 1e4][done - 1]
    judge = True
    if tol["scale"] * loose > 1e-3 * max(1e-3, np.abs(want.get("scale", 1.)).min()):
        judge = done == 1
    if judge:
        for k in want:
            if k in which:
                check_close(f"{vb.ATTR[k]}_posterior_", got[k], want[k],
                            atol=tol[k] * loose, rtol=1e-9 * loose)
    codes = {"start": "s", "trans": "t", "emis": "e", "means": "m", "beta": "m",
             "dof": "c", "scale": "c"}
    for k in got:
        if codes[k] not in params:
            check_same(f"untrained {vb.ATTR[k]}_posterior_", got[k], Q[k])
    pg = vb.read(model, prior, "prior")
    for k in pg:
        check_close(f"{vb.ATTR[k]}_prior_ after training", pg[k], prior[k],
                    rtol=1e-9, atol=1e-12)
    # the point estimates used for scoring are those of the posterior
    nm = vb.normalized(spec, got)
    pt = em.read(model, spec)
    for k in pt:
        check_close(f"point estimate of {k}", pt[k], nm[k], rtol=1e-9, atol=1e-300)
    ctx.label(spec["fam"], spec.get("cv", ""), spec["impl"], f"steps={done}",
              "start=" + spec["start"], "prior=" + spec["prior"],
              "all" if not spec["drop"] else "subset",
              "judged" if judge else "not judged")
    ctx.interesting(judge and spec["K"] > 1 and len(X) > 1)
    return model, X, lengths, prior, hist, got


