"""Shared body of C08-C11: iterations of fit() against the reference M-step."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O
from lib.core import Skip, check_close, fail, sut

PRIORS = ["flat", "int", "scalar", "array", "row"]


def strategy(fams, **kw):
    def make():
        args = dict(regimes=(62, 92), max_T=300, units=(1., 1., 1., 1e-7, 1e5), extra=st.fixed_dictionaries({
            "prior": st.sampled_from(PRIORS),
            "steps": st.sampled_from([1, 1, 1, 2]),
            "drop": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]),
        }))
        args.update(kw)
        return gen.specs(fams, **args)
    return make


def long(fams):
    """Many frames or many sequences."""
    def make():
        ex = st.fixed_dictionaries({"prior": st.sampled_from(PRIORS),
                                    "steps": st.just(1), "drop": st.just(0)})
        return st.one_of(
            gen.long_specs(fams, extra=ex, Ts=(33000, 66000)),
            gen.long_specs(fams, extra=ex, Ts=(700, 2000), many=True))
    return make


def wide(fams):
    """Many states, features or mixture components."""
    def make():
        return gen.wide_specs(fams, max_states=200, extra=st.fixed_dictionaries({
            "prior": st.sampled_from(PRIORS), "steps": st.just(1),
            "drop": st.sampled_from([0, 0, 0, 1, 2, 3])}))
    return make


def joint(fams):
    """Several states, features, components and sequences at once."""
    def make():
        return gen.joint_specs(fams, extra=st.fixed_dictionaries({
            "prior": st.sampled_from(PRIORS), "steps": st.sampled_from([1, 1, 2]),
            "drop": st.sampled_from([0, 0, 1, 2, 3])}))
    return make


def params_of(spec):
    """The trained parameters: all of them, or a random subset."""
    codes = gen.CODES[spec["fam"]]
    if not spec["drop"]:
        return codes
    rs = gen.rng(spec, 60)
    keep = [c for c in codes if rs.rand() < .6]
    if not keep:
        keep = [codes[spec["drop"] % len(codes)]]
    if spec["drop"] % 2:
        rs.shuffle(keep)
    return "".join(keep)


def run(spec, ctx, which):
    P, X, lengths = gen.case(spec)
    fam = spec["fam"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    params = params_of(spec)
    pri = em.priors(spec, spec["prior"])
    want, info = em.expected(spec, P, X, lengths, full, pri, params)
    steps, loose = 1, 1.
    if "start_raw" in info and info["start_raw"].sum() < 1e-6:
        raise Skip
    first = full
    if spec["steps"] == 2 and usable(spec, want, info, P):
        nxt = O.Full(fam, want, X, lengths)
        if (nxt.possible and nxt.gtol < 1e-6
                and (spec["impl"] == "log" or nxt.scaling_status() == "ok")):
            w2, i2 = em.expected(spec, want, X, lengths, nxt, pri, params)
            if not ("start_raw" in i2 and i2["start_raw"].sum() < 1e-6):
                want, info, full, steps, loose = w2, i2, nxt, 2, 1e3
    model = gen.make_model(spec, P, params=params, n_iter=steps, tol=-np.inf, **pri)
    args = (X,) if len(lengths) == 1 and spec["seed"] % 2 else (X, lengths)
    r = sut("fit", model.fit, *args)
    if r is not model:
        fail("fit() does not return the model")
    got = em.read(model, spec)
    judged = em.compare(got, want, info, spec, X, full, params, which, loose, pri)
    em.unchanged(got, P, spec, params)
    h = list(model.monitor_.history)
    if len(h) != steps:
        fail(f"{len(h)} values in the history after {steps} iterations")
    check_close("history[0]", h[0], first.loglik, atol=first.tol)
    ctx.label(fam, spec.get("cv", ""), spec["impl"], "prior=" + spec["prior"],
              f"steps={steps}", "subset" if spec["drop"] else "all params",
              "nseq>1" if len(lengths) > 1 else "nseq=1",
              "judged" if judged else "nothing judged")
    ctx.interesting(judged > 0 and spec["K"] > 1 and len(X) > 1)


def usable(spec, want, info, P):
    """Whether a second iteration from the reference parameters is sound."""
    if (info["mass"] < 1e-3).any():
        return False
    for k, v in want.items():
        if k != "native" and not np.isfinite(v).all():
            return False
    for name in ("trans", "emis", "weights"):
        if name in want and (np.abs(want[name].sum(axis=-1) - 1) > 1e-6).any():
            return False
        if name in want and (want[name] < 0).any():
            return False
    if "mix" in info and (info["mix"] < 1e-3).any():
        return False
    if "cov" in want:
        e = np.linalg.eigvalsh(want["cov"])
        if (e[..., 0] <= 1e-5 * np.maximum(e[..., -1], 1)).any():
            return False
        # cancellation in the covariance update relative to the covariance
        if e[..., 0].min() < 1e-7 * (np.abs(want["means"]).max() + 1) ** 2:
            return False
    return True
