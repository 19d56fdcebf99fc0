"""MAP decoding, and which decoder runs."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle as O
from lib.core import Facet, Skip, check_close, check_same, fail, sut
from .c03 import check_path

RULE = ("generated models, data and splits x algorithm attribute x argument; "
        "non-trivial: the Viterbi and MAP paths differ, or attribute and "
        "argument disagree, with at least 2 states and 2 frames")
FINDING = "map-log-prob-is-sum-of-posteriors"


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    full = O.Full(spec["fam"], P, X, lengths)
    if not full.possible or full.gtol > 1e-4:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    K, T = spec["K"], len(X)
    attr_, arg = spec["attr"], spec["arg"]
    model = gen.query_model(spec, P, algorithm=attr_ if spec["how"] == 0 else "viterbi")
    if spec["how"] == 1:
        model.algorithm = attr_
    elif spec["how"] == 2:
        sut("set_params", model.set_params, algorithm=attr_)
    effective = arg or attr_
    kw = {} if arg is None and spec["seed"] % 2 else {"algorithm": arg}
    logprob, path = sut("decode", model.decode, X, lengths, **kw)
    path = check_path("decode()[1]", path, T, K)
    gamma = full.gamma

    def is_map(p):
        return gamma[np.arange(T), p] >= gamma.max(axis=1) - 2 * full.gtol

    ls, lt = full.lstart, full.ltrans

    def path_total(p):
        v = 0.
        for s in O.split(lengths):
            v += O.path_value(ls, lt, full.lb[s], p[s])
        return v

    ctx.label(spec["fam"], f"attr={attr_}", f"arg={arg}",
              "nseq>1" if len(lengths) > 1 else "nseq=1")
    if effective == "map":
        ok = is_map(path)
        if not ok.all():
            t = int(np.flatnonzero(~ok)[0])
            fail(f"MAP state of frame {t} is {path[t]}, posteriors {gamma[t]}")
        joint = path_total(path)
        tol = 1e-7 + full.tol * 10
        if not (logprob == joint or abs(logprob - joint) <= tol):
            # Recorded finding: the sum of the chosen posteriors is returned.
            quirk = gamma.max(axis=1).sum()
            if abs(logprob - quirk) <= 1e-6 + T * full.gtol:
                ctx.finding(FINDING, f"decode(algorithm='map') returned {logprob}, "
                                     f"log-probability of the states is {joint}")
            else:
                fail(f"log_prob of MAP decoding is {logprob!r}, that of the "
                     f"states is {joint!r}")
    else:
        best = sum(O.viterbi_value(ls, lt, full.lb[s]) for s in O.split(lengths))
        v = path_total(path)
        if not v >= best - full.tol * 10:
            fail(f"viterbi path has log-prob {v!r} < {best!r}")
        check_close("decode()[0]", logprob, best, atol=full.tol * 10)
    # predict() is the decoder of the attribute
    pred = check_path("predict", sut("predict", model.predict, X, lengths), T, K)
    _, dec = sut("decode", model.decode, X, lengths)
    check_same("predict() vs decode()[1]", pred, dec)
    if attr_ == "map":
        if not is_map(pred).all():
            fail("predict() with algorithm='map' is not the MAP path")
    elif path_total(pred) < sum(
            O.viterbi_value(ls, lt, full.lb[s]) for s in O.split(lengths)) - full.tol * 10:
        fail("predict() with algorithm='viterbi' is not optimal")
    # MAP states agree with the model's own posteriors
    post = sut("predict_proba", model.predict_proba, X, lengths)
    _, mp = sut("decode", model.decode, X, lengths, algorithm="map")
    mp = check_path("map path", mp, T, K)
    if (post[np.arange(T), mp] < post.max(axis=1) - 1e-12).any():
        fail("MAP states are not maximal in predict_proba()")
    ctx.interesting(K > 1 and T > 1 and ((mp != pred).any() or arg not in (None, attr_)))
    if getattr(model, "algorithm") != attr_:
        fail("decode() changed the algorithm attribute")


def extra():
    return st.fixed_dictionaries({"attr": st.sampled_from(["viterbi", "map"]),
                                  "arg": st.sampled_from([None, "viterbi", "map"]),
                                  "how": st.integers(0, 2)})


def specs():
    return gen.specs(pmodes=["dense", "zeros", "sticky", "peaky", "leftright", "grid"],
                     regimes=(60, 90), max_T=200, extra=extra())


FACETS = [Facet("decoders", specs, check, 7000),
          Facet("wide", lambda: gen.wide_specs(extra=extra()), check, 250)]
