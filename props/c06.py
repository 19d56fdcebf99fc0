"""Sequences given by lengths are scored and decoded independently."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle as O, vb
from lib.core import Facet, Skip, check_array, check_close, check_same, fail, sut

from .c03 import check_path

RULE = ("generated model, data and split: results on all sequences against "
        "those on each sequence alone; non-trivial: at least 2 sequences and "
        "2 states")
FORMS = [list, tuple, np.asarray, lambda l: np.asarray(l, dtype=np.int32),
         lambda l: np.asarray(l, dtype=np.uint8 if max(l) < 256 else np.uint16),
         lambda l: [np.int64(v) for v in l],
         lambda l: np.asarray(l * 2, dtype=np.int64)[:len(l)],
         lambda l: np.repeat(np.asarray(l), 2)[::2]]


def fitted_vb(spec):
    P, X, lengths = vb.case(spec)
    kw, prior = vb.priors(spec, X)
    m = vb.new_model(spec, kw, init_params="", n_iter=1)
    if not vb.distinct_enough(spec, X):
        raise Skip
    vb.assign(m, prior, vb.posterior(spec, X))
    try:
        m.fit(X, lengths)
    except ValueError:
        if spec["impl"] == "scaling":
            raise Skip
        raise
    Q = vb.read(m, prior)
    if vb.conditioning(spec, Q) > 1e8:
        raise Skip
    return m, X, lengths, O.Full(vb.BASE[spec["fam"]], vb.normalized(spec, Q), X, lengths)


def check(spec, ctx):
    if spec["vb"] and spec["fam"] in ("cat", "gauss") and spec["K"] <= 6:
        m, X, lengths, full = fitted_vb(spec)
    else:
        P, X, lengths = gen.case(spec)
        m = gen.query_model(spec, P)
        full = O.Full(spec["fam"], P, X, lengths)
    K, T = spec["K"], len(X)
    if not full.possible or full.gtol > 1e-4:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    form = FORMS[spec["form"] % len(FORMS)]
    L = form(lengths)
    ctx.label(spec["fam"], spec["impl"],
              "1 seq" if len(lengths) == 1 else "2-9 seqs" if len(lengths) < 10
              else ">9 seqs", "has length 1" if 1 in lengths else "no length 1",
              f"form {spec['form'] % len(FORMS)}")
    ctx.interesting(len(lengths) > 1 and K > 1)
    tol = 4 * full.tol
    parts = [X[s] for s in O.split(lengths)]
    # each sequence alone; sometimes with lengths=[n], sometimes without
    alone = []
    for i, p in enumerate(parts):
        args = (p,) if (i + spec["seed"]) % 2 else (p, [len(p)])
        alone.append((sut("score", m.score, *args), *sut("score_samples", m.score_samples, *args),
                      *sut("decode", m.decode, *args, algorithm="viterbi"),
                      sut("predict", m.predict, *args)))
    total = sum(a[0] for a in alone)
    check_close("score(X, lengths)", sut("score", m.score, X, L), total, atol=tol)
    ll, post = sut("score_samples", m.score_samples, X, L)
    check_close("score_samples()[0]", ll, total, atol=tol)
    want = np.concatenate([check_array("posteriors", a[2], (len(p), K))
                           for a, p in zip(alone, parts)])
    check_close("posteriors", post, want, atol=2 * full.gtol)
    check_close("predict_proba", sut("predict_proba", m.predict_proba, X, L), want,
                atol=2 * full.gtol)
    v, path = sut("decode", m.decode, X, L, algorithm="viterbi")
    path = check_path("decode()[1]", path, T, K)
    check_close("decode()[0]", v, sum(a[3] for a in alone), atol=10 * tol)
    for i, s in enumerate(O.split(lengths)):
        got = O.path_value(full.lstart, full.ltrans, full.lb[s], path[s])
        ref = O.path_value(full.lstart, full.ltrans, full.lb[s],
                           check_path("path", alone[i][4], len(parts[i]), K))
        if not got >= ref - 10 * tol:
            fail(f"states of sequence {i} (log-prob {got}) are not those of the "
                 f"sequence alone (log-prob {ref})")
    pred = check_path("predict", sut("predict", m.predict, X, L), T, K)
    check_same("predict vs decode", pred, path)
    _, mp = sut("decode", m.decode, X, L, algorithm="map")
    mp = check_path("map", mp, T, K)
    if (want[np.arange(T), mp] < want.max(axis=1) - 4 * full.gtol).any():
        fail("map states are not those of the sequences alone")
    if len(lengths) == 1:
        check_same("score without lengths", sut("score", m.score, X), m.score(X, L))
        check_same("posteriors without lengths", m.predict_proba(X), m.predict_proba(X, L))


EX = st.fixed_dictionaries({"form": st.integers(0, 7), "vb": st.booleans(),
                            "prior": st.sampled_from(["default", "array"]),
                            "qscale": st.sampled_from([1., .1])})
FACETS = [Facet("split", lambda: gen.specs(
    extra=EX, max_T=120, pmodes=["dense", "zeros", "sticky", "leftright", "grid", "peaky"],
    emodes=gen.SAFE_EMODES + ["zeros"], regimes=(62, 92)), check, 2600),
    Facet("long", lambda: gen.long_specs(
        many=True, Ts=(900, 3000, 20000, 66000), extra=st.fixed_dictionaries(
            {"form": st.integers(0, 7), "vb": st.just(False)})), check, 32),
    Facet("wide", lambda: gen.wide_specs(extra=st.fixed_dictionaries(
        {"form": st.integers(0, 7), "vb": st.just(False)})), check, 200)]
