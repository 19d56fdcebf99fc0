"""Reproducibility under random_state."""
import os

import numpy as np
from hypothesis import strategies as st

from lib import gen, runs, sched, vb
from lib.core import Facet, Skip, check_same, fail, sut

RULE = ("generated training runs (data-driven, given or mixed starting points, "
        "all families) and samples, repeated under other states of the global "
        "generators; compared bitwise; non-trivial: something random was drawn")


def source(spec, tag=0):
    s = (spec["seed"] * 31 + tag) % 100003
    return {"int": s, "npint": np.int64(s), "object": np.random.RandomState(s),
            "zero": 0}[spec["src"]]


def check_fit(spec, ctx):
    run = runs.Run(spec)
    if not run.viable():
        raise Skip
    glob = runs.Globals(spec["seed"])
    src = source(spec)
    m1 = run.new(random_state=src)
    r1 = run.fit(m1)
    glob.check("fit")
    if m1.random_state is not src or m1.get_params()["random_state"] is not src:
        fail("fit altered the constructor parameter random_state")
    s1 = runs.state(m1)
    glob = runs.Globals(spec["seed"] + 7)
    np.random.rand(spec["seed"] % 5)
    glob.__init__(spec["seed"] + 11)
    m2 = run.new(random_state=source(spec))
    r2 = run.fit(m2)
    glob.check("fit")
    runs.same_outcome("two identical fits", r1, r2)
    runs.same_params("two identical fits", s1, runs.state(m2))
    if r1[0] == "raised":
        ctx.label("raised " + r1[1])
        return
    # the same object again: only what init_params selects starts anew
    if spec["src"] != "object" and spec["start"] == "data":
        r3 = run.fit(m1)
        runs.same_outcome("refitting the same object", r1, r3)
        runs.same_params("refitting the same object", s1, runs.state(m1))
        # nothing of an earlier fit to other data survives
        m4 = run.new(random_state=source(spec))
        other = np.array(run.X)[::-1]
        if run.fam not in ("cat", "vcat", "mult"):
            other = other + 1
        r4 = runs.outcome(m4.fit, other[:max(2, len(other) - 2)]
                          if run.fam != "mult" else other)
        if r4[0] == "ok":
            r4 = run.fit(m4)
            runs.same_outcome("fit after a fit to other data", r1, r4)
            runs.same_params("fit after a fit to other data", s1, runs.state(m4))
    if spec["src"] != "object":
        glob = runs.Globals(spec["seed"] + 3)
        a = runs.outcome(m1.sample, 5)
        b = runs.outcome(m1.sample, 5)
        c = runs.outcome(m2.sample, 5)
        glob.check("sample")
        runs.same_answers("sample() twice", a, b)
        if spec["start"] == "data":
            runs.same_answers("sample() of equal models", a, c)
    else:
        # equal generators that have made the same draws stay equal
        a, b = m1.random_state.rand(3), m2.random_state.rand(3)
        check_same("state of the equal random_state objects", a, b)
        if spec["start"] == "data":
            runs.same_answers("sample()", runs.outcome(m1.sample, 5),
                              runs.outcome(m2.sample, 5))
    ctx.label(run.fam, spec.get("cv", ""), spec["start"], spec["src"])
    ctx.interesting(spec["start"] != "set" and run.init != "" and spec["K"] > 1)


def check_sample(spec, ctx):
    fam = spec["fam"]
    spec["vary"] = False
    P = gen.build_params(spec)
    if fam == "mult":
        spec["_ntrials"] = spec["n"]
    n = spec["N"]
    glob = runs.Globals(spec["seed"])

    def model(rs):
        return gen.make_model(spec, P, random_state=rs)

    kw = {"currstate": spec["seed"] % spec["K"]} if spec["curr"] else {}
    seed = spec["seed"] % 9973 if spec["seed"] % 4 else 0
    own = np.random.RandomState(5)
    before = own.get_state()[1].copy(), own.get_state()[2]
    A = sut("sample", model(own).sample, n, random_state=seed, **kw)
    if not (np.array_equal(before[0], own.get_state()[1])
            and before[1] == own.get_state()[2]):
        fail("sample(random_state=...) drew from the model's own random_state")
    for what, got in [
            ("another random_state of the model",
             lambda: model(17).sample(n, random_state=seed, **kw)),
            ("random_state=None in the model",
             lambda: model(None).sample(n, random_state=seed, **kw)),
            ("an equal RandomState",
             lambda: model(3).sample(n, random_state=np.random.RandomState(seed), **kw)),
            ("the model's random_state",
             lambda: model(seed).sample(n, **kw)),
            ("an equal RandomState of the model",
             lambda: model(np.random.RandomState(seed)).sample(n, **kw))]:
        runs.same_answers(f"sample with {what}", ("ok", A),
                          ("ok", sut(f"sample with {what}", got)))
    # two streams that start equal stay equal, and move on
    r1, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    m1, m2 = model(1), model(r2)
    for i in range(3):
        a = sut("sample", m1.sample, n, random_state=r1)
        runs.same_answers("successive samples of equal generators", ("ok", a),
                          ("ok", sut("sample", m2.sample, n)))
    glob.check("sample")
    m = model(seed)
    runs.same_answers("sample() twice with an integer", ("ok", m.sample(n)),
                      ("ok", m.sample(n)))
    ctx.label(fam, spec.get("cv", ""), f"n={n}")
    ctx.interesting(spec["K"] > 1 or fam in ("gauss", "gmm", "pois"))


def check_concurrent(spec, ctx):
    """Another model is trained and queried in another thread meanwhile."""
    import hmmlearn
    path = os.path.dirname(hmmlearn.__file__)
    two = [runs.Run(dict(s)) for s in (spec["a"], spec["b"])]
    seeds = [spec["a"]["seed"] % 997, spec["b"]["seed"] % 983]
    if not all(r.viable() for r in two):
        raise Skip

    def job(i):
        r = two[i]
        m = r.new(random_state=seeds[i])
        a = r.fit(m)
        out = [a if a[0] == "raised" else ("ok", []), runs.state(m)]
        if a[0] == "ok":
            out += [runs.outcome(runs.query, m, r.X, r.lengths, q)
                    for q in ("score", "predict", "sample")]
        return out

    def same(what, x, y):
        runs.same_outcome(what, x[0], y[0])
        runs.same_params(what, x[1], y[1])
        for u, v in zip(x[2:], y[2:]):
            runs.same_answers(what, u, v)

    want = [job(0), job(1)]
    got = {}

    def put(i):
        got[i] = job(i)

    _, after = sched.points(path, lambda: put(0))
    same("training under a tracer", got[0], want[0])
    rs = gen.rng(spec["a"], 133)
    at = rs.choice(after, min(len(after), spec["points"]), replace=False)
    blocked = 0
    for i in sorted(at):
        got.clear()
        blocked += sched.points(path, lambda: put(0), int(i), lambda: put(1))[1] == [True]
        what = f"suspended at bytecode {i} while another model is trained"
        same(f"training, {what}", got[0], want[0])
        if 1 in got:
            same("training while another one is suspended", got[1], want[1])
        if blocked > 4:
            break
    ctx.label(two[0].fam, two[1].fam, "same family" if two[0].fam == two[1].fam else "")
    ctx.interesting(len(at) > 5 and want[0][0][0] == "ok")


def pairs():
    one = runs.specs(max_T=14, kmax=3, pmodes=["dense", "sticky", "uniform"],
                     emodes=gen.SAFE_EMODES, extra={"iters": st.integers(1, 2)})
    return st.fixed_dictionaries({"a": one, "b": one, "points": st.sampled_from([10, 25])})


FACETS = [
    Facet("fit", lambda: runs.specs(
        max_T=60, kmax=6, pmodes=["dense", "sticky", "uniform", "grid"],
        emodes=gen.SAFE_EMODES,
        extra={"src": st.sampled_from(["int", "int", "npint", "object", "zero"])}),
        check_fit, 700),
    Facet("sample", lambda: gen.specs(
        max_T=2, lens=False, kmax=9,
        extra=st.fixed_dictionaries({"N": st.sampled_from([1, 2, 5, 20, 60]),
                                     "curr": st.booleans()})), check_sample, 600),
    Facet("concurrent", pairs, check_concurrent, 150),
]
