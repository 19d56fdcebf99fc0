"""Saving, copying, resuming, get_params/set_params."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from lib import gen, runs, vb
from lib.core import Facet, Skip, attr, check_close, check_same, fail, sut

RULE = ("generated model of any family at a generated stage (constructed, "
        "parameters set, trained), copied by pickle (all protocols), deepcopy or "
        "clone, resumed after n1 iterations, or rebuilt from get_params(); the "
        "copies and the original are asked the same questions and trained on; "
        "non-trivial: the model is trained or has its parameters set")

HOW = ["pickle0", "pickle2", "pickle4", "pickle5", "deepcopy"]


def twin_of(m, how):
    if how == "deepcopy":
        return sut("deepcopy", copy.deepcopy, m)
    return pickle.loads(sut("pickling", pickle.dumps, m, int(how[-1])))


def arrays(obj):
    """All arrays directly reachable from the attributes of a model."""
    out = {}
    for k, v in vars(obj).items():
        if isinstance(v, np.ndarray) and v.size:
            out[k] = v
    return out


def same_value(a, b):
    if isinstance(a, np.random.RandomState):
        if not isinstance(b, np.random.RandomState):
            return False
        x, y = a.get_state(), b.get_state()
        return np.array_equal(x[1], y[1]) and x[2:] == y[2:]
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b)
    return type(a) is type(b) and (a == b or a != a and b != b)


def stage(spec, run, **kw):
    src = spec["seed"] % 1009
    if spec["src"] == "object":
        src = np.random.RandomState(src)
    if spec["seed"] % 2:
        kw.setdefault("algorithm", "map")
    if spec["seed"] % 7 == 0:
        kw.setdefault("tol", [-1., 1e-3, 1e9][spec["seed"] % 3])
    m = run.new(random_state=src, **kw)
    if spec["stage"] == "fitted":
        if not run.viable():
            raise Skip
        r = run.fit(m)
        if r[0] == "raised":
            raise Skip
    elif spec["stage"] == "set":
        run.assign(m)
    return m


def check_copy(spec, ctx):
    run = runs.Run(spec)
    m = stage(spec, run)
    t = twin_of(m, spec["how"])
    if type(t) is not type(m):
        fail(f"the copy is a {type(t).__name__}")
    for k, v in m.get_params().items():
        if not same_value(v, t.get_params()[k]):
            fail(f"parameter {k} of the copy is {t.get_params()[k]!r:.200}")
    runs.same_params("copy", runs.state(m), runs.state(t))
    X, lengths = run.X, run.lengths
    asked = runs.queries(run.fam)
    A = {}
    first, second = (m, t) if spec["order"] else (t, m)
    for q in asked:
        A[q] = runs.outcome(runs.query, first, X, lengths, q)
    for q in asked:
        runs.same_answers(f"{q} of model and copy", A[q],
                          runs.outcome(runs.query, second, X, lengths, q))
    if spec["src"] == "object":
        runs.same_answers("sample with the random_state object",
                          runs.outcome(m.sample, 4), runs.outcome(t.sample, 4))
    # training goes on in the same way
    if run.viable():
        for x in (m, t):
            x.set_params(n_iter=spec["more"])
        a, b = (run.fit(m), run.fit(t)) if spec["order"] else (run.fit(t), run.fit(m))
        runs.same_outcome("training model and copy", a, b)
        runs.same_params("training model and copy", runs.state(m), runs.state(t))
    # nothing mutable is shared
    u = twin_of(m, spec["how"])
    before = {k: v.copy() for k, v in arrays(m).items()}
    hist = list(m.monitor_.history)
    A = {q: runs.outcome(runs.query, m, X, lengths, q) for q in asked}
    for v in arrays(u).values():
        if v.flags.writeable and v.dtype.kind in "iuf":
            v += 1
    u.monitor_.history.append(1.)
    u.monitor_.iter += 3
    u.monitor_.tol = 99
    if isinstance(u.random_state, np.random.RandomState):
        s = m.random_state.get_state()[1].copy(), m.random_state.get_state()[2]
        u.random_state.rand(3)
        if not (np.array_equal(s[0], m.random_state.get_state()[1])
                and s[1] == m.random_state.get_state()[2]):
            fail("the copy shares its random_state with the original")
    for k, v in before.items():
        check_same(f"{k} of the original after changing the copy",
                   arrays(m)[k], v)
    if list(m.monitor_.history) != hist and hist == hist:
        if not np.array_equal(list(m.monitor_.history), hist, equal_nan=True):
            fail("the copy shares its monitor history with the original")
    if m.monitor_.tol == 99:
        fail("the copy shares its monitor with the original")
    for q in asked:
        runs.same_answers(f"{q} after changing the copy", A[q],
                          runs.outcome(runs.query, m, X, lengths, q))
    ctx.label(run.fam, spec.get("cv", ""), spec["how"], spec["stage"])
    ctx.interesting(spec["stage"] != "new")


def check_clone(spec, ctx):
    from sklearn.base import clone
    run = runs.Run(spec)
    m = stage(spec, run)
    c = sut("clone", clone, m)
    if type(c) is not type(m):
        fail(f"clone is a {type(c).__name__}")
    pm, pc = m.get_params(), c.get_params()
    if sorted(pm) != sorted(pc):
        fail("clone has other parameters")
    for k in pm:
        if not same_value(pm[k], pc[k]):
            fail(f"clone: {k} is {pc[k]!r:.200}, expected {pm[k]!r:.200}")
    left = runs.params(c)
    if left:
        fail(f"clone of a model has {sorted(left)} set")
    if len(c.monitor_.history):
        fail("clone has a training history")
    if c.monitor_.tol != m.tol or c.monitor_.n_iter != m.n_iter:
        fail("clone's monitor has other settings")
    # it trains like a new model constructed with the same parameters
    if run.viable() and spec["src"] != "object":
        fresh = type(m)(**copy.deepcopy(pm))
        if spec["start"] != "data":
            run.assign(c)
            run.assign(fresh)
        a, b = run.fit(c), run.fit(fresh)
        runs.same_outcome("training clone and new model", a, b)
        runs.same_params("training clone and new model", runs.state(c),
                         runs.state(fresh))
    ctx.label(run.fam, spec.get("cv", ""), spec["stage"])
    ctx.interesting(spec["stage"] != "new")


def check_resume(spec, ctx):
    run = runs.Run(spec)
    if not run.viable():
        raise Skip
    n1, n2 = spec["iters"], spec["more"]
    seed = spec["seed"] % 1009
    one = run.new(random_state=seed, n_iter=n1 + n2)
    r = run.fit(one)
    if r[0] == "raised":
        raise Skip
    two = run.new(random_state=seed, n_iter=n1)
    if run.fit(two)[0] == "raised":
        fail("a shorter training raised")
    h = list(two.monitor_.history)
    for k, v in runs.params(two).items():
        if not np.isfinite(v).all() or (
                k in ("startprob_", "transmat_", "emissionprob_", "weights_")
                and not np.allclose(v.sum(axis=-1), 1)):
            raise Skip          # a state that was never visited
        if k == "covars_" and run.fam == "gmm" and spec["cv"] in ("full", "tied"):
            if not np.allclose(v, np.swapaxes(v, -1, -2)) or (
                    np.linalg.eigvalsh(v) <= 0).any():
                raise Skip
        elif k == "covars_" and run.fam == "gmm" and (v <= 0).any():
            raise Skip
    if spec["how"] == "deepcopy":
        two = copy.deepcopy(two)
    elif spec["how"] == "pickle5":
        two = pickle.loads(pickle.dumps(two))
    if spec["how"] == "pickle0" and run.fam not in vb.BASE:      # by hand
        kw = {} if run.fam != "mult" else {"n_trials": spec["_ntrials"]}
        new = run.new(random_state=seed, n_iter=n2, init_params="", **kw)
        for k in runs.params(two):
            if k == "covars_" and run.fam == "gauss":
                # covars_ reads as full matrices
                c = attr(two, k)
                cv = spec["cv"]
                c = (c if cv == "full" else c[0] if cv == "tied" else
                     np.stack([np.diag(x) for x in c]) if cv == "diag" else
                     c[:, 0, 0])
                r = runs.outcome(setattr, new, k, np.array(c))
                if r[0] == "raised":
                    raise Skip          # a degenerate covariance
            else:
                setattr(new, k, np.array(attr(two, k)))
        two = new
        ctx.label("by hand")
    else:
        two.set_params(init_params="", n_iter=n2)
    r2 = run.fit(two)
    if r2[0] == "raised":
        fail(f"resumed training raised {r2[1]}, uninterrupted training did not")
    got, want = runs.state(two), runs.state(one)
    full = np.array(h + list(two.monitor_.history))
    check_same("history of n1 and then n2 iterations", full, want.pop("history"))
    got.pop("history")
    runs.same_params("n1 and then n2 iterations", got, want)
    ctx.label(run.fam, spec.get("cv", ""), spec["start"])
    ctx.interesting(spec["K"] > 1)


def check_params(spec, ctx):
    run = runs.Run(spec)
    m = run.new(random_state=spec["seed"] % 1009)
    if spec["start"] != "data":
        run.assign(m)
    rs = gen.rng(spec, 130)
    p = m.get_params()
    # every parameter round-trips, one by one
    for k, v in p.items():
        x = {"n_iter": 77, "tol": .125, "verbose": False}.get(k, v)
        r = sut(f"set_params({k})", m.set_params, **{k: x})
        if r is not m:
            fail("set_params does not return the model")
        if m.get_params()[k] is not x and not same_value(m.get_params()[k], x):
            fail(f"set_params({k}={x!r:.100}) is not read back: {m.get_params()[k]!r:.100}")
        if getattr(m, k) is not m.get_params()[k]:
            fail(f"attribute {k} is not the parameter")
        m.set_params(**{k: v})
    # a default model given all parameters is the model
    d = type(m)()
    sut("set_params", d.set_params, **copy.deepcopy(p))
    for k in p:
        if not same_value(d.get_params()[k], p[k]):
            fail(f"{k} after set_params is {d.get_params()[k]!r:.200}")
    # set in any order, in pieces
    e = type(m)()
    ks = list(p)
    rs.shuffle(ks)
    for k in ks:
        sut(f"set_params({k})", e.set_params, **{k: copy.deepcopy(p[k])})
    if run.viable():
        ref = None
        f = type(m)(**copy.deepcopy(p))
        out = []
        for x in (f, d, e):
            if spec["start"] != "data":
                run.assign(x)
            out.append((run.fit(x), runs.state(x)))
        for what, o in zip(["set_params at once", "set_params one by one"], out[1:]):
            runs.same_outcome(what, o[0], out[0][0])
            runs.same_params(what, o[1], out[0][1])
    ctx.label(run.fam, spec.get("cv", ""))
    ctx.interesting(spec["K"] > 1)


COMMON = {"how": st.sampled_from(HOW), "stage": st.sampled_from(["new", "set", "fitted", "fitted"]),
          "src": st.sampled_from(["int", "int", "object"]), "order": st.booleans(),
          "more": st.integers(1, 4)}


def strat(**kw):
    return lambda: runs.specs(max_T=40, kmax=5, extra=COMMON,
                              pmodes=["dense", "sticky", "uniform", "grid", "zeros"],
                              emodes=gen.SAFE_EMODES, **kw)


FACETS = [
    Facet("copy", strat(), check_copy, 400),
    Facet("clone", strat(), check_clone, 250),
    Facet("resume", strat(), check_resume, 400),
    Facet("params", strat(), check_params, 250),
]
