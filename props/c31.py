"""Queries are functions of parameters and arguments, in any order and thread."""
import copy
import os
import pickle
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from lib import gen, runs, sched, vb
from lib.core import Facet, Skip, check_same, fail

RULE = ("generated models of all families, data sets and histories of queries, "
        "failing queries, parameter changes and copies (or programs for several "
        "threads); every answer is compared bitwise with that of a fresh model "
        "asked only this; non-trivial: at least five answers compared")

SETTINGS = ["n_components", "algorithm", "random_state", "n_iter", "tol", "params",
            "init_params", "implementation", "covariance_type", "n_mix"]


class Subject:
    """A model family with two parameter sets and two data sets."""

    def __init__(self, spec):
        self.spec = spec
        fam = self.fam = spec["fam"]
        self.sets, self.data = [], []
        base = dict(spec, fam=vb.BASE.get(fam, fam), vary=False)
        for i in range(2):
            s = dict(base, seed=spec["seed"] + i)
            P, X, lengths = gen.case(s)
            self.spec["_ntrials"] = s.get("_ntrials")
            self.sets.append(P)
            self.data.append((np.array(X), list(lengths)))
        self.vb = fam in vb.BASE
        if self.vb:
            if not vb.distinct_enough(spec, self.data[0][0]):
                raise Skip
            self.fitted = []
            for i in range(2):
                m = gen.new_model(spec, n_iter=1 + i, tol=-np.inf,
                                  random_state=i)
                r = runs.outcome(m.fit, *self.data[0])
                if r[0] != "ok":
                    raise Skip
                self.fitted.append(pickle.dumps(m))
        self.answers = {}

    def new(self, which=0, impl=None, trained=()):
        """A model with one of the parameter sets, trained further from there."""
        if self.vb:
            m = pickle.loads(self.fitted[which])
        else:
            m = gen.make_model(self.spec, self.sets[which], fresh=True)
        for how, data in trained:
            self.train(m, how, self.data[data][0].copy(), self.data[data][1])
        if impl:
            m.implementation = impl
        return m

    def train(self, m, impl, X, lengths):
        m.implementation = impl
        m.set_params(init_params="", n_iter=1)
        return runs.outcome(lambda: [m.fit(X, list(lengths)) and None])

    def answer(self, which, impl, data, name, seed, trained=()):
        """The answer of a fresh model that is asked nothing else."""
        key = which, impl, data, name, seed, trained
        if key not in self.answers:
            X, lengths = self.data[data]
            self.answers[key] = runs.outcome(
                runs.query, self.new(which, impl, trained), X.copy(), list(lengths), name,
                seed)
        return self.answers[key]


def settings(m):
    return {k: getattr(m, k) for k in SETTINGS if hasattr(m, k)}


def scribble(result):
    """The caller may do what it likes with arrays it was given."""
    if result[0] != "ok":
        return
    for a in result[1]:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            a[...] = 1


def bad_query(m, X, lengths, kind):
    if kind == "features":
        return m.score(np.hstack([X, X]), lengths)
    if kind == "lengths":
        return m.predict(X, [*lengths, 1])
    if kind == "nan":
        Y = np.array(X, dtype=float)
        Y[-1, 0] = np.nan
        return m.score_samples(Y, lengths)
    if kind == "algorithm":
        return m.decode(X, lengths, algorithm="none")
    if kind == "negative":
        return m.decode(-1 - np.abs(X), lengths)
    return m.sample(0)


BAD = ["features", "lengths", "nan", "algorithm", "negative", "sample"]


ERRORS = np.geterr()


def compare_now(what, m, sub, before, conf):
    if np.geterr() != ERRORS:
        now = np.geterr()
        np.seterr(**ERRORS)
        fail(f"{what}: numpy's error handling changed from {ERRORS} to {now}")
    runs.same_params(what, runs.params(m), before)
    if settings(m) != conf:
        fail(f"{what}: settings changed from {conf} to {settings(m)}")


def check_history(spec, ctx):
    subs = [Subject(s) for s in spec["models"]]
    live = []
    for sub in subs:
        live.append({"m": sub.new(), "which": 0, "impl": sub.spec["impl"],
                     "trained": ()})
    n = 0
    asked = set()
    kinds = set()
    for i, op in enumerate(spec["ops"]):
        j = op["model"] % len(subs)
        sub, cur = subs[j], live[j]
        m = cur["m"]
        X, lengths = sub.data[op["data"]]
        what = f"operation {i} ({op['op']}"
        kinds.add(op["op"])
        if op["op"] == "set":
            if sub.vb:
                continue
            cur["which"], cur["trained"] = op["data"], ()
            gen.set_params(m, sub.fam, sub.sets[op["data"]])
        elif op["op"] == "inplace":
            if sub.vb or not isinstance(m.transmat_, np.ndarray):
                continue
            # All parameters of the other set, written into the same arrays.
            cur["which"], cur["trained"] = op["data"], ()
            P = sub.sets[op["data"]]
            for name, key in gen.PARTS:
                if key in P:
                    if name == "covars_" and sub.fam == "gauss":
                        m.covars_ = P[key].copy()      # a copy on every access
                    else:
                        getattr(m, name)[...] = P[key]
        elif op["op"] == "impl":
            cur["impl"] = ["log", "scaling"][op["data"]]
            m.implementation = cur["impl"]
        elif op["op"] == "train":
            if len(cur["trained"]) > 2:
                continue
            cur["trained"] += ((cur["impl"], op["data"]),)
            Y = sub.__dict__.setdefault("kept", {}).setdefault(op["data"], X.copy())
            r = sub.train(m, cur["impl"], Y, lengths)
            if r[0] != "ok":
                cur["m"], cur["trained"] = sub.new(cur["which"], cur["impl"]), ()
                continue
            runs.same_params(f"{what}) of the {sub.fam} model", runs.params(m),
                             runs.params(sub.new(cur["which"], cur["impl"],
                                                 cur["trained"])))
        elif op["op"] == "copy":
            cur["m"] = (copy.deepcopy(m) if op["data"]
                        else pickle.loads(pickle.dumps(m)))
        elif op["op"] == "bad":
            kind = BAD[op["seed"] % len(BAD)]
            before, conf = runs.params(m), settings(m)
            r = runs.outcome(bad_query, m, X.copy(), list(lengths), kind)
            kinds.add(f"{sub.fam} {kind} {r[0]}")
            compare_now(f"{what} {kind})", m, sub, before, conf)
        else:
            names = runs.queries(sub.fam)
            name = names[op["query"] % len(names)]
            want = sub.answer(cur["which"], cur["impl"], op["data"], name,
                              op["seed"], cur["trained"])
            before, conf = runs.params(m), settings(m)
            if op["op"] == "buffer":          # one buffer for all data sets
                buf = sub.__dict__.setdefault(
                    "buf", np.zeros((max(len(x) for x, _ in sub.data),
                                     X.shape[1]), X.dtype))
                Y = sub.__dict__.setdefault("views", {}).setdefault(
                    len(X), buf[:len(X)])
                Y[...] = X
            elif op["op"] == "same":          # one array for each data set
                Y = sub.__dict__.setdefault("kept", {}).setdefault(
                    op["data"], X.copy())
            else:
                Y = X.copy()
            L = None if len(lengths) == 1 and op["seed"] % 3 else list(lengths)
            got = runs.outcome(runs.query, m, Y, L, name, op["seed"])
            runs.same_answers(f"{what} {name}) of the {sub.fam} model", got, want)
            check_same(f"{what} {name}) changed X", Y, X)
            if L is not None and L != lengths:
                fail(f"{what} {name}) changed lengths")
            compare_now(f"{what} {name})", m, sub, before, conf)
            scribble(got)
            compare_now(f"{what} {name}), after overwriting the returned arrays",
                        m, sub, before, conf)
            n += 1
            asked.add((j, name, got[0]))
    ctx.label(*{s.fam for s in subs}, *kinds, *{f"{a} {r}" for _, a, r in asked})
    ctx.interesting(n >= 5)


@st.composite
def one(draw, max_T=12, **kw):
    fam = gen.pick(draw, gen.EMF + ["vcat", "vgauss"])
    if fam in vb.BASE:
        spec = draw(vb.specs([fam], max_T=max_T, min_T=4, **kw))
        spec["fam"] = fam
    else:
        spec = draw(gen.specs([fam], max_T=max_T, **kw))
    return spec


OPS = ["ask", "ask", "ask", "same", "same", "buffer", "buffer", "buffer", "bad",
       "set", "train", "inplace", "impl", "copy"]


@st.composite
def histories(draw):
    models = [draw(one()) for _ in range(draw(st.integers(1, 3)))]
    op = st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "model": st.integers(0, 2),
        "data": st.integers(0, 1), "query": st.integers(0, 11),
        "seed": st.integers(0, 5)})
    return {"models": models, "ops": draw(st.lists(op, min_size=6, max_size=30))}


def check_revised(spec, ctx):
    """All queries, one change of the model or of the data, all queries again."""
    sub = Subject(spec["model"])
    m, which, impl, trained = sub.new(), 0, sub.spec["impl"], ()
    X = sub.data[0][0].copy()
    forms = [None if len(l) == 1 and spec["none"] else list(l) for _, l in sub.data]
    names = runs.queries(sub.fam)
    if spec["few"]:
        rs = gen.rng(spec, 330)
        names = [names[i] for i in rs.permutation(len(names))[:2]]
    n, d, change = 0, 0, "nothing"
    for step in ["nothing", *spec["steps"]]:
        if step in ("set", "inplace", "one"):
            if sub.vb:
                continue
            old = {**sub.sets[which]}
            new = sub.sets[1 - which % 2]
            parts = [(a, k) for a, k in gen.PARTS if k in new and k in old
                     and isinstance(getattr(m, a), np.ndarray)]
            if trained:
                if step == "one":
                    continue
                parts = [(a, k) for a, k in gen.PARTS if k in new]
            if step == "one":
                parts = [parts[spec["part"] % len(parts)]]
            change = f"{step} {', '.join(a for a, _ in parts)}"
            if step == "set":
                gen.set_params(m, sub.fam, new)
                which = 1 - which % 2
            else:
                for a, k in parts:
                    if a == "covars_" and sub.fam == "gauss":
                        m.covars_ = new[k].copy()
                    else:
                        getattr(m, a)[...] = new[k]
                sub.sets.append({**old, **{k: new[k] for _, k in parts}})
                which = len(sub.sets) - 1
            trained = ()
        elif step == "impl":
            impl = "log" if impl == "scaling" else "scaling"
            m.implementation = impl
            change = "implementation"
        elif step == "train":
            trained += ((impl, d),)
            if sub.train(m, impl, X, list(sub.data[d][1]))[0] != "ok":
                break
            change = "training"
        elif step == "data":
            Y = sub.data[1 - d][0]
            if X.shape != Y.shape or X.dtype != Y.dtype:
                continue
            d = 1 - d
            X[...] = Y                         # the same array, overwritten
            change = "overwriting X"
        elif step == "other":
            change = "a query of other data"
            runs.outcome(m.score, sub.data[1 - d][0].copy(), sub.data[1 - d][1])
        for name in names:
            want = sub.answer(which, impl, d, name, 3, trained)
            got = runs.outcome(runs.query, m, X, forms[d], name, 3)
            runs.same_answers(f"{name} of the {sub.fam} model after {change}", got, want)
            n += 1
        ctx.label(step)
    ctx.label(sub.fam)
    ctx.interesting(n > len(names))


@st.composite
def revisions(draw):
    return {"model": draw(one()), "none": draw(st.booleans()), "part": draw(st.integers(0, 6)),
            "few": draw(st.booleans()), "seed": draw(st.integers(0, 2**20)),
            "steps": draw(st.lists(st.sampled_from(
                ["one", "one", "inplace", "set", "train", "data", "data", "impl", "other"]),
                min_size=1, max_size=5))}


# ------------------------------------------------------------ threads

def check_threads(spec, ctx):
    import hmmlearn
    subs = [Subject(s) for s in spec["models"]]
    shared = [sub.new() for sub in subs]
    programs = []
    for prog in spec["programs"]:
        out = []
        for op in prog:
            j = op["model"] % len(subs)
            names = runs.queries(subs[j].fam)
            out.append((j, op["own"], op["data"], names[op["query"] % len(names)],
                        op["seed"]))
        programs.append(out)
    before = [runs.params(m) for m in shared]
    conf = [settings(m) for m in shared]
    want = [[subs[j].answer(0, subs[j].spec["impl"], d, name, seed)
             for j, own, d, name, seed in prog] for prog in programs]
    old = sys.getswitchinterval()
    bad, switches = [], 0

    def work(k, start=None):
        mine, data = things[k]
        if start:
            start.wait()
        try:
            for (j, own, d, name, seed), w in zip(programs[k], want[k]):
                X, L = data[j][d] if own else subs[j].data[d]
                got = runs.outcome(runs.query, (mine if own else shared)[j], X, L,
                                   name, seed)
                runs.same_answers(
                    f"thread {k} of {len(programs)}, {name} of "
                    f"{'its own' if own else 'a shared'} {subs[j].fam} model",
                    got, w)
        except Exception as e:  # noqa: BLE001
            bad.append(e)

    try:
        sys.setswitchinterval(1e-5)
        for i in range(spec["rounds"]):
            things = [([sub.new() for sub in subs],
                       [[(X.copy(), list(L)) for X, L in sub.data] for sub in subs])
                      for _ in programs]
            if spec.get("sched"):
                plan = sched.Schedule(gen.rng(spec, 310 + i), len(programs),
                                      *spec["sched"], os.path.dirname(hmmlearn.__file__))
                plan.go(work)
                switches += plan.switches
                if bad:
                    raise bad[0]
                continue
            start = threading.Barrier(len(programs))
            ts = [threading.Thread(target=work, args=(k, start))
                  for k in range(len(programs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if bad:
                raise bad[0]
    finally:
        sys.setswitchinterval(old)
    for m, b, c in zip(shared, before, conf):
        compare_now("after all threads", m, None, b, c)
    n = sum(map(len, programs))
    ctx.label(*{s.fam for s in subs}, f"{len(programs)} threads",
              "long" if subs[0].spec["T"] > 200 else "short")
    if spec.get("sched"):
        ctx.label("opcodes" if spec["sched"][1] else "lines")
        ctx.interesting(switches >= 5)
    else:
        ctx.interesting(n >= 5)


def check_preempt(spec, ctx):
    """One query is suspended anywhere, another thread makes one meanwhile."""
    import hmmlearn
    path = os.path.dirname(hmmlearn.__file__)
    sub = Subject(spec["model"])
    names = runs.queries(sub.fam)
    a, b = (names[spec[k] % len(names)] for k in "ab")
    da, db = spec["data"]
    sa, sb = 3, 4
    impl = sub.spec["impl"]
    wa, wb = sub.answer(0, impl, da, a, sa), sub.answer(0, impl, db, b, sb)
    rs = gen.rng(spec, 320)
    m = sub.new()
    before, conf = runs.params(m), settings(m)
    got = {}

    def first():
        got["a"] = runs.outcome(runs.query, m, *sub.data[da], a, sa)

    def second():
        got["b"] = runs.outcome(runs.query, m, *sub.data[db], b, sb)

    n, after = sched.points(path, first)
    at = after
    if len(at) > spec["most"]:
        at = rs.choice(at, spec["most"], replace=False)
    at = sorted({*at, *rs.randint(1, n + 1, size=8)})
    blocked = 0
    for i in at:
        m = sub.new()
        got.clear()
        blocked += sched.points(path, first, int(i), second)[1] == [True]
        if blocked > 4:                 # a lock keeps the threads apart
            break
        what = f"bytecode {i} of {n}"
        runs.same_answers(f"{a}, suspended at {what} for {b}", got["a"], wa)
        if "b" in got:
            runs.same_answers(f"{b}, during {a} at {what}", got["b"], wb)
        compare_now(f"after {b} during {a} at {what}", m, None, before, conf)
    ctx.label(sub.fam, 
              "all writes" if len(after) <= spec["most"] else "some writes")
    ctx.interesting(len(at) >= 20)


@st.composite
def preemptions(draw):
    some = [runs.QUERIES.index(q) for q in ("decode", "map", "viterbi", "predict")]
    q = draw(st.sampled_from([st.integers(0, 11), st.sampled_from(some)]))
    return {"model": draw(one(max_T=8)), "a": draw(q), "b": draw(q), "seed": draw(st.integers(0, 2**20)),
            "data": draw(st.sampled_from([(0, 1), (1, 0), (0, 0)])),
            "most": draw(st.sampled_from([40, 100, 100]))}


@st.composite
def interleavings(draw):
    """Few threads, short programs, and when they take turns."""
    models = [draw(one(max_T=12))]
    op = st.fixed_dictionaries({
        "model": st.just(0), "own": st.integers(0, 4).map(lambda i: i == 4),
        "data": st.integers(0, 1), "query": st.integers(0, 11),
        "seed": st.integers(0, 3)})
    return {"models": models, "rounds": draw(st.integers(1, 3)),
            "seed": draw(st.integers(0, 2**20)),
            "sched": draw(st.tuples(st.sampled_from([.02, .1, .3, .6]), st.booleans())),
            "programs": draw(st.lists(st.lists(op, min_size=1, max_size=3),
                                      min_size=2, max_size=3))}


@st.composite
def schedules(draw):
    long = draw(st.integers(0, 2)) == 2
    kw = {"max_T": 1500, "min_T": 400, "kmax": 8} if long else {"max_T": 30}
    models = [draw(big() if long else one(**kw))
              for _ in range(draw(st.integers(1, 2)))]
    op = st.fixed_dictionaries({
        "model": st.integers(0, 1), "own": st.booleans(),
        "data": st.integers(0, 1), "query": st.integers(0, 11),
        "seed": st.integers(0, 3)})
    return {"models": models, "rounds": draw(st.integers(1, 3)),
            "programs": draw(st.lists(st.lists(op, min_size=2, max_size=8),
                                      min_size=2, max_size=6))}


@st.composite
def big(draw):
    return draw(gen.specs(["cat", "pois", "gauss"], max_T=1500, min_T=400, kmax=8,
                          regimes=(0, 99)))


FACETS = [
    Facet("histories", histories, check_history, 700),
    Facet("revised", revisions, check_revised, 1000),
    Facet("threads", schedules, check_threads, 150),
    Facet("interleavings", interleavings, check_threads, 400),
    Facet("preempt", preemptions, check_preempt, 400),
]
