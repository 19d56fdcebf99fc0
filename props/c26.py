"""User-defined emission models on top of BaseHMM."""
import numpy as np
from hypothesis import strategies as st

from lib import boot, gen, oracle as O
from lib.core import (Facet, Skip, check_array, check_close, check_same, fail,
                      must_raise, sut)

from .c03 import check_path

RULE = ("generated BaseHMM subclasses (either or both likelihood methods, "
        "inherited, mixed in, over several levels; results as C/Fortran/strided/"
        "cached/read-only arrays; zeros) with recording hooks, against the "
        "reference recursions on the same emission table; non-trivial: at least "
        "2 states, and some sequence of at least 2 frames")


@st.composite
def custom(draw, queries=True):
    K = draw(st.integers(1, 5))
    spec = {
        "seed": draw(st.integers(0, 2**31)), "K": K,
        "S": draw(st.integers(1, 6)), "F": draw(st.integers(1, 3)),
        "T": draw(st.one_of(st.integers(1, 25), st.integers(1, 120))),
        "nseq": draw(st.integers(1, 5)),
        "lmode": gen.pick(draw, ["one", "cuts", "cuts", "ones", "lonely"]),
        "pm_s": gen.pick(draw, ["random", "zeros", "peaky", "uniform"]),
        "pm_t": gen.pick(draw, ["random", "zeros", "peaky", "sticky",
                                "leftright", "cyclic", "block"]),
        "table": gen.pick(draw, ["prob", "prob", "density", "zeros", "zeros",
                                 "onehot", "flat", "integer"]),
        "method": gen.pick(draw, ["log", "prob", "both"]),
        "shape": gen.pick(draw, ["direct", "direct", "mixin", "grand", "sub"]),
        "layout": gen.pick(draw, ["C", "F", "strided", "cached", "readonly"]),
        "impl": gen.pick(draw, ["log", "scaling"]),
        "algorithm": gen.pick(draw, ["viterbi", "map"]),
        "start": gen.pick(draw, ["set", "set", "data"]),
        "params": gen.pick(draw, ["ste", "ste", "st", "e", "s", "t", "te", ""]),
        "iters": draw(st.integers(1, 4)),
    }
    return spec


def build(spec):
    rs = gen.rng(spec, 160)
    K, S = spec["K"], spec["S"]
    start = gen.prob_rows(rs, 1, K, spec["pm_s"])[0]
    trans = gen.prob_rows(rs, K, K, spec["pm_t"], square=True)
    mode = spec["table"]
    if mode == "density":
        B = np.exp(2 * rs.randn(K, S)) * 10. ** rs.uniform(-2, 3)
    elif mode == "onehot":
        B = np.zeros((K, S))
        B[np.arange(K), rs.randint(S, size=K)] = 1
    elif mode == "integer":
        B = rs.randint(0, 3, size=(K, S)).astype(float)
    elif mode == "flat":
        B = np.full((K, S), .25)
    else:
        B = gen.prob_rows(rs, K, S, "zeros" if mode == "zeros" else "random")
    lengths = gen.build_lengths(spec)
    # data that the model can mostly produce
    sym = []
    for n in lengths:
        k = rs.choice(K, p=start)
        for _ in range(n):
            w = B[k]
            sym.append(rs.choice(S, p=w / w.sum()) if w.sum() and rs.rand() < .97
                       else rs.randint(S))
            k = rs.choice(K, p=trans[k])
    X = rs.randn(sum(lengths), spec["F"])
    X[:, 0] = sym
    return start, trans, B, X, lengths


def layout(kind, a):
    """The same values as *a* (T, K) in another memory layout."""
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), np.nan)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    a = np.ascontiguousarray(a)
    if kind == "readonly":
        a.flags.writeable = False
    return a


def make_class(spec, log):
    """A fresh subclass whose hooks append to *log*."""
    from hmmlearn.base import BaseHMM
    cache = {}
    method, kind = spec["method"], spec["layout"]

    def out(self, which, X, a):
        if kind != "cached":
            return layout(kind, a)
        key = (which, X.tobytes(), self.table.tobytes())
        if key not in cache:
            cache[key] = (a, a.copy())
        return cache[key][0]

    def likelihood(self, X):
        return out(self, "p", X, self.table[:, X[:, 0].astype(int)].T)

    def log_likelihood(self, X):
        with np.errstate(divide="ignore"):
            return out(self, "l", X, np.log(self.table)[:, X[:, 0].astype(int)].T)

    class Hooks:
        def _initialize_sufficient_statistics(self):
            stats = super()._initialize_sufficient_statistics()
            stats["custom"] = np.zeros((self.n_components, spec["S"]))
            log.append(("begin", self.startprob_.copy(), self.transmat_.copy(),
                        self.table.copy()))
            return stats

        def _accumulate_sufficient_statistics(
                self, stats, X, lattice, posteriors, fwdlattice, bwdlattice):
            log.append(("seq", np.array(X), np.array(lattice),
                        np.array(posteriors), np.array(fwdlattice),
                        np.array(bwdlattice), id(stats)))
            super()._accumulate_sufficient_statistics(
                stats=stats, X=X, lattice=lattice, posteriors=posteriors,
                fwdlattice=fwdlattice, bwdlattice=bwdlattice)
            np.add.at(stats["custom"].T, X[:, 0].astype(int), posteriors)

        def _do_mstep(self, stats):
            log.append(("mstep", {k: np.array(v) for k, v in stats.items()},
                        id(stats)))
            super()._do_mstep(stats)
            if "e" in self.params:
                n = stats["custom"].sum(axis=1, keepdims=True)
                self.table = np.where(n > 0, stats["custom"] / np.where(n, n, 1),
                                      self.table)

        def _get_n_fit_scalars_per_param(self):
            return {"s": 1, "t": 1, "e": 1} if spec["seed"] % 2 else None

        def _generate_sample_from_state(self, state, random_state):
            x = np.concatenate([[state + random_state.rand()],
                                random_state.rand(spec["F"])])
            log.append(("sample", int(state), x.copy()))
            return x

    methods = {}
    if method in ("prob", "both"):
        methods["_compute_likelihood"] = likelihood
    if method in ("log", "both"):
        methods["_compute_log_likelihood"] = log_likelihood
    shape = spec["shape"]
    if shape == "direct":
        cls = type("Custom", (Hooks, BaseHMM), methods)
    elif shape == "mixin":
        cls = type("Custom", (type("Emissions", (), methods), Hooks, BaseHMM), {})
    elif shape == "sub":
        mid = type("Middle", (Hooks, BaseHMM), methods)
        cls = type("Custom", (mid,), {})
    else:
        mid = type("Middle", (BaseHMM,), {})
        cls = type("Custom", (Hooks, mid), methods)
    return cls, cache


def make(spec, log, values, **kw):
    cls, cache = make_class(spec, log)
    args = dict(algorithm=spec["algorithm"], implementation=spec["impl"],
                random_state=spec["seed"] % 2**31)
    args.update(kw)
    m = cls(spec["K"], **args)
    start, trans, B = values
    m.table = B.copy()
    if spec["start"] == "set" or not kw.get("fitting"):
        m.startprob_, m.transmat_ = start.copy(), trans.copy()
    return m, cache


def check_cache(cache):
    for which, (a, b) in cache.items():
        check_same("the array returned by the likelihood method", a, b)


def reference(start, trans, B, X, lengths):
    lb = O.safe_log(B)[:, X[:, 0].astype(int)].T
    return O.Full(None, {"start": start, "trans": trans}, X, lengths, lb=lb)


def label(spec, ctx, lengths):
    ctx.label(spec["method"], spec["impl"], spec["shape"], spec["layout"],
              spec["table"])
    ctx.interesting(spec["K"] > 1 and max(lengths) > 1)


def check_queries(spec, ctx):
    start, trans, B, X, lengths = build(spec)
    K, T = spec["K"], len(X)
    full = reference(start, trans, B, X, lengths)
    label(spec, ctx, lengths)
    m, cache = make(spec, [], (start, trans, B))
    if not full.possible:
        ctx.label("impossible")
        if spec["impl"] == "log":
            s = sut("score", m.score, X, lengths)
            if not s == -np.inf:
                fail(f"score of impossible data is {s!r}")
        return
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    check_close("score", sut("score", m.score, X, lengths), full.loglik,
                atol=full.tol)
    ll, post = sut("score_samples", m.score_samples, X, lengths)
    check_close("score_samples()[0]", ll, full.loglik, atol=full.tol)
    check_close("posteriors", post, full.gamma, atol=full.gtol)
    check_same("predict_proba", sut("predict_proba", m.predict_proba, X, lengths),
               post)
    for alg in ("viterbi", "map"):
        v, path = sut("decode", m.decode, X, lengths, algorithm=alg)
        path = check_path("path", path, T, K)
        if alg == "viterbi":
            best = sum(O.viterbi_value(full.lstart, full.ltrans, full.lb[s])
                       for s in O.split(lengths))
            check_close("viterbi log_prob", v, best, atol=full.tol)
            got = sum(O.path_value(full.lstart, full.ltrans, full.lb[s], path[s])
                      for s in O.split(lengths))
            check_close("log-probability of the viterbi path", got, best,
                        atol=full.tol)
        else:
            worst = (full.gamma.max(axis=1) - full.gamma[np.arange(T), path]).max()
            if worst > 2 * full.gtol:
                fail(f"a map state is {worst} less probable than the best")
        if alg == spec["algorithm"]:
            check_same("predict", sut("predict", m.predict, X, lengths), path)
    check_cache(cache)
    check_same("startprob_", m.startprob_, start)
    check_same("transmat_", m.transmat_, trans)


def check_fit(spec, ctx):
    start, trans, B, X, lengths = build(spec)
    label(spec, ctx, lengths)
    if spec["table"] in ("density", "prob"):
        B = np.maximum(B, 1e-3)
    log = []
    m, cache = make(spec, log, (start, trans, B), n_iter=spec["iters"],
                    tol=-np.inf, params=spec["params"],
                    init_params="" if spec["start"] == "set" else "st")
    if spec["start"] == "data":
        del m.startprob_, m.transmat_
    elif not reference(start, trans, B, X, lengths).possible:
        raise Skip
    if spec["impl"] == "scaling":
        if spec["start"] == "data":
            if (B[:, X[:, 0].astype(int)].max(axis=0) == 0).any():
                raise Skip
        elif reference(start, trans, B, X, lengths).scaling_status() != "ok":
            raise Skip
    if (B[:, X[:, 0].astype(int)].max(axis=0) == 0).any():
        raise Skip
    impossible = False
    try:
        m.fit(X.copy(), lengths)
    except ValueError:
        # forward pass with scaling underflowed, or the M-step gave zero rows
        impossible = True
    iters = [i for i, e in enumerate(log) if e[0] == "begin"]
    if not impossible and len(iters) != spec["iters"]:
        fail(f"{len(iters)} E-steps in {spec['iters']} iterations")
    history = list(m.monitor_.history)
    for n, i in enumerate(iters):
        stop = iters[n + 1] if n + 1 < len(iters) else len(log)
        events = log[i:stop]
        _, s, A, table = events[0]
        full = reference(s, A, table, X, lengths)
        if not full.possible or (spec["impl"] == "scaling"
                                 and full.scaling_status() != "ok"):
            ctx.label("stopped: unlikely data")
            return
        if impossible and n == len(iters) - 1:
            fail(f"training raised in iteration {n} although all sequences are "
                 "possible")
        kinds = [e[0] for e in events]
        want = ["begin"] + ["seq"] * len(lengths) + ["mstep"]
        if kinds != want:
            fail(f"hooks were called as {kinds}, expected {want}")
        if len({e[-1] for e in events[1:]}) != 1:
            fail("hooks did not get the same statistics")
        for q, sl, e in zip(full.seqs, O.split(lengths), events[1:]):
            _, gX, lat, post, fwd, bwd, _ = e
            check_same("X of the sequence", gX, X[sl])
            wl = q.lb if spec["impl"] == "log" else np.exp(q.lb)
            check_close("frame (log-)probabilities", lat, wl, atol=1e-300,
                        rtol=1e-13)
            check_close("posteriors", post, q.gamma, atol=full.gtol)
            check_close("sum of posteriors", post.sum(axis=1), np.ones(q.T),
                        atol=1e-10)
            for nm, a in (("fwdlattice", fwd), ("bwdlattice", bwd)):
                check_array(nm, a, q.lb.shape)
            with np.errstate(all="ignore"):
                both = fwd + bwd if spec["impl"] == "log" else O.safe_log(fwd * bwd)
                both = np.exp(both - O.lse(both, 1)[:, None])
            check_close("fwdlattice and bwdlattice combined", both, q.gamma,
                        atol=full.gtol)
            if spec["impl"] == "log":
                wf = q.la + np.cumsum(q.c)[:, None]
                ok = np.isfinite(wf)
                if not np.isneginf(fwd[~ok]).all():
                    fail("fwdlattice of an unreachable state is finite")
                check_close("fwdlattice", fwd[ok], wf[ok], atol=full.tol)
        stats = events[-1][1]
        cnt = np.zeros((spec["K"], spec["S"]))
        np.add.at(cnt.T, X[:, 0].astype(int), full.gamma)
        at = full.gtol * (1 + len(X))
        check_close("statistics of the subclass", stats["custom"], cnt, atol=at)
        check_same("stats['nobs']", stats["nobs"], len(lengths))
        if "s" in spec["params"]:
            check_close("stats['start']", stats["start"], full.start_counts(),
                        atol=at)
        if "t" in spec["params"]:
            check_close("stats['trans']", stats["trans"], full.trans_counts(),
                        atol=at)
        check_close(f"history[{n}]", history[n], full.loglik, atol=full.tol)
        # what follows this iteration
        after = (log[stop][1:4] if stop < len(log)
                 else (m.startprob_, m.transmat_, m.table))
        up = O.mstep_start_trans({"start": s, "trans": A}, full)
        if "s" not in spec["params"]:
            check_same("startprob_", after[0], s)
        else:
            check_close("startprob_", after[0], up["start"], atol=at)
        if "t" not in spec["params"]:
            check_same("transmat_", after[1], A)
        else:
            raw = up["trans_raw"].sum(axis=1)
            for k in range(spec["K"]):
                if raw[k] > 1e-5 * len(X):
                    check_close(f"transmat_[{k}]", after[1][k], up["trans"][k],
                                atol=4 * at / raw[k])
        if "e" not in spec["params"]:
            check_same("emission table", after[2], table)
    check_cache(cache)


def check_sample(spec, ctx):
    start, trans, B, X, lengths = build(spec)
    ctx.label(spec["shape"], spec["pm_t"])
    ctx.interesting(spec["K"] > 1 and spec["T"] > 1)
    log = []
    m, _ = make(spec, log, (start, trans, B))
    n = spec["T"]
    Z, states = sut("sample", m.sample, n, random_state=spec["seed"] % 2**31)
    if len(log) != n or [e[1] for e in log] != [int(s) for s in states]:
        fail(f"{n} samples: emissions drawn from {[e[1] for e in log][:20]} "
             f"for states {np.asarray(states)[:20]}")
    check_same("samples", Z, np.array([e[2] for e in log]))
    states = check_path("states", states, n, spec["K"])
    if start[states[0]] == 0 or (trans[states[:-1], states[1:]] == 0).any():
        fail("sampled an impossible path")


def check_neither(spec, ctx):
    """Without any likelihood method there is a clear refusal."""
    from hmmlearn.base import BaseHMM
    start, trans, B, X, lengths = build(spec)
    ctx.label(spec["impl"])
    ctx.interesting()
    m = type("Nothing", (BaseHMM,), {
        "_get_n_fit_scalars_per_param": lambda self: None})(
        spec["K"], implementation=spec["impl"], algorithm=spec["algorithm"],
        init_params="")
    m.startprob_, m.transmat_ = start, trans
    for name in ("score", "predict", "fit", "decode", "score_samples"):
        e = must_raise(name, getattr(m, name), X, lengths)
        if not isinstance(e, NotImplementedError):
            fail(f"{name} without a likelihood raised {type(e).__name__}: {e}")


FACETS = [
    Facet("queries", custom, check_queries, 2200),
    Facet("training", custom, check_fit, 1500),
    Facet("sampling", custom, check_sample, 300),
    Facet("neither", custom, check_neither, 60),
]
