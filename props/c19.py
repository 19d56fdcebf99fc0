"""The convergence monitor."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, runs, vb
from lib.core import Facet, Skip, check_close, check_same, fail, sut

RULE = ("generated training runs of all families; the history is compared with "
        "the reference likelihood (or bound) of the parameters before each "
        "update; stopping is compared with the rule applied to the history of "
        "an uninterrupted run, with thresholds at, just above and just below "
        "an actual gain; non-trivial: at least two iterations")


def start(spec):
    run = runs.Run(spec)
    if not run.viable():
        raise Skip
    return run, spec["seed"] % 1009


def reference(run, m):
    """Reference value of the current parameters, tolerance; None if undefined."""
    spec = run.spec
    if run.fam in vb.BASE:
        Q = vb.read(m, run.prior)
        pr = vb.read(m, run.prior, "prior")
        if not all(np.isfinite(v).all() for v in Q.values()):
            return None
        if vb.conditioning(spec, Q) > 1e7:
            return None
        if run.fam == "vgauss" and (
                np.min(Q["dof"]) <= spec["F"] - 1 or np.min(pr["dof"]) <= spec["F"] - 1):
            return None         # not a distribution
        full = vb.estep(spec, Q, run.X, run.lengths)
        v = vb.bound(spec, pr, Q, full)
    else:
        P = em.read(m, spec)
        if not all(np.isfinite(v).all() for v in P.values()):
            return None
        if run.fam in ("gauss", "gmm"):
            ev = np.linalg.eigvalsh(P["cov"])
            if (ev <= 0).any() or ev.max() / ev.min() > 1e7:
                return None
        if not np.allclose(P["trans"].sum(axis=1), 1):
            return None         # a dead state
        full = O.Full(run.fam, P, run.X, run.lengths)
        v = full.loglik
    if not full.possible:
        return None
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        return None
    return v, full.tol * 10 + 1e-9


def check_history(spec, ctx):
    run, seed = start(spec)
    N = spec["iters"]
    m = run.new(random_state=seed)
    if run.fit(m)[0] == "raised":
        raise Skip
    H = list(m.monitor_.history)
    if len(H) != N or m.monitor_.iter != N:
        fail(f"{len(H)} values, iter = {m.monitor_.iter} after {N} iterations "
             "that nothing stops")
    if not m.monitor_.converged:
        fail("not converged after n_iter iterations")
    ref, judged = [], 0
    for i in range(N):
        # parameters after i updates
        if i:
            k = run.new(random_state=seed, n_iter=i)
            r = run.fit(k)
        else:
            k = run.new(random_state=seed, n_iter=1, params="")
            r = run.fit(k)
        if r[0] == "raised":
            fail(f"{i} iterations raised {r[1]}, {N} iterations did not")
        if i:
            check_same(f"history of {i} of {N} iterations",
                       list(k.monitor_.history), H[:i])
        ref.append(reference(run, k))
    if run.fam in vb.BASE:        # up to a constant
        ok = [i for i in range(N) if ref[i]]
        for a, b in zip(ok, ok[1:]):
            check_close(f"history[{b}] - history[{a}]", H[b] - H[a],
                        ref[b][0] - ref[a][0], atol=ref[a][1] + ref[b][1] + 1e-7,
                        rtol=1e-8)
            judged += 1
    else:
        for i in range(N):
            if ref[i]:
                check_close(f"history[{i}]", H[i], ref[i][0], atol=ref[i][1])
                judged += 1
    ctx.label(run.fam, spec.get("cv", ""), f"judged={judged}")
    ctx.interesting(judged > 1)


def expected_stop(H, tol, N):
    for i in range(1, N):
        if H[i] - H[i - 1] < tol:
            return i + 1
    return N


def check_stop(spec, ctx):
    run, seed = start(spec)
    N = spec["iters"] + spec["more"]
    full = run.new(random_state=seed, n_iter=N)
    if run.fit(full)[0] == "raised":
        raise Skip
    H = np.array(list(full.monitor_.history))
    if len(H) != N or not np.isfinite(H).all():
        raise Skip
    gains = np.diff(H)
    j = spec["seed"] % max(1, N - 1)
    tol = {"equal": gains[j], "above": np.nextafter(gains[j], np.inf),
           "below": np.nextafter(gains[j], -np.inf), "zero": 0., "huge": 1e9,
           "negative": -1e-3, "default": 1e-2, "small": 1e-6, "half": gains[j] / 2,
           "maximum": gains.max(), "minus": -np.inf,
           "middle": np.median(gains)}[spec["tol"]] if N > 1 else 1e-2
    tol = float(tol)
    want = expected_stop(H, tol, N)
    how = spec["set"]
    if how == "constructor":
        m = run.new(random_state=seed, n_iter=N, tol=tol)
    elif how == "set_params":
        m = run.new(random_state=seed, n_iter=N + 3, tol=-5.)
        m.set_params(n_iter=N, tol=tol)
    elif how == "refit":
        m = run.new(random_state=seed, n_iter=1, tol=1.)
        run.fit(m)
        m.set_params(n_iter=N, tol=tol)
        if spec["start"] != "data":
            run.assign(m)
            if spec["start"] == "mixed" and run.fam not in vb.BASE:
                pass
    else:
        m = type(full)(**dict(full.get_params(), n_iter=N, tol=tol))
        if spec["start"] != "data":
            run.assign(m)
    r = run.fit(m)
    if r[0] == "raised":
        fail(f"fit with tol={tol!r} raised {r[1]}")
    if m.monitor_.tol != tol or m.monitor_.n_iter != N:
        fail(f"monitor has tol={m.monitor_.tol!r}, n_iter={m.monitor_.n_iter}; "
             f"given {tol!r}, {N}")
    got = list(m.monitor_.history)
    if len(got) != want:
        fail(f"training stopped after {len(got)} iterations, expected {want} "
             f"(tol {tol!r}, gains {gains[:6]})")
    check_same("history", got, H[:want])
    if m.monitor_.iter != want:
        fail(f"iter is {m.monitor_.iter} after {want} iterations")
    conv = want == N or H[want - 1] - H[want - 2] < tol
    if bool(m.monitor_.converged) != bool(conv):
        fail(f"converged is {m.monitor_.converged} after {want} of {N} iterations")
    # the parameters are those of exactly that many updates
    k = run.new(random_state=seed, n_iter=want)
    run.fit(k)
    runs.same_params(f"after {want} iterations", runs.params(k), runs.params(m))
    ctx.label(run.fam, spec.get("cv", ""), "tol=" + spec["tol"], how,
              "early" if want < N else "all")
    ctx.interesting(N > 1)


def check_again(spec, ctx):
    """Each fit starts anew; verbosity only prints."""
    run, seed = start(spec)
    N = spec["iters"]
    m = run.new(random_state=seed, n_iter=N)
    if run.fit(m)[0] == "raised":
        raise Skip
    H = list(m.monitor_.history)
    state = runs.state(m)
    # verbose output goes to stderr, one line per iteration
    out, err = io.StringIO(), io.StringIO()
    v = run.new(random_state=seed, n_iter=N, verbose=True)
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        r = run.fit(v)
    if r[0] == "raised":
        fail(f"verbose fit raised {r[1]}")
    runs.same_params("verbose fit", runs.state(v), state)
    lines = [s for s in err.getvalue().splitlines() if s.strip()]
    rep = [s.split() for s in lines if re.match(r"\s*\d+\s", s)]
    if out.getvalue() or len(rep) != N:
        fail(f"verbose fit of {N} iterations printed {len(rep)} reports")
    for i, s in enumerate(rep):
        if int(s[0]) != i + 1:
            fail(f"report {i} has number {s[0]}")
        if np.isfinite(H[i]):
            check_close(f"reported value {i}", float(s[1]), H[i], atol=1e-7)
        if i and np.isfinite(H[i] - H[i - 1]):
            check_close(f"reported gain {i}", float(s[2]), H[i] - H[i - 1], atol=1e-7)
        if not i and s[2].lower().lstrip("+-") != "nan":
            fail(f"first report has gain {s[2]}")
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        q = run.new(random_state=seed, n_iter=N)
        run.fit(q)
    if err.getvalue():
        fail(f"silent fit printed {err.getvalue()!r:.200}")
    # the next fit starts with an empty history
    n2 = spec["more"]
    m.set_params(n_iter=n2)
    r = run.fit(m)
    if r[0] == "ok":
        h2 = list(m.monitor_.history)
        if len(h2) != n2 or m.monitor_.iter != n2:
            fail(f"second fit: {len(h2)} values, iter = {m.monitor_.iter}, n_iter = {n2}")
        if spec["start"] == "data":
            k = min(n2, N)
            check_same("history of the second fit", h2[:k], H[:k])
    ctx.label(run.fam, spec.get("cv", ""))
    ctx.interesting(N > 1)


def check_custom(spec, ctx):
    from hmmlearn.base import ConvergenceMonitor
    run, seed = start(spec)
    N = spec["iters"] + spec["more"]
    ref = run.new(random_state=seed, n_iter=N)
    if run.fit(ref)[0] == "raised":
        raise Skip
    H = list(ref.monitor_.history)
    stop_at = 1 + spec["seed"] % N
    asked = []

    class Custom(ConvergenceMonitor):
        @property
        def converged(self):
            asked.append((self.iter, len(self.history)))
            return self.iter >= stop_at

    class Counting(ConvergenceMonitor):
        reported = ()

        def report(self, log_prob):
            self.reported = (*self.reported, log_prob)
            super().report(log_prob)

    m = run.new(random_state=seed, n_iter=N)
    m.monitor_ = mon = Custom(m.monitor_.tol, m.monitor_.n_iter, m.monitor_.verbose)
    r = run.fit(m)
    if r[0] == "raised":
        fail(f"fit with a custom monitor raised {r[1]}")
    if m.monitor_ is not mon:
        fail("the custom monitor was replaced")
    check_same("history of the custom monitor", list(mon.history), H[:stop_at])
    if mon.iter != stop_at:
        fail(f"{mon.iter} iterations, the monitor asked to stop after {stop_at}")
    # asked once per iteration at least, never before the iteration is reported
    want = {(i, i) for i in range(1, stop_at + 1)}
    if not want <= set(asked) or any(a != b or a == 0 for a, b in asked):
        fail(f"converged was asked at (iter, history length) {asked[:20]}")
    k = run.new(random_state=seed, n_iter=stop_at)
    run.fit(k)
    runs.same_params("custom monitor", runs.params(m), runs.params(k))
    # a monitor that only listens; set_params keeps it
    m = run.new(random_state=seed, n_iter=N)
    m.monitor_ = mon = Counting(m.monitor_.tol, m.monitor_.n_iter, m.monitor_.verbose)
    if spec["seed"] % 2:
        m.set_params(n_iter=N)
    r = run.fit(m)
    if m.monitor_ is not mon or r[0] == "raised":
        fail(f"the listening monitor was replaced, or fit failed: {r[0]}")
    check_same("reported values", mon.reported, H)
    runs.same_params("listening monitor", runs.params(m), runs.params(ref))
    # the documented example
    class Threshold(ConvergenceMonitor):
        @property
        def converged(self):
            return self.iter == self.n_iter or self.history[-1] >= self.tol

    t = H[spec["seed"] % N]
    if np.isfinite(H).all():
        m = run.new(random_state=seed, n_iter=N, tol=t)
        m.monitor_ = Threshold(m.monitor_.tol, m.monitor_.n_iter, m.monitor_.verbose)
        run.fit(m)
        n = next((i + 1 for i in range(N) if H[i] >= t), N)
        check_same("history of the threshold monitor", list(m.monitor_.history), H[:n])
    ctx.label(run.fam, spec.get("cv", ""))
    ctx.interesting(stop_at > 1)


def check_endurance(spec, ctx):
    """Runs of thousands of iterations are recorded and counted completely."""
    run, seed = start(spec)
    N = spec["iters"]
    m = run.new(random_state=seed, n_iter=N)
    if run.fit(m)[0] == "raised":
        raise Skip
    H = list(m.monitor_.history)
    if len(H) != N or m.monitor_.iter != N or not m.monitor_.converged:
        fail(f"{len(H)} values, iter = {m.monitor_.iter}, converged = "
             f"{m.monitor_.converged} after {N} iterations that nothing stops")
    k = run.new(random_state=seed, n_iter=10)
    run.fit(k)
    check_same("the first 10 values", list(k.monitor_.history), H[:10])
    n = 1 + spec["seed"] % N
    k = run.new(random_state=seed, n_iter=n)
    run.fit(k)
    check_same(f"history of {n} of {N} iterations", list(k.monitor_.history), H[:n])
    if spec["impl"] == "log" and run.fam == "cat":
        P = em.read(k, spec)
        if np.allclose(P["trans"].sum(axis=1), 1) and n < N:
            full = O.Full(run.fam, P, run.X, run.lengths)
            if full.possible:
                check_close(f"history[{n}]", H[n], full.loglik, atol=10 * full.tol)
    ctx.label(run.fam, f"N>{N // 1000}000")
    ctx.interesting()


EX = {"more": st.integers(1, 4),
      "tol": st.sampled_from(["equal", "above", "below", "zero", "huge", "negative",
                              "default", "small", "half", "maximum", "minus",
                              "middle"]),
      "set": st.sampled_from(["constructor", "constructor", "set_params", "refit",
                              "get_params"])}


def strat(**kw):
    return lambda: runs.specs(
        max_T=60, kmax=5, extra=EX, emodes=gen.SAFE_EMODES,
        pmodes=["dense", "sticky", "uniform", "grid", "zeros"], **kw)


FACETS = [
    Facet("history", strat(), check_history, 350),
    Facet("stop", strat(), check_stop, 600),
    Facet("again", strat(), check_again, 250),
    Facet("custom", strat(), check_custom, 250),
    Facet("endurance", lambda: runs.specs(
        ["cat", "pois", "vcat"], max_T=5, kmax=2, regimes=(100, 100),
        emodes=["dense", "peaky"], pmodes=["dense", "peaky"], extra={
            "iters": st.integers(1001, 2600), "start": st.sampled_from(["set", "data"]),
            "priors": st.just("flat"), "subset": st.just(0)}), check_endurance, 24),
]
