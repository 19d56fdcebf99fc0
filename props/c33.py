"""covars_ reads and writes the covariances that the model uses."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle as O, runs, vb
from lib.core import (Facet, Skip, attr, check_array, check_close, fail,
                      must_raise, sut)

from . import c25

RULE = ("generated Gaussian models of all covariance types and histories of "
        "assigning valid and invalid covars_, reading, scoring, sampling, "
        "training, initialization and copies, compared with a model that tracks "
        "the full matrices; non-trivial: covariances were assigned or trained "
        "and scored")


def expand(cv, native, K, F):
    a = np.asarray(native, float)
    if cv == "full":
        return a.copy()
    if cv == "tied":
        return np.tile(a, (K, 1, 1))
    if cv == "diag":
        return a[:, :, None] * np.eye(F)
    return a.reshape(len(a), -1)[:, :1, None] * np.eye(F)


def reduce(cv, full):
    if cv == "full":
        return full.copy()
    if cv == "tied":
        return full[0].copy()
    if cv == "diag":
        return np.stack([np.diag(c) for c in full])
    return full[:, 0, 0].copy()


def structure(what, cv, c, exact=True):
    """Reading gives matrices of the right type."""
    F = c.shape[-1]
    if cv == "tied" and (c != c[:1]).any():
        fail(f"{what}: tied covars_ differ between states: {c.tolist()}")
    if cv in ("diag", "spherical") and (c * (1 - np.eye(F)) != 0).any():
        fail(f"{what}: off-diagonal entries in {cv} covars_: {c.tolist()}")
    d = np.diagonal(c, axis1=1, axis2=2)
    if cv == "spherical" and (d != d[:, :1]).any():
        fail(f"{what}: different variances in spherical covars_: {c.tolist()}")


class World:
    def __init__(self, spec):
        self.spec = spec
        self.K, self.F, self.cv = spec["K"], spec["F"], spec["cv"]
        self.vb = spec["fam"] == "vgauss"
        P, X, lengths = gen.case(dict(spec, fam="gauss"))
        self.P, self.X, self.lengths = P, X, lengths
        self.full = None                  # what the model should use
        if self.vb:
            if not vb.distinct_enough(spec, X):
                raise Skip
            self.m = gen.new_model(spec, n_iter=1, tol=-np.inf)
            r = runs.outcome(self.m.fit, X, lengths)
            if r[0] != "ok":
                raise Skip
            self.full = self.read("after fit")
        else:
            self.m = gen.new_model(spec, init_params="")
            s = {"means": P["means"], "start": P["start"], "trans": P["trans"]}
            self.m.startprob_, self.m.transmat_ = s["start"], s["trans"]
            self.m.means_ = s["means"]

    def read(self, what):
        return check_array(f"covars_ {what}", attr(self.m, "covars_"),
                           (self.K, self.F, self.F), finite=True).copy()

    def expect(self, what):
        if self.full is None:
            return
        got = self.read(what)
        check_close(f"covars_ {what}", got, self.full, rtol=1e-12,
                    atol=1e-300)
        structure(what, self.cv, got)

    def params(self):
        m = self.m
        means = m.means_posterior_ if self.vb else m.means_
        return {"start": np.asarray(m.startprob_, float),
                "trans": np.asarray(m.transmat_, float),
                "means": np.asarray(means, float), "cov": self.full}

    def usable(self):
        if self.full is None:
            return False
        ev = np.linalg.eigvalsh(self.full)
        p = self.params()
        return (ev[:, 0] > 1e-9 * ev[:, -1]).all() and ev.min() > 1e-12 and all(
            np.isfinite(v).all() for v in p.values()) and np.allclose(
                p["trans"].sum(axis=1), 1)


def new_native(w, op):
    rs = np.random.RandomState(op["seed"])
    return gen.covars(rs, w.cv, w.K, w.F, op["scale"])


def check(spec, ctx):
    w = World(spec)
    used = changed = 0
    kinds = set()
    for i, op in enumerate(spec["ops"]):
        kind = op["op"]
        what = f"after operation {i} ({kind})"
        m = w.m
        if kind == "assign":
            c, full = new_native(w, op)
            c = np.array(c)
            shape = op["form"]
            value = c.copy()
            if shape == 1:
                value = c.tolist()
            elif w.cv == "spherical" and shape == 2:
                value = np.tile(c[:, None], (1, w.F))
            elif shape == 3:
                value = np.asfortranarray(c)
            sut("assigning covars_", setattr, m, "covars_", value)
            if isinstance(value, np.ndarray):
                value[...] = 77.          # the caller's array is its own
            w.full = full
            changed += 1
        elif kind == "bad":
            c, _ = new_native(w, op)
            rs = np.random.RandomState(op["seed"])
            before = copy.deepcopy(m)
            if op["form"] < 2:
                bad = c25.not_positive({"cv": w.cv, "F": w.F, "fam": "gauss"},
                                       {"native": c}, rs)
            else:
                n, F = w.K, w.F
                bad = {"spherical": [np.float64(1.), np.ones(n + 1)],
                       "diag": [np.ones(n), np.ones((n, F, F)), np.ones((n + 1, F))],
                       "full": [np.ones((n, F)), np.eye(F)[0], np.ones((n, F, F + 1)),
                                np.tile(np.eye(F), (n + 1, 1, 1))],
                       "tied": [np.ones(F), np.tile(np.eye(F), (n, 1, 1)),
                                np.ones((F, F + 1))]}[w.cv]
                bad = bad[op["seed"] % len(bad)]
            must_raise(f"assigning {np.asarray(bad).tolist()} to covars_ "
                       f"(covariance_type={w.cv!r})", setattr, m, "covars_", bad)
            runs.same_params(what, runs.params(m), runs.params(before))
        elif kind == "tweak" and w.usable():
            # another matrix that has much in common with the current one
            full = w.full.copy()
            F, K = w.F, w.K
            if op["form"] == 0:           # other signs of the correlations
                d = np.where(np.arange(F) == op["seed"] % F, -1., 1.)
                full = full * np.outer(d, d)
            elif op["form"] == 1:         # weaker correlations
                d = np.eye(F)
                full = full * (d + .5 * (1 - d))
            elif op["form"] == 2:         # states exchanged
                full = full[::-1].copy()
            elif w.cv != "spherical":     # features exchanged
                full = full[:, ::-1, ::-1].copy()
            sut("assigning covars_", setattr, m, "covars_", reduce(w.cv, full))
            w.full = full
            changed += 1
        elif kind == "roundtrip" and w.usable():
            c = w.read(what)
            sut("assigning covars_", setattr, m, "covars_", reduce(w.cv, c))
        elif kind == "copy" and w.full is not None:
            other = copy.deepcopy(m) if op["form"] % 2 else pickle.loads(
                pickle.dumps(m))
            # The original goes another way.
            c, _ = new_native(w, op)
            m.covars_ = c
            w.m = other
        elif kind == "score" and w.usable():
            p = w.params()
            full = O.Full("gauss", p, w.X, w.lengths)
            if not full.possible or full.gtol > 1e-5 or full.tol > 1e-3 * (
                    1 + abs(full.loglik)):
                continue
            if m.implementation == "scaling" and full.scaling_status() != "ok":
                continue
            check_close(f"score {what}", sut("score", m.score, w.X, w.lengths),
                        full.loglik, atol=full.tol)
            used += 1
        elif kind == "train" and w.usable():
            full = O.Full("gauss", w.params(), w.X, w.lengths)
            if not w.vb and (not full.possible or full.gtol > 1e-5 or
                             m.implementation == "scaling" and
                             full.scaling_status() != "ok"):
                continue
            old = copy.deepcopy(m)
            m.n_iter, m.tol, m.init_params = 1, -np.inf, ""
            m.params = ["c", "stmc", "m", "st"][op["form"]]
            if not w.vb:
                # keep clear of degenerate updates
                m.covars_prior, m.covars_weight = .5, w.F + 3.
            r = runs.outcome(m.fit, w.X, w.lengths)
            c = np.asarray(attr(m, "covars_"))
            if (r[0] != "ok" or not np.isfinite(c).all()
                    or not np.allclose(np.asarray(m.transmat_).sum(axis=1), 1)):
                w.m = old                 # states that died
                continue
            if "c" in m.params:
                w.full = w.read(what)
                changed += 1
            elif w.vb:
                w.full = w.read(what)
        elif kind == "init":
            if len(w.X) < 2 or len(np.unique(w.X, axis=0)) < w.K:
                continue
            old = copy.deepcopy(m)
            m.n_iter, m.init_params = 0, "c"
            r = runs.outcome(m.fit, w.X, w.lengths)
            if r[0] != "ok":
                w.m = old
                continue
            w.full = w.read(what)
        elif kind == "query" and w.full is not None:
            before = runs.params(m)
            for q in ("map", "predict_proba", "sample"):
                runs.outcome(runs.query, m, w.X, w.lengths, q, 5)
            runs.same_params(what, runs.params(m), before)
        else:
            continue
        kinds.add(kind)
        w.expect(what)
    ctx.label(spec["fam"], w.cv, *kinds)
    ctx.interesting(bool(used and changed))


OPS = ["assign", "assign", "bad", "tweak", "tweak", "roundtrip", "copy", "score", "score", "score",
       "train", "init", "query"]


@st.composite
def histories(draw):
    fam = gen.pick(draw, ["gauss", "vgauss", "gauss"])
    spec = draw(gen.specs(["gauss"], pmodes=["dense", "sticky", "grid"], max_T=40,
                          min_T=4, kmax=5, xmodes=("model", "uniform")))
    spec["fam"] = fam
    spec["F"] = min(spec["F"], 5)
    op = st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "form": st.integers(0, 3),
        "scale": st.sampled_from([1., 1., .1, 50.]),
        "seed": st.integers(0, 2**16)})
    if draw(st.booleans()):
        spec["cv"] = gen.pick(draw, ["full", "tied"])
        spec["F"] = max(2, spec["F"])
    spec["ops"] = draw(st.lists(op, min_size=3, max_size=14))
    return spec


# ------------------------------------------------------------ samples

def check_sample(spec, ctx):
    """Samples of each state have the assigned covariance."""
    K, F, cv = spec["K"], spec["F"], spec["cv"]
    rs = gen.rng(spec, 170)
    native, full = gen.covars(rs, cv, K, F, spec["cscale"])
    m = gen.new_model(dict(spec, fam="gauss"), init_params="")
    m.startprob_, m.transmat_ = np.full(K, 1. / K), np.full((K, K), 1. / K)
    m.means_ = rs.randn(K, F) * 5
    m.covars_ = native
    n = 3000 * K
    X, z = sut("sample", m.sample, n, random_state=spec["seed"] % 9973)
    X = check_array("samples", X, (n, F), finite=True)
    for k in range(K):
        d = (X[z == k] - m.means_[k]) @ np.linalg.inv(np.linalg.cholesky(full[k])).T
        c = d.T @ d / len(d)
        # Entries have a standard deviation of sqrt((1 + [i == j]) / n).
        tol = 7 * np.sqrt((1 + np.eye(F)) / len(d))
        if (np.abs(c - np.eye(F)) > tol).any():
            fail(f"{cv} samples of state {k}, whitened with covars_, have the "
                 f"covariance {np.round(c, 3).tolist()} instead of the identity")
        if (np.abs(d.mean(axis=0)) > 7 / np.sqrt(len(d))).any():
            fail(f"{cv} samples of state {k} have the whitened mean "
                 f"{d.mean(axis=0).tolist()}")
    ctx.label(cv, f"F{F}")
    ctx.interesting(True)


@st.composite
def samples(draw):
    return {"K": draw(st.integers(1, 3)), "F": draw(st.integers(1, 5)),
            "cv": gen.pick(draw, ["spherical", "diag", "full", "tied"]),
            "cscale": gen.pick(draw, [1., 1e-3, 100.]), "impl": "log",
            "fam": "gauss", "seed": draw(st.integers(0, 2**20))}


FACETS = [
    Facet("histories", histories, check, 1800),
    Facet("samples", samples, check_sample, 60),
]
