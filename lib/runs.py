"""Whole training runs of any family, and what can be observed of a model."""
import random

import numpy as np
from hypothesis import strategies as st

from . import em, gen, vb
from .core import Skip, check_same, fail

DOC = ["startprob_", "transmat_", "emissionprob_", "lambdas_", "means_", "covars_",
       "weights_"] + [
    f"{n}_{w}_" for n in ("startprob", "transmat", "emissionprob", "means",
                          "beta", "dof", "scale") for w in ("prior", "posterior")]
FAMS = gen.EMF + ["vcat", "vgauss"]


@st.composite
def specs(draw, fams=FAMS, extra=None, **kw):
    """EM and variational specs; "start" tells what is set before training."""
    fam = gen.pick(draw, fams)
    ex = {"start": st.sampled_from(["set", "data", "mixed"]),
          "iters": st.integers(1, 6),
          "priors": st.sampled_from(["flat", "flat", "scalar", "int", "array", "row"]),
          "subset": st.sampled_from([0, 0, 0, 1, 2, 3])}
    ex.update(extra or {})
    if fam.startswith("v"):
        spec = draw(vb.specs([fam], extra=ex, **dict(kw, min_T=max(3, kw.get("min_T", 3)))))
    else:
        spec = draw(gen.specs([fam], extra=st.fixed_dictionaries(ex), **kw))
    spec["fam"] = fam
    return spec


class Run:
    """A training scenario; new() builds the unfitted model afresh each time."""

    def __init__(self, spec):
        self.spec = spec
        fam = self.fam = spec["fam"]
        base = dict(spec, fam=vb.BASE.get(fam, fam))
        self.P, self.X, self.lengths = gen.case(base)
        spec["_ntrials"] = base.get("_ntrials")
        self.codes = gen.CODES[fam]
        rs = gen.rng(spec, 120)
        if spec["start"] == "set":
            self.init = ""
        elif spec["start"] == "data":
            self.init = self.codes
        else:
            self.init = "".join(c for c in self.codes if rs.rand() < .5)
        self.params = (self.codes if not spec["subset"] else
                       "".join(c for c in self.codes if rs.rand() < .6))
        if fam in vb.BASE:
            self.pri, self.prior = vb.priors(spec, self.X)
            self.Q = vb.posterior(spec, self.X)
        else:
            self.pri = em.priors(spec, spec["priors"])

    def viable(self):
        """Whether initialization from these data is well defined."""
        X = np.asarray(self.X, float)
        s = self.spec
        if self.fam == "vgauss" or (self.fam in ("gauss", "gmm") and "m" in self.init):
            if len(np.unique(X, axis=0)) < s["K"] * s.get("M", 1):
                return False
        if self.fam in ("gauss", "gmm", "vgauss") and (
                "c" in self.init or self.fam == "vgauss") and len(X) < 2:
            return False
        if self.fam == "pois" and "l" in self.init and X.var() == 0:
            return False
        return True

    def new(self, **kw):
        args = {k: np.array(v) if isinstance(v, np.ndarray) else v
                for k, v in self.pri.items()}
        args.update(params=self.params, init_params=self.init,
                    n_iter=self.spec["iters"], tol=-np.inf)
        args.update(kw)
        m = gen.new_model(self.spec, **args)
        if self.spec["start"] != "data":
            self.assign(m)
        return m

    def assign(self, m):
        if self.fam in vb.BASE:
            vb.assign(m, self.prior, self.Q)
        else:
            gen.set_params(m, self.fam, self.P)
        return m

    def fit(self, m):
        return outcome(m.fit, np.array(self.X), list(self.lengths))


def outcome(f, *a, **k):
    """("ok", result) or ("raised", type name); bugs of the harness pass through."""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def params(model, names=DOC):
    """Copies of all documented parameters that are readable."""
    out = {}
    for n in names:
        try:
            v = getattr(model, n)
        except AttributeError:
            continue
        out[n] = np.array(v, copy=True)
    return out


def same_params(what, a, b):
    if sorted(a) != sorted(b):
        fail(f"{what}: attributes differ: {sorted(set(a) ^ set(b))}")
    for k in a:
        check_same(f"{what}: {k}", a[k], b[k])


def state(model):
    out = params(model)
    out["history"] = np.array(list(model.monitor_.history), dtype=float)
    return out


def same_outcome(what, a, b):
    if a[0] != b[0] or a[0] == "raised" and a[1] != b[1]:
        fail(f"{what}: {a[0]} {a[1] if a[0] == 'raised' else ''} versus "
             f"{b[0]} {b[1] if b[0] == 'raised' else ''}")


# ------------------------------------------------------------ global generators

class Globals:
    """Checks that numpy's and Python's global generators are left alone."""

    def __init__(self, seed):
        np.random.seed(seed % 2**32)
        random.seed(seed)
        self.np, self.py = np.random.get_state(), random.getstate()

    def check(self, what):
        a, b = np.random.get_state(), self.np
        if not (np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            fail(f"{what} changed numpy's global generator")
        if random.getstate() != self.py:
            fail(f"{what} changed the global generator of 'random'")


# ------------------------------------------------------------ queries

def query(model, X, lengths, name, seed=3):
    """One read-only question to a model, as arrays."""
    if name == "score":
        return [model.score(X, lengths)]
    if name == "score_samples":
        return list(model.score_samples(X, lengths))
    if name == "predict":
        return [model.predict(X, lengths)]
    if name == "predict_proba":
        return [model.predict_proba(X, lengths)]
    if name == "decode":
        return list(model.decode(X, lengths))
    if name in ("viterbi", "map"):
        return list(model.decode(X, lengths, algorithm=name))
    if name == "sample":
        return list(model.sample(7, random_state=seed))
    if name == "sample1":
        return list(model.sample(1, random_state=seed, currstate=0))
    if name == "aic":
        return [model.aic(X, lengths)]
    if name == "bic":
        return [model.bic(X, lengths)]
    if name == "stationary":
        return [model.get_stationary_distribution()]
    raise KeyError(name)


QUERIES = ["score", "score_samples", "predict", "predict_proba", "decode", "viterbi", "map",
           "sample", "sample1", "aic", "bic", "stationary"]


def queries(fam):
    return [q for q in QUERIES
            if not (fam in vb.BASE and q in ("aic", "bic", "stationary"))]


def same_answers(what, a, b):
    same_outcome(what, a, b)
    if a[0] == "ok":
        if len(a[1]) != len(b[1]):
            fail(f"{what}: {len(a[1])} results versus {len(b[1])}")
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            check_same(f"{what} [{i}]", np.asarray(x), np.asarray(y))


def check_query(what, model, X, lengths, name, want=None, seed=3):
    got = outcome(query, model, X, lengths, name, seed)
    if want is not None:
        same_answers(f"{what}: {name}", got, want)
    return got
