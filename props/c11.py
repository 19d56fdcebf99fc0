"""EM re-estimation of Gaussian mixtures."""
from lib import gen
from lib.core import Facet

from . import emcheck

RULE = ("generated model, data, split, priors (flat, default, scalar, array, "
        "row) and trained subset; fit() for one or two iterations against the "
        "reference M-step; non-trivial: at least one row of a parameter was "
        "judged, with 2 states and 2 frames")


def check(spec, ctx):
    emcheck.run(spec, ctx, "wmc")


FACETS = [Facet("mstep", emcheck.strategy(['gmm']), check, 4500),
          Facet("long", emcheck.long(['gmm']), check, 32),
          Facet("wide", emcheck.wide(['gmm']), check, 250),
          Facet("joint", emcheck.joint(['gmm']), check, 700)]
