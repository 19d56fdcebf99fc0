"""EM re-estimation of discrete emissions."""
from lib import gen
from lib.core import Facet

from . import emcheck

RULE = ("generated model, data, split, priors (flat, default, scalar, array, "
        "row) and trained subset; fit() for one or two iterations against the "
        "reference M-step; non-trivial: at least one row of a parameter was "
        "judged, with 2 states and 2 frames")


def check(spec, ctx):
    emcheck.run(spec, ctx, "el")


FACETS = [Facet("mstep", emcheck.strategy(['cat', 'mult', 'pois']), check, 7000),
          Facet("long", emcheck.long(['cat', 'mult', 'pois']), check, 32),
          Facet("wide", emcheck.wide(['cat', 'mult', 'pois']), check, 250),
          Facet("joint", emcheck.joint(['cat', 'mult', 'pois']), check, 800)]
