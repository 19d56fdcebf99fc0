"""EM re-estimation of start and transition probabilities."""
from lib import gen
from lib.core import Facet

from . import emcheck

RULE = ("generated model, data, split, priors (flat, default, scalar, array, "
        "row) and trained subset; fit() for one or two iterations against the "
        "reference M-step; non-trivial: at least one row of a parameter was "
        "judged, with 2 states and 2 frames")


def check(spec, ctx):
    emcheck.run(spec, ctx, "st")


FACETS = [Facet("mstep", emcheck.strategy(gen.EMF), check, 7000),
          Facet("long", emcheck.long(gen.EMF), check, 32),
          Facet("wide", emcheck.wide(gen.EMF), check, 250),
          Facet("joint", emcheck.joint(gen.EMF), check, 800)]
