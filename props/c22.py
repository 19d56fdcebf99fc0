"""Variational Gaussian updates."""
from lib.core import Facet

from . import vbcheck

RULE = ("generated priors, posteriors, data, splits and trained subsets; one to "
        "three iterations of fit() against the reference conjugate update; "
        "non-trivial: judged, with at least 2 states and 2 frames")


def check(spec, ctx):
    vbcheck.run(spec, ctx, ('means', 'beta', 'dof', 'scale'))


FACETS = [Facet("update", vbcheck.strategy(['vgauss']), check, 3000),
          Facet("long", vbcheck.long(['vgauss']), check, 32),
          Facet("wide", vbcheck.wide(['vgauss']), check, 250),
          Facet("joint", vbcheck.joint(['vgauss']), check, 500)]
