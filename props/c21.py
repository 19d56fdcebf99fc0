"""Variational categorical (and start/transition) updates."""
from lib.core import Facet

from . import vbcheck

RULE = ("generated priors, posteriors, data, splits and trained subsets; one to "
        "three iterations of fit() against the reference conjugate update; "
        "non-trivial: judged, with at least 2 states and 2 frames")


def check(spec, ctx):
    vbcheck.run(spec, ctx, ('start', 'trans', 'emis'))


FACETS = [Facet("update", vbcheck.strategy(['vcat', 'vcat', 'vgauss']), check, 4000),
          Facet("long", vbcheck.long(['vcat', 'vcat', 'vgauss']), check, 32),
          Facet("wide", vbcheck.wide(['vcat', 'vcat', 'vgauss']), check, 250),
          Facet("joint", vbcheck.joint(['vcat', 'vcat', 'vgauss']), check, 500)]
