"""C15: bfiq conversion maps every sample and beam."""
from . import c14

BOUNDS = ('formats v0.4-v0.7 in both structures; 1-2 records (3 in the thorough tier) with 1-2 beams and sequences each, 2 '
          'samples and 1-2 antenna arrays, or 11 records of 1-3 beams, or a record of 16 beams, 3 sequences and 8 pulses; samples, times, noise, ranges and rates of any value within the ranges of the DMAP '
          'fields (exact reals), samples also beyond the range of 16-bit counts; normalization and scaling factors from a list')
OUTSIDE = c14.OUTSIDE
COVERS = ['converted']
OPTS = {'validate': 3}


def cases(tier):
    return [dict(c, ft='bfiq') for c in c14.cases(tier)]


harness = c14.harness
