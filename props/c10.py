"""C10: the array structure lays out every record and pads the rest."""
from collections import OrderedDict
import numpy as np
from . import _bor as B

BOUNDS = ('formats v0.4-v0.7, the three restructurable file types; 1-2 records (3 in the thorough tier) with 1-2 sequences, '
          '1-2 beams (1-3 in the thorough tier) and 0-2 blanked samples each, in every combination; every bit pattern of '
          'every integer and 64-bit float, every value of the complex numbers (pairs of reals); texts that differ between '
          'records from a list with empty, long and non-ASCII ones; phase offsets per pulse or per pulse and sequence; besides, 12 records of '
          'mixed sizes, and 2 records of 5 and 11 sequences, 16 and 17 beams, 20 antennas and 8 pulses')
OUTSIDE = ('other or larger dimensions; records whose shared fields, numbers of ranges, lags or samples differ; symbolic first time '
           'stamps (they name the records) and texts')
COVERS = ['restructured']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}
LONG = 'x' * 300
INTERF = [['', 'abc'], ['one', ''], [LONG, 'caf\u00e9 \u2603'], ['same', 'same']]


def cases(tier):
    out = []
    for ver in B.VERSIONS if tier == 'quick' else list(B.RELEASES):
        for ft in B.DIM_FTYPES:
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                out.append({'ver': ver, 'ft': ft, 'n': n, 'big': tier != 'quick'})
            out += large(ver, ft)
    return out


WIDE = {'R': 3, 'L': 5, 'S': 3, 'A': 20, 'T': 16, 'P': 8, 'Q': 15}
MANY = [(1, 1, 0), (3, 1, 2), (1, 2, 1), (2, 1, 4), (1, 3, 0), (4, 1, 1), (1, 1, 3), (2, 2, 0), (1, 1, 12), (1, 1, 1), (1, 4, 1),
        (2, 1, 1)]


def large(ver, ft):
    """more records, and larger ones: (sequences, beams, blanked samples) of each"""
    return [{'ver': ver, 'ft': ft, 'n': 12, 'dims': MANY},
            {'ver': ver, 'ft': ft, 'n': 2, 'dims': [(5, 16, 14), (11, 17, 9)], 'fix': WIDE}]


def inputs(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    n = case['n']
    if 'dims' in case:
        dims = [dict(seqs=s, beams=b, blank=q) for s, b, q in case['dims']]
        texts = [{'slice_interfacing': 't' * (i * 7 % 11) + str(i)} for i in range(n)]
        return fmt, B.records(h, fmt, dims, texts=texts if 'slice_interfacing' in fmt.unshared else None,
                              ppo2='pulse_phase_offset' in fmt.unshared and case['n'] == 2)
    blanks = 'blanked_samples' in fmt.unshared
    dims = []
    for i in range(n):
        d = dict(seqs=h.choose('seqs%d' % i, 1, 3 if case['big'] and i == 0 else 2) if fmt.ft != 'rawacf' or i == 0 else 1 + i % 2,
                 beams=h.choose('beams%d' % i, 1, 3 if case['big'] and i == 0 else 2) if fmt.ft != 'antennas_iq' or i == 0 else 1 + i % 2,
                 blank=1)
        if blanks:
            # the numbers of blanked samples vary together with the beams, so as not to multiply the cases
            d['blank'] = {1: 0, 2: 2, 3: 1}[d['beams']] if i % 2 == 0 else d['seqs'] % 3
        dims.append(d)
    texts = None
    if 'slice_interfacing' in fmt.unshared:
        k = h.choose('texts', 0, len(INTERF) - 1) if all(d['beams'] == 1 for d in dims) else 0
        texts = [{'slice_interfacing': INTERF[k][i % 2]} for i in range(n)]
    ppo2 = 'pulse_phase_offset' in fmt.unshared and dims[0]['beams'] == 1 and h.branch(h.bool('ppo2'))
    return fmt, B.records(h, fmt, dims, texts=texts, ppo2=ppo2)


@B.sized
def harness(h, case):
    fmt, recs = inputs(h, case)
    exp = B.to_arrays(h, fmt, recs)
    before = B.snapshot(recs)
    p = h.path('out.hdf5')
    w = h.call(h.lib.BorealisWrite, p, recs, case['ft'], 'site')
    h.check(w.ok, 'valid records are written (%s)' % w.name)
    o = h.call(lambda: w.value.arrays)
    h.note(o.name)
    h.check(o.ok, 'valid records can be restructured (%s)' % o.name)
    B.check_fields(h, o.value, exp, 'arrays of the writer')
    h.check(B.same(recs, before), 'the records are unchanged')
    r = h.call(h.lib.BorealisRead, p, case['ft'], 'site')
    h.check(r.ok, 'the file is read (%s)' % r.name)
    o = h.call(lambda: r.value.arrays)
    h.check(o.ok, 'records read can be restructured (%s)' % o.name)
    B.check_fields(h, o.value, exp, 'arrays of the reader')
    h.cover('restructured')
