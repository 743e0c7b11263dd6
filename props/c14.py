"""C14: rawacf conversion maps every lag and beam."""
from collections import OrderedDict
import numpy as np
from symex.harness import V, SReal
from . import _bor as B
from . import _conv as K

BOUNDS = ('formats v0.4-v0.7 in both structures; 1-2 records (3 in the thorough tier) with 1-2 beams each, 2 ranges, 2-3 lags and '
          '2-3 antennas, or 11 records of 1-3 beams, or a record of 16 beams, 8 pulses and 16 antennas; correlations, phases, times, noise, ranges and rates of any value within the ranges of the DMAP '
          'fields (exact reals); normalization and scaling factors from a list')
OUTSIDE = ('floating point rounding (results of the real code are compared with a tolerance); parameters beyond the range of '
           'their 16-bit DMAP fields; symbolic first time stamps and texts')
COVERS = ['converted']
OPTS = {'validate': 3}


def cases(tier):
    out = []
    full = tier != 'quick'
    for ver in B.VERSIONS:
        for st in ('site', 'array'):
            for n in (1, 2, 3)[:2 + full]:
                for k in range(4 if full else 2):
                    out.append({'ver': ver, 'structure': st, 'n': n, 'k': k, 'ft': 'rawacf'})
            out.append({'ver': ver, 'structure': st, 'n': 11, 'k': 0, 'ft': 'rawacf'})
            out.append({'ver': ver, 'structure': st, 'n': 1, 'k': 2, 'ft': 'rawacf', 'wide': True})
    out += [{'ver': 'v0.6', 'structure': 'site', 'n': 1, 'k': 0, 'stations': True, 'ft': 'rawacf'}]
    return out


# powers of two: their arithmetic is exact
NORM = [(1.0, 1), (8.0, 1), (16.0, 4), (0.5, 2)]


def setup(h, case, name='in', prefix=''):
    """a convertible file; its records"""
    ft, n, k = case['ft'], case['n'], case['k']
    fmt = B.Fmt(case['ver'], ft)
    fix = dict(B.FIX)
    try:
        if k % 2:
            B.FIX.update({'L': 3, 'P': 3, 'AA': 1, 'T': 2, 'R': 1})
        if case.get('wide'):
            B.FIX.update({'L': 6, 'P': 8, 'T': 16, 'R': 5, 'S': 3} if ft == 'rawacf' else {'L': 6, 'P': 8, 'T': 16, 'S': 3})
        P = B.FIX['P']
        tau, plen = K.TAU[k % len(K.TAU)]
        pulses = [0, 9, 12, 20, 22, 26, 27, 43][:P]
        blanked = [p * (tau // plen) for p in pulses]
        old = case['ver'] in ('v0.4', 'v0.5')
        if not old and k % 2 == 0:
            blanked = sorted(blanked + [b + 1 for b in blanked])
        B.FIX['Q'] = len(blanked)
        norm, scale = NORM[(k + 2 * (n - 1)) % len(NORM)]
        dims = [dict(seqs=1 + (i + k) % 2, beams=h.choose('%sbeams%d' % (prefix, i), 1, 2) if n < 4 else 1 + i % 3,
                     blank=len(blanked)) for i in range(n)]
        if case.get('wide'):
            dims = [dict(seqs=3, beams=16, blank=len(blanked))]
        large = n > 3 or case.get('wide')
        # the quotients of these are decided by the other cases
        rates = {'first_range': 180.0, 'range_sep': 45.0, 'rx_sample_rate': 10000.0 / 3} if large else {}
        g = K.gen(h, {**rates, 'pulses': pulses, 'blanked_samples': blanked, 'tau_spacing': tau, 'tx_pulse_len': plen,
                      'data_normalization_factor': norm, 'pulse_phase_offset': np.zeros((P,), np.float32)},
                  None if not large else
                  lambda nm, f, k: k > 14 or k == 6 and '.r9.' in nm if f == 'tx_antenna_phases' else k % 11 == 5)
        station = h.pick(prefix + 'station', list(K.STID)) if case.get('stations') else 'sas'
        sh = {'station': station, 'experiment_name': 'normalscan', 'slice_comment': 'a comment'}
        recs = B.records(h, fmt, dims, gen=g, times=K.TIMES if n < 4 else K.MANY, shared_texts=sh, prefix=prefix)
    finally:
        B.FIX.clear()
        B.FIX.update(fix)
    if case['structure'] == 'site':
        p = B.put_site(h, name + '.hdf5', recs)
    else:
        p = B.put_arrays(h, name + '.hdf5', B.to_arrays(h, fmt, recs))
    return fmt, recs, p, scale


def harness(h, case):
    fmt, recs, p, scale = setup(h, case)
    q = h.path('out.dmap')
    slice_id = recs[list(recs)[0]].get('slice_id')
    kw = {'scaling_factor': scale} if scale != 1 else {}
    if slice_id is None:
        slice_id = kw['borealis_slice_id'] = h.int('slice', 0, 100)
    o, log = K.run(h, p, case['ft'], q, **kw)
    h.note(o.name)
    h.check(o.ok, 'convertible records are converted (%s)' % o.name)
    h.check(h.files() == ['in.hdf5', 'out.dmap'], 'one file is written')
    got = K.written(h, 'out.dmap', log)
    want = [(n, b) for n, r in recs.items() for b in range(len(r['beam_nums']))]
    h.check(len(got) == len(want), 'one DMAP record per record and beam')
    for g, (n, b) in zip(got, want):
        if case['ft'] == 'rawacf':
            exp, power = K.rawacf(h, recs[n], b, n, p, slice_id, scale)
            check_power(h, g, power)
            g = {k: v for k, v in g.items() if k != 'pwr0'}
        else:
            exp = K.iqdat(h, recs[n], b, n, p, slice_id, scale)
        K.check_record(h, g, exp, 'the DMAP record')
    h.cover('converted')


def check_power(h, g, power):
    """pwr0 is the magnitude of lag zero of the main correlations"""
    v = g.get('pwr0')
    h.check(isinstance(v, np.ndarray) and v.shape == (len(power),) and v.dtype == np.float32, 'lag-zero power of every range')
    for x, (re, im) in zip(B.elems(v), power):
        if h.sym and any(isinstance(y, SReal) for y in (x, re, im)):
            x, re, im = [V.to_real(y).t for y in (x, re, im)]
            h.check(V.mkbool(V.z3.And(x >= 0, x * x == re * re + im * im)), 'lag-zero power')
        else:
            e = np.hypot(float(re), float(im))
            h.check(abs(float(x) - e) <= 1e-3 + 1e-5 * e, 'lag-zero power')
