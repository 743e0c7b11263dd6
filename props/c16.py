"""C16: only convertible data are converted to DMAP."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import _conv as K

BOUNDS = ('formats v0.4-v0.7 in both structures; 1-2 records (3 in the thorough tier) of 1-3 pulses with tables of 0-7 blanked '
          'samples (their number chosen per record where the format allows it, and their own pulse tables in site files), or 8 pulses of a given '
          'table with up to 17 blanked samples, or 11 records of which 3 are symbolic; every '
          'pulse and blanked sample below 2^26 (any value below 2^32 where no product overflows); every 32-bit value of every '
          'pulse phase offset; spacings from a list, and any spacing up to 65535 for given tables; every file type; output '
          'name equal to the input name')
OUTSIDE = ('spacing times pulse number beyond 32 bits; pulse length 0; development versions (refused as unknown, see C13); '
           'the contents of the converted file (C14, C15)')
COVERS = ['converted', 'blanked samples refused', 'phase offset refused', 'type refused', 'slice id missing', 'overwrite refused']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}
TAU = [(1500, 300), (2400, 300), (300, 300), (1000, 300), (200, 300)]


def cases(tier):
    full = tier != 'quick'
    out = []
    for ft in ('rawacf', 'bfiq'):
        for ver in B.VERSIONS:
            for st in ('site', 'array'):
                for n, P, k in [(1, 1, 0), (1, 2, 1), (1, 3, 3), (2, 2, 2), (2, 1, 4)] + ([(2, 3, 0), (3, 2, 3), (3, 1, 1)] if full else []):
                    out.append({'ft': ft, 'ver': ver, 'structure': st, 'n': n, 'P': P, 'k': k})
                if st == 'site' or full:
                    out.append({'ft': ft, 'ver': ver, 'structure': st, 'n': 1, 'P': 2, 'spacing': True})
                out.append({'ft': ft, 'ver': ver, 'structure': st, 'n': 1, 'P': 8, 'k': 1, 'wide': True})
                if ft == 'rawacf' or st == 'site':
                    out.append({'ft': ft, 'ver': ver, 'structure': st, 'n': 11, 'P': 2, 'k': 0, 'wide': True})
    for ver in B.VERSIONS:
        for ft in B.FTYPES:
            for st in ('site', 'array'):
                if ft != 'rawrf' or st == 'site':
                    out.append({'ft': ft, 'ver': ver, 'structure': st, 'types': True, 'n': 1, 'P': 2, 'k': 0})
    return out


def ordered(h, xs):
    """ascending"""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            c = xs[j + 1] < xs[j]
            xs[j], xs[j + 1] = h.ite(c, xs[j + 1], xs[j]), h.ite(c, xs[j], xs[j + 1])
    return xs


def ints(a):
    """the elements as integers of unlimited range"""
    from symex.harness import M, SInt
    return [M.call(int, x) if isinstance(x, SInt) else int(x) for x in B.elems(a)]


def setup(h, case):
    ft, n, P = case['ft'], case['n'], case['P']
    fmt = B.Fmt(case['ver'], ft)
    fix = dict(B.FIX)
    site = case['structure'] == 'site'
    tau, plen = TAU[case.get('k', 0)]
    if 'spacing' in case:
        tau, plen = h.int('tau', 0, 65535, np.uint32), h.pick('len', [1, 100, 300])
        pulses0 = [0, 9]
        top = 9 * 65535
    else:
        top = (1 << 26) - 1
        pulses0 = [0, 14, 22, 24, 27, 31, 42, 43][:P] if case.get('wide') else None
    per_record = 'blanked_samples' in fmt.unshared
    try:
        B.FIX.update({'L': 2, 'P': P, 'AA': 1, 'T': 1, 'R': 1, 'S': 1, 'A': 1})

        def lens(i):
            if n > 3:
                return P if i in ('', 4) else 2 * P
            return h.pick('blanked%s' % i, [P, 2 * P, 0, 1, P + 1, 2 * P + 1][:6 if P > 1 else 4] if n == 1 else [P, 2 * P, P - 1])
        B.FIX['Q'] = lens('')
        dims = [dict(seqs=1, beams=1, blank=lens(i) if per_record else B.FIX['Q']) for i in range(n)]

        def g(nm, f, shape, ty):
            if f == 'tau_spacing':
                return ty(tau) if not hasattr(tau, 't') else tau
            if f == 'tx_pulse_len':
                return ty(plen)
            if f == 'data_normalization_factor':
                return ty(1)
            if f == 'pulses':
                if pulses0 is not None:
                    return h.const(np.array(pulses0, dtype=ty))
                return h.array(nm, shape, ty, lambda x: h.int(x, 0, top, ty))
            if f == 'blanked_samples':
                a = h.array(nm, shape, ty, lambda x: h.int(x, 0, (1 << 32) - 1, ty))
                if n == 1 and pulses0 is not None and P == 8:
                    # good, but for the symbolic samples at some places
                    t = [p * (tau // plen) for p in pulses0]
                    t = np.array((sorted(t + [p + 1 for p in t]) if len(a) > P + 1 else t) + [9999], dtype=ty)
                    e = B.elems(a)
                    a = B.make(h, np.array([e[i] if i in (0, 7, 14, len(t) - 2) else t[i] for i in range(len(a))] + [None],
                                           dtype=object)[:-1], ty)
                if n > 3 and nm not in ('blanked_samples', 'r4.blanked_samples', 'r10.blanked_samples'):
                    # the tables of most records are good
                    t = [p * (tau // plen) for p in pulses0]
                    a = h.const(np.array(sorted(t + [p + 1 for p in t])[:len(a)] if len(a) > P else t, dtype=ty))
                return a
            if f == 'pulse_phase_offset':
                return h.barray(nm, shape, ty)
            v = 1 if ty is not np.complex64 else 0
            return ty(v) if shape is None else h.const(np.full(shape, v, dtype=ty))
        sh = {'station': 'sas', 'experiment_name': 'normalscan', 'slice_comment': 'a comment'}
        recs = B.records(h, fmt, dims, gen=g, times=K.TIMES if n < 4 else K.MANY, shared_texts=sh)
        if site and n > 1 and (pulses0 is None or n > 3):
            # site files hold these tables per record
            last = recs[list(recs)[-1]]
            for f in ('pulses', 'blanked_samples', 'pulse_phase_offset'):
                if f in last and f in fmt.shared:
                    last[f] = g('own.' + f, f, last[f].shape, fmt.array[f])
    finally:
        B.FIX.clear()
        B.FIX.update(fix)
    return fmt, recs


def harness(h, case):
    ft = case['ft']
    fmt, recs = setup(h, case)
    put = B.put_site if case['structure'] == 'site' else B.put_arrays
    p = put(h, 'in.hdf5', recs if put is B.put_site else B.to_arrays(h, fmt, recs))
    if case.get('types'):
        return types(h, case, fmt, recs, p)
    kw = {} if 'slice_id' in fmt.single else {'borealis_slice_id': 0}
    o, log = K.run(h, p, ft, h.path('out.dmap'), **kw)
    h.note(o.name)
    bad = 'BorealisConvert2IqdatError' if ft == 'bfiq' else 'BorealisConvert2RawacfError'
    good = True
    for rec in recs.values():
        ok, zero = convertible(h, case, fmt, rec)
        if not h.branch(ok):
            h.cover('blanked samples refused')
            good = False
        elif not h.branch(zero):
            h.cover('phase offset refused')
            good = False
        if not good:
            break
    if good:
        h.check(o.ok, 'convertible data are converted (%s)' % o.name)
        h.check(h.files() == ['in.hdf5', 'out.dmap'], 'the converted file is written')
        h.check(len(K.written(h, 'out.dmap', log)) == len(recs), 'all records are converted')
        h.cover('converted')
    else:
        h.check(o.name == bad, 'data that cannot be converted are refused (%s)' % o.name)
        h.check(h.files() == ['in.hdf5'], 'no file is written')


def convertible(h, case, fmt, rec):
    """blanked samples are the pulse samples, or doubled in order; no pulse phase offset"""
    tau, plen = rec['tau_spacing'], rec['tx_pulse_len']
    spacing = ints([tau])[0] // int(plen)
    pulses = [p * spacing for p in ints(rec['pulses'])]
    blanked = ints(rec['blanked_samples'])

    def eq(xs, ys):
        return h.And(*[x == y for x, y in zip(xs, ys)]) if len(xs) == len(ys) else False
    ok = eq(pulses, blanked)
    if case['ver'] not in ('v0.4', 'v0.5'):
        ok = h.Or(ok, eq(ordered(h, pulses + [p + 1 for p in pulses]), blanked))
    zero = True
    if case['ft'] == 'bfiq':
        zero = h.And(*[x == 0 for x in B.elems(rec['pulse_phase_offset']).reshape(-1)])
    return ok, zero


def types(h, case, fmt, recs, p):
    """file types, slice numbers and output names"""
    ft = case['ft']
    what = h.pick('what', ['slice given', 'no slice', 'same name'])
    before = h.get('in.hdf5') if not h.sym else None
    kw = {'borealis_slice_id': 3} if what != 'no slice' else {}
    o, log = K.run(h, p, ft, p if what == 'same name' else h.path('out.dmap'), **kw)
    h.note(o.name)
    need = 'slice_id' not in fmt.single and what == 'no slice'
    if ft not in ('rawacf', 'bfiq'):
        h.check(o.name == 'BorealisConversionTypesError' or need and o.name == 'BorealisStructureError',
                'file types that cannot be converted are refused (%s)' % o.name)
        h.cover('type refused')
    elif need:
        h.check(o.name == 'BorealisStructureError', 'a slice number is needed (%s)' % o.name)
        h.cover('slice id missing')
    elif what == 'same name':
        h.check(o.name == 'ConvertFileOverWriteError', 'the input is not overwritten (%s)' % o.name)
        h.cover('overwrite refused')
    else:
        h.check(o.ok == (h.files() == ['in.hdf5', 'out.dmap']), 'a file is written if the data are converted')
        return
    h.check(h.files() == ['in.hdf5'], 'no file is written')
    if h.sym:
        got = B.get_site(h, 'in.hdf5') if case['structure'] == 'site' else {'': B.get_arrays(h, 'in.hdf5')}
        exp = recs if case['structure'] == 'site' else {'': B.to_arrays(h, fmt, recs)}
        B.check_records(h, got, exp, 'the input file')
    else:
        h.check(h.get('in.hdf5') == before, 'the input file is as before')
