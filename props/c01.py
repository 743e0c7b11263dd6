"""C01: DMAP write -> read returns the records that were written."""
from collections import OrderedDict
import numpy as np
from symex.harness import same, conj, SInt
from . import _dmap as D

BOUNDS = ('1-2 records, 1-3 scalars and 1-2 arrays per record in any field order; every scalar and element value of '
          'each of the 11 DMAP types is symbolic at full width (all bit patterns; all 32-bit ints for Python int); '
          'strings and names of up to 3 symbolic characters over all of Unicode except NUL/surrogates; array ranks '
          '1-3 with up to 6 elements, incl. empty slist; besides, mostly concrete data with symbolic values at chosen '
          'places: 300 scalars, 300 arrays or 300 records, texts and names of 300 characters, arrays of up to 70000 '
          'elements, ranks up to 8')
OUTSIDE = ('signalling-NaN scalars of 32-bit floats (hardware quietens them); records without scalars or arrays and '
           'zero-sized arrays other than slist, which the reader documents as corrupt; larger data of which every '
           'value is symbolic')
COVERS = ['round trip checked']
OPTS = {'validate': 4}

BIG = [('scalars', 300), ('arrays', 300), ('records', 300), ('text', 300), ('name', 300), ('array', (300,)), ('array', (70000,)),
       ('array', (2, 300)), ('array', (300, 2)), ('array', (260, 260)), ('array', (2, 1, 3, 2)), ('array', (1, 2, 2, 1, 3)),
       ('array', (1, 1, 1, 1, 1, 1, 1, 2))]
AT = (0, 1, 126, 127, 128, 254, 255, 256, 257, 299, 32767, 32768, 65535, 65536, 69999)


def big(h, what, n):
    """[(scalars, arrays)] per record of large data, symbolic at some places"""
    def some(i, name, ty=np.int16):
        return h.bv(name, ty) if i in AT else ty(i % 113)
    one = h.nparray([h.bv('one', np.int32)], np.int32)
    if what == 'scalars':
        return [([('f%d' % i, 'h', some(i, 'v%d' % i)) for i in range(n)], [('arr', 'i', one)])]
    if what == 'arrays':
        return [([('n', 'h', h.bv('n', np.int16))], [('f%d' % i, 'h', h.nparray([some(i, 'v%d' % i)], np.int16)) for i in range(n)])]
    if what == 'records':
        return [([('n', 'h', some(i, 'n%d' % i))], [('arr', 'i', one if i in AT else np.array([i], np.int32))]) for i in range(n)]
    if what in ('text', 'name'):
        s = ''
        for i in range(0, n, 50):
            s = s + h.text('c%d' % i, 1, 1, 0x7f) + 'abcdefg' * 7
        s = s + h.text('c', 1, 0x80, 0x7ff)
        if what == 'name':
            return [([(s, 'h', h.bv('n', np.int16))], [(s + 'x', 'i', one)])]
        return [([('s', 's', s)], [('arr', 'i', one)])]
    size = int(np.prod(n))
    a = h.nparray([some(i, 'v%d' % i) for i in range(size)], np.int16).reshape(n)
    return [([('n', 'h', h.bv('n', np.int16))], [('arr', 'h', a)])]


SHAPES = [(1,), (3,), (2, 3), (1, 2, 2)]


def cases(tier):
    out = []
    # every type, scalar and array, every shape
    ks = D.KINDS
    for i, k in enumerate(ks):
        f = D.FMT.get(k, k)
        a = f if f != 's' else 'i'
        for j, s in enumerate(SHAPES):
            out.append({'t': 'values', 'order': [('s', k), ('a', a, s)], 'via': 'file' if j % 2 else 'stream'})
    # interleavings of several fields
    inter = [
        [('a', 'h', (2,)), ('s', 'i'), ('s', 'c')],
        [('s', 'i'), ('a', 'f', (2, 2)), ('s', 's'), ('a', 'B', (3,)), ('s', 'float')],
        [('a', 'c', (2,)), ('a', 'd', (2, 2)), ('s', 'q')],
        [('s', 'h'), ('a', 'i', (0,), 'slist'), ('a', 'f', (1,))],
        [('s', 'B'), ('a', 'h', (3, 2)), ('s', 'Q')],
    ]
    for o in inter:
        for via in ('file', 'stream'):
            for nrec in (1, 2):
                out.append({'t': 'values', 'order': o, 'via': via, 'nrec': nrec})
    # symbolic names and strings
    for nl in (1, 2):
        for sl in (0, 1, 2) if nl == 1 else (0, 1):
            out.append({'t': 'names', 'nl': nl, 'sl': sl, 'via': 'stream'})
    out.append({'t': 'names', 'nl': 1, 'sl': 1, 'via': 'file'})
    # big-endian and non-contiguous source arrays
    for d in ('h', 'i', 'f', 'd', 'H', 'q'):
        out.append({'t': 'layout', 'fmt': d, 'how': 'bigendian'})
        out.append({'t': 'layout', 'fmt': d, 'how': 'fortran'})
        out.append({'t': 'layout', 'fmt': d, 'how': 'transposed'})
    out.append({'t': 'dmapin', 'order': [('s', 'c'), ('a', 'h', (2, 3)), ('s', 's')]})
    out.append({'t': 'dmapin', 'order': [('a', 'f', (2, 1)), ('s', 'h')]})
    for k in (('i', 3), ('f', 2)):
        out.append({'t': 'aslist', 'kind': k[0], 'n': k[1]})
    for i, (what, n) in enumerate(BIG):
        out.append({'t': 'big', 'what': what, 'n': n, 'via': 'stream' if i % 2 else 'file'})
    if tier == 'thorough':
        for what, n in BIG:
            for via in ('stream', 'file'):
                out.append({'t': 'big', 'what': what, 'n': n, 'via': via})
        for k in ks:
            for k2 in ks:
                f = D.FMT.get(k, k)
                a = f if f != 's' else 'i'
                out.append({'t': 'values', 'order': [('a', a, (2, 2)), ('s', k), ('s', k2), ('a', 'f', (3,))],
                            'via': 'stream', 'nrec': 2})
        out.append({'t': 'names', 'nl': 3, 'sl': 0, 'via': 'stream'})
        out.append({'t': 'names', 'nl': 2, 'sl': 2, 'via': 'stream'})
        out.append({'t': 'names', 'nl': 0, 'sl': 3, 'via': 'stream'})
    return out


def roundtrip(h, recs, exp, via):
    p = h.path('out.dmap')
    w = h.call(h.lib.DmapWrite, recs, p if via == 'file' else '')
    h.note('ctor', w.name)
    h.check(w.ok, 'supported records are accepted by the writer (%s)' % w.name)
    if via == 'file':
        o = h.call(w.value.write_dmap)
        h.note('write', o.name)
        h.check(o.ok, 'supported records are written (%s)' % o.name)
        r = h.call(h.lib.DmapRead, p)
    else:
        o = h.call(w.value.write_dmap_stream)
        h.note('write', o.name)
        h.check(o.ok, 'supported records are written (%s)' % o.name)
        r = h.call(h.lib.DmapRead, o.value, True)
    h.check(r.ok, 'the written data can be opened (%s)' % r.name)
    g = h.call(r.value.read_records)
    h.note('read', g.name)
    h.check(g.ok, 'the written data can be read back (%s)' % g.name)
    got = list(g.value)
    h.check(len(got) == len(exp), 'same number of records')
    for a, b in zip(got, exp):
        h.check(sorted(map(repr, a)) == sorted(map(repr, b)) or not all(type(x) is str for x in b),
                'same field names')
        h.check(D.record_same(h, a, b), 'every field reads back with its value, type and shape')
    h.cover('round trip checked')


def harness(h, case):
    t = case['t']
    if t == 'values':
        recs, exps = [], []
        for r in range(case.get('nrec', 1)):
            rec, exp = OrderedDict(), OrderedDict()
            for i, f in enumerate(case['order']):
                nm = f[3] if len(f) > 3 else 'fld%d' % i
                v = 'v%d_%d' % (r, i)
                if f[0] == 's':
                    rec[nm], exp[nm] = D.scalar(h, v, f[1], slen=1 + (i % 2), hi=0x7f)
                else:
                    rec[nm] = h.barray(v, f[2], D.NPT[f[1]])
                    exp[nm] = rec[nm].copy()
            recs.append(rec)
            exps.append(exp)
        roundtrip(h, recs, exps, case['via'])
    elif t == 'big':
        recs = []
        for sc, ar in big(h, case['what'], case['n']):
            recs.append(OrderedDict([(n, v) for n, _, v in sc] + [(n, v) for n, _, v in ar]))
        roundtrip(h, recs, [OrderedDict((n, v.copy() if isinstance(v, np.ndarray) else v) for n, v in r.items()) for r in recs],
                  case['via'])
    elif t == 'names':
        nl, sl = case['nl'], case['sl']
        n1 = h.text('name1', nl, 1)
        n2 = h.text('name2', nl, 1, pref='zyxw')
        h.assume(h.Not(n1 == n2) if nl else False) if nl else None
        s = h.text('str', sl, 1)
        v = h.bv('num', np.int16)
        a = h.barray('arr', (2,), np.int16)
        rec = OrderedDict()
        rec[n1] = s
        if nl:
            rec[n2] = a
        else:
            rec['x'] = a
        exp = OrderedDict(rec)
        roundtrip(h, [rec], [exp], case['via'])
    elif t == 'layout':
        ty = D.NPT[case['fmt']]
        base = h.barray('arr', (2, 3), ty)
        if case['how'] == 'bigendian':
            if h.sym:
                src = base.copy()
                src.cdt = np.dtype(ty).newbyteorder('>')
            else:
                src = base.astype(np.dtype(ty).newbyteorder('>'))
            exp = base
        elif case['how'] == 'fortran':
            src = np.asfortranarray(base) if not h.sym else base.copy()
            exp = base
        else:
            src = base.T
            exp = base.T.copy()
        rec = OrderedDict([('n', np.int16(3) if not h.sym else np.int16(3)), ('arr', src)])
        e = OrderedDict([('n', np.int16(3)), ('arr', exp)])
        roundtrip(h, [rec], [e], 'stream')
    elif t == 'dmapin':
        rec, exp = OrderedDict(), OrderedDict()
        for i, f in enumerate(case['order']):
            nm = 'fld%d' % i
            if f[0] == 's':
                v, e = D.scalar(h, 'v%d' % i, f[1], 2, hi=0x7f)
                rec[nm] = h.lib.DmapScalar(nm, v, D.CODES[D.FMT.get(f[1], f[1])], D.FMT.get(f[1], f[1]))
                exp[nm] = e
            else:
                a = h.barray('v%d' % i, f[2], D.NPT[f[1]])
                rec[nm] = h.lib.DmapArray(nm, a, D.CODES[f[1]], f[1], len(f[2]), list(f[2]))
                exp[nm] = a.copy()
        roundtrip(h, [rec], [exp], 'stream')
    elif t == 'aslist':
        if case['kind'] == 'i':
            xs = [h.bv('x%d' % i, int, 63) for i in range(case['n'])]
            exp = h.nparray(list(xs), np.int64)
        else:
            xs = [h.flt('x%d' % i, float) for i in range(case['n'])]
            exp = h.nparray(list(xs), np.float64)
        rec = OrderedDict([('n', np.int16(3)), ('arr', xs)])
        e = OrderedDict([('n', np.int16(3)), ('arr', exp)])
        roundtrip(h, [rec], [e], 'stream')
