"""C04: dict <-> DMap structure conversion is faithful and total on the supported types."""
from collections import OrderedDict
import copy
import decimal
import numpy as np
from symex.harness import same, conj, SInt
from . import _dmap as D

BOUNDS = ('1-2 records of 1-5 fields: every scalar type at full width (all bit patterns / all ints of 64 bits / symbolic '
          'strings of up to 3 characters), arrays of every type and of ranks 1-4 with up to 8 symbolic elements, lists of '
          'symbolic ints/floats; one record of 60 fields, 30 records, ranks up to 8 and arrays and lists of 300 symbolic elements; unsupported value types are enumerated')
OUTSIDE = 'Python ints beyond 64 bits; nested lists deeper than 2'
COVERS = ['converted and converted back', 'unsupported type refused']
OPTS = {'validate': 4}

UNSUPPORTED = ['none', 'bool', 'npbool', 'complex', 'bytes', 'tuple', 'dict', 'c64', 'strarr', 'boolarr', 'c64arr',
               'f16', 'objarr', 'strlist', 'longdouble', 'longdoublearr', 'npbytes', 'datetime', 'datetimearr', 'set', 'bytesarr',
               'boollist', 'mixedlist', 'bytearray', 'decimal', 'nonelist', 'structarr']


def cases(tier):
    out = []
    for k in D.KINDS:
        out.append({'t': 'conv', 'order': [('s', k)]})
        a = D.FMT.get(k, k)
        if a != 's':
            for sh in [(1,), (2,), (2, 3), (3, 1, 2), (0,)] + ([(1, 2, 1, 2), (4, 2), (8,)] if tier == 'thorough' else []):
                out.append({'t': 'conv', 'order': [('a', a, sh)]})
    mixed = [
        [('s', 'i'), ('a', 'f', (2, 2)), ('s', 's'), ('a', 'B', (3,)), ('s', 'float')],
        [('a', 'd', (2,)), ('s', 'c'), ('a', 'q', (1, 2)), ('s', 'Q')],
    ]
    for o in mixed:
        out.append({'t': 'conv', 'order': o, 'nrec': 2})
    # larger ones
    out.append({'t': 'conv', 'order': [('s', D.KINDS[i % len(D.KINDS)]) if i % 3 else ('a', 'f', (2,)) for i in range(60)]})
    out.append({'t': 'conv', 'order': [('s', 'h'), ('a', 'i', (2,))], 'nrec': 30})
    for sh in [(1, 2, 1, 2), (1, 1, 1, 1, 1, 1, 1, 2), (300,), (2, 130)]:
        out.append({'t': 'conv', 'order': [('a', 'h', sh), ('s', 'B')]})
    out.append({'t': 'list', 'kind': 'i', 'n': 300})
    for kind, n in (('i', 1), ('i', 3), ('f', 2), ('ii', 2), ('ff', 2)):
        out.append({'t': 'list', 'kind': kind, 'n': n})
    for u in UNSUPPORTED:
        out.append({'t': 'bad', 'what': u, 'pos': 0})
        out.append({'t': 'bad', 'what': u, 'pos': 1})
    if tier == 'thorough':
        for k in D.KINDS:
            for k2 in D.KINDS:
                out.append({'t': 'conv', 'order': [('s', k), ('a', 'h', (2, 2)), ('s', k2)], 'nrec': 2})
    return out


def bad_value(what):
    return {'none': lambda: None, 'bool': lambda: True, 'npbool': lambda: np.bool_(True), 'complex': lambda: 1j,
            'bytes': lambda: b'ab', 'tuple': lambda: (1, 2), 'dict': lambda: {'a': 1}, 'c64': lambda: np.complex64(1j),
            'strarr': lambda: np.array(['a', 'b']), 'boolarr': lambda: np.array([True]),
            'c64arr': lambda: np.array([1j], np.complex64), 'f16': lambda: np.float16(1),
            'objarr': lambda: np.array([None, 1], dtype=object), 'strlist': lambda: ['a', 'b'],
            'longdouble': lambda: np.longdouble(1), 'longdoublearr': lambda: np.array([1, 2], np.longdouble),
            'npbytes': lambda: np.bytes_(b'ab'), 'datetime': lambda: np.datetime64('2020-01-01'),
            'datetimearr': lambda: np.array(['2020-01-01'], 'M8[s]'), 'set': lambda: {1, 2},
            'bytesarr': lambda: np.array([b'ab', b'c']), 'boollist': lambda: [True, False], 'mixedlist': lambda: [1, 'a'],
            'bytearray': lambda: bytearray(b'ab'), 'decimal': lambda: decimal.Decimal(1), 'nonelist': lambda: [None],
            'structarr': lambda: np.array([(1, 2)], dtype='i4,i4')}[what]()


def copied(v):
    return [copied(x) for x in v] if isinstance(v, list) and type(v) is list else v


def harness(h, case):
    t = case['t']
    L = h.lib
    if t == 'bad':
        rec = OrderedDict([('ok', h.bv('ok', np.int16)), ('bad', bad_value(case['what']))])
        recs = [rec] if case['pos'] == 0 else [OrderedDict([('ok', h.bv('ok2', np.int16))]), rec]
        o = h.call(L.dict2dmap, recs)
        h.note(o.name)
        h.check(not o.ok, 'a value of an unsupported type is refused, not converted')
        h.cover('unsupported type refused')
        return
    recs, exps = [], []
    for r in range(case.get('nrec', 1)):
        rec, exp = OrderedDict(), OrderedDict()
        if t == 'list':
            n, kind = case['n'], case['kind']
            if kind == 'i':
                xs = [h.bv('x%d' % i, int, 64) for i in range(n)]
                e = h.nparray(list(xs), np.int64)
            elif kind == 'f':
                xs = [h.flt('x%d' % i, float) for i in range(n)]
                e = h.nparray(list(xs), np.float64)
            elif kind == 'ii':
                xs = [[h.bv('x%d_%d' % (i, j), int, 64) for j in range(3)] for i in range(n)]
                e = h.nparray([list(x) for x in xs], np.int64)
            else:
                xs = [[h.flt('x%d_%d' % (i, j), float) for j in range(2)] for i in range(n)]
                e = h.nparray([list(x) for x in xs], np.float64)
            rec['lst'] = xs
            exp['lst'] = ('a', 'q' if kind[0] == 'i' else 'd', e, e)
        else:
            for i, f in enumerate(case['order']):
                nm = 'fld%d' % i
                fm = D.FMT.get(f[1], f[1])
                if f[0] == 's':
                    v, back = D.scalar(h, 'v%d_%d' % (r, i), f[1], slen=i % 4)
                    rec[nm] = v
                    exp[nm] = ('s', fm, v, back)
                else:
                    a = h.barray('v%d_%d' % (r, i), f[2], D.NPT[f[1]])
                    rec[nm] = a
                    exp[nm] = ('a', fm, a.copy(), a.copy())
        recs.append(rec)
        exps.append(exp)
    snap = [OrderedDict((k, v.copy() if isinstance(v, np.ndarray) else copied(v)) for k, v in r.items()) for r in recs]
    o = h.call(L.dict2dmap, recs)
    h.note(o.name)
    h.check(o.ok, 'supported records are converted (%s)' % o.name)
    d = o.value
    h.check(len(d) == len(recs), 'one DMap record per record')
    for dr, exp in zip(d, exps):
        h.check(list(dr) == list(exp), 'same fields in the same order')
        for k, (kind, fm, v, back) in exp.items():
            x = dr[k]
            h.check(isinstance(x, L.DmapScalar if kind == 's' else L.DmapArray), 'scalar or array structure (%s)' % k)
            h.check(same(x.name, k), 'name kept')
            h.check(same(x.value, v), 'value and type kept')
            h.check(same(x.data_type, D.CODES[fm]) if not h.sym else x.data_type == D.CODES[fm], 'DMap type code')
            h.check(x.data_type_fmt == fm, 'DMap type format')
            if kind == 'a':
                h.check(x.dimension == v.ndim, 'array rank')
                h.check(list(x.shape) == list(v.shape), 'array shape')
    for a, b in zip(recs, snap):
        h.check(same(OrderedDict((k, v) for k, v in a.items()), b), 'the input records are left alone')
    b = h.call(L.dmap2dict, d)
    h.check(b.ok, 'and converted back (%s)' % b.name)
    h.check(len(b.value) == len(recs), 'one record per DMap record')
    for br, exp in zip(b.value, exps):
        h.check(list(br) == list(exp), 'same fields back in the same order')
        for k, (kind, fm, v, back) in exp.items():
            e = back
            if kind == 's' and fm == 'f':
                # float32 and double both come back as the double of the same value
                e = (v.cast(float) if h.sym and not isinstance(v, float.__class__) and hasattr(v, 'cast') else float(v))
            h.check(same(br[k], e), 'value and type come back (%s)' % fm)
    h.cover('converted and converted back')
