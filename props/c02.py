"""C02: the bytes the DMAP writer emits are exactly the DMAP wire format."""
from collections import OrderedDict
import numpy as np
from symex.harness import same, conj, SInt, SBytes
from . import _dmap as D
from . import c01

BOUNDS = c01.BOUNDS + '; write -> bytes compared byte by byte with an independent encoder, read back and written again'
OUTSIDE = c01.OUTSIDE
COVERS = ['bytes compared', 'rewritten']
OPTS = {'validate': 4}

CASES_ORDER = [
    [('s', 'c'), ('a', 'h', (3,))],
    [('a', 'h', (2, 3)), ('s', 'i')],
    [('s', 'int'), ('a', 'f', (2, 2)), ('s', 's'), ('a', 'B', (3,)), ('s', 'float')],
    [('a', 'c', (2,)), ('a', 'd', (2, 2)), ('s', 'q'), ('s', 'f')],
    [('s', 'h'), ('a', 'i', (0,), 'slist'), ('a', 'f', (1,))],
    [('s', 'B'), ('a', 'H', (3, 2)), ('s', 'Q'), ('s', 'd')],
    [('s', 'H'), ('s', 'I'), ('a', 'I', (1, 2, 3)), ('a', 'q', (2,))],
    [('a', 'Q', (2, 1)), ('s', 's'), ('s', 'c')],
]


def cases(tier):
    out = []
    for o in CASES_ORDER:
        for nrec in (1, 2):
            for via in ('stream', 'file', 'dmap'):
                if nrec == 2 and via == 'dmap':
                    continue
                out.append({'order': o, 'nrec': nrec, 'via': via})
    for i, (what, n) in enumerate(c01.BIG):
        out.append({'big': what, 'n': n, 'via': ('stream', 'file', 'dmap')[i % 3]})
    out.append({'names': (1, 1)})
    out.append({'names': (2, 1)})
    out.append({'names': (1, 2)})
    if tier == 'thorough':
        out.append({'names': (2, 2)})
        out.append({'names': (3, 1)})
        out.append({'names': (1, 3)})
        for k in D.KINDS:
            for k2 in D.KINDS:
                a = D.FMT.get(k2, k2)
                a = a if a != 's' else 'd'
                out.append({'order': [('a', a, (2, 1, 3)), ('s', k), ('a', 'f', (3,)), ('s', k2)], 'nrec': 2,
                            'via': 'stream'})
        for shape in [(1,), (4,), (2, 2), (3, 2), (1, 4), (2, 2, 2), (1, 1, 1, 2), (2, 1, 2, 1)]:
            for f in D.SIZES:
                out.append({'order': [('s', 'i'), ('a', f, shape)], 'nrec': 1, 'via': 'dmap'})
    return out


def build(h, case):
    """[(record as the caller gives it, scalars, arrays as the encoder takes them)]"""
    L = h.lib
    recs = []
    for r in range(case.get('nrec', 1)):
        rec, sc, ar = OrderedDict(), [], []
        for i, f in enumerate(case['order']):
            nm = f[3] if len(f) > 3 else 'fld%d' % i
            fm = D.FMT.get(f[1], f[1])
            if f[0] == 's':
                v, _ = D.scalar(h, 'v%d_%d' % (r, i), f[1], slen=1 + i % 2, hi=0x7f)
                rec[nm] = v if case['via'] != 'dmap' else L.DmapScalar(nm, v, D.CODES[fm], fm)
                sc.append((nm, fm, v))
            else:
                a = h.barray('v%d_%d' % (r, i), f[2], D.NPT[f[1]])
                rec[nm] = a if case['via'] != 'dmap' else L.DmapArray(nm, a, D.CODES[fm], fm, len(f[2]), list(f[2]))
                ar.append((nm, fm, a.copy()))
        recs.append((rec, sc, ar))
    return recs


def harness(h, case):
    if 'names' in case:
        nl, sl = case['names']
        n1, n2 = h.text('name1', nl, 1), h.text('name2', nl, 1, pref='zyxw')
        h.assume(h.Not(n1 == n2))
        s = h.text('str', sl, 1)
        a = h.barray('arr', (2,), np.int16)
        rec = OrderedDict()
        rec[n2] = a
        rec[n1] = s
        built = [(rec, [(n1, 's', s)], [(n2, 'h', a.copy())])]
        via = 'stream'
    elif 'big' in case:
        built = []
        L = h.lib
        via = case['via']
        for sc, ar in c01.big(h, case['big'], case['n']):
            if via == 'dmap':
                f = [(n, L.DmapScalar(n, v, D.CODES[k], k)) for n, k, v in sc] + \
                    [(n, L.DmapArray(n, v, D.CODES[k], k, v.ndim, list(v.shape))) for n, k, v in ar]
            else:
                f = [(n, v) for n, _, v in sc + ar]
            built.append((OrderedDict(f), sc, [(n, k, v.copy()) for n, k, v in ar]))
    else:
        built = build(h, case)
        via = case['via']
    exp = []
    for _, sc, ar in built:
        exp += D.enc_record(h, sc, ar)
    exp = D.fin(h, exp)
    recs = [b[0] for b in built]
    if via == 'file':
        p = h.path('out.dmap')
        w = h.call(h.lib.DmapWrite, recs)
        h.check(w.ok, 'records accepted')
        o = h.call(w.value.write_dmap, p)
        h.note(o.name)
        h.check(o.ok, 'records written (%s)' % o.name)
        got = h.get('out.dmap')
        h.check(got is not None, 'the file exists')
    else:
        w = h.call(h.lib.DmapWrite, recs)
        h.check(w.ok, 'records accepted')
        o = h.call(w.value.write_dmap_stream)
        h.note(o.name)
        h.check(o.ok, 'records written (%s)' % o.name)
        got = o.value
    h.check(len(got) == len(exp), 'the output has the size the wire format prescribes')
    h.check(got == exp, 'the output is the DMAP encoding of the records')
    h.cover('bytes compared')
    # what the reader returns writes to the same bytes again
    r = h.call(h.lib.DmapRead, got, True)
    h.check(r.ok, 'own output opens')
    g = h.call(r.value.read_records)
    h.check(g.ok, 'own output reads back (%s)' % g.name)
    # (a float scalar is returned as the double holding the same value)
    for label, again in (('dictionaries', list(g.value)), ('DMap structures', list(r.value.get_dmap_records))):
        w2 = h.call(h.lib.DmapWrite, again)
        h.check(w2.ok, 'records read as %s are accepted by the writer (%s)' % (label, w2.name))
        o2 = h.call(w2.value.write_dmap_stream)
        h.check(o2.ok, 'records read as %s can be written again (%s)' % (label, o2.name))
        h.check(len(o2.value) == len(exp) and o2.value == exp if not h.sym else
                (o2.value == exp if len(o2.value) == len(exp) else False),
                'reading and writing again (%s) reproduces the file' % label)
    h.cover('rewritten')
