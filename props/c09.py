"""C09: site records restructured to arrays and back are the same records."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import c10

BOUNDS = c10.BOUNDS + '; arrays with arbitrary contents of the padding'
OUTSIDE = c10.OUTSIDE
COVERS = ['site first', 'array first']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}


def cases(tier):
    out = []
    for c in c10.cases(tier):
        out.append(dict(c, first='site'))
        if c['n'] > 1:
            out.append(dict(c, first='array'))
    return out


def scribble(h, fmt, recs, arrays):
    """the arrays with arbitrary values in place of the padding"""
    out = OrderedDict(arrays)
    for f in fmt.unshared:
        if f in fmt.single:
            continue
        a = arrays[f]
        e = np.array(B.elems(a), dtype=object)
        for i, r in enumerate(recs.values()):
            s = B.unflat(fmt, f, r).shape
            for idx in np.ndindex(*a.shape[1:]):
                if not all(x < y for x, y in zip(idx, s)):
                    ty = fmt.array[f]
                    nm = 'pad.%s.%d%s' % (f, i, list(idx))
                    e[(i,) + idx] = h.cplx(nm) if ty is np.complex64 else h.flt(nm, ty) if ty in (np.float32, np.float64) \
                        else h.bv(nm, ty)
        out[f] = B.make(h, e, fmt.array[f])
    return out


@B.sized
def harness(h, case):
    fmt, recs = c10.inputs(h, case)
    p, q = h.path('a.hdf5'), h.path('b.hdf5')
    if case['first'] == 'site':
        w = h.call(h.lib.BorealisWrite, p, recs, case['ft'], 'site')
        h.check(w.ok, 'valid records are written (%s)' % w.name)
        a = h.call(lambda: w.value.arrays)
        h.check(a.ok, 'valid records can be restructured (%s)' % a.name)
        arrays = a.value
    else:
        arrays = scribble(h, fmt, recs, B.to_arrays(h, fmt, recs))
    before = B.snapshot(arrays)
    v = h.call(h.lib.BorealisWrite, q, arrays, case['ft'], 'array')
    h.check(v.ok, 'the arrays are written (%s)' % v.name)
    o = h.call(lambda: v.value.records)
    h.note(o.name)
    h.check(o.ok, 'the arrays can be restructured (%s)' % o.name)
    B.check_records(h, o.value, recs, 'records of the writer')
    h.check(B.same(arrays, before), 'the arrays are unchanged')
    names = h.call(lambda: v.value.record_names)
    h.check(names.ok and list(names.value) == list(recs), 'record names')
    r = h.call(h.lib.BorealisRead, q, case['ft'], 'array')
    h.check(r.ok, 'the file is read (%s)' % r.name)
    o = h.call(lambda: r.value.records)
    h.check(o.ok, 'arrays read can be restructured (%s)' % o.name)
    B.check_records(h, o.value, recs, 'records of the reader')
    h.cover(case['first'] + ' first')
