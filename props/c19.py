"""C19: test_initial_data_integrity accepts a buffer iff its block sizes tile it."""
from symex.harness import same, SBytes, V, SInt
from . import _dmap as D

BOUNDS = ('every buffer of 1-19 (thorough: 1-26) symbolic bytes; buffers of 24-64 (thorough: 24-200) bytes of 8-byte '
          'blocks, one or two of whose declared sizes are any 32-bit integer; the reader is also run afterwards on '
          'a valid file; any start cursor in -2^31..2^31-1')
OUTSIDE = 'larger buffers'
COVERS = ['accepted', 'rejected', 'read after the test']
OPTS = {'validate': 6}
ERR = D.DOCUMENTED


def cases(tier):
    q = tier == 'quick'
    out = [{'t': 'full', 'n': n} for n in range(1, 20 if q else 27)]
    for n in ([24, 33, 64] if q else [24, 33, 64, 100, 200]):
        for at in ((0,), (8,), (0, 16)):
            out.append({'t': 'blocks', 'n': n, 'at': at})
    out.append({'t': 'cursor', 'n': 24})
    out.append({'t': 'valid', 'nrec': 1})
    out.append({'t': 'valid', 'nrec': 3})
    return out


def ref(h, b):
    """True when the declared block sizes, each positive, add up to exactly the buffer"""
    p, n = 0, len(b)
    while p < n:
        if p + 8 > n:
            return False
        bs = b[p + 4:p + 8]
        sz = int.from_bytes(bytes(bs), 'little', signed=True) if all(type(x) is int for x in bs) else \
            V.mkint(V.concat_le(bs))
        if bool(sz <= 0) or bool(sz > n - p):
            return False
        p += int(sz)
    return p == n


def harness(h, case):
    t = case['t']
    if t == 'valid':
        import numpy as np
        buf = []
        exp = []
        for r in range(case['nrec']):
            v = h.bv('v%d' % r, np.int16)
            a = h.barray('a%d' % r, (2,), np.int32)
            buf += D.enc_record(h, [('n', 'h', v)], [('x', 'i', a)])
            exp.append({'n': v, 'x': a})
        data = D.fin(h, buf)
        r = h.call(h.lib.DmapRead, data, True)
        o = h.call(r.value.test_initial_data_integrity)
        h.note(o.name)
        h.check(o.ok, 'a valid file passes (%s)' % o.name)
        g = h.call(r.value.read_records)
        h.check(g.ok, 'the file can be read after the test (%s)' % g.name)
        h.check(len(g.value) == len(exp), 'all records are read after the test')
        for x, y in zip(g.value, exp):
            h.check(D.record_same(h, x, y), 'records unaffected by the test')
        h.cover('read after the test')
        return
    n = case['n']
    if t == 'full':
        buf = list(SBytes.elems(h.byts('b', n)))
    elif t == 'cursor':
        buf = [0, 0, 1, 0, 24, 0, 0, 0] + [0] * 16
    else:
        # 8-byte blocks, some of whose sizes are symbolic
        buf = ([0, 0, 1, 0, 8, 0, 0, 0] * (n // 8 + 1))[:n]
        for i in case['at']:
            buf[i + 4:i + 8] = list(SBytes.elems(h.byts('w%d' % i, 4)))
    data = D.fin(h, buf)
    r = h.call(h.lib.DmapRead, data, True)
    h.check(r.ok, 'a non-empty buffer opens')
    if t == 'cursor':
        c = h.bv('cursor', int, 32)
        r.value.cursor = c
        o = h.call(r.value.test_initial_data_integrity)
        h.note(o.name)
        h.check(h.Iff(o.ok, c == 0), 'only a test from the start of the buffer is allowed')
        h.check(o.ok or o.isa(*ERR), 'documented error (%s)' % o.name)
        return
    o = h.call(r.value.test_initial_data_integrity)
    h.note(o.name)
    good = ref(h, buf)
    if o.ok:
        h.check(good, 'accepted buffers are tiled by their block sizes')
        h.check(r.value.cursor == 0, 'the cursor is back at the start')
        h.cover('accepted')
    else:
        h.check(o.isa(*ERR), 'rejected with a documented error (%s)' % o.name)
        h.check(not good, 'buffers tiled by their block sizes are accepted (%s)' % o.name)
        h.cover('rejected')
