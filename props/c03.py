"""C03: on any byte string the DMAP reader either raises a documented DMAP error
or returns exactly the records the wire format defines."""
from collections import OrderedDict
import numpy as np
from symex.harness import same, conj, SInt, SBytes
from . import _dmap as D

BOUNDS = ('(a) every byte string of length 0-20 quick / 0-34 thorough, all bytes symbolic; (b) valid files of 1-2 '
          'records (scalars, strings and arrays of every type) with a symbolic window of 4 (thorough: 8) bytes at every '
          'offset (quick: every other one); (c) the same files cut at, or extended by symbolic bytes after, every length; as a stream and as a file; (d) records of one '
          'scalar and one array, one of which is entirely symbolic after its name (thorough: including its name): up to '
          '11 bytes of an array, 15 with two dimensions (thorough 25), and 5 (13) of a scalar; (e) valid files of up to 7000 '
          'bytes (12 records; 300 scalars and 300 arrays; a text of 300 characters and an array of 300 elements; a 17 by 75 '
          'array) with a symbolic window of 1-4 bytes at chosen offsets, in every kind of field, cut at chosen places, or extended')
OUTSIDE = 'buffers with more than one corrupted window; other offsets in files of more than ~150 bytes'
COVERS = ['rejected as documented', 'accepted and equal to the reference']
OPTS = {'validate': 5}


def skeletons():
    s = []
    one = [('scalars', [('a', 'h', 258), ('n', 's', 'xy')]), ('arrays', [('v', 'i', np.array([1, -2, 3], np.int32))])]
    s.append([one])
    s.append([[('scalars', [('c', 'c', -3), ('q', 'q', -5)]),
               ('arrays', [('m', 'f', np.array([[1, 2], [3, 4]], np.float32)), ('w', 'c', np.array([1, -1], np.int8))])]])
    s.append([[('scalars', [('f', 'f', 1.5), ('B', 'B', 200)]), ('arrays', [('slist', 'h', np.zeros((0,), np.int16)),
                                                                            ('d', 'd', np.array([2.5]))])]])
    s.append([[('scalars', [('i', 'i', 7)]), ('arrays', [('x', 'H', np.array([1, 65535], np.uint16))])],
              [('scalars', [('i', 'I', 7), ('Q', 'Q', 9)]), ('arrays', [('x', 'B', np.array([[1, 2, 3]], np.uint8))])]])
    s.append([[('scalars', [('s', 's', ''), ('H', 'H', 513)]), ('arrays', [('y', 'Q', np.array([7], np.uint64)),
                                                                           ('z', 'q', np.array([-7], np.int64))])]])
    s.append([[('scalars', [('d', 'd', -0.5)]), ('arrays', [('u', 'I', np.arange(4, dtype=np.uint32).reshape(1, 2, 2)),
                                                            ('h', 'h', np.array([[-2], [5]], np.int16)),
                                                            ('slist', 'h', np.zeros((0,), np.int16))])]])
    return s


def large():
    """valid files of a larger size, and where their windows of symbolic bytes lie"""
    out = []
    val = np.arange(300, dtype=np.int16)
    out.append(([[('scalars', [('a', 'h', 258), ('n', 's', 'xy' * 150)]), ('arrays', [('v', 'h', val), ('w', 'c', np.array([3], np.int8))])]],
                [0, 4, 8, 12, 16, (22, 2), 100, (320, 2), (325, 1), (328, 1), (333, 2), 335, 600, 930, 935, (940, 2), (944, 2)]))
    recs = []
    for i in range(12):
        recs.append([('scalars', [('i', 'h', i), ('s', 's', 'r%d' % i)]), ('arrays', [('x', 'i', np.array([i, -i], np.int32))])])
    n = len(encode(None_h, recs[:1]))
    last = len(encode(None_h, recs[:11]))
    out.append((recs, [0, 4, n, n + 4, n + 8, last - 4, last, last + 4, last + 8, last + 12, last + 16, last + 20, last + 28, last + 34,
                       last + 40]))
    recs = [('scalars', [('s%03d' % i, 'h', i) for i in range(300)]), ('arrays', [('a%03d' % i, 'c', np.array([i % 100], np.int8)) for i in range(300)])]
    n = 16 + 300 * 8
    m = n + 15 * 300
    out.append(([recs], [0, 4, (9, 2), (13, 3), (19, 1), (20 + 8 * 150, 4), (n - 5, 1), (n - 4, 3), (n, 2), (n + 6, 1), (m - 12, 1), (m - 2, 1)]))
    recs = [('scalars', [('i', 'i', 7)]), ('arrays', [('m', 'f', np.arange(17 * 75, dtype=np.float32).reshape(17, 75)), ('t', 'd', np.array([0.5]))])]
    out.append(([recs], [8, 12, (22, 1), (24, 2), (26, 1), (29, 2), (33, 2), 36, 40, 5100, 5140, (5146, 2), 5150, 5152]))
    return out


def encode(h, sk):
    out = []
    for rec in sk:
        r = dict(rec)
        out += D.enc_record(h, r['scalars'], r['arrays'])
    return [int(x) for x in out]


def cases(tier):
    out = []
    for n in range(0, 21 if tier == 'quick' else 35):
        out.append({'t': 'full', 'n': n, 'via': 'stream'})
    out.append({'t': 'full', 'n': 0, 'via': 'file'})
    out.append({'t': 'full', 'n': 9, 'via': 'file'})
    w = 4 if tier == 'quick' else 8
    for i, sk in enumerate(skeletons()):
        n = len(encode(None_h, sk))
        step = 2 if tier == 'quick' else 1
        for off in range(0, n, step):
            out.append({'t': 'window', 'sk': i, 'off': off, 'w': min(w, n - off),
                        'via': 'file' if off % 16 == 0 else 'stream'})
        out.append({'t': 'cut', 'sk': i})
        out.append({'t': 'tail', 'sk': i, 'k': 6})
        if tier == 'thorough':
            out.append({'t': 'tail', 'sk': i, 'k': 20})
    for i, (sk, offs) in enumerate(large()):
        n = len(encode(None_h, sk))
        offs = [o if isinstance(o, tuple) else (o, 4) for o in offs]
        for j, (off, w_) in enumerate(offs):
            out.append({'t': 'window', 'sk': -1 - i, 'off': off, 'w': min(w_, n - off), 'via': 'file' if j % 4 == 0 else 'stream'})
        out.append({'t': 'cut', 'sk': -1 - i, 'at': sorted(set([o for o, _ in offs if o < n] + [1, n - 9, n - 2, n - 1]))})
        out.append({'t': 'tail', 'sk': -1 - i, 'k': 6})
    # one scalar and one array, of which one is entirely symbolic
    for nm in ('v', 'slist'):
        for n in (9, 10, 11) if tier == 'quick' else range(5, 26):
            out.append({'t': 'array', 'name': nm, 'n': n, 'via': 'stream'})
        for n, ty in ((13, 3), (14, 1), (15, 2), (15, 1)) if tier == 'quick' else \
                [(n, ty) for n in range(13, 22) for ty in (None, 1, 2, 3, 8)]:
            out.append({'t': 'array', 'name': nm, 'n': n, 'nd': 2, 'ty': ty, 'via': 'stream'})
    for n in (1, 2, 3, 5) if tier == 'quick' else range(1, 14):
        out.append({'t': 'scalar', 'name': 'a', 'n': n, 'via': 'stream'})
    if tier == 'thorough':
        for n in range(8, 15):
            out.append({'t': 'array', 'name': None, 'n': n, 'via': 'stream'})
        for n in range(1, 11):
            out.append({'t': 'scalar', 'name': None, 'n': n, 'via': 'stream'})
    return out


class _N:
    sym = False


None_h = _N()


def harness(h, case):
    t = case['t']
    via = case.get('via', 'stream')
    if t == 'full':
        buf = list(SBytes.elems(h.byts('b', case['n'])))
    elif t in ('array', 'scalar'):
        n = case['n']
        b = list(SBytes.elems(h.byts('b', n)))
        if case.get('nd'):
            if case['ty']:
                b[0] = case['ty']
            b[1:5] = list(D.i32(case['nd']))
        if case['name']:
            b = list(case['name'].encode() + b'\0') + b
        if t == 'array':
            b = list(b'a\0\x01\x07') + b
        else:
            b = b + list(b'v\0\x01' + D.i32(1) + D.i32(2) + b'\x01\xff')
        buf = list(D.i32(65537) + D.i32(len(b) + 16) + D.i32(1) + D.i32(1)) + b
    else:
        sk = skeletons()[case['sk']] if case['sk'] >= 0 else large()[-1 - case['sk']][0]
        buf = encode(h, sk)
        if t == 'window':
            w = list(SBytes.elems(h.byts('w', case['w'], pref=1)))
            buf[case['off']:case['off'] + case['w']] = w
        elif t == 'cut':
            n = h.pick('n', case['at']) if 'at' in case else h.choose('n', 0, len(buf) - 1)
            buf = buf[:n]
        else:
            buf = buf + list(SBytes.elems(h.byts('t', case['k'], pref=0)))
    data = D.fin(h, buf)
    if via == 'file':
        p = h.put('in.dmap', data)
        r = h.call(h.lib.DmapRead, p)
    else:
        r = h.call(h.lib.DmapRead, data, True)
    if r.ok:
        g = h.call(r.value.read_records)
    else:
        g = r
    h.note(g.name)
    if not g.ok:
        h.check(g.isa(*D.DOCUMENTED), 'bad input is rejected with a documented DMAP error (%s)' % g.name)
        try:
            if len(buf) == 0:
                raise D.Bad('empty')
            D.Ref(h, data).all()
            good = True
        except D.Bad:
            good = False
        h.check(not good, 'a well-formed file is accepted (%s)' % g.name)
        h.cover('rejected as documented')
        return
    try:
        exp = D.Ref(h, data).all()
    except D.Bad as e:
        h.fail('the reader accepts only well-formed files (%s)' % e)
        return
    got = list(g.value)
    h.check(len(got) == len(exp), 'one record per record in the file')
    for a, b in zip(got, exp):
        h.check(D.record_same(h, a, b), 'fields are those encoded in the file')
    h.cover('accepted and equal to the reference')
