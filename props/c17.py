"""C17: writing leaves the caller's data alone and can be repeated; objects are independent."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import _conv as K
from . import _dmap as D
from . import _sdarn as S
from . import c05
from . import c06
from . import c14

BOUNDS = ('every history of up to 3 (thorough: 4) steps - writing to files or streams, writing again with the same or a new '
          'writer, reading whole or record by record, changing what a reader returned - over two DMAP writers and two readers '
          'with their own records, all values symbolic; every write, refused write or read of one SuperDARN type (thorough: '
          'two in a row) followed by the write or read of a record of another or the same type with any subset of fields (of '
          'the same type or thorough: of any types); histories of 2 (thorough: 3) steps of writing, refused writing, reading, restructuring in memory and on file over '
          'two Borealis data sets of different formats, types and structures, values symbolic; 2 conversions in a row of two '
          'files with their own scaling')
OUTSIDE = ('changing data while an object that was given them is still to use them; longer histories; concurrent use; contents '
           'of iqdat and rawacf records (C14, C15)')
COVERS = ['stream', 'file', 'read', 'scribbled', 'darn', 'refused', 'site', 'array', 'restructured', 'converted']
OPTS = {'validate': 3}
BUDGET = {'quick': 400, 'thorough': 800}

PAIRS = [(('v0.6', 'rawacf', 'site'), ('v0.7', 'rawacf', 'array')), (('v0.7', 'bfiq', 'site'), ('v0.4', 'bfiq', 'array')),
         (('v0.5', 'antennas_iq', 'array'), ('v0.6', 'bfiq', 'site')), (('v0.4', 'rawacf', 'array'), ('v0.5', 'rawacf', 'site')),
         (('v0.7', 'antennas_iq', 'site'), ('v0.6', 'antennas_iq', 'array')), (('v0.6', 'rawrf', 'site'), ('v0.7', 'rawacf', 'site'))]


def cases(tier):
    full = tier != 'quick'
    out = []
    for first in range(len(OPS)):
        out.append({'dmap': True, 'steps': 4 if full else 3, 'first': first})
    for a in S.TYPES:
        for b in S.TYPES:
            for end in ('write', 'read'):
                out.append({'darn': [a], 'then': b, 'end': end, 'kind': 'sym' if full or a == b else 'presence'})
                if full and a <= b:
                    out.append({'darn': [a, b], 'then': a, 'end': end, 'kind': 'presence'})
    for k, p in enumerate(PAIRS):
        for first in range(len(BOPS) * 2):
            out.append({'borealis': k, 'steps': 3 if full and k < 4 else 2, 'first': first})
    for a, b in [(('v0.7', 'rawacf', 'site'), ('v0.4', 'rawacf', 'array')), (('v0.6', 'bfiq', 'array'), ('v0.6', 'bfiq', 'site')),
                 (('v0.5', 'bfiq', 'site'), ('v0.5', 'rawacf', 'site')), (('v0.7', 'bfiq', 'site'), ('v0.7', 'rawacf', 'array'))]:
        for i in range(2):
            for j in range(2):
                out.append({'convert': [a, b], 'order': [i, j]})
    return out


def harness(h, case):
    if 'dmap' in case:
        dmap(h, case)
    elif 'darn' in case:
        darn(h, case)
    elif 'borealis' in case:
        borealis(h, case)
    else:
        convert(h, case)


# ------------------------------------------------------------------------- DMAP
OPS = [(op, i) for op in ('stream', 'file', 'new', 'read', 'record', 'scribble') for i in (0, 1)] + [('same file', 0)]


def snap(rec):
    """everything a record holds, to compare with later"""
    out = []
    for k, v in rec.items():
        if hasattr(v, 'data_type_fmt'):
            x = v.value
            out.append((k, v.name, v.data_type, v.data_type_fmt, getattr(v, 'dimension', None), list(getattr(v, 'shape', [])),
                        x.copy() if isinstance(x, np.ndarray) else x))
        else:
            out.append((k, v.copy() if isinstance(v, np.ndarray) else v))
    return out


def dmap(h, case):
    L = h.lib
    given, enc, plain = [], [], []
    for i in range(2):
        recs, es, pl = [], [], []
        for r in range(2):
            nm = 'w%d.%d' % (i, r)
            s, sr = D.scalar(h, nm + '.s', 'i' if i else 'h')
            t, _ = D.scalar(h, nm + '.t', 's', slen=1 + i, hi=0x7f)
            f = 'f' if i else 'h'
            a = h.barray(nm + '.a', (2, 1 + r), D.NPT[f])
            sc, ar = [('s', 'i' if i else 'h', s), ('t', 's', t)], [('a', f, a.copy())]
            if i:
                rec = OrderedDict((('s', L.DmapScalar('s', s, D.CODES['i'], 'i')), ('t', L.DmapScalar('t', t, D.CODES['s'], 's')),
                                   ('a', L.DmapArray('a', a, D.CODES[f], f, 2, [2, 1 + r]))))
            else:
                rec = OrderedDict((('s', s), ('t', t), ('a', a)))
            recs.append(rec)
            es += D.enc_record(h, sc, ar)
            pl.append(OrderedDict((('s', sr), ('t', t), ('a', a.copy()))))
        given.append(recs)
        plain.append(pl)
        enc.append(D.fin(h, es))
    before = [[snap(r) for r in recs] for recs in given]
    writers, readers, outs = [None, None], [None, None], []
    at = [0, 0]
    for n in range(case['steps']):
        op, i = OPS[case['first']] if n == 0 else h.pick('step%d' % n, OPS)
        if op in ('stream', 'file', 'new', 'same file'):
            if writers[i] is None or op == 'new':
                o = h.call(L.DmapWrite, given[i])
                h.check(o.ok, 'a writer can be made')
                writers[i] = o.value
            if op in ('stream', 'new'):
                o = h.call(writers[i].write_dmap_stream)
                h.check(o.ok, 'records are written to a stream (%s)' % o.name)
                outs.append((i, o.value))
                h.cover('stream')
            else:
                f = 'out%d' % (0 if op == 'same file' else n)
                o = h.call(writers[i].write_dmap, h.path(f))
                h.check(o.ok, 'records are written to a file (%s)' % o.name)
                h.check(h.get(f) == enc[i], 'the file is the encoding of the records of this writer')
                outs = [x for x in outs if not (x[1] == f and len(x) == 3)] + [(i, f, 'file')]
                h.cover('file')
        elif op in ('read', 'record'):
            if op == 'read' or readers[i] is None or at[i] == 2:
                o = h.call(L.DmapRead, enc[i], True)
                h.check(o.ok, 'a stream is opened')
                readers[i], at[i] = o.value, 0
            if op == 'read':
                o = h.call(readers[i].read_records)
                h.check(o.ok and len(o.value) == 2, 'all records are read (%s)' % o.name)
                for g, e in zip(o.value, plain[i]):
                    h.check(D.record_same(h, g, e), 'the records are those of the stream')
                at[i] = 2
            else:
                o = h.call(readers[i].read_record)
                h.check(o.ok, 'a record is read (%s)' % o.name)
                e = plain[i][at[i]]
                h.check(list(o.value) == list(e), 'the record is the next one of the stream')
                h.check(h.same(o.value['a'].value, e['a']), 'the array is that of the next record')
                at[i] += 1
            h.cover('read')
        else:
            # what a reader returned is the caller's
            o = h.call(L.DmapRead, enc[i], True)
            h.check(o.ok, 'a stream is opened')
            g = h.call(o.value.read_records)
            h.check(g.ok, 'the stream is read')
            for r in g.value:
                r['a'][0, 0] = 5
                r['new'] = 1
            h.cover('scribbled')
    for x in outs:
        got = h.get(x[1]) if len(x) == 3 else x[1]
        h.check(got == enc[x[0]], 'output of an earlier step stays as it was')
    for recs, b in zip(given, before):
        h.check(len(recs) == len(b), 'the caller\'s records are as before')
        for r, s in zip(recs, b):
            h.check(h.same(snap(r), s), 'the caller\'s records are as before')


# --------------------------------------------------------------------- SuperDARN
def darn(h, case):
    """steps with fixed records, then the field rules for any record still hold"""
    for n, ft in enumerate(case['darn']):
        what = h.pick('step%d' % n, ['full', 'mandatory', 'partial', 'extra', 'type', 'other', 'read full', 'read mandatory', 'read partial'])
        kinds = what.split()[-1]
        r = S.Rec(h, ft, 's%d' % n, 'valid')
        mand = S.groups(h, ft)[0]
        d = r.d
        good = True
        if kinds != 'full':
            for f in list(d):
                if f not in mand:
                    del d[f]
        if kinds == 'partial':
            f = list(mand)[0]
            del d[f]
            good = False
        elif kinds == 'extra':
            d['extra'] = S.struct_of(h, 'extra', 'h')
            good = False
        elif kinds == 'type':
            f = [f for f in mand if mand[f] == 'h'][0]
            d[f] = S.struct_of(h, f, 'i')
            good = False
        op = 'write_' + ft
        if kinds == 'other':
            # a record of another type
            op = 'write_' + S.TYPES[(S.TYPES.index(ft) + 1) % len(S.TYPES)]
            good = False
        if 'read' in what:
            sc = [(f, v.data_type_fmt, v.value) for f, v in d.items() if f not in S.ARRAYS]
            ar = [(f, v.data_type_fmt, v.value) for f, v in d.items() if f in S.ARRAYS]
            o = h.call(h.lib.SDarnRead, D.fin(h, D.enc_record(h, sc, ar)), True)
            h.check(o.ok, 'a stream is opened')
            if not ar:
                return
            o = h.call(getattr(o.value, 'read_' + ft))
        else:
            before = snap(d)
            w = h.call(h.lib.SDarnWrite, [d])
            h.check(w.ok, 'a writer can be made')
            w = w.value
            p = h.path('step%d' % n)
            for again in range(2):
                o = h.call(getattr(w, op), p)
                h.check(o.ok == good, 'the record is written if it follows the rules (%s)' % o.name)
                if good:
                    got = h.get('step%d' % n)
                    sc = [(f, v.data_type_fmt, v.value) for f, v in d.items() if f not in S.ARRAYS]
                    ar = [(f, v.data_type_fmt, v.value) for f, v in d.items() if f in S.ARRAYS]
                    h.check(got == D.fin(h, D.enc_record(h, sc, ar)), 'the file is the encoding of the record, every time')
            h.check(h.same(snap(d), before), 'the caller\'s record is as before')
        h.note(o.name)
        h.check(o.ok == good, 'a record that follows the rules is handled (%s)' % o.name)
        h.cover('darn' if good else 'refused')
    m = c05 if case['end'] == 'write' else c06
    m.harness(h, {'ft': case['then'], 'recs': [case['kind']]})


# ---------------------------------------------------------------------- Borealis
BOPS = ['write', 'refused', 'read', 'reread', 'convert', 'file']


def borealis(h, case):
    sets = []
    for i, (ver, ft, st) in enumerate(PAIRS[case['borealis']]):
        fmt = B.Fmt(ver, ft)
        recs = B.records(h, fmt, [dict(seqs=1 + (i + k) % 2, beams=1, blank=1) for k in range(2)],
                         times=B.TIMES[i:], prefix='set%d.' % i)
        arrays = B.to_arrays(h, fmt, recs) if ft != 'rawrf' else None
        val = recs if st == 'site' else arrays
        sets.append((fmt, ft, st, recs, arrays, val, B.snapshot(val)))
    files = []
    for n in range(case['steps']):
        k = case['first'] if n == 0 else h.choose('step%d' % n, 0, len(BOPS) * 2 - 1)
        op, i = BOPS[k % len(BOPS)], k // len(BOPS)
        fmt, ft, st, recs, arrays, val, before = sets[i]
        name = 'f%d.hdf5' % n
        put = B.put_site if st == 'site' else B.put_arrays
        if op in ('write', 'convert'):
            o = h.call(h.lib.BorealisWrite, h.path(name), val, ft, st)
            h.check(o.ok, 'valid data are written (%s)' % o.name)
            files.append((name, i, st))
            if op == 'convert' and ft != 'rawrf':
                for again in range(2):
                    x = h.call(lambda: o.value.arrays if st == 'site' else o.value.records)
                    h.check(x.ok, 'data can be restructured (%s)' % x.name)
                    match(h, x.value, sets[i], 'array' if st == 'site' else 'site', 'restructured data')
                h.cover('restructured')
            match(h, o.value.records if st == 'site' else o.value.arrays, sets[i], st, 'data of the writer')
            h.cover(st)
        elif op == 'refused':
            bad = type(val)(val)
            if st == 'site':
                r = list(bad)[-1]
                bad[r] = type(bad[r])(bad[r])
                del bad[r]['experiment_id']
            else:
                del bad['experiment_id']
            o = h.call(h.lib.BorealisWrite, h.path(name), bad, ft, st)
            h.check(not o.ok and o.name.startswith('Borealis'), 'data with a missing field are refused (%s)' % o.name)
            h.check(h.get(name) is None, 'no file is written')
            h.cover('refused')
        elif op in ('read', 'reread'):
            if op == 'reread':
                # one file name, first with the other data
                f2, ft2, st2, recs2, arrays2, val2, _ = sets[1 - i]
                (B.put_site if st2 == 'site' else B.put_arrays)(h, name, val2)
                o = h.call(h.lib.BorealisRead, h.path(name), ft2)
                h.check(o.ok, 'a valid file is read (%s)' % o.name)
                first = o.value
            put(h, name, val)
            files.append((name, i, st))
            o = h.call(h.lib.BorealisRead, h.path(name), ft)
            h.check(o.ok, 'a valid file is read (%s)' % o.name)
            r = o.value
            for again in range(2):
                match(h, r.records if st == 'site' else r.arrays, sets[i], st, 'data read')
                if ft != 'rawrf':
                    match(h, r.arrays if st == 'site' else r.records, sets[i], 'array' if st == 'site' else 'site', 'data read')
            h.check(r.software_version == B.RELEASES[fmt.ver], 'the version')
            if op == 'reread':
                match(h, first.records if st2 == 'site' else first.arrays, sets[1 - i], st2, 'data read before')
                # what a reader returned is the caller's
            spoil(r.records if st == 'site' else r.arrays, st)
            h.cover('read')
        else:
            if ft == 'rawrf':
                return
            put(h, name, val)
            to = 'array' if st == 'site' else 'site'
            files += [(name, i, st), ('out%d.hdf5' % n, i, to)]
            o = h.call(h.lib.BorealisRestructure, h.path(name), h.path('out%d.hdf5' % n), ft, to)
            h.check(o.ok, 'a valid file is restructured (%s)' % o.name)
            h.cover('restructured')
        h.note(o.name)
    for name, i, st in files:
        got = B.get_site(h, name) if st == 'site' else B.get_arrays(h, name)
        match(h, got, sets[i], st, 'the file')
    for s in sets:
        h.check(h.same(s[5], s[6]), 'the caller\'s data are as before')


def spoil(d, st):
    for r in list(d.values())[:2] if st == 'site' else [d]:
        r['station'] = 'xxx'
        for k, v in r.items():
            if isinstance(v, np.ndarray) and v.dtype.kind in 'uif' and v.size and v.flags.writeable:
                v[...] = 3


def match(h, got, s, st, what):
    fmt, ft, _, recs, arrays, _, _ = s
    if st == 'site':
        B.check_records(h, got, recs, what)
    else:
        B.check_fields(h, got, arrays, what)


# -------------------------------------------------------------------- conversion
def convert(h, case):
    agents = []
    for i, (ver, ft, st) in enumerate(case['convert']):
        fmt, recs, p, scale = c14.setup(h, {'ver': ver, 'ft': ft, 'structure': st, 'n': 1, 'k': i}, 'in%d' % i, 'in%d.' % i)
        agents.append((fmt, ft, st, recs, p, scale))
    done = []
    for n, i in enumerate(case['order'] + [0]):
        fmt, ft, st, recs, p, scale = agents[i]
        kw = {} if 'slice_id' in fmt.single else {'borealis_slice_id': 5}
        if n == 2:
            scale = scale + 1
        if scale != 1:
            kw['scaling_factor'] = scale
        o, log = K.run(h, p, ft, h.path('out%d' % n), **kw)
        h.note(o.name)
        h.check(o.ok, 'a valid file is converted (%s)' % o.name)
        r = h.call(lambda: o.value.records)
        h.check(r.ok, 'records of the converter (%s)' % r.name)
        B.check_records(h, r.value, recs, 'records of the converter')
        out = K.written(h, 'out%d' % n, log)
        for m, j, s, before in done:
            if j == i and s == scale:
                h.check(h.same(out, before), 'a conversion can be repeated')
        done.append((n, i, scale, out))
        h.cover('converted')
    for i, (fmt, ft, st, recs, p, scale) in enumerate(agents):
        if st == 'site':
            B.check_records(h, B.get_site(h, 'in%d.hdf5' % i), recs, 'the input file')
        else:
            B.check_fields(h, B.get_arrays(h, 'in%d.hdf5' % i), B.to_arrays(h, fmt, recs), 'the input file')
