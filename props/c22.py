"""C22: errors name the file, the record and the fields at fault."""
from collections import OrderedDict
import struct
import numpy as np
from symex.harness import SBytes
from . import _sdarn as S
from . import _dmap as D
from . import _bor as B
from . import _conv as K
from . import c07, c08, c13, c16

BOUNDS = ('SuperDARN: all six types, 1-2 records or 12 of which one is symbolic, every field independently present or absent and '
          'of any DMAP type; DMAP: 3 or 13 records of which any one is bad (a text under the char type in scalar or array, a '
          'value that is no DMap structure, any four bytes in a count, type or size of the record), names of 1-3 arbitrary '
          'letters; Borealis: the formats v0.5 and v0.7 (all in the thorough tier), 1-2 site records or 12 of which two are '
          'symbolic, arrays of 2 records, every field independently present or absent or of any other type; 11 records to '
          'convert of which any of three is not convertible; every version v0.x and file type and structure texts of up to 5 '
          'characters')
OUTSIDE = ('the wording of messages; damage that shows only in the sizes of the whole file (found before any record is read); '
           'the text of errors raised by h5py and the operating system; the log')
COVERS = ['superdarn', 'dmap written', 'dmap read', 'site records', 'arrays', 'conversion', 'version', 'file type', 'structure',
          'overwrite', 'empty', 'restructure']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}


def cases(tier):
    full = tier != 'quick'
    out = []
    for ft in S.TYPES:
        for d in ('write', 'read'):
            for recs in [['sym'] if d == 'read' else ['valid', 'sym'], ['valid'] * 11 + ['sym']] + \
                    ([['sym', 'sym'], ['sym', 'valid'], ['valid', 'sym', 'valid']] if full else []):
                if len(recs) > 3 and not full and (d, ft) not in (('write', 'rawacf'), ('write', 'grid'), ('read', 'fitacf')):
                    continue
                out.append({'k': 'superdarn', 'ft': ft, 'dir': d, 'recs': recs})
    for n in (3, 13):
        for what in ('char', 'chars', 'other', 'list'):
            for w in range(1, 4 if n == 3 else 2):
                out.append({'k': 'dmap written', 'n': n, 'what': what, 'w': w})
        for what in range(len(SPOTS)):
            for via in ('file', 'stream'):
                out.append({'k': 'dmap read', 'n': n, 'spot': what, 'via': via})
    for ver in ('v0.5', 'v0.7') if not full else list(B.RELEASES):
        for ft in B.FTYPES:
            for d in ('write', 'read'):
                for recs in [['presence', 'types'], ['types', 'presence'], ['valid'] * 10 + ['presence', 'types']]:
                    if full or (ver == 'v0.7' and (recs == ['presence', 'types'] or ft == 'rawacf') or recs == ['presence', 'types'] and d == 'write'):
                        out.append({'k': 'site records', 'ver': ver, 'ft': ft, 'dir': d, 'recs': recs})
                out.append({'k': 'site records', 'ver': ver, 'ft': ft, 'dir': d, 'recs': ['bad'] * 12})
                for kind in ('presence', 'types', 'counts'):
                    if ft != 'rawrf':
                        out.append({'k': 'arrays', 'ver': ver, 'ft': ft, 'dir': d, 'kind': kind})
            if ft in ('rawacf', 'bfiq'):
                for st in ('site', 'array'):
                    out.append({'k': 'conversion', 'ver': ver, 'ft': ft, 'structure': st, 'n': 11, 'P': 2, 'kc': 0})
                    out.append({'k': 'conversion', 'ver': ver, 'ft': ft, 'structure': st, 'n': 2, 'P': 2, 'kc': 2})
            if ft != 'rawrf':
                out.append({'k': 'restructure', 'ver': ver, 'ft': ft})
            for st in ('site', 'array'):
                if ft != 'rawrf' or st == 'site':
                    out.append({'k': 'conversion types', 'ver': ver, 'ft': ft, 'structure': st})
    for op in c13.OPS:
        out.append({'k': 'version', 'op': op, 'ver': 'v0.5', 'ft': 'rawacf'})
        if 'auto' not in op:
            out.append({'k': 'version', 'op': op, 'ver': 'v0.7', 'ft': 'bfiq'})
    for op in ['read', 'write', 'read site', 'read array', 'write site', 'write array', 'restructure', 'convert']:
        for n in range(0, 6):
            out.append({'k': 'file type', 'op': op, 'n': n})
            if op in ('read', 'write', 'restructure') and n:
                out.append({'k': 'structure', 'op': op, 'n': n})
    out.append({'k': 'empty'})
    return out


def named(h, o, what, label):
    """the message of the error names each of `what`: (text or number, condition)"""
    text = o.exc.args[0] if h.sym and o.exc.args else str(o.exc)
    h.check(h.And(*[h.Implies(c, h.mentions(text, w)) for w, c in what if c is not False]), label)
    m = getattr(o.exc, 'message', None)
    if m is not None and not h.sym:
        h.check(m == text, 'the message attribute is the message')


def with_file(h, o, name, label='the file'):
    """the error names the file, in its message and its attribute if it has one"""
    named(h, o, [(name, True)], label + ' is named')
    f = getattr(o.exc, 'filename', name)
    h.check(f == name, label + ' is the filename of the error')


def harness(h, case):
    {'superdarn': superdarn, 'dmap written': dmap_written, 'dmap read': dmap_read, 'site records': site_records,
     'arrays': arrays, 'conversion': conversion, 'conversion types': conversion_types, 'version': version,
     'file type': file_type, 'structure': structure, 'empty': empty, 'restructure': restructure}[case['k']](h, case)


# ------------------------------------------------------------------ SuperDARN
def superdarn(h, case):
    from . import c05, c06
    ft = case['ft']
    recs = [S.Rec(h, ft, 'r%d' % i, k) for i, k in enumerate(case['recs'])]
    for r in recs:
        h.assume(r.has_scalar_and_array())
    h.assume(h.Not(h.And(*[r.ok() for r in recs])))
    if case['dir'] == 'write':
        w = h.call(h.lib.SDarnWrite, [r.d for r in recs])
        h.check(w.ok, 'records of DMap structures are accepted for checking (%s)' % w.name)
        if h.sym:
            c05.summarise(h, w.value, recs)
        o = h.call(getattr(w.value, 'write_' + ft), h.path('out.' + ft))
    else:
        data = b'\0' * len(recs) if h.sym else D.fin(h, sum([r.bytes() for r in recs], []))
        rd = h.call(h.lib.SDarnRead, data, True)
        undo = c06.summarise(h, rd.value, recs) if h.sym else (lambda: None)
        try:
            o = h.call(getattr(rd.value, 'read_' + ft))
        finally:
            undo()
    h.note(o.name)
    h.check(o.isa('SuperDARNExtraFieldError', 'SuperDARNFieldMissingError', 'SuperDARNDataFormatTypeError'),
            'bad records are refused with a SuperDARN field error (%s)' % o.name)
    num = o.exc.record_number
    num = int(num)
    h.check(0 <= num < len(recs), 'the error carries a record number')
    rec = recs[num]
    named(h, o, [(num, True)], 'the record number is in the message')
    if o.name == 'SuperDARNExtraFieldError':
        named(h, o, rec.extra(), 'the unknown fields are in the message')
    elif o.name == 'SuperDARNFieldMissingError':
        named(h, o, rec.missing(), 'the missing fields are in the message')
    else:
        named(h, o, rec.badtype(), 'the fields of wrong type are in the message')
        need = getattr(o.exc.incorrect_params, 'v', o.exc.incorrect_params)
        h.check(h.And(*[h.Implies(c, need.get(f) == rec.allf[f]) for f, c in rec.badtype()]),
                'the error gives the data type each field needs')
    h.cover('superdarn')


# ----------------------------------------------------------------------- DMAP
def dmap_written(h, case):
    """one record of several has a value that cannot be written"""
    L = h.lib
    at = h.choose('record', 0, case['n'] - 1)
    name = h.text('name', case['w'], 97, 122)
    what = case['what']
    if what == 'char':
        bad = L.DmapScalar(name, 'text', 1, 'c')
    elif what == 'chars':
        bad = L.DmapArray(name, np.array(['x', 'y']), 1, 'c', 1, [2])
    elif what == 'list':
        bad = L.DmapArray(name, np.array(['x', 'y']), 9, 's', 1, [2])
    else:
        bad = h.pick('value', [3, 'text', None, [1], 2.5])
    recs = []
    for i in range(case['n']):
        r = OrderedDict()
        r['channel'] = L.DmapScalar('channel', i, 3, 'i')
        if i == at:
            r[name] = bad
        recs.append(r)
    p = h.path('out.dmap')
    stream = h.branch(h.bool('stream', False))
    o = h.call(L.DmapWrite, recs, p) if h.branch(h.bool('named', True)) or stream else h.call(L.DmapWrite, recs)
    if o.ok:
        o = h.call(o.value.write_dmap_stream) if stream else h.call(o.value.write_dmap, p)
    h.note(o.name)
    exp = {'char': 'DmapCharError', 'chars': 'DmapCharError', 'list': 'DmapDataError', 'other': 'DmapTypeError'}[what]
    h.check(o.name == exp, 'values that cannot be written are refused (%s)' % o.name)
    named(h, o, [(at, True)], 'the record number is in the message')
    if hasattr(o.exc, 'rec_num'):
        h.check(o.exc.rec_num == at, 'the error carries the record number')
    if exp == 'DmapCharError':
        h.check(o.exc.data_name == name, 'the error carries the name of the field')
        named(h, o, [(name, True)], 'the field is in the message')
    elif exp == 'DmapDataError':
        with_file(h, o, p)
    else:
        h.check(o.exc.filename == p, 'the error carries the file name')
        h.check(o.exc.data_type is type(bad), 'the error carries the type of the value')
        named(h, o, [(type(bad).__name__, True)], 'the type of the value is in the message')
    h.cover('dmap written')


# offset in the record below, width
SPOTS = [(8, 4), (12, 4), (18, 1), (24, 1), (25, 4), (29, 4), (8, 8), (22, 2)]


def rec_bytes(i):
    b = b'v\0' + b'\x03' + struct.pack('<i', 100 + i) + b'a\0' + b'\x02' + struct.pack('<ii', 1, 2) + struct.pack('<hh', i, 5)
    return struct.pack('<iiii', 65537, len(b) + 16, 1, 1) + b


def dmap_read(h, case):
    """one record of several is damaged"""
    n = case['n']
    at = h.pick('record', [0, 1, 2] if n == 3 else [0, 7, 12])
    off, w = SPOTS[case['spot']]
    bufs = [list(rec_bytes(i)) for i in range(n)]
    bufs[at][off:off + w] = list(SBytes.elems(h.byts('w', w)))
    data = D.fin(h, sum(bufs, []))
    if case['via'] == 'file':
        p = h.put('in.dmap', data)
        r = h.call(h.lib.DmapRead, p)
    else:
        p = 'stream'
        r = h.call(h.lib.DmapRead, data, True)
    h.check(r.ok, 'a file whose records have their sizes can be opened (%s)' % r.name)
    g = h.call(r.value.read_records)
    h.note(g.name)
    if g.ok:
        return
    h.check(g.isa(*D.DOCUMENTED), 'bad input is rejected with a documented DMAP error (%s)' % g.name)
    named(h, g, [(at, True)], 'the number of the bad record is in the message')
    if getattr(g.exc, 'rec_num', at) != at:
        h.fail('the error carries the number of the bad record')
    if g.name != 'CursorError':
        with_file(h, g, p)
    h.cover('dmap read')


def empty(h, case):
    """nothing to read, nothing to write"""
    what = h.pick('what', ['read', 'write', 'stream'])
    if what == 'read':
        p = h.put('in.dmap', b'')
        o = h.call(h.lib.DmapRead, p)
        exp = 'EmptyFileError'
    elif what == 'stream':
        o = h.call(h.lib.DmapRead, b'', True)
        p, exp = 'data stream', 'EmptyFileError'
    else:
        p = h.path('out.dmap')
        o = h.call(h.lib.DmapWrite, [], p)
        o = h.call(o.value.write_dmap)
        exp = 'DmapDataError'
    h.check(o.name == exp, 'nothing to read or write is refused (%s)' % o.name)
    with_file(h, o, p)
    h.cover('empty')


# ------------------------------------------------------------------- Borealis
def site_records(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    reading = case['dir'] == 'read'
    names = [B.recname(t) for t in sorted(B.TIMES[:len(case['recs'])])]
    recs = OrderedDict((n, c07.Rec(h, fmt, 'r%d' % i, k, reading, i == 0)) for i, (n, k) in enumerate(zip(names, case['recs'])))
    if case['recs'][0] == 'bad':
        # every record has one or two bad fields
        turn = h.choose('turn', 0, 5)
        some = [f for f in fmt.site if f != 'borealis_git_hash']
        for i, r in enumerate(recs.values()):
            what = (i + turn) % 3 if turn < 3 else turn - 3
            for f in some[(3 * i) % len(some)], some[-1 - i]:
                if what == 0:
                    r.present[f] = False
                elif what == 1:
                    r.bad.append((f, True))
            if what == 2:
                r.present[c07.EXTRA[i % 2]] = True
            bad = [f for f, _ in r.bad]
            r.items = [(f, r.present[f], np.array([True, False]) if f in bad else v) for f, _, v in r.items]
            r.d = h.gdict(r.items, base=dict)
    h.assume(h.Not(h.And(*[r.ok() for r in recs.values()])))
    for r in recs.values():
        h.assume(h.Or(*[r.present[f] for f in fmt.site]))
    if reading:
        o = c07.read(h, fmt, recs)
    else:
        o = h.call(h.lib.BorealisWrite, h.path('out.hdf5'), OrderedDict((n, r.d) for n, r in recs.items()), case['ft'], 'site')
    h.note(o.name)
    h.check(o.name == 'BorealisBadRecordsError', 'bad records are refused as such (%s)' % o.name)
    with_file(h, o, h.path('in.hdf5' if reading else 'out.hdf5'))
    for n, r in recs.items():
        m, x, w = r.any(r.missing()), r.any(r.extra()), r.any(r.wrong())
        named(h, o, [(n, h.Or(m, x, w))], 'every bad record is in the message')
        named(h, o, r.missing(), 'the missing fields are in the message')
        named(h, o, [(f, h.And(h.Not(m), c)) for f, c in r.extra()], 'the unknown fields are in the message')
        named(h, o, [(f, h.And(h.Not(m), h.Not(x), c)) for f, c in r.wrong()], 'the fields of other types are in the message')
    h.cover('site records')


def arrays(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    reading = case['dir'] == 'read'
    kind = case['kind']
    items, missing, bad, counts, idx = [], [], [], [], {}
    for f in fmt.arrays:
        attr = f in fmt.array_attrs
        ty = fmt.array_attrs[f] if attr else fmt.array_data[f]
        if attr:
            v = B.HASH[fmt.ver] if f == 'borealis_git_hash' else 'text' if ty is str else ty(2)
        else:
            v = h.const(c08.arr(ty, (2, 1) if f == 'pulse_phase_offset' else (2,)))
        alts, p = [v], True
        if f != 'borealis_git_hash':
            if kind == 'presence':
                p = h.bool(f + '?', True)
                missing.append((f, h.Not(p)))
            elif kind == 'types':
                # of another type, but where an array is due an array
                for a in c08.alternatives(h, f, ty, attr, v, reading)[1:]:
                    if isinstance(a, np.ndarray) != attr:
                        alts.append(a)
            elif f in [fmt.unshared[i] for i in (0, 3, len(fmt.unshared) // 2, -1)]:
                alts = [h.const(c08.arr(ty, s)) for s in [(2, 1), (3, 1)]]
        items.append((f, p, h.upick(f + ':', alts)))
        if len(alts) > 1:
            idx[f] = h.index_of(f + ':')
            if kind == 'types':
                bad.append((f, h.Not(idx[f] == 0)))
            else:
                counts.append(f)
    extra = []
    if kind == 'presence':
        for e in c08.EXTRA:
            p = h.bool(e + '?', False)
            items.append((e, p, np.int64(1)))
            extra.append((e, p))
    some = h.Or(*[c for _, c in missing + extra + bad] + [h.Not(idx[f] == idx[counts[0]]) for f in counts] + [False])
    h.assume(some)
    if reading:
        o = c08.read(h, fmt, items)
    else:
        o = h.call(h.lib.BorealisWrite, h.path('out.hdf5'), h.gdict(items, base=dict), case['ft'], 'array')
    h.note(o.name)
    h.check(not o.ok, 'bad data are refused')
    with_file(h, o, h.path('in.hdf5' if reading else 'out.hdf5'))
    if kind == 'presence':
        m = h.Or(*[c for _, c in missing])
        named(h, o, missing, 'the missing fields are in the message')
        named(h, o, [(f, h.And(h.Not(m), c)) for f, c in extra], 'the unknown fields are in the message')
    elif kind == 'types':
        h.check(o.name == 'BorealisDataFormatTypeError', 'other data types are reported as such (%s)' % o.name)
        named(h, o, bad, 'the fields of other types are in the message')
    else:
        h.check(o.name == 'BorealisNumberOfRecordsError', 'different numbers of records are reported as such (%s)' % o.name)
        named(h, o, [(f, True) for f in fmt.unshared], 'the fields are in the message')
        n = o.exc.array_types
        for f in counts[:2] + counts[-1:]:
            h.check(f in n, 'the error has the fields')
    h.cover('arrays')


def conversion(h, case):
    ft = case['ft']
    c = {'ft': ft, 'ver': case['ver'], 'structure': case['structure'], 'n': case['n'], 'P': case['P'], 'k': case['kc']}
    if case['n'] > 3:
        c['wide'] = True
    fmt, recs = c16.setup(h, c)
    put = B.put_site if c['structure'] == 'site' else B.put_arrays
    p = put(h, 'in.hdf5', recs if put is B.put_site else B.to_arrays(h, fmt, recs))
    kw = {} if 'slice_id' in fmt.single else {'borealis_slice_id': 0}
    o, log = K.run(h, p, ft, h.path('out.dmap'), **kw)
    h.note(o.name)
    if o.ok:
        return
    for name, rec in recs.items():
        ok, zero = c16.convertible(h, c, fmt, rec)
        if not h.branch(h.And(ok, zero)):
            named(h, o, [(name, True)], 'the record that cannot be converted is in the message')
            h.cover('conversion')
            return
    h.fail('data that cannot be converted are refused (%s)' % o.name)


def conversion_types(h, case):
    fmt, recs = c16.setup(h, dict(case, n=1, P=1, k=0))
    put = B.put_site if case['structure'] == 'site' else B.put_arrays
    p = put(h, 'in.hdf5', recs if put is B.put_site else B.to_arrays(h, fmt, recs))
    same = h.branch(h.bool('same name', False))
    q = p if same else h.path('out.dmap')
    o, log = K.run(h, p, case['ft'], q, borealis_slice_id=3)
    h.note(o.name)
    if o.name == 'ConvertFileOverWriteError':
        with_file(h, o, p)
        h.cover('overwrite')
    elif o.name == 'BorealisConversionTypesError':
        named(h, o, [(q, True), (case['ft'], True)], 'the file and the type are in the message')


def restructure(h, case):
    """a field is missing; the output has the name of the input"""
    fmt = B.Fmt(case['ver'], case['ft'])
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1), dict(seqs=2, beams=2, blank=2)])
    to_array = h.branch(h.bool('to array', True))
    if h.branch(h.bool('same name', False)):
        p = B.put_site(h, 'in.hdf5', recs) if to_array else B.put_arrays(h, 'in.hdf5', B.to_arrays(h, fmt, recs))
        o = h.call(h.lib.BorealisRestructure, p, p, case['ft'], 'array' if to_array else 'site')
        h.check(o.name == 'ConvertFileOverWriteError', 'the input is not overwritten (%s)' % o.name)
        with_file(h, o, p)
        h.cover('overwrite')
        return
    fields = [f for f in fmt.shared + fmt.unshared if f != 'borealis_git_hash']
    f = fields[h.choose('field', 0, len(fields) - 1)]
    if to_array:
        del list(recs.values())[0][f]
        p = B.put_site(h, 'in.hdf5', recs)
    else:
        a = B.to_arrays(h, fmt, recs)
        del a[f]
        p = B.put_arrays(h, 'in.hdf5', a)
    o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), case['ft'], 'array' if to_array else 'site')
    h.note(o.name)
    h.check(o.name == 'BorealisRestructureError', 'a file without %s cannot be restructured (%s)' % (f, o.name))
    with_file(h, o, p)
    h.cover('restructure')


# ------------------------------------------------------- versions, types, structures
def version(h, case):
    x = h.text('x', 1, 33, 126)
    h.assume(h.And(*[h.Not(x == c) for c in '.-']))
    h.assume(h.And(*[h.Not(x == r[-1]) for r in B.RELEASES]))
    fmt, val = c13.data(h, case, 'v0.' + x + '.1-12-gabc')
    o = c13.run(h, case, val)
    h.note(o.name)
    h.check(o.name == 'BorealisVersionError', 'data of an unknown version are refused as such (%s)' % o.name)
    h.check(o.exc.file_version == 'v0.' + x, 'the error carries the version')
    named(h, o, [('v0.' + x, True)], 'the version is in the message')
    with_file(h, o, h.path('out.hdf5' if case['op'].startswith('write') else 'in.hdf5'))
    h.cover('version')


def file_type(h, case):
    op = case['op']
    t = h.text('type', case['n'], 33, 126)
    known = B.FTYPES
    h.assume(h.And(*[h.Not(t == k) for k in known]))
    fmt = B.Fmt('v0.6', 'rawacf')
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)])
    site = 'array' not in op
    val = recs if site else B.to_arrays(h, fmt, recs)
    a = op.split()[1:]
    if op.startswith('write'):
        p = h.path('out.hdf5')
        o = h.call(h.lib.BorealisWrite, p, val, t, *a)
    else:
        p = B.put_site(h, 'in.hdf5', val) if site else B.put_arrays(h, 'in.hdf5', val)
        if op.startswith('read'):
            o = h.call(h.lib.BorealisRead, p, t, *a)
        elif op == 'convert':
            o = h.call(h.lib.BorealisConvert, p, t, h.path('out.dmap'), 0)
        else:
            o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), t, 'array')
    h.note(o.name)
    h.check(o.name == 'BorealisFileTypeError', 'an unknown file type is refused as such (%s)' % o.name)
    h.check(o.exc.file_type == t, 'the error carries the file type')
    if case['n']:
        named(h, o, [(t, True)], 'the file type is in the message')
    with_file(h, o, p)
    h.cover('file type')


def structure(h, case):
    op = case['op']
    t = h.text('structure', case['n'], 33, 126)
    h.assume(h.And(*[h.Not(t == k) for k in ('site', 'array')]))
    fmt = B.Fmt('v0.6', 'rawacf')
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)])
    if op == 'write':
        o = h.call(h.lib.BorealisWrite, h.path('out.hdf5'), recs, 'rawacf', t)
    else:
        p = B.put_site(h, 'in.hdf5', recs)
        if op == 'read':
            o = h.call(h.lib.BorealisRead, p, 'rawacf', t)
        else:
            o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), 'rawacf', t)
    h.note(o.name)
    h.check(o.name == 'BorealisStructureError', 'an unknown structure is refused as such (%s)' % o.name)
    named(h, o, [(t, True)], 'the structure is in the message')
    h.cover('structure')
