"""C20: readers, writers and converters describe the data they hold."""
from collections import OrderedDict
import numpy as np
from symex.harness import same, SReal
from . import _bor as B
from . import _conv as K
from . import _dmap as D
from . import _sdarn as S
from . import c02
from . import c10
from . import c14

BOUNDS = ('DMAP readers and writers of files and streams of 1-2 records, plain and as DMap structures, all values symbolic; readers and '
          'writers of every SuperDARN type with any choice of optional groups; Borealis readers and writers of every version, file '
          'type and structure, named or recognised, dimensions and values as in C10; converters as in C14/C15, slice id from the file or '
          'given, scaling factor from a list')
OUTSIDE = 'the wording of texts; attributes not documented (cursor and such)'
COVERS = ['dmap', 'darn', 'stream', 'site', 'array', 'no other structure', 'converted']
OPTS = {'validate': 3}
BUDGET = {'quick': 420, 'thorough': 800}


def cases(tier):
    full = tier != 'quick'
    out = []
    for o in c02.CASES_ORDER[:8 if full else 4]:
        for nrec in (1, 2):
            for via in ('dict', 'dmap'):
                out.append({'order': o, 'nrec': nrec, 'via': via})
    for ft in S.TYPES:
        out += [{'darn': ft, 'n': n} for n in (1, 2)[:1 + full]]
    for ver in B.VERSIONS if not full else list(B.RELEASES):
        for ft in B.FTYPES:
            for st in ('site', 'array')[:1 + (ft != 'rawrf')]:
                for n in (1, 2)[:1 + (full or ver == 'v0.6')]:
                    out.append({'ver': ver, 'ft': ft, 'structure': st, 'n': n, 'big': False})
    for ver in B.VERSIONS:
        for ft in ('rawacf', 'bfiq'):
            for st in ('site', 'array'):
                for k in range(4 if full else 1 + (ver == 'v0.6')):
                    out.append({'convert': True, 'ver': ver, 'ft': ft, 'structure': st, 'n': 1 + k % 2, 'k': k})
    return out


def harness(h, case):
    if 'order' in case:
        dmap(h, case)
    elif 'darn' in case:
        darn(h, case)
    elif 'convert' in case:
        convert(h, case)
    else:
        borealis(h, case)


def printed(h, o, *names):
    """an object can be printed; what is printed names its class and its file"""
    for f in (repr, str):
        t = h.call(f, o)
        h.check(t.ok, 'objects can be printed (%s)' % t.name)
        for n in names:
            h.check(n in t.value, 'what is printed names the file')
    t = h.call(repr, o)
    h.check(type(o).__name__ in t.value, 'repr names the class')


def as_plain(h, recs):
    """values of DMap structures by name"""
    return [OrderedDict((k, s.value) for k, s in r.items()) for r in recs]


def scalar_same(h, fmt, x, y):
    """equal as values of the DMAP type"""
    if fmt == 's':
        return same(x, y)
    if fmt in 'fd' and not isinstance(x, SReal) and not isinstance(y, SReal):
        ty = D.NPT[fmt]
        x, y = [v.cast(ty) if h.sym and hasattr(v, 'cast') else ty(v) for v in (x, y)]
        return same(x, y)
    return x == y


def structures(h, recs, plain, what):
    """DMap structures that hold the plain values"""
    L = h.lib
    recs, plain = list(recs), list(plain)
    h.check(len(recs) == len(plain), what + ': one structure per record')
    for a, b in zip(recs, plain):
        h.check(list(a) == list(b), what + ': fields')
        for f, s in a.items():
            arr = isinstance(b[f], np.ndarray)
            h.check(isinstance(s, L.DmapArray if arr else L.DmapScalar), what + ': kind of ' + f)
            h.check(s.name == f, what + ': name of ' + f)
            h.check(D.CODES[s.data_type_fmt] == s.data_type, what + ': type code of ' + f)
            if arr:
                h.check(s.dimension == b[f].ndim and sorted(s.shape) == sorted(b[f].shape), what + ': dimensions of ' + f)
                h.check(D.array_same(h, s.value, b[f]), what + ': value of ' + f)
            else:
                h.check(scalar_same(h, s.data_type_fmt, s.value, b[f]), what + ': value of ' + f)


def as_read(h, f, v):
    if f == 'f':
        v = v.cast(np.float32) if h.sym else np.float32(v)
    return D.as_read(f, v)


def dmap(h, case):
    L = h.lib
    b = c02.build(h, case)
    exp = [OrderedDict([(n, as_read(h, f, v)) for n, f, v in x[1]] + [(n, v) for n, f, v in x[2]]) for x in b]
    data = D.fin(h, sum([D.enc_record(h, x[1], x[2]) for x in b], []))
    w = h.call(L.DmapWrite, [x[0] for x in b], h.path('out.dmap'))
    h.check(w.ok, 'a writer is made (%s)' % w.name)
    printed(h, w.value, h.path('out.dmap'))
    h.check(w.value.filename == h.path('out.dmap'), 'file name of the writer')
    structures(h, w.value.dmap_records, [OrderedDict([(k, v if case['via'] != 'dmap' else v.value) for k, v in x[0].items()]) for x in b], 'the writer')
    stream = h.branch(h.bool('stream', False))
    r = h.call(L.DmapRead, data, True) if stream else h.call(L.DmapRead, h.put('in.dmap', data))
    h.check(r.ok, 'a reader is made (%s)' % r.name)
    r = r.value
    h.check(len(r.get_records) == 0 and len(r.get_dmap_records) == 0, 'no records before reading')
    if not stream:
        printed(h, r, h.path('in.dmap'))
    if h.branch(h.bool('one by one', False)):
        for i in range(len(b)):
            o = h.call(r.read_record)
            h.check(o.ok, 'a record is read (%s)' % o.name)
            structures(h, [o.value], exp[i:i + 1], 'the record read')
    else:
        o = h.call(r.read_records)
        h.check(o.ok, 'the records are read (%s)' % o.name)
        h.check(len(o.value) == len(b), 'number of records')
        h.check(r.rec_num == len(b), 'number of records read')
        for x in (o.value, r.get_records):
            for g, e in zip(x, exp):
                h.check(list(g) == list(e), 'fields')
                for f in e:
                    h.check(D.array_same(h, g[f], e[f]) if isinstance(e[f], np.ndarray) else same(g[f], e[f]), 'value of ' + f)
        h.check(len(r.get_records) == len(b), 'records kept')
        structures(h, r.get_dmap_records, exp, 'the structures kept')
        if not stream:
            printed(h, r, h.path('in.dmap'))
    h.cover('stream' if stream else 'dmap')


def darn(h, case):
    L = h.lib
    ft = case['darn']
    rs = [S.Rec(h, ft, 'r%d' % i, 'groups' if i == 0 and ft != 'iqdat' else 'valid') for i in range(case['n'])]
    data = D.fin(h, sum([x.bytes() for x in rs], []))
    stream = h.branch(h.bool('stream', False))
    r = h.call(L.SDarnRead, data, True) if stream else h.call(L.SDarnRead, h.put('in.dmap', data))
    h.check(r.ok, 'a reader is made (%s)' % r.name)
    r = r.value
    o = h.call(lambda: (r.get_records, r.get_dmap_records))
    h.check(o.ok and len(o.value[0]) == 0 and len(o.value[1]) == 0, 'no records before reading (%s)' % o.name)
    generic = h.branch(h.bool('generic', False))
    o = h.call(r.read_records if generic else getattr(r, 'read_' + ft))
    h.check(o.ok, 'the records are read (%s)' % o.name)
    h.check(r.rec_num == case['n'], 'number of records read')
    k = h.call(lambda: r.get_records)
    h.check(k.ok, 'the records are kept (%s)' % k.name)
    for got in (o.value, k.value):
        h.check(len(got) == case['n'], 'number of records')
        for g, e in zip(got, rs):
            h.check(list(g) == e.order(), 'fields')
            for f in g:
                v = e.plain(f)
                h.check(D.array_same(h, g[f], v) if isinstance(v, np.ndarray) else g[f] == v, 'value of ' + f)
    structures(h, r.get_dmap_records, [OrderedDict((f, e.plain(f)) for f in e.order()) for e in rs], 'the structures kept')
    if not stream:
        printed(h, r, h.path('in.dmap'))
    w = h.call(L.SDarnWrite, [x.d for x in rs], h.path('out.dmap'))
    h.check(w.ok, 'a writer is made (%s)' % w.name)
    printed(h, w.value, h.path('out.dmap'))
    h.cover('darn')


def version(h, fmt):
    return fmt.ver


def views(h, o, fmt, case, p, recs, arrays, what):
    """what a reader or writer says of its data"""
    ft = case['ft']
    h.check(o.borealis_file_structure == case['structure'], what + ': structure')
    h.check(o.filename == p and o.borealis_filetype == ft, what + ': file name and type')
    h.check(o.software_version == case['ver'], what + ': version')
    h.check(o.format is B.fmt_of(h, fmt) or isinstance(o.format, B.fmt_of(h, fmt)), what + ': format')
    if ft == 'rawrf':
        B.check_records(h, o.records, recs, what + ': records')
        h.check(list(o.record_names) == list(recs), what + ': record names')
        e = h.call(lambda: o.arrays)
        h.check(e.name == 'BorealisRestructureError', what + ': the type has no array structure (%s)' % e.name)
        h.cover('no other structure')
        return
    # looking again shows the same
    for i in range(1 + (case['n'] == 1 and what == 'the reader')):
        x = h.call(lambda: o.records)
        h.check(x.ok, what + ': records (%s)' % x.name)
        B.check_records(h, x.value, recs, what + ': records')
        x = h.call(lambda: o.record_names)
        h.check(x.ok and list(x.value) == list(recs), what + ': record names')
        x = h.call(lambda: o.arrays)
        h.check(x.ok, what + ': arrays (%s)' % x.name)
        B.check_fields(h, x.value, arrays, what + ': arrays')


def borealis(h, case):
    L = h.lib
    if case['ft'] == 'rawrf':
        fmt = B.Fmt(case['ver'], 'rawrf')
        recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)] * case['n'])
        arrays = None
    else:
        fmt, recs = c10.inputs(h, case)
        arrays = B.to_arrays(h, fmt, recs)
    site = case['structure'] == 'site'
    val = recs if site else arrays
    a = (case['structure'],) if h.branch(h.bool('named', True)) else ()
    p = (B.put_site if site else B.put_arrays)(h, 'in.hdf5', val)
    o = h.call(L.BorealisRead, p, case['ft'], *a)
    h.check(o.ok, 'a valid file is read (%s)' % o.name)
    views(h, o.value, fmt, case, p, recs, arrays, 'the reader')
    printed(h, o.value, p)
    printed(h, o.value._reader, p)
    comp = h.pick('compression', ['none', 'default', 'gzip']) if not a else 'default'
    kw = {} if comp == 'default' else {'hdf5_compression': None if comp == 'none' else comp}
    q = h.path('out.hdf5')
    o = h.call(L.BorealisWrite, q, val, case['ft'], *a, **kw)
    h.check(o.ok, 'valid data are written (%s)' % o.name)
    views(h, o.value, fmt, case, q, recs, arrays, 'the writer')
    if comp != 'default':
        h.check(o.value.compression == kw['hdf5_compression'], 'the compression')
    printed(h, o.value, q)
    h.cover(case['structure'])


def convert(h, case):
    fmt, recs, p, scale = c14.setup(h, case)
    q = h.path('out.dmap')
    kw = {'scaling_factor': scale} if scale != 1 else {}
    sid = recs[list(recs)[0]].get('slice_id')
    if sid is None or h.branch(h.bool('slice id given', False)):
        kw['borealis_slice_id'] = h.int('slice', 0, 100)
        if sid is None:
            sid = kw['borealis_slice_id']
    o, log = K.run(h, p, case['ft'], q, **kw)
    h.check(o.ok, 'convertible records are converted (%s)' % o.name)
    c = o.value
    got = K.written(h, 'out.dmap', log)
    h.check(same(c.borealis_slice_id, sid), 'the slice id is that of the records, or the one given where they have none')
    h.check(c.scaling_factor == scale, 'the scaling factor')
    h.check(c.sdarn_filetype == {'rawacf': 'rawacf', 'bfiq': 'iqdat'}[case['ft']], 'the SuperDARN file type')
    h.check(c.sdarn_filename == q and c.filename == p and c.borealis_filename == p, 'the file names')
    h.check(c.borealis_filetype == case['ft'] and c.borealis_file_structure == case['structure'], 'type and structure of the source')
    plain, ds = list(c.sdarn_dict), list(c.sdarn_dmap_records)
    h.check(len(plain) == len(ds) == len(got), 'as many dictionaries and structures as records written')
    structures(h, ds, plain, 'the structures')
    for g, d in zip(got, plain):
        h.check(sorted(g) == sorted(d), 'the fields written')
        for f, v in d.items():
            x = g[f]
            if not h.sym and not isinstance(v, np.ndarray):
                v = D.as_read(D.FMT.get(type(v).__name__, type(v).__name__), v) if not isinstance(v, str) else v
                h.check(type(x) in (int, float, str) or type(x) is type(v), 'type written of ' + f)
                h.check(x == v or (x != x and v != v), 'value written of ' + f)
            else:
                h.check(D.array_same(h, x, v) if isinstance(v, np.ndarray) else same(x, v), 'value written of ' + f)
    exp = B.to_arrays(h, fmt, recs)
    x = h.call(lambda: c.records)
    h.check(x.ok, 'records of the source (%s)' % x.name)
    B.check_records(h, x.value, recs, 'records of the source')
    x = h.call(lambda: c.arrays)
    h.check(x.ok, 'arrays of the source (%s)' % x.name)
    B.check_fields(h, x.value, exp, 'arrays of the source')
    printed(h, c, q)
    h.cover('converted')
