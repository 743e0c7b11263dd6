"""C21: refused operations leave every file as it was."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import _conv as K
from . import _dmap as D
from . import _sdarn as S
from . import c02, c05, c07, c11, c16

BOUNDS = ('output files that exist: any 8 bytes (DMAP and SuperDARN), HDF5 files with other records or arrays of any values; DMAP '
          'records refused for a value that is no DMAP structure or cannot be encoded, at each place of up to 3 records; SuperDARN records '
          'of every type, any subset of fields and any data types; Borealis records of every version and type with any subset of '
          'fields or any data types, array data with any subset of fields; restructuring of files of which any field is missing, or of '
          'unknown version, or of the other structure; conversions refused for blanked samples, phase offsets, slice id and type')
OUTSIDE = 'refusals because the output holds records of the same names already (Borealis files are appended to); failures of the file system'
COVERS = ['dmap refused', 'darn refused', 'site refused', 'array refused', 'restructure refused', 'convert refused', 'replaced']
OPTS = {'validate': 3}
BUDGET = {'quick': 420, 'thorough': 800}


def cases(tier):
    full = tier != 'quick'
    out = []
    for n in (1, 2, 3):
        for via in ('dict', 'dmap'):
            out.append({'dmap': via, 'n': n})
    for ft in S.TYPES:
        out.append({'darn': ft, 'recs': ['sym']})
        out.append({'darn': ft, 'recs': ['valid', 'sym']})
        if full:
            out.append({'darn': ft, 'recs': ['valid', 'valid', 'sym']})
    for ver in B.VERSIONS if not full else list(B.RELEASES):
        for ft in B.FTYPES:
            for k in ('presence', 'types'):
                for named in (True, False)[:1 + (k == 'presence')]:
                    out.append({'site': True, 'ver': ver, 'ft': ft, 'k': k, 'named': named})
        for ft in B.DIM_FTYPES:
            out.append({'array': True, 'ver': ver, 'ft': ft})
            for to in ('site', 'array'):
                if full or ver in ('v0.4', 'v0.7'):
                    out.append({'restructure': True, 'ver': ver, 'ft': ft, 'to': to})
        for ft in ('rawacf', 'bfiq', 'antennas_iq'):
            for st in ('site', 'array'):
                for n in (1, 2)[:1 + full]:
                    out.append({'convert': True, 'ver': ver, 'ft': ft, 'structure': st, 'n': n, 'P': 2})
    return out


def harness(h, case):
    for k in ('dmap', 'darn', 'site', 'array', 'restructure', 'convert'):
        if k in case:
            return globals()[k](h, case)


def dmap(h, case):
    """one record cannot be written"""
    L = h.lib
    n, via = case['n'], case['dmap']
    old = h.byts('old', 8)
    p = h.put('out.dmap', old)
    b = c02.build(h, {'order': [('s', 'i'), ('a', 'f', (2,)), ('s', 's')], 'nrec': n, 'via': via})
    recs = [x[0] for x in b]
    at = h.choose('bad record', 0, n - 1)
    if via == 'dmap':
        # not a structure, characters as text, texts in an array
        bad = h.pick('bad', ['plain', 'char', 'char array', 'text array'])
        v = {'plain': 3, 'char': L.DmapScalar('bad', 'x', 1, 'c'), 'char array': L.DmapArray('bad', h.const(np.array(['a', 'b'])), 1, 'c', 1, [2]),
             'text array': L.DmapArray('bad', h.const(np.array(['a', 'b'])), 9, 's', 1, [2])}[bad]
    else:
        bad = h.pick('bad', ['none', 'dict', 'complex'])
        v = {'none': None, 'dict': {}, 'complex': 1 + 2j}[bad]
    recs[at]['bad'] = v

    def go():
        w = L.DmapWrite(recs, p)
        w.write_dmap()
    o = h.call(go)
    h.note(o.ok)
    h.check(not o.ok, 'the records are refused')
    h.check(h.get('out.dmap') == old, 'the file that was there is unchanged')
    h.check(h.files() == ['out.dmap'], 'no other file is written')
    h.cover('dmap refused')
    # the records without it are written and replace what was there
    del recs[at]['bad']
    o = h.call(go)
    h.check(o.ok, 'good records are written (%s)' % o.name)
    h.check(h.get('out.dmap') == D.fin(h, sum([D.enc_record(h, x[1], x[2]) for x in b], [])), 'the file holds the records only')
    h.cover('replaced')


def darn(h, case):
    ft = case['darn']
    old = h.byts('old', 8)
    p = h.put('out.dmap', old)
    recs = c05.make(h, {'ft': ft, 'recs': case['recs']})
    w = h.call(h.lib.SDarnWrite, [r.d for r in recs], p)
    h.check(w.ok, 'the writer is made (%s)' % w.name)
    if h.sym:
        c05.summarise(h, w.value, recs)
    o = h.call(getattr(w.value, 'write_' + ft))
    h.note(o.name)
    h.check(h.files() == ['out.dmap'], 'no other file is written')
    if o.ok:
        h.cover('replaced')
        return
    h.check(h.get('out.dmap') == old, 'the file that was there is unchanged')
    h.cover('darn refused')


def old_file(h, fmt, structure='site', name='out.hdf5'):
    """a file with data of another time; what it holds"""
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)], times=[1300000000.5], prefix='old.')
    if structure == 'site' or fmt.ft == 'rawrf':
        B.put_site(h, name, recs)
        return lambda: B.check_records(h, B.get_site(h, name), recs, 'the file that was there')
    a = B.to_arrays(h, fmt, recs)
    B.put_arrays(h, name, a)
    return lambda: B.check_fields(h, B.get_arrays(h, name), a, 'the file that was there')


def site(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    kept = old_file(h, fmt, h.pick('old', ['site', 'array']) if case['k'] == 'presence' else 'site')
    names = [B.recname(t) for t in B.TIMES[:2]]
    recs = [c07.Rec(h, fmt, 'r%d' % i, case['k'] if i else 'valid', False, i == 0) for i in range(2)]
    val = OrderedDict((n, r.d) for n, r in zip(names, recs))
    h.assume(h.Not(recs[1].ok()))
    o = h.call(h.lib.BorealisWrite, h.path('out.hdf5'), val, case['ft'], *(['site'] if case['named'] else []))
    h.note(o.name)
    h.check(not o.ok, 'records that have not the fields of the format are refused')
    h.check(h.files() == ['out.hdf5'], 'no other file is written')
    kept()
    h.cover('site refused')


def array(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    kept = old_file(h, fmt, h.pick('old', ['site', 'array']))
    arrays = B.to_arrays(h, fmt, B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)] * 2))
    items = [(f, h.bool(f + '?', True) if f != 'borealis_git_hash' else True, v) for f, v in arrays.items()]
    how = h.pick('bad', ['missing', 'extra', 'type', 'count'])
    if how == 'missing':
        h.assume(h.Not(h.And(*[p for _, p, _ in items])))
    else:
        items = [(f, True, v) for f, _, v in items]
        if how == 'extra':
            items.append(('not_a_field', True, np.int64(1)))
        else:
            fs = fmt.shared if how == 'type' else [f for f in fmt.unshared if f not in fmt.array_only]
            f = fs[h.choose('field', 0, len(fs) - 1)]
            if f == 'borealis_git_hash':
                return
            if how == 'type':
                items = [(k, p, (np.complex128(1) if f in fmt.array_attrs else h.const(np.array([1j, 2j]))) if k == f else v) for k, p, v in items]
            else:
                items = [(k, p, v[:1] if k == f else v) for k, p, v in items]
    o = h.call(h.lib.BorealisWrite, h.path('out.hdf5'), h.gdict(items, base=dict), case['ft'], 'array')
    h.note(o.name)
    h.check(not o.ok, 'arrays that have not the fields of the format are refused')
    h.check(h.files() == ['out.hdf5'], 'no other file is written')
    kept()
    h.cover('array refused')


def restructure(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    to_array = case['to'] == 'array'
    kept = old_file(h, fmt, case['to'])
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1), dict(seqs=2, beams=2, blank=2)])
    how = h.pick('bad', ['missing', 'version', 'type', 'structure'])
    if how == 'version':
        v = h.pick('hash', ['v0.9-1-gabc', 'abc', 'v1.0'])
        for r in recs.values():
            r['borealis_git_hash'] = v
    elif how == 'missing':
        fields = [f for f in fmt.shared + fmt.unshared if f != 'borealis_git_hash']
        f = fields[h.choose('field', 0, len(fields) - 1)]
    if to_array:
        if how == 'missing':
            at = h.choose('record', 0, 1) if f in fmt.unshared else 0
            del list(recs.values())[at][f]
        p = B.put_site(h, 'in.hdf5', recs)
        before = B.snapshot(recs)
    else:
        arrays = B.to_arrays(h, fmt, recs)
        if how == 'missing':
            del arrays[f]
        p = B.put_arrays(h, 'in.hdf5', arrays)
        before = B.snapshot(arrays)
    o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), 'rawrf' if how == 'type' else case['ft'],
               'arrays' if how == 'structure' else case['to'])
    h.note(o.name)
    h.check(not o.ok, 'the file cannot be restructured')
    h.check(h.files() == ['in.hdf5', 'out.hdf5'], 'no other file is written')
    kept()
    if to_array:
        B.check_records(h, B.get_site(h, 'in.hdf5'), before, 'the input file')
    else:
        B.check_fields(h, B.get_arrays(h, 'in.hdf5'), before, 'the input file')
    h.cover('restructure refused')


def convert(h, case):
    fmt, recs = c16.setup(h, case)
    site = case['structure'] == 'site'
    val = recs if site else B.to_arrays(h, fmt, recs)
    p = (B.put_site if site else B.put_arrays)(h, 'in.hdf5', val)
    before = B.snapshot(val)
    old = h.byts('old', 8)
    q = h.put('out.dmap', old)
    kw = {'borealis_slice_id': 0} if h.branch(h.bool('slice id given', True)) else {}
    o, log = K.run(h, p, case['ft'], q, **kw)
    h.note(o.name)
    h.check(h.files() == ['in.hdf5', 'out.dmap'], 'no other file is written')
    if site:
        B.check_records(h, B.get_site(h, 'in.hdf5'), before, 'the input file')
    else:
        B.check_fields(h, B.get_arrays(h, 'in.hdf5'), before, 'the input file')
    if o.ok:
        h.check(len(K.written(h, 'out.dmap', log)) == len(recs), 'the file holds the converted records only')
        h.cover('replaced')
        return
    h.check(h.get('out.dmap') == old, 'the file that was there is unchanged')
    h.cover('convert refused')
