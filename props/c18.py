"""C18: writers refuse to write nothing or nowhere; inputs are not overwritten."""
from collections import OrderedDict, deque
import os
import pathlib
import numpy as np
from . import _bor as B
from . import _conv as K
from . import _dmap as D
from . import _sdarn as S
from . import c02
from . import c16

BOUNDS = ('DMAP and SuperDARN writers of every file type, with and without file name in the constructor, followed by up to 3 '
          '(thorough: 4) calls each with or without a name (plain or pathlib); records given as list, deque, tuple or not at all, plain or as '
          'DMap structures, values symbolic; files and streams of 0-3 arbitrary bytes for every DMAP reader; empty and '
          'zero-byte HDF5 files and empty data for every Borealis reader and writer; input names respelled (dots, doubled '
          'slashes, relative, symbolic links) for restructuring and conversion, contents symbolic')
OUTSIDE = 'hard links; names that are no texts or paths; names the operating system refuses'
COVERS = ['no name', 'no records', 'written', 'empty input', 'input opened', 'kept', 'distinct']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}

EMPTY = ['list', 'deque', 'tuple', 'none']


def cases(tier):
    full = tier != 'quick'
    out = []
    calls = 4 if full else 3
    for op in ['write_dmap', 'write_dmap_stream']:
        out += [{'w': 'dmap', 'op': op, 'empty': True, 'calls': calls}, {'w': 'dmap', 'op': op, 'empty': False, 'calls': calls}]
        out += [{'w': 'dmap', 'op': op, 'empty': False, 'calls': 2, 'dmap': True}]
    for ft in S.TYPES:
        out += [{'w': ft, 'op': 'write_' + ft, 'empty': e, 'calls': calls} for e in (True, False)]
    for rd in ['dmap'] + S.TYPES:
        out += [{'r': rd, 'n': n, 'stream': st} for n in range(0, 4) for st in (False, True)]
    for ft in B.FTYPES:
        out += [{'borealis': op, 'ft': ft} for op in ('read', 'write')]
    for ver in B.VERSIONS if full else ['v0.4', 'v0.6', 'v0.7']:
        for ft in B.DIM_FTYPES:
            for st in ('site', 'array'):
                out.append({'over': 'restructure', 'ver': ver, 'ft': ft, 'structure': st, 'n': 1, 'P': 1})
                if ft in ('rawacf', 'bfiq'):
                    out.append({'over': 'convert', 'ver': ver, 'ft': ft, 'structure': st, 'n': 1, 'P': 1})
    return out


def harness(h, case):
    if 'w' in case:
        writer(h, case)
    elif 'r' in case:
        reader(h, case)
    elif 'borealis' in case:
        borealis(h, case)
    else:
        over(h, case)


def nothing(h):
    return {'list': [], 'deque': deque(), 'tuple': (), 'none': None}[h.pick('empty', EMPTY)]


def writer(h, case):
    """a writer and a few calls with or without a name"""
    L = h.lib
    sd = case['w'] != 'dmap'
    if case['empty']:
        recs, exp = nothing(h), None
    elif sd:
        r = [S.Rec(h, case['w'], 'r%d' % i, 'valid') for i in range(2)]
        recs, exp = [x.d for x in r], sum([x.bytes() for x in r], [])
    else:
        b = c02.build(h, {'order': [('s', 'i'), ('a', 'f', (2,)), ('s', 's')], 'nrec': 2, 'via': 'dmap' if case.get('dmap') else 'dict'})
        recs, exp = [x[0] for x in b], sum([D.enc_record(h, x[1], x[2]) for x in b], [])
    if recs is not None and recs != [] and type(recs) is list and h.bool('deque', False):
        recs = deque(recs)
    name = h.pick('constructor name', ['', 'a.dmap'])
    args = [] if recs is None else [recs]
    if name:
        o = h.call(L.SDarnWrite if sd else L.DmapWrite, *args, filename=h.path(name))
    else:
        o = h.call(L.SDarnWrite if sd else L.DmapWrite, *args)
    h.note(o.name)
    if sd and case['empty']:
        h.check(o.name == 'DmapDataError', 'an empty record list is refused (%s)' % o.name)
        h.check(h.files() == [], 'no file is written')
        h.cover('no records')
        return
    h.check(o.ok, 'the writer is made (%s)' % o.name)
    w = o.value
    files = []
    for i in range(case['calls']):
        arg = h.pick('call %d' % i, ['', 'b.dmap', 'c d.e', 'path', 'stream', 'given'][:6 if case['op'] == 'write_dmap_stream' else 4])
        if case['op'] == 'write_dmap_stream' and arg in ('stream', 'given'):
            if arg == 'given' and not case.get('dmap'):
                b = built(h, i) if case['empty'] else []
                o = h.call(w.write_dmap_stream, [x[0] for x in b])
                if case['empty'] and exp is None:
                    # the records of the call become those of the writer
                    exp = sum([D.enc_record(h, x[1], x[2]) for x in b], [])
            else:
                o = h.call(w.write_dmap_stream)
            h.note(o.name)
            if exp is None:
                h.check(o.name == 'DmapDataError', 'an empty record list is refused (%s)' % o.name)
                h.cover('no records')
            else:
                h.check(o.ok, 'the stream is written (%s)' % o.name)
                h.check(o.value == D.fin(h, exp), 'the stream is the encoding of the records')
        else:
            op = 'write_dmap' if case['op'] == 'write_dmap_stream' else case['op']
            p = '' if arg == '' else pathlib.Path(h.path('p.dmap')) if arg == 'path' else h.path(arg)
            o = h.call(getattr(w, op), p) if arg else h.call(getattr(w, op))
            h.note(o.name)
            if arg:
                name = 'p.dmap' if arg == 'path' else arg
            if name == '' or exp is None:
                h.check(o.name in ('FilenameRequiredError',) * (name == '') + ('DmapDataError',) * (exp is None),
                        'a missing name or an empty record list is refused (%s)' % o.name)
                h.cover('no name' if name == '' else 'no records')
            else:
                h.check(o.ok, 'the file is written (%s)' % o.name)
                files = sorted(set(files) | {name})
                h.check(h.get(name) == D.fin(h, exp), 'the file is the encoding of the records')
                h.cover('written')
        h.check(h.files() == files, 'the files are those written')


def built(h, i):
    """a record with one scalar, as c02.build makes them"""
    v, _ = D.scalar(h, 'given%d' % i, 'h')
    return [({'fld': v}, [('fld', 'h', v)], [])]


def reader(h, case):
    n = case['n']
    data = h.byts('bytes', n)
    cls = h.lib.DmapRead if case['r'] == 'dmap' else h.lib.SDarnRead
    if case['stream']:
        o = h.call(cls, data, True)
    else:
        o = h.call(cls, h.put('in.dmap', data))
    h.note(o.name)
    if n == 0:
        h.check(o.name == 'EmptyFileError', 'an empty file or stream is refused (%s)' % o.name)
        h.cover('empty input')
        return
    h.check(o.ok, 'a file or stream that is not empty is opened (%s)' % o.name)
    o = h.call(getattr(o.value, 'read_records' if case['r'] == 'dmap' else 'read_' + case['r']))
    h.check(not o.ok, 'fewer bytes than a header are no record')
    h.cover('input opened')


def borealis(h, case):
    """empty data and files"""
    ft = case['ft']
    a = h.pick('structure', [(), ('site',), ('array',)])
    if case['borealis'] == 'write':
        name = h.pick('name', ['out.hdf5', ''])
        val = h.pick('data', [{}, OrderedDict()])
        if name == '' and h.bool('filled', True):
            # data, but no name
            fmt = B.Fmt('v0.6', ft)
            val = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1)])
            if a == ('array',):
                if ft == 'rawrf':
                    return
                val = B.to_arrays(h, fmt, val)
            o = h.call(h.lib.BorealisWrite, '', val, ft, *a)
        else:
            o = h.call(h.lib.BorealisWrite, h.path(name) if name else name, val, ft, *a)
            h.check(o.name == 'BorealisStructureError', 'empty data are refused (%s)' % o.name)
        h.note(o.ok)
        h.check(not o.ok, 'nothing is written nowhere')
        h.check(h.files() == [], 'no file is written')
        h.cover('no records')
        return
    if h.bool('zero bytes', False):
        p = h.put('in.hdf5', b'')
        o = h.call(h.lib.BorealisRead, p, ft, *a)
        h.check(o.isa('OSError'), 'an empty file is refused (%s)' % o.name)
    else:
        p = B.put_site(h, 'in.hdf5', {})
        o = h.call(h.lib.BorealisRead, p, ft, *a)
        h.check(o.name == 'BorealisStructureError', 'a file without records is refused (%s)' % o.name)
    h.note(o.name)
    h.check(h.files() == ['in.hdf5'], 'no file is written')
    h.cover('empty input')


SPELL = ['same', './', '//', 'up', 'relative', 'relative both', 'link', 'in is link', 'Path', 'other', 'other link']


def over(h, case):
    fmt, recs = c16.setup(h, dict(case, types=True))
    val = recs if case['structure'] == 'site' else B.to_arrays(h, fmt, recs)
    p = (B.put_site if case['structure'] == 'site' else B.put_arrays)(h, 'in.hdf5', val)
    before = None if h.sym else h.get('in.hdf5')
    d = os.path.dirname(p)
    how = h.pick('output', SPELL)
    q = {'same': p, './': d + '/./in.hdf5', '//': d + '//in.hdf5', 'up': d + '/../' + os.path.basename(d) + '/in.hdf5',
         'relative': 'in.hdf5', 'relative both': './in.hdf5', 'Path': pathlib.Path(p), 'other': h.path('In.hdf5'),
         'in is link': p}.get(how)
    left = ['in.hdf5']
    if how == 'relative both':
        p = 'in.hdf5'
    if how in ('link', 'other link', 'in is link'):
        left = sorted(left + ['link.hdf5'])
        if how == 'link':
            q = h.link('link.hdf5', 'in.hdf5')
        elif how == 'in is link':
            p = h.link('link.hdf5', 'in.hdf5')
        else:
            # a link as input, another file as output
            p, q = h.link('link.hdf5', 'in.hdf5'), h.path('out')
    if case['over'] == 'restructure':
        to = h.pick('to', ['site', 'array'])
        o = h.call(h.lib.BorealisRestructure, p, q, case['ft'], to)
        log = None
    else:
        kw = {} if 'slice_id' in fmt.single else {'borealis_slice_id': 0}
        o, log = K.run(h, p, case['ft'], q, **kw)
    h.note(o.name)
    if how.startswith('other'):
        out = 'In.hdf5' if how == 'other' else 'out'
        if o.ok and not (case['over'] == 'restructure' and to == case['structure']):
            left = sorted(left + [out])
        h.check(o.name != 'ConvertFileOverWriteError', 'another name is not the input')
        h.cover('distinct')
    else:
        h.check(o.name == 'ConvertFileOverWriteError', 'the input is not taken as output (%s)' % o.name)
        h.cover('kept')
    h.check(h.files() == left, 'no other file is written')
    if h.sym:
        site = case['structure'] == 'site'
        got = B.get_site(h, 'in.hdf5') if site else {'': B.get_arrays(h, 'in.hdf5')}
        B.check_records(h, got, val if site else {'': val}, 'the input file')
    else:
        h.check(h.get('in.hdf5') == before, 'the input file is as before')
