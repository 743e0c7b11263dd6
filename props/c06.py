"""C06: the SuperDARN reader accepts exactly the records its file types define."""
import numpy as np
from . import _sdarn as S
from . import _dmap as D

BOUNDS = ('all six file types; 1-3 records, or 12 of which one is symbolic; in the symbolic record(s) every field is independently present or absent (all '
          '2^n subsets with at least one scalar and one array, which the DMAP reader demands), two unknown fields may be '
          'present, and every field takes any of the 11 DMAP types (strings not in arrays); field values concrete')
OUTSIDE = ('more than two unknown fields; fields given as array where the format has a scalar; in symbolic runs the parsing of '
           'one record (C03) and the conversion of accepted records to dictionaries (C04) are taken as decided there, except '
           'in the cases that go through the real bytes (kind groups)')
COVERS = ['accepted', 'refused']
OPTS = {'validate': 6}


def cases(tier):
    out = []
    for ft in S.TYPES:
        out.append({'ft': ft, 'recs': ['groups']})
        out.append({'ft': ft, 'recs': ['written']})
        out.append({'ft': ft, 'recs': ['sym']})
        out.append({'ft': ft, 'recs': ['valid', 'sym']})
        out.append({'ft': ft, 'recs': ['sym', 'valid']})
        out.append({'ft': ft, 'recs': ['presence', 'presence']})
        out.append({'ft': ft, 'recs': ['valid'] * 11 + ['sym']})
        if tier == 'thorough':
            out.append({'ft': ft, 'recs': ['sym'] + ['valid'] * 11})
            out.append({'ft': ft, 'recs': ['sym', 'sym']})
            out.append({'ft': ft, 'recs': ['valid', 'valid', 'sym']})
            out.append({'ft': ft, 'recs': ['valid', 'presence', 'sym']})
    return out


class Marker(list):
    pass


def summarise(h, r, recs):
    """symbolic runs: record parsing hands out the symbolic records one by one"""
    def read_record():
        i = r.cursor
        r.cursor = i + 1
        return recs[i].d
    r.read_record = read_record
    mod = h.mod('pydarnio.dmap.superdarn')
    old = mod.dmap2dict
    mod.dmap2dict = lambda x: Marker(x)
    return lambda: setattr(mod, 'dmap2dict', old)


def harness(h, case):
    ft = case['ft']
    kinds = case['recs']
    if kinds == ['written']:
        return written(h, ft)
    recs = [S.Rec(h, ft, 'r%d' % i, k) for i, k in enumerate(kinds)]
    for r in recs:
        h.assume(r.has_scalar_and_array())
    short = h.sym and kinds != ['groups']
    if short:
        data = b'\0' * len(recs)
    else:
        data = D.fin(h, sum([r.bytes() for r in recs], []))
    rd = h.call(h.lib.SDarnRead, data, True)
    h.check(rd.ok, 'the stream is opened (%s)' % rd.name)
    undo = summarise(h, rd.value, recs) if short else (lambda: None)
    try:
        o = h.call(getattr(rd.value, 'read_' + ft))
    finally:
        undo()
    h.note(o.name)
    if o.ok:
        for r in recs:
            h.check(r.ok(), 'what is returned satisfies the field rules')
        h.check(len(o.value) == len(recs), 'every record is returned')
        if short:
            if type(o.value) is Marker:
                for a, r in zip(o.value, recs):
                    h.check(a is r.d, 'the records are returned in order')
        else:
            for a, r in zip(o.value, recs):
                h.check(list(a) == r.order(), 'the record has its fields')
                for k in a:
                    h.check(equal(a[k], r.plain(k)), 'the fields have their values')
        h.cover('accepted')
        return
    h.check(o.isa('SuperDARNExtraFieldError', 'SuperDARNFieldMissingError', 'SuperDARNDataFormatTypeError'),
            'refused with a SuperDARN field error (%s)' % o.name)
    num = int(o.exc.record_number)
    h.check(0 <= num < len(recs), 'the error carries a record number')
    for r in recs[:num]:
        h.check(r.ok(), 'the records before the reported one are good')
    S.check_error(h, o.exc, recs[num], num)
    h.cover('refused')


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(np.asarray(a) == b))
    return not isinstance(a, np.ndarray) and bool(a == b)


def written(h, ft):
    """what the writer of a type writes, its reader accepts"""
    r = S.Rec(h, ft, 'r0', 'groups')
    w = h.call(h.lib.SDarnWrite, [r.d])
    p = h.path('out.' + ft)
    o = h.call(getattr(w.value, 'write_' + ft), p)
    h.check(o.ok, 'a valid record is written (%s)' % o.name)
    rd = h.call(h.lib.SDarnRead, p)
    h.check(rd.ok, 'the written file can be opened (%s)' % rd.name)
    o = h.call(getattr(rd.value, 'read_' + ft))
    h.note(o.name)
    h.check(o.ok, 'the reader accepts what the writer wrote (%s)' % o.name)
    h.check(len(o.value) == 1 and list(o.value[0]) == r.order(), 'the record has its fields')
    h.cover('accepted')
