"""C05: the SuperDARN writer accepts exactly the records its file types define."""
import numpy as np
from . import _sdarn as S
from . import _dmap as D

BOUNDS = ('all six file types; 1-3 records, or 12 of which one is symbolic; in the symbolic record(s) every field is independently present or absent (all '
          '2^n subsets), two unknown fields may be present, and every field takes any of the 11 DMAP types (strings not in '
          'arrays); field values concrete')
OUTSIDE = 'more than two unknown fields; fields given as array where the format has a scalar (the format does not define it)'
COVERS = ['accepted', 'refused']
OPTS = {'validate': 6}


def cases(tier):
    out = []
    for ft in S.TYPES:
        out.append({'ft': ft, 'recs': ['groups']})
        out.append({'ft': ft, 'recs': ['sym']})
        out.append({'ft': ft, 'recs': ['valid', 'sym']})
        out.append({'ft': ft, 'recs': ['sym', 'valid']})
        out.append({'ft': ft, 'recs': ['presence', 'presence']})
        out.append({'ft': ft, 'recs': ['valid'] * 11 + ['sym']})
        if tier == 'thorough':
            out.append({'ft': ft, 'recs': ['sym'] + ['valid'] * 11})
            out.append({'ft': ft, 'recs': ['sym', 'sym']})
            out.append({'ft': ft, 'recs': ['valid', 'valid', 'sym']})
            out.append({'ft': ft, 'recs': ['valid', 'presence', 'sym']})
    return out


def make(h, case):
    recs = []
    for i, k in enumerate(case['recs']):
        recs.append(S.Rec(h, case['ft'], 'r%d' % i, k))
    # an empty record is no record
    for r in recs:
        h.assume(h.Or(*[p for p in r.present.values()]))
    return recs


def summarise(h, w, recs):
    """symbolic runs: the serialisation of one record (decided by C01 and C03 for
    every record) is replaced by a marker, so that it need not be enumerated for
    every subset of optional fields.  Concrete runs use the real one."""
    calls = []

    def marker(record):
        k = [i for i, r in enumerate(recs) if r.d is record]
        calls.append(k[0] if k else -1)
        w.dmap_bytearr.extend(b'<%d>' % calls[-1])
    w._dmap_record_to_bytes = marker
    return calls


def harness(h, case):
    ft = case['ft']
    recs = make(h, case)
    w = h.call(h.lib.SDarnWrite, [r.d for r in recs])
    h.check(w.ok, 'records of DMap structures are accepted for checking (%s)' % w.name)
    p = h.path('out.' + ft)
    calls = summarise(h, w.value, recs) if h.sym and case['recs'] != ['groups'] else None
    o = h.call(getattr(w.value, 'write_' + ft), p)
    h.note(o.name)
    if o.ok:
        for r in recs:
            h.check(r.ok(), 'what is written satisfies the field rules')
        got = h.get('out.' + ft)
        h.check(got is not None, 'the file exists')
        if calls:
            exp = b''.join(b'<%d>' % i for i in range(len(recs)))
        else:
            exp = []
            for r in recs:
                exp += r.bytes()
            exp = D.fin(h, exp)
        h.check(len(got) == len(exp), 'the file is the DMAP encoding of the records')
        h.check(got == exp, 'the file is the DMAP encoding of the records')
        h.cover('accepted')
        return
    h.check(o.isa('SuperDARNExtraFieldError', 'SuperDARNFieldMissingError', 'SuperDARNDataFormatTypeError'),
            'refused with a SuperDARN field error (%s)' % o.name)
    num = o.exc.record_number
    num = int(num)
    h.check(0 <= num < len(recs), 'the error carries a record number')
    for r in recs[:num]:
        h.check(r.ok(), 'the records before the reported one are good')
    S.check_error(h, o.exc, recs[num], num)
    h.check(h.get('out.' + ft) is None, 'nothing is written when a record is refused')
    h.cover('refused')
