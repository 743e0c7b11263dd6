"""C08: Borealis array-structured data are accepted exactly when they have the fields of their format."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from .c07 import SCALARS, kind_of

BOUNDS = ('formats v0.4-v0.7 (all releases in the thorough tier), the three restructurable file types; every field '
          'independently present or absent (all 2^n subsets), two unknown fields, every field of any of the listed data types '
          'and kinds (Python and numpy scalars, text, bytes, lists, None, arrays of every numeric, text and bytes type); '
          'every per-record field with 0, 2 or 3 records or without dimensions, independently; values concrete')
OUTSIDE = ('rawrf, which has no array structure; more than two unknown fields; HDF5 empty attributes; phase offsets of shape '
           '(2,) that are not 32-bit floats (the h5py form of missing offsets, tolerated); the lengths of the count fields')
COVERS = ['accepted', 'missing', 'extra', 'types', 'structure', 'counts']
OPTS = {'validate': 3}
EXTRA = ['not_a_field', 'main_acf']
BUDGET = {'quick': 420, 'thorough': 780}


def cases(tier):
    out = []
    for ver in B.VERSIONS if tier == 'quick' else list(B.RELEASES):
        for ft in B.DIM_FTYPES:
            for d in ('write', 'read'):
                for k in ('presence', 'types', 'counts') + (('all',) if tier != 'quick' else ()):
                    out.append({'ver': ver, 'ft': ft, 'dir': d, 'kind': k})
    return out


def ok_types(ty):
    """dtypes of the arrays that hold a field of type ty"""
    return {str: [np.str_], np.str_: [np.str_], np.bytes_: [np.bytes_, np.str_]}.get(ty, [ty])


def arr(ty, shape):
    t = ok_types(ty)[0]
    if t in (np.str_, np.bytes_):
        a = np.array(['ab', 'c', 'd'], dtype='U' if t is np.str_ else 'S')
    else:
        a = np.arange(1, 4).astype(t)
    return np.resize(a, shape) if 0 not in shape else np.zeros(shape, dtype=a.dtype)


def alternatives(h, f, ty, attr, good, reading):
    shape = (2, 1) if f == 'pulse_phase_offset' else (2,)
    arrs = [arr(t, shape) for t in (np.int64, np.uint32, np.uint8, np.int16, np.float32, np.float64, np.complex64, np.bool_,
                                    np.int32, np.complex128, np.str_, np.bytes_)]
    if attr:
        arrs.append(arr(ty, shape))
    others = arrs + SCALARS + ['text']
    if not reading:
        others = others + [3, 2.5, True, None, [1, 2], b'text', np.bytes_(b'text'), np.str_('text'), 1 + 2j]
    alts = [good]
    for v in others:
        right = kind_of(v) == ('one', ty) if attr else isinstance(v, np.ndarray) and v.dtype.type in ok_types(ty)
        if not right and not any(kind_of(v) == kind_of(x) for x in alts):
            alts.append(v)
    return [h.const(v) if isinstance(v, np.ndarray) else v for v in alts]


def harness(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    reading = case['dir'] == 'read'
    kind = case['kind']
    present, sel, cnt, items, alts_of = OrderedDict(), OrderedDict(), OrderedDict(), [], {}
    for f in fmt.arrays:
        attr = f in fmt.array_attrs
        ty = fmt.array_attrs[f] if attr else fmt.array_data[f]
        if attr:
            v = B.HASH[fmt.ver] if f == 'borealis_git_hash' else 'text' if ty is str else ty(2)
        else:
            v = h.const(arr(ty, (2, 1) if f == 'pulse_phase_offset' else (2,)))
        alts = [v]
        p = h.bool(f + '?', True) if kind in ('presence', 'all') and f != 'borealis_git_hash' else True
        if kind in ('types', 'all') and f != 'borealis_git_hash':
            alts = alternatives(h, f, ty, attr, v, reading)
            sel[f] = f + ':'
        elif kind == 'counts' and f in fmt.unshared:
            shapes = [(2, 1), (3, 1), (0, 1)] + ([] if reading else [()])
            alts = [h.const(arr(ty, s)) for s in shapes]
            cnt[f] = f + ':'
        alts_of[f] = alts
        present[f] = p
        items.append((f, p, h.upick(f + ':', alts)))
    for e in EXTRA:
        p = h.bool(e + '?', False) if kind in ('presence', 'all') else False
        present[e] = p
        items.append((e, p, np.int64(1)))
    missing = [(f, h.Not(present[f])) for f in fmt.arrays]
    extra = [(e, present[e]) for e in EXTRA]
    idx = {f: h.index_of(s) for f, s in list(sel.items()) + list(cnt.items())}
    bad = [(f, h.And(present[f], h.Not(idx[f] == 0))) for f in sel]
    place = [h.Or(*[idx[f] == i for i, v in enumerate(alts_of[f]) if isinstance(v, np.ndarray) == (f in fmt.array_attrs)] + [False])
             for f in sel]
    first = idx[next(iter(cnt))] if cnt else 0
    counts = h.Or(*[h.Or(h.Not(idx[f] == first), idx[f] == 3) for f in cnt] + [False])

    def any_(w):
        return h.Or(*[c for _, c in w])
    if reading:
        o = read(h, fmt, items)
    else:
        p = h.path('out.hdf5')
        o = h.call(h.lib.BorealisWrite, p, h.gdict(items, base=dict), case['ft'], 'array')
    h.note(o.name)
    if not o.ok and not reading:
        h.check(h.files() == [], 'refused data leave no file')
    if h.branch(any_(missing)):
        h.check(o.name == 'BorealisFieldMissingError', 'missing fields are reported as such (%s)' % o.name)
        h.check(h.set_same(o.exc.fields, h.gset(missing)), 'the missing fields are named exactly')
        h.cover('missing')
    elif h.branch(any_(extra)):
        h.check(o.name == 'BorealisExtraFieldError', 'unknown fields are reported as such (%s)' % o.name)
        h.check(h.set_same(o.exc.fields, h.gset(extra)), 'the unknown fields are named exactly')
        h.cover('extra')
    elif h.branch(h.Or(*place + [False])):
        h.check(o.name == 'BorealisStructureError', 'an array for a single value, or the reverse, is a structure error (%s)' % o.name)
        h.cover('structure')
    elif h.branch(any_(bad)):
        h.check(o.name == 'BorealisDataFormatTypeError', 'other data types are reported as such (%s)' % o.name)
        h.check(h.set_same(o.exc.incorrect_types, h.gset(bad)), 'the fields of other types are named exactly')
        h.cover('types')
    elif h.branch(counts):
        h.check(o.name == 'BorealisNumberOfRecordsError', 'different numbers of records are reported as such (%s)' % o.name)
        h.cover('counts')
    else:
        h.check(o.ok, 'data with exactly the fields of the format are accepted (%s)' % o.name)
        if not reading:
            exp = OrderedDict((f, alts_of[f][int(idx[f])] if f in idx else alts_of[f][0]) for f in fmt.arrays)
            B.check_fields(h, B.get_arrays(h, 'out.hdf5'), exp, 'the file')
        h.cover('accepted')


def read(h, fmt, items):
    """see c07.read"""
    p = h.path('in.hdf5')
    if not h.sym:
        B.put_arrays(h, 'in.hdf5', OrderedDict((f, v) for f, q, v in items if q))
        return h.call(h.lib.BorealisRead, p, fmt.ft, 'array')
    B.put_arrays(h, 'in.hdf5', {'borealis_git_hash': B.HASH[fmt.ver]})
    cls = B.fmt_of(h, fmt)
    d = h.gdict(items)
    cls.read_arrays = classmethod(lambda c, fn: d)
    try:
        return h.call(h.lib.BorealisRead, p, fmt.ft, 'array')
    finally:
        del cls.read_arrays
