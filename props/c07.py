"""C07: Borealis site records are accepted exactly when they have the fields of their format."""
from collections import OrderedDict
import numpy as np
from symex.harness import SUnion
from . import _bor as B

BOUNDS = ('formats v0.4-v0.7 (all releases in the thorough tier), all four file types; one or two records (three in the '
          'thorough tier), or 12 of which two are symbolic; in the symbolic record every field is independently present or absent (all 2^n subsets), two '
          'unknown fields may be present, and every field takes any of the listed data types and kinds (Python and numpy '
          'scalars, text, bytes, lists, None, arrays of every numeric, text and bytes type); values concrete; the first '
          'record names its software version')
OUTSIDE = 'more than two unknown fields; HDF5 empty attributes; the version of the file (C13)'
COVERS = ['accepted', 'refused', 'all missing']
OPTS = {'validate': 3}
EXTRA = ['not_a_field', 'main_acf']
BUDGET = {'quick': 420, 'thorough': 780}


def cases(tier):
    out = []
    for ver in B.VERSIONS if tier == 'quick' else list(B.RELEASES):
        for ft in B.FTYPES:
            out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['presence', 'types']})
            out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['types', 'presence']})
            out.append({'ver': ver, 'ft': ft, 'dir': 'read', 'recs': ['presence', 'types']})
            if ver in ('v0.5', 'v0.7'):
                out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['valid'] * 10 + ['presence', 'types']})
                if ver == 'v0.7':
                    out.append({'ver': ver, 'ft': ft, 'dir': 'read', 'recs': ['valid'] * 10 + ['types', 'presence']})
            if tier != 'quick':
                out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['both']})
                out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['presence', 'both']})
                out.append({'ver': ver, 'ft': ft, 'dir': 'read', 'recs': ['both', 'both']})
                out.append({'ver': ver, 'ft': ft, 'dir': 'write', 'recs': ['presence', 'presence', 'types']})
    return out


SCALARS = [np.int64(3), np.uint32(3), np.uint8(3), np.int16(3), np.float32(1.5), np.float64(1.5), np.bool_(True), np.int32(3)]
ARRS = [np.array([1, 2], dtype=t) for t in (np.int64, np.uint32, np.uint8, np.int16, np.float32, np.float64, np.complex64,
                                            np.bool_, np.int32, np.complex128)]
TXT = [np.array(['ab', 'c']), np.array([b'ab', b'c'])]


def kind_of(v):
    return ('array', v.dtype.type) if isinstance(v, np.ndarray) else ('one', type(v))


def alternatives(h, ty, attr, good, reading):
    """the right value first, then values of every other data type and kind"""
    alts = [good]
    others = SCALARS + ['text'] + TXT + ARRS + [np.array(['x', 'y'] if ty is str else [1, 2], dtype=None if ty is str else ty)]
    if not reading:
        others = others + [3, 2.5, True, None, [1, 2], b'text', np.bytes_(b'text'), np.str_('text'), np.array(1.5), 1 + 2j]
    want = ('one' if attr else 'array', ty)
    for v in others:
        if kind_of(v) != want and not any(kind_of(v) == kind_of(x) for x in alts):
            alts.append(v)
    return [h.const(v) if isinstance(v, np.ndarray) else v for v in alts]


class Rec:
    def __init__(self, h, fmt, name, kind, reading, first):
        self.h, self.fmt = h, fmt
        base = fixed(h, fmt)
        self.present, self.sel = OrderedDict(), OrderedDict()
        items = []
        for f in fmt.site:
            nm = '%s.%s' % (name, f)
            attr = f in fmt.site_attrs
            ty = fmt.site_attrs[f] if attr else fmt.site_data[f]
            p = h.bool(nm + '?', True) if kind in ('presence', 'both') else True
            v = base[f]
            if kind in ('types', 'both'):
                alts = alternatives(h, ty, attr, v, reading)
                if reading and f == 'pulse_phase_offset':
                    # offsets of another shape are replaced on reading (C12)
                    alts = [a for a in alts if getattr(a, 'shape', v.shape) == v.shape]
                v = h.upick(nm + ':', alts)
                self.sel[f] = nm + ':'
            if first and f == 'borealis_git_hash':
                p, v = True, base[f]
                self.sel.pop(f, None)
            self.present[f] = p
            items.append((f, p, v))
        for e in EXTRA:
            p = h.bool('%s.%s?' % (name, e), False) if kind in ('presence', 'both') else False
            self.present[e] = p
            items.append((e, p, np.int64(1)))
        self.bad = []
        self.items = items
        self.d = h.gdict(items, base=dict)

    def missing(self):
        return [(f, self.h.Not(self.present[f])) for f in self.fmt.site]

    def extra(self):
        return [(e, self.present[e]) for e in EXTRA]

    def wrong(self):
        h = self.h
        return [(f, h.And(self.present[f], h.Not(h.index_of(s) == 0))) for f, s in self.sel.items()] + self.bad

    def any(self, what):
        return self.h.Or(*[c for _, c in what])

    def ok(self):
        return self.h.Not(self.any(self.missing() + self.extra() + self.wrong()))


_fixed = {}


def fixed(h, fmt):
    """a valid record with concrete values"""
    out = OrderedDict()
    for f in fmt.site:
        if f in fmt.site_attrs:
            ty = fmt.site_attrs[f]
            v = B.HASH[fmt.ver] if f == 'borealis_git_hash' else 'text' if ty is str else ty(2)
        else:
            ty = fmt.site_data[f]
            v = np.array(['a', 'bc'], dtype='U' if ty in (str, np.str_) else 'S') if ty in (str, np.str_, np.bytes_) else \
                np.array([1, 2], dtype=ty)
            v = h.const(v)
        out[f] = v
    return out


def harness(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    reading = case['dir'] == 'read'
    names = [B.recname(t) for t in sorted(B.TIMES[:len(case['recs'])])]
    recs = OrderedDict((n, Rec(h, fmt, 'r%d' % i, k, reading, i == 0)) for i, (n, k) in enumerate(zip(names, case['recs'])))
    if reading:
        o = read(h, fmt, recs)
    else:
        val = OrderedDict((n, r.d) for n, r in recs.items())
        p = h.path('out.hdf5')
        o = h.call(h.lib.BorealisWrite, p, val, case['ft'], 'site')
    h.note(o.name)
    if o.ok:
        for r in recs.values():
            h.check(r.ok(), 'accepted records have exactly the fields of the format, in their data types')
        if not reading:
            got = B.get_site(h, 'out.hdf5')
            base = fixed(h, fmt)
            B.check_records(h, got, OrderedDict((n, base) for n in names), 'the file')
        h.cover('accepted')
        return
    none = h.Or(*[h.Not(h.Or(*[r.present[f] for f in fmt.site])) for r in recs.values()])
    if o.name == 'BorealisStructureError':
        h.check(none, 'the structure error means that a record has no field of the format at all')
        h.cover('all missing')
    else:
        h.check(h.Not(none), 'a record without any field of the format is no site record')
        h.check(o.name == 'BorealisBadRecordsError', 'bad records are refused as such (%s)' % o.name)
        e = o.exc
        mis, ext, wro = e.missing_fields, e.extra_fields, e.incorrect_fields
        for n, r in recs.items():
            m, x, w = r.any(r.missing()), r.any(r.extra()), r.any(r.wrong())
            ism, isx, isw = n in mis, n in ext, n in wro
            h.check(h.Iff(ism, m), 'records with missing fields are named')
            if ism:
                h.check(h.set_same(mis[n], h.gset(r.missing())), 'the missing fields are named exactly')
            h.check(h.Iff(isx, h.And(h.Not(m), x)), 'complete records with unknown fields are named')
            if isx:
                h.check(h.set_same(ext[n], h.gset(r.extra())), 'the unknown fields are named exactly')
            h.check(h.Iff(isw, h.And(h.Not(m), h.Not(x), w)), 'records with fields of other types are named')
            if isw:
                h.check(h.set_same(wro[n], h.gset(r.wrong())), 'the fields of other types are named exactly')
        h.check(h.Not(h.Or(*[n not in recs for n in list(mis) + list(ext) + list(wro)])), 'only records of the data are named')
        h.cover('refused')
    if not reading:
        h.check(h.files() == [], 'refused data leave no file')


def read(h, fmt, recs):
    """read the records from a file.  In symbolic runs the file holds only what
    selects the version, and the contents of the HDF5 groups (C12) are given by a
    stand-in for read_records; concrete runs read a real file."""
    p = h.path('in.hdf5')
    if not h.sym:
        B.put_site(h, 'in.hdf5', OrderedDict((n, OrderedDict((f, v) for f, q, v in r.items if q)) for n, r in recs.items()))
        return h.call(h.lib.BorealisRead, p, fmt.ft, 'site')
    B.put_site(h, 'in.hdf5', OrderedDict((n, {'borealis_git_hash': B.HASH[fmt.ver]}) for n in recs))
    cls = B.fmt_of(h, fmt)
    cls.read_records = classmethod(lambda c, fn: OrderedDict((n, r.d) for n, r in recs.items()))
    try:
        return h.call(h.lib.BorealisRead, p, fmt.ft, 'site')
    finally:
        del cls.read_records
