"""Shared by C05/C06: the SuperDARN file types, their field rules (an
independent statement of them), and generators of records with any subset of
fields and any data type per field."""
import json
import os
from collections import OrderedDict
import numpy as np
from symex.harness import same, conj, SInt, V, z3, tb, GDict
from . import _dmap as D

TYPES = ['iqdat', 'rawacf', 'fitacf', 'snd', 'grid', 'map']
# the fields of each type: the mandatory ones, the groups that are complete or
# absent, and those that are individually optional, with their DMAP types.
# Pinned here, so that the package's own tables are under test too.
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'superdarn_tables.json')) as _f:
    TABLES = json.load(_f, object_pairs_hook=OrderedDict)
FMTS = ['c', 'h', 'i', 'f', 'd', 's', 'q', 'B', 'H', 'I', 'Q']
ARRAYS = {'ptab', 'ltab', 'slist', 'pwr0', 'acfd', 'xcfd', 'nlag', 'qflg', 'gflg', 'p_l', 'p_l_e', 'p_s', 'p_s_e', 'v',
          'v_e', 'w_l', 'w_l_e', 'w_s', 'w_s_e', 'sd_l', 'sd_s', 'sd_phi', 'phi0', 'phi0_e', 'elv', 'x_sd_phi',
          'elv_fitted', 'elv_error', 'stid', 'channel', 'nvec', 'freq', 'tsc', 'tus', 'tnoise', 'data', 'N', 'N+1',
          'N+2', 'N+3', 'boundary.mlat', 'boundary.mlon', 'model.mlat', 'vector.mlat', 'vector.mlon', 'noise.mean'}


def groups(h, ft):
    t = TABLES[ft]
    return t['mandatory'], t['whole'], t['free']


def value(name, fmt):
    if fmt == 's':
        return 'st'
    ty = D.NPT[fmt]
    k = 1 + sum(map(ord, name)) % 50
    if name in ARRAYS:
        return np.array([k, 2], dtype=ty)
    return ty(k)


def struct_of(h, name, fmt):
    v = value(name, fmt)
    L = h.lib
    if isinstance(v, np.ndarray):
        return L.DmapArray(name, h.const(v), D.CODES[fmt], fmt, 1, [2])
    return L.DmapScalar(name, v, D.CODES[fmt], fmt)


EXTRA = ['not.a.field', 'acfd.x']


class Rec:
    """a record of file type ft with symbolic presence and type of every field"""

    def __init__(self, h, ft, name, kind):
        """kind: 'sym' (any subset, any types), 'presence' (any subset), 'groups'
        (complete groups and optional fields forked), 'valid' (the fixed full record)"""
        self.h = h
        self.ft = ft
        mand, whole, free = groups(h, ft)
        allf = OrderedDict()
        for g in [mand] + whole + free:
            allf.update(g)
        self.allf = allf
        self.present, self.alts, self.tyname = OrderedDict(), OrderedDict(), {}
        forked = {}
        if kind == 'groups':
            for i, g in enumerate(whole):
                b = bool(h.bool('%s.group%d?' % (name, i), True))
                forked.update({f: b for f in g})
            for g in free:
                forked.update({f: bool(h.bool('%s.%s?' % (name, f), True)) for f in g})
        items = []
        for f, fmt in allf.items():
            nm = '%s.%s' % (name, f)
            p = h.bool(nm + '?', True) if kind in ('sym', 'presence') else forked.get(f, True)
            order = [fmt] + [x for x in FMTS if x != fmt] if kind == 'sym' else [fmt]
            # strings are not possible in arrays
            if f in ARRAYS and fmt != 's':
                order = [x for x in order if x != 's']
            v = h.upick(nm + ':', [struct_of(h, f, x) for x in order])
            self.tyname[f] = nm + ':' if len(order) > 1 else None
            self.present[f] = p
            self.alts[f] = order
            items.append((f, p, v))
        for e in EXTRA if kind in ('sym', 'presence') else []:
            p = h.bool('%s.%s?' % (name, e), False)
            self.present[e] = p
            items.append((e, p, struct_of(h, e, 'h')))
        self.d = h.gdict(items)
        self.mand, self.whole, self.free = mand, whole, free

    def wrong(self, f):
        """field f carries another data type than its own"""
        n = self.tyname.get(f)
        return False if n is None else self.h.Not(self.h.index_of(n) == 0)

    def extra(self):
        return [(e, self.present[e]) for e in EXTRA if e in self.present]

    def missing(self):
        h = self.h
        out = [(f, h.Not(self.present[f])) for f in self.mand]
        for g in self.whole:
            some = h.Or(*[self.present[f] for f in g])
            out += [(f, h.And(some, h.Not(self.present[f]))) for f in g]
        return out

    def badtype(self):
        h = self.h
        return [(f, h.And(self.present[f], self.wrong(f))) for f in self.allf]

    def ok(self):
        h = self.h
        return h.Not(h.Or(*[c for _, c in self.extra() + self.missing() + self.badtype()]))

    def has_scalar_and_array(self):
        h = self.h
        return h.And(h.Or(*[p for f, p in self.present.items() if f in ARRAYS]),
                     h.Or(*[p for f, p in self.present.items() if f not in ARRAYS]))

    def order(self):
        """field names as a reader returns them (decided record)"""
        fs = [f for f, p in self.present.items() if bool(p)]
        return [f for f in fs if f not in ARRAYS] + [f for f in fs if f in ARRAYS]

    def plain(self, f):
        n = self.tyname.get(f)
        fmt = self.alts[f][0] if f in self.alts else 'h'
        if n is not None:
            fmt = self.alts[f][int(self.h.index_of(n))]
        return value(f, fmt)

    def bytes(self):
        """reference encoding of the (by now decided) record"""
        sc, ar = [], []
        for f, p in self.present.items():
            if bool(p):
                n = self.tyname.get(f)
                fmt = self.alts[f][0] if f in self.alts else 'h'
                if n is not None:
                    fmt = self.alts[f][int(self.h.index_of(n))]
                v = value(f, fmt)
                (ar if isinstance(v, np.ndarray) else sc).append((f, fmt, v))
        return D.enc_record(self.h, sc, ar)


def check_error(h, exc, rec, num):
    """exc is the exact complaint about record `rec`, the first bad one"""
    name = type(exc).__name__
    rn = exc.record_number
    h.check(rn == num if not isinstance(rn, bool) else False, 'the error carries the number of the first bad record')
    if name == 'SuperDARNExtraFieldError':
        h.check(h.Or(*[c for _, c in rec.extra()]), 'an extra-field error means there are extra fields')
        h.check(h.set_same(exc.fields, h.gset(rec.extra())), 'the error names exactly the extra fields')
    elif name == 'SuperDARNFieldMissingError':
        h.check(h.Or(*[c for _, c in rec.missing()]), 'a missing-field error means fields are missing')
        h.check(h.set_same(exc.fields, h.gset(rec.missing())), 'the error names exactly the missing fields')
    elif name == 'SuperDARNDataFormatTypeError':
        h.check(h.Or(*[c for _, c in rec.badtype()]), 'a data-type error means there are wrong types')
        h.check(h.set_same(exc.incorrect_params, h.gset(rec.badtype())), 'the error names exactly the fields of wrong type')
    else:
        h.fail('a record breaking the field rules raises a SuperDARN field error (%s)' % name)
