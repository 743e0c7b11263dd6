"""Shared DMAP reference: value generators, an independent encoder and an
independent parser of the DMAP wire format (RST documentation)."""
import struct
from collections import OrderedDict
import numpy as np
from symex.harness import (SBytes, SInt, SFlt, SStr, Sym, same, V, A, z3, conj, tb)

CODES = {'c': 1, 'h': 2, 'i': 3, 'f': 4, 'd': 8, 's': 9, 'q': 10, 'B': 16, 'H': 17, 'I': 18, 'Q': 19}
SIZES = {'c': 1, 'h': 2, 'i': 4, 'f': 4, 'd': 8, 'q': 8, 'B': 1, 'H': 2, 'I': 4, 'Q': 8}
NPT = {'c': np.int8, 'h': np.int16, 'i': np.int32, 'f': np.float32, 'd': np.float64, 'q': np.int64,
       'B': np.uint8, 'H': np.uint16, 'I': np.uint32, 'Q': np.uint64}
# Python types a caller may use for a scalar of each DMAP type, and the type
# the reader hands back
READ = {'c': np.int8, 'h': np.int16, 'i': int, 'f': float, 'd': np.float64, 's': str, 'q': np.int64,
        'B': np.uint8, 'H': np.uint16, 'I': np.uint32, 'Q': np.uint64}
KINDS = ['c', 'h', 'i', 'int', 'f', 'float', 'd', 's', 'q', 'B', 'H', 'I', 'Q']
FMT = {'int': 'i', 'float': 'f'}


def quiet(h, x):
    """no signalling NaN (the FPU quietens them on any move)"""
    if h.sym and isinstance(x, SFlt):
        t = x.t
        if t.size() == 32:
            e, m, q = z3.Extract(30, 23, t) == 0xff, z3.Extract(22, 0, t) != 0, z3.Extract(22, 22, t) == 1
        else:
            e, m, q = z3.Extract(62, 52, t) == 0x7ff, z3.Extract(51, 0, t) != 0, z3.Extract(51, 51, t) == 1
        h.assume(V.mkbool(z3.Implies(z3.And(e, m), q)))
    return x


def scalar(h, name, kind, slen=2, lo=1, hi=0x10ffff):
    """(value as the caller supplies it, value as it must read back)"""
    if kind == 's':
        v = h.text(name, slen, lo, hi)
        return v, v
    if kind == 'int':
        v = h.bv(name, int, 32, True)
        return v, v
    if kind == 'float':
        v = quiet(h, h.flt(name, float))
        if h.sym:
            return v, v.cast(np.float32).cast(float)
        with np.errstate(all='ignore'):
            return v, float(np.float32(v))
    ty = NPT[kind]
    if kind == 'f':
        v = quiet(h, h.flt(name, ty))
        return v, (v.cast(float) if h.sym else float(v))
    if kind == 'd':
        v = h.flt(name, ty)
        return v, v
    v = h.bv(name, ty)
    if kind == 'i':
        return v, (V.mkint(v.t, int) if h.sym else int(v))
    return v, v


def bytes_of(h, parts):
    out = []
    for p in parts:
        out += list(SBytes.elems(p))
    r = SBytes(out, False)
    return r if h.sym else bytes(out)


def i32(n):
    return struct.pack('<i', n)


def enc_val(fmt, v):
    if isinstance(v, SInt):
        return V.pack_int(v, SIZES[fmt])
    if isinstance(v, SFlt):
        return v.cast(NPT[fmt]).tobytes()
    if fmt in 'fd':
        with np.errstate(all='ignore'):
            return NPT[fmt](v).tobytes()
    return int(v).to_bytes(SIZES[fmt], 'little', signed=fmt in 'chiq')


def enc_text(s):
    return SBytes.elems(s.encode('utf-8'))


def enc_scalar(name, fmt, v):
    out = list(enc_text(name)) + [0, CODES[fmt]]
    if fmt == 's':
        return out + list(enc_text(v)) + [0]
    return out + list(SBytes.elems(enc_val(fmt, v)))


def enc_array(name, fmt, arr):
    out = list(enc_text(name)) + [0, CODES[fmt]]
    out += list(i32(arr.ndim))
    for d in reversed(arr.shape):
        out += list(i32(d))
    els = A.raw(arr).reshape(-1) if isinstance(arr, np.ndarray) else arr
    for e in els:
        out += list(SBytes.elems(enc_val(fmt, e)))
    return out


def enc_record(h, scalars, arrays):
    """reference bytes: scalars [(name, fmt, value)], arrays [(name, fmt, ndarray)]"""
    body = []
    for s in scalars:
        body += enc_scalar(*s)
    for a in arrays:
        body += enc_array(*a)
    out = list(i32(65537)) + list(i32(len(body) + 16)) + list(i32(len(scalars))) + list(i32(len(arrays))) + body
    return out


def fin(h, lst):
    return SBytes(list(lst), False) if h.sym else bytes(lst)


def put(rec, name, v):
    """a later field replaces an earlier one of the same name"""
    for k in rec:
        if k is name or bool(k == name):
            dict.__setitem__(rec, k, v)
            return
    rec[name] = v


# ----------------------------------------------------------- reference parser
class Bad(Exception):
    """not a valid DMAP file"""


class Ref:
    """parses elements of a concrete-length buffer whose bytes may be symbolic"""

    def __init__(self, h, buf):
        self.h = h
        self.b = list(SBytes.elems(buf))
        self.p = 0

    def need(self, n):
        if self.p + n > len(self.b):
            raise Bad('short')

    def i32(self):
        self.need(4)
        bs = self.b[self.p:self.p + 4]
        self.p += 4
        if all(isinstance(x, int) for x in bs):
            return int.from_bytes(bytes(bs), 'little', signed=True)
        return V.mkint(V.concat_le(bs))

    def u8(self):
        self.need(1)
        x = self.b[self.p]
        self.p += 1
        return V.byte_int(x)

    def text(self, end):
        q = self.p
        while True:
            if q >= end:
                raise Bad('unterminated')
            x = V.byte_int(self.b[q])
            if bool(x == 0):
                break
            q += 1
        s = SBytes(self.b[self.p:q], False)
        self.p = q + 1
        try:
            return s.decode('utf-8') if s.concrete() is None else bytes(s.b).decode('utf-8')
        except UnicodeDecodeError:
            raise Bad('utf-8')

    def fmt(self):
        c = self.u8()
        for f, k in CODES.items():
            if bool(c == k):
                return f
        raise Bad('type')

    def val(self, fmt):
        n = SIZES[fmt]
        self.need(n)
        bs = self.b[self.p:self.p + n]
        self.p += n
        if all(isinstance(x, int) for x in bs):
            return np.frombuffer(bytes(bs), dtype=np.dtype(NPT[fmt]).newbyteorder('<'))[0].astype(NPT[fmt])
        t = V.concat_le(bs)
        if fmt in 'fd':
            return SFlt(t, NPT[fmt])
        return V.mkint(t if fmt in 'chiq' else z3.ZeroExt(1, t), NPT[fmt])

    def record(self):
        """the record at the cursor, exactly filling its declared size"""
        start = self.p
        self.i32()
        size = self.i32()
        if bool(size < 16):
            raise Bad('size')
        if bool(size > len(self.b) - start):
            raise Bad('size beyond file')
        ns, na = self.i32(), self.i32()
        if bool(ns < 1) or bool(na < 1):
            raise Bad('counts')
        rec = OrderedDict()
        lim = len(self.b)
        k = 0
        while bool(ns > k):
            k += 1
            name = self.text(lim)
            f = self.fmt()
            if f == 's':
                v = self.text(lim)
            else:
                v = self.val(f)
                v = as_read(f, v)
            put(rec, name, v)
        k = 0
        while bool(na > k):
            k += 1
            name = self.text(lim)
            f = self.fmt()
            if f == 's':
                raise Bad('string array')
            nd = self.i32()
            if bool(nd < 1):
                raise Bad('dims')
            shape = []
            while bool(nd > len(shape)):
                d = self.i32()
                if bool(d < 0):
                    raise Bad('negative dimension')
                if bool(d == 0) and not bool(name == 'slist'):
                    raise Bad('zero dimension')
                # (an array that fits its record has every dimension below the record size)
                if bool(d >= size):
                    raise Bad('dimension beyond record')
                shape.append(d)
            cells = 0 if any(bool(d == 0) for d in shape) else 1
            for d in shape if cells else []:
                cells = cells * int(d)
                if cells > len(self.b):
                    raise Bad('array beyond file')
            self.need(cells * SIZES[f])
            els = [self.val(f) for _ in range(cells)]
            shp = tuple(int(d) for d in reversed(shape))
            o = np.empty((cells,), dtype=object)
            for i, e in enumerate(els):
                o[i] = e
            o = o.reshape(shp)
            if self.h.sym:
                put(rec, name, A.mk(o, NPT[f]))
            else:
                put(rec, name, np.array([x for x in o.reshape(-1)], dtype=NPT[f]).reshape(shp))
        if not bool(size == self.p - start):
            raise Bad('size mismatch')
        return rec

    def all(self):
        out = []
        while self.p < len(self.b):
            out.append(self.record())
        return out


def as_read(f, v):
    """type in which the reader returns a scalar"""
    if f == 'i':
        return V.mkint(v.t, int) if isinstance(v, SInt) else int(v)
    if f == 'f':
        return v.cast(float) if isinstance(v, SFlt) else float(v)
    return v


DOCUMENTED = ('CursorError', 'EmptyFileError', 'DmapDataTypeError', 'NegativeByteError', 'ZeroByteError',
              'MismatchByteError', 'DmapDataError')


def array_same(h, a, b):
    """same array up to byte order / container details: dtype kind+size, shape, bits"""
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return False
    return same(a, b)


def record_same(h, got, exp):
    """got has exactly the fields of exp (any order) with identical values"""
    if len(got) != len(exp):
        return False
    ts = []
    gk = list(got)
    for k in exp:
        m = None
        for g in gk:
            if g is k or bool(g == k):
                m = g
                break
        if m is None:
            return False
        ts.append(same(dict.__getitem__(got, m), exp[k]))
    return conj(ts)
