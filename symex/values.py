"""Symbolic values.  Each class lies about `__class__` so that isinstance() in
the code under test sees the type it stands for."""
import operator
import numpy as np
from fractions import Fraction
from .core import z3, C, CUR, const_int, Infeasible, EngineError


class Sym:
    """marker base"""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise EngineError('pickling a symbolic value')


def zsimp(t):
    return z3.simplify(t)


# --------------------------------------------------------------------- bools
def mkbool(t, ty=bool):
    if isinstance(t, (bool, np.bool_)):
        return bool(t)
    t = zsimp(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t, ty)


def tb(x):
    """z3 Bool of a python/symbolic truth value (forks only for non-bools)"""
    if isinstance(x, SBool):
        return x.t
    if type(x) in (bool, np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, SInt):
        return x.t != x.k(0)
    if isinstance(x, SReal):
        return z3.Or(x.nan, x.t != 0) if x.nan is not None else x.t != 0
    if isinstance(x, (GSet, GList, GDict, LSet)):
        return tb(x.nonempty())
    return z3.BoolVal(bool(x))


class SBool(Sym):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=bool):
        self.t = t
        self.ty = ty

    @property
    def __class__(self):
        return self.ty

    def __bool__(self):
        return C().branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __invert__(self):
        return mkbool(z3.Not(self.t), self.ty)

    def _l(self, o, f):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(f(self.t, tb(o)))
        return NotImplemented

    def __and__(self, o):
        return self._l(o, z3.And)

    def __or__(self, o):
        return self._l(o, z3.Or)

    def __xor__(self, o):
        return self._l(o, z3.Xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def asint(self):
        return mkint(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(self.t == tb(o))
        if isinstance(o, (SInt, SReal, int, float, np.number)):
            return self.asint() == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __add__(self, o):
        return self.asint() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.asint() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.asint() - o

    def __lt__(self, o):
        return self.asint() < o

    def __gt__(self, o):
        return self.asint() > o

    def __le__(self, o):
        return self.asint() <= o

    def __ge__(self, o):
        return self.asint() >= o

    def __repr__(self):
        return shown(self)

    def __format__(self, spec):
        return shown(self)

    @property
    def dtype(self):
        if self.ty is np.bool_:
            return np.dtype(np.bool_)
        raise AttributeError('dtype')

    @property
    def shape(self):
        if self.ty is np.bool_:
            return ()
        raise AttributeError('shape')

    @property
    def size(self):
        if self.ty is np.bool_:
            return 1
        raise AttributeError('size')


def snot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.t))
    return not x


# ---------------------------------------------------------------------- ints
_INTW = {np.int8: (8, True), np.int16: (16, True), np.int32: (32, True),
         np.int64: (64, True), np.uint8: (8, False), np.uint16: (16, False),
         np.uint32: (32, False), np.uint64: (64, False), np.longlong: (64, True),
         np.ulonglong: (64, False)}


def mkint(t, ty=int):
    t = zsimp(t)
    v = const_int(t)
    if v is not None:
        return ty(v)
    return SInt(t, ty)


def is_np_scalar_type(ty):
    return isinstance(ty, type) and issubclass(ty, np.generic)


def wrap_int(t, ty):
    """value of integer term t when stored in numpy integer type ty"""
    w, signed = _INTW[ty]
    if z3.is_bv(t):
        if t.size() < w:
            t = z3.SignExt(w - t.size(), t)
        low = z3.Extract(w - 1, 0, t)
        return zsimp(low if signed else z3.ZeroExt(1, low))
    m = 1 << w
    if signed:
        h = 1 << (w - 1)
        inr = z3.And(t >= -h, t < h)
        return zsimp(z3.If(inr, t, ((t + h) % m) - h))
    inr = z3.And(t >= 0, t < m)
    return zsimp(z3.If(inr, t, t % m))


def int_to_type(x, ty):
    """np.intX(x) for symbolic integer x"""
    if ty is int:
        return mkint(x.t, int)
    if not z3.is_bv(x.t):
        w, s = _INTW[ty]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if not C().sat(z3.Or(x.t < lo, x.t > hi)):
            return mkint(x.t, ty)
    return mkint(wrap_int(x.t, ty), ty)


def _num_type(a, b):
    """claimed type of a binary integer operation"""
    ta = a.ty if isinstance(a, SInt) else type(a)
    tb_ = b.ty if isinstance(b, SInt) else type(b)
    if ta in (int, bool) and tb_ in (int, bool):
        return int
    try:
        f = lambda t: np.int64 if t in (int, bool) else t
        r = np.result_type(f(ta), f(tb_)).type
        return r if r in _INTW else int
    except TypeError:
        return int


def bvext(t, w):
    return z3.SignExt(w - t.size(), t) if t.size() < w else t


def need_bits(v):
    return max(v.bit_length(), (-v - 1).bit_length() if v < 0 else 0) + 1


INTS = (int, np.integer)


class SInt(Sym):
    """a Python int or numpy integer; bit-vector terms grow with each
    operation so arithmetic is exact, as Python's is"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=int):
        self.t = t
        self.ty = ty

    @property
    def __class__(self):
        return self.ty

    def k(self, v):
        if z3.is_bv(self.t):
            return z3.BitVecVal(v, self.t.size())
        return z3.IntVal(v)

    # numpy scalar attributes
    @property
    def dtype(self):
        if is_np_scalar_type(self.ty):
            return np.dtype(self.ty)
        raise AttributeError("'int' object has no attribute 'dtype'")

    @property
    def shape(self):
        if is_np_scalar_type(self.ty):
            return ()
        raise AttributeError("'int' object has no attribute 'shape'")

    @property
    def size(self):
        if is_np_scalar_type(self.ty):
            return 1
        raise AttributeError("'int' object has no attribute 'size'")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def real(self):
        return self

    def item(self):
        return mkint(self.t, int)

    def astype(self, d):
        from .models import cast_scalar
        return cast_scalar(self, np.dtype(d).type)

    def tobytes(self):
        return pack_int(self, _INTW[self.ty][0] // 8)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        b = pack_int(self, length)
        return b if byteorder == 'little' else SBytes(list(reversed(b.b)), False)

    def bit_length(self):
        return int(self).bit_length()

    def asreal(self):
        t = self.t
        if z3.is_bv(t):
            t = z3.BV2Int(t, is_signed=True)
        return z3.ToReal(t)

    def _co(self, o):
        """coerce both operands to terms of one sort"""
        if isinstance(o, SBool):
            o = o.asint()
        if isinstance(o, SInt):
            a, b = self.t, o.t
            if z3.is_bv(a) and z3.is_bv(b):
                w = max(a.size(), b.size())
                return bvext(a, w), bvext(b, w), w
            if z3.is_bv(a):
                a = z3.BV2Int(a, is_signed=True)
            if z3.is_bv(b):
                b = z3.BV2Int(b, is_signed=True)
            return a, b, None
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, INTS):
            o = int(o)
            if z3.is_bv(self.t):
                w = max(self.t.size(), need_bits(o))
                return bvext(self.t, w), z3.BitVecVal(o, w), w
            return self.t, z3.IntVal(o), None
        return None

    def _arith(self, o, name, swap=False):
        if isinstance(o, (float, np.floating, SReal)):
            a, b = SReal(self.asreal()), to_real(o)
            a, b = (b, a) if swap else (a, b)
            return getattr(a, name)(b)
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return NotImplemented
        c = self._co(o)
        if c is None:
            return NotImplemented
        a, b, w = c
        ty = _num_type(self, o)
        if swap:
            a, b = b, a
        if w is None:
            if name == '__add__':
                r = a + b
            elif name == '__sub__':
                r = a - b
            elif name == '__mul__':
                r = a * b
        else:
            if name == '__mul__':
                ca, cb = const_int(zsimp(a)), const_int(zsimp(b))
                if ca is not None or cb is not None:
                    kk = ca if ca is not None else cb
                    w2 = w + need_bits(kk)
                    r = bvext(a, w2) * bvext(b, w2)
                else:
                    a, b = narrow(a), narrow(b)
                    w2 = a.size() + b.size()
                    r = bvext(a, w2) * bvext(b, w2)
            else:
                a, b = bvext(a, w + 1), bvext(b, w + 1)
                r = a + b if name == '__add__' else a - b
        if ty is not int and ty in _INTW:
            return int_to_type(SInt(zsimp(r)), ty)
        return mkint(r, ty)

    def __add__(self, o):
        return self._arith(o, '__add__')

    def __radd__(self, o):
        return self._arith(o, '__add__', True)

    def __sub__(self, o):
        return self._arith(o, '__sub__')

    def __rsub__(self, o):
        return self._arith(o, '__sub__', True)

    def __mul__(self, o):
        if isinstance(o, (list, str, bytes, tuple)):
            return o * self.__index__()
        if isinstance(o, (SStr, SBytes)):
            return o * self.__index__()
        return self._arith(o, '__mul__')

    def __rmul__(self, o):
        if isinstance(o, (list, str, bytes, tuple)):
            return o * self.__index__()
        return self._arith(o, '__mul__', True)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if C().branch(tb(self < 0)):
            return -self
        return self

    def __divmod_(self, o, swap, which):
        if isinstance(o, (float, np.floating, SReal)):
            a, b = SReal(self.asreal()), to_real(o)
            if swap:
                a, b = b, a
            return getattr(a, which)(b)
        c = self._co(o)
        if c is None:
            return NotImplemented
        a, b, w = c
        if swap:
            a, b = b, a
        if C().branch(zsimp(b == (z3.BitVecVal(0, w) if w else 0))):
            raise ZeroDivisionError('integer division or modulo by zero')
        ty = _num_type(self, o)
        if w is None:
            # z3 div rounds so that remainder is non-negative
            if C().branch(b > 0):
                q, r = a / b, a % b
            else:
                q, r = (-a) / (-b), -((-a) % (-b))
        else:
            a, b = bvext(a, w + 1), bvext(b, w + 1)
            q = a / b       # signed, truncating
            r = z3.SRem(a, b)
            adj = z3.And(r != 0, (r < 0) != (b < 0))
            q = z3.If(adj, q - 1, q)
            r = z3.If(adj, r + b, r)
        return mkint(q if which == '__floordiv__' else r, ty)

    def __floordiv__(self, o):
        return self.__divmod_(o, False, '__floordiv__')

    def __rfloordiv__(self, o):
        return self.__divmod_(o, True, '__floordiv__')

    def __mod__(self, o):
        return self.__divmod_(o, False, '__mod__')

    def __rmod__(self, o):
        return self.__divmod_(o, True, '__mod__')

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SReal(self.asreal(), np.float64 if is_np_scalar_type(self.ty) else float) / o

    def __rtruediv__(self, o):
        return to_real(o) / SReal(self.asreal(), np.float64 if is_np_scalar_type(self.ty) else float)

    def __pow__(self, o):
        if isinstance(o, INTS) and 0 <= int(o) <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def _bit(self, o, f):
        c = self._co(o)
        if c is None:
            return NotImplemented
        a, b, w = c
        if w is None:
            return f(int(self), int(o))
        return mkint(f(a, b), _num_type(self, o))

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return -1 - self

    def __lshift__(self, o):
        n = o.__index__()
        return self * (1 << n)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        n = o.__index__()
        if z3.is_bv(self.t):
            return mkint(self.t >> n, self.ty)
        return self // (1 << n)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _cmp(self, o, f):
        if isinstance(o, (float, np.floating, SReal)):
            return f(SReal(self.asreal()), to_real(o))
        c = self._co(o)
        if c is None:
            return NotImplemented
        return mkbool(f(c[0], c[1]))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            if isinstance(o, np.ndarray):
                return NotImplemented
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return C().branch(self.t != self.k(0))

    def __index__(self):
        v = C().choose(self.t, 4096, 'an integer used as index/size')
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __complex__(self):
        return complex(self.__index__())

    def __trunc__(self):
        return mkint(self.t, int)

    def __round__(self, n=None):
        return mkint(self.t, int)

    def __floor__(self):
        return mkint(self.t, int)
    __ceil__ = __floor__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return shown(self)

    __str__ = __repr__

    def __format__(self, spec):
        return shown(self)


def narrow(t):
    """shrink a bit-vector term to the bits it can actually need under the
    current path condition (sound: checked by the solver)"""
    t = zsimp(t)
    if const_int(t) is not None:
        return z3.BitVecVal(const_int(t), need_bits(const_int(t)))
    for w in (4, 7, 9, 12, 17):
        if w >= t.size():
            return t
        low = z3.Extract(w - 1, 0, t)
        if not C().sat_pc(bvext(low, t.size()) != t):
            return low
    return t


def pack_int(x, n):
    """little-endian two's-complement bytes of an integer known to fit"""
    if not isinstance(x, SInt):
        return SBytes(list((int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')), False)
    t = x.t
    if not z3.is_bv(t):
        t = z3.Int2BV(t, 8 * n)
    if t.size() < 8 * n:
        t = z3.SignExt(8 * n - t.size(), t)
    return SBytes([mkbyte(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)], False)


def mkbyte(t):
    if isinstance(t, int):
        return t
    t = zsimp(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def byte_int(b, ty=int):
    """Python int value 0..255 of a byte element"""
    if isinstance(b, int):
        return b
    return mkint(z3.ZeroExt(1, b), ty)


def bterm(b):
    return z3.BitVecVal(b, 8) if isinstance(b, int) else b


def concat_le(bs):
    ts = [bterm(b) for b in bs]
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*reversed(ts))


# -------------------------------------------------- floats carried as bits
_widen = z3.Function('widen_f32_f64', z3.BitVecSort(32), z3.BitVecSort(64))
_narrowf = z3.Function('narrow_f64_f32', z3.BitVecSort(64), z3.BitVecSort(32))


class SFlt(Sym):
    """a float moved around as its IEEE bit pattern (32 or 64 bits); no
    arithmetic is interpreted, widening/narrowing are uninterpreted with the
    law narrow(widen(x)) = x"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = zsimp(t)
        self.ty = ty

    @property
    def __class__(self):
        return self.ty

    @property
    def dtype(self):
        if is_np_scalar_type(self.ty):
            return np.dtype(self.ty)
        raise AttributeError('dtype')

    @property
    def shape(self):
        if is_np_scalar_type(self.ty):
            return ()
        raise AttributeError('shape')

    def bits(self, w):
        t = self.t
        if t.size() == w:
            return t
        if w == 32:
            if t.num_args() == 1 and t.decl().eq(_widen):
                return t.arg(0)
            return _narrowf(t)
        return _widen(t)

    def cast(self, ty):
        w = 32 if ty is np.float32 else 64
        return SFlt(self.bits(w), ty)

    def _conc(self, why):
        import struct
        v = C().concretise(self.t, 'float arithmetic on bit-carried float: ' + why)
        n = v.as_long()
        if v.size() == 32:
            x = struct.unpack('<f', n.to_bytes(4, 'little'))[0]
        else:
            x = struct.unpack('<d', n.to_bytes(8, 'little'))[0]
        return self.ty(x)

    def __float__(self):
        return float(self._conc('float()'))

    def __bool__(self):
        return bool(self != 0)

    def item(self):
        return SFlt(self.bits(64), float)

    def tobytes(self):
        return SBytes([mkbyte(z3.Extract(8 * i + 7, 8 * i, self.t))
                       for i in range(self.t.size() // 8)], False)

    def _isnan(self):
        w = self.t.size()
        inf = (0xff << 23) if w == 32 else (0x7ff << 52)
        return z3.UGT(z3.Extract(w - 2, 0, self.t), z3.BitVecVal(inf, w - 1))

    def _key(self):
        """integer ordered as the numbers are (both zeros are 0)"""
        w = self.t.size()
        m = z3.ZeroExt(1, z3.Extract(w - 2, 0, self.t))
        return z3.If(z3.Extract(w - 1, w - 1, self.t) == 1, -m, m)

    def _pair(self, o):
        """self and o with a common width; None unless exact"""
        import struct
        w = self.t.size()
        if isinstance(o, SFlt):
            if o.t.size() == w:
                return self, o
            a, b = (self, o) if w == 64 else (o, self)
            # a is the wider one
            if a.t.num_args() == 1 and a.t.decl().eq(_widen):
                return SFlt(self.bits(32), np.float32), SFlt(o.bits(32), np.float32)
            return None
        if isinstance(o, Sym) or not isinstance(o, (int, float, bool, np.number, np.bool_)):
            return None
        try:
            f = float(o)
            p = struct.pack('<f' if w == 32 else '<d', f)
        except OverflowError:
            return None
        if f == f and (struct.unpack('<f', p)[0] != f if w == 32 else f != o):
            return None
        return self, SFlt(z3.BitVecVal(int.from_bytes(p, 'little'), w), self.ty)

    def _cmp(self, o, op, rel):
        p = self._pair(o)
        if p is None:
            return op(self._conc(op.__name__), o)
        a, b = p
        return mkbool(z3.And(z3.Not(a._isnan()), z3.Not(b._isnan()), rel(a._key(), b._key())))

    def __eq__(self, o):
        return self._cmp(o, operator.eq, lambda x, y: x == y)

    def __ne__(self, o):
        p = self._pair(o)
        if p is None:
            return self._conc('ne') != o
        r = self == o
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    def __lt__(self, o):
        return self._cmp(o, operator.lt, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, operator.le, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, operator.gt, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, operator.ge, lambda x, y: x >= y)

    def __neg__(self):
        return SFlt(self.t ^ z3.BitVecVal(1 << (self.t.size() - 1), self.t.size()), self.ty)

    def __abs__(self):
        return SFlt(self.t & z3.BitVecVal((1 << (self.t.size() - 1)) - 1, self.t.size()), self.ty)

    def __pos__(self):
        return self
    __hash__ = None

    def __repr__(self):
        return shown(self)

    def __format__(self, s):
        return shown(self)


def _mkop(n):
    def f(self, *a):
        return getattr(self._conc(n), n)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__',
           '__rtruediv__', '__round__', '__int__', '__pow__', '__mod__', '__floordiv__', '__trunc__'):
    setattr(SFlt, _n, _mkop(_n))


# ------------------------------------------------------------------- reals
def rat(v):
    if isinstance(v, Fraction):
        return z3.RatVal(v.numerator, v.denominator)
    if isinstance(v, INTS) or isinstance(v, (bool, np.bool_)):
        return z3.RealVal(int(v))
    f = Fraction(float(v))
    return z3.RatVal(f.numerator, f.denominator)


def to_real(o, ty=None):
    if isinstance(o, SReal):
        return o
    if isinstance(o, SBool):
        o = o.asint()
    if isinstance(o, SInt):
        return SReal(o.asreal(), ty or (float if o.ty is int else np.float64))
    if isinstance(o, SFlt):
        o = o._conc('arithmetic')
    if isinstance(o, (int, float, np.integer, np.floating, bool, np.bool_)):
        t = type(o)
        if o != o or o in (float('inf'), float('-inf')):
            if o != o:
                return SReal(z3.RealVal(0), t, z3.BoolVal(True))
            raise EngineError('infinity in real arithmetic')
        return SReal(rat(o), t if t in (float, np.float32, np.float64) else (ty or float))
    return None


def mkreal(t, ty=float, nan=None):
    t = zsimp(t)
    return SReal(t, ty, nan)


def _ftype(a, b):
    if is_np_scalar_type(a) and not issubclass(a, np.floating):
        a = np.float64
    if is_np_scalar_type(b) and not issubclass(b, np.floating):
        b = np.float64
    if a in (float, int, bool) and b in (float, int, bool):
        return float
    if a in (float, int, bool):
        return b if b is np.float64 else np.float64
    if b in (float, int, bool):
        return a if a is np.float64 else np.float64
    return np.result_type(a, b).type


class SReal(Sym):
    """a float modelled as an exact real (no rounding), plus an optional NaN flag"""
    __slots__ = ('t', 'ty', 'nan')

    def __init__(self, t, ty=float, nan=None):
        self.t = t
        self.ty = ty
        if nan is not None:
            nan = zsimp(nan)
            if z3.is_false(nan):
                nan = None
        self.nan = nan

    @property
    def __class__(self):
        return self.ty

    @property
    def dtype(self):
        if is_np_scalar_type(self.ty):
            return np.dtype(self.ty)
        raise AttributeError("'float' object has no attribute 'dtype'")

    @property
    def shape(self):
        if is_np_scalar_type(self.ty):
            return ()
        raise AttributeError("'float' object has no attribute 'shape'")

    @property
    def size(self):
        if is_np_scalar_type(self.ty):
            return 1
        raise AttributeError('size')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self.ty(0)

    def conjugate(self):
        return self

    def item(self):
        return SReal(self.t, float, self.nan)

    def astype(self, d):
        from .models import cast_scalar
        return cast_scalar(self, np.dtype(d).type)

    def _nan(self, o):
        if self.nan is None and o.nan is None:
            return None
        return z3.Or(self.nan if self.nan is not None else z3.BoolVal(False),
                     o.nan if o.nan is not None else z3.BoolVal(False))

    def _ar(self, o, f, swap=False):
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return NotImplemented
        b = to_real(o)
        if b is None:
            return NotImplemented
        ty = _ftype(self.ty, getattr(o, 'ty', type(o)))
        x, y = (b, self) if swap else (self, b)
        return mkreal(f(x.t, y.t), ty, self._nan(b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _div(self, o, swap):
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return NotImplemented
        b = to_real(o)
        if b is None:
            return NotImplemented
        x, y = (b, self) if swap else (self, b)
        if C().branch(y.t == 0):
            if x.ty is float and y.ty is float:
                raise ZeroDivisionError('float division by zero')
            C().weaken('division by zero in real arithmetic')
            raise Infeasible()
        return mkreal(x.t / y.t, _ftype(x.ty, y.ty), self._nan(b))

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __neg__(self):
        return mkreal(-self.t, self.ty, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t), self.ty, self.nan)

    def floor(self):
        return mkint(z3.ToInt(self.t), int)

    def __floordiv__(self, o):
        q = self / o
        return SReal(z3.ToReal(z3.ToInt(q.t)), q.ty, q.nan)

    def __rfloordiv__(self, o):
        return to_real(o) // self

    def __mod__(self, o):
        b = to_real(o)
        q = self // b
        return self - q * b

    def __rmod__(self, o):
        return to_real(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def fmod(self, o):
        b = to_real(o)
        q = self / b
        return self - trunc_int(q) * b

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= int(o) <= 4 or (isinstance(o, float) and o in (1.0, 2.0)):
            r = mkreal(z3.RealVal(1), self.ty)
            for _ in range(int(o)):
                r = self * r
            return mkreal(r.t, _ftype(self.ty, type(o)) if self.ty is not float else float, self.nan)
        if isinstance(o, float) and o == 0.5:
            return ssqrt(self)
        return float(self) ** o

    def __rpow__(self, o):
        return o ** float(self)

    def _cm(self, o, f):
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not isinstance(o, Sym) and o in (float('inf'), -float('inf')):
            import operator
            v = f(0.0, float(o))
            r = z3.BoolVal(bool(v))
            nn = self.nan
            return mkbool(z3.And(r, z3.Not(nn)) if nn is not None else r)
        b = to_real(o)
        if b is None:
            return NotImplemented
        r = f(self.t, b.t)
        nn = self._nan(b)
        if nn is not None:
            r = z3.And(z3.Not(nn), r)
        return mkbool(r)

    def __eq__(self, o):
        r = self._cm(o, lambda a, b: a == b)
        if r is NotImplemented and not isinstance(o, (np.ndarray, SCplx)):
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._cm(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cm(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cm(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cm(o, lambda a, b: a >= b)

    def __bool__(self):
        return C().branch(tb(self))

    def __int__(self):
        return int(trunc_int(self))

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, n=None):
        if n is None:
            return round_int(self)
        return round(float(self), n)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def _conc(self):
        if self.nan is not None and C().branch(self.nan):
            return float('nan')
        if z3.is_rational_value(self.t):
            return float(self.t.as_fraction())
        v = C().concretise(self.t, 'real value needed concretely')
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        return float(v.approx(20).as_fraction())

    def __float__(self):
        return self._conc()

    def __complex__(self):
        return complex(self._conc())

    def __hash__(self):
        return hash(self._conc())

    def __repr__(self):
        return shown(self)

    def __format__(self, s):
        return shown(self)


def ssqrt(x):
    r = C().fresh_const(z3.RealSort(), 'sqrt')
    C().add(z3.And(r >= 0, r * r == x.t))
    return SReal(r, x.ty, x.nan)


def trunc_int(x, ty=int):
    """truncation toward zero"""
    t = x.t
    fl = z3.ToInt(t)
    return mkint(z3.If(t >= 0, fl, z3.If(z3.ToReal(fl) == t, fl, fl + 1)), ty)


def round_int(x):
    """round half to even"""
    t = x.t
    fl = z3.ToInt(t)
    d = t - z3.ToReal(fl)
    half = z3.Q(1, 2)
    return mkint(z3.If(d < half, fl, z3.If(d > half, fl + 1,
                 z3.If(fl % 2 == 0, fl, fl + 1))), int)


# ----------------------------------------------------------------- complex
class SCplx(Sym):
    __slots__ = ('re', 'im', 'ty')

    def __init__(self, re, im, ty=np.complex64):
        self.re = re      # SReal or concrete float
        self.im = im
        self.ty = ty

    @property
    def __class__(self):
        return self.ty

    @property
    def dtype(self):
        return np.dtype(self.ty)

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SCplx(self.re, -self.im, self.ty)
    conj = conjugate

    def _co(self, o):
        if isinstance(o, SCplx):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SCplx(float(o.real), float(o.imag), type(o))
        if isinstance(o, (int, float, np.integer, np.floating, SInt, SReal, SBool)):
            return SCplx(o, 0, np.complex64)
        return None

    def __add__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else SCplx(self.re + c.re, self.im + c.im, self.ty)
    __radd__ = __add__

    def __sub__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else SCplx(self.re - c.re, self.im - c.im, self.ty)

    def __rsub__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else SCplx(c.re - self.re, c.im - self.im, self.ty)

    def __mul__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating, SInt, SReal, SBool)):
            return SCplx(self.re * o, self.im * o, self.ty)
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SCplx(self.re * c.re - self.im * c.im, self.re * c.im + self.im * c.re, self.ty)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating, SInt, SReal, SBool)):
            return SCplx(self.re / o, self.im / o, self.ty)
        return NotImplemented

    def __neg__(self):
        return SCplx(-self.re, -self.im, self.ty)

    def __abs__(self):
        a = to_real(self.re)
        b = to_real(self.im)
        n = a * a + b * b
        f = np.float32 if self.ty is np.complex64 else np.float64
        return ssqrt(SReal(n.t, f, n.nan))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        c = self._co(o)
        if c is None:
            return False
        a = to_real(self.re) == to_real(c.re)
        b = to_real(self.im) == to_real(c.im)
        return mkbool(z3.And(tb(a), tb(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __bool__(self):
        return bool(snot(self == 0))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __hash__(self):
        return hash(complex(self))

    def item(self):
        return SCplx(self.re, self.im, complex)

    def __repr__(self):
        return shown(self)

    def __format__(self, s):
        return shown(self)


# ------------------------------------------------------------------ strings
CPW = 22     # code points as signed bit-vectors


def cpt(c):
    return z3.BitVecVal(c, CPW) if isinstance(c, int) else c


def shown(x):
    """the text of a symbolic value in messages: a mark that stands for the value"""
    c = CUR.ctx
    if c is None:
        return '<%s>' % type(x).__name__
    c.shown.append(x)
    return '\u27e8%d\u27e9' % (len(c.shown) - 1)


class Opaque(str):
    """text built from symbolic values for messages only; semantic use is an
    engine error rather than a wrong answer"""
    _sx_opaque = True

    def _used(self, *a, **k):
        raise EngineError('message text used as data')
    encode = split = strip = lstrip = rstrip = partition = find = index = replace = __iter__ = __contains__ = _used
    startswith = endswith = _used


def sstr(chars, ty=str):
    cs = []
    allc = True
    for c in chars:
        if not isinstance(c, int):
            c = zsimp(c)
            v = const_int(c)
            if v is not None:
                c = v
            else:
                allc = False
        cs.append(c)
    if allc:
        r = ''.join(map(chr, cs))
        return r if ty is str else ty(r)
    return SStr(cs, ty)


class SStr(Sym):
    """string of concrete length with symbolic code points"""
    __slots__ = ('c', 'ty')

    def __init__(self, c, ty=str):
        self.c = list(c)
        self.ty = ty

    @property
    def __class__(self):
        return self.ty

    @property
    def dtype(self):
        if self.ty is np.str_:
            return np.dtype('<U%d' % len(self.c))
        raise AttributeError("'str' object has no attribute 'dtype'")

    @property
    def shape(self):
        if self.ty is np.str_:
            return ()
        raise AttributeError("'str' object has no attribute 'shape'")

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for c in self.c:
            yield sstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return sstr(self.c[i])
        return sstr([self.c[i]])

    @staticmethod
    def chars(o):
        if isinstance(o, SStr):
            return o.c
        if isinstance(o, str):
            if isinstance(o, Opaque):
                raise EngineError('message text used as data')
            return [ord(x) for x in o]
        return None

    def __add__(self, o):
        c = self.chars(o)
        return NotImplemented if c is None else sstr(self.c + c)

    def __radd__(self, o):
        c = self.chars(o)
        return NotImplemented if c is None else sstr(c + self.c)

    def __mul__(self, n):
        return sstr(self.c * n.__index__())
    __rmul__ = __mul__

    def eq_term(self, o):
        c = self.chars(o)
        if c is None or len(c) != len(self.c):
            return z3.BoolVal(False)
        if not c:
            return z3.BoolVal(True)
        return z3.And(*[cpt(a) == cpt(b) for a, b in zip(self.c, c)])

    def __eq__(self, o):
        if isinstance(o, LazyStr):
            return o == self
        return mkbool(self.eq_term(o))

    def __ne__(self, o):
        return snot(self == o)

    def _lex(self, o, strict_lt):
        c = self.chars(o)
        if c is None:
            raise TypeError('unorderable')
        # lexicographic self < c
        t = z3.BoolVal(len(self.c) < len(c))
        for a, b in reversed(list(zip(self.c, c))):
            t = z3.Or(cpt(a) < cpt(b), z3.And(cpt(a) == cpt(b), t))
        return t

    def __lt__(self, o):
        return mkbool(self._lex(o, True))

    def __gt__(self, o):
        return mkbool(z3.And(z3.Not(self._lex(o, True)), z3.Not(self.eq_term(o))))

    def __le__(self, o):
        return mkbool(z3.Or(self._lex(o, True), self.eq_term(o)))

    def __ge__(self, o):
        return mkbool(z3.Not(self._lex(o, True)))

    def __hash__(self):
        # equal strings must hash equal: known constants of this length are
        # decided by forking, everything else shares one bucket
        for s in sorted(C().vocab.get(len(self.c), ())):
            if C().branch(self.eq_term(s)):
                return hash(s)
        return 0x5f3759df

    def __contains__(self, o):
        n = self.chars(o)
        return bool(self._contains(n))

    def _contains(self, n):
        k = len(n)
        alts = [z3.And(*[cpt(a) == cpt(b) for a, b in zip(self.c[i:i + k], n)]) if k else z3.BoolVal(True)
                for i in range(len(self.c) - k + 1)]
        return mkbool(z3.Or(*alts)) if alts else False

    def find(self, sub, start=0, end=None):
        n = self.chars(sub)
        k = len(n)
        for i in range(start, len(self.c) - k + 1):
            if C().branch(z3.And(*[cpt(a) == cpt(b) for a, b in zip(self.c[i:i + k], n)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        return len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            seps = lambda c: z3.Or(*[cpt(c) == cpt(w) for w in (9, 10, 11, 12, 13, 32)])
            raise EngineError('whitespace split of a symbolic string')
        out = []
        rest = self
        while maxsplit != 0:
            rest = rest if isinstance(rest, SStr) else SStr([ord(x) for x in rest])
            i = rest.find(sep)
            if i < 0:
                break
            out.append(sstr(rest.c[:i]))
            rest = sstr(rest.c[i + len(sep):])
            maxsplit -= 1
        if isinstance(rest, SStr):
            rest = sstr(rest.c)
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        parts = self.split(sep)
        if maxsplit < 0 or len(parts) <= maxsplit + 1:
            return parts
        head = parts[:len(parts) - maxsplit]
        j = head[0]
        for h in head[1:]:
            j = j + sep + h
        return [j] + parts[len(parts) - maxsplit:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (sstr(self.c[:i]), sep, sstr(self.c[i + len(sep):]))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        n = self.chars(p)
        if len(n) > len(self.c):
            return False
        return mkbool(z3.And(z3.BoolVal(True), *[cpt(a) == cpt(b) for a, b in zip(self.c, n)]))

    def endswith(self, p):
        n = self.chars(p)
        if len(n) > len(self.c):
            return False
        if not n:
            return True
        return mkbool(z3.And(z3.BoolVal(True), *[cpt(a) == cpt(b) for a, b in zip(self.c[-len(n):], n)]))

    def _strip(self, chars, left, right):
        if chars is None:
            cs = [9, 10, 11, 12, 13, 32]
        else:
            cs = self.chars(chars)
        s = list(self.c)
        test = lambda c: C().branch(z3.Or(*[cpt(c) == cpt(w) for w in cs]))
        if left:
            while s and test(s[0]):
                s.pop(0)
        if right:
            while s and test(s[-1]):
                s.pop()
        return sstr(s)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def isdigit(self):
        if not self.c:
            return False
        return mkbool(z3.And(*[z3.And(cpt(c) >= 48, cpt(c) <= 57) for c in self.c]))

    isnumeric = isdecimal = isdigit

    def encode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1'):
            raise EngineError('encoding ' + str(encoding))
        out = []
        enc = str(encoding).lower()
        for c in self.c:
            if isinstance(c, int):
                if errors == 'strict':
                    out.extend(chr(c).encode(encoding))
                else:
                    out.extend(chr(c).encode(encoding, errors))
                continue
            if C().branch(c < 0x80):
                out.append(mkbyte(z3.Extract(7, 0, c)))
                continue
            if enc == 'ascii':
                if errors == 'ignore':
                    continue
                raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)')
            if enc.startswith('latin'):
                if C().branch(c < 0x100):
                    out.append(mkbyte(z3.Extract(7, 0, c)))
                    continue
                raise UnicodeEncodeError('latin-1', 'x', 0, 1, 'ordinal not in range(256)')
            low = lambda sh: z3.BitVecVal(0x80, 8) | z3.Concat(z3.BitVecVal(0, 2), z3.Extract(sh + 5, sh, c))
            if C().branch(c < 0x800):
                out.append(mkbyte(z3.BitVecVal(0xC0, 8) | z3.Concat(z3.BitVecVal(0, 3), z3.Extract(10, 6, c))))
                out.append(mkbyte(low(0)))
            elif C().branch(c < 0x10000):
                if C().branch(z3.And(c >= 0xD800, c <= 0xDFFF)):
                    raise UnicodeEncodeError('utf-8', 'x', 0, 1, 'surrogates not allowed')
                out.append(mkbyte(z3.BitVecVal(0xE0, 8) | z3.Concat(z3.BitVecVal(0, 4), z3.Extract(15, 12, c))))
                out.append(mkbyte(low(6)))
                out.append(mkbyte(low(0)))
            else:
                out.append(mkbyte(z3.BitVecVal(0xF0, 8) | z3.Concat(z3.BitVecVal(0, 5), z3.Extract(20, 18, c))))
                out.append(mkbyte(low(12)))
                out.append(mkbyte(low(6)))
                out.append(mkbyte(low(0)))
        return SBytes(out, False)

    def _each(self, f):
        return sstr([f(c) for c in self.c])

    def lower(self):
        return self._each(lambda c: z3.If(z3.And(cpt(c) >= 65, cpt(c) <= 90), cpt(c) + 32, cpt(c)))

    def upper(self):
        return self._each(lambda c: z3.If(z3.And(cpt(c) >= 97, cpt(c) <= 122), cpt(c) - 32, cpt(c)))

    def replace(self, a, b, n=-1):
        parts = self.split(a)
        r = parts[0]
        for p in parts[1:]:
            r = r + b + p
        return r

    def join(self, it):
        r = None
        for x in it:
            r = x if r is None else r + self + x
        return '' if r is None else r

    def toint(self, base=10):
        """int(str) for plain ASCII decimal digits"""
        if not self.c:
            raise ValueError("invalid literal for int()")
        cs = list(self.c)
        neg = False
        if len(cs) > 1 and C().branch(cpt(cs[0]) == 45):
            neg = True
            cs = cs[1:]
        v = 0
        for c in cs:
            if not C().branch(z3.And(cpt(c) >= 48, cpt(c) <= 57)):
                raise ValueError("invalid literal for int() with base 10")
            v = v * 10 + (mkint(cpt(c) - 48))
        return -v if neg else v

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, spec):
        return shown(self)




class LazyStr(Sym):
    """str(n) of a symbolic integer n, kept symbolic"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if isinstance(o, LazyStr):
            return self.n == o.n
        if isinstance(o, SStr):
            return self.force() == o
        if isinstance(o, str):
            try:
                v = int(o)
            except ValueError:
                return False
            return (self.n == v) if str(v) == o else False
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return 0x1a2b3c

    def force(self):
        return str(self.n.__index__())

    def __len__(self):
        return len(self.force())

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __lt__(self, o):
        a = self.force()
        return a < (o.force() if isinstance(o, LazyStr) else o)

    def encode(self, *a):
        return self.force().encode(*a)

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)


# -------------------------------------------------------------------- bytes
def is_bytes_like(o):
    return isinstance(o, SBytes) or (isinstance(o, (bytes, bytearray)) or type(o) is memoryview)


class SBytes(Sym):
    """bytes / bytearray / memoryview of concrete length; elements are ints or
    8-bit terms"""
    __slots__ = ('b', 'mut', 'ty')

    def __init__(self, b, mut=False, ty=None):
        self.b = b if isinstance(b, list) else list(b)
        self.mut = mut
        self.ty = ty or (bytearray if mut else bytes)

    @property
    def __class__(self):
        return self.ty

    @staticmethod
    def elems(o):
        if isinstance(o, SBytes):
            return o.b
        if isinstance(o, (bytes, bytearray, memoryview)):
            return list(bytes(o))
        if type(o).__name__ == 'SymArr':
            from .models import arr_bytes
            return arr_bytes(o).b
        if isinstance(o, np.ndarray):
            return list(o.tobytes())
        return None

    def concrete(self):
        if all(isinstance(x, int) for x in self.b):
            return bytes(self.b)
        return None

    def __len__(self):
        return len(self.b)

    @property
    def nbytes(self):
        return len(self.b)

    def __iter__(self):
        for x in self.b:
            yield byte_int(x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SBytes(self.b[i], self.mut, self.ty)
        i = i.__index__()
        return byte_int(self.b[i])

    def __setitem__(self, i, v):
        if not self.mut:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            self.b[i] = list(self.elems(v))
        else:
            self.b[i.__index__()] = to_byte(v)

    def __delitem__(self, i):
        del self.b[i]

    def extend(self, o):
        e = self.elems(o)
        if e is None:
            e = [to_byte(x) for x in o]
        self.b.extend(e)

    def append(self, v):
        self.b.append(to_byte(v))

    def clear(self):
        del self.b[:]

    def copy(self):
        return SBytes(list(self.b), self.mut)

    def __deepcopy__(self, memo):
        return SBytes(list(self.b), self.mut, self.ty)

    def __add__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else SBytes(self.b + e, self.mut)

    def __radd__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else SBytes(e + self.b, isinstance(o, bytearray))

    def __iadd__(self, o):
        if self.mut:
            e = self.elems(o)
            if e is None:
                return NotImplemented
            self.b.extend(e)
            return self
        return self + o

    def __mul__(self, n):
        return SBytes(self.b * n.__index__(), self.mut)
    __rmul__ = __mul__

    def eq_term(self, o):
        e = self.elems(o)
        if e is None or len(e) != len(self.b):
            return z3.BoolVal(False)
        ts = []
        for a, b in zip(self.b, e):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return z3.BoolVal(False)
            else:
                ts.append(bterm(a) == bterm(b))
        return z3.And(z3.BoolVal(True), *ts)

    def __eq__(self, o):
        return mkbool(self.eq_term(o))

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        c = self.concrete()
        if c is None:
            raise EngineError('hash of symbolic bytes')
        return hash(c)

    def __contains__(self, v):
        e = self.elems(v)
        if e is None:
            e = [to_byte(v)]
        return self.find(SBytes(e)) >= 0

    def find(self, sub, start=0, end=None):
        e = self.elems(sub)
        if e is None:
            e = [to_byte(sub)]
        start = start.__index__()
        end = len(self.b) if end is None else min(end.__index__(), len(self.b))
        k = len(e)
        for i in range(start, end - k + 1):
            if C().branch(z3.And(z3.BoolVal(True), *[bterm(a) == bterm(b) for a, b in zip(self.b[i:i + k], e)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, SBytes([]), SBytes([]))
        return (self[:i], SBytes(self.elems(sep)), self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        out = []
        rest = self
        while maxsplit != 0:
            i = rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def rstrip(self, chars=None):
        cs = self.elems(chars) if chars is not None else [9, 10, 11, 12, 13, 32]
        s = list(self.b)
        while s and C().branch(z3.Or(*[bterm(s[-1]) == bterm(w) for w in cs])):
            s.pop()
        return SBytes(s, self.mut)

    def startswith(self, p):
        e = self.elems(p)
        return SBytes(self.b[:len(e)]) == SBytes(e)

    def endswith(self, p):
        e = self.elems(p)
        return SBytes(self.b[-len(e):] if e else []) == SBytes(e)

    def tobytes(self, *a):
        return SBytes(list(self.b), False)

    def tolist(self):
        return list(self)

    def release(self):
        pass

    def cast(self, *a):
        return self

    @property
    def itemsize(self):
        return len(self.b) if self.ty is np.bytes_ else 1

    @property
    def dtype(self):
        if self.ty is np.bytes_:
            return np.dtype('S%d' % max(1, len(self.b)))
        raise AttributeError('dtype')

    @property
    def shape(self):
        if self.ty is np.bytes_:
            return ()
        if self.ty is memoryview:
            return (len(self.b),)
        raise AttributeError('shape')

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.b
            out += self.elems(x)
            first = False
        return SBytes(out, False)

    def hex(self):
        return Opaque('<hex>')

    def decode(self, encoding='utf-8', errors='strict'):
        """UTF-8 decoding, forking per lead byte"""
        enc = str(encoding).lower()
        c = self.concrete()
        if c is not None:
            return c.decode(encoding, errors)
        out = []
        i = 0
        b = self.b
        n = len(b)
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return sstr([x if isinstance(x, int) else z3.ZeroExt(CPW - 8, x) for x in b])

        def bad(pos):
            return UnicodeDecodeError(enc, b'\xff', 0, 1, 'invalid start byte')

        def u(x):
            return z3.ZeroExt(CPW - 8, bterm(x))

        def cont(x):
            x = bterm(x)
            return z3.And(z3.UGE(x, 0x80), z3.ULE(x, 0xBF))

        while i < n:
            x = bterm(b[i])
            if C().branch(z3.ULT(x, 0x80)):
                out.append(u(b[i]))
                i += 1
                continue
            if enc == 'ascii' or errors != 'strict':
                if errors != 'strict':
                    raise EngineError('decode with errors=' + errors)
                raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range')
            if C().branch(z3.And(z3.UGE(x, 0xC2), z3.ULE(x, 0xDF))):
                if i + 1 >= n or not C().branch(cont(b[i + 1])):
                    raise bad(i)
                out.append(((u(b[i]) & 0x1F) << 6) | (u(b[i + 1]) & 0x3F))
                i += 2
                continue
            if C().branch(z3.And(z3.UGE(x, 0xE0), z3.ULE(x, 0xEF))):
                if i + 2 >= n or not C().branch(z3.And(
                        cont(b[i + 1]), cont(b[i + 2]),
                        z3.Implies(x == 0xE0, z3.UGE(bterm(b[i + 1]), 0xA0)),
                        z3.Implies(x == 0xED, z3.ULE(bterm(b[i + 1]), 0x9F)))):
                    raise bad(i)
                out.append(((u(b[i]) & 0x0F) << 12) | ((u(b[i + 1]) & 0x3F) << 6) | (u(b[i + 2]) & 0x3F))
                i += 3
                continue
            if C().branch(z3.And(z3.UGE(x, 0xF0), z3.ULE(x, 0xF4))):
                if i + 3 >= n or not C().branch(z3.And(
                        cont(b[i + 1]), cont(b[i + 2]), cont(b[i + 3]),
                        z3.Implies(x == 0xF0, z3.UGE(bterm(b[i + 1]), 0x90)),
                        z3.Implies(x == 0xF4, z3.ULE(bterm(b[i + 1]), 0x8F)))):
                    raise bad(i)
                out.append(((u(b[i]) & 7) << 18) | ((u(b[i + 1]) & 0x3F) << 12)
                           | ((u(b[i + 2]) & 0x3F) << 6) | (u(b[i + 3]) & 0x3F))
                i += 4
                continue
            raise bad(i)
        return sstr(out)

    def __bytes__(self):
        c = self.concrete()
        if c is None:
            C().weaken('symbolic bytes needed concretely')
            w = []
            for x in self.b:
                w.append(x if isinstance(x, int) else
                         C().concretise(x, 'symbolic byte needed concretely').as_long())
            self.b[:] = w
            c = bytes(w)
        return c

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)


def to_byte(v):
    if isinstance(v, SInt):
        if C().branch(tb((v < 0))) or C().branch(tb(v > 255)):
            raise ValueError('byte must be in range(0, 256)')
        t = v.t
        if not z3.is_bv(t):
            t = z3.Int2BV(t, 9)
        if t.size() < 8:
            t = z3.SignExt(8 - t.size(), t)
        return mkbyte(z3.Extract(7, 0, t))
    v = v.__index__()
    if not 0 <= v < 256:
        raise ValueError('byte must be in range(0, 256)')
    return v


# ------------------------------------------------------------------- unions
class SUnion(Sym):
    """a value that is one of several concrete objects, selected by guards
    (exclusive and exhaustive under the path condition)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        object.__setattr__(self, 'alts', alts)

    @property
    def __class__(self):
        """isinstance() asks: fork on the class"""
        return type(self.pick())

    def pick(self):
        """fork until a single alternative remains"""
        alts = self.live()
        for g, v in alts[:-1]:
            if C().branch(g):
                return v
        return alts[-1][1]

    def live(self):
        """the alternatives possible here; the others are dropped for good
        where that is independent of a surrounding merge"""
        r = [(g, v) for g, v in self.alts if C().sat(g)]
        if len(r) < len(self.alts) and not C().guards:
            object.__setattr__(self, 'alts', r)
        if not r:
            raise Infeasible()
        return r

    def narrow(self):
        r = self.live()
        return r[0][1] if len(r) == 1 else self

    def map(self, f):
        """lift f over the alternatives that are possible here"""
        out, bad = [], []
        for g, v in self.alts:
            try:
                out.append((g, f(v)))
            except Exception as e:      # noqa
                bad.append((g, e))
        if not bad:
            return union(out)
        keep = {g.get_id() for g, _ in self.live()}
        out = [(g, r) for g, r in out if g.get_id() in keep]
        bad = [(g, r) for g, r in bad if g.get_id() in keep]
        for g, e in bad:
            if C().branch(g):
                raise e
        if not out:
            raise Infeasible()
        return union(out)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return self.map(lambda v: getattr(v, n))

    def __getitem__(self, i):
        return self.map(lambda v: v[i])

    def __len__(self):
        return len(self.pick())

    def __iter__(self):
        return iter(self.pick())

    def __eq__(self, o):
        return union_eq(self, o)

    def __ne__(self, o):
        return snot(union_eq(self, o))

    def __hash__(self):
        return hash(self.pick())

    def __bool__(self):
        return bool(self.pick())

    def __call__(self, *a, **k):
        return self.pick()(*a, **k)

    def __index__(self):
        return self.pick().__index__()

    def __array__(self, dtype=None):
        return np.asarray(self.pick(), dtype=dtype)

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        r = self.live()
        return format(r[0][1], s) if len(r) == 1 else shown(self)


for _n in ('__add__', '__radd__', '__sub__', '__mul__', '__rmul__', '__truediv__', '__lt__', '__le__',
           '__gt__', '__ge__', '__and__', '__or__', '__float__', '__int__', '__floordiv__', '__mod__', '__pow__',
           '__xor__', '__rsub__', '__rfloordiv__', '__rtruediv__', '__rmod__', '__neg__', '__abs__'):
    def _mk(n):
        import operator
        base = n.strip('_')

        def f(self, *a):
            v = self.pick()
            if base == 'radd':
                return a[0] + v
            if base == 'rmul':
                return a[0] * v
            if base in ('rsub', 'rfloordiv', 'rtruediv', 'rmod'):
                return getattr(operator, base[1:])(a[0], v)
            if base in ('float', 'int'):
                return {'float': float, 'int': int}[base](v)
            return getattr(operator, {'and': 'and_', 'or': 'or_'}.get(base, base))(v, *a)
        return f
    setattr(SUnion, _n, _mk(_n))


def same_obj(a, b):
    if a is b:
        return True
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, int, bool, type(None), bytes)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, np.dtype):
        return a == b
    return False


def union(alts):
    groups = []
    for g, v in alts:
        if isinstance(v, SUnion):
            for g2, v2 in v.alts:
                _merge(groups, z3.And(g, g2), v2)
        else:
            _merge(groups, g, v)
    if len(groups) == 1:
        return groups[0][1]
    vals = [v for _, v in groups]
    if all(type(v) is bool or isinstance(v, SBool) for v in vals):
        t = z3.BoolVal(False)
        for g, v in groups:
            t = z3.Or(t, z3.And(g, tb(v)))
        return mkbool(t)
    return SUnion([(zsimp(g), v) for g, v in groups])


def _merge(groups, g, v):
    for i, (g0, v0) in enumerate(groups):
        if same_obj(v0, v):
            groups[i] = (z3.Or(g0, g), v0)
            return
    groups.append((g, v))


def union_eq(a, b):
    """a == b where at least one is a union, without forking when possible"""
    if not isinstance(a, SUnion):
        a, b = b, a
    ts = []
    for g, v in a.alts:
        if isinstance(b, SUnion):
            for g2, v2 in b.alts:
                ts.append((z3.And(g, g2), v, v2))
        else:
            ts.append((g, v, b))
    t = z3.BoolVal(False)
    for g, x, y in ts:
        try:
            r = tb((x is y) or (x == y))
        except Exception:
            if C().sat(g):
                raise
            continue
        t = z3.Or(t, z3.And(g, r))
    return mkbool(t)


# ----------------------------------------------------- guarded collections
class GSet(Sym):
    """set of concrete (hashable) elements, each present under a guard"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {k: zsimp(g) for k, g in d.items() if not z3.is_false(zsimp(g))}

    @property
    def __class__(self):
        return set

    @staticmethod
    def of(o):
        if isinstance(o, GSet):
            return o
        if isinstance(o, GDict):
            return GSet(dict(o.g))
        if isinstance(o, GView):
            if o.kind == 'keys':
                return GSet(dict(o.d.g))
        if isinstance(o, GList):
            d = {}
            for g, v in o.items:
                d[v] = z3.Or(d[v], g) if v in d else g
            return GSet(d)
        return GSet({k: z3.BoolVal(True) for k in o})

    def simplify(self):
        if all(z3.is_true(g) for g in self.d.values()):
            return set(self.d)
        return self

    def __sub__(self, o):
        o = GSet.of(o)
        return GSet({k: (z3.And(g, z3.Not(o.d[k])) if k in o.d else g) for k, g in self.d.items()}).simplify()

    def __rsub__(self, o):
        return GSet.of(o) - self

    def __or__(self, o):
        o = GSet.of(o)
        d = dict(self.d)
        for k, g in o.d.items():
            d[k] = z3.Or(d[k], g) if k in d else g
        return GSet(d).simplify()
    __ror__ = __or__

    def __and__(self, o):
        o = GSet.of(o)
        return GSet({k: z3.And(g, o.d[k]) for k, g in self.d.items() if k in o.d}).simplify()
    __rand__ = __and__

    def __xor__(self, o):
        return (self - o) | (GSet.of(o) - self)
    __rxor__ = __xor__

    def union(self, *os):
        r = self
        for o in os:
            r = GSet.of(r) | o
        return r

    def difference(self, *os):
        r = self
        for o in os:
            r = GSet.of(r) - o
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            r = GSet.of(r) & o
        return r

    def symmetric_difference(self, o):
        return self ^ o

    def update(self, *os):
        self.d = GSet.of(self.union(*os)).d

    def add(self, k):
        self.d[k] = z3.BoolVal(True)

    def difference_update(self, *os):
        self.d = GSet.of(self.difference(*os)).d

    def discard(self, k):
        self.d.pop(k, None)

    def copy(self):
        return GSet(dict(self.d))

    def has(self, k):
        return mkbool(self.d.get(k, z3.BoolVal(False)))

    def __contains__(self, k):
        return bool(self.has(k))

    def nonempty(self):
        return mkbool(z3.Or(z3.BoolVal(False), *self.d.values()))

    def __bool__(self):
        return bool(self.nonempty())

    def slen(self):
        n = sum(1 for g in self.d.values() if z3.is_true(g))
        ts = [z3.If(g, 1, 0) for g in self.d.values() if not z3.is_true(g)]
        return mkint(z3.Sum([z3.IntVal(n)] + ts))

    def __len__(self):
        return self.slen().__index__()

    def __iter__(self):
        for k, g in list(self.d.items()):
            if C().branch(g):
                yield k

    def issubset(self, o):
        return snot(GSet.of(self - o).nonempty())

    def issuperset(self, o):
        return snot(GSet.of(GSet.of(o) - self).nonempty())

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return mkbool(z3.And(tb(self.issubset(o)), z3.Not(tb(self.issuperset(o)))))

    def __gt__(self, o):
        return mkbool(z3.And(tb(self.issuperset(o)), z3.Not(tb(self.issubset(o)))))

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def intersection_update(self, *os):
        self.d = GSet.of(self.intersection(*os)).d

    def put(self, k, guard):
        self.d[k] = zsimp(z3.Or(self.d[k], guard)) if k in self.d else zsimp(guard)

    def clear(self):
        self.d = {}

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.d.pop(k, None)

    def pop(self):
        for k in self:
            self.d.pop(k, None)
            return k
        raise KeyError('pop from an empty set')

    def isdisjoint(self, o):
        return snot(GSet.of(self & o).nonempty())

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, GSet)):
            return False
        return snot(GSet.of(self ^ o).nonempty())

    def __ne__(self, o):
        return snot(self == o)
    __hash__ = None

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)


class GList(Sym):
    """list whose elements are present under guards, in order"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return list

    def __iter__(self):
        for g, v in self.items:
            if C().branch(g):
                yield v

    def nonempty(self):
        return mkbool(z3.Or(z3.BoolVal(False), *[g for g, _ in self.items]))

    def slen(self):
        return mkint(z3.Sum([z3.IntVal(0)] + [z3.If(g, 1, 0) for g, _ in self.items]))

    def __len__(self):
        return self.slen().__index__()

    def __bool__(self):
        return bool(self.nonempty())

    def force(self):
        return list(iter(self))

    def __getitem__(self, i):
        if type(i) is int and i == 0:
            if not bool(self):
                raise IndexError('list index out of range')
            alts, none = [], z3.BoolVal(True)
            for g, v in self.items:
                alts.append((zsimp(z3.And(none, g)), v))
                if z3.is_true(g):
                    break
                none = z3.And(none, z3.Not(g))
            return union(alts)
        return self.force()[i]

    def __add__(self, o):
        return self.force() + list(o)

    def __radd__(self, o):
        return list(o) + self.force()

    def append(self, v):
        self.items.append((z3.BoolVal(True), v))

    def put(self, v, guard):
        self.items.append((guard, v))

    def extend(self, o):
        self.items += o.items if isinstance(o, GList) else [(z3.BoolVal(True), v) for v in o]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def _forced(self, name, *a, **k):
        l = self.force()
        r = getattr(l, name)(*a, **k)
        self.items = [(z3.BoolVal(True), v) for v in l]
        return r

    def sort(self, *a, **k):
        return self._forced('sort', *a, **k)

    def pop(self, *a):
        return self._forced('pop', *a)

    def insert(self, *a):
        return self._forced('insert', *a)

    def remove(self, *a):
        return self._forced('remove', *a)

    def reverse(self):
        self.items.reverse()

    def clear(self):
        self.items = []

    def index(self, *a):
        return self._forced('index', *a)

    def count(self, *a):
        return self._forced('count', *a)

    def copy(self):
        return GList(list(self.items))

    def __setitem__(self, i, v):
        self._forced('__setitem__', i, v)

    def __delitem__(self, i):
        self._forced('__delitem__', i)

    def __reversed__(self):
        return iter(self.force()[::-1])

    def __deepcopy__(self, memo):
        import copy
        return GList([(g, copy.deepcopy(v, memo)) for g, v in self.items])

    def __eq__(self, o):
        if isinstance(o, list) and not isinstance(o, Sym) and not o:
            return snot(self.nonempty())
        return self.force() == o

    def __contains__(self, v):
        return bool(self.has(v))

    def has(self, v):
        return mkbool(z3.Or(z3.BoolVal(False), *[z3.And(g, tb(x == v)) for g, x in self.items]))

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)


class LSet(Sym):
    """set of numbers some of which are symbolic: equalities between its elements are terms, not decisions"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return set

    @staticmethod
    def of(items):
        """LSet of [(guard, value)] if it can be one, else None"""
        num = (bool, int, float, np.integer, np.floating, np.bool_)
        def ok(v):
            if type(v) is SUnion:
                return all(ok(w) for _, w in v.alts)
            return type(v) in (SInt, SBool, SReal, bool, int, float) or not isinstance(v, Sym) and isinstance(v, num)
        if any(type(v) in (SInt, SBool, SReal, SUnion) for _, v in items) and all(ok(v) for _, v in items):
            return LSet(list(items))
        return None

    def force(self):
        return set((v.pick() if type(v) is SUnion else v) for g, v in self.items if C().branch(g))

    def slen(self):
        ts = []
        for i, (g, x) in enumerate(self.items):
            ts.append(z3.If(z3.And(g, *[z3.Not(z3.And(h, tb(x == y))) for h, y in self.items[:i]]), 1, 0))
        return mkint(z3.Sum([z3.IntVal(0)] + ts))

    def __len__(self):
        return self.slen().__index__()

    def nonempty(self):
        return mkbool(z3.Or(z3.BoolVal(False), *[g for g, _ in self.items]))

    def __bool__(self):
        return bool(self.nonempty())

    def has(self, v):
        if not isinstance(v, (SInt, SBool, SReal, int, float, bool, np.number, np.bool_)):
            return False
        return mkbool(z3.Or(z3.BoolVal(False), *[z3.And(g, tb(x == v)) for g, x in self.items]))

    def __contains__(self, v):
        return bool(self.has(v))

    def __iter__(self):
        return iter(self.force())

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        if isinstance(o, LSet):
            os = o.items
        elif isinstance(o, GSet):
            os = [(g, k) for k, g in o.d.items()]
        else:
            os = [(z3.BoolVal(True), k) for k in o]
        a = [z3.Implies(g, z3.Or(z3.BoolVal(False), *[z3.And(h, tb(x == y)) for h, y in os])) for g, x in self.items]
        b = [z3.Implies(h, z3.Or(z3.BoolVal(False), *[z3.And(g, tb(x == y)) for g, x in self.items])) for h, y in os]
        return mkbool(z3.And(z3.BoolVal(True), *a, *b))

    def __ne__(self, o):
        return snot(self == o)
    __hash__ = None

    def add(self, v):
        self.items.append((z3.BoolVal(True), v))

    def put(self, v, guard):
        self.items.append((guard, v))

    def pop(self):
        for i, (g, v) in enumerate(self.items):
            if C().branch(g):
                self.items = [(h, y) for h, y in self.items[:i] + self.items[i + 1:] if not bool(y == v)]
                return v
        raise KeyError('pop from an empty set')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __sub__(self, o):
        return self.force() - set(o)

    def __rsub__(self, o):
        return set(o) - self.force()

    def __or__(self, o):
        return self.force() | set(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.force() & set(o)
    __rand__ = __and__

    def __xor__(self, o):
        return self.force() ^ set(o)
    __rxor__ = __xor__

    def __le__(self, o):
        return self.force() <= set(o)

    def __ge__(self, o):
        return self.force() >= set(o)

    def __lt__(self, o):
        return self.force() < set(o)

    def __gt__(self, o):
        return self.force() > set(o)

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)


class GView(Sym):
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def gitems(self):
        for k in list(self.d.v):
            yield self.d.g[k], (k if self.kind == 'keys' else self.d.v[k] if self.kind == 'values' else (k, self.d.v[k]))

    def __iter__(self):
        for g, x in self.gitems():
            if C().branch(g):
                yield x

    def slen(self):
        return self.d.slen()

    def __len__(self):
        return len(self.d)

    def __sub__(self, o):
        return GSet.of(self) - o

    def __rsub__(self, o):
        return GSet.of(o) - GSet.of(self)

    def __and__(self, o):
        return GSet.of(self) & o

    def __or__(self, o):
        return GSet.of(self) | o

    def __xor__(self, o):
        return GSet.of(self) ^ o

    def __eq__(self, o):
        return GSet.of(self) == (o if isinstance(o, (set, GSet)) else set(o))

    def has(self, k):
        return self.d.has(k)

    def __contains__(self, k):
        return k in self.d

    def isdisjoint(self, o):
        return GSet.of(self).isdisjoint(o)

    def __le__(self, o):
        return GSet.of(self) <= GSet.of(o)

    def __ge__(self, o):
        return GSet.of(self) >= GSet.of(o)
    __hash__ = None

    def __repr__(self):
        return shown(self)
    __str__ = __repr__


class GDict(Sym):
    """dict with concrete keys, each present under a guard"""
    __slots__ = ('g', 'v', 'base')

    def __init__(self, g=None, v=None, base=dict):
        self.g = g or {}
        self.v = v or {}
        self.base = base

    @property
    def __class__(self):
        return self.base

    def put(self, k, guard, v):
        self.g[k] = guard
        self.v[k] = v

    def keys(self):
        return GView(self, 'keys')

    def values(self):
        return GView(self, 'values')

    def items(self):
        return GView(self, 'items')

    def __iter__(self):
        return iter(self.keys())

    def has(self, k):
        return mkbool(self.g[k]) if k in self.g else False

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if isinstance(k, SUnion):
            k = k.pick()
        if k not in self.g:
            raise KeyError(k)
        g = self.g[k]
        if z3.is_true(g):
            return self.v[k]
        if C().guards and not C().sat(z3.Not(g)):
            return self.v[k]
        if C().branch(g):
            return self.v[k]
        raise KeyError(k)

    def get(self, k, default=None):
        if k in self.g and C().branch(self.g[k]):
            return self.v[k]
        return default

    def __setitem__(self, k, v):
        self.put(k, z3.BoolVal(True), v)

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *d):
        if k in self.g and C().branch(self.g[k]):
            del self.g[k]
            return self.v.pop(k)
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def clear(self):
        self.g, self.v = {}, {}

    def gput(self, k, guard, v):
        """self[k] = v under a guard"""
        if k in self.g:
            self.put(k, zsimp(z3.Or(self.g[k], guard)), union([(guard, v), (z3.And(z3.Not(guard), self.g[k]), self.v[k])]))
        else:
            self.put(k, guard, v)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, GDict):
                for k in o.v:
                    g = o.g[k]
                    if k in self.g and not z3.is_true(zsimp(g)):
                        self.put(k, zsimp(z3.Or(self.g[k], g)),
                                 union([(g, o.v[k]), (z3.And(z3.Not(g), self.g[k]), self.v[k])]))
                    else:
                        self.put(k, g, o.v[k])
            else:
                for k in o:
                    self[k] = o[k]
        for k, v in kw.items():
            self[k] = v

    def slen(self):
        return GSet(dict(self.g)).slen() if self.g else 0

    def __len__(self):
        n = self.slen()
        return n if isinstance(n, int) and not isinstance(n, Sym) else n.__index__()

    def nonempty(self):
        return mkbool(z3.Or(z3.BoolVal(False), *self.g.values()))

    def __bool__(self):
        return bool(self.nonempty())

    def copy(self):
        return GDict(dict(self.g), dict(self.v), self.base)

    def __deepcopy__(self, memo):
        import copy
        return GDict(dict(self.g), {k: copy.deepcopy(v, memo) for k, v in self.v.items()}, self.base)

    def __eq__(self, o):
        if isinstance(o, dict) and not isinstance(o, Sym) and not o:
            return snot(self.nonempty())
        return self is o
    __hash__ = None

    def __repr__(self):
        return shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return shown(self)
