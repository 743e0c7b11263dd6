"""Models of the Python builtins, struct, numpy creators, os and datetime that
the code under test calls with symbolic values, and the call dispatcher."""
import builtins
import collections
import copy as _copy
import datetime as _dt
import functools
import io
import logging
import math
import operator
import os
import pathlib
import string as _string
import struct as _struct
import sys
import types
import numpy as np
from .core import z3, C, CUR, const_int, EngineError, Infeasible
from . import values as V
from . import arr as A
from .values import (Sym, SBool, SInt, SFlt, SReal, SCplx, SStr, LazyStr, Opaque, SBytes, SUnion, GSet,
                     GList, GView, GDict, mkbool, mkint, tb, snot, union, sstr)
from .arr import SymArr, raw, mk, np_array

WIDTH = V._INTW


# ------------------------------------------------------------------- scalars
def cast_scalar(x, ty):
    """value of x stored in numpy dtype/type ty"""
    dt = np.dtype(ty)
    ty = dt.type
    if isinstance(x, SUnion):
        x = x.pick()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, np.ndarray):
        raise ValueError('setting an array element with a sequence.')
    if not isinstance(x, Sym):
        if dt.kind in 'US':
            r = np.array([x], dtype=dt)[0] if dt.itemsize else np.array([x]).astype(dt)[0]
            return r
        if type(x) is ty:
            return x
        if dt.kind == 'O':
            return x
        with np.errstate(all='ignore'):
            if isinstance(x, (complex, np.complexfloating)) and dt.kind in 'fiub':
                x = x.real
            return np.array([x]).astype(dt)[0] if not isinstance(x, str) else np.array([x], dtype=dt)[0]
    if dt.kind == 'O':
        return x
    if isinstance(x, LazyStr):
        x = x.force()
        return cast_scalar(x, dt)
    if isinstance(x, SBool):
        if ty is np.bool_:
            return SBool(x.t, np.bool_)
        x = x.asint()
        if not isinstance(x, Sym):
            return cast_scalar(x, dt)
    if isinstance(x, SInt):
        if ty in WIDTH:
            return V.int_to_type(x, ty)
        if dt.kind == 'f':
            return SReal(x.asreal(), ty)
        if dt.kind == 'c':
            return SCplx(SReal(x.asreal(), np.float64), 0.0, ty)
        if ty is np.bool_:
            return SBool(x.t != x.k(0), np.bool_)
        if dt.kind == 'U':
            return np.str_(str(x.__index__()))
    if isinstance(x, SFlt):
        if dt.kind == 'f' and dt.itemsize in (4, 8):
            return x.cast(ty)
        if dt.kind == 'b':
            return bool(x)
        return cast_scalar(x._conc('cast to %s' % dt), dt)
    if isinstance(x, SReal):
        if dt.kind == 'f':
            return SReal(x.t, ty, x.nan)
        if dt.kind == 'c':
            return SCplx(x, 0.0, ty)
        if ty in WIDTH:
            r = V.trunc_int(x)
            return V.int_to_type(r, ty) if isinstance(r, SInt) else ty(r)
        if ty is np.bool_:
            return SBool(tb(x), np.bool_)
    if isinstance(x, SCplx):
        if dt.kind == 'c':
            return SCplx(x.re, x.im, ty)
        return cast_scalar(x.re, dt)
    if isinstance(x, SStr):
        if dt.kind == 'U':
            n = dt.itemsize // 4
            return sstr(x.c[:n] if n else x.c, np.str_)
        if dt.kind == 'S':
            b = x.encode('ascii')
            return SBytes(b.b[:dt.itemsize] if dt.itemsize else b.b, False, np.bytes_)
        return cast_scalar(x.toint(), dt)
    if isinstance(x, SBytes):
        if dt.kind == 'S':
            return SBytes(x.b[:dt.itemsize] if dt.itemsize else x.b, False, np.bytes_)
        if dt.kind == 'U':
            s = x.decode('ascii')
            return sstr(SStr.chars(s), np.str_)
    if isinstance(x, (GDict, GList, GSet)):
        raise TypeError('cannot convert')
    raise EngineError('cast %s to %s' % (type(x), dt))


def scalar_bytes(e, dt):
    """little-endian bytes of an element whose value already has dtype dt"""
    dt = np.dtype(dt)
    if not isinstance(e, Sym):
        if dt.kind in 'US':
            return list(np.array([e], dtype=dt).tobytes())
        return list(np.array([e]).astype(dt.newbyteorder('<')).tobytes())
    if isinstance(e, SInt):
        return V.pack_int(e, dt.itemsize).b
    if isinstance(e, SFlt):
        return e.cast(dt.type).tobytes().b
    if isinstance(e, SBool):
        return [V.mkbyte(z3.If(e.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    if isinstance(e, SBytes):
        return e.b + [0] * (dt.itemsize - len(e.b))
    if isinstance(e, SReal):
        # bytes of a value modelled as a real: fix it
        return scalar_bytes(e.ty(e._conc()), dt)
    return scalar_bytes(A.conc_value(e, 'bytes of element'), dt)


def s_ite(c, a, b):
    """if-then-else on values without forking where a common sort exists"""
    t = tb(c)
    t = z3.simplify(t)
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    if a is b:
        return a
    num = (int, float, np.integer, np.floating)
    if isinstance(a, (SReal, SInt) + num) and isinstance(b, (SReal, SInt) + num) and not isinstance(a, (SFlt, bool)):
        if isinstance(a, SReal) or isinstance(b, SReal):
            x, y = V.to_real(a), V.to_real(b)
            if x is not None and y is not None:
                nan = None
                if x.nan is not None or y.nan is not None:
                    f = z3.BoolVal(False)
                    nan = z3.If(t, x.nan if x.nan is not None else f, y.nan if y.nan is not None else f)
                return V.mkreal(z3.If(t, x.t, y.t), x.ty, nan)
        elif isinstance(a, SInt) or isinstance(b, SInt):
            x = a if isinstance(a, SInt) else SInt(z3.IntVal(int(a)), type(a))
            p, q, w = x._co(b)
            return mkint(z3.If(t, p, q), x.ty)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(t, tb(a), tb(b)))
    return a if C().branch(t) else b


# ------------------------------------------------------------------ dispatch
MODELS = {}
METHODS = {}


def model(*fs):
    def d(g):
        for f in fs:
            MODELS[f] = g
        return g
    return d


def symbolic(x, depth=2):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArr):
        return True
    if depth and type(x) in (list, tuple):
        return any(symbolic(e, depth - 1) for e in x)
    if depth and type(x) in (dict, collections.OrderedDict):
        return any(symbolic(k, 0) or symbolic(v, depth - 1) for k, v in x.items())
    return False


CONTAINERS = (list, collections.deque, dict, collections.OrderedDict, set, collections.defaultdict)
MOVES = {'append', 'appendleft', 'extend', 'insert', 'pop', 'popleft', 'popitem', 'clear', 'copy', 'update',
         'setdefault', 'items', 'keys', 'values', 'get', 'reverse', 'add', 'move_to_end', 'extendleft', 'rotate',
         '__setitem__', '__getitem__', 'fromkeys', 'discard', 'remove'}
SAFE = {id(f) for f in (copy_f for copy_f in (
    _copy.copy, _copy.deepcopy, builtins.id, builtins.print, builtins.repr, builtins.getattr, builtins.setattr,
    builtins.hasattr, builtins.delattr, builtins.callable, builtins.vars, builtins.super, builtins.property,
    builtins.staticmethod, builtins.classmethod, builtins.slice, builtins.object, builtins.globals,
    builtins.locals, functools.partial, functools.reduce, operator.mul, operator.add, operator.itemgetter,
    builtins.next, collections.namedtuple, collections.deque, collections.defaultdict, sys.exc_info,
    operator.eq, operator.ne, operator.lt, operator.gt, operator.attrgetter, functools.wraps))}


MAPPED = (np.shape, np.ndim, np.size, np.isscalar, np.iscomplexobj, np.isrealobj)      # asked of each alternative without forking
UNION_AWARE = (isinstance, type, getattr, hasattr, setattr)


def call(f, *a, **k):
    """every call made by instrumented code goes through here"""
    if type(f) is SUnion:
        return call(f.pick(), *a, **k)
    if len(a) == 1 and not k and type(a[0]) is SUnion and any(f is x for x in MAPPED):
        return a[0].map(lambda v: call(f, v))
    if isinstance(f, (types.FunctionType,)):
        m = MODELS.get(f)
        return f(*a, **k) if m is None else m(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        if any(type(x) is SUnion for x in a) and f not in UNION_AWARE:
            forced = (getattr(f, '__module__', None) or '').split('.')[0] in ('numpy', '_struct', 'struct')
            a = [(x.pick() if forced else x.narrow()) if type(x) is SUnion else x for x in a]
        return m(*a, **k)
    if isinstance(f, types.MethodType):
        m = MODELS.get(f.__func__)
        if isinstance(f.__self__, logging.Logger):
            return None
        if m is not None:
            return m(f.__self__, *a, **k)
        return f(*a, **k)
    self = getattr(f, '__self__', None)
    name = getattr(f, '__name__', '')
    if name == '__init__' and (isinstance(self, BaseException) or issubclass(getattr(f, '__objclass__', int), BaseException)):
        return f(*a, **k)
    if self is not None and not isinstance(self, types.ModuleType) and not isinstance(self, type):
        if isinstance(self, Sym) or isinstance(self, SymArr):
            return f(*a, **k)
        if type(self) in (str, Opaque, np.str_):
            return str_method(self, name, f, a, k)
        if type(self) in (bytes, bytearray, np.bytes_, memoryview):
            return bytes_method(self, name, f, a, k)
        if isinstance(self, CONTAINERS):
            return container_method(self, name, f, a, k)
        if isinstance(self, _struct.Struct):
            return struct_obj(self, name, f, a, k)
        if isinstance(self, np.ndarray):
            if symbolic(a) or symbolic(k):
                return getattr(A.to_sym(self), name)(*a, **k)
            return f(*a, **k)
        if isinstance(self, np.ufunc):
            return getattr(f, '__call__')(*a, **k)
    if isinstance(self, type):
        key = (self, name)
        m = METHODS.get(key)
        if m is not None:
            return m(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f.__module__ not in ('builtins', 'numpy', 'collections', 'datetime'):
            return f(*a, **k)
        if f in (list, dict):
            pass
    if isinstance(f, np.ufunc):
        if symbolic(a) or symbolic(k):
            a = [A.to_sym(x) if isinstance(x, np.ndarray) else x for x in a]
            out = k.pop('out', None)
            if isinstance(out, tuple):
                out = out[0]
            a, outs = a[:f.nin], a[f.nin:]
            if outs:
                out = outs[0]
            return A.ufunc_call(f, [np_array(x) if isinstance(x, (list, tuple, GList)) else x for x in a],
                                out, k.get('dtype'), k.get('where', True))
        return f(*a, **k)
    if f in A.FUNCS and (symbolic(a) or symbolic(k)):
        a = [A.to_sym(x) for x in a]
        if a and isinstance(a[0], GList):
            a[0] = a[0].force()
        return A.FUNCS[f](*a, **k)
    if id(f) in SAFE or not (symbolic(a) or symbolic(k)):
        return f(*a, **k)
    if getattr(f, '__module__', None) and isinstance(getattr(f, '_implementation', None), types.FunctionType):
        # numpy dispatched function: __array_function__ decides
        a = [np_array(x) if type(x) in (list, tuple, GList) and symbolic((x,)) else x for x in a]
        return f(*a, **k)
    if isinstance(f, (types.BuiltinFunctionType, type, types.BuiltinMethodType, types.MethodWrapperType)):
        why = 'unmodelled call %s' % (getattr(f, '__qualname__', None) or f)
        a = [conc_deep(x, why) for x in a]
        k = {kk: conc_deep(x, why) for kk, x in k.items()}
    return f(*a, **k)


def conc_deep(x, why):
    if isinstance(x, SymArr):
        return A.force(x, why)
    if isinstance(x, Sym):
        return A.conc_value(x, why)
    if type(x) in (list, tuple):
        return type(x)(conc_deep(e, why) for e in x)
    if type(x) in (dict, collections.OrderedDict):
        return type(x)((k, conc_deep(v, why)) for k, v in x.items())
    return x


# --------------------------------------------------------------- str methods
_fmt = _string.Formatter()


def to_text(v, spec='', conv=None):
    """text of one formatted value: str, SStr, LazyStr (only whole-value), or Opaque"""
    if isinstance(v, SUnion):
        v = v.narrow()
    if isinstance(v, SUnion):
        if len(v.alts) > 6:
            return Opaque(V.shown(v))
        v = v.pick()
    if conv == 'r' and isinstance(v, (Sym, SymArr)):
        return Opaque(V.shown(v))
    if isinstance(v, SStr) and spec in ('', 's'):
        return v
    if isinstance(v, LazyStr):
        return v if spec in ('', 's') else Opaque('<int-text>')
    if isinstance(v, SInt):
        if spec in ('', 'd'):
            return LazyStr(SInt(v.t, int))
        r = Opaque(V.shown(v))
        return r
    if isinstance(v, (Sym, SymArr)) or symbolic(v, 3):
        return Opaque(V.shown(v))
    if conv == 'r':
        v = repr(v)
    elif conv == 's':
        v = str(v)
    return format(v, spec)


def join_text(parts):
    parts = [p for p in parts if not (isinstance(p, str) and not isinstance(p, Sym) and p == '')]
    if any(type(p) is Opaque for p in parts):
        return Opaque(''.join(str(p) if not isinstance(p, Sym) else V.shown(p) for p in parts))
    if len(parts) == 1:
        return parts[0]
    if not any(isinstance(p, Sym) for p in parts):
        return ''.join(parts)
    if any(isinstance(p, LazyStr) for p in parts):
        return LazyCat(parts)
    r = []
    for p in parts:
        r += SStr.chars(p)
    return sstr(r)


class LazyCat(LazyStr):
    """text with integers embedded: only forced (forking on the integers) if
    it is used as data"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, LazyCat) else [p]

    def force(self):
        r = []
        for p in self.parts:
            if isinstance(p, LazyStr):
                p = p.force()
            r += SStr.chars(p)
        return sstr(r)

    def __eq__(self, o):
        if isinstance(o, LazyCat) and len(o.parts) == len(self.parts):
            if all(type(a) is type(b) for a, b in zip(self.parts, o.parts)):
                r = [tb(a == b) for a, b in zip(self.parts, o.parts)]
                if all(isinstance(p, LazyStr) or p == q for p, q in zip(self.parts, o.parts)):
                    return mkbool(z3.And(*r))
        return self.force() == (o.force() if isinstance(o, LazyStr) else o)

    def __hash__(self):
        return hash(self.force())


def str_format(s, a, k):
    parts = []
    auto = 0
    for lit, field, spec, conv in _fmt.parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        elif field.split('.')[0].split('[')[0] == '':
            field = str(auto) + field
            auto += 1
        obj, _ = _fmt.get_field(field, a, k)
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        parts.append(to_text(obj, spec, conv))
    return join_text(parts)


def undecided(x):
    gs = x.items if type(x) is GList else [(g, k) for k, g in x.d.items()] if type(x) is GSet else \
        x.gitems() if type(x) is GView else [(g, k) for k, g in x.g.items()]
    return sum(1 for g, _ in gs if not z3.is_true(g)) > 3


def str_method(s, name, f, a, k):
    if not (symbolic(a) or symbolic(k)):
        return f(*a, **k)
    if name == 'format':
        return str_format(s, a, k)
    if name == 'join':
        if type(a[0]) in (GList, GSet, GView, GDict) and undecided(a[0]):
            # which elements there are is open: text for messages
            return Opaque(V.shown(a[0]))
        it = list(a[0])
        parts = []
        for i, x in enumerate(it):
            if i:
                parts.append(s)
            if isinstance(x, SUnion):
                x = x.pick()
            if not isinstance(x, str):
                raise TypeError('sequence item %d: expected str instance' % i)
            parts.append(x)
        return join_text(parts)
    a = tuple(x.force() if isinstance(x, LazyStr) else x for x in a)
    if any(isinstance(x, SStr) for x in a):
        return getattr(SStr([ord(c) for c in s]), name)(*a, **k)
    a = [conc_deep(x, 'str.' + name) for x in a]
    return f(*a, **k)


def bytes_method(s, name, f, a, k):
    if not (symbolic(a) or symbolic(k)):
        return f(*a, **k)
    if name == 'join':
        return SBytes(list(s), False).join([x for x in a[0]])
    if isinstance(s, bytearray) and name in ('extend', 'append', '__iadd__'):
        raise EngineError('real bytearray mutated with symbolic data')
    return getattr(SBytes(list(bytes(s)), False), name)(*a, **k)


def container_method(c, name, f, a, k):
    if name in ('get', 'pop', 'setdefault') and a and isinstance(a[0], SUnion):
        a = (a[0].pick(),) + a[1:]
    if name in ('update',) and isinstance(c, dict):
        for o in a:
            if isinstance(o, GDict):
                for kk in o.v:
                    if kk in c and not z3.is_true(V.zsimp(o.g[kk])):
                        c[kk] = union([(o.g[kk], o.v[kk]), (z3.Not(o.g[kk]), c[kk])])
                    elif C().branch(o.g[kk]):
                        c[kk] = o.v[kk]
            else:
                c.update(o)
        c.update(**k)
        return None
    if isinstance(c, set) and name in ('union', 'difference', 'intersection', 'symmetric_difference', 'issubset',
                                       'issuperset', 'isdisjoint'):
        if any(isinstance(x, (GSet, GDict, GView, GList)) for x in a):
            return getattr(GSet.of(c), name)(*a)
        return f(*a, **k)
    if isinstance(c, set) and name in ('update', 'difference_update', 'intersection_update'):
        a = [set(iter(x)) if isinstance(x, Sym) else x for x in a]
        return getattr(c, name)(*a)
    if name == 'extend' and a and isinstance(a[0], GList):
        c.extend(a[0].force())
        return None
    if name == 'index' or name == 'count' or name == 'remove':
        if symbolic(a):
            for i, x in enumerate(c):
                if bool(x == a[0]):
                    if name == 'index':
                        return i
            if name == 'index':
                raise ValueError('not in list')
    if name == 'sort' and symbolic(list(c)):
        c[:] = s_sorted(c, **k)
        return None
    return f(*a, **k)


# ------------------------------------------------------------------ builtins
@model(len)
def s_len(x):
    if type(x) is SUnion:
        return x.map(s_len)
    if isinstance(x, (GSet, GList, GView, GDict, V.LSet)):
        return x.slen()
    if isinstance(x, SUnion):
        return x.map(s_len)
    if isinstance(x, SRange):
        return x.slen()
    return len(x)


class SRange(Sym):
    """range with symbolic bounds (unit step), iterated lazily"""
    __slots__ = ('a', 'b', 'step')

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.a
        while bool((i < self.b) if self.step > 0 else (i > self.b)):
            yield i
            i = i + self.step

    def slen(self):
        if self.step != 1:
            return len(list(iter(self)))
        return s_max(self.b - self.a, 0)

    def __len__(self):
        return self.slen().__index__()

    def has(self, x):
        return bool(x >= self.a) and bool(x < self.b)

    def __contains__(self, x):
        return bool(self.has(x))

    def __getitem__(self, i):
        return list(iter(self))[i]

    def __reversed__(self):
        return reversed(list(iter(self)))


@model(range)
def s_range(*a):
    if not symbolic(a):
        return range(*a)
    a = [x.pick() if isinstance(x, SUnion) else x for x in a]
    for x in a:
        if isinstance(x, (SReal, SFlt, SStr)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    return SRange(a[0], a[1], a[2].__index__())


@model(int)
def s_int(x=0, *a, **k):
    if isinstance(x, SUnion):
        x = x.pick()
    if isinstance(x, SInt):
        return mkint(x.t, int)
    if isinstance(x, SBool):
        return x.asint()
    if isinstance(x, SReal):
        if x.nan is not None and C().branch(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return V.trunc_int(x)
    if isinstance(x, SFlt):
        return int(x._conc('int()'), *a)
    if isinstance(x, LazyStr):
        if type(x) is LazyStr:
            return mkint(x.n.t, int)
        return s_int(x.force())
    if isinstance(x, SStr):
        return x.toint(*a)
    if isinstance(x, SBytes):
        return x.decode('ascii').toint() if isinstance(x.decode('ascii'), SStr) else int(x.decode('ascii'))
    if isinstance(x, SymArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return s_int(raw(x).reshape(-1)[0])
    if isinstance(x, (SCplx,)):
        raise TypeError('int() argument must be a string')
    return int(x, *a, **k)


@model(float)
def s_float(x=0.0):
    if isinstance(x, SUnion):
        x = x.pick()
    if isinstance(x, SInt):
        return SReal(x.asreal(), float)
    if isinstance(x, SBool):
        return s_float(x.asint())
    if isinstance(x, SReal):
        return SReal(x.t, float, x.nan)
    if isinstance(x, SFlt):
        return SFlt(x.bits(64), float)
    if isinstance(x, SymArr):
        return s_float(raw(x).reshape(-1)[0])
    if isinstance(x, (SStr, LazyStr)):
        x = A.conc_value(x, 'float(str)')
    return float(x)


@model(complex)
def s_complex(a=0, *b):
    if symbolic(a) or symbolic(b):
        if not b and isinstance(a, SCplx):
            return SCplx(a.re, a.im, complex)
        return SCplx(V.to_real(a), V.to_real(b[0]) if b else 0.0, complex)
    return complex(a, *b)


@model(bool)
def s_bool(x=False):
    if isinstance(x, SUnion):
        return x.map(s_bool)
    if isinstance(x, (SBool, SInt, SReal, GSet, GList, GDict, V.LSet)):
        if isinstance(x, GDict):
            return x.nonempty()
        return mkbool(tb(x))
    return bool(x)


@model(str)
def s_str(x='', *a, **k):
    if isinstance(x, SUnion):
        return x.map(s_str)
    if isinstance(x, SInt):
        return LazyStr(SInt(x.t, int))
    if isinstance(x, (SStr,)):
        return sstr(x.c)
    if isinstance(x, LazyStr):
        return x
    if isinstance(x, SBytes):
        if a or k:
            return x.decode(*a, **k)
        return Opaque(V.shown(x))
    if isinstance(x, (Sym, SymArr)) or symbolic(x):
        return Opaque(V.shown(x))
    return str(x, *a, **k)


@model(repr, format, ascii)
def s_repr(x, *a):
    if isinstance(x, (Sym, SymArr)) or symbolic(x):
        return Opaque(V.shown(x))
    return repr(x) if not a else format(x, *a)


@model(bytes)
def s_bytes(x=b'', *a, **k):
    if isinstance(x, (SBytes, SymArr)):
        return SBytes(list(SBytes.elems(x)), False)
    if isinstance(x, SStr):
        return x.encode(*a, **k)
    if isinstance(x, LazyStr):
        return s_bytes(x.force(), *a, **k)
    if isinstance(x, SInt):
        return SBytes([0] * x.__index__(), False)
    if isinstance(x, (GList, list, tuple)) and symbolic(x):
        return SBytes([V.to_byte(e) for e in x], False)
    return bytes(x, *a, **k)


@model(bytearray)
def s_bytearray(x=b'', *a, **k):
    r = s_bytes(x, *a, **k) if not isinstance(x, (bytes, bytearray)) or a or k else x
    return SBytes(list(SBytes.elems(r)), True)


@model(memoryview)
def s_memoryview(x):
    if isinstance(x, SBytes):
        r = SBytes([], False, memoryview)
        r.b = x.b                 # shares storage
        return r
    if isinstance(x, SymArr):
        return SBytes(A.arr_bytes(x).b, False, memoryview)
    return memoryview(x)


@model(chr)
def s_chr(n):
    if isinstance(n, (SFlt, SReal, SStr, SBytes, SUnion)):
        if isinstance(n, SUnion):
            return s_chr(n.pick())
        raise TypeError('an integer is required')
    if isinstance(n, SInt):
        if C().branch(tb(n < 0)) or C().branch(tb(n > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        t = n.t
        if not z3.is_bv(t):
            t = z3.Int2BV(t, V.CPW)
        t = V.bvext(t, V.CPW) if t.size() < V.CPW else z3.Extract(V.CPW - 1, 0, t)
        return sstr([t])
    return chr(n)


@model(ord)
def s_ord(c):
    if isinstance(c, LazyStr):
        c = c.force()
    if isinstance(c, SStr):
        if len(c.c) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c.c[0]) if not isinstance(c.c[0], int) else c.c[0]
    if isinstance(c, SBytes):
        return c[0]
    return ord(c)


@model(hash)
def s_hash(x):
    return hash(x)


@model(type)
def s_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SUnion):
        return x.map(s_type)
    if isinstance(x, SymArr):
        return np.ndarray
    if isinstance(x, Sym):
        return x.__class__
    if type(x) is Opaque:
        return str
    return type(x)


@model(isinstance)
def s_isinstance(x, t):
    if isinstance(x, SUnion):
        return x.map(lambda v: s_isinstance(v, t))
    if isinstance(x, Sym):
        if isinstance(t, tuple):
            return any(s_isinstance(x, u) for u in t)
        return issubclass(x.__class__, t)
    return isinstance(x, t)


@model(callable)
def s_callable(x):
    return callable(x)


def guarded(it):
    """[(guard, element)] of an iterable, without forking"""
    if isinstance(it, V.LSet):
        it = it.force()
    if isinstance(it, GList):
        return list(it.items)
    if isinstance(it, GSet):
        return [(g, k) for k, g in it.d.items()]
    if isinstance(it, GDict):
        return [(it.g[k], k) for k in it.v]
    if isinstance(it, GView):
        return list(it.gitems())
    if isinstance(it, SUnion):
        it = it.pick()
        return guarded(it)
    t = z3.BoolVal(True)
    return [(t, x) for x in it]


def is_g(x):
    return isinstance(x, (GList, GSet, GDict, GView))


@model(any)
def s_any(it):
    ts = []
    for g, x in guarded(it):
        if isinstance(x, (SBool, bool, SInt, np.bool_)) or is_g(x):
            ts.append(z3.And(g, tb(x)))
        else:
            ts.append(z3.And(g, z3.BoolVal(bool(x))))
    return mkbool(z3.Or(z3.BoolVal(False), *ts))


@model(all)
def s_all(it):
    return mkbool(z3.And(z3.BoolVal(True), *[z3.Implies(g, tb(x)) for g, x in guarded(it)]))


@model(sum)
def s_sum(it, start=0):
    acc = start
    for g, x in guarded(it):
        acc = acc + (x if z3.is_true(g) else s_ite(mkbool(g), x, 0))
    return acc


def s_minmax(op):
    def f(*a, key=None, **k):
        it = a[0] if len(a) == 1 else a
        if is_g(it):
            it = [x for x in it]
        it = [x for x in it]
        if not symbolic(it, 1) or key is not None:
            return (max if op == '>' else min)(it, key=key, **k)
        if not it:
            if 'default' in k:
                return k['default']
            raise ValueError('max() arg is an empty sequence')
        acc = it[0]
        for x in it[1:]:
            c = (x > acc) if op == '>' else (x < acc)
            acc = s_ite(c, x, acc)
        return acc
    return f


s_max, s_min = s_minmax('>'), s_minmax('<')
MODELS[max], MODELS[min] = s_max, s_min


@model(abs)
def s_abs(x):
    if isinstance(x, SInt):
        return s_ite(x < 0, -x, x)
    return abs(x)


@model(round)
def s_round(x, n=None):
    if isinstance(x, SReal) and n is not None:
        return SReal(V.rat(0), x.ty) if False else round(float(x), n)
    return round(x) if n is None else round(x, n)


@model(divmod)
def s_divmod(a, b):
    return a // b, a % b


@model(pow)
def s_pow(a, b, *c):
    return a ** b if not c else pow(a.__index__(), b.__index__(), *c)


@model(sorted)
def s_sorted(it, key=None, reverse=False):
    if is_g(it):
        xs = guarded(it)
        if key is None and all(isinstance(x, str) and not isinstance(x, Sym) for _, x in xs):
            r = sorted(xs, key=lambda p: p[1], reverse=reverse)
            return GList(r) if not all(z3.is_true(V.zsimp(g)) for g, _ in r) else [x for _, x in r]
        it = list(iter(it))
    xs = list(it)
    ks = [call(key, x) for x in xs] if key is not None else xs
    if not symbolic(ks, 2):
        o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in o]
    out = []
    for k, x in zip(ks, xs):
        i = len(out)
        while i > 0 and bool((out[i - 1][0] < k) if reverse else (k < out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


@model(set, frozenset)
def s_set(it=()):
    if isinstance(it, V.LSet):
        return V.LSet(list(it.items))
    if is_g(it):
        if isinstance(it, GList):
            r = V.LSet.of(it.items)
            if r is not None:
                return r
        return GSet(dict(GSet.of(it).d))
    if isinstance(it, SUnion):
        it = it.pick()
    it = list(it)
    r = V.LSet.of([(z3.BoolVal(True), x) for x in it])
    return set(it) if r is None else r


@model(list)
def s_list(it=()):
    if is_g(it):
        return GList(guarded(it))
    return list(it)


@model(tuple)
def s_tuple(it=()):
    if is_g(it):
        return tuple(iter(it))
    return tuple(it)


def s_dictlike(base):
    def f(*a, **k):
        if a and isinstance(a[0], GDict):
            r = a[0].copy()
            r.base = base
            for kk, v in k.items():
                r[kk] = v
            return r
        if a and isinstance(a[0], GList):
            r = GDict(base=base)
            for g, (kk, v) in a[0].items:
                r.put(kk, z3.Or(r.g[kk], g) if kk in r.g else g, v)
            return r
        if a and isinstance(a[0], GView):
            r = GDict(base=base)
            for g, (kk, v) in a[0].gitems():
                r.put(kk, g, v)
            return r
        return base(*a, **k)
    return f


for _b in (dict, collections.OrderedDict):
    MODELS[_b] = s_dictlike(_b)


@model(collections.deque)
def s_deque(it=(), maxlen=None):
    if is_g(it):
        it = list(iter(it))
    return collections.deque(it, maxlen) if maxlen is not None else collections.deque(it)


@model(enumerate)
def s_enumerate(it, start=0):
    if isinstance(it, GList) or isinstance(it, (GSet, GDict, GView)):
        xs = guarded(it)
        if all(z3.is_true(V.zsimp(g)) for g, _ in xs):
            return enumerate([x for _, x in xs], start)
        return enumerate(iter(it), start)
    return enumerate(it, start)


@model(zip)
def s_zip(*its):
    return zip(*[iter(x) if is_g(x) else x for x in its])


@model(map)
def s_map(f, *its):
    if len(its) == 1 and is_g(its[0]):
        return comp('list', its[0], lambda x: call(f, x), None)
    return map(lambda *x: call(f, *x), *its)


@model(filter)
def s_filter(f, it):
    return comp('list', it, lambda x: x, (lambda x: call(f, x)) if f is not None else (lambda x: x))


@model(functools.reduce)
def s_reduce(f, it, *init):
    xs = list(it)
    acc = init[0] if init else xs.pop(0)
    for x in xs:
        acc = call(f, acc, x)
    return acc


@model(next)
def s_next(it, *d):
    if isinstance(it, GList):
        it = iter(it)
    return next(it, *d)


@model(iter)
def s_iter(it, *a):
    return iter(it, *a)


@model(reversed)
def s_reversed(it):
    if isinstance(it, SBytes):
        return iter(list(reversed(list(it))))
    if is_g(it):
        return iter(list(reversed(list(it))))
    return reversed(it)


@model(getattr)
def s_getattr(o, n, *d):
    if isinstance(o, SUnion):
        return o.map(lambda v: getattr(v, n, *d))
    return getattr(o, n, *d)


@model(hasattr)
def s_hasattr(o, n):
    if isinstance(o, SUnion):
        return o.map(lambda v: hasattr(v, n))
    return hasattr(o, n)


# ------------------------------------------------------------ operator hooks
STRT = {str}


def s_in(a, b):
    if type(a) is str and type(b) in (list, tuple) and set(map(type, b)) <= STRT:
        return a in b
    if isinstance(b, SUnion):
        return b.map(lambda v: s_in(a, v))
    if isinstance(a, SUnion) and not is_g(b):
        return a.map(lambda v: s_in(v, b))
    if isinstance(b, (GSet, GList, GView, GDict, V.LSet)):
        if isinstance(a, SUnion):
            return a.map(lambda v: b.has(v))
        return b.has(a)
    if isinstance(b, SRange):
        return b.has(a)
    if isinstance(b, SymArr):
        return A.arr_contains(b, a)
    if isinstance(a, Sym):
        if isinstance(b, (SStr, LazyStr)) or isinstance(b, str) or isinstance(b, SBytes):
            if isinstance(b, str) and not isinstance(b, Sym):
                b = SStr([ord(c) for c in b])
            if isinstance(b, LazyStr):
                b = b.force()
            if isinstance(b, SStr):
                return b._contains(SStr.chars(a.force() if isinstance(a, LazyStr) else a))
            return a in b
        if isinstance(b, range):
            if b.step == 1:
                return mkbool(z3.And(tb(a >= b.start), tb(a < b.stop)))
            return a.__index__() in b
        if isinstance(b, (list, tuple, set, frozenset, dict, collections.deque)) or hasattr(b, 'isdisjoint') \
                or isinstance(b, type({}.values())):
            ts = []
            for e in b:
                r = e == a
                if r is NotImplemented:
                    r = a == e
                ts.append(tb(r))
            return mkbool(z3.Or(z3.BoolVal(False), *ts))
    if isinstance(b, SStr):
        return b._contains(SStr.chars(a))
    if isinstance(b, (list, tuple)) and symbolic(b, 1) and not isinstance(b, Sym):
        ts = []
        for e in b:
            r = e == a
            if isinstance(r, np.ndarray):
                raise ValueError('The truth value of an array with more than one element is ambiguous.')
            ts.append(tb(bool(r) if not isinstance(r, (SBool, bool)) else r))
        return mkbool(z3.Or(z3.BoolVal(False), *ts))
    return a in b


def s_not_in(a, b):
    return s_not(s_in(a, b))


def s_not(x):
    if isinstance(x, SBool):
        return snot(x)
    if is_g(x) and not isinstance(x, GView):
        return snot(x.nonempty())
    if isinstance(x, SInt):
        return mkbool(x.t == x.k(0))
    if isinstance(x, SUnion):
        return snot(s_bool(x))
    return not x


def s_is(a, b):
    if isinstance(a, SUnion):
        return a.map(lambda v: s_is(v, b))
    if isinstance(b, SUnion):
        return b.map(lambda v: s_is(a, v))
    if isinstance(a, SBool) and isinstance(b, (bool, SBool)):
        if a.ty is not bool:
            return False
        return mkbool(a.t == tb(b))
    if isinstance(b, SBool) and isinstance(a, bool):
        return s_is(b, a)
    return a is b


def s_is_not(a, b):
    return s_not(s_is(a, b))


def s_mod(a, b):
    if isinstance(a, str) and not isinstance(a, Sym):
        if not symbolic(b, 2):
            return a % b
        return pct_format(a, b)
    if isinstance(a, SUnion):
        return a.pick() % b
    return a % b


def pct_format(s, args):
    import re
    if not isinstance(args, tuple):
        args = (args,)
    parts, pos, i = [], 0, 0
    for m in re.finditer(r'%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            parts.append('%')
            continue
        v = args[i]
        i += 1
        if m.group(1) == '' and m.group(2) in 'sdi':
            parts.append(to_text(v))
        elif not symbolic(v):
            parts.append(('%' + m.group(1) + m.group(2)) % (v,))
        else:
            parts.append(Opaque(V.shown(v)))
    parts.append(s[pos:])
    return join_text(parts)


def s_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, spec, conv = p
            out.append(to_text(v, spec, conv) if isinstance(spec, str) else Opaque('<sym>'))
        else:
            out.append(p)
    return join_text(out) if out else ''


def s_getitem(o, i):
    if isinstance(i, SUnion):
        i = i.pick() if not isinstance(o, SUnion) else i
    if isinstance(o, SUnion):
        return o[i]
    if isinstance(o, np.ndarray) and not isinstance(o, SymArr) and symbolic(i):
        return A.to_sym(o)[i]
    if isinstance(o, (list, tuple, str, bytes)) and isinstance(i, slice) and not isinstance(o, Sym):
        i = A.fix_index(i)
    if isinstance(i, LazyStr) and type(o) in (dict, collections.OrderedDict):
        for k in o:
            if isinstance(k, (LazyStr, str)) and bool(i == k):
                return o[k]
        raise KeyError(i)
    if type(o) in (dict, collections.OrderedDict) and isinstance(i, str):
        e = sym_key(o, i)
        return o[i] if e is NOKEY else dict.__getitem__(o, e)
    if isinstance(i, (SStr, LazyStr)) and isinstance(o, (list, tuple)) and not isinstance(o, Sym):
        raise TypeError('list indices must be integers or slices, not str')
    return o[i]


NOKEY = object()


def sym_key(o, k):
    """the key object of dict o equal to k, decided by forking when symbolic strings are involved"""
    if isinstance(k, SStr):
        cand = list(o)
    else:
        cand = [e for e in o if isinstance(e, SStr)]
    for e in cand:
        if e is k:
            return e
    for e in cand:
        if isinstance(e, str) and bool(e == k):
            return e
    return NOKEY


def s_setitem(v, o, k):
    if isinstance(k, SUnion) and not isinstance(o, Sym):
        k = k.pick()
    if type(o) in (dict, collections.OrderedDict, collections.defaultdict) and isinstance(k, str):
        e = sym_key(o, k)
        if e is not NOKEY:
            dict.__setitem__(o, e, v)
            return
    o[k] = v


def s_and(a, b):
    x = a()
    if isinstance(x, SBool):
        c = C()
        if not c.sat(x.t):
            return x
        c.guards.append(x.t)
        try:
            y = b()
        finally:
            c.guards.pop()
        if isinstance(y, (bool, SBool)):
            return mkbool(z3.And(x.t, tb(y)))
        return y if bool(x) else x
    return b() if x else x


def s_or(a, b):
    x = a()
    if isinstance(x, SBool):
        c = C()
        n = z3.Not(x.t)
        if not c.sat(n):
            return x
        c.guards.append(n)
        try:
            y = b()
        finally:
            c.guards.pop()
        if isinstance(y, (bool, SBool)):
            return mkbool(z3.Or(x.t, tb(y)))
        return x if bool(x) else y
    return x if x else b()


def truth(x):
    return mkbool(tb(x)) if isinstance(x, (SBool, SInt, SReal, GSet, GList, GDict, V.LSet)) else x


def s_tand(a, b):
    """and / or where only the truth value counts"""
    return s_and(lambda: truth(a()), lambda: truth(b()))


def s_tor(a, b):
    return s_or(lambda: truth(a()), lambda: truth(b()))


def s_canm(c, old):
    """can `if c: x = <set expression>` be merged"""
    if not isinstance(c, (SBool, GSet, GList, GDict, V.LSet)) or not isinstance(truth(c), SBool):
        return False
    try:
        o = old()
    except NameError:
        return False
    return type(o) in (set, GSet)


def s_ifm(c, new, old):
    c = truth(c)
    ctx = C()
    if not ctx.sat(c.t):
        return old
    n = z3.Not(c.t)
    if not ctx.sat(n):
        return new()
    ctx.guards.append(c.t)
    try:
        v = new()
    finally:
        ctx.guards.pop()
    if type(v) not in (set, GSet):
        return v if ctx.branch(c.t) else old
    a, b = GSet.of(v), GSet.of(old)
    f = z3.BoolVal(False)
    return GSet({k: z3.If(c.t, a.d.get(k, f), b.d.get(k, f)) for k in list(dict.fromkeys(list(a.d) + list(b.d)))})


TRUE = z3.BoolVal(True)


# ---- loops and ifs whose bodies only store into local collections and flags: executed under guards instead of forking
class GItem:
    __slots__ = ('x', 'g', 'n0', 'n1', 't')

    def __init__(self, x, g, n0, n1):
        self.x, self.g, self.n0, self.n1, self.t = x, g, n0, n1, None

    def raised(self):
        """an exception under this item's guard: is it one of this path"""
        ctx = C()
        if ctx is None:
            return True
        del ctx.guards[self.n1:]
        return self.g is TRUE or bool(ctx.branch(self.g))

    # ---- if
    def enter(self, side):
        t = self.t
        if t is True or t is False:
            self.g = TRUE
            return t is side
        g = t if side else z3.Not(t)
        ctx = C()
        if not ctx.sat(g):
            return False
        if not ctx.sat(z3.Not(g)):
            self.g = TRUE
            return True
        self.g = g
        ctx.guards.append(g)
        return True

    def leave(self):
        ctx = C()
        if ctx is not None:
            del ctx.guards[self.n1:]


def g_iter(it):
    ctx = C()
    if ctx is None:
        for x in it:
            yield GItem(x, TRUE, 0, 0)
        return
    for g, x in (guarded(it) if is_g(it) or isinstance(it, SUnion) else ((TRUE, x) for x in it)):
        n0 = len(ctx.guards)
        if g is not TRUE:
            g = z3.simplify(g)
            if z3.is_true(g):
                g = TRUE
            elif z3.is_false(g) or not ctx.sat(g):
                continue
            elif not ctx.sat(z3.Not(g)):
                g = TRUE
        i = GItem(x, g, n0, n0)
        if g is not TRUE:
            ctx.guards.append(g)
        yield i
        del ctx.guards[n0:]


def g_base():
    ctx = C()
    n = len(ctx.guards) if ctx is not None else 0
    return GItem(None, TRUE, n, n)


def g_if(c, base):
    ctx = C()
    n = len(ctx.guards) if ctx is not None else 0
    r = GItem(None, TRUE, base.n0, n)
    if c is True or c is False:
        r.t = c
    else:
        c = truth(c)
        if isinstance(c, SBool):
            t = z3.simplify(c.t)
            r.t = True if z3.is_true(t) else False if z3.is_false(t) else t
        else:
            r.t = bool(c)
    return r


def _frame(base):
    ctx = C()
    gs = ctx.guards[base.n0:] if ctx is not None else []
    return z3.simplify(z3.And(gs)) if gs else None


def g_item(base, d, k, v):
    g = _frame(base)
    if g is None:
        s_setitem(v, d, k)
        return d
    if isinstance(k, SUnion):
        k = k.pick()
    if isinstance(k, Sym) or not (type(d) is dict or type(d) is GDict):
        if C().branch(g):
            s_setitem(v, d, k)
        return d
    if type(d) is dict:
        if any(isinstance(x, Sym) for x in d):
            if C().branch(g):
                s_setitem(v, d, k)
            return d
        d = GDict({x: TRUE for x in d}, dict(d))
    d.gput(k, g, v)
    return d


def g_add(base, d, v):
    g = _frame(base)
    if g is None or isinstance(v, (Sym,)) and not isinstance(v, SUnion) or not (type(d) is set or type(d) is GSet):
        if g is None or C().branch(g):
            call(d.add, v)
        return d
    if isinstance(v, SUnion):
        v = v.pick()
    if type(d) is V.LSet:
        d.put(v, g)
        return d
    if type(d) is set:
        if any(isinstance(x, Sym) for x in d):
            if C().branch(g):
                call(d.add, v)
            return d
        d = GSet.of(d)
    d.put(v, g)
    return d


def g_append(base, d, v):
    g = _frame(base)
    if g is None or not (type(d) is list or type(d) is GList):
        if g is None or C().branch(g):
            call(d.append, v)
        return d
    if type(d) is list:
        d = GList([(TRUE, x) for x in d])
    d.put(v, g)
    return d


def g_flag(base, old, new):
    g = _frame(base)
    if g is None:
        return new
    try:
        o = old()
    except NameError:
        return new
    if isinstance(o, (bool, SBool)) and isinstance(new, (bool, SBool)):
        return mkbool(z3.If(g, tb(new), tb(o)))
    if type(o) in (int, SInt) and type(new) in (int, SInt):
        return union([(g, new), (z3.Not(g), o)]) if type(o) is int and type(new) is int and o == new else _ite_int(g, new, o)
    return new if C().branch(g) else o


def _ite_int(g, a, b):
    x, y = SInt(z3.IntVal(a), int) if type(a) is int else a, SInt(z3.IntVal(b), int) if type(b) is int else b
    p, q, w = x._co(y)
    return V.mkint(z3.If(g, p, q), int)


def comp(kind, it, elt, cond):
    """comprehension over possibly guarded elements"""
    ctx = C()
    if kind == 'lazy':
        xs = guarded(it) if is_g(it) else None
        if xs is None:
            return (elt(x) for x in it if cond is None or cond(x))
        kind = 'list'
    out = []
    certain = True
    for g, x in (guarded(it) if is_g(it) or isinstance(it, SUnion) else ((TRUE, x) for x in it)):
        if g is not TRUE:
            g = z3.simplify(g)
            if z3.is_false(g):
                continue
            if z3.is_true(g):
                g = TRUE
        n0 = len(ctx.guards)
        g2 = g
        if g is not TRUE:
            if not ctx.sat(g):
                continue
            ctx.guards.append(g)
        try:
            if cond is not None:
                c = cond(x)
                if c is False:
                    continue
                if c is not True:
                    t = z3.simplify(tb(c))
                    if z3.is_false(t):
                        continue
                    if not z3.is_true(t):
                        if not ctx.sat(t):
                            continue
                        g2 = z3.simplify(z3.And(g, t))
                        if z3.is_true(g2):
                            g2 = TRUE
                        ctx.guards.append(t)
            v = elt(x)
        except Exception:
            del ctx.guards[n0:]
            if g2 is TRUE or z3.is_true(g2) or ctx.branch(g2):
                raise
            continue
        finally:
            del ctx.guards[n0:]
        if g2 is not TRUE:
            certain = False
        out.append((g2, v))
    if kind == 'set':
        r = V.LSet.of(out)
        if r is not None:
            return r
    if certain or all(z3.is_true(g) for g, _ in out):
        vs = [v for _, v in out]
        return {'list': list, 'set': set, 'dict': dict}[kind](vs)
    if kind == 'list':
        return GList(out)
    if kind == 'set':
        return GSet.of(GList(out))
    r = GDict()
    for g, (k, v) in out:
        if isinstance(k, SUnion):
            k = k.pick()
        if k in r.g:
            r.put(k, z3.simplify(z3.Or(r.g[k], g)), union([(g, v), (z3.And(z3.Not(g), r.g[k]), r.v[k])]))
        else:
            r.put(k, g, v)
    return r


# ------------------------------------------------------------------- struct
_FM = {'c': ('c', 1), 'b': (True, 1), 'B': (False, 1), '?': ('?', 1), 'h': (True, 2), 'H': (False, 2),
       'i': (True, 4), 'I': (False, 4), 'l': (True, 8), 'L': (False, 8), 'q': (True, 8), 'Q': (False, 8),
       'n': (True, 8), 'N': (False, 8), 'f': ('f', 4), 'd': ('f', 8), 's': ('s', 1), 'p': ('p', 1), 'x': ('x', 1)}


def parse_fmt(fmt):
    if isinstance(fmt, LazyStr):
        fmt = fmt.force()
    if isinstance(fmt, SBytes):
        fmt = bytes(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if type(fmt) is Opaque or isinstance(fmt, SStr):
        raise EngineError('symbolic struct format')
    f = fmt
    native, big = True, False
    if f and f[0] in '@=<>!':
        native = f[0] == '@'
        big = f[0] in '>!'
        f = f[1:]
    items, n, off = [], '', 0
    for ch in f:
        if ch.isspace():
            continue
        if ch.isdigit():
            n += ch
            continue
        if ch not in _FM:
            raise _struct.error('bad char in struct format')
        cnt = int(n) if n else 1
        n = ''
        kind, size = _FM[ch]
        if not native and ch in 'lL':
            size = 4
        if native and kind not in ('s', 'x', 'c') and off % size:
            pad = size - off % size
            items.append(('x', 1, pad, 'x'))
            off += pad
        if ch in 'sp':
            items.append((kind, cnt, 1, ch))
            off += cnt
        else:
            items.append((kind, size, cnt, ch))
            off += size * cnt
    if n:
        raise _struct.error('repeat count given without format specifier')
    return items, off, big


def pack_one(kind, size, ch, v):
    if isinstance(v, SUnion):
        v = v.pick()
    if isinstance(v, np.ndarray) and isinstance(v, SymArr) and v.ndim == 0:
        v = raw(v)[()]
    if not isinstance(v, Sym):
        return list(_struct.pack('<' + {'n': 'q', 'N': 'Q', 'l': 'q', 'L': 'Q'}.get(ch, ch) if size == 8 else '<' + ch, v))
    if kind == 'c':
        if not isinstance(v, SBytes) or len(v) != 1:
            raise _struct.error('char format requires a bytes object of length 1')
        return list(v.b)
    if kind == '?':
        return [V.mkbyte(z3.If(tb(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    if kind in (True, False):
        if isinstance(v, SBool):
            v = v.asint()
        if not isinstance(v, SInt):
            raise _struct.error('required argument is not an integer')
        w = 8 * size
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind else (0, (1 << w) - 1)
        if C().branch(tb(v < lo)) or C().branch(tb(v > hi)):
            raise _struct.error("'%s' format requires %d <= number <= %d" % (ch, lo, hi))
        if isinstance(v, SInt) and z3.is_bv(v.t) and v.t.size() > w:
            v = SInt(z3.Extract(w - 1, 0, v.t))
        return V.pack_int(v, size).b
    if kind == 'f':
        if isinstance(v, SFlt):
            return v.cast(np.float32 if size == 4 else np.float64).tobytes().b
        if isinstance(v, (SInt, SBool, SReal)):
            return pack_one(kind, size, ch, A.conc_value(v, 'struct float of non-bit value'))
        raise _struct.error('required argument is not a float')
    raise EngineError('pack')


@model(_struct.pack)
def s_pack(fmt, *args):
    if not symbolic(args, 1) and not symbolic(fmt) and not isinstance(fmt, (LazyStr, Opaque)):
        return SBytes(list(_struct.pack(fmt, *args)), False)
    items, total, big = parse_fmt(fmt)
    out, i = [], 0
    for kind, size, cnt, ch in items:
        if kind == 'x':
            out += [0] * cnt
            continue
        if kind == 's':
            if i >= len(args):
                raise _struct.error('pack expected more items')
            v = args[i]
            i += 1
            e = v.b if isinstance(v, SBytes) else (list(v) if isinstance(v, (bytes, bytearray)) else None)
            if e is None:
                raise _struct.error("argument for 's' must be a bytes object")
            out += (list(e) + [0] * size)[:size]
            continue
        if kind == 'p':
            raise EngineError('pascal string')
        for _ in range(cnt):
            if i >= len(args):
                raise _struct.error('pack expected more items')
            b = pack_one(kind, size, ch, args[i])
            i += 1
            out += list(reversed(b)) if big else b
    if i != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (i, len(args)))
    return SBytes(out, False)


@model(_struct.pack_into)
def s_pack_into(fmt, buf, off, *args):
    b = s_pack(fmt, *args).b
    off = off.__index__()
    buf.b[off:off + len(b)] = b


def unpack_items(items, big, b):
    out, p = [], 0
    for kind, size, cnt, ch in items:
        if kind == 'x':
            p += cnt
            continue
        if kind == 's':
            r = SBytes(b[p:p + size], False)
            c = r.concrete()
            out.append(c if c is not None else r)
            p += size
            continue
        for _ in range(cnt):
            bs = b[p:p + size]
            p += size
            if big:
                bs = list(reversed(bs))
            out.append(unpack_one(kind, size, ch, bs))
    return tuple(out)


def unpack_one(kind, size, ch, bs):
    if all(isinstance(x, int) for x in bs):
        return _struct.unpack('<' + {'n': 'q', 'N': 'Q', 'l': 'q', 'L': 'Q'}.get(ch, ch) if size == 8 else '<' + ch,
                              bytes(bs))[0]
    if kind == 'c':
        return SBytes(bs, False)
    t = V.concat_le(bs)
    if kind == '?':
        return mkbool(t != 0)
    if kind is True:
        return mkint(t)
    if kind is False:
        return mkint(z3.ZeroExt(1, t))
    s = SFlt(t, np.float32 if size == 4 else float)
    return SFlt(s.bits(64), float)


@model(_struct.unpack_from)
def s_unpack_from(fmt, buffer, offset=0):
    items, total, big = parse_fmt(fmt)
    e = SBytes.elems(buffer)
    if e is None:
        raise TypeError('a bytes-like object is required')
    offset = offset.__index__()
    n = len(e)
    if offset < 0:
        if offset + n < 0:
            raise _struct.error('offset out of range')
        offset += n
    if offset + total > n:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % (offset + total))
    return unpack_items(items, big, e[offset:offset + total])


@model(_struct.unpack)
def s_unpack(fmt, buffer):
    items, total, big = parse_fmt(fmt)
    e = SBytes.elems(buffer)
    if e is None:
        raise TypeError('a bytes-like object is required')
    if len(e) != total:
        raise _struct.error('unpack requires a buffer of %d bytes' % total)
    return unpack_items(items, big, e)


@model(_struct.iter_unpack)
def s_iter_unpack(fmt, buffer):
    items, total, big = parse_fmt(fmt)
    e = SBytes.elems(buffer)
    if len(e) % total:
        raise _struct.error('iterative unpacking requires a multiple of %d bytes' % total)
    return iter([unpack_items(items, big, e[i:i + total]) for i in range(0, len(e), total)])


@model(_struct.calcsize)
def s_calcsize(fmt):
    return parse_fmt(fmt)[1]


def struct_obj(st, name, f, a, k):
    m = {'pack': s_pack, 'unpack': s_unpack, 'unpack_from': s_unpack_from, 'pack_into': s_pack_into,
         'iter_unpack': s_iter_unpack}.get(name)
    if m is None:
        return f(*a, **k)
    return m(st.format, *a, **k)


METHODS[(int, 'from_bytes')] = lambda b, byteorder='big', *, signed=False: int_from_bytes(b, byteorder, signed)


def int_from_bytes(b, order, signed):
    e = SBytes.elems(b)
    if all(isinstance(x, int) for x in e):
        return int.from_bytes(bytes(e), order, signed=signed)
    if order == 'big':
        e = list(reversed(e))
    t = V.concat_le(e)
    return mkint(t if signed else z3.ZeroExt(1, t))


METHODS[(bytes, 'fromhex')] = lambda s: bytes.fromhex(s)
METHODS[(dict, 'fromkeys')] = lambda it, v=None: comp('dict', it, lambda x: (x, v), None)
METHODS[(collections.OrderedDict, 'fromkeys')] = lambda it, v=None: collections.OrderedDict.fromkeys(list(it), v)


def s_set_union(*a):
    r = GSet.of(a[0]) if is_g(a[0]) else set(a[0])
    for x in a[1:]:
        r = GSet.of(r) | x if (is_g(x) or is_g(r)) else r | set(x)
    return r


MODELS[set.union] = s_set_union


# -------------------------------------------------------------------- numpy
MODELS[np.array] = A.np_array
MODELS[np.asarray] = lambda x, dtype=None, **k: x if isinstance(x, SymArr) and dtype is None else A.np_array(x, dtype, copy=False)
MODELS[np.ascontiguousarray] = lambda x, dtype=None, **k: A.np_array(x, dtype)
MODELS[np.asanyarray] = MODELS[np.asarray]


def _shape(s):
    if isinstance(s, SUnion):
        s = s.pick()
    if isinstance(s, GList):
        s = s.force()
    if isinstance(s, SymArr):
        s = list(s)
    if isinstance(s, (list, tuple)) and not isinstance(s, Sym):
        return tuple(x.__index__() for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return (s.__index__(),)


def filled(shape, v, dtype):
    dt = np.dtype(dtype)
    shape = _shape(shape)
    if any(x < 0 for x in shape):
        raise ValueError('negative dimensions are not allowed')
    o = np.empty(shape, dtype=object)
    if isinstance(v, str) and v == 'empty':
        fo = o.reshape(-1)
        for i in range(fo.size):
            fo[i] = uninit(dt)
        return mk(o, dt)
    x = cast_scalar(v, dt)
    o.fill(x)
    return mk(o, dt)


def uninit(dt):
    """unconstrained content of np.empty memory"""
    c = C()
    if dt.kind == 'f':
        return SReal(c.fresh_const(z3.RealSort(), 'uninit'), dt.type)
    if dt.kind == 'c':
        return SCplx(SReal(c.fresh_const(z3.RealSort(), 'uninit'), np.float64),
                     SReal(c.fresh_const(z3.RealSort(), 'uninit'), np.float64), dt.type)
    if dt.type in WIDTH:
        w, s = WIDTH[dt.type]
        x = c.fresh_const(z3.IntSort(), 'uninit')
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        c.add(z3.And(x >= lo, x <= hi))
        return SInt(x, dt.type)
    if dt.kind == 'b':
        return SBool(c.fresh_const(z3.BoolSort(), 'uninit'), np.bool_)
    if dt.kind == 'U':
        return np.str_('')
    if dt.kind == 'S':
        return np.bytes_(b'')
    return None


MODELS[np.zeros] = lambda shape, dtype=float, **k: filled(shape, 0 if np.dtype(dtype).kind not in 'US' else '', dtype)
MODELS[np.ones] = lambda shape, dtype=float, **k: filled(shape, 1, dtype)
MODELS[np.empty] = lambda shape, dtype=float, **k: filled(shape, 'empty', dtype)


@model(np.full)
def s_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        r = filled(shape, 0, dtype or A.infer_dtype(fill_value))
        r[...] = fill_value
        return r
    return filled(shape, fill_value, dtype if dtype is not None else A.elem_dtype(fill_value))


@model(np.arange)
def s_arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, SInt) else x for x in a]
    return A.to_sym(np.arange(*a, dtype=dtype))


@model(np.frombuffer)
def frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    if isinstance(dtype, (SStr, LazyStr)):
        raise EngineError('symbolic dtype')
    dt = np.dtype(dtype)
    e = SBytes.elems(buffer)
    if e is None:
        raise TypeError('a bytes-like object is required')
    offset = offset.__index__()
    n = len(e)
    if offset < 0 or offset > n:
        raise ValueError('offset must be non-negative and no greater than buffer length (%d)' % n)
    sz = dt.itemsize
    if sz == 0:
        raise ValueError('itemsize cannot be zero in type')
    avail = n - offset
    if isinstance(count, SInt):
        if C().branch(tb(count < 0)):
            count = -1
        elif C().branch(tb(count * sz > avail)):
            raise ValueError('buffer is smaller than requested size')
        else:
            count = count.__index__()
    if count < 0:
        if avail % sz:
            raise ValueError('buffer size must be a multiple of element size')
        count = avail // sz
    if avail < count * sz:
        raise ValueError('buffer is smaller than requested size')
    o = np.empty((count,), dtype=object)
    for i in range(count):
        o[i] = elem_from(e[offset + i * sz:offset + (i + 1) * sz], dt)
    return mk(o, dt)


def elem_from(bs, dt):
    if all(isinstance(x, int) for x in bs):
        return np.frombuffer(bytes(bs), dtype=dt)[0]
    if dt.byteorder == '>':
        bs = list(reversed(bs))
    if dt.kind == 'S':
        return SBytes(bs, False, np.bytes_)
    if dt.kind == 'b':
        return SBool(V.bterm(bs[0]) != 0, np.bool_)
    t = V.concat_le(bs)
    if dt.kind == 'i':
        return mkint(t, dt.type)
    if dt.kind == 'u':
        return mkint(z3.ZeroExt(1, t), dt.type)
    if dt.kind == 'f' and dt.itemsize in (4, 8):
        return SFlt(t, dt.type)
    raise EngineError('frombuffer %s' % dt)


def _npscalar(ty):
    def f(x=0, *a, **k):
        if isinstance(x, SUnion):
            x = x.pick()
        if isinstance(x, SymArr):
            return x.astype(ty) if x.ndim else cast_scalar(raw(x)[()], ty)
        if isinstance(x, (list, tuple, GList)) and symbolic(x):
            return np_array(x, ty)
        if isinstance(x, Sym):
            return cast_scalar(x, ty)
        return ty(x, *a, **k)
    return f


for _t in list(WIDTH) + [np.float32, np.float64, np.complex64, np.complex128, np.bool_]:
    MODELS[_t] = _npscalar(_t)


def _npstr(x='', *a, **k):
    if isinstance(x, SBytes):
        return _npstr(x.decode(*(a or ('ascii',))))
    if isinstance(x, LazyStr):
        x = x.force()
    if isinstance(x, SStr):
        return SStr(x.c, np.str_)
    if isinstance(x, Sym):
        x = s_str(x)
    return np.str_(x, *a, **k)


def _npbytes(x=b'', *a, **k):
    if isinstance(x, (SStr, LazyStr)):
        x = (x.force() if isinstance(x, LazyStr) else x)
        x = x.encode(*(a or ('ascii',)))
        if not isinstance(x, Sym):
            return np.bytes_(x)
        return SBytes(x.b, False, np.bytes_)
    if isinstance(x, SBytes):
        return SBytes(list(x.b), False, np.bytes_)
    return np.bytes_(x, *a, **k)


MODELS[np.str_] = _npstr
MODELS[np.bytes_] = _npbytes


@model(np.dtype)
def s_dtype(x, *a, **k):
    if isinstance(x, SUnion):
        return x.map(lambda v: np.dtype(v))
    return np.dtype(x, *a, **k)


@model(np.isscalar)
def s_isscalar(x):
    if isinstance(x, Sym):
        return isinstance(x, (SInt, SBool, SFlt, SReal, SCplx, SStr, SBytes))
    return np.isscalar(x)


@model(np.isnan)
def s_npisnan(x, **k):
    if isinstance(x, SymArr):
        return A.ufunc_call(np.isnan, (x,))
    if isinstance(x, Sym):
        return A.s_isnan(x)
    return np.isnan(x, **k)


@model(math.isnan)
def s_misnan(x):
    return A.s_isnan(x)


@model(math.floor)
def s_floor(x):
    return x.floor() if isinstance(x, SReal) else (x if isinstance(x, SInt) else math.floor(x))


@model(math.prod)
def s_prod(it, start=1):
    for x in it:
        start = start * x
    return start


@model(math.sqrt)
def s_sqrt(x):
    return V.ssqrt(V.to_real(x)) if isinstance(x, Sym) else math.sqrt(x)


@model(math.fmod)
def s_mfmod(a, b):
    return V.to_real(a).fmod(b) if symbolic((a, b)) else math.fmod(a, b)


@model(np.issubdtype)
def s_issubdtype(a, b):
    if isinstance(a, SUnion):
        return a.map(lambda v: s_issubdtype(v, b))
    return np.issubdtype(a, b)


def _via_funcs(f):
    def g(*a, **k):
        if symbolic(a, 2) or symbolic(k, 2):
            return A.FUNCS[f](*a, **k)
        return f(*a, **k)
    return g


for _f in (np.concatenate, np.stack, np.vstack, np.hstack, np.append, np.array_equal, np.sort, np.where, np.shape,
           np.ndim, np.size, np.zeros_like, np.ones_like, np.empty_like, np.full_like, np.unique, np.isin):
    MODELS[_f] = _via_funcs(_f)


def _np_reshape(a, newshape, order='C'):
    if isinstance(a, (list, tuple)) or not isinstance(a, np.ndarray):
        a = np_array(a)
    if symbolic(newshape):
        newshape = _shape(newshape)
    elif isinstance(newshape, SymArr):
        newshape = _shape(newshape)
    return a.reshape(newshape, order=order)


MODELS[np.reshape] = _np_reshape


# ----------------------------------------------------------- files and os
class FakeFile(io.RawIOBase):
    def __init__(self, path, mode):
        self.path = path
        self.m = mode
        self.pos = 0
        fs = C().fs
        if 'r' in mode:
            if path not in fs:
                raise FileNotFoundError(2, 'No such file or directory', path)
        elif 'x' in mode:
            if path in fs:
                raise FileExistsError(17, 'File exists', path)
            fs[path] = SBytes([], False)
        elif 'w' in mode:
            fs[path] = SBytes([], False)
            C().notes.append(('fs-truncate', path))
        elif 'a' in mode:
            fs.setdefault(path, SBytes([], False))
            self.pos = len(fs[path])

    name = property(lambda self: self.path)

    def _content(self):
        c = C().fs[self.path]
        if not isinstance(c, SBytes):
            raise EngineError('raw open of a fake HDF5 file')
        return c

    def read(self, n=-1):
        c = self._content()
        b = c.b[self.pos:] if n is None or n < 0 else c.b[self.pos:self.pos + n.__index__()]
        self.pos += len(b)
        r = SBytes(list(b), False)
        k = r.concrete()
        return k if k is not None else r

    def write(self, data):
        if 'b' not in self.m:
            raise TypeError('text mode')
        c = self._content()
        e = SBytes.elems(data)
        if e is None:
            raise TypeError('a bytes-like object is required')
        b = list(c.b)
        b[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        C().fs[self.path] = SBytes(b, False)
        return len(e)

    def seek(self, p, whence=0):
        p = p.__index__()
        self.pos = p if whence == 0 else (self.pos + p if whence == 1 else len(self._content()) + p)
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def fileno(self):
        return 99

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeText(FakeFile):
    def write(self, data):
        return len(data)


def fpath(p):
    if isinstance(p, (SStr, LazyStr)):
        raise EngineError('symbolic path')
    p = os.fspath(p) if not isinstance(p, str) else str(p)
    return realpath(p) if p else p


def abspath(p):
    """absolute names; the current directory is /fs"""
    return os.path.normpath(os.path.join('/fs', os.fspath(p)))


def realpath(p):
    """... with symbolic links (of files) followed"""
    p = abspath(p)
    n = 0
    while p in C().links:
        p = abspath(C().links[p])
        n += 1
        if n > 40:
            raise OSError(40, 'Too many levels of symbolic links', p)
    return p


MODELS[os.path.abspath] = abspath
MODELS[os.path.realpath] = lambda p, strict=False: realpath(p)
MODELS[os.path.islink] = lambda p: abspath(p) in C().links
MODELS[os.getcwd] = lambda: '/fs'
MODELS[os.path.relpath] = lambda p, start=os.curdir: os.path.relpath(abspath(p), abspath(start))


@model(os.path.samefile)
def s_samefile(a, b):
    for p in (a, b):
        if not _exists(p):
            raise FileNotFoundError(2, 'No such file or directory', p)
    return fpath(a) == fpath(b)


@model(open)
def s_open(path, mode='r', *a, **k):
    p = fpath(path)
    if p == '':
        raise FileNotFoundError(2, 'No such file or directory', '')
    return FakeFile(p, mode)


def _exists(p):
    return fpath(p) in C().fs or any(x.startswith(fpath(p).rstrip('/') + '/') for x in C().fs)


MODELS[os.path.exists] = _exists
MODELS[os.path.isfile] = lambda p: fpath(p) in C().fs


@model(os.path.getsize)
def s_getsize(p):
    p = fpath(p)
    if p not in C().fs:
        raise FileNotFoundError(2, 'No such file or directory', p)
    c = C().fs[p]
    return len(c.b) if isinstance(c, SBytes) else 4096


@model(os.remove, os.unlink)
def s_remove(p):
    if abspath(p) in C().links:
        del C().links[abspath(p)]
        return
    p = fpath(p)
    if p not in C().fs:
        raise FileNotFoundError(2, 'No such file or directory', p)
    del C().fs[p]


@model(os.rename, os.replace)
def s_rename(a, b):
    C().fs[fpath(b)] = C().fs.pop(fpath(a))


def _p_write(self, data):
    with s_open(self, 'wb') as f:
        return f.write(data)


for _n, _f in (('exists', _exists), ('is_file', lambda p: fpath(p) in C().fs), ('open', s_open), ('stat', lambda p: s_stat(p)),
               ('unlink', lambda p, missing_ok=False: None if missing_ok and not _exists(p) else s_remove(p)),
               ('read_bytes', lambda p: s_open(p, 'rb').read()), ('write_bytes', _p_write),
               ('resolve', lambda p, strict=False: type(p)(realpath(p))), ('absolute', lambda p: type(p)(abspath(p))),
               ('samefile', lambda a, b: s_samefile(a, b))):
    MODELS[getattr(pathlib.Path, _n)] = _f


@model(os.fsync)
def s_fsync(fd):
    return None


@model(os.stat)
def s_stat(p):
    n = s_getsize(p)
    return types.SimpleNamespace(st_size=n)


# ----------------------------------------------------------------- datetime
class SDate(Sym):
    """utcfromtimestamp(t): the microsecond count is exact; calendar fields
    are uninterpreted functions of it (ranges asserted)"""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.datetime

    def _f(self, n, lo, hi):
        if not isinstance(self.us, SInt):
            d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=int(self.us))
            return getattr(d, n)
        t = self.us.t
        if n == 'microsecond':
            return mkint(t % 1000000)
        sec = t / 1000000
        if n == 'second':
            return mkint(sec % 60)
        if n == 'minute':
            return mkint((sec / 60) % 60)
        if n == 'hour':
            return mkint((sec / 3600) % 24)
        r = z3.Function('date_' + n, z3.IntSort(), z3.IntSort())(sec / 86400)
        C().add(z3.And(r >= lo, r <= hi))
        return mkint(r)

    year = property(lambda s: s._f('year', 1, 9999))
    month = property(lambda s: s._f('month', 1, 12))
    day = property(lambda s: s._f('day', 1, 31))
    hour = property(lambda s: s._f('hour', 0, 23))
    minute = property(lambda s: s._f('minute', 0, 59))
    second = property(lambda s: s._f('second', 0, 59))
    microsecond = property(lambda s: s._f('microsecond', 0, 999999))
    tzinfo = None

    def replace(self, **k):
        if set(k) == {'tzinfo'}:
            return self
        raise EngineError('datetime.replace')

    def timestamp(self):
        return SReal(V.to_real(self.us).t / 1000000, float)

    def __sub__(self, o):
        if isinstance(o, SDate):
            return SDelta(self.us - o.us)
        if isinstance(o, _dt.datetime):
            e = _dt.datetime(1970, 1, 1, tzinfo=o.tzinfo)
            d = o - e
            return SDelta(self.us - (d.days * 86400 * 10**6 + d.seconds * 10**6 + d.microseconds))
        return NotImplemented

    def strftime(self, f):
        return Opaque('<date>')


class SDelta(Sym):
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    def total_seconds(self):
        return SReal(V.to_real(self.us).t / 1000000, float)

    @property
    def days(self):
        return self.us // (86400 * 10**6)

    @property
    def seconds(self):
        return (self.us // 10**6) % 86400

    @property
    def microseconds(self):
        return self.us % 10**6


def s_utcfromtimestamp(t, tz=None):
    if isinstance(t, SUnion):
        t = t.pick()
    if isinstance(t, SymArr) and t.ndim == 0:
        t = raw(t)[()]
    if not isinstance(t, Sym):
        return _dt.datetime.utcfromtimestamp(t) if tz is None else _dt.datetime.fromtimestamp(t, tz)
    r = V.to_real(t)
    return SDate(V.round_int(SReal(r.t * 1000000, float)))


METHODS[(_dt.datetime, 'utcfromtimestamp')] = s_utcfromtimestamp
METHODS[(_dt.datetime, 'fromtimestamp')] = s_utcfromtimestamp
