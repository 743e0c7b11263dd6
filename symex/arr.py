"""SymArr: an ndarray (object storage) standing for an array of a claimed dtype
whose elements may be symbolic.  Structural operations run in numpy itself;
element arithmetic, casts and byte conversions use the symbolic values."""
import operator
import numpy as np
from .core import z3, C, EngineError
from . import values as V
from .values import (Sym, SBool, SInt, SFlt, SReal, SCplx, SStr, SBytes, mkbool, tb, snot, to_real)

RAW = np.ndarray


def raw(a):
    """plain object ndarray view of a SymArr / object conversion of anything"""
    if isinstance(a, SymArr):
        return RAW.view(a, RAW)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a
        o = np.empty(a.shape, dtype=object)
        if a.size:
            flat = o.reshape(-1)
            for i, x in enumerate(a.reshape(-1)):
                flat[i] = x
        return o
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def mk(obj, dt):
    """SymArr from an object ndarray whose elements already have dtype dt"""
    r = RAW.view(np.asarray(obj, dtype=object), SymArr)
    r.cdt = np.dtype(dt)
    return r


def has_sym(x):
    if isinstance(x, SymArr):
        return any(isinstance(e, Sym) for e in raw(x).reshape(-1))
    if isinstance(x, np.ndarray):
        return False
    if isinstance(x, Sym):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def concrete(a):
    """real ndarray if every element is concrete, else None"""
    r = raw(a)
    if any(isinstance(e, Sym) for e in r.reshape(-1)):
        return None
    o = np.empty(r.shape, dtype=a.dtype)
    for i, e in enumerate(r.reshape(-1)):
        o.reshape(-1)[i] = e
    return o


def force(a, why='array needed concretely'):
    """fix every symbolic element to a solver-chosen value"""
    c = concrete(a)
    if c is not None:
        return c
    r = raw(a)
    o = np.empty(r.shape, dtype=a.dtype)
    for i, e in enumerate(r.reshape(-1)):
        o.reshape(-1)[i] = conc_value(e, why)
    return o


def conc_value(e, why):
    if not isinstance(e, Sym):
        return e
    c = C()
    if isinstance(e, SInt):
        v = c.concretise(e.t, why)
        return e.ty(V.const_int(v))
    if isinstance(e, SBool):
        return bool(e)
    if isinstance(e, SFlt):
        return e._conc(why)
    if isinstance(e, SReal):
        return e.ty(float(e))
    if isinstance(e, SCplx):
        return e.ty(complex(float(e.re), float(e.im)))
    if isinstance(e, SBytes):
        return bytes(e)
    if isinstance(e, V.SUnion):
        return conc_value(e.pick(), why)
    if isinstance(e, SStr):
        s = ''
        for x in e.c:
            if not isinstance(x, int):
                x = V.const_int(c.concretise(x, why))
            s += chr(x)
        return s
    if isinstance(e, V.LazyStr):
        return e.force()
    if isinstance(e, V.GDict):
        return e.base((k, e.v[k]) for k in list(e.v) if c.branch(e.g[k]))
    if isinstance(e, (V.GSet,)):
        return set(iter(e))
    if isinstance(e, (V.GList, V.GView)):
        return list(iter(e))
    raise EngineError('concretise %r' % type(e))


def cast_to(x, dt):
    """array / scalar / nested list -> object ndarray of elements cast to dt"""
    from .models import cast_scalar
    dt = np.dtype(dt)
    if isinstance(x, SymArr):
        if x.dtype == dt:
            return raw(x)
        r = raw(x)
    elif isinstance(x, np.ndarray):
        if x.dtype != object:
            r = raw(x.astype(dt))
            return r
        r = x
    else:
        r = nest(x)
    o = np.empty(r.shape, dtype=object)
    fo, fr = o.reshape(-1), r.reshape(-1)
    for i in range(fr.size):
        fo[i] = cast_scalar(fr[i], dt)
    return o


def nest(x):
    """nested lists/tuples/arrays -> object ndarray"""
    if isinstance(x, np.ndarray):
        return raw(x)
    if isinstance(x, V.GList):
        x = x.force()
    if isinstance(x, (list, tuple)) and not isinstance(x, Sym) or type(x) is range:
        parts = [nest(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        s = parts[0].shape
        if any(p.shape != s for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        o = np.empty((len(parts),) + s, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if s else p[()]
        return o
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def elem_dtype(e):
    if isinstance(e, (SInt, SFlt, SReal, SBool)):
        if isinstance(e.ty, type) and issubclass(e.ty, np.generic):
            return np.dtype(e.ty)
        return np.dtype({int: np.int64, float: np.float64, bool: np.bool_}[e.ty])
    if isinstance(e, SCplx):
        return np.dtype(np.complex128 if e.ty is complex else e.ty)
    if isinstance(e, SStr):
        return np.dtype('<U%d' % max(1, len(e.c)))
    if isinstance(e, SBytes):
        return np.dtype('S%d' % max(1, len(e.b)))
    if isinstance(e, V.LazyStr):
        return np.dtype('<U%d' % max(1, len(e.force())))
    return np.asarray(e).dtype


def infer_dtype(x):
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (list, tuple)) and not isinstance(x, Sym):
        ds = [infer_dtype(e) for e in x]
        if not ds:
            return np.dtype(float)
        r = ds[0]
        for d in ds[1:]:
            if d != r:
                r = np.promote_types(r, d)
        return r
    if isinstance(x, range):
        return np.dtype(int)
    return elem_dtype(x)


def np_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    """np.array / np.asarray"""
    if isinstance(x, V.GList):
        x = x.force()
    if isinstance(x, V.SUnion):
        x = x.pick()
    dt = np.dtype(dtype) if dtype is not None else infer_dtype(x)
    if dt == object and not (dtype is not None):
        # ragged or odd content: let numpy decide
        return np.array(x)
    if dtype is not None and dt.kind in 'US' and dt.itemsize == 0:
        d2 = infer_dtype(x)
        dt = d2 if d2.kind == dt.kind else np.array(x, dtype=dtype).dtype
    o = cast_to(x, dt)
    if copy or not isinstance(x, SymArr):
        o = o.copy()
    r = mk(o, dt)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


UF = {}


def uf(name):
    def d(f):
        UF[name] = f
        return f
    return d


def _np2(f):
    return lambda a, b: f(a, b)


def _s(*xs):
    return any(isinstance(x, Sym) for x in xs)


def _cmp(op):
    def f(a, b):
        if _s(a, b):
            if isinstance(a, SFlt) and isinstance(b, SFlt) and op in (operator.eq, operator.ne):
                pass
            return op(a, b)
        return op(a, b)
    return f


def _fpick(a, b, lower):
    """the lower or upper of two bit floats, the first NaN if there is one; None if it cannot be told exactly"""
    if not (isinstance(a, SFlt) and isinstance(b, (SFlt, int, float, np.number))
            or isinstance(b, SFlt) and isinstance(a, (int, float, np.number))):
        return None
    p = a._pair(b) if isinstance(a, SFlt) else b._pair(a)
    if p is None:
        return None
    x, y = p if isinstance(a, SFlt) else p[::-1]
    c = x._key() <= y._key() if lower else x._key() >= y._key()
    return SFlt(z3.If(z3.Or(x._isnan(), z3.And(c, z3.Not(y._isnan()))), x.t, y.t), a.ty if isinstance(a, SFlt) else b.ty)


def _max(a, b):
    if not _s(a, b):
        return np.maximum(a, b)
    r = _fpick(a, b, False)
    if r is not None:
        return r
    if isinstance(a, (SFlt, SCplx)) or isinstance(b, (SFlt, SCplx)):
        a, b = conc_value(a, 'maximum'), conc_value(b, 'maximum')
        return np.maximum(a, b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        x, y = to_real(a), to_real(b)
        return V.mkreal(z3.If(x.t >= y.t, x.t, y.t), x.ty, x._nan(y))
    x = a if isinstance(a, SInt) else V.SInt(z3.IntVal(int(a)), type(a))
    p, q, w = x._co(b)
    return V.mkint(z3.If(p >= q, p, q), V._num_type(a, b))


def _min(a, b):
    if not _s(a, b):
        return np.minimum(a, b)
    r = _fpick(a, b, True)
    if r is not None:
        return r
    if isinstance(a, (SFlt, SCplx)) or isinstance(b, (SFlt, SCplx)):
        return np.minimum(conc_value(a, 'minimum'), conc_value(b, 'minimum'))
    if isinstance(a, SReal) or isinstance(b, SReal):
        x, y = to_real(a), to_real(b)
        return V.mkreal(z3.If(x.t <= y.t, x.t, y.t), x.ty, x._nan(y))
    x = a if isinstance(a, SInt) else V.SInt(z3.IntVal(int(a)), type(a))
    p, q, w = x._co(b)
    return V.mkint(z3.If(p <= q, p, q), V._num_type(a, b))


def s_isnan(a):
    if isinstance(a, SReal):
        return mkbool(a.nan) if a.nan is not None else False
    if isinstance(a, SCplx):
        return mkbool(z3.Or(tb(s_isnan(a.re)), tb(s_isnan(a.im))))
    if isinstance(a, SFlt):
        t = a.t
        if t.size() == 32:
            e, m = z3.Extract(30, 23, t), z3.Extract(22, 0, t)
            return mkbool(z3.And(e == 0xff, m != 0))
        e, m = z3.Extract(62, 52, t), z3.Extract(51, 0, t)
        return mkbool(z3.And(e == 0x7ff, m != 0))
    if isinstance(a, (SInt, SBool)):
        return False
    return bool(np.isnan(a))


def s_isfinite(a):
    if isinstance(a, SFlt):
        w = a.t.size()
        inf = (0xff << 23) if w == 32 else (0x7ff << 52)
        return mkbool(z3.ULT(z3.Extract(w - 2, 0, a.t), z3.BitVecVal(inf, w - 1)))
    if isinstance(a, (SReal, SCplx, SInt, SBool)):
        return mkbool(z3.Not(tb(s_isnan(a))))
    return bool(np.isfinite(a))


def s_isinf(a):
    if isinstance(a, Sym):
        return mkbool(z3.And(z3.Not(tb(s_isfinite(a))), z3.Not(tb(s_isnan(a)))))
    return bool(np.isinf(a))


def _floor(a):
    if isinstance(a, SReal):
        return SReal(z3.ToReal(z3.ToInt(a.t)), a.ty, a.nan)
    if isinstance(a, Sym):
        return a
    return np.floor(a)


def _ceil(a):
    if isinstance(a, SReal):
        return SReal(-z3.ToReal(z3.ToInt(-a.t)), a.ty, a.nan)
    if isinstance(a, Sym):
        return a
    return np.ceil(a)


def _trunc(a):
    if isinstance(a, SReal):
        return SReal(z3.If(a.t >= 0, z3.ToReal(z3.ToInt(a.t)), -z3.ToReal(z3.ToInt(-a.t))), a.ty, a.nan)
    if isinstance(a, Sym):
        return a
    return np.trunc(a)


def _clip(a, lo, hi):
    if lo is not None:
        a = _max(a, lo)
    if hi is not None:
        a = _min(a, hi)
    return a


def _abs(a):
    return abs(a) if _s(a) else np.abs(a)


def s_truth(a):
    return mkbool(tb(a)) if _s(a) else bool(a)


def _logic(f):
    return lambda a, b: mkbool(f(tb(a), tb(b)))


def _fmod(a, b):
    if _s(a, b):
        x, y = to_real(a), to_real(b)
        return x.fmod(y)
    return np.fmod(a, b)


UF.update({
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
    'divide': operator.truediv, 'true_divide': operator.truediv, 'floor_divide': operator.floordiv,
    'remainder': operator.mod, 'mod': operator.mod, 'fmod': _fmod, 'power': operator.pow,
    'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
    'greater': operator.gt, 'greater_equal': operator.ge,
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'logical_and': _logic(z3.And), 'logical_or': _logic(z3.Or), 'logical_xor': _logic(z3.Xor),
    'logical_not': lambda a: snot(s_truth(a)), 'bitwise_and': operator.and_, 'bitwise_or': operator.or_,
    'bitwise_xor': operator.xor, 'invert': operator.invert,
    'negative': operator.neg, 'positive': lambda a: a, 'absolute': _abs, 'fabs': _abs,
    'isnan': s_isnan, 'isfinite': s_isfinite, 'isinf': s_isinf, 'floor': _floor, 'conjugate': lambda a: a.conjugate(),
    'sqrt': lambda a: V.ssqrt(to_real(a)) if _s(a) else np.sqrt(a),
    'square': lambda a: a * a, 'ceil': _ceil, 'trunc': _trunc, 'clip': _clip,
    'left_shift': operator.lshift, 'right_shift': operator.rshift,
    'rint': lambda a: SReal(z3.ToReal(V.round_int(a).t), a.ty, a.nan) if isinstance(a, SReal) else (a if _s(a) else np.rint(a)),
})

CMPS = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and',
        'logical_or', 'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite'}


def rep(x):
    """representative operand for dtype resolution"""
    if isinstance(x, SymArr):
        if x.ndim == 0:
            return np.ones((), dtype=x.dtype)
        return np.empty((0,) * x.ndim, dtype=x.dtype) if x.dtype.kind not in 'US' else None
    if isinstance(x, np.ndarray):
        return np.ones((), dtype=x.dtype) if x.ndim == 0 else np.empty((0,) * x.ndim, dtype=x.dtype)
    if isinstance(x, SInt):
        return x.ty(1)
    if isinstance(x, (SReal, SFlt)):
        return x.ty(1)
    if isinstance(x, SCplx):
        return x.ty(1)
    if isinstance(x, SBool):
        return x.ty(True)
    return x


def result_dtype(ufunc, ins):
    if ufunc.__name__ in CMPS:
        return np.dtype(bool)
    reps = [rep(x) for x in ins]
    with np.errstate(all='ignore'):
        r = ufunc(*reps)
    return r.dtype


def elementwise(name, ins, dt):
    from .models import cast_scalar
    f = UF[name]
    rs = [raw(x) if isinstance(x, np.ndarray) else nest(x) for x in ins]
    b = np.broadcast_arrays(*rs) if len(rs) > 1 else rs
    o = np.empty(b[0].shape, dtype=object)
    fo = o.reshape(-1)
    its = [x.reshape(-1) for x in b]
    for i in range(fo.size):
        with np.errstate(all='ignore'):
            v = f(*[x[i] for x in its])
        fo[i] = cast_scalar(v, dt)
    return o


def ufunc_call(ufunc, ins, out=None, dtype=None, where=True):
    if ufunc.__name__ not in UF or where is not True:
        ins2 = [force(x, 'ufunc ' + ufunc.__name__) if isinstance(x, SymArr) else conc_value(x, 'ufunc ' + ufunc.__name__)
                for x in ins]
        r = ufunc(*ins2) if where is True else ufunc(*ins2, where=where)
        if isinstance(r, np.ndarray):
            r = mk(raw(r), r.dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    dt = np.dtype(dtype) if dtype is not None else result_dtype(ufunc, ins)
    o = elementwise(ufunc.__name__, ins, dt)
    if out is not None:
        out[...] = mk(o, dt)
        return out
    if o.ndim == 0:
        return o[()]
    return mk(o, dt)


def reduce_(ufunc, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
    from .models import cast_scalar
    name = ufunc.__name__
    f = UF.get(name)
    if f is None or where is not True:
        return getattr(ufunc, 'reduce')(force(a, 'reduce ' + name), axis=axis)
    dt = a.dtype
    if name in CMPS:
        dt = np.dtype(bool)
    elif name in ('add', 'multiply') and dt.kind in 'bui':
        dt = np.dtype(np.uint64 if dt.kind == 'u' else np.int64)
    if dtype is not None:
        dt = np.dtype(dtype)
    r = raw(a)
    if axis is None:
        axis = tuple(range(r.ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    axis = tuple(x % r.ndim for x in axis) if r.ndim else ()
    keep = [i for i in range(r.ndim) if i not in axis]
    t = r.transpose(keep + list(axis)).reshape([r.shape[i] for i in keep] + [-1])
    o = np.empty(t.shape[:-1], dtype=object)
    for idx in np.ndindex(*t.shape[:-1]):
        row = t[idx]
        if len(row) == 0 and initial is None:
            if name in ('maximum', 'minimum'):
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            acc = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}[name]
        else:
            row = list(row)
            if name in ('logical_and', 'logical_or'):
                row = [s_truth(x) for x in row]
            acc = initial if initial is not None else row.pop(0)
            for x in row:
                acc = f(acc, x)
        o[idx] = cast_scalar(acc, dt)
    if keepdims:
        o = o.reshape([1 if i in axis else r.shape[i] for i in range(r.ndim)])
    if o.ndim == 0:
        return o[()]
    return mk(o, dt)


def fix_index(i):
    """symbolic pieces of an index -> concrete (forking)"""
    if isinstance(i, tuple):
        return tuple(fix_index(x) for x in i)
    if isinstance(i, SymArr):
        if i.dtype.kind == 'b':
            return np.array([bool(x) for x in raw(i).reshape(-1)], dtype=bool).reshape(i.shape)
        return np.array([x.__index__() for x in raw(i).reshape(-1)], dtype=np.intp).reshape(i.shape)
    if isinstance(i, list):
        return [fix_index(x) for x in i]
    if isinstance(i, slice):
        f = lambda x: x.__index__() if isinstance(x, SInt) else x
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, SInt):
        return i.__index__()
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, (str, SStr)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    return i


def to_sym(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArr) and x.dtype != object:
        return mk(raw(x), x.dtype)
    return x


class SymArr(np.ndarray):
    cdt = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self.cdt = getattr(obj, 'cdt', None)

    @property
    def dtype(self):
        return self.cdt if self.cdt is not None else np.dtype(object)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def __getitem__(self, i):
        r = RAW.__getitem__(self, fix_index(i))
        return r

    def __setitem__(self, i, v):
        i = fix_index(i)
        if self.cdt is None:
            return RAW.__setitem__(self, i, v)
        if isinstance(v, V.GList):
            v = v.force()
        if isinstance(v, V.SUnion):
            v = v.pick()
        o = cast_to(v, self.cdt)
        if o.ndim == 0:
            tgt = RAW.__getitem__(RAW.view(self, RAW), i)
            if isinstance(tgt, np.ndarray):
                tgt.fill(o[()]) if tgt.base is not None and np.shares_memory(tgt, RAW.view(self, RAW)) else self._setadv(i, o[()])
            else:
                RAW.__setitem__(RAW.view(self, RAW), i, o[()])
            return
        RAW.__setitem__(RAW.view(self, RAW), i, o)

    def _setadv(self, i, v):
        r = RAW.view(self, RAW)
        idx = np.arange(r.size).reshape(r.shape)[i]
        fr = r.reshape(-1) if r.flags.c_contiguous else None
        for k in np.asarray(idx).reshape(-1):
            if fr is not None:
                fr[k] = v
            else:
                r[np.unravel_index(k, r.shape)] = v

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __array_ufunc__(self, ufunc, method, *ins, out=None, **kw):
        if isinstance(out, tuple):
            out = out[0]
        if method == '__call__':
            return ufunc_call(ufunc, ins, out, kw.get('dtype'), kw.get('where', True))
        if method == 'reduce':
            return reduce_(ufunc, ins[0], **{k: v for k, v in kw.items() if k != 'out'})
        ins2 = [force(x, 'ufunc.' + method) if isinstance(x, SymArr) else x for x in ins]
        return to_sym(getattr(ufunc, method)(*ins2, **kw))

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        if func in STRUCT:
            dts = [a.dtype for a in args if isinstance(a, SymArr)]
            a2 = [raw(a) if isinstance(a, SymArr) else a for a in args]
            r = func(*a2, **kwargs)
            return rewrap(r, dts[0] if dts else None)
        why = 'numpy function %s on symbolic array' % getattr(func, '__name__', func)
        a2 = deep_force(args, why)
        k2 = {k: deep_force(v, why) for k, v in kwargs.items()}
        return to_sym(func(*a2, **k2))

    # ------------------------------------------------------------- methods
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind in 'US' and dt.itemsize == 0:
            dt = force(self, 'astype str').astype(dt).dtype
        return mk(cast_to(self, dt).copy(), dt)

    def copy(self, order='C'):
        return mk(raw(self).copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def __reduce__(self):
        raise EngineError('pickling a symbolic array')

    def tobytes(self, order='C'):
        return arr_bytes(self, order)

    def tostring(self, order='C'):
        return arr_bytes(self, order)

    def newbyteorder(self, new_order='S'):
        return mk(raw(self), self.dtype.newbyteorder(new_order))

    def byteswap(self, inplace=False):
        raise EngineError('byteswap')

    def view(self, *a, **k):
        if not a and not k:
            return RAW.view(self)
        t = a[0] if a else k.get('type', k.get('dtype'))
        if t in (np.ndarray, SymArr):
            return self
        dt = np.dtype(t)
        if dt == self.dtype:
            return RAW.view(self)
        if dt.newbyteorder('=') == self.dtype.newbyteorder('='):
            raise EngineError('byte order view')
        if not any(isinstance(e, Sym) for e in raw(self).reshape(-1)):
            return np.ascontiguousarray(raw(self).astype(self.dtype)).view(dt)
        if self.dtype.kind == 'c' and dt.kind == 'f' and self.ndim:
            r = raw(self)
            o = np.empty(r.shape + (2,), dtype=object)
            for i in np.ndindex(*r.shape):
                o[i + (0,)], o[i + (1,)] = r[i].real, r[i].imag
            return mk(o.reshape(r.shape[:-1] + (-1,)), dt)
        if self.dtype.kind == 'f' and dt.kind == 'c' and self.ndim and self.shape[-1] % 2 == 0:
            r = raw(self)
            o = np.empty(r.shape[:-1] + (r.shape[-1] // 2,), dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = mkcplx(r[i[:-1] + (2 * i[-1],)], r[i[:-1] + (2 * i[-1] + 1,)], dt.type)
            return mk(o, dt)
        if dt.itemsize == 1 and dt.kind in 'iu':
            from .models import frombuffer
            return frombuffer(arr_bytes(self), dt).reshape(self.shape[:-1] + (-1,))
        raise EngineError('array view as %s' % dt)

    def tolist(self):
        def f(r):
            if r.ndim == 0:
                e = r[()]
                return e.item() if hasattr(e, 'item') else e
            return [f(np.asarray(x, dtype=object)) if isinstance(x, np.ndarray) else
                    (x.item() if hasattr(x, 'item') else x) for x in r]
        return f(raw(self))

    def item(self, *a):
        if a:
            e = raw(self)[a] if len(a) > 1 else raw(self).reshape(-1)[a[0]]
        else:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            e = raw(self).reshape(-1)[0]
        return e.item() if hasattr(e, 'item') else e

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return self._part(lambda e: e.real)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return self._part(lambda e: 0)
        return self._part(lambda e: e.imag)

    def _part(self, f):
        from .models import cast_scalar
        dt = {'complex64': np.float32, 'complex128': np.float64}.get(self.dtype.name, self.dtype)
        o = np.empty(self.shape, dtype=object)
        fo, fr = o.reshape(-1), raw(self).reshape(-1)
        for i in range(fo.size):
            fo[i] = cast_scalar(f(fr[i]), np.dtype(dt))
        return mk(o, dt)

    def conj(self):
        return ufunc_call(np.conjugate, (self,))
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.add, self, axis, dtype, None, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, None, None, keepdims, k.get('initial'))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, None, None, keepdims, k.get('initial'))

    def prod(self, axis=None, **k):
        return reduce_(np.multiply, self, axis)

    def all(self, axis=None, **k):
        return reduce_(np.logical_and, self, axis)

    def any(self, axis=None, **k):
        return reduce_(np.logical_or, self, axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = ufunc_call(np.maximum, (r, min))
        if max is not None:
            r = ufunc_call(np.minimum, (r, max))
        r = mk(cast_to(r, self.dtype).copy(), self.dtype) if r is self else r
        if out is not None:
            out[...] = r
            return out
        return r

    def cumsum(self, axis=None, dtype=None, out=None):
        return s_cumsum(self, axis) if dtype is None and out is None else to_sym(np.cumsum(force(self, 'cumsum'), axis, dtype))

    def ptp(self, axis=None, **k):
        return ufunc_call(np.subtract, (self.max(axis), self.min(axis)))

    def dot(self, b, out=None):
        return s_dot(self, b)

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, kind=None, order=None):
        s = sorted_sym(self)
        self[...] = s

    def argmax(self, *a, **k):
        return force(self, 'argmax').argmax(*a, **k)

    def argmin(self, *a, **k):
        return force(self, 'argmin').argmin(*a, **k)

    def argsort(self, *a, **k):
        return force(self, 'argsort').argsort(*a, **k)

    def nonzero(self):
        m = np.array([bool(s_truth(e)) for e in raw(self).reshape(-1)], dtype=bool).reshape(self.shape)
        return m.nonzero()

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return ufunc_call(np.rint, (self,))
        return to_sym(force(self, 'round').round(decimals))

    def __contains__(self, v):
        return bool(arr_contains(self, v))

    def __bool__(self):
        if self.size == 1:
            return bool(s_truth(raw(self).reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        from .models import s_int
        return s_int(raw(self).reshape(-1)[0]).__index__()

    def __index__(self):
        if self.ndim:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return raw(self)[()].__index__()

    def __float__(self):
        return float(raw(self).reshape(-1)[0])

    def __repr__(self):
        return V.shown(self)
    __str__ = __repr__

    def __format__(self, s):
        return V.shown(self)


def mkcplx(re, im, ty=np.complex64):
    if _s(re, im):
        return SCplx(re, im, ty)
    return ty(complex(re, im))


def arr_contains(a, v):
    return mkbool(z3.Or(z3.BoolVal(False), *[tb(e == v) for e in raw(a).reshape(-1)]))


def deep_force(x, why):
    if isinstance(x, SymArr):
        return force(x, why)
    if isinstance(x, Sym):
        return conc_value(x, why)
    if isinstance(x, tuple):
        return tuple(deep_force(e, why) for e in x)
    if isinstance(x, list):
        return [deep_force(e, why) for e in x]
    return x


def rewrap(r, dt):
    if isinstance(r, SymArr):
        return r
    if isinstance(r, np.ndarray) and r.dtype == object and dt is not None:
        return mk(r, dt)
    if isinstance(r, (list, tuple)):
        return type(r)(rewrap(x, dt) for x in r)
    return r


def arr_bytes(a, order='C'):
    from .models import scalar_bytes
    out = []
    r = raw(a)
    if order == 'F':
        r = r.transpose()
    be = a.dtype.byteorder == '>'
    for e in r.reshape(-1):
        b = scalar_bytes(e, a.dtype)
        out += list(reversed(b)) if be else b
    return SBytes(out, False)


def sorted_sym(a, key=None):
    """sort along the last axis; forks on comparisons unless the elements are integers"""
    def srt(row):
        if a.dtype.kind in 'iu' and len(row) <= 8:
            from .models import s_ite
            row = list(row)
            for i in range(len(row)):
                for j in range(len(row) - 1 - i):
                    x, y = row[j], row[j + 1]
                    c = y < x
                    row[j], row[j + 1] = s_ite(c, y, x), s_ite(c, x, y)
            return row
        out = []
        for x in row:
            i = len(out)
            while i > 0 and bool(x < out[i - 1]):
                i -= 1
            out.insert(i, x)
        return out
    r = raw(a)
    o = np.empty(r.shape, dtype=object)
    for idx in np.ndindex(*r.shape[:-1]):
        for j, v in enumerate(srt(list(r[idx]))):
            o[idx + (j,)] = v
    return mk(o, a.dtype)


# ------------------------------------------------- numpy functions on SymArr
FUNCS = {}
STRUCT = {np.reshape, np.ravel, np.transpose, np.swapaxes, np.squeeze, np.expand_dims, np.moveaxis,
          np.flip, np.roll, np.repeat, np.tile, np.take, np.split, np.array_split, np.diagonal,
          np.broadcast_to, np.atleast_1d, np.atleast_2d, np.flipud, np.fliplr, np.rollaxis, np.delete,
          np.rot90, np.resize}


def _fn(f):
    def d(g):
        FUNCS[f] = g
        return g
    return d


FUNCS[np.shape] = lambda a: a.shape if isinstance(a, np.ndarray) else nest(a).shape
FUNCS[np.ndim] = lambda a: a.ndim if isinstance(a, np.ndarray) else nest(a).ndim
FUNCS[np.size] = lambda a, axis=None: a.size if axis is None else a.shape[axis]
FUNCS[np.copy] = lambda a, *x, **k: np_array(a)
FUNCS[np.sum] = lambda a, axis=None, **k: to_sym(a).sum(axis, k.get('dtype'), None, k.get('keepdims', False))
FUNCS[np.max] = FUNCS[np.amax] = lambda a, axis=None, **k: to_sym(a).max(axis, None, k.get('keepdims', False))
FUNCS[np.min] = FUNCS[np.amin] = lambda a, axis=None, **k: to_sym(a).min(axis, None, k.get('keepdims', False))
FUNCS[np.prod] = lambda a, axis=None, **k: a.prod(axis)
FUNCS[np.all] = lambda a, axis=None, **k: a.all(axis)
FUNCS[np.any] = lambda a, axis=None, **k: a.any(axis)
FUNCS[np.mean] = lambda a, axis=None, **k: a.mean(axis)
FUNCS[np.real] = lambda a: a.real
FUNCS[np.imag] = lambda a: a.imag
FUNCS[np.sort] = lambda a, axis=-1, **k: sorted_sym(a if axis is not None else a.reshape(-1))
FUNCS[np.nonzero] = lambda a: a.nonzero()
FUNCS[np.around] = FUNCS[np.round] = lambda a, decimals=0, out=None: a.round(decimals)
FUNCS[np.iscomplexobj] = lambda a: a.dtype.kind == 'c'
FUNCS[np.result_type] = lambda *a: np.result_type(*[x.dtype if isinstance(x, SymArr) else x for x in a])


def _cat_prep(arrs, dtype=None):
    if isinstance(arrs, V.GList):
        arrs = arrs.force()
    arrs = [x if isinstance(x, np.ndarray) else np_array(x) for x in arrs]
    dt = np.dtype(dtype) if dtype else np.result_type(*[a.dtype for a in arrs])
    return [cast_to(a, dt) for a in arrs], dt


def s_concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    os, dt = _cat_prep(arrs, dtype)
    r = mk(np.concatenate(os, axis=axis), dt)
    if out is not None:
        out[...] = r
        return out
    return r


FUNCS[np.concatenate] = s_concatenate


def _stack(fn):
    def f(arrs, axis=0, **k):
        os, dt = _cat_prep(arrs, k.get('dtype'))
        return mk(fn(os, axis=axis) if fn is np.stack else fn(os), dt)
    return f


for _f in (np.stack, np.vstack, np.hstack, np.dstack, np.column_stack):
    FUNCS[_f] = _stack(_f)


def s_append(arr, values, axis=None):
    if axis is None:
        return s_concatenate((np_array(arr).reshape(-1), np_array(values).reshape(-1)))
    return s_concatenate((arr, values), axis)


FUNCS[np.append] = s_append


def s_eq_arrays(a, b):
    a, b = np_array(a, copy=False), np_array(b, copy=False)
    if a.shape != b.shape:
        return False
    return mkbool(z3.And(z3.BoolVal(True), *[tb(x == y) for x, y in zip(raw(a).reshape(-1), raw(b).reshape(-1))]))


FUNCS[np.array_equal] = lambda a, b, equal_nan=False: s_eq_arrays(a, b)


def like(fill):
    def f(a, *x, dtype=None, shape=None, **k):
        from .models import filled
        v = fill
        if fill == 'full':
            v, x = x[0], x[1:]
        if x:
            dtype = x[0]
        return filled(a.shape if shape is None else shape, v, dtype or a.dtype)
    return f


FUNCS[np.zeros_like] = like(0)
FUNCS[np.ones_like] = like(1)
FUNCS[np.empty_like] = like('empty')
FUNCS[np.full_like] = like('full')


def s_where(c, *xy):
    if not xy:
        return np_array(c).nonzero()
    x, y = xy
    from .models import s_ite, cast_scalar
    c, x, y = [v if isinstance(v, np.ndarray) else v for v in (c, x, y)]
    dt = np.result_type(rep(x) if rep(x) is not None else x.dtype, rep(y) if rep(y) is not None else y.dtype)
    rs = np.broadcast_arrays(*[raw(v) if isinstance(v, np.ndarray) else nest(v) for v in (c, x, y)])
    o = np.empty(rs[0].shape, dtype=object)
    fo = o.reshape(-1)
    its = [r.reshape(-1) for r in rs]
    for i in range(fo.size):
        fo[i] = s_ite(its[0][i], cast_scalar(its[1][i], dt), cast_scalar(its[2][i], dt))
    return mk(o, dt)


FUNCS[np.where] = s_where
FUNCS[np.nan_to_num] = lambda a, nan=0.0, **k: s_where(ufunc_call(np.isnan, (a,)), nan, a)


def s_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np_array(a), np_array(b)
    d = ufunc_call(np.absolute, (a - b,))
    lim = ufunc_call(np.absolute, (b,)) * rtol + atol
    return (d <= lim).all()


FUNCS[np.allclose] = s_allclose


def s_copyto(dst, src, casting='same_kind', where=True):
    dst[...] = src


FUNCS[np.copyto] = s_copyto


def s_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if return_index or return_inverse or return_counts or axis is not None:
        return np.unique(force(a, 'unique'), return_index, return_inverse, return_counts, axis)
    s = list(raw(sorted_sym(a.reshape(-1))))
    out = []
    for x in s:
        if not out or not bool(x == out[-1]):
            out.append(x)
    return np_array(out, dtype=a.dtype)


FUNCS[np.unique] = s_unique


def s_diff(a, n=1, axis=-1, **k):
    return a[1:] - a[:-1] if a.ndim == 1 else to_sym(np.diff(force(a, 'diff'), n, axis))


FUNCS[np.diff] = s_diff


def s_cumsum(a, axis=None, dtype=None, out=None):
    if a.ndim != 1:
        return to_sym(np.cumsum(force(a, 'cumsum'), axis))
    acc, o = None, []
    for x in raw(a):
        acc = x if acc is None else acc + x
        o.append(acc)
    return np_array(o, dtype=a.dtype)


FUNCS[np.cumsum] = s_cumsum


def s_isin(a, test, **k):
    t = list(raw(np_array(test)).reshape(-1))
    a = np_array(a)
    o = np.empty(a.shape, dtype=object)
    for i, e in enumerate(raw(a).reshape(-1)):
        o.reshape(-1)[i] = mkbool(z3.Or(z3.BoolVal(False), *[tb(e == x) for x in t]))
    return mk(o, bool)


FUNCS[np.isin] = s_isin
FUNCS[np.clip] = lambda a, a_min=None, a_max=None, out=None, **k: to_sym(np_array(a, copy=False)).clip(a_min, a_max, out)
FUNCS[np.ptp] = lambda a, axis=None, **k: to_sym(a).ptp(axis)
FUNCS[np.fix] = lambda a, out=None: ufunc_call(np.trunc, (a,), out)


def s_dot(a, b):
    a, b = np_array(a, copy=False), np_array(b, copy=False)
    if a.ndim == 1 and b.ndim == 1 and a.shape == b.shape:
        return ufunc_call(np.multiply, (a, b)).sum()
    return to_sym(np.dot(force(a, 'dot'), force(b, 'dot')))


FUNCS[np.dot] = lambda a, b, out=None: s_dot(a, b)


def s_count_nonzero(a, axis=None, keepdims=False):
    a = to_sym(np_array(a, copy=False))
    return ufunc_call(np.not_equal, (a, 0)).astype(np.int64).sum(axis, None, None, keepdims)


FUNCS[np.count_nonzero] = s_count_nonzero
