"""The harness API.  A harness is an ordinary function f(h, case): run in 'sym'
mode its inputs are solver variables and the code under test is the
instrumented copy; run in 'conc' mode the same function runs the untouched
package on one concrete assignment."""
import contextlib
import io
import os
import shutil
import signal
import struct
import sys
import tempfile
import types
import warnings
from fractions import Fraction
from collections import OrderedDict
import numpy as np
from . import core
from .core import (z3, Ctx, CUR, Control, Infeasible, OutOfBudget, EngineError, FoundViolation, stable, const_int)
from . import values as V
from .values import *            # noqa
from .values import SBool, SInt, SFlt, SReal, SCplx, SStr, SBytes, SUnion, GSet, GList, GView, GDict, LazyStr, Sym
from . import arr as A
from .arr import SymArr, raw, mk
from . import models as M
from . import state
from .loader import Lib, REPO

warnings.simplefilter('ignore')


class ConcFail(Exception):
    """the property failed on the real code"""

    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class ConcAssume(Exception):
    pass


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def name(self):
        return 'ok' if self.ok else type(self.exc).__name__

    def isa(self, *names):
        """the exception is one of the named classes (by name, along the MRO)"""
        if self.ok:
            return False
        return any(c.__name__ in names for c in type(self.exc).__mro__)

    def __repr__(self):
        return 'Outcome(%s%s)' % (self.name, '' if self.ok else ': %r' % (self.exc,))


NPINT = {np.int8: (8, True), np.int16: (16, True), np.int32: (32, True), np.int64: (64, True),
         np.uint8: (8, False), np.uint16: (16, False), np.uint32: (32, False), np.uint64: (64, False)}

_real = {}
_sym = {}


def real_lib():
    if 'lib' not in _real:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        for m in [m for m in sys.modules if m == 'pydarnio' or m.startswith('pydarnio.')]:
            del sys.modules[m]
        import pydarnio
        assert os.path.realpath(pydarnio.__file__).startswith(os.path.realpath(REPO) + os.sep), pydarnio.__file__
        import logging
        logging.disable(logging.CRITICAL)
        _real['lib'] = pydarnio
    return _real['lib']


def sym_lib():
    if 'lib' not in _sym:
        from . import fakeh5
        L = Lib(REPO, {'h5py': fakeh5.module()})
        _sym['lib'] = L.load('pydarnio')
        _sym['loader'] = L
    return _sym['lib']


class H:
    def __init__(self, mode, ctx=None, values=None, tmp=None):
        self.mode = mode
        self.sym = mode == 'sym'
        self.ctx = ctx
        self.values = values or {}
        self.lib = sym_lib() if self.sym else real_lib()
        self.tmp = tmp
        self.obs = []
        self.checked = 0
        self.inputs = {}
        self.snapshots = []

    def mod(self, name):
        """submodule of the package under test"""
        if self.sym:
            return _sym['loader'].load(name)
        import importlib
        return importlib.import_module(name)

    # ------------------------------------------------------------- inputs
    def _have(self, name):
        return name in self.values

    def bool(self, name, pref=None):
        if self.sym:
            v = self.ctx.new(name, 'bool', z3.BoolSort(), z3.BoolVal(pref) if pref is not None else None,
                             lambda t: z3.is_true(t))
            return SBool(v)
        r = bool(self.values.get(name, bool(pref)))
        self.inputs[name] = r
        return r

    def int(self, name, lo, hi, ty=int, pref=None):
        """integer in [lo, hi] over the mathematical integers"""
        if pref is None:
            pref = lo + stable(name, min(hi - lo + 1, 97)) if lo >= 0 or hi - lo < 97 else stable(name, 97)
            if not lo <= pref <= hi:
                pref = lo
        if self.sym:
            if lo == hi:
                return ty(lo)
            v = self.ctx.new(name, 'int', z3.IntSort(), z3.IntVal(pref), lambda t: t.as_long())
            self.ctx.add(z3.And(v >= lo, v <= hi))
            return SInt(v, ty)
        r = ty(self.values.get(name, pref))
        self.inputs[name] = r
        return r

    def bv(self, name, ty, bits=None, signed=True, pref=None):
        """integer of a numpy type (every bit pattern), or an int of `bits` bits"""
        w, s = NPINT[ty] if ty in NPINT else (bits, signed)
        if pref is None:
            pref = stable(name, min(1 << (w - 1), 101))
        if self.sym:
            v = self.ctx.new(name, 'bv', z3.BitVecSort(w), z3.BitVecVal(pref, w),
                             (lambda t: t.as_signed_long()) if s else (lambda t: t.as_long()))
            return SInt(v if s else z3.ZeroExt(1, v), ty)
        r = ty(self.values.get(name, pref))
        self.inputs[name] = r
        return r

    def small(self, name, lo, hi, pref=None):
        """bit-vector Python int limited to [lo,hi]"""
        x = self.bv(name, int, 32, True, pref if pref is not None else lo)
        self.assume(x >= lo)
        self.assume(x <= hi)
        return x

    def choose(self, name, lo, hi, pref=None):
        """integer in [lo,hi], forked to a concrete Python int"""
        return int(self.int(name, lo, hi, pref=pref if pref is not None else lo))

    def flt(self, name, ty, pref=None):
        """float of any bit pattern"""
        w = 32 if ty is np.float32 else 64
        if pref is None:
            pref = 1.5 + stable(name, 50)
        n = int.from_bytes(struct.pack('<f' if w == 32 else '<d', pref), 'little')
        if self.sym:
            v = self.ctx.new(name, 'flt', z3.BitVecSort(w), z3.BitVecVal(n, w), lambda t: t.as_long())
            return SFlt(v, ty)
        n = self.values.get(name, n)
        raw_ = int(n).to_bytes(w // 8, 'little')
        if ty is float:
            r = struct.unpack('<d', raw_)[0]
        else:
            r = np.frombuffer(raw_, dtype='<f%d' % (w // 8))[0].astype(ty)
        self.inputs[name] = r
        return r

    def real(self, name, ty=float, lo=None, hi=None, nan=False, pref=None):
        """float as an exact real (no rounding); optional NaN"""
        if pref is None:
            pref = Fraction(stable(name, 64), 4)
            if lo is not None and pref < lo:
                pref = Fraction(lo) + pref % 3
            if hi is not None and pref > hi:
                pref = Fraction(hi)
        pref = Fraction(pref)
        if self.sym:
            v = self.ctx.new(name, 'real', z3.RealSort(), V.rat(pref), _dec_real)
            if lo is not None:
                self.ctx.add(v >= V.rat(Fraction(lo)))
            if hi is not None:
                self.ctx.add(v <= V.rat(Fraction(hi)))
            nb = None
            if nan:
                nb = self.ctx.new(name + '.nan', 'bool', z3.BoolSort(), z3.BoolVal(False), lambda t: z3.is_true(t))
            return SReal(v, ty, nb)
        if nan and self.values.get(name + '.nan', False):
            r = ty('nan')
        else:
            x = self.values.get(name, [pref.numerator, pref.denominator])
            r = ty(Fraction(x[0], x[1]))
        self.inputs[name] = r
        return r

    def cplx(self, name, ty=np.complex64):
        f = np.float32 if ty is np.complex64 else np.float64
        re, im = self.real(name + '.re', f), self.real(name + '.im', f)
        if self.sym:
            return SCplx(re, im, ty)
        return ty(complex(re, im))

    def text(self, name, n, lo=0, hi=0x10ffff, surrogates=False, pref='fieldnameabcdefghijklmnopqrstuvwxyz', ty=str):
        """string of exactly n symbolic characters"""
        cs = []
        for i in range(n):
            nm = '%s[%d]' % (name, i)
            if self.sym:
                p = ord(pref[i % len(pref)])
                v = self.ctx.new(nm, 'chr', z3.BitVecSort(V.CPW), z3.BitVecVal(p, V.CPW), lambda t: t.as_long())
                self.ctx.add(z3.And(v >= lo, v <= hi))
                if not surrogates and hi >= 0xD800:
                    self.ctx.add(z3.Or(v < 0xD800, v > 0xDFFF))
                cs.append(v)
            else:
                cs.append(int(self.values.get(nm, ord(pref[i % len(pref)]))))
        if self.sym:
            return V.sstr(cs, ty)
        r = ty(''.join(map(chr, cs)))
        self.inputs[name] = r
        return r

    def byts(self, name, n, pref=0):
        """n arbitrary bytes"""
        bs = []
        for i in range(n):
            nm = '%s[%d]' % (name, i)
            if self.sym:
                bs.append(self.ctx.new(nm, 'byte', z3.BitVecSort(8), z3.BitVecVal(pref, 8), lambda t: t.as_long()))
            else:
                bs.append(int(self.values.get(nm, pref)))
        if self.sym:
            return SBytes(bs, False)
        self.inputs[name] = bytes(bs)
        return bytes(bs)

    def pick(self, name, options):
        """one of the options, forked"""
        i = self.choose(name, 0, len(options) - 1)
        return options[i]

    def upick(self, name, options, pref=0):
        """one of the options, as a guarded union (no forking)"""
        if len(options) == 1:
            return options[0]
        if self.sym:
            v = self.ctx.new(name, 'int', z3.IntSort(), z3.IntVal(pref), lambda t: t.as_long())
            self.ctx.add(z3.And(v >= 0, v < len(options)))
            return V.union([(v == i, o) for i, o in enumerate(options)])
        i = int(self.values.get(name, pref))
        self.inputs[name] = i
        return options[i]

    def gdict(self, items, base=OrderedDict):
        """dictionary whose entries (key, present, value) are there when `present` holds"""
        if self.sym:
            d = GDict(base=base)
            for k, p, v in items:
                d.put(k, p.t if isinstance(p, SBool) else z3.BoolVal(bool(p)), v)
            return d
        return base((k, v) for k, p, v in items if p)

    def gset(self, items):
        """set of the keys (key, present)"""
        if self.sym:
            return GSet({k: tb(p) for k, p in items})
        return {k for k, p in items if p}

    def set_same(self, a, b):
        """same elements, without forking"""
        if self.sym:
            if not isinstance(a, (set, frozenset, dict, list, tuple, type({}.keys()))):
                return False
            return GSet.of(a) == GSet.of(b)
        try:
            return set(a) == set(b)
        except TypeError:
            return False

    def index_of(self, name):
        """the selector variable of an upick as an integer term / int"""
        if self.sym:
            return SInt(self.ctx.vars[name][1], int)
        return int(self.values.get(name, self.inputs.get(name, 0)))

    def array(self, name, shape, dtype, elem=None):
        """array of symbolic elements; floats are exact reals unless elem given"""
        dt = np.dtype(dtype)
        if elem is None:
            def elem(nm):
                if dt.kind == 'c':
                    return self.cplx(nm, dt.type)
                if dt.kind == 'f':
                    return self.real(nm, dt.type)
                if dt.kind in 'iu':
                    w, s = NPINT[dt.type]
                    return self.int(nm, -(1 << (w - 1)) if s else 0, (1 << (w - s)) - 1, dt.type)
                raise TypeError(dt)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            o[idx] = elem('%s%s' % (name, list(idx)))
        if self.sym:
            return mk(o, dt)
        r = np.empty(shape, dtype=dt)
        for idx in np.ndindex(*shape):
            r[idx] = o[idx]
        return r

    def barray(self, name, shape, dtype):
        """array whose elements take every bit pattern of the dtype"""
        dt = np.dtype(dtype)
        f = (lambda nm: self.flt(nm, dt.type)) if dt.kind == 'f' else (lambda nm: self.bv(nm, dt.type))
        return self.array(name, shape, dtype, f)

    def nparray(self, vals, dtype):
        """array of given (possibly symbolic) values"""
        if self.sym:
            return A.np_array(vals, dtype)
        return np.array(vals, dtype=dtype)

    def const(self, a):
        """a concrete array usable by the code under test in this mode"""
        if self.sym and isinstance(a, np.ndarray) and a.dtype.kind != 'O':
            return A.to_sym(a)
        return a

    # ----------------------------------------------------------- conditions
    def assume(self, cond):
        if self.sym:
            self.ctx.assume(tb(cond) if not isinstance(cond, bool) else cond)
        elif not cond:
            raise ConcAssume()

    def branch(self, cond):
        return bool(cond)

    def check(self, cond, label):
        self.checked += 1
        if self.sym:
            self.ctx.check_term(tb(cond), label)
        elif not cond:
            raise ConcFail(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        if self.sym:
            c = self.ctx.stats.covers
            c[label] = c.get(label, 0) + 1

    def note(self, *x):
        self.obs.append(x)

    # logical connectives that do not fork
    def And(self, *cs):
        if self.sym:
            return V.mkbool(z3.And(z3.BoolVal(True), *[tb(c) for c in cs]))
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        if self.sym:
            return V.mkbool(z3.Or(z3.BoolVal(False), *[tb(c) for c in cs]))
        return any(bool(c) for c in cs)

    def Not(self, c):
        return snot(c) if self.sym else not c

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        if self.sym:
            return V.mkbool(tb(a) == tb(b))
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        if self.sym:
            return M.s_ite(c, a, b)
        return a if c else b

    def eq(self, a, b):
        return a == b

    # ------------------------------------------------------------ execution
    def call(self, f, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return Outcome(True, M.call(f, *a, **k) if self.sym else f(*a, **k))
        except (ConcFail, ConcAssume):
            raise
        except RecursionError as e:
            return Outcome(False, exc=e)
        except Exception as e:      # noqa
            return Outcome(False, exc=e)

    # ---------------------------------------------------------- file system
    def path(self, name):
        return '/fs/' + name if self.sym else os.path.join(self.tmp, name)

    def vocab(self, *names):
        """constant strings that symbolic strings may coincide with as dictionary keys"""
        if self.sym:
            for s in names:
                self.ctx.vocab.setdefault(len(s), set()).add(s)

    def put(self, name, content):
        p = self.path(name)
        if self.sym:
            self.ctx.fs[p] = SBytes(list(SBytes.elems(content)), False)
        else:
            with open(p, 'wb') as f:
                f.write(bytes(content))
        return p

    def get(self, name):
        p = self.path(name)
        if self.sym:
            return self.ctx.fs.get(p)
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            return f.read()

    def link(self, name, target):
        """symbolic link `name` to the file `target`"""
        if self.sym:
            self.ctx.links[self.path(name)] = self.path(target)
        else:
            os.symlink(self.path(target), self.path(name))
        return self.path(name)

    def files(self):
        """names of all files present"""
        if self.sym:
            return sorted(x[4:] for x in list(self.ctx.fs) + list(self.ctx.links))
        return sorted(os.listdir(self.tmp))

    # ---------------------------------------------------------- comparisons
    def mentions(self, text, what):
        """the text (the message of an error) names `what`, a text or a number"""
        if not self.sym:
            return in_text(str(text), what)
        r = in_value(self.ctx, text, what)
        return mkbool(r if z3.is_expr(r) else tb(r))

    def same(self, a, b):
        """deep equality including types, dtypes, shapes and bit patterns"""
        return same(a, b)


def _dec_real(t):
    if z3.is_algebraic_value(t):
        t = t.approx(20)
    f = t.as_fraction()
    return [f.numerator, f.denominator]


def in_text(text, what):
    import re
    if isinstance(what, str):
        forms = {what, repr(what)[1:-1]}
    else:
        forms = {str(what)}
    return any(re.search(r'(?<!\w)(?<!\w\.)%s(?!\w)(?!\.\w)' % re.escape(f), text) is not None for f in forms)


def within(what, cs):
    """the text `what` occurs among the characters"""
    if isinstance(what, SInt):
        return z3.BoolVal(False)
    w = V.SStr.chars(what if isinstance(what, str) else str(what))
    return z3.Or(z3.BoolVal(False), *[z3.And(z3.BoolVal(True), *[V.cpt(a) == V.cpt(b) for a, b in zip(cs[i:i + len(w)], w)])
                                      for i in range(len(cs) - len(w) + 1)])


def in_value(ctx, x, what):
    """`what` occurs in the text of the value x"""
    import re

    def zb(c):
        return c if z3.is_expr(c) else tb(c)

    def any_(cs):
        cs = [zb(c) for c in cs]
        return z3.Or(*cs) if cs else z3.BoolVal(False)
    if isinstance(x, M.LazyCat):
        return any_([in_value(ctx, p, what) for p in x.parts])
    if isinstance(x, LazyStr):
        return zb(x.n == int(what)) if str(what).lstrip('-').isdigit() else z3.BoolVal(False)
    if isinstance(x, SStr):
        return within(what, x.c)
    if isinstance(x, GSet):
        return any_([z3.And(zb(g), zb(in_value(ctx, k, what))) for k, g in x.d.items()])
    if isinstance(x, GDict):
        return any_([z3.And(zb(x.g[k]), z3.Or(zb(in_value(ctx, k, what)), zb(in_value(ctx, x.v[k], what)))) for k in x.v])
    if isinstance(x, (GList, GView)):
        it = x.items if isinstance(x, GList) else x.gitems()
        return any_([z3.And(zb(g), zb(in_value(ctx, v, what))) for g, v in it])
    if isinstance(x, SUnion):
        return any_([z3.And(zb(g), zb(in_value(ctx, v, what))) for g, v in x.alts])
    if isinstance(x, SInt):
        return zb(x == what) if isinstance(what, (int, SInt)) else z3.BoolVal(False)
    if isinstance(x, (Sym, SymArr)):
        return z3.BoolVal(False)
    if isinstance(x, dict):
        return any_([in_value(ctx, k, what) for k in x] + [in_value(ctx, v, what) for v in x.values()])
    if isinstance(x, (list, tuple, set, frozenset)):
        return any_([in_value(ctx, v, what) for v in x])
    text = str.__str__(x) if isinstance(x, str) else str(x)
    marks = [ctx.shown[int(m)] for m in re.findall('\u27e8([0-9]+)\u27e9', text)]
    text = re.sub('\u27e8[0-9]+\u27e9', '?', text)
    own = within(what, [ord(c) for c in text]) if isinstance(what, Sym) else z3.BoolVal(in_text(text, what))
    return any_([own] + [in_value(ctx, m, what) for m in marks])


def conj(ts):
    r = []
    for t in ts:
        if isinstance(t, SBool):
            r.append(t.t)
        elif not t:
            return False
    return V.mkbool(z3.And(z3.BoolVal(True), *r)) if r else True


def same_elem(a, b):
    """same value of the same type, floats by bit pattern / real value"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if isinstance(a, SUnion):
                return disj([(g, same_elem(v, b)) for g, v in a.alts])
            return disj([(g, same_elem(a, v)) for g, v in b.alts])
        ca, cb = a.__class__, b.__class__
        if ca is not cb:
            return False
        if isinstance(a, (SFlt,)) or isinstance(b, (SFlt,)):
            w = a.t.size() if isinstance(a, SFlt) else b.t.size()
            return V.mkbool(fbits(a, w) == fbits(b, w))
        if isinstance(a, SReal) or isinstance(b, SReal):
            x, y = V.to_real(a), V.to_real(b)
            f = z3.BoolVal(False)
            nx, ny = (x.nan if x.nan is not None else f), (y.nan if y.nan is not None else f)
            return V.mkbool(z3.And(nx == ny, z3.Or(nx, x.t == y.t)))
        if isinstance(a, SCplx) or isinstance(b, SCplx):
            x, y = [v if isinstance(v, SCplx) else SCplx(float(v.real), float(v.imag)) for v in (a, b)]
            xr, xi, yr, yi = [V.to_real(v) for v in (x.re, x.im, y.re, y.im)]
            return conj([same_elem(SReal(xr.t, float, xr.nan), SReal(yr.t, float, yr.nan)),
                         same_elem(SReal(xi.t, float, xi.nan), SReal(yi.t, float, yi.nan))])
        r = a == b
        return r if isinstance(r, (bool, SBool)) else bool(r)
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, np.floating)):
        if isinstance(a, float) and not isinstance(a, np.floating):
            return struct.pack('<d', a) == struct.pack('<d', b)
        return a.tobytes() == b.tobytes()
    if isinstance(a, (complex, np.complexfloating)):
        return np.asarray(a).tobytes() == np.asarray(b).tobytes()
    return bool(a == b)


LONG = {np.longlong: np.int64, np.ulonglong: np.uint64}


def plain64(x):
    if isinstance(x, SInt) and x.ty in LONG:
        return SInt(x.t, LONG[x.ty])
    return LONG[type(x)](x) if type(x) in LONG else x


def disj(pairs):
    r = []
    for g, t in pairs:
        r.append(z3.And(g, tb(t)))
    return V.mkbool(z3.Or(z3.BoolVal(False), *r))


def fbits(x, w):
    if isinstance(x, SFlt):
        return x.t if x.t.size() == w else z3.BitVecVal(0, w)
    if isinstance(x, SReal):
        raise EngineError('mixing real- and bit-modelled floats')
    b = struct.pack('<f' if w == 32 else '<d', x)
    return z3.BitVecVal(int.from_bytes(b, 'little'), w)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if not isinstance(a, SymArr) and not isinstance(b, SymArr):
            if a.dtype.kind == 'O':
                return all(same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
            return a.tobytes() == b.tobytes()
        # numpy has two names for 64 bits, which make equal dtypes
        return conj([same_elem(plain64(x), plain64(y)) for x, y in zip(raw(a).reshape(-1), raw(b).reshape(-1))])
    if isinstance(a, (GDict, GList, GSet)) or isinstance(b, (GDict, GList, GSet)):
        return sym_container_same(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        ts = []
        ka, kb = list(a), list(b)
        for x, y in zip(ka, kb):
            if isinstance(x, Sym) or isinstance(y, Sym) or True:
                if not (x is y):
                    t = same_elem(x, y)
                    if t is False:
                        # different order: look the key up
                        if y not in a:
                            return False
                        ts.append(same(a[y], b[y]))
                        continue
                    ts.append(t)
            ts.append(same(dict.__getitem__(a, x), dict.__getitem__(b, y)))
        return conj(ts)
    if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(a, Sym):
        return len(a) == len(b) and conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, list) and isinstance(b, list) and not isinstance(a, Sym) and not isinstance(b, Sym):
        return len(a) == len(b) and conj([same(x, y) for x, y in zip(a, b)])
    if type(a).__name__ == 'deque' and type(b).__name__ == 'deque':
        return same(list(a), list(b))
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    return same_elem(a, b)


def sym_container_same(a, b):
    if isinstance(a, (GDict, dict)) and isinstance(b, (GDict, dict)):
        ga = {k: (a.g[k], a.v[k]) for k in a.v} if isinstance(a, GDict) else {k: (z3.BoolVal(True), a[k]) for k in a}
        gb = {k: (b.g[k], b.v[k]) for k in b.v} if isinstance(b, GDict) else {k: (z3.BoolVal(True), b[k]) for k in b}
        ts = []
        for k in set(ga) | set(gb):
            pa = ga[k][0] if k in ga else z3.BoolVal(False)
            pb = gb[k][0] if k in gb else z3.BoolVal(False)
            ts.append(V.mkbool(pa == pb))
            if k in ga and k in gb:
                ts.append(V.mkbool(z3.Implies(pa, tb(same(ga[k][1], gb[k][1])))))
        return conj(ts)
    x, y = GSet.of(a), GSet.of(b)
    return x == y


# ---------------------------------------------------------------- concrete runs
class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_conc(fn, case, values, timeout=20):
    """(verdict, detail, harness): verdict 'ok' | 'fail' | 'skip' | 'error'"""
    tmp = tempfile.mkdtemp(prefix='vx_')
    old_cwd = os.getcwd()
    CUR.ctx = None
    h = None
    try:
        h = H('conc', values=values, tmp=tmp)
        state.fresh('real', [m for n, m in sorted(sys.modules.items()) if n == 'pydarnio' or n.startswith('pydarnio.')])
        os.chdir(tmp)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                fn(h, case)
        finally:
            signal.alarm(0)
        return 'ok', '', h
    except ConcFail as e:
        return 'fail', e.label, h
    except ConcAssume:
        return 'skip', '', h
    except Timeout:
        return 'fail', 'no answer within %ds' % timeout, h
    except Exception as e:      # noqa
        import traceback
        return 'error', traceback.format_exc(limit=-4), h
    finally:
        os.chdir(old_cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def run_sym(fn, case, prefix, stats, deadline):
    """one path.  Returns (status, ctx, detail)"""
    import time
    ctx = Ctx(prefix, stats, deadline)
    CUR.ctx = ctx
    h = H('sym', ctx=ctx)
    state.fresh('sym', list(_sym['loader'].mods.values()))
    t0 = time.time()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            fn(h, case)
        return 'done', ctx, h
    except Infeasible:
        return 'infeasible', ctx, h
    except OutOfBudget:
        return 'budget', ctx, h
    except FoundViolation as e:
        return 'violation', ctx, e
    except EngineError as e:
        return 'engine', ctx, e
    except RecursionError as e:
        return 'engine', ctx, e
    except z3.Z3Exception as e:
        return 'engine', ctx, e
    finally:
        CUR.ctx = None
