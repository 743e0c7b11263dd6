"""An in-memory h5py for symbolic runs.  Files live in the symbolic file system
(ctx.fs), datasets hold SymArr/ndarray values.  Only what HDF5 access through
h5py's documented high-level interface shows is modelled; anything else stops
the path with EngineError.  Concrete runs use the real h5py."""
import types
import h5py as _real
import numpy as np
from .core import C, EngineError
from . import values as V
from .values import Sym, SBytes, SStr, SBool, SInt, SReal, SUnion, LazyStr
from . import arr as A
from .arr import SymArr, raw, mk


class Empty:
    def __init__(self, dtype):
        self.dtype = np.dtype(dtype)
        self.shape = None
        self.size = None

    def __eq__(self, o):
        return isinstance(o, Empty) and self.dtype == o.dtype

    __hash__ = None


def unmodelled(kind):
    """attributes the real class has and the model lacks stop the path"""
    real = getattr(_real, kind)

    def __getattr__(self, n):
        if hasattr(real, n) and not (n.startswith('__') and n.endswith('__')):
            raise EngineError('HDF5 %s.%s' % (kind, n))
        raise AttributeError("'%s' object has no attribute '%s'" % (kind, n))
    return __getattr__


class HLObject:
    pass


class Mapping:
    """what h5py takes from collections.abc.MutableMapping"""
    MISSING = object()

    def update(self, *a, **kw):
        for o in a:
            for k in (o.keys() if hasattr(o, 'keys') else ()):
                self[k] = o[k]
            if not hasattr(o, 'keys'):
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, d=MISSING):
        if k not in self and d is not Mapping.MISSING:
            return d
        v = self[k]
        del self[k]
        return v

    def clear(self):
        for k in list(self):
            del self[k]


def _nm(k):
    if isinstance(k, (SStr, LazyStr)):
        raise EngineError('symbolic HDF5 name')
    if isinstance(k, (bytes, bytearray)):
        k = bytes(k).decode()
    if not isinstance(k, str):
        raise TypeError('Accessing a group is done with bytes or str, not %s' % type(k))
    k = str(k)
    if '/' in k.strip('/'):
        raise EngineError('nested HDF5 path')
    return k.strip('/')


class AttributeManager(Mapping):
    __getattr__ = unmodelled('AttributeManager')

    """what comes back from the attributes is fixed when they are set"""

    def __init__(self, f):
        self._f = f
        self._d = {}

    def __getitem__(self, k):
        k = _nm(k)
        if k not in self._d:
            raise KeyError("Unable to synchronously open attribute (can't locate attribute: '%s')" % k)
        return A_copy(self._d[k])

    def __getstate__(self):
        raise TypeError('h5py objects cannot be pickled')

    def __setitem__(self, k, v):
        self._f.wr()
        k = _nm(k)
        if isinstance(v, SUnion):
            v = v.pick()
        if isinstance(v, LazyStr):
            v = v.force()
        if isinstance(v, (str, SStr)):
            ty = v.ty if isinstance(v, SStr) else type(v)
            if ty is not str and ty is np.str_:
                raise TypeError("No conversion path for dtype: dtype('<U')")
            r = v
        elif isinstance(v, SBytes):
            if v.ty is np.bytes_:
                r = v if len(v) else np.bytes_(b'')
            else:
                r = v.decode('utf-8')
        elif isinstance(v, np.bytes_):
            r = v if len(v) else np.bytes_(b'')
        elif isinstance(v, bytes):
            r = v.decode('utf-8')
        elif isinstance(v, Empty):
            r = v
        elif isinstance(v, Sym):
            r = np_scalar(v)
        elif isinstance(v, (bool, np.bool_)):
            r = np.bool_(v)
        elif isinstance(v, np.generic):
            r = v
        elif isinstance(v, int):
            r = np.int64(v)
        elif isinstance(v, float):
            r = np.float64(v)
        elif isinstance(v, complex):
            r = np.complex128(v)
        else:
            a = v if isinstance(v, np.ndarray) else A.np_array(v)
            check_dtype(a.dtype)
            r = a[()] if a.ndim == 0 else A_copy(a)
        self._d[k] = r

    def create(self, name, data, shape=None, dtype=None):
        if shape is not None or dtype is not None:
            if isinstance(data, (str, bytes, SStr, SBytes)):
                raise EngineError('HDF5 text attribute of given shape or type')
            a = data if isinstance(data, np.ndarray) else A.np_array(data)
            data = a if dtype is None else a.astype(dtype)
            if shape is not None:
                data = data.reshape(shape)
        self[name] = data

    def modify(self, name, value):
        self[name] = value

    def __delitem__(self, k):
        self._f.wr()
        if _nm(k) not in self._d:
            raise KeyError("Unable to synchronously delete attribute (can't locate attribute: '%s')" % k)
        del self._d[_nm(k)]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __contains__(self, k):
        return isinstance(k, str) and str(k) in self._d

    def __iter__(self):
        return iter(sorted(self._d))

    def keys(self):
        return KV(self, lambda: sorted(self._d))

    def values(self):
        return [self[k] for k in sorted(self._d)]

    def items(self):
        return [(k, self[k]) for k in sorted(self._d)]

    def __len__(self):
        return len(self._d)


class KV:
    """key view"""

    def __init__(self, o, f):
        self._o = o
        self._f = f

    def __iter__(self):
        return iter(self._f())

    def __len__(self):
        return len(self._f())

    def __contains__(self, k):
        return isinstance(k, str) and str(k) in self._f()

    def __sub__(self, o):
        return set(self._f()) - set(o)

    def __and__(self, o):
        return set(self._f()) & set(o)

    def __or__(self, o):
        return set(self._f()) | set(o)


def np_scalar(v):
    if isinstance(v, SBool):
        return SBool(v.t, np.bool_)
    if isinstance(v, SInt):
        return v if V.is_np_scalar_type(v.ty) else SInt(v.t, np.int64)
    if isinstance(v, SReal):
        return v if v.ty is not float else SReal(v.t, np.float64, v.nan)
    if isinstance(v, V.SCplx):
        return v if v.ty is not complex else V.SCplx(v.re, v.im, np.complex128)
    if isinstance(v, V.SFlt):
        return v if v.ty is not float else v.cast(np.float64)
    raise EngineError('HDF5 attribute of %s' % type(v).__name__)


def A_copy(a):
    return a.copy() if isinstance(a, np.ndarray) else a


def check_dtype(dt):
    if dt.kind == 'U':
        raise TypeError("No conversion path for dtype: %r" % dt)
    if dt.kind == 'O':
        raise TypeError("Object dtype %r has no native HDF5 equivalent" % dt)


class Dataset(HLObject):
    __getattr__ = unmodelled('Dataset')

    def __init__(self, f, name, data):
        self._f = f
        self.name = '/' + name
        self._a = data
        self.attrs = AttributeManager(f)

    shape = property(lambda s: s._a.shape)
    dtype = property(lambda s: s._a.dtype)
    ndim = property(lambda s: s._a.ndim)
    maxshape = shape

    @property
    def size(self):
        return int(np.prod(self._a.shape, dtype=int))

    def __len__(self):
        if not self._a.ndim:
            raise TypeError('Attempt to take len() of scalar dataset')
        return self._a.shape[0]

    def len(self):
        return len(self)

    def _key(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        out = []
        for x in ks:
            if isinstance(x, slice):
                if x.step is not None and x.step < 1:
                    raise ValueError('Step must be >= 1 (got %d)' % x.step)
                out.append(slice(*[None if y is None else A.fix_index(y) for y in (x.start, x.stop, x.step)]))
            elif x is Ellipsis:
                out.append(x)
            elif isinstance(x, (list, np.ndarray, str, tuple, bytes)) or x is None:
                raise EngineError('HDF5 selection %r' % type(x))
            else:
                out.append(A.fix_index(x))
        return tuple(out)

    def __getitem__(self, k):
        if isinstance(k, tuple) and not k:
            return A_copy(self._a) if self._a.ndim else self._a[()]
        if not self._a.ndim:
            if k is Ellipsis:
                return A_copy(self._a)
            raise ValueError('Illegal slicing argument for scalar dataspace')
        key = self._key(k)
        n = 0
        for x in key:
            if x is Ellipsis:
                n = None
                break
            n += 1
        if n is not None and n > self._a.ndim:
            raise TypeError('%d indexing arguments for %d dimensions' % (n, self._a.ndim))
        for x, d in zip(key, self._a.shape):
            if isinstance(x, int) and not -d <= x < d:
                raise IndexError('Index (%d) out of range for (0-%d)' % (x, d - 1))
        r = self._a[key]
        return A_copy(r)

    def __setitem__(self, k, v):
        self._f.wr()
        self._a[self._key(k) if not (isinstance(k, tuple) and not k) else ()] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array__(self, dtype=None):
        if isinstance(self._a, SymArr):
            raise EngineError('HDF5 dataset used as array')
        return self._a if dtype is None else self._a.astype(dtype)

    def astype(self, dt):
        return AsType(self, dt)

    nbytes = property(lambda s: s.size * s._a.dtype.itemsize)
    compression = property(lambda s: s._comp)
    file = property(lambda s: s._f)
    _comp = None


class AsType:
    def __init__(self, d, dt):
        self._d, self._dt = d, dt

    def __getitem__(self, k):
        r = self._d[k]
        if not hasattr(r, 'astype'):
            raise EngineError('HDF5 astype of a scalar')
        return r.astype(self._dt)


class Group(Mapping, HLObject):
    __getattr__ = unmodelled('Group')

    def __init__(self, f, name):
        self._f = f if f is not None else self
        self.name = '/' + name
        self._items = {}
        self.attrs = AttributeManager(self._f)

    def __getitem__(self, k):
        if isinstance(k, SUnion):
            k = k.pick()
        k = _nm(k)
        if k not in self._items:
            raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % k)
        return self._items[k]

    def get(self, k, default=None, **kw):
        return self[k] if k in self else default

    def __contains__(self, k):
        return isinstance(k, str) and _nm(k) in self._items

    def __iter__(self):
        return iter(sorted(self._items))

    def keys(self):
        return KV(self, lambda: sorted(self._items))

    def values(self):
        return [self._items[k] for k in sorted(self._items)]

    def items(self):
        return [(k, self._items[k]) for k in sorted(self._items)]

    def __len__(self):
        return len(self._items)

    def __delitem__(self, k):
        self._f.wr()
        self[k]
        del self._items[_nm(k)]

    def create_group(self, name, **kw):
        self._f.wr()
        n = _nm(name)
        if n in self._items:
            raise ValueError("Unable to synchronously create group (name already exists)")
        g = Group(self._f, n)
        self._items[n] = g
        return g

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, compression_opts=None,
                       **kw):
        self._f.wr()
        n = _nm(name)
        if isinstance(data, SUnion):
            data = data.pick()
        filt = [k for k in ('chunks', 'shuffle', 'fletcher32', 'scaleoffset') if kw.get(k)] + \
            [k for k in ('maxshape',) if kw.get(k) is not None]
        if set(kw) - {'chunks', 'shuffle', 'fletcher32', 'scaleoffset', 'maxshape', 'track_times', 'track_order'} or \
           kw.get('scaleoffset') or kw.get('maxshape') is not None:
            raise EngineError('create_dataset(%s)' % list(kw))
        if data is None:
            if shape is None:
                raise TypeError('One of data, shape or dtype must be specified')
            dt = np.dtype('f4' if dtype is None else dtype)
            check_dtype(dt)
            data = np.zeros(shape, dt)
            o = np.empty(data.shape, dtype=object)
            for i in np.ndindex(*data.shape):
                o[i] = data[i]
            data, shape = mk(o, dt), None
        if isinstance(data, Empty):
            raise EngineError('empty dataset')
        if isinstance(data, (str, bytes, SStr, SBytes)):
            raise EngineError('string dataset')
        a = data if isinstance(data, np.ndarray) else A.np_array(data)
        if dtype is not None:
            a = a.astype(dtype)
        check_dtype(a.dtype)
        if shape is not None:
            shape = shape if isinstance(shape, tuple) else tuple(shape) if hasattr(shape, '__len__') else (shape,)
            if int(np.prod(shape, dtype=int)) != int(np.prod(a.shape, dtype=int)):
                raise ValueError('Shape tuple is incompatible with data')
            a = a.reshape(shape)
        if filt and a.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        if compression is True:
            compression = 'gzip'
        if compression is False:
            compression = None
        if compression is not None:
            if isinstance(compression, (int, np.integer)) and not 0 <= compression < 10 or \
               isinstance(compression, str) and compression not in ('gzip', 'lzf', 'szip') or \
               not isinstance(compression, (int, np.integer, str)):
                raise ValueError('Compression filter "%s" is unavailable' % (compression,))
            if a.ndim == 0:
                raise TypeError("Scalar datasets don't support chunk/filter options")
        if n in self._items:
            raise ValueError("Unable to synchronously create dataset (name already exists)")
        d = Dataset(self._f, n, A_copy(a))
        d._comp = compression
        self._items[n] = d
        return d

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        if name in self:
            raise EngineError('require_dataset')
        return self.create_dataset(name, shape, dtype, **kw)

    file = property(lambda s: s._f)

    def visit(self, fn):
        return self.visititems(lambda n, o: fn(n))

    def visititems(self, fn):
        for k in sorted(self._items):
            r = fn(k, self._items[k])
            if r is not None:
                return r
            if isinstance(self._items[k], Group):
                r = self._items[k].visititems(lambda n, o: fn(k + '/' + n, o))
                if r is not None:
                    return r

    def __setitem__(self, k, v):
        if isinstance(v, HLObject):
            raise EngineError('HDF5 link')
        self.create_dataset(k, data=v)


class File(Group):
    """a view of the root group of the file in the symbolic file system"""
    __getattr__ = unmodelled('File')

    def __init__(self, name, mode='r', **kw):
        from . import models as M
        if not isinstance(name, (str, SStr)) and not hasattr(name, '__fspath__'):
            if isinstance(name, (bytes,)):
                name = name.decode()
            else:
                raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(name).__name__)
        p = M.fpath(name)
        fs = C().fs
        if mode not in ('r', 'r+', 'w', 'w-', 'x', 'a', None):
            raise ValueError('Invalid mode; must be one of r, r+, w, w-, x, a')
        mode = mode or 'r'
        if mode in ('r', 'r+') and p not in fs:
            raise FileNotFoundError(2, 'Unable to synchronously open file', p)
        if mode in ('w-', 'x') and p in fs:
            raise FileExistsError(17, 'Unable to synchronously create file (file exists)')
        if p == '':
            raise FileNotFoundError(2, 'Unable to synchronously create file')
        if mode == 'w' or p not in fs:
            fs[p] = Store()
        st = fs[p]
        if not isinstance(st, Store):
            raise OSError('Unable to synchronously open file (file signature not found)')
        self._st = st
        self.filename = p
        self.mode = 'r' if mode == 'r' else 'r+'
        self.name = '/'
        if mode != 'r' and (st.readers or st.writers) or st.writers:
            raise BlockingIOError('Unable to synchronously open file (unable to lock file)')
        self._open = True
        if mode == 'r':
            st.readers += 1
        else:
            st.writers += 1

    # the root group's contents
    _items = property(lambda s: s._ck().root._items)
    attrs = property(lambda s: s._ck().root.attrs)

    def _ck(self):
        if not self._open:
            raise ValueError('Invalid location identifier (invalid location identifier)')
        return self._st

    @property
    def _f(self):
        return self._st

    def create_group(self, name, **kw):
        self._ck()
        return Group.create_group(self, name, **kw)

    def close(self):
        if self._open:
            self._open = False
            if self.mode == 'r':
                self._st.readers -= 1
            else:
                self._st.writers -= 1

    def flush(self):
        pass

    def __bool__(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Store:
    """contents of one HDF5 file"""

    def __init__(self):
        self.readers = 0
        self.writers = 0
        self.root = Group(self, '')

    def wr(self):
        if not self.writers:
            raise ValueError('Unable to synchronously write (no write intent on file)')


def is_hdf5(p):
    return isinstance(C().fs.get(p), Store)


def module():
    m = types.ModuleType('h5py')
    m.File, m.Group, m.Dataset, m.Empty, m.HLObject = File, Group, Dataset, Empty, HLObject
    m.AttributeManager = AttributeManager
    m.is_hdf5 = is_hdf5
    m.__version__ = '3.16.0'
    return m
