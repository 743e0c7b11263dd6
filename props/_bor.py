"""Shared by the Borealis properties: the field tables (pinned, so that the
package's own tables are under test too), generators of valid records with
symbolic contents, an independent HDF5 reader/writer, and the reference
restructuring between site records and arrays."""
import json
import os
from collections import OrderedDict
import numpy as np
from symex.harness import same, same_elem, conj, raw, mk, SymArr, SBool, SBytes, SStr, SUnion, V, M, z3, tb, Sym
from symex import fakeh5

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'borealis_tables.json')) as _f:
    TABLES = json.load(_f, object_pairs_hook=OrderedDict)
TY = {'str': str, 'str_': np.str_, 'bytes_': np.bytes_, 'bool_': np.bool_, 'int64': np.int64, 'uint32': np.uint32,
      'uint8': np.uint8, 'int16': np.int16, 'float32': np.float32, 'float64': np.float64, 'complex64': np.complex64}
VERSIONS = ['v0.4', 'v0.5', 'v0.6', 'v0.7']
RELEASES = {'v0.2': 'v0.4', 'v0.3': 'v0.4', 'v0.4': 'v0.4', 'v0.5': 'v0.5', 'v0.6': 'v0.6', 'v0.7': 'v0.7'}
FTYPES = ['rawacf', 'bfiq', 'antennas_iq', 'rawrf']
DIM_FTYPES = ['rawacf', 'bfiq', 'antennas_iq']
HASH = {'v0.2': 'v0.2-aa', 'v0.3': 'v0.3.1', 'v0.4': 'v0.4-12-gabc', 'v0.5': 'v0.5', 'v0.6': 'v0.6.1-7-g0123', 'v0.7': 'v0.7.0-rc'}
# first sequence times of the records (seconds), and the record names they give
TIMES = [1571870400.123, 1571870403.0, 1600000000.999, 1571870400.5, 1571870399.9995, 1571870406.25, 1590000000.001,
         1571870409.0, 1571870412.5, 1583020799.999, 1577836800.0, 1571870415.75]


def recname(t):
    # whole milliseconds, cut off, as Borealis names its records
    return '%d' % (round(t * 1000000) // 1000)


class Fmt:
    """the format of a version and file type, as pinned in the tables"""

    def __init__(self, ver, ft):
        self.ver, self.ft = ver, ft
        t = TABLES[RELEASES[ver]][ft]
        self.single = OrderedDict((k, TY[v]) for k, v in t['single'].items())
        self.array = OrderedDict((k, TY[v]) for k, v in t['array'].items())
        self.shared, self.unshared, self.site_only, self.array_only = [list(t[k]) for k in
                                                                       ('shared', 'unshared', 'site_only', 'array_only')]
        if ft == 'rawrf':
            self.site = list(self.single) + list(self.array)
        else:
            self.site = self.shared + self.unshared + self.site_only
        self.arrays = self.shared + self.unshared + self.array_only
        # types of the fields in either structure: attributes (scalars) and datasets (arrays)
        self.site_attrs = OrderedDict((k, self.single[k]) for k in self.site if k in self.single)
        self.site_data = OrderedDict((k, self.array[k]) for k in self.site if k in self.array)
        self.array_attrs = OrderedDict((k, self.single[k]) for k in self.arrays if k in self.single and k in self.shared)
        self.array_data = OrderedDict((k, self.array[k] if k in self.array else self.single[k])
                                      for k in self.arrays if k not in self.array_attrs)

    def descriptors(self, structure):
        if self.ft == 'rawacf':
            d = ['num_beams', 'num_ranges', 'num_lags']
            if structure == 'array':
                d = ['num_records', 'max_num_beams', 'num_ranges', 'num_lags']
        elif self.ft == 'bfiq':
            d = ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps']
            if structure == 'array':
                d = ['num_records', 'num_antenna_arrays', 'max_num_sequences', 'max_num_beams', 'num_samps']
        else:
            d = ['num_antennas', 'num_sequences', 'num_samps']
            if structure == 'array':
                d = ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps']
        k = 'correlation_descriptors' if 'correlation_descriptors' in self.array else 'data_descriptors'
        return k, np.array(d, dtype='S' if self.array[k] is np.bytes_ else None)

    def dims_field(self):
        return 'correlation_dimensions' if 'correlation_dimensions' in self.array else 'data_dimensions'

    def blocks(self):
        """the fields holding measured data, and whether site records hold them flattened"""
        if self.ft == 'rawacf':
            return ['main_acfs', 'intf_acfs', 'xcfs'], RELEASES[self.ver] != 'v0.7'
        return ['data'], True


# dimensions that are the same in all records of a file
FIX = dict(R=2, L=2, S=2, A=2, T=3, P=2, AA=2, Q=2)


def sized(harness):
    """a harness whose cases may give these dimensions in 'fix'"""
    def wrapped(h, case):
        old = dict(FIX)
        FIX.update(case.get('fix', {}))
        try:
            return harness(h, case)
        finally:
            FIX.clear()
            FIX.update(old)
    return wrapped


def fmt_of(h, fmt):
    return h.mod('pydarnio.borealis.borealis_formats').borealis_version_dict[fmt.ver][fmt.ft]


def make(h, o, dt):
    """array of dtype dt from an object array of elements"""
    dt = np.dtype(dt)
    if h.sym:
        return mk(o, dt)
    r = np.empty(o.shape, dtype=dt)
    for i in np.ndindex(*o.shape):
        r[i] = o[i]
    return r


def elems(a):
    return raw(a) if isinstance(a, SymArr) else a


def data(h, name, shape, ty, gen=None, f=None):
    if gen is not None:
        return gen(name, f, shape, ty)
    if ty is np.complex64:
        return h.array(name, shape, ty)
    return h.barray(name, shape, ty)


def single(h, name, ty, gen=None, f=None):
    if gen is not None:
        return gen(name, f, None, ty)
    if ty is np.bool_:
        b = h.bool(name, True)
        return SBool(b.t, np.bool_) if h.sym else np.bool_(b)
    if ty in (np.float32, np.float64):
        return h.flt(name, ty)
    return h.bv(name, ty)


TEXTS = ['', 'plain text', 'caf\u00e9 \u2603']


def shared_values(h, fmt, texts=None, gen=None, prefix=''):
    """values of the fields all records of a file have in common; gen generates the numbers"""
    out = {}
    for i, f in enumerate(fmt.shared if fmt.ft != 'rawrf' else ['borealis_git_hash', 'station', 'experiment_comment']):
        if f in fmt.single:
            ty = fmt.single[f]
            if f == 'borealis_git_hash':
                v = HASH[fmt.ver]
            elif f in ('num_ranges', 'num_samps'):
                v = ty(FIX['R'] if f == 'num_ranges' else FIX['S'])
            elif ty is str:
                v = (texts or {}).get(f, 'st' if f == 'station' else TEXTS[i % 3])
            else:
                v = single(h, prefix + f, ty, gen, f)
        else:
            ty = fmt.array[f]
            if f == 'antenna_arrays_order':
                v = np.array(['main', 'intf'][:FIX['AA']] if fmt.ft == 'bfiq' else ['antenna_%d' % k for k in range(FIX['A'])],
                             dtype='S' if ty is np.bytes_ else None)
            else:
                shape = {'pulses': (FIX['P'],), 'pulse_phase_offset': (FIX['P'],), 'lags': (FIX['L'], 2),
                         'blanked_samples': (FIX['Q'],)}[f]
                v = data(h, prefix + f, shape, ty, gen, f)
        out[f] = v
    return out


def shape_of(fmt, f, d):
    """shape of the block field f (unflattened) of a record of dimensions d"""
    if fmt.ft == 'rawacf':
        return (d['beams'], FIX['R'], FIX['L'])
    if fmt.ft == 'bfiq':
        return (FIX['AA'], d['seqs'], d['beams'], FIX['S'])
    return (FIX['A'], d['seqs'], FIX['S'])


def record(h, fmt, name, t0, d, shared, texts=None, ppo2=False, gen=None):
    """a valid site record with dimensions d and first sequence time t0"""
    blocks, flat = fmt.blocks()
    rec = OrderedDict()
    fields = list(fmt.site)
    for f in fields:
        nm = '%s.%s' % (name, f)
        if f in shared:
            v = shared[f]
        elif f in fmt.single:
            ty = fmt.single[f]
            if f == 'num_sequences':
                v = ty(d['seqs'])
            elif f == 'num_samps':
                v = ty(FIX['S'])
            elif ty is str:
                v = (texts or {}).get(f, 'text of ' + name)
            else:
                v = single(h, nm, ty, gen, f)
        else:
            ty = fmt.array[f]
            if f in blocks:
                s = shape_of(fmt, f, d)
                v = data(h, nm, s, ty, gen, f)
                if flat:
                    v = v.reshape((int(np.prod(s)),))
            elif f == fmt.dims_field():
                v = h.const(np.array(shape_of(fmt, blocks[0], d), dtype=ty))
            elif f.endswith('_descriptors'):
                v = fmt.descriptors('site')[1]
            elif f == 'sqn_timestamps':
                o = np.array(elems(data(h, nm, (d['seqs'],), ty, gen, f)), dtype=object)
                o[0] = np.float64(t0)
                v = make(h, o, ty)
            elif f == 'pulse_phase_offset':
                v = data(h, nm, (d['seqs'], FIX['P']) if ppo2 else (FIX['P'],), ty, gen, f)
            else:
                n = {'noise_at_freq': d['seqs'], 'beam_nums': d['beams'], 'beam_azms': d['beams'],
                     'blanked_samples': d['blank'], 'tx_antenna_phases': FIX['T']}[f]
                v = data(h, nm, (n,), ty, gen, f)
        rec[f] = v
    return rec


def records(h, fmt, dims, texts=None, ppo2=False, shared_texts=None, gen=None, times=None, prefix=''):
    sh = shared_values(h, fmt, shared_texts, gen, prefix)
    out = OrderedDict()
    for i, d in enumerate(dims):
        t = sorted((times or TIMES)[:len(dims)])[i]
        out[recname(t)] = record(h, fmt, '%sr%d' % (prefix, i), t, d, sh, texts[i] if texts else None, ppo2, gen)
    return out


# ----------------------------------------------------------- reference restructuring
def pad(ty):
    if ty in (np.int64,):
        return np.int64(-1)
    if ty in (np.uint32, np.uint8):
        return ty(0)
    if ty is np.complex64:
        return np.complex64(complex(np.nan, 0))
    return ty(np.nan)


def unflat(fmt, f, rec):
    """the value of field f with its dimensions restored"""
    blocks, flat = fmt.blocks()
    v = rec[f]
    if f in blocks and flat:
        v = v.reshape(tuple(int(x) for x in np.array(elems(rec[fmt.dims_field()])).tolist()))
    return v


def to_arrays(h, fmt, recs):
    recs = list(recs.values())
    out = OrderedDict()
    for f in fmt.shared:
        out[f] = recs[0][f]
    for f in fmt.unshared:
        if f in fmt.single:
            if fmt.single[f] is str:
                out[f] = np.array([r[f] for r in recs])
            else:
                o = np.empty((len(recs),), dtype=object)
                for i, r in enumerate(recs):
                    o[i] = r[f]
                out[f] = make(h, o, fmt.single[f])
        else:
            ty = fmt.array[f]
            vs = [unflat(fmt, f, r) for r in recs]
            shape = tuple(max(v.shape[k] for v in vs) for k in range(vs[0].ndim))
            o = np.empty((len(recs),) + shape, dtype=object)
            p = pad(ty)
            for i, v in enumerate(vs):
                e = elems(v)
                for idx in np.ndindex(*shape):
                    o[(i,) + idx] = e[idx] if all(a < b for a, b in zip(idx, v.shape)) else p
            out[f] = make(h, o, ty)
    out['num_beams'] = h.const(np.array([len(r['beam_nums']) for r in recs], dtype=np.uint32))
    if 'num_blanked_samples' in fmt.array_only:
        out['num_blanked_samples'] = h.const(np.array([len(r['blanked_samples']) for r in recs], dtype=np.uint32))
    k, v = fmt.descriptors('array')
    out[k] = v
    return out


# ------------------------------------------------------------------- comparison
def text_array(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in 'US'


def same_field(a, b):
    """same value and type; the width of text arrays does not matter"""
    if text_array(a) or text_array(b):
        return bool(text_array(a) and text_array(b) and a.dtype.kind == b.dtype.kind and a.shape == b.shape
                    and (np.asarray(elems(a), dtype=object) == np.asarray(elems(b), dtype=object)).all())
    return same(a, b)


def check_fields(h, got, exp, what):
    h.check(set(got) == set(exp), '%s has exactly the fields of the format' % what)
    for f in exp:
        h.check(same_field(got[f], exp[f]), '%s: value, type and dimensions of %s' % (what, f))


def check_records(h, got, exp, what):
    h.check(list(got) == list(exp), '%s: the records in order of time' % what)
    for r in exp:
        check_fields(h, got[r], exp[r], '%s: record' % what)


# ------------------------------------------------------------------ HDF5 access
def h5(h):
    if h.sym:
        return fakeh5
    import h5py
    return h5py


def np_bytes(h, s):
    """the text as HDF5 fixed-length bytes"""
    if isinstance(s, (SStr, SUnion)):
        return M.call(np.bytes_, s.encode('utf-8'))
    return np.bytes_(s.encode('utf-8'))


def put_field(h, g, k, v, empty=False):
    if empty and isinstance(v, str) and v == '':
        g.attrs[k] = h5(h).Empty('S1')
    elif isinstance(v, (str, SStr)) or isinstance(v, SUnion):
        g.attrs[k] = np_bytes(h, v)
    elif isinstance(v, np.ndarray):
        if v.dtype.kind == 'U':
            d = g.create_dataset(k, data=h.const(np.ascontiguousarray(v).view(np.uint8)))
            d.attrs['strtype'] = b'unicode'
            d.attrs['itemsize'] = v.dtype.itemsize // 4
        else:
            g.create_dataset(k, data=v)
    else:
        g.attrs[k] = v


def put_site(h, name, recs, empty=False):
    """writes site records; empty: empty texts as HDF5 empty attributes, as deepdish wrote them"""
    p = h.path(name)
    with h5(h).File(p, 'w') as f:
        for r, rec in recs.items():
            g = f.create_group(r)
            for k, v in rec.items():
                put_field(h, g, k, v, empty)
    return p


def put_arrays(h, name, arrays, empty=False):
    p = h.path(name)
    with h5(h).File(p, 'w') as f:
        for k, v in arrays.items():
            put_field(h, f, k, v, empty)
    return p


def get_fields(h, g):
    out = {}
    for k in g.keys():
        d = g[k]
        v = d[()]
        if 'strtype' in d.attrs:
            h.check(d.attrs['strtype'] in (b'unicode', 'unicode'), 'text arrays are marked as such')
            v = np.ascontiguousarray(elems(v).astype(np.uint8)).view('<U%d' % int(d.attrs['itemsize']))
        out[k] = v
    for k in g.attrs.keys():
        v = g.attrs[k]
        if isinstance(v, h5(h).Empty):
            v = ''
        elif isinstance(v, (bytes, SBytes)):
            v = v.decode('utf-8')
        out[k] = v
    return out


def get_site(h, name):
    out = OrderedDict()
    with h5(h).File(h.path(name), 'r') as f:
        h.check(len(f.attrs.keys()) == 0, 'site files have no attributes of their own')
        for r in sorted(f.keys()):
            out[r] = get_fields(h, f[r])
    return out


def get_arrays(h, name):
    with h5(h).File(h.path(name), 'r') as f:
        return get_fields(h, f)


def snapshot(recs):
    """copy of records or arrays, to compare with later"""
    return type(recs)((k, snapshot(v) if isinstance(v, dict) else v.copy() if isinstance(v, np.ndarray) else v)
                      for k, v in recs.items())
