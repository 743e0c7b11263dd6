"""Shared by the conversion properties C14-C16: convertible Borealis records, the
reference conversion of one record and beam, and access to what was written."""
from collections import OrderedDict
from datetime import datetime, timezone
import numpy as np
from symex.harness import same, SInt, SReal, SCplx, V, M, z3
from . import _bor as B
from . import _dmap as D

# station codes and their numbers
STID = {"tst": 0, "gbr": 1, "sch": 2, "kap": 3, "hal": 4, "sas": 5, "pgr": 6, "kod": 7, "sto": 8, "pyk": 9, "han": 10, "san": 11,
        "sys": 12, "sye": 13, "tig": 14, "ker": 15, "ksr": 16, "unw": 18, "zho": 19, "mcm": 20, "fir": 21, "sps": 22, "bpk": 24,
        "wal": 32, "bks": 33, "hok": 40, "hkw": 41, "inv": 64, "rkn": 65, "cly": 66, "dce": 96, "svb": 128, "fhw": 204, "fhe": 205,
        "cvw": 206, "cve": 207, "adw": 208, "ade": 209, "ekb": 512}
# tau spacing and pulse length, in us
TAU = [(1500, 300), (2400, 300), (700, 100), (1000, 300)]
TIMES = [1571870400.125, 1582934399.75, 1600000000.5]
# the ends of days, months and years, leap days, and fractions of a second of every kind
MANY = [1078099199.999999, 1262304000.0, 1330560000.000001, 1341100800.25, 1577836799.999, 1577836800.001, 1582977599.123456,
        1582977600.000009, 1604232000.05, 2145916799.999, 2147483647.9]


def cast(h, ty, v):
    return M.call(ty, v) if h.sym else ty(v)


def gen(h, fixed, some=None):
    """generator of the numbers of convertible records; `fixed` gives fields of
    known value; of large arrays only `some` elements are symbolic"""
    lims = {'freq': 32767, 'agc_status_word': 32767, 'lp_status_word': 32767, 'slice_id': 32767, 'beam_nums': 32767,
            'lags': 32767, 'num_slices': 100}
    reals = {'first_range': (0, 4000), 'first_range_rtt': (0, 32000), 'range_sep': (1, 300), 'rx_sample_rate': (100, 10000000),
             'int_time': (0, 1000), 'noise_at_freq': (0, 1000), 'beam_azms': (-180, 180), 'sqn_timestamps': (1500000000, 1900000000),
             'gps_to_system_time_diff': (-1, 1)}

    def one(nm, f, ty):
        if ty is np.complex64:
            re, im = [h.real(nm + p, np.float32, -10, 10) for p in ('.re', '.im')]
            return SCplx(re, im, ty) if h.sym else ty(complex(re, im))
        if ty in (np.float32, np.float64):
            lo, hi = reals[f]
            return h.real(nm, ty, lo, hi)
        if f == 'experiment_id':
            return h.int(nm, -32768, 32767, ty)
        if f in lims:
            return h.int(nm, 0, lims[f], ty)
        if ty in (np.uint8, np.bool_):
            b = h.bool(nm, True)
            return cast(h, ty, b)
        return h.int(nm, 0, 32767, ty)

    def g(nm, f, shape, ty):
        if f in fixed:
            v = fixed[f]
            return ty(v) if shape is None else h.const(np.array(v, dtype=ty)) if not isinstance(v, np.ndarray) else v
        if shape is None:
            return one(nm, f, ty)
        o = np.empty(shape, dtype=object)
        for k, i in enumerate(np.ndindex(*shape)):
            if some and ty is np.complex64 and not some(nm, f, k):
                # exact in single precision, and so are the products
                o[i] = ty(complex(k % 97 / 64, (k * 7 + 1) % 89 / 64 - 0.5)) if f != 'tx_antenna_phases' else ty(k % 3)
            else:
                o[i] = one('%s%s' % (nm, list(i)), f, ty)
        return B.make(h, o, ty)
    return g


def recorder(h):
    """in symbolic runs the structures handed to the byte encoder (C02) are
    recorded and their number written in the place of their bytes"""
    if not h.sym:
        return None
    log = []
    W = h.mod('pydarnio.dmap.dmap').DmapWrite
    old = W._dmap_record_to_bytes

    def enc(self, record):
        self.dmap_bytearr.extend(b'R%03d' % len(log))
        log.append(record)
    W._dmap_record_to_bytes = enc
    return log, lambda: setattr(W, '_dmap_record_to_bytes', old)


def run(h, p, ft, q, *a, **kw):
    """converts; the outcome and the records recorded"""
    rec = recorder(h)
    try:
        o = h.call(h.lib.BorealisConvert, p, ft, q, *a, **kw)
    finally:
        if rec:
            rec[1]()
    return o, rec[0] if rec else None


def written(h, name, log):
    """the DMAP records in the file `name`: field -> value of its numpy type"""
    data = h.get(name)
    if not h.sym:
        return D.Ref(h, data).all()
    from symex.values import SBytes
    data = bytes(SBytes.elems(data))
    out = []
    h.check(len(data) % 4 == 0, 'the file holds whole records')
    for i in range(0, len(data), 4):
        rec = log[int(data[i + 1:i + 4])]
        d = OrderedDict()
        for f, s in rec.items():
            h.check(s.name == f, 'fields are named')
            h.check(D.CODES[s.data_type_fmt] == s.data_type, 'type codes')
            v = s.value
            if isinstance(v, np.ndarray):
                h.check(list(s.shape) == list(v.shape) and s.dimension == v.ndim, 'dimensions of ' + f)
                h.check(v.dtype.type is D.NPT[s.data_type_fmt], 'data type of ' + f)
            d[f] = v
        out.append(d)
    return out


READ = {np.int32: int, np.float32: float}


def near(h, got, exp, tol=0, rel=0):
    """equal in value and type; on the real code up to floating point rounding"""
    if isinstance(exp, str):
        return got == exp
    if h.sym:
        return same(got, exp)
    if isinstance(exp, np.ndarray):
        if not (isinstance(got, np.ndarray) and got.dtype == exp.dtype and got.shape == exp.shape):
            return False
        a, b = got.astype(np.float64), exp.astype(np.float64)
        return bool((np.abs(a - b) <= tol + rel * np.abs(b)).all())
    if type(got) is not READ.get(type(exp), type(exp)):
        return False
    return abs(float(got) - float(exp)) <= tol + rel * abs(float(exp))


TOL = {'data': (1, 1e-6), 'tus': (1, 0), 'intt.us': (1, 0), 'smsep': (1, 0), 'skpnum': (1, 0), 'acfd': (1e-3, 1e-5),
       'xcfd': (1e-3, 1e-5), 'pwr0': (1e-3, 1e-5), 'bmazm': (0, 1e-6), 'noise.search': (0, 1e-6), 'tnoise': (0, 1e-6)}


def check_record(h, got, exp, what):
    h.check(set(got) == set(exp), '%s has the fields of the file type' % what)
    for f in exp:
        h.check(near(h, got[f], exp[f], *TOL.get(f, (0, 0))), '%s: %s' % (what, f))


def stamp(t):
    return datetime.fromtimestamp(float(t), timezone.utc)


def version(git):
    v = git.split('-')[0].split('.')
    return int(v[0][1:]), int(v[1])


def arr(h, vals, shape, ty):
    o = np.empty(shape, dtype=object)
    for i, idx in enumerate(np.ndindex(*shape)):
        o[idx] = cast(h, ty, vals[i])
    return B.make(h, o, ty)


def floor(h, x):
    return V.mkint(z3.ToInt(V.to_real(x).t)) if h.sym and isinstance(x, SReal) else int(np.floor(float(x)))


def micros(h, x):
    """the microseconds of a time in seconds, truncated"""
    if h.sym and isinstance(x, SReal):
        t = V.to_real(x).t
        return V.mkint(z3.ToInt((t - z3.ToReal(z3.ToInt(t))) * 1000000))
    return int(np.fmod(float(x), 1.0) * 1e6)


def common(h, rec, beam, name, infile, slice_id, scale):
    """the fields both file types have in common, for one beam of a site record"""
    e = B.elems
    t0 = e(rec['sqn_timestamps'])[0]
    t = stamp(t0)
    maj, mnr = version(rec['borealis_git_hash'])
    out = {
        'radar.revision.major': np.int8(maj), 'radar.revision.minor': np.int8(mnr), 'origin.code': np.int8(100),
        'origin.time': t.strftime('%c'), 'origin.command': 'Borealis %s %s' % (rec['borealis_git_hash'], rec['experiment_name']),
        'cp': cast(h, np.int16, rec['experiment_id']), 'stid': np.int16(STID[rec['station']]),
        'time.yr': np.int16(t.year), 'time.mo': np.int16(t.month), 'time.dy': np.int16(t.day), 'time.hr': np.int16(t.hour),
        'time.mt': np.int16(t.minute), 'time.sc': np.int16(t.second), 'time.us': np.int32(t.microsecond),
        'nave': cast(h, np.int16, rec['num_sequences']), 'atten': np.int16(0), 'lagfr': cast(h, np.int16, rec['first_range_rtt']),
        'smsep': cast(h, np.int16, 1000000 / rec['rx_sample_rate']), 'ercod': np.int16(0),
        'stat.agc': cast(h, np.int16, rec.get('agc_status_word', 0)), 'stat.lopwr': cast(h, np.int16, rec.get('lp_status_word', 0)),
        'noise.search': cast(h, np.float32, e(rec['noise_at_freq'])[0]), 'noise.mean': np.float32(0),
        'channel': cast(h, np.int16, slice_id), 'bmnum': cast(h, np.int16, e(rec['beam_nums'])[beam]),
        'bmazm': cast(h, np.float32, e(rec['beam_azms'])[beam]), 'scan': cast(h, np.int16, rec['scan_start_marker']),
        'offset': np.int16(0), 'rxrise': np.int16(0), 'intt.sc': cast(h, np.int16, floor(h, rec['int_time'])),
        'intt.us': cast(h, np.int32, micros(h, rec['int_time'])), 'txpl': cast(h, np.int16, rec['tx_pulse_len']),
        'mpinc': cast(h, np.int16, rec['tau_spacing']), 'mppul': np.int16(len(rec['pulses'])),
        'mplgs': np.int16(rec['lags'].shape[0] - 1),
        'frang': cast(h, np.int16, nearest(h, rec['first_range'])), 'rsep': cast(h, np.int16, nearest(h, rec['range_sep'])),
        'tfreq': cast(h, np.int16, rec['freq']), 'mxpwr': np.int32(-1), 'lvmax': np.int32(20000),
        'combf': 'Converted from Borealis file: %s record %s with scaling factor = %s ; Number of beams in record: %d ; %s ; %s'
                 % (infile, name, scale, len(rec['beam_nums']), rec['experiment_comment'], rec['slice_comment']),
        'ptab': arr(h, list(e(rec['pulses'])), rec['pulses'].shape, np.int16),
        'ltab': arr(h, list(e(rec['lags']).reshape(-1)), rec['lags'].shape, np.int16)}
    return out


def nearest(h, x):
    """to the nearest integer, ties to even"""
    return V.round_int(x) if h.sym and isinstance(x, SReal) else round(float(x))


def iqdat(h, rec, beam, name, infile, slice_id, scale):
    out = common(h, rec, beam, name, infile, slice_id, scale)
    e = B.elems
    d = e(rec['data']).reshape([int(x) for x in np.array(e(rec['data_dimensions'])).tolist()])
    na, ns, nb, nsm = d.shape
    names = [str(x, 'ascii') if isinstance(x, bytes) else str(x) for x in e(rec['antenna_arrays_order']).tolist()]
    samples = []
    for s in range(ns):
        for a in range(na):
            for k in range(nsm):
                for part in (d[a, s, beam, k].real, d[a, s, beam, k].imag):
                    samples.append(count(h, part, rec['data_normalization_factor'], scale))
    ts = list(e(rec['sqn_timestamps']))
    size = 2 * na * nsm
    out.update({
        'txpow': np.int16(-1), 'nrang': cast(h, np.int16, rec['num_ranges']), 'xcf': np.int16('intf' in names),
        'iqdata.revision.major': np.int32(1), 'iqdata.revision.minor': np.int32(0), 'seqnum': np.int32(ns), 'chnnum': np.int32(na),
        'smpnum': np.int32(nsm), 'skpnum': cast(h, np.int32, rec['first_range'] / rec['range_sep']),
        'tsc': arr(h, [floor(h, t) for t in ts], (ns,), np.int32), 'tus': arr(h, [micros(h, t) for t in ts], (ns,), np.int32),
        'tatten': arr(h, [0] * ns, (ns,), np.int16), 'tnoise': arr(h, list(e(rec['noise_at_freq'])), (ns,), np.float32),
        'toff': arr(h, [i * size for i in range(ns)], (ns,), np.int32), 'tsze': arr(h, [size] * ns, (ns,), np.int32),
        'data': B.make(h, np.array(samples + [None], dtype=object)[:-1], np.int16)})
    return out


def count(h, x, norm, scale):
    """a sample in 16-bit counts: full scale is the normalization factor, limited to the range of counts"""
    if h.sym and isinstance(x, SReal):
        t = V.to_real(x).t * V.rat(V.Fraction(float(norm)) ** -1 * 32767 * scale)
        t = z3.If(t > 32767, z3.RealVal(32767), z3.If(t < -32768, z3.RealVal(-32768), t))
        return V.mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), np.int16)
    return np.int16(int(min(max(float(x) / float(norm) * 32767 * scale, -32768), 32767)))


def rawacf(h, rec, beam, name, infile, slice_id, scale):
    out = common(h, rec, beam, name, infile, slice_id, scale)
    e = B.elems
    dims = rec['correlation_dimensions'] if 'correlation_dimensions' in rec else rec['data_dimensions']
    dims = [int(x) for x in np.array(e(dims)).tolist()]
    nb, nr, nl = dims
    k = V.Fraction(32767 ** 2 * scale) / V.Fraction(float(rec['data_normalization_factor'])) ** 2

    def scaled(x):
        if h.sym and isinstance(x, SReal):
            return SReal(V.to_real(x).t * V.rat(k), np.float32)
        return np.float32(float(x) * float(k))
    for src, dst in (('main_acfs', 'acfd'), ('xcfs', 'xcfd')):
        d = e(rec[src]).reshape(dims)
        out[dst] = arr(h, [scaled(p) for r in range(nr) for l in range(nl - 1) for p in (d[beam, r, l].real, d[beam, r, l].imag)],
                       (nr, nl - 1, 2), np.float32)
    power = []
    d = e(rec['main_acfs']).reshape(dims)
    for r in range(nr):
        re, im = scaled(d[beam, r, 0].real), scaled(d[beam, r, 0].imag)
        power.append((re, im))
    txpow = -1
    if 'tx_antenna_phases' in rec:
        txpow = 0
        for i, x in enumerate(e(rec['tx_antenna_phases'])):
            on = h.Or(h.Not(x.real == 0), h.Not(x.imag == 0))
            txpow = txpow + h.ite(on, 1 << i, 0)
    out.update({'txpow': cast(h, np.int16, txpow), 'nrang': np.int16(nr), 'xcf': np.int16(1),
                'rawacf.revision.major': np.int32(1), 'rawacf.revision.minor': np.int32(0), 'thr': np.float32(0),
                'slist': arr(h, list(range(nr)), (nr,), np.int16)})
    return out, power
