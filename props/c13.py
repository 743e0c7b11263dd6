"""C13: the version in the data selects the format, their structure the way they are handled."""
from collections import OrderedDict
import numpy as np
from . import _bor as B

BOUNDS = ('every reader, writer and the restructurer, with the structure named or left to the package; version texts: every '
          'text of up to 4 (some operations 3, thorough 5) characters, "v0." and "v0.N" followed by up to 3 (thorough: 4) arbitrary characters, and releases, '
          'candidates, untagged and later versions by name; data of every format and file type under the name of every '
          'release; file type and structure names: every text of up to 6 characters and near misses; values of other types '
          'or no value instead of the version; data of 2 records')
OUTSIDE = 'longer version texts; version texts that are not UTF-8; files that are no HDF5 files'
COVERS = ['accepted', 'version refused', 'fields refused', 'file type refused', 'structure refused', 'no version', 'kept apart']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}

OPS = ['read site', 'read array', 'read auto site', 'read auto array', 'write site', 'write array', 'write auto site',
       'write auto array', 'to array', 'to site']
TAGS = ['v0.2-61-gc13', 'v0.3', 'v0.4-12-gabc-dirty', 'v0.5.9', 'v0.6.1-7-g0123', 'v0.7.0.1-rc', 'v0.7', 'v0.1', 'v0.8', 'v0.50',
        'v0.5dev', 'v00.5', 'v1.5', 'v.5', 'v0', 'v0.', 'v0-5', 'V0.5', ' v0.5', 'v0.5 ', '0.5', 'w0.5', '0c1e3a9', 'v0.05',
        'v0.5\u0660', 'master', 'v0.6+v0.7', '-v0.5', '.v0.5', 'xv0.5-v0.5']


def cases(tier):
    out = []
    full = tier != 'quick'
    for op in OPS:
        for n in range(0, 6 if full else 5 if op in ('read site', 'write array', 'to array') else 4):
            out.append({'op': op, 'hash': ['', n], 'ver': 'v0.5', 'ft': 'rawacf'})
        for p in ['v0.'] + ['v0.%d' % k for k in range(1, 9)]:
            for n in range(1, 5 if full else 4):
                if full or n == 2 or p in ('v0.', 'v0.6'):
                    out.append({'op': op, 'hash': [p, n], 'ver': {'v0.4': 'v0.4', 'v0.7': 'v0.7', 'v0.6': 'v0.6'}.get(p, 'v0.5'),
                                'ft': 'bfiq' if full else 'rawacf'})
        for ver in B.VERSIONS:
            for ft in B.FTYPES:
                if ft != 'rawrf' or 'site' in op and op != 'to site':
                    out.append({'op': op, 'hash': 'tags', 'ver': ver, 'ft': ft})
        out.append({'op': op, 'hash': 'none', 'ver': 'v0.6', 'ft': 'rawacf'})
        if 'auto' not in op:
            out.append({'op': op, 'apart': True, 'ver': 'v0.6', 'ft': 'rawacf'})
    for op in ['read', 'write', 'read site', 'read array', 'write site', 'write array', 'restructure']:
        for what in ['ft', 'structure']:
            if what == 'ft' or op in ('read', 'write', 'restructure'):
                for n in range(0, 7):
                    out.append({'name': what, 'op': op, 'n': n})
                for pre, n in [('site', 2), ('array', 1), ('rawacf', 1), ('bfi', 2), ('antennas_i', 1), ('antennas_iq', 1),
                               ('raw', 2), ('raw', 3)]:
                    out.append({'name': what, 'op': op, 'n': n, 'pre': pre})
    return out


def version(h, text):
    """the release a version text names: what precedes the first dash, up to its second dot"""
    v = text.split('-')[0].split('.')
    for r in B.RELEASES:
        a, b = r.split('.')
        if len(v) >= 2 and h.branch(h.And(v[0] == a, v[1] == b)):
            return r
    return None


def data(h, case, text):
    fmt = B.Fmt(case['ver'], case['ft'])
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1), dict(seqs=2, beams=1, blank=1)])
    if 'site' in case['op'] and case['op'] != 'to site' or case['op'] == 'to array':
        for r in recs.values():
            if text is None:
                del r['borealis_git_hash']
            else:
                r['borealis_git_hash'] = text
        return fmt, recs
    arrays = B.to_arrays(h, fmt, recs)
    if text is None:
        del arrays['borealis_git_hash']
    else:
        arrays['borealis_git_hash'] = text
    return fmt, arrays


def run(h, case, val):
    op, ft = case['op'], case['ft']
    site = isinstance(list(val.values())[0], dict)
    if op.startswith('write'):
        a = () if 'auto' in op else (op.split()[1],)
        return h.call(h.lib.BorealisWrite, h.path('out.hdf5'), val, ft, *a)
    p = B.put_site(h, 'in.hdf5', val) if site else B.put_arrays(h, 'in.hdf5', val)
    if op.startswith('read'):
        a = () if 'auto' in op else (op.split()[1],)
        return h.call(h.lib.BorealisRead, p, ft, *a)
    return h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), ft, op[3:])


def types(fmt, site):
    return (fmt.site_attrs, fmt.site_data) if site else (fmt.array_attrs, fmt.array_data)


def harness(h, case):
    if 'name' in case:
        return names(h, case)
    if case.get('apart'):
        return apart(h, case)
    op, ft = case['op'], case['ft']
    left = [] if op.startswith('write') else ['in.hdf5']
    if case['hash'] == 'none':
        return no_version(h, case, left)
    if case['hash'] == 'tags':
        text = h.pick('version', TAGS)
    else:
        pre, n = case['hash']
        text = pre + h.text('version', n, lo=1, pref='v0.5-1')
    fmt, val = data(h, case, text)
    o = run(h, case, val)
    h.note(o.name)
    r = version(h, text)
    if r is None:
        h.check(o.name == 'BorealisVersionError', 'data of an unknown version are refused (%s)' % o.name)
        h.check(h.files() == left, 'no file is written')
        h.cover('version refused')
        return
    site = isinstance(list(val.values())[0], dict)
    claim = B.Fmt(r, ft)
    if types(claim, site) == types(fmt, site):
        h.check(o.ok, 'data of a known version are handled (%s)' % o.name)
        h.check(o.value.software_version == r, 'the version')
        h.check(o.value.format is B.fmt_of(h, claim), 'the format of the version is used')
        if not op.startswith('to'):
            h.check(o.value.borealis_file_structure == ('site' if site else 'array'), 'the structure')
        h.check(h.files() == (['in.hdf5'] if op.startswith('read') else left + ['out.hdf5']), 'the files')
        h.cover('accepted')
    elif not op.startswith('to'):
        h.check(not o.ok, 'the fields are checked against the format of the version')
        h.check(o.name == 'BorealisBadRecordsError' if site else o.name in
                ('BorealisFieldMissingError', 'BorealisExtraFieldError', 'BorealisDataFormatTypeError') or
                'auto' in op and o.name == 'BorealisStructureError', 'the fields are refused (%s)' % o.name)
        h.check(h.files() == left, 'no file is written')
        h.cover('fields refused')


def no_version(h, case, left):
    text = h.pick('version', [None, np.int64(5), np.float32(0.5), np.bool_(True)])
    fmt, val = data(h, case, text)
    o = run(h, case, val)
    h.note(o.name)
    h.check(o.name == 'BorealisStructureError', 'data without version have no known structure (%s)' % o.name)
    h.check(h.files() == left, 'no file is written')
    h.cover('no version')


def apart(h, case):
    """data of the other structure than the one asked for"""
    op = case['op']
    if op.startswith('to'):
        return
    other = dict(case, op=op.replace('site', '?').replace('array', 'site').replace('?', 'array'))
    fmt, val = data(h, other, B.HASH[case['ver']])
    o = run(h, case, val)
    h.note(o.name)
    h.check(o.name == 'BorealisStructureError', 'data of the other structure are refused (%s)' % o.name)
    h.check(h.files() == ([] if op.startswith('write') else ['in.hdf5']), 'no file is written')
    h.cover('kept apart')


def names(h, case):
    """texts that name the file type or the structure"""
    op, what = case['op'], case['name']
    text = case.get('pre', '') + h.text(what, case['n'], lo=1, pref='rawacf' if what == 'ft' else 'array_')
    w = {'op': 'read array' if 'array' in op else 'read site', 'ver': 'v0.6', 'ft': 'rawacf'}
    fmt, val = data(h, w, B.HASH['v0.6'])
    ft = text if what == 'ft' else 'rawacf'
    kw = {} if what == 'ft' else {'borealis_file_structure': text}
    left = []
    B_ = h.mod('pydarnio.borealis.borealis_site'), h.mod('pydarnio.borealis.borealis_array')
    if op.startswith('write'):
        cls = {'write': h.lib.BorealisWrite, 'write site': B_[0].BorealisSiteWrite, 'write array': B_[1].BorealisArrayWrite}[op]
        o = h.call(cls, h.path('out.hdf5'), val, ft, **kw)
    else:
        p = B.put_arrays(h, 'in.hdf5', val) if 'array' in op else B.put_site(h, 'in.hdf5', val)
        left = ['in.hdf5']
        if op == 'restructure':
            o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), ft, text if what == 'structure' else 'array')
        else:
            cls = {'read': h.lib.BorealisRead, 'read site': B_[0].BorealisSiteRead, 'read array': B_[1].BorealisArrayRead}[op]
            o = h.call(cls, p, ft, **kw)
    h.note(o.name)
    if what == 'ft':
        known = B.DIM_FTYPES if op == 'restructure' else B.FTYPES
        if h.branch(h.Not(h.Or(*[text == k for k in known]))):
            h.check(o.name == 'BorealisFileTypeError', 'unknown file types are refused (%s)' % o.name)
            h.check(h.files() == left, 'no file is written')
            h.cover('file type refused')
        elif h.branch(text == 'rawacf'):
            h.check(o.ok, 'data of the file type named are handled (%s)' % o.name)
        else:
            h.check(not o.ok and o.name != 'BorealisFileTypeError', 'known file types are known (%s)' % o.name)
    else:
        if h.branch(h.Not(h.Or(text == 'site', text == 'array'))):
            h.check(o.name == 'BorealisStructureError', 'unknown structures are refused (%s)' % o.name)
            h.check(h.files() == left, 'no file is written')
            h.cover('structure refused')
        elif op != 'restructure':
            h.check(o.ok if h.branch(text == 'site') else o.name == 'BorealisStructureError', 'known structures (%s)' % o.name)
