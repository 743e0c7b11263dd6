"""C11: restructuring a file gives the restructured contents of the file."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import c10, c09

BOUNDS = c10.BOUNDS + ('; arrays with arbitrary contents of the padding; the compressions None, gzip, lzf and zlib; files of which '
                       'any one shared or per-record field is missing; empty texts also as HDF5 empty attributes')
OUTSIDE = c10.OUTSIDE + '; output files that exist already; site files whose later records lack a shared field'
COVERS = ['to array', 'to site', 'same structure', 'refused']
OPTS = {'validate': 4}
BUDGET = {'quick': 420, 'thorough': 800}


def cases(tier):
    out = []
    for c in c10.cases(tier):
        out.append(dict(c, to='array'))
        out.append(dict(c, to='site'))
        if c['n'] == 2 and 'dims' not in c:
            out.append(dict(c, to='array', broken=True))
            out.append(dict(c, to='site', broken=True))
    return out


COMP = ['default', None, 'gzip', 'lzf', 'zlib']


@B.sized
def harness(h, case):
    if case.get('broken'):
        return broken(h, case)
    fmt, recs = c10.inputs(h, case)
    arrays = B.to_arrays(h, fmt, recs)
    given = c09.scribble(h, fmt, recs, arrays)
    to_array = case['to'] == 'array'
    q = h.path('out.hdf5')
    empty = len(recs) == 1 and h.branch(h.bool('empty attributes', False))
    p = B.put_site(h, 'in.hdf5', recs, empty) if to_array else B.put_arrays(h, 'in.hdf5', given, empty)
    a = ()
    if all(len(r['beam_nums']) == 1 for r in recs.values()) and 'dims' not in case:
        comp = h.pick('compression', COMP)
        a = () if comp == 'default' else (comp,)
        if h.branch(h.bool('same structure', False)):
            site = to_array
            o = h.call(h.lib.BorealisRestructure, p, q, case['ft'], 'site' if site else 'array', *a)
            h.check(o.ok, 'a file that has the structure already is no error (%s)' % o.name)
            for name in h.files():
                if site:
                    B.check_records(h, B.get_site(h, name), recs, 'a file that has the structure already')
                else:
                    B.check_fields(h, B.get_arrays(h, name), given, 'a file that has the structure already')
            h.cover('same structure')
            return
    o = h.call(h.lib.BorealisRestructure, p, q, case['ft'], case['to'], *a)
    h.note(o.name)
    h.check(o.ok, 'a valid file is restructured (%s)' % o.name)
    h.check(h.files() == ['in.hdf5', 'out.hdf5'], 'one file is written')
    if to_array:
        B.check_fields(h, B.get_arrays(h, 'out.hdf5'), arrays, 'the restructured file')
        B.check_records(h, B.get_site(h, 'in.hdf5'), recs, 'the input file')
    else:
        B.check_records(h, B.get_site(h, 'out.hdf5'), recs, 'the restructured file')
        B.check_fields(h, B.get_arrays(h, 'in.hdf5'), given, 'the input file')
    h.cover('to ' + case['to'])


def broken(h, case):
    """a field is missing from the file"""
    fmt = B.Fmt(case['ver'], case['ft'])
    recs = B.records(h, fmt, [dict(seqs=1, beams=1, blank=1), dict(seqs=2, beams=2, blank=2)])
    to_array = case['to'] == 'array'
    at = h.choose('record', 0, 1) if to_array else 0
    fields = [f for f in (fmt.shared if at == 0 else []) + fmt.unshared if f != 'borealis_git_hash']
    f = fields[h.choose('field', 0, len(fields) - 1)]
    h.inputs['missing'] = f
    if to_array:
        del list(recs.values())[at][f]
        p = B.put_site(h, 'in.hdf5', recs)
    else:
        arrays = B.to_arrays(h, fmt, recs)
        if h.branch(h.bool('no time', False)):
            # the second record has no time stamp
            e = np.array(B.elems(arrays['sqn_timestamps']), dtype=object)
            e[1, 0] = np.float64('nan')
            arrays['sqn_timestamps'] = B.make(h, e, np.float64)
        else:
            del arrays[f]
        p = B.put_arrays(h, 'in.hdf5', arrays)
    o = h.call(h.lib.BorealisRestructure, p, h.path('out.hdf5'), case['ft'], case['to'])
    h.note(o.name)
    h.check(o.name == 'BorealisRestructureError', 'a file without %s cannot be restructured (%s)' % (f, o.name))
    h.check(h.files() == ['in.hdf5'], 'no file is left')
    h.cover('refused')
