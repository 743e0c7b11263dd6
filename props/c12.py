"""C12: Borealis files hold what was written and are read as they are."""
from collections import OrderedDict
import numpy as np
from . import _bor as B
from . import c10

BOUNDS = ('formats v0.4-v0.7, all four file types, both structures, 1-3 records of up to 2 sequences, 2 beams and 2 blanked '
          'samples; every bit pattern of every number (complex numbers as pairs of exact reals), comments of up to 2 '
          'arbitrary characters, empty ones also as HDF5 empty attributes; compressions None, gzip, lzf, zlib and the default; besides, 12 records of mixed sizes, and 2 records of 5 '
          'and 11 sequences, 16 and 17 beams, 20 antennas and 8 pulses')
OUTSIDE = 'other or larger dimensions; files written by other tools that hold text or empty arrays in yet other ways'
COVERS = ['written', 'read']
OPTS = {'validate': 4}


def cases(tier):
    out = []
    for ver in B.VERSIONS if tier == 'quick' else list(B.RELEASES):
        for ft in B.FTYPES:
            for structure in ['site', 'array'][:1 + (ft != 'rawrf')]:
                for v in [['dims'], ['text'], ['how'], ['many'], ['wide']] + ([['dims', 'how']] if tier != 'quick' else []):
                    out.append({'ver': ver, 'ft': ft, 'structure': structure, 'vary': v, 'tier': tier})
                    if v == ['wide']:
                        out[-1]['fix'] = c10.WIDE
    return out


COMP = ['default', None, 'gzip', 'lzf', 'zlib']


@B.sized
def harness(h, case):
    fmt = B.Fmt(case['ver'], case['ft'])
    site = case['structure'] == 'site'
    # one thing is varied at a time, or several together in the thorough tier
    v = case['vary']
    full = case['tier'] != 'quick'
    n, text = 1 if 'text' in v else 2, 'fixed'
    dims = [dict(seqs=1 + i % 2, beams=2, blank=1) for i in range(n)]
    for k, big in (('many', c10.MANY), ('wide', [(5, 16, 14), (11, 17, 9)])):
        if k in v:
            dims = [dict(seqs=s, beams=b, blank=q) for s, b, q in big]
    if 'dims' in v:
        n = h.choose('records', 1, 3 if full else 2)
        dims = [dict(seqs=h.choose('seqs%d' % i, 1, 2 + full), beams=h.choose('beams%d' % i, 1, 2 + full),
                     blank=h.choose('blank%d' % i, 1, 2) if i == 0 and 'num_blanked_samples' in fmt.array_only else 1)
                for i in range(n)] if site else [dict(seqs=2, beams=1, blank=1)] * n
    if 'text' in v:
        text = h.text('comment', h.choose('length', 0, 2 + full), lo=1)
    ppo2 = False
    if 'dims' in v and 'pulse_phase_offset' in fmt.unshared:
        ppo2 = h.branch(h.bool('ppo2'))
    recs = B.records(h, fmt, dims, shared_texts={'experiment_comment': text}, ppo2=ppo2)
    val = recs if site else B.to_arrays(h, fmt, recs)
    kw = {'borealis_file_structure': case['structure']}
    if 'how' in v:
        comp = h.pick('compression', COMP)
        if comp != 'default':
            kw['hdf5_compression'] = comp
        if h.branch(h.bool('named', True)):
            del kw['borealis_file_structure']
        # records in any order of insertion
        if site and h.branch(h.bool('reversed')):
            val = OrderedDict(reversed(list(val.items())))
    before = B.snapshot(val)
    p = h.path('out.hdf5')
    o = h.call(h.lib.BorealisWrite, p, val, case['ft'], **kw)
    h.note(o.name)
    h.check(o.ok, 'valid data are written (%s)' % o.name)
    h.check(B.same(val, before), 'the data given are unchanged')
    got = B.get_site(h, 'out.hdf5') if site else B.get_arrays(h, 'out.hdf5')
    if site:
        B.check_records(h, got, recs, 'the file')
    else:
        B.check_fields(h, got, val, 'the file')
    h.check(h.files() == ['out.hdf5'], 'one file is written')
    h.cover('written')
    put = B.put_site if site else B.put_arrays
    for i, q in enumerate((p, put(h, 'in.hdf5', val), put(h, 'empty.hdf5', val, True))):
        if i == 2 and not ('text' in v and len(text) == 0):
            break
        a = (case['structure'],) if 'how' not in v or h.branch(h.bool('named%d' % i, True)) else ()
        o = h.call(h.lib.BorealisRead, q, case['ft'], *a)
        h.note(o.name)
        h.check(o.ok, 'a valid file is read (%s)' % o.name)
        r = o.value
        h.check(r.borealis_file_structure == case['structure'], 'the structure is recognised')
        if site:
            B.check_records(h, r.records, recs, 'records read')
            h.check(list(r.record_names) == list(recs), 'record names')
        else:
            B.check_fields(h, r.arrays, val, 'arrays read')
    h.cover('read')
