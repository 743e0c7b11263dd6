#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DM = 'pydarnio/dmap/dmap.py'
SD = 'pydarnio/dmap/superdarn.py'
SF = 'pydarnio/dmap/superdarn_formats.py'
CV = 'pydarnio/utils/conversions.py'
BO = 'pydarnio/borealis/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [], 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


prop('C01', 'DMAP write/read round trip',
     'Records of supported values (every DMAP scalar type, strings including non-ASCII text, and arrays of every DMAP '
     'type, rank, shape, memory layout and byte order, fields in any order) written to a DMAP file or stream can be read '
     'back. The reader returns the same number of records with the same field names, values (bit for bit), element types '
     'and shapes. It holds whether records were given as plain dictionaries or as DMap structures.',
     ['inputs'], 'all records within the stated shapes, over every bit pattern of every value, every name and text',
     'tests round-trip a handful of generated files; they never vary field order, non-ASCII text, negative chars, byte '
     'order or extreme values, and there are 2^64 values per field',
     [DM, CV, 'pydarnio/dmap/datastructures.py'],
     [('byte layout of a record', DM + ' DmapWrite._dmap_record_to_bytes'), ('byte parser', DM + ' DmapRead.read_record')],
     ['DmapWrite.write_dmap', 'DmapWrite.write_dmap_stream', 'DmapRead.read_records'])
prop('C02', 'DMAP writer emits exactly the wire format',
     'The bytes the DMAP writer produces for a list of records are exactly the DMAP encoding of those records: per record '
     'the identifier, the total size in bytes, the numbers of scalars and arrays, then every scalar and then every array '
     'in record order, little endian, null-terminated UTF-8 names, array dimensions fastest first. Reading such a file '
     'and writing what was read, as dictionaries or as DMap structures, reproduces it byte for byte.',
     ['inputs'], 'all records within the stated shapes and all values',
     'tests compare the library only with itself, so a mistake shared by reader and writer, or one tied to particular '
     'values, stays invisible', [DM, CV],
     [('encoder', DM + ' dmap_scalar_to_bytes/dmap_array_to_bytes')], ['bytes of the stream or file'])
prop('C03', 'DMAP reader is safe and exact on arbitrary bytes',
     'Given any byte string as a file or stream, the DMAP reader either returns exactly the records that the DMAP wire '
     'format assigns to those bytes, or raises one of its documented DMAP errors. It raises no other error, does not hang, '
     'accepts no malformed input and refuses no well-formed one.',
     ['inputs', 'fault_sequences'], 'all byte strings within the stated sizes; all corruptions of the stated windows of valid '
     'files; all truncations and extensions',
     'tests corrupt a few files at a few offsets; the space of corrupt files is astronomically larger', [DM],
     [('bounds checks', DM + ' bytes_check/zero_negative_check/check_data_type'), ('cursor', DM + ' read_data')],
     ['DmapRead.read_records result or exception'])
prop('C04', 'Dictionary and DMap structures convert faithfully',
     'Converting records of plain values to DMap structures keeps every field, its order, value, type code, rank and shape, '
     'and converting back returns the same fields with the same values and the documented types. Values of unsupported '
     'types are refused with an error rather than converted, and the caller\'s records are not modified.',
     ['inputs'], 'all supported scalar types at full width, arrays of all types and ranks up to 4, lists',
     'tests convert one sample record', [CV], [('type tables', CV + ' FORMAT_CONVERSION/DMAP_FORMAT_TYPES')],
     ['dict2dmap', 'dmap2dict'])
prop('C05', 'SuperDARN writer accepts exactly the format\'s records',
     'The SuperDARN writer writes records of a file type if and only if each of them has all mandatory fields of that type, '
     'no field the type does not define (optional groups being whole or absent) and every field in its defined data type. '
     'Otherwise it raises the missing-field, extra-field or data-type error that names exactly the offending fields and the '
     'number of the first bad record, and leaves no file behind. What it writes is the DMAP encoding of the records.',
     ['inputs'], 'every subset of the fields of each of the six file types plus unknown fields, every data type per field, '
     'position of the bad record',
     'tests delete or alter one fixed field; there are 2^60 field subsets and the optional groups interact',
     [SD, SF], [('field checks', SD + ' SDarnUtilities'), ('field tables', SF)],
     ['SDarnWrite.write_* outcome, exception fields and file'])
prop('C06', 'SuperDARN reader accepts exactly the format\'s records',
     'The SuperDARN reader returns the records of a file of a given type if and only if every record satisfies the field '
     'rules of that type, and otherwise raises the same missing-field, extra-field or data-type errors for the first bad '
     'record. It accepts whatever the writer of that type writes.',
     ['inputs'], 'every subset of the fields of each of the six file types plus unknown fields, every data type per field',
     'tests read valid files and a few broken ones', [SD, SF],
     [('field checks', SD + ' SDarnRead._read_darn_records')], ['SDarnRead.read_* outcome'])
prop('C07', 'Borealis site records are checked exactly',
     'For every Borealis file version and file type, site-structured records are accepted if and only if each has exactly '
     'the attributes and datasets the version defines, each in its defined data type, whether they are written or read. '
     'Otherwise a Borealis bad-records error names the offending records and for each of them exactly the fields that are '
     'missing, not defined or of the wrong type, and no file is written.',
     ['inputs', 'configurations'], 'every subset of fields plus unknown fields, every data type per field, all versions and '
     'file types', 'tests cover one deletion and one wrong type per file type and few versions',
     [BO + 'borealis_utilities.py', BO + 'borealis_formats.py', BO + 'borealis_site.py'],
     [('record checks', BO + 'borealis_utilities.py BorealisUtilities.check_records')], ['BorealisWrite/BorealisRead outcome'])
prop('C08', 'Borealis array files are checked exactly',
     'For every Borealis file version and file type, array-structured data is accepted if and only if it has exactly the '
     'fields the version defines, each in its defined data type (text arrays may be bytes or unicode), and all per-record '
     'fields hold the same number of records. '
     'Otherwise a Borealis error names exactly the fields that are missing, not defined, of the wrong type or of a different '
     'number of records, and no file is written.',
     ['inputs', 'configurations'], 'every subset of fields plus unknown fields, every data type per field, every number of '
     'records per field', 'tests cover one deletion and one wrong type per file type and few versions',
     [BO + 'borealis_utilities.py', BO + 'borealis_formats.py', BO + 'borealis_array.py'],
     [('array checks', BO + 'borealis_utilities.py BorealisUtilities.check_arrays')], ['BorealisWrite/BorealisRead outcome'])
prop('C09', 'Site to array and back is the identity',
     'Restructuring valid Borealis site records whose shared fields agree to the array structure and back returns the same '
     'records: the same record names, fields, values, data types and dimensions. Restructuring arrays to site records and '
     'back returns the same arrays. It holds for every version and file type and for any mixture of per-record '
     'numbers of sequences and beams.',
     ['inputs', 'configurations'], 'all element values, numbers of records, and per-record dimensions within the bounds',
     'tests restructure one recorded file per type, with few dimension mixtures', [BO + 'base_format.py',
     BO + 'borealis_formats.py'], [('restructuring', BO + 'base_format.py site_to_array/array_to_site')],
     ['_site_to_array', '_array_to_site'])
prop('C10', 'Array structure lays out every record and pads the rest',
     'In the array structure, entry r of every per-record field holds record r\'s value in its leading part, and everything '
     'beyond a record\'s own dimensions holds the documented padding. Shared fields hold the value common to all records, '
     'and the count fields give each record\'s own dimensions.',
     ['inputs', 'configurations'], 'all element values, numbers of records, and per-record dimensions within the bounds',
     'tests only check that the conversion runs and keeps the field names', [BO + 'base_format.py', BO + 'borealis_formats.py'],
     [('maximum dimensions', BO + 'base_format.py site_get_max_dims'), ('flattening', BO + 'base_format.py _site_to_array')],
     ['_site_to_array'])
prop('C11', 'Restructuring a file equals restructuring in memory',
     'Restructuring a Borealis file from site to array structure or back yields a file whose contents equal the in-memory '
     'restructuring of the input file\'s contents, with any supported compression, and the input file is unchanged. A file '
     'already in the requested structure stays as it is and is not altered in any output. A file that lacks a field '
     'restructuring needs is refused with a Borealis restructure error and no output file is left.',
     ['inputs', 'configurations'], 'all values and dimensions within the bounds, all versions and file types',
     'tests compare one recorded file per type', [BO + 'borealis_restructure.py', BO + 'base_format.py'],
     [('file restructuring', BO + 'borealis_restructure.py')], ['BorealisRestructure output file'])
prop('C12', 'Borealis write/read round trip',
     'Valid Borealis records or arrays written to an HDF5 file with any supported compression, including the default, can '
     'be read back with the same record names, fields, values and data types. Records keep their chronological order.',
     ['inputs', 'configurations'], 'all values and dimensions within the bounds, all versions, file types and structures',
     'tests write recorded data with few compressions', [BO + 'borealis_site.py', BO + 'borealis_array.py', BO + 'borealis.py'],
     [('HDF5 access', BO + 'borealis_site.py/borealis_array.py')], ['BorealisRead.read_file after BorealisWrite.write_file'])
prop('C13', 'The file version selects the format',
     'A Borealis file or data set is handled with the format of the software version recorded in it: releases map to their '
     'format version, untagged or older data and versions without a format are refused with the documented version error, and '
     'data that have the fields of another format than their version says are refused with field errors. '
     'The structure (site or array) found in the file decides how it is read, and an unknown structure or file type is '
     'refused with the documented error.',
     ['inputs', 'configurations'], 'every version string, structure and file type',
     'tests use the recorded versions only', [BO + 'borealis_site.py', BO + 'borealis_array.py', BO + 'borealis.py',
     BO + 'borealis_utilities.py'], [('version detection', BO + 'borealis_site.py')], ['BorealisRead/BorealisWrite outcome'])
prop('C14', 'Rawacf conversion maps every lag and beam',
     'Converting Borealis rawacf records to DMAP rawacf produces one record per beam of each record in order, with the main '
     'and cross correlations, power, times, beam numbers, lag and pulse tables and radar parameters of that beam computed '
     'as documented. The result satisfies the rawacf file rules.',
     ['inputs'], 'all correlation values, dimensions, times and parameters within the bounds',
     'tests check only that a converted file can be read', [BO + 'borealis_convert.py'],
     [('mapping', BO + 'borealis_convert.py __convert_rawacf_record')], ['BorealisConvert output records'])
prop('C15', 'Bfiq conversion maps every sample and beam',
     'Converting Borealis bfiq records to DMAP iqdat produces one record per beam of each record in order, whose samples, '
     'time stamps, offsets and radar parameters are those of that beam as documented. The result satisfies the iqdat file '
     'rules.',
     ['inputs'], 'all sample values, dimensions, times and parameters within the bounds',
     'tests check only that a converted file can be read', [BO + 'borealis_convert.py'],
     [('mapping', BO + 'borealis_convert.py __convert_bfiq_record')], ['BorealisConvert output records'])
prop('C16', 'Only convertible data are converted to DMAP',
     'A Borealis file is converted only if its type is convertible (rawacf or bfiq) and, for every record, the blanked samples '
     'are the samples of the transmitted pulses - from format v0.6 on also each of them with the sample after it, in '
     'ascending order - and, for bfiq, no pulse phase offset differs from zero. A slice id must be given where the format '
     'has none. Otherwise the documented conversion error is raised and no output file is written.',
     ['inputs', 'configurations'], 'all blanked sample and pulse tables, phase offsets, file types and positions of the bad '
     'record', 'tests convert only convertible files', [BO + 'borealis_convert.py'],
     [('convertibility checks', BO + 'borealis_convert.py')], ['BorealisConvert outcome and output file'])
prop('C17', 'Writers leave caller data alone and can be repeated',
     'Writing, restructuring or converting records never changes the records the caller passed in, and repeating a write, '
     'read or conversion gives the same result, also after one that was refused. Independent reader, writer and converter '
     'objects do not influence each other, and changing what a reader returned does not affect later reads.',
     ['inputs', 'histories'], 'all values; all histories of up to 3 operations of any kinds on two writers and readers with '
     'their own records',
     'tests write each object once and look only at the output', [DM, SD, BO + 'borealis_site.py', BO + 'borealis_array.py'],
     [('output buffer', DM + ' DmapWrite.dmap_bytearr')], ['files, streams, records after a write'])
prop('C18', 'Writers refuse to write nothing or nowhere',
     'DMAP and SuperDARN writers refuse a missing file name or an empty record list (Borealis writers empty data) with the '
     'documented error and create no file; a name given to the call goes before the one given to the constructor. An empty '
     'file or stream is refused by readers with the documented error. The restructurer and converter never overwrite or '
     'change their input, however its name is spelled, when the output has the same name.',
     ['inputs', 'histories'], 'all combinations of names and record lists given to constructors and calls, all spellings',
     'tests cover a few of the combinations', [DM, SD, BO + 'borealis.py'],
     [('argument checks', DM + ' _filename_check/_empty_record_check')], ['exceptions and files'])
prop('C19', 'The quick integrity test is exact',
     'The quick integrity test accepts a buffer if and only if the block sizes declared in it, each positive, exactly tile '
     'the buffer; otherwise it raises a documented error. After an accepted test the file reads as if the test had not run.',
     ['inputs'], 'all buffers within the stated sizes', 'tests try one corrupt file and a few valid ones', [DM],
     [('block walk', DM + ' test_initial_data_integrity')], ['test_initial_data_integrity outcome'])
prop('C20', 'Readers, writers and converters describe their data',
     'The attributes of an object describe what it was given, read or converted. DMAP and SuperDARN readers keep the records '
     'read, as plain records and as DMap structures with the same fields and values, and none before reading. Borealis readers '
     'and writers give the records, their names and the arrays of their data, whichever structure these have (a restructure '
     'error where the file type has only one), the structure, file type, version, format and compression. A converter gives the '
     'dictionaries and structures it has written, the slice id, scaling factor and file type used, and the source data. All of '
     'them can be printed, naming their class and file.',
     ['inputs'], 'all data within the stated dimensions, every file type, version and structure, all values',
     'tests look at few attributes, on a few files', [DM, SD, BO + 'borealis.py', BO + 'borealis_convert.py', BO + 'borealis_site.py', BO + 'borealis_array.py'],
     [('views', BO + 'borealis.py records/arrays/record_names'), ('records kept', DM + ' get_records/get_dmap_records'),
      ('converted records', BO + 'borealis_convert.py sdarn_dict/sdarn_dmap_records')], ['attributes and printed forms'])
prop('C21', 'Refused operations leave every file as it was',
     'When a write, restructuring or conversion is refused because of the data, the version, the type or the names it was '
     'given, an output file that existed before keeps its contents, the input file keeps its contents, and no file is created. '
     'A DMAP or SuperDARN write and a conversion that succeed replace what the output file held.',
     ['inputs', 'histories'], 'all refusals within the stated bounds, all contents of the file that was there, all values',
     'tests of refusals look at the exception, never at the file that was there before', [DM, SD, BO + 'base_format.py',
      BO + 'borealis_restructure.py', BO + 'borealis_convert.py'],
     [('checks before writing', SD + ' SDarnWrite, ' + BO + 'borealis_utilities.py'), ('output', DM + ' write_dmap')],
     ['files after a refused operation'])
prop('C22', 'Errors name the file, the record and the fields at fault',
     'An error by which the package refuses data says what is at fault, in its message and in its documented attributes. '
     'SuperDARN field errors: the number of the record, every missing, unknown or wrongly typed field, and the type letter each '
     'of the latter needs. DMAP writing: the record number and the field (text under the char type) or the type of the value that is '
     'no DMap structure. DMAP reading of a damaged record: the number of the record and the file name (or "stream"). Borealis: the '
     'file, every bad record by its name and every field at fault; the version or file type or structure name that is not '
     'known; the record that cannot be converted; the file that would be overwritten or cannot be restructured.',
     ['inputs'], 'all combinations of bad fields, all positions of the bad record, all names, versions and types within the bounds',
     'tests look at the class of an error, for one bad field in one record', [SD, DM, BO + 'borealis_utilities.py',
      'pydarnio/exceptions'],
     [('error classes', 'pydarnio/exceptions'), ('record numbers', SD + ' SDarnUtilities, ' + DM + ' rec_num')],
     ['error message', 'error attributes'])

TECH = ('symbolic execution of the instrumented current source with z3: path conditions and assertions are SMT queries, '
        'counterexamples are replayed on the untouched package')
NOTE = ('Bounded: every feasible path of the harness over the current source is explored symbolically and every assertion '
        'is an SMT query over all values within the bounds stated in the evidence file. Trusted: the models of CPython, '
        'numpy and h5py operations in symex/ (validated each run by re-running solver witnesses on the untouched '
        'package) and z3. A counterexample counts only when it fails on the real code.')
NA = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking',
                           'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na}
    return m


if __name__ == '__main__':
    m = main()
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
