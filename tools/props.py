"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py (run in /verif).  A property is claimed when checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note=''):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, note=note))


prop('C01', 'IBM floats decode exactly for every bit pattern',
     'Every four-byte big-endian IBM System/360 single-precision pattern decodes to the IEEE double that is exactly (-1)^s * 0.fraction * 16^(e-64); '
     'a zero fraction decodes to zero whatever its exponent. Decoding a buffer of many samples gives the same values in the same order.',
     ['inputs'], 'all 2^32 byte patterns; buffers of any length',
     'the unit tests compare a few dozen patterns and hypothesis samples; they cannot cover 2^32 patterns',
     ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
     [('decode of one value', 'segpy/ibm_float.py: ibm2ieee'), ('bulk decode', 'segpy/ibm_float_packer.py: unpack_ibm_floats')])
prop('C02', 'IBM float encoding is accurate to one unit in the last place or refused',
     'Encoding a finite number as an IBM float gives a pattern of the same sign whose value differs from the number by less than one unit in the '
     'last place of the IBM format, and is exact when the number is representable. NaN, infinities, numbers too large and non-zero numbers too small '
     'are refused with an error rather than encoded as something else; a sequence of samples is refused only if one of its values is.',
     ['inputs'], 'all double bit patterns, integers, and sequences of them',
     'the tests sample floats; rounding and overflow edges depend on the exact exponent residue and mantissa bits',
     ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
     [('encode one value', 'segpy/ibm_float.py: ieee2ibm'), ('bulk encode', 'segpy/ibm_float_packer.py: pack_ibm_floats')])
prop('C03', 'Encoding and decoding IBM floats are mutually inverse',
     'Re-encoding a decoded IBM pattern keeps its value, and reproduces the bytes when the pattern is normalised; decoding an encoded number and encoding '
     'again changes nothing. Copying IBM samples from one buffer to another through the bulk functions therefore never alters data, whether or not patterns are normalised.',
     ['inputs'], 'all 2^32 patterns, all doubles, buffers of any length',
     'round trips are tested on samples; unnormalised and extreme patterns are not reached',
     ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
     [('decode', 'segpy/ibm_float.py: ibm2ieee'), ('encode', 'segpy/ibm_float.py: ieee2ibm'), ('bulk', 'segpy/ibm_float_packer.py')])
prop('C04', 'IBM float comparisons agree with exact values',
     'Equality and ordering between IBM floats, and between an IBM float and a Python float or int in either operand order, agree with the comparison of the exact numbers represented.',
     ['inputs'], 'all pairs of patterns; every pattern with every double and with integers up to 2^53',
     'pairs of patterns form a space of 2^64; tests compare a handful',
     ['segpy/ibm_float.py'], [('comparison operators', 'segpy/ibm_float.py: IBMFloat.__eq__, __lt__, ...')])
prop('C05', 'IBM float numeric operations agree with exact arithmetic',
     'Negation, absolute value, truth, sign, truncation, floor, ceil, normalisation, integer ratio, frexp and ldexp of an IBM float agree with exact arithmetic on the number it holds; '
     'the arithmetic operators give the same result, rounded into the format, as double arithmetic on the values and fail in the same cases.',
     ['inputs'], 'all 2^32 patterns; operand pairs within stated exponent ranges',
     'edge cases (unnormalised fractions, exponent underflow, zeros with an exponent) are single points in 2^32',
     ['segpy/ibm_float.py'], [('numeric protocol', 'segpy/ibm_float.py: IBMFloat')])
prop('C06', 'Header fields accept exactly the values they can hold',
     'Assigning an integer to any field of the binary reel header or a trace header, by attribute, keyword, position or copy, stores exactly that integer when the SEG-Y field can hold it and is '
     'refused otherwise, leaving the previous value. No assignment affects another field or another header.',
     ['inputs'], 'every field of every standard header format and every integer up to 2^40 in magnitude',
     'some 230 fields times all integers; tests touch few fields and values',
     ['segpy/field_types.py', 'segpy/header.py', 'segpy/binary_reel_header.py', 'segpy/trace_header.py'],
     [('range check', 'segpy/field_types.py: IntFieldMeta'), ('descriptor', 'segpy/header.py: HeaderFieldDescriptor')])
prop('C07', 'Standard headers are laid out byte for byte as SEG-Y prescribes',
     'Reading a binary reel header or trace header takes each field from the bytes, width, signedness and byte order that the SEG-Y standard gives; writing puts it there, zeroes unassigned bytes and '
     'produces exactly the standard length. Reading what was written, and writing what was read, changes nothing; buffers of the wrong length are refused.',
     ['inputs', 'configurations'], 'all header contents, both byte orders, all three standard formats',
     'a swapped offset or width in one of 230 fields is invisible to tests that write and read with the same table',
     ['segpy/packer.py', 'segpy/binary_reel_header.py', 'segpy/trace_header.py', 'segpy/field_types.py'],
     [('struct format compilation', 'segpy/packer.py: compile_struct'), ('packers', 'segpy/packer.py: BijectiveHeaderPacker, SurjectiveHeaderPacker')])
prop('C08', 'User-defined header formats are honoured or refused',
     'A header format declared by the user reads and writes every field at its declared offset whatever the order of declaration, and packs to the declared length. Formats whose fields overlap partially, coincide with different types or '
     'exceed the declared length are refused; coincident fields must agree to be packed; a format built from a subset of fields of another reads and writes them where the full one does.',
     ['inputs', 'configurations'], 'all layouts of up to three fields within stated offsets, all field values, both byte orders',
     'tests define a few layouts by hand, always in offset order',
     ['segpy/packer.py', 'segpy/header.py', 'segpy/util.py'],
     [('layout checks', 'segpy/packer.py: compile_struct, make_header_packer'), ('subset formats', 'segpy/header.py: SubFormatMeta')])
prop('C09', 'Header objects copy, compare, default and pickle faithfully',
     'A copy of a header equals the original and is independent of it, and copying with updates changes exactly the fields named; two headers of one format are equal exactly when all their fields are. '
     'Pickling and unpickling a header of any format, including formats that extend others, preserves every field.',
     ['inputs'], 'every field of every standard header format, all admissible values',
     'tests copy and pickle headers with few non-default fields',
     ['segpy/header.py'], [('copy', 'segpy/header.py: BaseHeader.copy'), ('pickling', 'segpy/header.py: __getstate__, __setstate__'), ('equality', 'segpy/header.py: are_equal')])
prop('C10', 'One-dimensional catalogs behave as the mapping they were built from',
     'A catalog built from integer keys and values, whatever compressed representation is chosen, contains exactly those keys, in ascending order, with exactly those values, reports their number, and raises a key error for any other integer; '
     'a set of pairs with a repeated key yields no catalog.',
     ['inputs'], 'all sets of up to n items with keys and values of any size, including empty, single, negative, descending and constant ones',
     'the representation chosen depends on arithmetic relations between all keys and values; random tests rarely meet them together',
     ['segpy/catalog.py', 'segpy/util.py', 'segpy/sorted_frozen_set.py'],
     [('choice of representation', 'segpy/catalog.py: CatalogBuilder.create'), ('lookups', 'segpy/catalog.py: Regular*, Constant*, Linear*, DictionaryCatalog')])
prop('C11', 'Two-dimensional catalogs behave as the mapping they were built from',
     'A catalog built from (i, j) integer pairs, whatever compressed representation is chosen, contains exactly those keys with exactly those values, raises a key error for any other pair, and iterates over each key once. Its index ranges contain exactly the '
     'i and j numbers present in ascending order, its extreme keys and values are right, and where a reverse lookup exists it inverts the mapping.',
     ['inputs'], 'all sets of up to n pairs with any integers',
     'grids in inline or crossline order, with gaps, descending or irregular values, are special points of the input space',
     ['segpy/catalog.py', 'segpy/util.py', 'segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'],
     [('choice of representation', 'segpy/catalog.py: make_sorted_ranges'), ('lookups', 'segpy/catalog.py: *Catalog2D')])
prop('C12', 'Sample values are encoded and decoded per format and byte order',
     'Samples written in any supported sample format and byte order occupy exactly that format\'s bytes in that order and read back as the same values, and any bytes read as samples write back as the same bytes; values that do not fit the format are refused, not wrapped. '
     'Reading more samples than the file holds raises an end-of-file error.',
     ['inputs', 'configurations'], 'all sample formats, both byte orders, all values, a few samples at any file position',
     'tests use a few values per format; the space is all bit patterns',
     ['segpy/toolkit.py', 'segpy/datatypes.py', 'segpy/ibm_float_packer.py'],
     [('pack', 'segpy/toolkit.py: pack_values, write_binary_values'), ('unpack', 'segpy/toolkit.py: unpack_values, read_binary_values')])
prop('C13', 'The textual reel header is always forty 80-byte cards',
     'Writing a textual header from any lines always produces exactly 3200 bytes in the requested encoding: each of the first forty lines cut or space-padded to 80 bytes, missing lines blank, excess lines dropped. '
     'Reading yields forty 80-character lines whose text is what was written; unsupported encodings, unencodable text and short files are refused before anything is written or returned.',
     ['inputs'], 'all line contents, line lengths and numbers of lines within bounds, both encodings',
     'the tests write well-formed headers of a few shapes',
     ['segpy/toolkit.py', 'segpy/encoding.py', 'segpy/util.py'],
     [('writing', 'segpy/toolkit.py: write_textual_reel_header'), ('reading', 'segpy/toolkit.py: read_textual_reel_header')])
prop('C14', 'The standard textual header template formats and parses consistently',
     'Formatting the standard textual header always gives forty lines of eighty characters with every field value placed in its own placeholder, truncated or padded, and nothing else disturbed; unknown field names are refused and the end marker follows the revision. '
     'Parsing the result gives back every field value, cut to its width and stripped of surrounding blanks.',
     ['inputs'], 'every template field, any text of any length, both revisions',
     'tests fill a few fields with short values; over-long values may spill into neighbouring fields',
     ['segpy/toolkit.py', 'segpy/textual_reel_header.py', 'segpy/util.py'],
     [('format', 'segpy/toolkit.py: format_standard_textual_header'), ('parse', 'segpy/toolkit.py: parse_standard_textual_header')])
prop('C15', 'Extended textual headers paginate, count and terminate correctly',
     'Formatting any text as extended textual headers gives pages of forty lines, each 78 characters of text followed by carriage return and line feed, that hold the text\'s lines in order; a stop stanza, if asked for, is one final page. '
     'Writing puts the pages from byte 3600 or refuses malformed pages before writing anything. Reading returns exactly the declared number of pages, or all pages up to and including the end-of-text stanza, and refuses a premature stanza or a truncated page.',
     ['inputs', 'configurations'], 'texts of any lines within bounds, numbers of pages, stanza position, truncation point, both encodings',
     'tests use a couple of example texts and page counts',
     ['segpy/toolkit.py', 'segpy/util.py'],
     [('formatting', 'segpy/toolkit.py: format_extended_textual_header'), ('reading', 'segpy/toolkit.py: read_extended_textual_headers'),
      ('writing', 'segpy/toolkit.py: write_extended_textual_headers')])
prop('C16', 'Text encoding detection never contradicts clear evidence',
     'When at least half of the bytes of a textual header are common characters in exactly one of ASCII and EBCDIC, that encoding is reported; an all-zero header is reported as ASCII; otherwise no encoding is reported. '
     'Detection from a file leaves the file position where it was.',
     ['inputs'], 'all byte strings up to a stated length',
     'threshold boundaries and mixed contents are not sampled',
     ['segpy/encoding.py', 'segpy/toolkit.py'], [('heuristic', 'segpy/encoding.py: guess_encoding')])
prop('C17', 'Scanning a file finds every trace where it is, whatever its length',
     'Scanning a SEG-Y file finds all its traces in order: each trace starts where the previous one ends, according to the sample count in its own header and the sample size of the file, and the trace lengths recorded are those counts. '
     'The line and ensemble indexes map each inline/crossline pair and ensemble number to the trace carrying it, and exist only when those keys are unique.',
     ['inputs', 'configurations'], 'files of up to n traces with independent lengths, all header contents, both byte orders, both trace header revisions',
     'existing tests use fixed-length traces or a few generated ones',
     ['segpy/toolkit.py', 'segpy/catalog.py'], [('scan', 'segpy/toolkit.py: catalog_traces')])
prop('C18', 'Random access returns exactly the requested samples and headers',
     'For any trace and any sample window within it, in any order of access, the samples and the trace header returned are exactly those stored in the file at that trace\'s place. Trace indexes or windows out of range are refused with an error and never return data of another trace.',
     ['inputs', 'histories'], 'files of variable-length traces, all windows, all access orders of a few steps, all sample formats and byte orders',
     'tests read whole traces in order',
     ['segpy/reader.py', 'segpy/toolkit.py'], [('trace access', 'segpy/reader.py: SegYReader.trace_samples, trace_header')])
prop('C19', 'Spatial indexes agree with the trace headers and dimensionality is right',
     'A reader offers inline/crossline access exactly when every trace has a unique inline/crossline pair, otherwise ensemble access when ensemble numbers are unique, otherwise plain access, unless the caller forces a dimensionality. '
     'The inline, crossline and ensemble numbers listed are exactly those in the trace headers in ascending order, and looking one up gives the trace that carries it.',
     ['inputs', 'configurations'], 'files of up to n traces with any coordinates',
     'tests use complete regular grids; gaps, duplicates and negative numbers are rare',
     ['segpy/reader.py', 'segpy/catalog.py', 'segpy/toolkit.py'],
     [('selection of reader', 'segpy/reader.py: _make_reader'), ('lookups', 'segpy/reader.py: SegYReader2D, SegYReader3D')])
prop('C20', 'A truncated file never yields wrong data',
     'If a valid SEG-Y file is cut at any byte, reading it either raises an error or yields traces that are complete prefixes of the original file\'s traces: every header and sample returned equals the original. Reading a cut sample window raises an end-of-file error.',
     ['crash_points', 'inputs'], 'every truncation point of files of up to n variable-length traces',
     'tests never truncate inside headers or traces',
     ['segpy/toolkit.py', 'segpy/reader.py'], [('short reads', 'segpy/toolkit.py: read_binary_values, read_trace_header, catalog_traces')])
prop('C21', 'Writing a dataset and reading it back preserves everything',
     'Writing any dataset to a SEG-Y file and reading it gives equal textual, binary and extended headers, and for every trace an equal header and equal samples, for every sample format, byte order, encoding and trace length. '
     'Writing a dataset obtained by reading a file reproduces that file, bytes no header field covers aside; a dataset that merely delegates to another is written identically.',
     ['inputs', 'configurations'], 'datasets of up to n traces of independent lengths, all header values and samples, all formats, byte orders and encodings',
     'round-trip tests sample random small datasets with default headers',
     ['segpy/writer.py', 'segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py', 'segpy/dataset.py'],
     [('writer', 'segpy/writer.py: write_segy'), ('reader', 'segpy/reader.py: create_reader'), ('delegation', 'segpy/dataset.py: DelegatingDataset')])
prop('C22', 'Progress reports are fractions that never decrease and end at one',
     'A progress callback given to the scanner, the reader or the writer receives only numbers between zero and one, in non-decreasing order, the last of which is one. A callback that is not callable is refused.',
     ['inputs', 'configurations'], 'files of any number of traces up to a bound and any trace lengths, including truncated last traces and datasets without traces',
     'no test looks at every reported value',
     ['segpy/toolkit.py', 'segpy/reader.py', 'segpy/writer.py'],
     [('scan progress', 'segpy/toolkit.py: catalog_traces'), ('reader progress', 'segpy/reader.py: create_reader'), ('writer progress', 'segpy/writer.py: write_segy')])
prop('C23', 'Cached readers are used only for the same file and the same options',
     'The key under which a scanned reader is cached differs whenever the file contents or any option that affects the result differ. A reader restored from its saved state behaves as the original: same headers, traces and indexes; '
     'an unreadable or damaged cache entry leads to a fresh scan, never to an error or to wrong data.',
     ['inputs', 'configurations', 'fault_sequences'], 'pairs of files and options; all fields of the saved state; failures at each cache step',
     'tests cover one hit and one miss',
     ['segpy/reader.py', 'segpy/util.py'],
     [('cache key', 'segpy/util.py: hash_for_file'), ('cache load and save', 'segpy/reader.py: _load_reader_from_cache, _save_reader_to_cache'),
      ('saved state', 'segpy/reader.py: __getstate__, __setstate__')])
prop('C24', 'Array extraction puts every sample and header value in its cell',
     'Extracting a trace, inline, crossline, timeslice or header field as an array puts in each cell exactly the value stored for that inline, crossline and sample, for any selection of them; cells without data are masked, or hold the null value given, and keep it. Requests for absent lines or samples are refused.',
     ['inputs', 'configurations'], 'small surveys with gaps and variable-length traces, any selection',
     'the extension has almost no tests',
     ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py'],
     [('extraction', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py')])
prop('C25', 'Sorted containers and interval utilities keep their contracts',
     'The sorted immutable set behaves as a mathematical set in ascending sequence order; compressing, reversing or sorting a sequence of integers never adds, drops or reorders numbers; batching, padding, interval complement, overlap, rounding, stride and sortedness helpers agree with their definitions for all inputs, including empty ones.',
     ['inputs'], 'all integer sequences up to a stated length and all ranges within stated bounds',
     'property tests sample; off-by-one errors in stride and range arithmetic hide at particular combinations',
     ['segpy/util.py', 'segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'],
     [('range compression', 'segpy/util.py: compress_sorted_sequence_to_range, reversed_range'), ('set', 'segpy/sorted_frozen_set.py: SortedFrozenSet')])
prop('C26', 'Revisions and sample formats are recognised or refused, never guessed',
     'The revision number of a file is recognised exactly when it is one of the accepted spellings of revision 0 or 1 and refused otherwise, and every sample format code maps to its documented type, size and description and back; unknown codes are refused when the sample size is asked for.',
     ['inputs'], 'all 16-bit revision numbers and format codes',
     'tests use the valid codes only',
     ['segpy/revisions.py', 'segpy/datatypes.py', 'segpy/toolkit.py', 'segpy/field_types.py'],
     [('revision', 'segpy/revisions.py: canonicalize_revision'), ('formats', 'segpy/datatypes.py')])
prop('C27', 'Processes sharing a cache directory never harm each other',
     'When several processes open the same file with the same cache directory at once, each obtains a reader equivalent to a fresh scan, whatever the interleaving of their cache reads, writes and removals.',
     ['schedules'], 'all interleavings of two or more processes', 'no concurrent test exists',
     ['segpy/reader.py'], [('cache load and save', 'segpy/reader.py: _load_reader_from_cache, _save_reader_to_cache')])
prop('C28', 'The compiled IBM float packer agrees with the pure Python one',
     'When the optional compiled extension is installed, packing and unpacking IBM floats give the same bytes, values and refusals as the pure Python implementation.',
     ['inputs', 'configurations'], 'all 2^32 patterns, all doubles', 'the extension is not built in the test environment',
     ['segpy/ibm_float_packer.py'], [('selection of the packer', 'segpy/ibm_float_packer.py')])

NOT_APPLICABLE = {
    'C28': 'the compiled extension is a separate project whose source is not in this repository, so there is no code to encode; the Python side is covered by C01-C03',
}
TECH = 'bounded symbolic execution of the Python source with z3 (all paths within the stated bounds), counterexamples replayed on the unmodified code'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            checks.append({'property': pid, 'quick_cmd': './check %s quick' % pid, 'thorough_cmd': './check %s thorough' % pid,
                           'technique': TECH, 'level': 'model_checking',
                           'level_note': p['note'] or 'complete within the bounds named in the evidence; nothing is claimed beyond them',
                           'evidence_file': 'evidence/%s.json' % pid})
        else:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'Every check executes /repo\'s current Python source symbolically (see DESIGN.md); nothing is built. Known findings: known_findings.jsonl.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
