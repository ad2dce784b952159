"""C26: revisions and sample formats are recognised or refused, never guessed."""
from segpy.revisions import SegYRevision, SegYRevisionError, canonicalize_revision, integer_to_decimal_revision
from segpy.datatypes import (DataSampleFormat, SegYType, DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE, SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT, SEG_Y_TYPE_TO_CTYPE, SEG_Y_TYPE_DESCRIPTION,
                             CTYPE_TO_SIZE, data_sample_format_size_in_bytes, data_sample_format_description, size_in_bytes, LIMITS, PY_TYPES)
from segpy.toolkit import extract_revision, bytes_per_sample, read_binary_reel_header
from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import DelegatingDataset

BOUNDS = {'quick': 'revisions: every integer up to 2^70 in magnitude, every 16-bit header field in both byte orders; sample format codes: every integer up to 2^20 in magnitude and every 16-bit header field; '
                   'texts of up to three characters as names of C types',
          'thorough': 'as quick'}
OUTSIDE = 'revisions that are not integers'

REV = {0: 0, 0x100: 0x100, 1: 0x100, 100: 0x100}
# code -> (name, C type, bytes, description)
FORMATS = {1: ('IBM', 'ibm', 4, 'IBM 32 bit float'), 2: ('INT32', 'i', 4, '32 bit signed integer'), 3: ('INT16', 'h', 2, '16 bit signed integer'),
           5: ('FLOAT32', 'f', 4, 'IEEE float32'), 8: ('INT8', 'b', 1, '8 bit signed integer (byte)')}


def check_revision(h, raw, act, error):
    try:
        got = act()
    except error:
        got = None
    known = h.either(*[raw == k for k in REV])
    h.check(h.implies(known, got is not None), 'accepted spellings are recognised')
    h.check(h.implies(got is not None, known), 'others are refused')
    if got is not None:
        for k, v in REV.items():
            h.check(h.implies(raw == k, got == v), 'the revision is the one that is meant')
        h.check(got is SegYRevision.REVISION_0 or got is SegYRevision.REVISION_1, 'the result is a revision')


def revision(h, bits):
    raw = h.int('revision', -(1 << bits), 1 << bits)
    check_revision(h, raw, lambda: canonicalize_revision(raw), SegYRevisionError)


def enum_revision(h):
    r = [SegYRevision.REVISION_0, SegYRevision.REVISION_1][h.choose('r', 2)]
    h.check(canonicalize_revision(r) is r, 'a revision is itself')
    h.check(int(SegYRevision.REVISION_1) == 256 and int(SegYRevision.REVISION_0) == 0, 'revision numbers')
    h.check(len(list(SegYRevision)) == 2, 'two revisions')


def decimal(h):
    raw = h.int('revision', 0, 0xffff)
    hi, lo = raw >> 8, raw & 255
    k = h.choose('hi', 3)
    h.assume(hi == (0, 1, 2)[k])
    j = h.choose('lo', 4)
    h.assume(lo == (0, 1, 9, 100)[j])
    n = h.realise(raw)
    d = integer_to_decimal_revision(n)
    h.check(d * 10 == (0, 10, 20)[k] + (0, 1, 9, 100)[j], 'decimal form')


def header(h, endian):
    """the binary reel header of a file: any format code and revision"""
    dsf = h.bytes('format', 2)
    rev = h.bytes('revision', 2)
    data = bytes(24) + dsf + bytes(274) + rev + bytes(98)
    f = h.file(b'#' * 3200 + data)
    f.seek(3200)
    order = (0, 1) if endian == '>' else (1, 0)
    code = dsf[order[0]] * 256 + dsf[order[1]]
    raw = rev[order[0]] * 256 + rev[order[1]]
    known = h.either(*[code == k for k in FORMATS])
    plain = h.either(raw == 0, raw == 0x100)
    size = got = None
    try:
        hdr = read_binary_reel_header(f, BinaryReelHeader, endian)
        size = bytes_per_sample(hdr)
        got = extract_revision(hdr)
    except (ValueError, SegYRevisionError):
        pass
    h.check(h.implies(size is not None, known), 'unknown sample formats are refused')
    h.check(h.implies(got is not None, h.either(*[raw == k for k in REV])), 'unknown revisions are refused')
    h.check(h.implies(h.both(known, plain), got is not None), 'known sample formats and revisions are recognised')
    if got is not None:
        for k, (name, ctype, n, text) in FORMATS.items():
            h.check(h.implies(code == k, h.both(size == n, hdr.data_sample_format == k)), 'the sample size is that of the format')
        for k, v in REV.items():
            h.check(h.implies(raw == k, got == v), 'the revision is the one that is meant')


def spelling(h, endian, k):
    """a file that spells revision 1 in another accepted way"""
    dsf = h.int('format', 1, 8)
    h.assume(h.either(*[dsf == c for c in FORMATS]))
    pair = [0, dsf] if endian == '>' else [dsf, 0]
    data = bytes(24) + bytes(pair) + bytes(274) + k.to_bytes(2, 'big' if endian == '>' else 'little') + bytes(98)
    f = h.file(b'#' * 3200 + data)
    f.seek(3200)
    try:
        got = extract_revision(read_binary_reel_header(f, BinaryReelHeader, endian))
    except (ValueError, SegYRevisionError):
        got = None
    h.check(got is not None, 'a reel header with the accepted spelling %d of revision 1 is read' % k)
    h.check(got == 0x100, 'the revision is the one that is meant')


class Loose:
    """a reel header with any format code"""

    def __init__(self, code):
        self.data_sample_format = code


def code(h):
    n = h.int('code', -(1 << 20), 1 << 20)
    known = h.either(*[n == k for k in FORMATS])
    try:
        size = bytes_per_sample(Loose(n))
    except ValueError:
        size = None
    h.check(h.implies(known, size is not None), 'known codes have a size')
    h.check(h.implies(size is not None, known), 'unknown codes are refused')
    try:
        size2 = data_sample_format_size_in_bytes(n)
        text = data_sample_format_description(n)
    except (KeyError, ValueError):
        size2 = text = None
    h.check((size is None) == (size2 is None), 'sizes agree')
    if size is not None:
        for k, (name, ctype, m, what) in FORMATS.items():
            h.check(h.implies(n == k, h.both(size == m, size2 == m, text == what)), 'size and description of a format')


def tables(h):
    i = h.choose('format', 5)
    k = sorted(FORMATS)[i]
    name, ctype, n, what = FORMATS[k]
    fmt = DataSampleFormat(k)
    h.check(fmt.name == name, 'format names')
    t = DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[fmt]
    h.check(t is SegYType[name], 'format to type')
    h.check(SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT[t] == k, 'type to format')
    h.check(SEG_Y_TYPE_TO_CTYPE[t] == ctype and size_in_bytes(ctype) == n, 'C type and size')
    h.check(SEG_Y_TYPE_DESCRIPTION[t] == what, 'description')
    h.check(len(DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE) == 5 and len(SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT) == 5, 'five formats')
    bits = {'i': 32, 'h': 16, 'b': 8}.get(ctype)
    if bits:
        h.check(LIMITS[t].min == -(1 << bits - 1) and LIMITS[t].max == (1 << bits - 1) - 1, 'limits of integer types')
    h.check(PY_TYPES[t] is (int if bits else float), 'Python types')


class One(DelegatingDataset):
    pass


class Src:
    def __init__(self, code):
        self.binary_reel_header = Loose(code)


def dataset(h):
    """a dataset reports the sample type of its reel header"""
    n = h.int('code', -10, 300)
    d = One(Src(n))
    known = h.either(*[n == k for k in FORMATS])
    try:
        t = d.data_sample_format
        what = d.data_sample_format_description
    except (KeyError, ValueError):
        t = None
    h.check(h.implies(known, t is not None), 'known codes have a type')
    h.check(h.implies(t is not None, known), 'unknown codes have none')
    if t is not None:
        for k, (name, ctype, m, text) in FORMATS.items():
            h.check(h.implies(n == k, h.both(t is SegYType[name], what == text)), 'type and description of the format')


def ctype(h, n):
    t = h.text('ctype', n, 'ascii')
    known = [c for c in ('i', 'I', 'h', 'H', 'b', 'B', 'f', 'ibm') if len(c) == n]
    try:
        size = size_in_bytes(t)
    except ValueError:
        size = None
    is_known = h.either(*[t == c for c in known]) if known else False
    h.check(h.implies(size is None, h.implies(is_known, False)), 'known C types have a size')
    h.check(h.implies(size is not None, is_known), 'unknown C types are refused')
    if size is not None:
        for c in known:
            h.check(h.implies(t == c, size == {'i': 4, 'I': 4, 'h': 2, 'H': 2, 'b': 1, 'B': 1, 'f': 4, 'ibm': 4}[c]), 'size of a C type')


def jobs(tier):
    J = [dict(name='tables', fn='tables', params={}), dict(name='enum', fn='enum_revision', params={}), dict(name='decimal', fn='decimal', params={}),
         dict(name='code', fn='code', params={}), dict(name='dataset', fn='dataset', params={})]
    for bits in (8, 16, 70):
        J.append(dict(name='revision-%d' % bits, fn='revision', params={'bits': bits}))
    for endian in '<>':
        J.append(dict(name='header-%s' % ('little' if endian == '<' else 'big'), fn='header', params={'endian': endian}))
        for k in (1, 100):
            J.append(dict(name='spelling-%s-%d' % ('little' if endian == '<' else 'big', k), fn='spelling', params={'endian': endian, 'k': k}))
    for n in range(4):
        J.append(dict(name='ctype-%d' % n, fn='ctype', params={'n': n}))
    return J
