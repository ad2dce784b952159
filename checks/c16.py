"""C16: text encoding detection never contradicts clear evidence."""
from segpy.encoding import guess_encoding, is_supported_encoding, ASCII, EBCDIC
from segpy.toolkit import guess_textual_header_encoding

BOUNDS = {'quick': 'all byte strings of 0..8, 16 and 40 bytes; files of up to 3210 bytes of which up to 40 are arbitrary and the others a mixture on either side of the balance',
          'thorough': 'all byte strings of 0..20, 32, 64 and 80 bytes; files of which up to 80 bytes are arbitrary'}
OUTSIDE = '3200-byte headers with more arbitrary bytes; other thresholds'

COMMON = [chr(c) for c in range(48, 58)] + [chr(c) for c in range(65, 91)] + [chr(c) for c in range(97, 123)] + [':', '_', '-', ' ']
IN_ASCII = sorted(ord(c) for c in COMMON)
# EBCDIC: letters in three runs each, digits, and : _ - space
IN_EBCDIC = sorted(list(range(0x81, 0x8a)) + list(range(0x91, 0x9a)) + list(range(0xa2, 0xaa)) + list(range(0xc1, 0xca)) + list(range(0xd1, 0xda)) + list(range(0xe2, 0xea))
                   + list(range(0xf0, 0xfa)) + [0x7a, 0x6d, 0x60, 0x40])


def count(h, data, members):
    n = 0
    for b in data:
        n = n + h.ite(b in members, 1, 0)
    return n


def verdict(h, data, got):
    """got agrees with the evidence in data"""
    n = len(data)
    a, e, z = count(h, data, IN_ASCII), count(h, data, IN_EBCDIC), count(h, data, [0])
    if n == 0:
        h.check(got is None, 'no bytes, no encoding')
        return
    h.check(got is None or got == 'ascii' or got == 'cp037', 'a supported encoding or none')
    is_a, is_e, is_z = 2 * a >= n, 2 * e >= n, z == n
    want_a = h.either(is_z, h.both(is_a, 2 * e < n))
    want_e = h.both(is_e, 2 * a < n)
    h.check(h.both(h.implies(want_a, got == 'ascii'), h.implies(got == 'ascii', want_a)), 'ASCII exactly on evidence of ASCII alone')
    h.check(h.both(h.implies(want_e, got == 'cp037'), h.implies(got == 'cp037', want_e)), 'EBCDIC exactly on evidence of EBCDIC alone')


def guess(h, n):
    data = h.bytes('data', n)
    verdict(h, data, guess_encoding(data))


def from_file(h, n, filler, cut):
    """a file whose first 3200 bytes hold n arbitrary bytes among others"""
    total = 3210
    at = (0, 3200 - n)[h.choose('at', 2)]
    some = h.bytes('data', n)
    fill = (bytes(filler) * total)[:total]
    data = fill[:at] + some + fill[at + n:]
    length = cut
    f = h.file(data, length=length)
    pos = h.int('pos', 0, 4000)
    f.seek(pos)
    got = guess_textual_header_encoding(f)
    h.check(f.tell() == pos, 'the file position is where it was')
    verdict(h, data[:min(length, 3200)], got)


def names(h):
    for enc, ok in (('ascii', True), ('cp037', True), ('ASCII', False), ('utf-8', False), (None, False), ('', False), ('cp500', False)):
        h.check(is_supported_encoding(enc) == ok, 'exactly two encodings are supported')
    h.check(ASCII == 'ascii' and EBCDIC == 'cp037', 'names of encodings')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='names', fn='names', params={})]
    for n in tuple(range(9)) + (16, 40) if quick else tuple(range(21)) + (32, 64, 80):
        J.append(dict(name='guess-%d' % n, fn='guess', params={'n': n}))
    for name, filler in (('balance', (65, 0)), ('null', (0,)), ('both', (0xc1, 65)), ('neither', (0, 1)), ('ebcdic', (0xc1, 0x40)), ('edge', (0x60, 0x20)), ('more', (0xe9, 0xf9, 0)), ('less', (0x7a, 0x30, 0x21, 0x22))):
        for cut in (3210, 3200, 90) if quick else (3210, 3201, 3200, 3199, 1600, 90, 89):
            n = (40 if cut > 90 else 8) if quick else (80 if cut > 90 else 16)
            J.append(dict(name='file-%s-%d' % (name, cut), fn='from_file', params={'n': n, 'filler': filler, 'cut': cut}))
    return J
