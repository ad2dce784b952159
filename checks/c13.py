"""C13: the textual reel header is always forty 80-byte cards."""
from segpy.toolkit import (write_textual_reel_header, read_textual_reel_header, CARD_LENGTH, CARDS_PER_HEADER, TEXTUAL_HEADER_NUM_BYTES)
from segpy.encoding import UnsupportedEncodingError, ASCII, EBCDIC

BOUNDS = {'quick': '0..43 lines of which up to three hold any Unicode characters up to U+017F (EBCDIC: any EBCDIC characters; any Unicode in one-character lines), of 0, 1, 40, 79, 80, 81 or 130 characters, at any of several places, '
                   'both encodings and several unsupported ones; reading: all 3200-byte contents, files of any length up to 3300',
          'thorough': 'as quick with characters up to U+10FFFF and every line length from 0 to 90'}
OUTSIDE = 'more lines; longer lines'


def encodable(h, line, encoding):
    try:
        return line.encode(encoding)
    except UnicodeError:
        return None


def check_written(h, out, lines, encoding):
    h.check(len(out) == 3200, 'exactly 3200 bytes')
    blank = b' ' if encoding == 'ascii' else b'\x40'
    for i in range(40):
        card = out[80 * i:80 * i + 80]
        if i < len(lines):
            want = lines[i][:80]
            h.check(card[:len(want)] == want, 'a card holds its line')
            h.check(card[len(want):] == blank * (80 - len(want)), 'the rest of a card is blank')
        else:
            h.check(card == blank * 80, 'missing lines are blank')


def write(h, encoding, n, places, lengths, codec, hi, form):
    """any text in some of n lines"""
    lines = ['C%d' % (i + 1) if i % 3 else '' for i in range(n)]
    for k, p in enumerate(places):
        if p < n:
            lines[p] = h.text('t%d' % k, lengths[h.choose('len%d' % k, len(lengths))], codec, 0, hi)
    raw = []
    for i, l in enumerate(lines):
        raw.append(encodable(h, l, encoding) if i < 40 else b'')
    given = {'list': lines, 'tuple': tuple(lines), 'iterator': iter(lines)}[form]
    start = h.choose('start', 2) * 7
    f = h.file(b'#' * start)
    f.seek(start)
    try:
        r = write_textual_reel_header(f, given, encoding)
        ok = True
    except UnicodeError:
        ok = False
    h.check(ok == (not any(r is None for r in raw)), 'refused exactly when a line cannot be encoded')
    out = f.getvalue()
    if not ok:
        h.check(len(out) == start, 'nothing is written when refused')
        return
    h.check(f.tell() == start + 3200, 'the file position is after the header')
    check_written(h, out[start:], raw, encoding)
    f.seek(start)
    back = read_textual_reel_header(f, encoding)
    h.check(len(back) == 40, 'forty lines are read')
    for i, l in enumerate(back):
        h.check(len(l) == 80, 'eighty characters are read')
        t = lines[i][:80] if i < n else ''
        h.check(l[:len(t)] == t, 'the text written is read')
        h.check(l[len(t):] == ' ' * (80 - len(t)), 'blanks are read after it')


def read(h, encoding, some):
    """reading any content; the bytes of some lines are arbitrary"""
    f0 = bytes(range(0x41, 0x5b)) * 130
    parts = []
    for i in range(40):
        parts.append(h.bytes('card%d' % i, 80) if i in some else f0[80 * i:80 * i + 80])
    raw = b''.join(parts)
    extra = h.choose('extra', 2)
    f = h.file(raw + b'!' * extra)
    try:
        lines = read_textual_reel_header(f, encoding)
        ok = True
    except UnicodeError:
        ok = False
    fits = encoding != 'ascii' or h.both(*[b < 128 for i in some for b in parts[i]])
    h.check(h.both(h.implies(ok, fits), h.implies(fits, ok)), 'refused exactly when the bytes are no text')
    if not ok:
        return
    h.check(f.tell() == 3200, 'the file position is after the header')
    h.check(len(lines) == 40, 'forty lines')
    for i, l in enumerate(lines):
        h.check(len(l) == 80, 'eighty characters')
        h.check(l.encode(encoding) == parts[i], 'the text of the card')
    g = h.file(b'')
    write_textual_reel_header(g, lines, encoding)
    h.check(g.getvalue() == raw, 'lines read write back as the same bytes')


def short(h, encoding):
    """short files are refused"""
    length = h.int('length', 0, 3300)
    pos = h.int('pos', 0, 60)
    f = h.array_file('content', length)
    f.seek(pos)
    if encoding == 'ascii':
        h.assume(length - pos < 3200)
    try:
        read_textual_reel_header(f, encoding)
        ok = True
    except EOFError:
        ok = False
    fits = length - pos >= 3200
    h.check(h.both(h.implies(ok, fits), h.implies(fits, ok)), 'end-of-file error exactly when the header is incomplete')


def unsupported(h):
    enc = ['latin-1', 'utf-8', 'utf-16', 'ASCII', 'cp500', '', None, 37][h.choose('encoding', 8)]
    f = h.file(b'')
    n = h.choose('n', 3)
    try:
        write_textual_reel_header(f, ['x'] * n, enc)
        ok = True
    except UnsupportedEncodingError as e:
        ok = False
        h.check(e.encoding == enc, 'the error names the encoding')
    h.check(not ok, 'unsupported encodings are refused')
    h.check(len(f.getvalue()) == 0, 'nothing is written when refused')
    h.check(CARD_LENGTH == 80 and CARDS_PER_HEADER == 40 and TEXTUAL_HEADER_NUM_BYTES == 3200, 'dimensions')
    h.check(ASCII == 'ascii' and EBCDIC == 'cp037', 'supported encodings')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='unsupported', fn='unsupported', params={})]
    hi = 0x17f if quick else 0x10ffff
    for enc in ('ascii', 'cp037'):
        J.append(dict(name='short-' + enc, fn='short', params={'encoding': enc}))
        for some in ((0, 39), (7,), (20, 21)) if quick else ((0, 39), (7,), (20, 21), (1, 2, 3), (38, 39)):
            J.append(dict(name='read-%s-%d' % (enc, some[0]), fn='read', params={'encoding': enc, 'some': some}))
        ls = (0, 1, 40, 79, 80, 81, 130) if quick else tuple(range(0, 91))
        codec = 'unicode' if enc == 'ascii' else 'cp037'
        for n, places in ((0, ()), (1, (0,)), (3, (2,)), (39, (0,)), (40, (39,)), (40, (17,)), (41, (40,)), (43, (39,))):
            for form in ('list',) if n != 40 else ('list', 'tuple', 'iterator'):
                J.append(dict(name='write-%s-%d-%s-%s' % (enc, n, form, '.'.join(map(str, places))), fn='write',
                              params={'encoding': enc, 'n': n, 'places': places, 'lengths': ls, 'codec': codec, 'hi': hi if codec == 'unicode' else None, 'form': form}))
        J.append(dict(name='write3-%s' % enc, fn='write', params={'encoding': enc, 'n': 5, 'places': (0, 3, 4), 'lengths': (2, 81) if quick else (2, 80, 81), 'codec': codec,
                                                                  'hi': hi if codec == 'unicode' else None, 'form': 'list'}))
    J.append(dict(name='refused-cp037', fn='write', params={'encoding': 'cp037', 'n': 2, 'places': (0,), 'lengths': (1,) if quick else (1, 2), 'codec': 'unicode', 'hi': hi, 'form': 'list'}))
    return J
