"""C15: extended textual headers paginate, count and terminate correctly."""
from segpy.toolkit import format_extended_textual_header, write_extended_textual_headers, read_extended_textual_headers
from segpy.binary_reel_header import BinaryReelHeader
from segpy.encoding import UnsupportedEncodingError

BOUNDS = {'quick': 'formatting: texts of up to 130 lines, of which up to three hold any characters up to U+017F (no line breaks) and have 0, 1, 77, 78, 79, 156 or 157 characters, each of the three universal newlines, with and without a last newline; '
                   'writing: up to three pages with one card of any characters, malformed pages and cards; '
                   'reading: declared counts -3..3, files of up to four pages of any length, any bytes in up to two cards of a page, both encodings',
          'thorough': 'as quick with characters up to U+10FFFF, more line lengths and more pages'}
OUTSIDE = 'longer texts; line separators that are not universal newlines; more than a few thousand headers'
STANZA = '((SEG: EndText))'
BREAKS = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\r\n'
BLANK = ' ' * 78 + '\r\n'


def no_breaks(h, t):
    for c in t:
        h.assume(h.both(*[c != b for b in BREAKS]))


def cards_of(lines):
    out = []
    for l in lines:
        for k in range(0, max(len(l), 1), 78):
            part = l[k:k + 78]
            out.append(part + ' ' * (78 - len(part)) + '\r\n')
    while len(out) % 40:
        out.append(BLANK)
    return out


def check_pages(h, pages, lines, stop):
    want = cards_of(lines)
    if stop:
        want += cards_of([STANZA])
    h.check(len(pages) == len(want) // 40, 'as many pages as the lines need')
    for i, page in enumerate(pages):
        h.check(len(page) == 40, 'forty lines a page')
        for k, card in enumerate(page):
            h.check(len(card) == 80, 'eighty characters a line')
            h.check(card == want[40 * i + k], 'pages hold the lines in order, terminated')


def fmt(h, encoding, n, places, lengths, codec, hi, then):
    """any text in some of n lines"""
    nl = ['\n', '\r\n', '\r'][h.choose('newline', 3)]
    lines = ['L%d' % i if i % 5 else '' for i in range(n)]
    for k, p in enumerate(places):
        lines[p] = h.text('t%d' % k, lengths[h.choose('len%d' % k, len(lengths))], codec, 0, hi)
        no_breaks(h, lines[p])
    text = nl.join(lines)
    if h.choose('last', 2):
        text = text + nl
    elif lines and len(lines[-1]) == 0:
        lines = lines[:-1]
    if n == 0 and len(text):
        lines = ['']
    stop = bool(h.choose('stop', 2))
    pages = format_extended_textual_header(text, encoding, stop)
    check_pages(h, pages, lines, stop)
    if stop is False:
        check_pages(h, format_extended_textual_header(text, encoding), lines, False)
    if then and len(pages) <= 3:
        round_trip(h, pages, encoding, stop)


def round_trip(h, pages, encoding, stop):
    f = h.file(b'#' * 3600)
    try:
        for p in pages:
            for c in p:
                c.encode(encoding)
        fits = True
    except UnicodeError:
        fits = False
    try:
        write_extended_textual_headers(f, pages, encoding)
        ok = True
    except UnicodeError:
        ok = False
    h.check(ok == fits, 'refused exactly when a line cannot be encoded')
    if not ok:
        h.check(len(f.getvalue()) == 3600, 'nothing is written when refused')
        return
    h.check(len(f.getvalue()) == 3600 + 3200 * len(pages), 'pages are written in full')
    h.check(f.tell() == 3600 + 3200 * len(pages), 'the file position is after the pages')
    for c in {len(pages), -1 if stop else len(pages)}:
        try:
            back = read_extended_textual_headers(f, BinaryReelHeader(num_extended_textual_headers=c), encoding)
        except ValueError:
            early = h.either(*[STANZA in p[0] for p in pages[:-1]])
            h.check(early, 'refused only for a premature stanza')
            continue
        if c < 0 and len(back) < len(pages):
            h.check(STANZA in pages[len(back) - 1][0], 'reading stops at the stanza')
        else:
            h.check(len(back) == len(pages), 'all pages are read')
        for a, b in zip(back, pages):
            h.check(list(a) == list(b), 'the pages written are read')


def write(h, encoding, n, form, codec, hi):
    """pages of any shape"""
    pages = [['P%d C%-2d' % (i, k) + ' ' * 73 + '.' for k in range(40)] for i in range(n)]
    for p in pages:
        for k in range(40):
            p[k] = p[k][:79] + '.'
    bad = h.choose('bad', 8) if n else 0
    at = h.choose('page', n) if n else 0
    card = h.choose('card', 3) * 19
    refused = False
    if bad == 1:
        pages[at] = pages[at][:39]
        refused = True
    elif bad == 2:
        pages[at] = pages[at] + pages[at][:1]
        refused = True
    elif bad == 3:
        pages[at] = []
        refused = True
    elif bad >= 4:
        m = (80, 79, 81, 0)[bad - 4]
        pages[at][card] = h.text('t', m, codec, 0, hi)
        refused = m != 80
    raw = []
    try:
        for p in pages:
            raw.append(b''.join([c.encode(encoding) for c in p]))
    except UnicodeError:
        refused = True
    given = {'list': pages, 'iterators': iter([iter(p) for p in pages]), 'tuple': tuple(tuple(p) for p in pages)}[form]
    before = b'#' * (3600 + h.choose('before', 2) * 3300)
    f = h.file(before)
    try:
        write_extended_textual_headers(f, given, encoding)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (not refused), 'malformed pages are refused, others are not')
    out = f.getvalue()
    if not ok:
        h.check(out == before, 'nothing is written when refused')
        return
    want = b''.join(raw)
    h.check(out[:3600] == before[:3600], 'what precedes the pages is not touched')
    h.check(out[3600:3600 + len(want)] == want, 'the pages are written from byte 3600')
    h.check(out[3600 + len(want):] == before[3600 + len(want):], 'what follows the pages is not touched')
    h.check(f.tell() == 3600 + 3200 * n, 'the file position is after the pages')


def read(h, encoding, n, some, counts):
    """any text in some cards (page, card) of a file of n pages; the last page may be cut anywhere"""
    parts = [b'#' * 3600]
    cards = {}
    some = [tuple(x) for x in some]
    for p in range(n):
        for k in range(40):
            if (p, k) in some:
                b = h.bytes('card%d.%d' % (p, k), 80)
                if encoding == 'ascii':
                    h.assume(h.both(*[x < 128 for x in b]))
            else:
                b = ('page %d card %-65d.\r\n' % (p, k)).encode(encoding)
            cards[p, k] = b
            parts.append(b)
    data = b''.join(parts)
    count = counts[h.choose('count', len(counts))]
    length = h.int('length', 3600, 3600 + 3200 * n)
    f = h.file(data, length=length)
    f.seek(h.choose('at', 2) * 11)
    stanza = [STANZA.encode(encoding) in cards[p, 0] for p in range(n)]
    whole = [length >= 3600 + 3200 * (p + 1) for p in range(n)]
    try:
        back = read_extended_textual_headers(f, BinaryReelHeader(num_extended_textual_headers=count), encoding)
        outcome = 'ok'
    except EOFError:
        outcome = 'eof'
    except ValueError:
        outcome = 'value'
    # the outcome that the property prescribes
    if count >= 0:
        for p in range(count):
            if p >= n or not whole[p]:
                h.check(outcome == 'eof', 'a truncated page is refused')
                return
            if stanza[p] and p < count - 1:
                h.check(outcome == 'value', 'a premature stanza is refused')
                return
        want = count
    else:
        want = 0
        while True:
            if want >= n or not whole[want]:
                h.check(outcome == 'eof', 'a file without the stanza is refused')
                return
            want += 1
            if stanza[want - 1]:
                break
    h.check(outcome == 'ok', 'well-formed headers are read')
    h.check(len(back) == want, 'exactly the pages declared, or those up to the stanza')
    h.check(f.tell() == 3600 + 3200 * want, 'the file position is after the pages')
    for p, page in enumerate(back):
        h.check(len(page) == 40, 'forty lines a page')
        for k, line in enumerate(page):
            h.check(line == cards[p, k].decode(encoding), 'the lines are the cards')


def unsupported(h):
    enc = ['latin-1', 'utf-8', 'utf-16', 'ASCII', 'cp500', '', None][h.choose('encoding', 7)]
    f = h.file(b'#' * 10)
    for act in (lambda: write_extended_textual_headers(f, [], enc), lambda: format_extended_textual_header('x', enc)):
        try:
            act()
            ok = True
        except UnsupportedEncodingError as e:
            ok = False
            h.check(e.encoding == enc, 'the error names the encoding')
        h.check(not ok, 'unsupported encodings are refused')
    h.check(len(f.getvalue()) == 10, 'nothing is written when refused')


def jobs(tier):
    quick = tier == 'quick'
    hi = 0x17f if quick else 0x10ffff
    J = [dict(name='unsupported', fn='unsupported', params={})]
    ls = (0, 1, 78, 79) if quick else (0, 1, 2, 77, 78, 79, 80, 81, 155, 156, 157)
    for enc in ('ascii', 'cp037'):
        codec, top = ('unicode', hi) if enc == 'ascii' else ('cp037', None)
        for n, places in ((0, ()), (1, (0,)), (2, (1,)), (3, (0, 1)), (39, (0,)), (40, (39,)), (40, (17,)), (41, (5,)), (81, (79,)), (130, (3,))):
            J.append(dict(name='format-%s-%d-%s' % (enc, n, '.'.join(map(str, places))), fn='fmt',
                          params={'encoding': enc, 'n': n, 'places': places, 'codec': codec, 'hi': top, 'lengths': ls if len(places) < 2 else ls[1:],
                                  'then': n in (1, 40)}))
        J.append(dict(name='format-long-%s' % enc, fn='fmt', params={'encoding': enc, 'n': 3, 'places': (1,), 'codec': codec, 'hi': top, 'lengths': (77, 156, 157) if quick else (76, 155, 156, 157, 158, 234, 235),
                                                                     'then': False}))
        for n in (0, 1, 2, 3):
            for form in ('list',) if n != 2 else ('list', 'tuple', 'iterators'):
                J.append(dict(name='write-%s-%d-%s' % (enc, n, form), fn='write', params={'encoding': enc, 'n': n, 'form': form, 'codec': codec, 'hi': top}))
        for n, some in ((0, ()), (1, ((0, 0),)), (2, ((0, 0), (1, 0))), (3, ((0, 0), (1, 0), (2, 0))), (2, ((0, 1), (1, 0))), (3, ((0, 39), (2, 17)))):
            J.append(dict(name='read-%s-%d-%s' % (enc, n, '.'.join('%d_%d' % x for x in some)), fn='read', params={'encoding': enc, 'n': n, 'some': some, 'counts': (-1, 0, 1, 2, 3) if quick else (-3, -2, -1, 0, 1, 2, 3, 4)}))
    return J
