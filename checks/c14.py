"""C14: the standard textual header template formats and parses consistently."""
from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
from segpy.revisions import SegYRevision
from checks.cardspec import CARDS, END_MARKERS

BOUNDS = {'quick': 'every field of all forty cards at once or alone, both revisions; any characters up to U+017F; texts of 0, 1, width-1, width, width+1 and width+5 characters; '
                   'parsing of any text in each card',
          'thorough': 'as quick with characters up to U+10FFFF and more lengths'}
OUTSIDE = 'other templates; values longer than the field width plus 20'

NAMES = [n for _, fs in CARDS for n, _, _ in fs]


def blank(h, text, k):
    return text[k] == ' '


def expect(h, lines, given, revision):
    """given: argument name -> text"""
    h.check(len(lines) == 40, 'forty lines')
    for (bg, fs), line in zip(CARDS, lines):
        h.check(len(line) == 80, 'eighty characters')
        at = 0
        for name, col, width in fs:
            h.check(line[at:col] == bg[at:col], 'fixed text is undisturbed')
            at = col + width
            text = given.get(name)
            if text is None:
                text = END_MARKERS[revision] if name == 'end_marker' else ''
            cut = text[:width]
            h.check(line[col:col + len(cut)] == cut, 'a field holds its value')
            h.check(line[col + len(cut):at] == ' ' * (width - len(cut)), 'the rest of a field is blank')
        h.check(line[at:] == bg[at:], 'fixed text is undisturbed')


def check_parsed(h, fields, given, revision, some):
    h.check(list(fields) == NAMES, 'every field is parsed, in order')
    for (bg, fs) in CARDS:
        for name, col, width in fs:
            text = given.get(name)
            if text is None:
                h.check(fields[name] == (END_MARKERS[revision] if name == 'end_marker' else ''), 'fields left blank parse as blank')
            elif name in some:
                h.check(fields[name] == text[:width].strip(), 'a field value is recovered')


def one(h, card, index, lengths, hi, revision):
    """one field with any text"""
    name, col, width = CARDS[card][1][index]
    ns = sorted({max(0, width + n) if n > -5 else n + 10 for n in lengths})
    n = ns[h.choose('n', len(ns))]
    text = h.text('t', n, 'unicode', 0, hi)
    if n > 2:
        last = min(n, width) - 1
        for c in {0, last}:
            h.assume(h.both(text[c] > ' ', text[c] < '\x7f'))
    lines = format_standard_textual_header(SegYRevision[revision], **{name: text})
    expect(h, lines, {name: text}, revision)
    check_parsed(h, parse_standard_textual_header(lines), {name: text}, revision, {name})


def many(h, cards, extra, hi, revision):
    """all fields of several cards at once, each with any text"""
    given = {}
    for c in cards:
        for name, col, width in CARDS[c][1]:
            n = max(1, width + extra)
            given[name] = h.text(name, n, 'unicode', 0, hi)
            h.assume(h.both(given[name][0] > ' ', given[name][0] < '\x7f', given[name][min(n, width) - 1] > ' ', given[name][min(n, width) - 1] < '\x7f'))
    lines = format_standard_textual_header(SegYRevision[revision], **given)
    expect(h, lines, given, revision)
    check_parsed(h, parse_standard_textual_header(lines), given, revision, set(given))


def values(h):
    """values that are not text are shown as text; unknown names are refused"""
    n = [0, 7, -31, 123456, 10 ** 12][h.choose('n', 5)]
    rev = ['REVISION_0', 'REVISION_1'][h.choose('rev', 2)]
    lines = format_standard_textual_header(SegYRevision[rev], crew_number=n, year=2.5, line=None)
    expect(h, lines, {'crew_number': str(n), 'year': '2.5', 'line': 'None'}, rev)
    wrong = ['crew', 'client ', 'CLIENT', 'd', '', 'revision_'][h.choose('wrong', 6)]
    try:
        format_standard_textual_header(SegYRevision[rev], client='x', **{wrong: 'y'})
        ok = True
    except TypeError:
        ok = False
    h.check(not ok, 'unknown names are refused')


def parse_any(h, cards):
    """any text in some cards"""
    lines = []
    for c in range(40):
        lines.append(h.text('card%d' % c, 80, 'ascii', 33, 126) if c in cards else ' ' * 80)
    fields = parse_standard_textual_header(lines)
    for c, (bg, fs) in enumerate(CARDS):
        for name, col, width in fs:
            h.check(fields[name] == (lines[c][col:col + width] if c in cards else ''), 'fields are taken from their places')


def malformed(h):
    n = [0, 1, 39, 40, 41][h.choose('n', 5)]
    bad = h.choose('bad', 3)
    at = h.choose('at', 2) * 39
    lines = [' ' * 80] * n
    if bad and at < n:
        lines[at] = ' ' * (79 if bad == 1 else 81)
    try:
        parse_standard_textual_header(lines)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (n == 40 and not bad), 'headers of another shape are refused')


def jobs(tier):
    quick = tier == 'quick'
    hi = 0x17f if quick else 0x10ffff
    J = [dict(name='values', fn='values', params={}), dict(name='malformed', fn='malformed', params={})]
    lengths = (-10, -9, -1, 0, 1, 5) if quick else (-10, -9, -8, -2, -1, 0, 1, 2, 5, 20)
    for c in range(40):
        rev = 'REVISION_%d' % (c % 2)
        for i, (name, col, width) in enumerate(CARDS[c][1]):
            for rev in ('REVISION_0', 'REVISION_1') if not quick or c == 39 else ('REVISION_%d' % (c % 2),):
                J.append(dict(name='field-%s-%s' % (name, rev[-1]), fn='one', params={'card': c, 'index': i, 'lengths': lengths, 'hi': hi, 'revision': rev}))
    for extra in (-1, 0, 3):
        for k in range(0, 40, 10):
            J.append(dict(name='cards%d%+d' % (k, extra), fn='many', params={'cards': tuple(range(k, k + 10)), 'extra': extra, 'hi': hi, 'revision': 'REVISION_%d' % (k // 10 % 2)}))
    for k in range(0, 40, 8):
        J.append(dict(name='parse%d' % k, fn='parse_any', params={'cards': tuple(range(k, k + 8))}))
    return J
