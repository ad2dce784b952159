"""C12: sample values are encoded and decoded per format and byte order."""
import struct
from segpy.datatypes import SegYType, SEG_Y_TYPE_TO_CTYPE, size_in_bytes
from segpy.toolkit import (read_binary_values, write_binary_values, write_trace_samples, unpack_values, pack_values, read_trace_header)
from checks.segyspec import field_int
from checks.ibmspec import float_is, same_value, is_nan

BOUNDS = {'quick': 'every sample format in both byte orders (IBM floats: big-endian), all byte values, all integers of magnitude up to 2^40, all doubles, '
                   '0..3 samples, reads of 0..3 samples at any position of files of any length up to 64 bytes',
          'thorough': 'as quick with up to 8 samples and files of up to 200 bytes'}
OUTSIDE = 'longer series of samples; bytes of float32 NaNs (their payload is up to the processor); the byte order of IBM floats in files opened as little-endian'

INTS = {'INT32': (4, True), 'NNINT32': (4, False), 'INT16': (2, True), 'NNINT16': (2, False), 'INT8': (1, True), 'NNINT8': (1, False)}
SIZES = {'INT32': 4, 'NNINT32': 4, 'INT16': 2, 'NNINT16': 2, 'INT8': 1, 'NNINT8': 1, 'FLOAT32': 4, 'IBM': 4}


def is_float32(h, x, bits, what):
    """x is exactly the number whose single-precision pattern is bits (NaNs apart)"""
    b = h.f64bits(x)
    e, m = (bits >> 23) & 255, bits & 0x7fffff
    neg = bits >= 1 << 31
    mag = b & ((1 << 63) - 1)
    ex, fr = mag >> 52, mag & ((1 << 52) - 1)
    h.check((b >= 1 << 63) == neg, what + ': sign')
    normal = h.both(e > 0, e < 255)
    h.check(h.implies(normal, mag == ((e + 896) << 52) + (m << 29)), what + ': value')
    h.check(h.implies(e == 255, ex == 2047), what + ': infinity')
    sub = h.both(e == 0, m != 0)
    sh = 926 - ex
    h.check(h.implies(sub, h.both(sh >= 29, sh <= 52)), what + ': scale of a subnormal')
    h.check(h.implies(sub, (m << (sh & 63)) == (fr | (1 << 52))), what + ': value of a subnormal')
    h.check(h.implies(h.both(e == 0, m == 0), mag == 0), what + ': zero')


def check_values(h, vals, data, kind, endian, n, what):
    size = SIZES[kind]
    h.check(len(vals) == n, what + ': number of samples')
    for k in range(n):
        if kind in INTS:
            h.check(vals[k] == field_int(h, data, k * size, size, endian, INTS[kind][1]), what + ': integer sample')
        elif kind == 'FLOAT32':
            bits = field_int(h, data, 4 * k, 4, endian, False)
            if h.both((bits >> 23) & 255 == 255, bits & 0x7fffff != 0):
                h.check(is_nan(h, vals[k]), what + ': NaN sample')
            else:
                is_float32(h, vals[k], bits, what)
        else:
            h.check(same_value(h, bytes(vals[k]), data[4 * k:4 * k + 4]), what + ': IBM sample')
            if n == 1:
                float_is(h, float(vals[k]), data[4 * k:4 * k + 4], what)


def read(h, kind, endian, n, limit):
    """reading at any position of a file of any length"""
    length = h.int('length', 0, limit)
    f = h.array_file('content', length)
    pos = h.int('pos', 0, limit)
    if h.choose('positioned', 2):
        f.seek(pos)
        where = None
    else:
        where = pos
        f.seek(h.int('elsewhere', 0, limit))
    size = SIZES[kind]
    try:
        vals = read_binary_values(f, where, SegYType[kind], n, endian)
        ok = True
    except EOFError:
        ok = False
    fits = h.either(pos + n * size <= length, n == 0)
    h.check(h.both(h.implies(ok, fits), h.implies(fits, ok)), 'end-of-file error exactly when samples are missing')
    if ok:
        data = [h.array_byte(f, pos + k) for k in range(n * size)]
        check_values(h, vals, data if kind != 'IBM' else bytes(data), kind, endian, n, 'read')


def there_and_back(h, kind, endian, n):
    """bytes -> samples -> bytes"""
    size = SIZES[kind]
    data = h.bytes('data', n * size)
    ctype = SEG_Y_TYPE_TO_CTYPE[SegYType[kind]]
    h.check(size_in_bytes(ctype) == size, 'sample size')
    if kind == 'FLOAT32':
        for k in range(n):
            bits = field_int(h, data, 4 * k, 4, endian, False)
            h.assume(h.either((bits >> 23) & 255 != 255, bits & 0x7fffff == 0))
    src = h.file(data)
    vals = read_binary_values(src, 0, SegYType[kind], n, endian)
    h.check(src.tell() == n * size, 'reading consumes the bytes of the samples')
    check_values(h, vals, data, kind, endian, n, 'read')
    dst = h.file(b'')
    (write_binary_values if h.choose('alias', 2) else write_trace_samples)(dst, vals, SegYType[kind], endian)
    out = dst.getvalue()
    h.check(len(out) == n * size, 'written size')
    if kind == 'IBM':
        for k in range(n):
            h.check(same_value(h, out[4 * k:4 * k + 4], data[4 * k:4 * k + 4]), 'IBM samples keep their value')
    else:
        h.check(out == data, 'samples read write back as the same bytes')


def write_ints(h, kind, endian, n, big):
    size, signed = INTS[kind]
    vals = [h.int('v%d' % k, -(1 << big), 1 << big) for k in range(n)]
    dst = h.file(b'')
    try:
        write_binary_values(dst, vals, SegYType[kind], endian)
        ok = True
    except (struct.error, OverflowError, ValueError):
        ok = False
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    fits = h.both(True, *[h.both(v >= lo, v <= hi) for v in vals])
    h.check(h.both(h.implies(ok, fits), h.implies(fits, ok)), 'refused exactly when a value does not fit')
    out = dst.getvalue()
    if not ok:
        h.check(len(out) == 0, 'nothing is written when refused')
        return
    h.check(len(out) == n * size, 'written size')
    for k in range(n):
        h.check(field_int(h, out, k * size, size, endian, signed) == vals[k], 'written value')
    back = read_binary_values(h.file(out), 0, SegYType[kind], n, endian)
    for a, b in zip(back, vals):
        h.check(a == b, 'read back')


def write_floats(h, endian, single):
    f = h.float32('f') if single else h.float('f')
    dst = h.file(b'')
    try:
        write_binary_values(dst, [f], SegYType.FLOAT32, endian)
        ok = True
    except (OverflowError, struct.error):
        ok = False
    b = h.f64bits(f)
    mag = b & ((1 << 63) - 1)
    ex = mag >> 52
    edge = ((1023 + 127) << 52) + 0xFFFFFF0000000          # FLT_MAX plus half a unit
    out = dst.getvalue()
    h.check(h.implies(ok, h.either(mag < edge, ex == 2047)), 'numbers beyond the range are refused')
    h.check(h.implies(mag < edge, ok), 'numbers within the range are accepted')
    if not ok:
        h.check(len(out) == 0, 'nothing is written when refused')
        return
    h.check(len(out) == 4, 'written size')
    bits = field_int(h, out, 0, 4, endian, False)
    m32 = bits & 0x7fffffff
    if ex == 2047:
        h.check(h.implies(mag == 2047 << 52, m32 == 0x7f800000), 'infinity')
        h.check(h.implies(mag != 2047 << 52, m32 > 0x7f800000), 'NaN')
        return
    h.check((bits >= 1 << 31) == (b >= 1 << 63), 'sign')
    if ex >= 897:
        d = (m32 << 29) - (mag - (896 << 52))
        h.check(h.both(d <= 1 << 28, d >= -(1 << 28)), 'rounded to the nearest')
        h.check(h.implies(h.either(d == 1 << 28, d == -(1 << 28)), m32 & 1 == 0), 'ties go to even')
    else:
        h.check(m32 <= 0x800000, 'tiny numbers')
    if single:
        back = read_binary_values(h.file(out), 0, SegYType.FLOAT32, 1, endian)
        h.check(h.f64bits(back[0]) == b, 'single-precision numbers read back the same')


def write_ibm(h, endian):
    """IBM samples are big-endian patterns, whatever is said of the rest of the file"""
    data = h.bytes('data', 4)
    from segpy.ibm_float import IBMFloat
    x = IBMFloat.from_bytes(data)
    dst = h.file(b'')
    write_binary_values(dst, [x], SegYType.IBM, endian)
    h.check(same_value(h, dst.getvalue(), data), 'written IBM sample')
    y = read_binary_values(h.file(dst.getvalue()), 0, SegYType.IBM, 1, endian)
    h.check(same_value(h, bytes(y[0]), data), 'IBM sample read back')


def pure(h, ctype, endian, n):
    """pack_values and unpack_values on their own"""
    kind = {c: k.name for k, c in SEG_Y_TYPE_TO_CTYPE.items()}[ctype]
    size, signed = INTS[kind]
    data = h.bytes('data', n * size)
    vals = unpack_values(data, ctype, endian)
    check_values(h, vals, data, kind, endian, n, 'unpack')
    h.check(pack_values(vals, ctype, endian) == data, 'pack undoes unpack')
    h.check(pack_values(vals, ctype) == bytes(b''.join(data[i * size:(i + 1) * size][::-1] for i in range(n))) if endian == '<' else pack_values(vals, ctype) == data,
            'big-endian by default')
    r = unpack_values(data, ctype)
    for k in range(n):
        h.check(r[k] == field_int(h, data, k * size, size, '>', signed), 'unpacked as big-endian by default')


def unknown(h):
    name = ['q', 'ibm', 'float', 'd'][h.choose('ctype', 4)]
    try:
        s = size_in_bytes(name)
        h.check(name == 'ibm' and s == 4, 'known type')
    except ValueError:
        h.check(name != 'ibm', 'unknown types are refused')


def jobs(tier):
    quick = tier == 'quick'
    J = [dict(name='unknown', fn='unknown', params={})]
    limit = 64 if quick else 200
    for endian in '><':
        e = 'big' if endian == '>' else 'little'
        for kind in SIZES:
            for n in (0, 1, 2) if quick else (0, 1, 2, 3):
                if kind == 'IBM' and (endian == '<' or n > 1):
                    continue
                J.append(dict(name='read-%s-%s-%d' % (kind, e, n), fn='read', params={'kind': kind, 'endian': endian, 'n': n, 'limit': limit}))
            for n in (0, 1, 3) if quick else (0, 1, 2, 3, 5, 8):
                if kind == 'IBM' and (endian == '<' or n > 1):
                    continue
                J.append(dict(name='back-%s-%s-%d' % (kind, e, n), fn='there_and_back', params={'kind': kind, 'endian': endian, 'n': n}))
            if kind in INTS:
                for n in (1, 2) if quick else (1, 2, 3, 5):
                    J.append(dict(name='write-%s-%s-%d' % (kind, e, n), fn='write_ints', params={'kind': kind, 'endian': endian, 'n': n, 'big': 40}))
        for single in (False, True):
            J.append(dict(name='float-%s-%s' % (e, 'single' if single else 'double'), fn='write_floats', params={'endian': endian, 'single': single}))
        J.append(dict(name='ibm-' + e, fn='write_ibm', params={'endian': endian}))
        for c in 'iIhHbB':
            J.append(dict(name='pure-%s-%s' % (c, e), fn='pure', params={'ctype': c, 'endian': endian, 'n': 2}))
    return J
