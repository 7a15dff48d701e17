"""C15: time values against exact calendar arithmetic."""
import copy
from datetime import datetime, timedelta, timezone
from fractions import Fraction

from lib.pbt import Check
from lib import ref
from asn1crypto import core, util, x509, cms, tsp

check = Check('C15', rule=(
    'instants over years 0-9999 with bias to range ends, leap days, month and second boundaries; zone offsets of every minute up to 23:59; '
    'fractions of 1-9 digits of hours, minutes or seconds; every spelling the grammar allows; mutated and random strings on the reject '
    'side. The oracle is day-number arithmetic written here. Non-trivial: a non-zero offset, a fraction, an omitted field, or year below '
    '1000 or at a window edge; distinct by text.'))

UTC = timezone.utc
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return CUM[m] - CUM[m - 1] + (1 if m == 2 and leap(y) else 0)


def days(y, m, d):
    """days since 0000-01-01, proleptic Gregorian"""
    n = 365 * y
    if y > 0:
        n += (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + 1
    n += CUM[m - 1] + (1 if m > 2 and leap(y) else 0)
    return n + d - 1


def usec(y, m, d, H, M, S, us, off):
    """exact microseconds since 0000-01-01 UTC; off in minutes"""
    return ((days(y, m, d) * 86400 + H * 3600 + M * 60 + S - off * 60) * 1000000) + us


MAX_US = usec(9999, 12, 31, 23, 59, 59, 999999, 0)


def civil(us):
    """inverse: (y, m, d, H, M, S, us) in UTC"""
    n, us = divmod(us, 1000000)
    dn, s = divmod(n, 86400)
    y = dn * 400 // 146097
    while days(y, 1, 1) > dn:
        y -= 1
    while y < 9999 and days(y + 1, 1, 1) <= dn:
        y += 1
    r = dn - days(y, 1, 1)
    m = 1
    while r >= mdays(y, m):
        r -= mdays(y, m)
        m += 1
    return y, m, r + 1, s // 3600, s % 3600 // 60, s % 60, us


def instant(g, v):
    """exact instant of what the library returned"""
    off = v.utcoffset()
    off_us = 0 if off is None else (off.days * 86400 + off.seconds) * 1000000 + off.microseconds
    return usec(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, 0) - off_us


def gen_year(g, lo=0, hi=9999):
    k = g.draw(6)
    if k == 0:
        y = 2000 + g.draw(50)
    elif k == 1:
        y = g.choice([0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1899, 1900, 1949, 1950, 1951, 1999, 2000, 2048, 2049, 2050, 9998, 9999])
    elif k == 2:
        y = 0
    else:
        y = lo + g.draw(hi - lo + 1)
    return min(max(y, lo), hi)


def gen_civil(g, lo=0, hi=9999):
    y = gen_year(g, lo, hi)
    m = g.int(1, 12)
    if g.draw(8) == 7:
        m = 2
    d = mdays(y, m) if g.draw(4) == 3 else 1 + g.draw(mdays(y, m))
    if g.draw(5) == 4:
        H, M, S = g.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (23, 0, 0)])
    else:
        H, M, S = g.draw(24), g.draw(60), g.draw(60)
    return y, m, d, H, M, S


def gen_offset(g):
    k = g.draw(5)
    if k == 0:
        return 0
    if k == 1:
        return g.choice([60, -60, 330, -210, 765, -720, 840, 1439, -1439, 1, -1, 59, -59, -30])
    return g.draw(2879) - 1439


def gen_us(g):
    k = g.draw(5)
    if k < 2:
        return 0
    if k == 2:
        return g.choice([1, 10, 100, 1000, 10000, 100000, 500000, 999999, 120000, 1001])
    return g.draw(1000000)


def zone(g, off):
    if off == 0 and g.draw(2):
        return UTC if g.draw(2) else util.utc_with_dst
    return timezone(timedelta(minutes=off)) if g.draw(2) else util.create_timezone(timedelta(minutes=off))


def py(y, m, d, H, M, S, us, tz):
    cls = util.extended_datetime if y == 0 else datetime
    return cls(y, m, d, H, M, S, us, tz)


def gen_der(c):
    y, m, d, H, M, S, us = c
    f = ('.%06d' % us).rstrip('0').rstrip('.') if us else ''
    return ref.tlv(0, 0, 24, ('%04d%02d%02d%02d%02d%02d%sZ' % (y, m, d, H, M, S, f)).encode())


def utc_der(c):
    y, m, d, H, M, S, us = c
    return ref.tlv(0, 0, 23, ('%02d%02d%02d%02d%02d%02dZ' % (y % 100, m, d, H, M, S)).encode())


def check_value(g, cls, obj, der, us):
    g.eq(obj.dump(), der, 'dump of a constructed time')
    g.eq(instant(g, obj.native), us, 'instant of the native value')
    b = cls.load(der)
    if g.draw(3) == 2:
        b = b.copy()
    g.true(type(b) is cls, 'type')
    g.eq(instant(g, b.native), us, 'instant after load')
    g.eq(b.dump(), der, 'dump after load')
    g.eq(b.dump(force=True), der, 'forced dump')
    g.eq(instant(g, b.native), us, 'instant after forced dump')
    g.true(b.native.tzinfo is not None, 'the native value has a zone')
    n = b.native
    g.true(isinstance(n, util.extended_datetime if n.year == 0 else datetime), 'native type', got=type(n))
    return b


@check.prop(25000, 500000)
def generalized(g):
    y, m, d, H, M, S = gen_civil(g)
    off, us = gen_offset(g), gen_us(g)
    v = py(y, m, d, H, M, S, us, zone(g, off))
    g.log('GeneralizedTime', v)
    exact = usec(y, m, d, H, M, S, us, off)
    if not 0 <= exact <= MAX_US:
        # before year 0 or after 9999 in UTC: no encoding exists
        try:
            o = core.GeneralizedTime(v)
        except ValueError:
            return
        g.fail('an instant outside years 0-9999 was encoded', encoding=o.dump())
    if y > 0 and civil(exact)[0] == 0:
        # year 1 with an offset that reaches into year 0 may be refused, not altered
        try:
            o = core.GeneralizedTime(v)
        except ValueError:
            return
    else:
        o = core.GeneralizedTime(v)
    check_value(g, core.GeneralizedTime, o, gen_der(civil(exact)), exact)
    o2 = core.GeneralizedTime(datetime(2001, 2, 3, tzinfo=UTC))
    if g.draw(2):
        o2.native
    o2.set(v)
    g.eq(o2.dump(), gen_der(civil(exact)), 'dump after set()')
    g.eq(instant(g, o2.native), exact, 'native after set()')
    if off or us or y < 1000:
        g.nontrivial(repr(v))
        g.sample('GeneralizedTime(%s)' % v)


@check.prop(25000, 500000)
def utc(g):
    y, m, d, H, M, S = gen_civil(g, 1940, 2060)
    off, us = gen_offset(g), gen_us(g)
    v = py(y, m, d, H, M, S, us, zone(g, off))
    g.log('UTCTime', v)
    exact = usec(y, m, d, H, M, S, us, off)
    c = civil(exact)
    prev = core.UTCTime(datetime(1999, 12, 31, 1, 2, 3, tzinfo=UTC))
    if g.draw(2):
        prev.native
    if not 1950 <= c[0] <= 2049:
        for f in (lambda: core.UTCTime(v), lambda: prev.set(v)):
            try:
                f()
            except ValueError:
                continue
            g.fail('a year outside 1950-2049 was encoded as UTCTime')
        g.eq(instant(g, prev.native), usec(1999, 12, 31, 1, 2, 3, 0, 0), 'value after a refused set()')
        g.eq(prev.dump(), ref.tlv(0, 0, 23, b'991231010203Z'), 'encoding after a refused set()')
        g.label('refused')
    else:
        # the type has whole seconds
        whole = exact - exact % 1000000
        check_value(g, core.UTCTime, core.UTCTime(v), utc_der(c), whole)
        prev.set(v)
        g.eq(prev.dump(), utc_der(c), 'dump after set()')
        g.eq(instant(g, prev.native), whole, 'native after set()')
    if off or y in (1949, 1950, 2049, 2050):
        g.nontrivial(repr(v))
        g.sample('UTCTime(%s)' % v)


def spell_offset(g, off, with_minutes):
    if off == 0 and g.draw(3):
        return 'Z'
    a = abs(off)
    s = ('+' if off >= 0 else '-') + '%02d' % (a // 60)
    if with_minutes or a % 60 or g.draw(2):
        s += '%02d' % (a % 60)
    return s


def load_any(g, tag, text, cls):
    """the same octets through a plain, segmented or long-form encoding"""
    node = ref.Node(0, tag, 'string', text.encode(), seg_tag=g.choice([tag, 4]))
    sp = ref.Ber(g, rate=5)
    ber = sp.spell(node)
    g.log(ber)
    return cls.load(ber), ber, sp


@check.prop(30000, 600000)
def spellings(g):
    """BER forms of GeneralizedTime"""
    y, m, d, H, M, S = gen_civil(g)
    form = g.draw(3)
    base = '%04d%02d%02d%02d' % (y, m, d, H)
    unit = 3600
    if form < 2:
        base += '%02d' % M
        unit = 60
    else:
        M = 0
    if form == 0:
        base += '%02d' % S
        unit = 1
    else:
        S = 0
    frac = Fraction(0)
    ftext = ''
    if g.draw(3):
        nd = g.choice([1, 2, 3, 6, 7, 9, 12])
        digits = g.draw(10 ** nd)
        if g.draw(6) == 5:
            digits = 10 ** nd - 1
        ftext = g.choice(['.', ',']) + str(digits).zfill(nd)
        frac = Fraction(digits, 10 ** nd) * unit
    off = gen_offset(g)
    text = base + ftext + spell_offset(g, off, False)
    g.log('GeneralizedTime', text)
    exact = usec(y, m, d, H, M, S, 0, off) + frac * 1000000
    o, ber, sp = load_any(g, 24, text, core.GeneralizedTime)
    try:
        n = o.native
    except ValueError:
        if exact + 1 > MAX_US or y == 9999 and m == 12 and d == 31:
            return
        raise
    diff = abs(instant(g, n) - exact)
    g.true(diff <= 1 if (frac * 1000000).denominator > 1 else diff == 0, 'instant denoted by the text', native=n, off_by_us=float(diff))
    if not sp.used.get('segment'):
        g.eq(o.dump(), ber, 'dump of an unmodified value')
    c = civil(instant(g, n)) if 0 <= instant(g, n) <= MAX_US else None
    if c is not None and (n.year == 0 or c[0] > 0):
        g.eq(o.dump(force=True), gen_der(c), 'forced dump is canonical')
        g.eq(instant(g, o.native), instant(g, n), 'instant after forced dump')
    g.nontrivial(text)
    g.sample(text)


@check.prop(15000, 300000)
def local_times(g):
    """no zone: a naive local time"""
    y, m, d, H, M, S = gen_civil(g)
    form = g.draw(3)
    base = '%04d%02d%02d%02d' % (y, m, d, H)
    if form < 2:
        base += '%02d' % M
    else:
        M = 0
    if form == 0:
        base += '%02d' % S
    else:
        S = 0
    us = 0
    ft = ''
    if form == 0:
        us = gen_us(g)
        ft = ('.%06d' % us) if us else ''
    text = base + ft
    g.log(text)
    o, ber, sp = load_any(g, 24, text, core.GeneralizedTime)
    n = o.native
    g.true(n.tzinfo is None, 'a time without a zone is naive')
    g.eq(instant(g, n), usec(y, m, d, H, M, S, us, 0), 'fields of a naive time')
    if not sp.used.get('segment'):
        g.eq(o.dump(), ber, 'dump')
    try:
        o.set(n)
    except ValueError:
        pass
    else:
        g.fail('a naive time was accepted by set()')
    g.eq(instant(g, o.native), usec(y, m, d, H, M, S, us, 0), 'value after a refused set()')
    for cls in (core.UTCTime, core.GeneralizedTime):
        try:
            cls(n if y else datetime(2000, m, min(d, 28)))
        except (ValueError, TypeError):
            continue
        g.fail('a naive time was accepted', type=cls.__name__)
    g.nontrivial(text)


@check.prop(25000, 500000)
def utc_spellings(g):
    y, m, d, H, M, S = gen_civil(g, 1950, 2049)
    text = '%02d%02d%02d%02d%02d' % (y % 100, m, d, H, M)
    if g.draw(2):
        text += '%02d' % S
    else:
        S = 0
    off = gen_offset(g)
    text += spell_offset(g, off, True)
    g.log('UTCTime', text)
    exact = usec(y, m, d, H, M, S, 0, off)
    o, ber, sp = load_any(g, 23, text, core.UTCTime)
    n = o.native
    g.eq(instant(g, n), exact, 'instant denoted by the text', native=n)
    if not sp.used.get('segment'):
        g.eq(o.dump(), ber, 'dump of an unmodified value')
    c = civil(exact)
    if 1950 <= c[0] <= 2049:
        g.eq(o.dump(force=True), utc_der(c), 'forced dump is canonical')
        g.eq(instant(g, o.native), exact, 'instant after forced dump')
    s = core.UTCTime(text)
    g.eq(s.dump(), ref.tlv(0, 0, 23, text.encode()), 'text is kept as given')
    g.eq(instant(g, s.native), exact, 'instant of a time set from text')
    g.nontrivial(text)
    g.sample(text)


@check.prop(20000, 400000)
def malformed(g):
    """strings that are not times"""
    isutc = g.draw(2)
    y, m, d, H, M, S = gen_civil(g, 1950, 2049)
    Y = '%02d' % (y % 100) if isutc else '%04d' % y
    z = g.choice(['Z', '+0000', '-0130'])
    kind = g.draw(13)
    if kind == 0:
        text = Y + '%02d%02d%02d%02d%02d' % (g.choice([0, 13, 14, 99]), d, H, M, S) + z
    elif kind == 1:
        text = Y + '%02d%02d%02d%02d%02d' % (m, g.choice([0, mdays(y, m) + 1, 32, 99]), H, M, S) + z
    elif kind == 2:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, g.choice([24, 25, 99]), M, S) + z
    elif kind == 3:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, g.choice([60, 61, 99]), S) + z
    elif kind == 4:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, g.choice([61, 62, 99])) + z
    elif kind == 5:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + g.choice(['+24', '-25', '+99']) + '00'
    elif kind == 6:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + g.choice(['z', 'ZZ', 'Z ', ' Z', '+', '-1', '+1', '+123', '+12345', 'Z\n', '+0000\n', 'Z\x00', 'UTC', ' +0000'])
    elif kind == 7:
        text = g.choice(['', ' ', '+', '-']) + Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + z
        if text[0].isdigit():
            text = 'x' + text
    elif kind == 8:
        full = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S)
        text = full[:g.draw(10 if not isutc else 10)] + z
        if isutc is False and len(text) - len(z) == 10:
            text = 'Z'
    elif kind == 9:
        full = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + z
        i = g.draw(len(full) - len(z))
        text = full[:i] + g.choice([' ', 'a', '/', ':', '.', '-', '\xb2', '\xbd']) + full[i + 1:]
        if not isutc and i in (10, 12) and full[:i] and text[i] == '.':
            text = 'a' + text
    elif kind == 10:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + g.choice(['.Z', ',Z', '.+0000', '.5.5Z', '.5', '.a5Z'])
        if text.endswith('.5'):
            if not isutc:
                text += ' '
    elif kind == 11:
        text = Y + '%02d%02d%02d%02d%02d' % (m, d, H, M, S) + '%02d' % g.draw(100) + z
    else:
        text = ''.join(g.choice('0123456789Z+-.,') for _ in range(g.draw(9)))
    if isutc and kind == 10:
        text = text.rstrip()
    g.log('UTCTime' if isutc else 'GeneralizedTime', text)
    cls = core.UTCTime if isutc else core.GeneralizedTime
    o = cls.load(ref.tlv(0, 0, 23 if isutc else 24, text.encode('latin1')))
    for _ in range(2):
        try:
            n = o.native
        except ValueError:
            continue
        g.fail('a malformed time was read', text=text, native=n)
    g.eq(o.dump(), ref.tlv(0, 0, 23 if isutc else 24, text.encode('latin1')), 'dump of an unmodified value')
    try:
        o.dump(force=True)
    except ValueError:
        pass
    else:
        g.fail('a malformed time was re-encoded')
    g.eq(o.dump(), ref.tlv(0, 0, 23 if isutc else 24, text.encode('latin1')), 'dump after a refused forced dump')
    g.nontrivial((isutc, text))
    g.sample(text)


@check.prop(10000, 200000)
def choices(g):
    """time choices keep the form they hold"""
    y, m, d, H, M, S = gen_civil(g, 1950, 2049)
    off = gen_offset(g)
    exact = usec(y, m, d, H, M, S, 0, off)
    c = civil(exact)
    if not 1950 <= c[0] <= 2049:
        return
    cls, gname = g.choice([(x509.Time, 'general_time'), (cms.Time, 'generalized_time')])
    v = py(y, m, d, H, M, S, 0, zone(g, off))
    g.log(cls.__module__, v)
    for name, der in (('utc_time', utc_der(c)), (gname, gen_der(c))):
        for t in (cls(name, v), cls({name: v}), cls((name, v)), cls.load(der)):
            g.eq(t.dump(), der, 'dump', name=name)
            g.eq(t.name, name, 'name')
            g.eq(instant(g, t.native), exact, 'instant')
    val = x509.Validity({'not_before': x509.Time('utc_time', v), 'not_after': x509.Time('general_time', v)})
    want = ref.seq(utc_der(c), gen_der(c))
    g.eq(val.dump(), want, 'validity')
    b = x509.Validity.load(want)
    g.eq([instant(g, b['not_before'].native), instant(g, b['not_after'].native)], [exact, exact], 'validity instants')
    g.nontrivial(repr(v))
