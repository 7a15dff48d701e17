"""C16: integer, zone and year-zero helpers against exact arithmetic."""
import os
import time
from datetime import date, datetime, timedelta, timezone, tzinfo

from lib.pbt import Check
from lib import ref
from checks.c15 import days, usec, civil, leap, mdays, gen_civil, gen_offset, gen_us, gen_year, instant, MAX_US
from asn1crypto import util

check = Check('C16', rule=(
    'integers log-uniform to 4096 bits with boundary bias, every width from 0 to a few octets beyond the minimum, both signednesses; '
    'octet strings up to 520 octets; pairs of year-zero and ordinary dates and times over all offsets and zones with two offsets a year, shifted by up to 10000 years. '
    'The oracle is base-256 and day-number arithmetic written here. Non-trivial: negative or multi-octet integer, explicit width, or a '
    'date pair that is not equal; distinct by value.'))

UTC = timezone.utc


def big(g):
    k = g.draw(5)
    if k == 0:
        return g.signed(9)
    if k == 1:
        b = 8 * (1 + g.draw(40))
        v = ((1 << b) + g.draw(5) - 2) >> g.draw(2)
        return -v if g.draw(2) else v
    if k == 2:
        return g.signed(4096)
    return g.signed(200)


def digits(v, n):
    out = []
    for _ in range(n):
        out.append(v % 256)
        v //= 256
    return bytes(reversed(out))


@check.prop(100000, 2000000)
def integers(g):
    v = big(g)
    signed = bool(g.draw(2))
    g.log('int', v, 'signed', signed)
    if v < 0 and not signed:
        try:
            r = util.int_to_bytes(v)
        except (OverflowError, ValueError):
            return
        g.fail('a negative number was converted to unsigned octets', got=r)
    if signed:
        want = ref.int_content(v)
    else:
        want = ref.uint_content(v) or b'\x00'
    got = util.int_to_bytes(v, signed=signed)
    g.eq(got, want, 'minimal octets')
    g.eq(util.int_from_bytes(got, signed=signed), v, 'back from octets')
    w = g.choice([len(want), len(want) + 1, len(want) + g.draw(12), max(0, len(want) - 1), g.draw(len(want) + 2)])
    need = 0 if v == 0 else len(want)
    if v < 0:
        # int.to_bytes(0) of CPython 3.12 accepts -1; no caller asks for that
        w = max(w, 1)
    g.log('width', w)
    if w < need:
        try:
            r = util.int_to_bytes(v, signed=signed, width=w)
        except (OverflowError, ValueError):
            pass
        else:
            g.fail('a number was squeezed into too few octets', width=w, got=r)
    else:
        r = util.int_to_bytes(v, signed=signed, width=w)
        g.eq(r, digits(v, w), 'octets at a requested width', width=w)
        g.eq(util.int_from_bytes(r, signed=signed), v, 'back from fixed-width octets')
    if abs(v) > 255:
        g.nontrivial((v, signed, w))
        g.sample('%d signed=%s width=%d' % (v, signed, w) if abs(v) < 1 << 100 else '%d bits' % v.bit_length())


@check.prop(60000, 1000000)
def octets(g):
    b = g.bytes(0, 40) if g.draw(10) else g.nbytes(g.choice([126, 127, 128, 255, 256, 257, 520]))
    g.log(b)
    u = 0
    for x in b:
        u = u * 256 + x
    g.eq(util.int_from_bytes(b), u, 'unsigned value')
    s = u - (1 << (8 * len(b))) if b and b[0] & 0x80 else u
    g.eq(util.int_from_bytes(b, signed=True), s, 'signed value')
    g.eq(util.int_to_bytes(u, width=len(b)), b, 'octets of the unsigned value')
    if b:
        g.eq(util.int_to_bytes(s, signed=True, width=len(b)), b, 'octets of the signed value')
    if len(b) > 1:
        g.nontrivial(b)


def zero_dt(g):
    """(extended_datetime, fields, offset minutes or None)"""
    _, m, d, H, M, S = gen_civil(g)
    d = min(d, mdays(0, m))
    if g.draw(6) == 5:
        m, d = 2, 29
    us = gen_us(g)
    off = gen_offset(g) if g.draw(4) else None
    tz = None if off is None else timezone(timedelta(minutes=off)) if g.draw(2) else util.create_timezone(timedelta(minutes=off))
    return util.extended_datetime(0, m, d, H, M, S, us, tz), (0, m, d, H, M, S, us), off


def any_dt(g):
    if g.draw(2):
        return zero_dt(g)
    y, m, d, H, M, S = gen_civil(g)
    if y == 0:
        y = 1 + g.draw(9999)
        d = min(d, mdays(y, m))
    if g.draw(3) == 2:
        y, m, d, H = 1, 1, 1, g.draw(24)
    us = gen_us(g)
    off = gen_offset(g) if g.draw(4) else None
    tz = None if off is None else timezone(timedelta(minutes=off))
    return datetime(y, m, d, H, M, S, us, tz), (y, m, d, H, M, S, us), off


def exact(f, off):
    return usec(*f, off or 0)


def cmp_all(g, a, b, c, what):
    """c: sign of a-b by the model"""
    g.eq((a < b, a <= b, a > b, a >= b, a == b, a != b), (c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0), what, a=a, b=b)


@check.prop(50000, 1000000)
def datetimes(g):
    a, fa, oa = zero_dt(g)
    b, fb, ob = any_dt(g)
    g.log(a, b)
    g.eq((a.year, a.month, a.day, a.hour, a.minute, a.second, a.microsecond), fa, 'fields')
    g.eq(a.utcoffset(), None if oa is None else timedelta(minutes=oa), 'utcoffset')
    g.eq(a.tzinfo is None, oa is None, 'tzinfo')
    g.eq(a.time(), datetime(2000, *fa[1:]).time(), 'time()')
    dd = a.date()
    g.true(isinstance(dd, util.extended_date) and (dd.year, dd.month, dd.day) == fa[:3], 'date()', got=dd)
    # formatting
    sep = g.choice(['T', ' ', 't', '_'])
    iso = '0000-%02d-%02d%s%02d:%02d:%02d' % (fa[1], fa[2], sep, fa[3], fa[4], fa[5])
    if fa[6]:
        iso += '.%06d' % fa[6]
    if oa is not None:
        iso += '%s%02d:%02d' % ('-' if oa < 0 else '+', abs(oa) // 60, abs(oa) % 60)
    g.eq(a.isoformat(sep=sep), iso, 'isoformat')
    g.eq(str(a), iso[:10] + ' ' + iso[11:], 'str()')
    g.eq(a.strftime('%Y|%m|%d|%H|%M|%S|%f'), '0000|%02d|%02d|%02d|%02d|%02d|%06d' % fa[1:], 'strftime')
    doy = days(*fa[:3]) + 1
    g.eq(a.strftime('%j %y'), '%03d 00' % doy, 'day of the year')
    # 0000-01-01 is a Saturday in the proleptic Gregorian calendar
    g.eq(a.strftime('%w'), str((days(*fa[:3]) + 6) % 7), 'day of the week')
    lit = g.choice(['2 4 ', '20', '4', '1999'])
    g.eq(a.strftime(lit + '%Y' + lit), lit + '0000' + lit, 'literal text in a format')
    # comparison, subtraction
    if (oa is None) != (ob is None):
        g.eq((a == b, a != b), (False, True), 'naive and aware are unequal')
        for f in (lambda: a < b, lambda: a - b, lambda: b - a, lambda: a >= b, lambda: b > a):
            try:
                f()
            except TypeError:
                continue
            g.fail('naive and aware times were ordered or subtracted')
    else:
        diff = exact(fa, oa) - exact(fb, ob)
        cmp_all(g, a, b, diff, 'comparison')
        cmp_all(g, b, a, -diff, 'comparison the other way')
        g.eq(a - b, timedelta(microseconds=diff), 'difference')
        g.eq(b - a, timedelta(microseconds=-diff), 'difference the other way')
        if diff:
            g.nontrivial((fa, oa, fb, ob))
            g.sample('%s vs %s' % (a, b))
    for other in (None, 'x', 5, date(2000, 1, 1)):
        g.eq((a == other, a != other), (False, True), 'equality with something else')
        for f in (lambda: a < other, lambda: a >= other):
            try:
                f()
            except TypeError:
                continue
            g.fail('ordered against something else', other=other)
    # zones
    if oa is not None:
        no = gen_offset(g)
        c = civil(exact(fa, oa) + no * 60000000) if exact(fa, oa) + no * 60000000 >= 0 else None
        tz = util.create_timezone(timedelta(minutes=no))
        if c is None:
            try:
                r = a.astimezone(tz)
            except (ValueError, OverflowError):
                pass
            else:
                g.fail('a time before year 0 was produced', got=r)
        else:
            r = a.astimezone(tz)
            g.true(isinstance(r, util.extended_datetime if c[0] == 0 else datetime), 'type after astimezone', got=r)
            g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), c, 'fields after astimezone', offset=no)
            g.eq(r.utcoffset(), timedelta(minutes=no), 'offset after astimezone')
            g.true(r == a and a == r, 'astimezone keeps the instant')
        unix = (exact(fa, oa) - days(1970, 1, 1) * 86400000000) / 1e6
        g.true(abs(a.timestamp() - unix) < 1e-3, 'timestamp()', got=a.timestamp(), want=unix)


@check.prop(6000, 100000)
def local(g):
    """a year-zero time without an offset, read in the local zone of the machine"""
    a, fa, oa = zero_dt(g)
    a = a.replace(tzinfo=None)
    off = g.choice([0, 60, -60, 330, -720, 840, -210, 5, -1, g.draw(1440) - 720])
    no = gen_offset(g)
    g.log('local offset', off, 'time', str(a))
    before = os.environ.get('TZ')
    os.environ['TZ'] = 'XYZ%s%02d:%02d' % ('-' if off >= 0 else '+', abs(off) // 60, abs(off) % 60)
    time.tzset()
    try:
        unix = (exact(fa, off) - days(1970, 1, 1) * 86400000000) / 1e6
        g.true(abs(a.timestamp() - unix) < 1e-3, 'timestamp()', got=a.timestamp(), want=unix)
        us = exact(fa, off) + no * 60000000
        if us >= 0:
            c = civil(us)
            r = a.astimezone(util.create_timezone(timedelta(minutes=no)))
            g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), c, 'fields after astimezone')
            g.eq(r.utcoffset(), timedelta(minutes=no), 'offset after astimezone')
        g.eq(str(a), '0000-%02d-%02d %02d:%02d:%02d' % fa[1:6] + ('.%06d' % fa[6] if fa[6] else ''), 'str()')
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()
    if off:
        g.nontrivial((fa, off, no))
        g.sample('%s at local offset %d' % (a, off))


@check.prop(40000, 800000)
def shifts(g):
    a, fa, oa = zero_dt(g)
    k = g.draw(4)
    if k == 0:
        delta = g.signed(40)
    elif k == 1:
        delta = g.signed(60) % (366 * 86400000000)
    elif k == 2:
        delta = (g.draw(3700000) - 10000) * 86400000000 + (g.draw(86400000000) if g.draw(3) else 0)
    else:
        delta = g.choice([-1, 0, 1, 86400000000, -86400000000, 366 * 86400000000, 365 * 86400000000])
    td = timedelta(microseconds=delta)
    g.log(a, td)
    us = usec(*fa, 0) + delta
    for sign in (1, -1):
        try:
            r = a + td if sign == 1 else a - (-td)
        except (ValueError, OverflowError):
            if 0 <= us <= MAX_US:
                raise
            continue
        g.true(0 <= us <= MAX_US, 'a time outside years 0-9999 was produced', got=r)
        c = civil(us)
        g.true(isinstance(r, util.extended_datetime if c[0] == 0 else datetime), 'type after a shift', got=r)
        g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), c, 'fields after a shift')
        g.eq(r.tzinfo is None, oa is None, 'zone after a shift')
        g.eq(r - a, td, 'difference of a shift')
    if delta:
        g.nontrivial((fa, delta))
        g.sample('%s + %s' % (a, td))


@check.prop(30000, 600000)
def dates(g):
    _, m, d, _, _, _ = gen_civil(g)
    d = min(d, mdays(0, m))
    a = util.extended_date(0, m, d)
    g.eq((a.year, a.month, a.day), (0, m, d), 'fields')
    g.eq((a.isoformat(), str(a), a.strftime('%d.%m.%Y')), ('0000-%02d-%02d' % (m, d),) * 2 + ('%02d.%02d.0000' % (d, m),), 'text')
    g.eq(a.strftime('%j'), '%03d' % (days(0, m, d) + 1), 'day of the year')
    _, m2, d2, _, _, _ = gen_civil(g)
    if g.draw(2):
        d2 = min(d2, mdays(0, m2))
        b, f = util.extended_date(0, m2, d2), (0, m2, d2)
    else:
        y2 = 1 + g.draw(9999)
        d2 = min(d2, mdays(y2, m2))
        b, f = date(y2, m2, d2), (y2, m2, d2)
    g.log(a, b)
    diff = days(0, m, d) - days(*f)
    cmp_all(g, a, b, diff, 'comparison')
    cmp_all(g, b, a, -diff, 'comparison the other way')
    for other in (None, 'x', 5):
        g.eq((a == other, a != other), (False, True), 'equality with something else')
        try:
            a < other
        except TypeError:
            continue
        g.fail('ordered against something else')
    # replace
    y3, m3, d3 = g.choice([None, 0, 1, 4, 1999, 2000]), g.choice([None, 1, 2, 12, 13]), g.choice([None, 1, 28, 29, 30, 31])
    want = (0 if y3 is None else y3, m if m3 is None else m3, d if d3 is None else d3)
    ok = 1 <= want[1] <= 12 and 1 <= want[2] <= mdays(want[0], want[1])
    kw = {}
    if y3 is not None:
        kw['year'] = y3
    if m3 is not None:
        kw['month'] = m3
    if d3 is not None:
        kw['day'] = d3
    h = util.extended_datetime(0, m, d, 5, 6, 7, 8)
    for o in (a, h):
        try:
            r = o.replace(**kw)
        except ValueError:
            g.true(not ok, 'replace() refused a valid date', args=kw, obj=o)
            continue
        g.true(ok, 'replace() made an impossible date', args=kw, got=r)
        g.eq((r.year, r.month, r.day), want, 'replace()')
        if o is h:
            g.eq((r.hour, r.minute, r.second, r.microsecond), (5, 6, 7, 8), 'replace() keeps the time')
            g.true(isinstance(r, util.extended_datetime if want[0] == 0 else datetime), 'replace() type')
        else:
            g.true(isinstance(r, util.extended_date if want[0] == 0 else date), 'replace() type')
    r = h.replace(hour=23, minute=59, tzinfo=UTC)
    g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo), (0, m, d, 23, 59, 7, 8, UTC), 'replace() of time fields')
    for args in ((1, m, d), (2000, m, d), (0, 13, 1), (0, 0, 1), (0, m, mdays(0, m) + 1), (0, m, 0)):
        for c in (util.extended_date, util.extended_datetime):
            try:
                r = c(*args)
            except ValueError:
                continue
            g.fail('an impossible or non-zero year was accepted', args=args, got=r)
    if diff:
        g.nontrivial((m, d, f))


class Seasonal(tzinfo):
    """a zone whose offset depends on the month"""

    def __init__(self, winter, summer):
        self.winter, self.summer = winter, summer

    def minutes(self, month):
        return self.summer if 4 <= month <= 9 else self.winter

    def utcoffset(self, dt):
        return None if dt is None else timedelta(minutes=self.minutes(dt.month))

    def dst(self, dt):
        return None if dt is None else timedelta(minutes=self.minutes(dt.month) - self.winter)

    def tzname(self, dt):
        return None if dt is None else 'summer' if 4 <= dt.month <= 9 else 'winter'


@check.prop(10000, 200000)
def seasons(g):
    """a zone whose offset is another one in summer"""
    _, f, _ = zero_dt(g)
    w = gen_offset(g)
    w = max(-1300, min(1300, w))
    z = Seasonal(w, w + g.choice([60, 60, 30, 120, -60]))
    a = util.extended_datetime(*(f + (z,)))
    off = z.minutes(f[1])
    g.log('fields', f, 'offsets', z.winter, z.summer)
    g.eq(a.utcoffset(), timedelta(minutes=off), 'offset')
    iso = '0000-%02d-%02dT%02d:%02d:%02d' % f[1:6] + ('.%06d' % f[6] if f[6] else '') + '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    g.eq(a.isoformat(), iso, 'isoformat()')
    g.eq(str(a), iso.replace('T', ' '), 'str()')
    us = exact(f, off)
    unix = (us - days(1970, 1, 1) * 86400000000) / 1e6
    g.true(abs(a.timestamp() - unix) < 1e-3, 'timestamp()', got=a.timestamp(), want=unix)
    if us >= 0:
        r = a.astimezone(util.timezone.utc)
        g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), civil(us), 'fields after astimezone')
        cmp_all(g, a, r, 0, 'comparison with itself in another zone')
    b, fb, ob = any_dt(g)
    if ob is not None:
        c = us - exact(fb, ob)
        cmp_all(g, a, b, c, 'comparison')
        cmp_all(g, b, a, -c, 'comparison the other way')
        g.eq(a - b, timedelta(microseconds=c), 'difference')
    # whole days of wall time later, perhaps in the other season
    n = g.draw(366)
    us = usec(*f, 0) + n * 86400000000
    r = a + timedelta(days=n)
    c = civil(us)
    g.eq((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), c, 'fields some days later')
    g.eq(r.utcoffset(), timedelta(minutes=z.minutes(c[1])), 'offset some days later')
    g.nontrivial((f, z.winter, z.summer))
    g.sample(iso)


@check.prop(3000, 3000)
def zones(g):
    """every whole-minute offset"""
    m = g.enum(3000) - 1500
    g.log('offset', m)
    td = timedelta(minutes=m)
    if abs(m) >= 1440:
        try:
            util.create_timezone(td)
        except ValueError:
            return
        g.fail('an offset of a day or more was accepted')
    z = util.create_timezone(td)
    dt = datetime(2020, 1, 1, tzinfo=z)
    g.eq(dt.utcoffset(), td, 'offset of the zone')
    g.true(util.create_timezone(td) == z, 'same zone again')
    g.eq(util.utc_with_dst.utcoffset(dt), timedelta(0), 'UTC offset')
    g.eq(util.utc_with_dst.dst(dt), timedelta(0), 'UTC dst')
    g.eq(util.utc_with_dst.tzname(dt), 'UTC', 'UTC name')
    g.nontrivial(m)
