"""C30: native values a type cannot represent are refused and nothing changes."""
import copy
import datetime
import decimal
import re

from lib.pbt import Check
from lib import ref, model, graph
from lib.model import POOL, ABSENT, Union, AnyOf, Record, ListOf, Prim
from checks.c08 import show
from checks.c10 import tagging, notation
from asn1crypto import core

check = Check('C30', rule=(
    'objects of every scalar class (tagged or not, built or loaded, read or encoded before) assigned or constructed from a universe of Python '
    'values of every built-in kind; values of generated schemas with one part at a random depth replaced by something its type cannot '
    'represent, given to constructors and assignments; missing members. Oracle: an explicit table of what each class represents; after a refusal the '
    'octets and native value of before. Non-trivial: the value is refused, or accepted with a native value equal to it; distinct by class, '
    'value and history.'))


class NamedInt(core.Integer):
    _map = {1: 'one', 5: 'five', -3: 'minus'}


class Enum(core.Enumerated):
    _map = {1: 'one', 5: 'five', 200: 'many'}


class NamedBits(core.BitString):
    _map = {0: 'a', 3: 'd', 9: 'j'}


class MappedOid(core.ObjectIdentifier):
    _map = {'1.2.3': 'three', '2.999.1': 'big'}


UTC = datetime.timezone.utc
TABLE_INT = {1: 'one', 5: 'five', -3: 'minus'}
TABLE_ENUM = {1: 'one', 5: 'five', 200: 'many'}
TABLE_BITS = {0: 'a', 3: 'd', 9: 'j'}
TABLE_OID = {'1.2.3': 'three', '2.999.1': 'big'}
NAMES = ['one', 'five', 'minus', 'many', 'a', 'd', 'j', 'three', 'big', 'ONE', 'one ', 'nothing', '']


def dotted(v, least=1):
    return re.match(r'\A\d+(\.\d+)*\Z', v, re.A) is not None


def oid_ok(v):
    if not isinstance(v, str):
        return False
    if v in TABLE_OID.values():
        return None
    if not dotted(v) or '.' not in v:
        return False
    arcs = [int(x) for x in v.split('.')]
    if len(v.split('.')) > 1 and any(len(x) > 1 and x[0] == '0' for x in v.split('.')):
        return None
    return arcs[0] <= 2 and (arcs[0] == 2 or arcs[1] < 40)


def text(codec):
    def judge(v):
        if not isinstance(v, str):
            return False
        try:
            v.encode(codec)
        except UnicodeError:
            return False
        return True, v
    return judge


def j_int(v):
    return isinstance(v, int) and (True, int(v))


def j_nat(v):
    return isinstance(v, int) and v >= 0 and (True, int(v))


def j_bytes(v):
    return isinstance(v, bytes) and (True, v)


def j_named(table):
    rev = dict((n, k) for k, n in table.items())

    def judge(v):
        if isinstance(v, str):
            return v in rev and (True, v)
        if isinstance(v, int):
            return True, table.get(v, int(v))
        return False
    return judge


def j_enum(v):
    if isinstance(v, str):
        return v in TABLE_ENUM.values() and (True, v)
    if isinstance(v, int):
        return v in TABLE_ENUM and (True, TABLE_ENUM[v])
    return False


def j_bits(v):
    if not isinstance(v, tuple):
        return False
    if all(isinstance(x, int) and x in (0, 1) for x in v):
        return True, tuple(int(x) for x in v)
    if all(x in (0, 1) for x in v):
        # equal to ones and zeros
        return None
    return False


def j_namedbits(v):
    if isinstance(v, frozenset):
        return None
    if isinstance(v, (set, frozenset)):
        if all(isinstance(x, str) for x in v):
            return all(x in TABLE_BITS.values() for x in v) and (True, set(v))
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in v):
            return None
        return False
    if isinstance(v, tuple):
        if all(x in (0, 1) for x in v):
            return None
        return False
    return False


def j_oid(v):
    ok = oid_ok(v)
    return None if ok is None else ok and (True, v)


def j_mapped(v):
    if isinstance(v, str) and v in TABLE_OID.values():
        return True, v
    ok = oid_ok(v)
    return None if ok is None else ok and (True, TABLE_OID.get(v, v))


def j_rel(v):
    if not isinstance(v, str) or not dotted(v):
        return False
    if any(len(x) > 1 and x[0] == '0' for x in v.split('.')):
        return None
    return True, v


def j_time(lo, hi):
    def judge(v):
        if isinstance(v, str):
            # an encoded time, decided by C15
            return None
        if not isinstance(v, datetime.datetime):
            return False
        if v.tzinfo is None:
            return False
        u = v.astimezone(UTC) if datetime.datetime(1, 1, 3, tzinfo=UTC) < v < datetime.datetime(9999, 12, 30, tzinfo=UTC) else None
        if u is None:
            return None
        return lo <= u.year <= hi and (True, u)
    return judge


DOMAIN = [
    (core.Integer, j_int, 5, '020105'),
    (core.OctetString, j_bytes, b'ab', '04026162'),
    (core.ObjectIdentifier, j_oid, '1.2.3', '06022a03'),
    (core.UTF8String, text('utf-8'), 'zé', '0c037ac3a9'),
    (core.BitString, j_bits, (1, 0, 1), '030205a0'),
    (NamedInt, j_named(TABLE_INT), 'five', '020105'),
    (Enum, j_enum, 'many', '0a0200c8'),
    (NamedBits, j_namedbits, {'d'}, '03020410'),
    (MappedOid, j_mapped, 'big', '0603883701'),
    (core.RelativeOid, j_rel, '1.2', '0d020102'),
    (core.OctetBitString, j_bytes, b'x', '03020078'),
    (core.IntegerBitString, j_nat, 300, '030300012c'),
    (core.IntegerOctetString, j_nat, 300, '0402012c'),
    (core.ParsableOctetString, j_bytes, b'\x05\x00', '04020500'),
    (core.ParsableOctetBitString, j_bytes, b'\x05\x00', '0303000500'),
    (core.IA5String, text('ascii'), 'q', '160171'),
    (core.BMPString, None, 'q', '1e020071'),
    (core.UniversalString, text('utf-32-be'), 'q', '1c0400000071'),
    (core.VisibleString, text('latin1'), 'q', '1a0171'),
    (core.PrintableString, text('latin1'), 'q', '130171'),
    (core.NumericString, text('latin1'), '7', '120137'),
    (core.TeletexString, None, 'q', '140171'),
    (core.GeneralString, text('latin1'), 'q', '1b0171'),
    (core.GraphicString, text('latin1'), 'q', '190171'),
    (core.UTCTime, j_time(1950, 2049), datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC), '170d3031303230333034303530365a'),
    (core.GeneralizedTime, j_time(0, 9999), datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC), '180f32303031303230333034303530365a'),
]


class Odd(object):
    def __repr__(self):
        return 'Odd()'


def universe(g):
    k = g.draw(20)
    if k == 0:
        return g.choice(NAMES)
    if k == 1:
        return g.signed(g.choice([3, 8, 16, 70]))
    if k == 2:
        return g.bytes(0, 4)
    if k == 3:
        return g.text('1209.aé漢\n \x80\ud800\U0001f600', 0, 5)
    if k == 4:
        return tuple(g.draw(g.choice([2, 2, 3])) for _ in range(g.draw(6)))
    if k == 5:
        return g.choice([set, frozenset])(g.choice(NAMES[:8] + [1, 2, None]) for _ in range(g.draw(3)))
    if k == 6:
        return g.choice([1.0, 0.0, 2.5, float('nan'), float('inf'), decimal.Decimal(3), complex(1, 0)])
    if k == 7:
        return g.choice([True, False])
    if k == 8:
        return [universe(g) for _ in range(g.draw(3))]
    if k == 9:
        return dict((g.choice(NAMES[:4]), g.draw(3)) for _ in range(g.draw(3)))
    if k == 10:
        return g.choice([bytearray(b'ab'), memoryview(b'ab'), bytearray()])
    if k == 11:
        tz = g.choice([None, UTC, datetime.timezone(datetime.timedelta(minutes=g.int(-1439, 1439)))])
        return datetime.datetime(g.choice([2000, 1, 1949, 1950, 2049, 2050, 9999, 1600]), 1 + g.draw(12), 1 + g.draw(28), g.draw(24), g.draw(60),
                                 g.draw(60), 0, tz)
    if k == 12:
        return g.choice([datetime.date(2000, 1, 2), datetime.time(1, 2), datetime.timedelta(1)])
    if k == 13:
        arcs = [g.draw(5), g.choice([g.draw(45), 39, 40, 999])] + [g.draw(g.choice([5, 1 << 70])) for _ in range(g.draw(3))]
        return '.'.join(map(str, arcs[:g.draw(6) or 2]))
    if k == 14:
        return g.choice(['1.2.', '.1.2', '1..2', '1.-2', '1.2a', ' 1.2', '1.2\n', '1_0.2', '+1.2', '１.２', '1', '', '1.2.03', '٣.1'])
    if k == 15:
        return g.choice([object, int, Odd(), len, Ellipsis, NotImplemented])
    if k == 16:
        return tuple(g.choice(['1', '0', 'a', None, 1.0, -1, 2, True]) for _ in range(1 + g.draw(3)))
    if k == 17:
        return iter([1, 0])
    if k == 18:
        return (g.choice(NAMES), g.draw(3))
    return range(g.draw(3))


def bmp(v):
    # characters outside of the plane are decided by C14
    if isinstance(v, str) and any(ord(c) > 0xffff for c in v):
        return None
    return text('utf-16-be')(v)


def teletex(v):
    if not isinstance(v, str):
        return False
    if all(31 < ord(c) < 127 and c not in '#$\\^`{|}~' for c in v):
        return True, v
    return None


def snapshot(o):
    return o.dump(), o.native


@check.prop(120000, 1500000)
def values(g):
    cls, judge, start, hexed = g.choice(DOMAIN)
    if cls is core.BMPString:
        judge = bmp
    elif cls is core.TeletexString:
        judge = teletex
    v = universe(g)
    shown = repr(v)
    verdict = judge(v)
    t = tagging(g) if g.draw(4) == 0 else model.Tagging()
    der = bytes.fromhex(hexed)
    info = ref.read(der)
    data = t.apply(ref.Node(0, info.tag, 'prim', info.content)).der()
    g.log('class', cls.__name__, t, 'value', shown)
    k = g.draw(3)
    hist = []
    if k == 0:
        # constructing
        try:
            o = cls(v, **notation(g, t))
        except (ValueError, TypeError, OverflowError) as e:
            if verdict:
                g.fail('a value the type can represent was refused', error=str(e))
            g.nontrivial((cls.__name__, shown, 'new'))
            g.label('refused')
            return
        hist.append('constructed')
    else:
        o = cls.load(data, **notation(g, t)) if k == 1 else cls(start, **notation(g, t))
        hist = [graph.read(g, o) for _ in range(g.draw(3))]
        if g.draw(3) == 0:
            o.set(start)
            hist.append('set')
        try:
            o.set(v)
        except (ValueError, TypeError, OverflowError) as e:
            if verdict:
                g.fail('a value the type can represent was refused', error=str(e), hist=hist)
            if g.draw(2):
                g.eq(o.dump(), data, 'encoding after a refused value', hist=hist)
            if not (cls in (core.ParsableOctetString, core.ParsableOctetBitString) and hist):
                g.eq(o.native, start, 'native after a refused value', hist=hist)
            g.eq(o.dump(), data, 'encoding after a refused value', hist=hist)
            g.eq(o.contents, info.content, 'contents after a refused value', hist=hist)
            g.eq(o.dump(force=True), data, 'forced encoding after a refused value', hist=hist)
            g.eq(o.untag().dump(), der, 'untagged encoding after a refused value', hist=hist)
            g.nontrivial((cls.__name__, shown, tuple(hist)))
            g.label('refused')
            g.sample('%s refuses %s after %s' % (cls.__name__, shown, hist))
            return
        hist.append('assigned')
    if verdict is None:
        g.label('not decided here')
        return
    if verdict is False:
        g.fail('a value the type can not represent was accepted', native=graph.quiet(lambda: o.native), encoded=graph.quiet(lambda: o.dump()),
               hist=hist)
    want = verdict[1]
    again = cls.load(o.dump(), **notation(g, t))
    for n in (o.native, again.native):
        if cls in (core.UTCTime, core.GeneralizedTime):
            g.true(n == want, 'native of an accepted value', got=n, want=want)
        elif not (n == want and type(n) in (type(want), bool)):
            g.fail('native of an accepted value', got=n, want=want, hist=hist)
    g.label('accepted')
    g.nontrivial((cls.__name__, shown, 'accepted'))


# values no type below accepts
BAD = {
    'bytes': [5, 'text', ['x'], Odd(), 1.5],
    'str': [5, b'bytes', ['x'], Odd(), 1.5],
    'int': ['no such name', b'bytes', 1.5, ['x'], Odd()],
    'oid': ['no such name', b'bytes', 1.5, 5, '1.2.x', Odd()],
    'bits': [5, 'text', [1, 0], 1.5, Odd(), (2, 3), ('x',), 0.5],
    'time': [5, b'bytes', Odd(), datetime.datetime(2000, 1, 1), datetime.date(2000, 1, 1)],
    'list': [5, 1.5, Odd()],
    'record': [5, 'text', b'bytes', Odd(), {'no such field': 1}, {0.5: 1}],
    'choice': [5, b'bytes', Odd(), ('no such alternative', 1), {'no such alternative': 1}, (), (1, 2, 3), {}],
    'any': [5, 'text', b'bytes', Odd(), {}],
}


def bad(g, ty):
    """something the type can not represent, or None"""
    cls = ty.cls
    if isinstance(ty, AnyOf):
        kind = 'any'
    elif isinstance(ty, Union):
        kind = 'choice'
    elif isinstance(ty, Record):
        kind = 'record'
    elif isinstance(ty, ListOf):
        kind = 'list'
    elif issubclass(cls, (core.Null, core.Boolean)):
        return None
    elif issubclass(cls, (core.UTCTime, core.GeneralizedTime)):
        kind = 'time'
    elif issubclass(cls, core.AbstractString):
        kind = 'str'
    elif issubclass(cls, core.BitString):
        kind = 'bits'
    elif issubclass(cls, core.ObjectIdentifier):
        kind = 'oid'
    elif issubclass(cls, (core.Integer, core.IntegerOctetString, core.IntegerBitString)):
        kind = 'int'
    else:
        kind = 'bytes'
    return g.choice(BAD[kind])


def corrupt(g, ty, a, depth=0):
    """(native value with one part replaced, description), or None"""
    deeper = []
    if isinstance(ty, Record):
        deeper = [f for f in ty.fields if a[f.name] is not ABSENT]
    elif isinstance(ty, ListOf):
        deeper = list(range(len(a)))
    elif isinstance(ty, Union):
        deeper = [ty.by_name[a[0]]]
    if deeper and g.draw(5):
        at = g.choice(deeper)
        if isinstance(ty, Record):
            sub = corrupt(g, at.ty, a[at.name], depth + 1)
            if sub is None:
                return None
            raw = ty.raw(a)
            raw[at.name] = sub[0]
            return raw, '%s.%s' % (at.name, sub[1])
        if isinstance(ty, ListOf):
            sub = corrupt(g, ty.child, a[at], depth + 1)
            if sub is None:
                return None
            raw = ty.raw(a)
            if isinstance(ty.child, Union) and isinstance(sub[0], tuple) and len(sub[0]) == 2:
                # made by the caller
                return None
            raw[at] = sub[0]
            return raw, '[%d].%s' % (at, sub[1])
        sub = corrupt(g, at.ty, a[1], depth + 1)
        if sub is None:
            return None
        return (a[0], sub[0]), '%s.%s' % (a[0], sub[1])
    v = bad(g, ty)
    if v is None:
        return None
    return v, '= %r instead of %s' % (v, ty.name())


ERRORS = (ValueError, TypeError, KeyError, IndexError, OverflowError)


def containers_of(ty, a, o, out):
    out.append((ty, a, o))
    if isinstance(ty, Record):
        for f in ty.fields:
            if a[f.name] is not ABSENT and isinstance(f.ty, (Record, ListOf)):
                containers_of(f.ty, a[f.name], lambda o=o, f=f: o()[f.name], out)
    elif isinstance(ty, ListOf) and not ty.is_set and isinstance(ty.child, (Record, ListOf)):
        for i in range(len(a)):
            containers_of(ty.child, a[i], lambda o=o, i=i: o()[i], out)
    return out


@check.prop(40000, 600000)
def structures(g):
    ty = POOL.pick(g, want=lambda t: isinstance(t, (Record, ListOf, Union)))
    a = copy.deepcopy(ty.gen(g))
    g.log('type', show(ty), a)
    c = corrupt(g, ty, a)
    if c is not None:
        raw, what = c
        g.log('construct with', what)
        try:
            o = ty.cls(*raw) if isinstance(ty, Union) and isinstance(raw, tuple) and len(raw) == 2 and g.draw(2) else ty.cls(raw)
        except ERRORS:
            g.nontrivial((show(ty), what))
        else:
            # (a list of nothing at all and an empty value are nothing to refuse)
            g.fail('a value that can not be represented was accepted', part=what, encoded=graph.quiet(lambda: o.dump()))
        # the next good value is built as if nothing had happened
        g.eq(ty.obj(g, a).dump(), model.der(ty, a), 'encoding of a good value built after a refused one', refused=what)
    k = g.draw(2)
    o = ty.obj(g, a) if k else ty.cls.load(model.der(ty, a))
    if not k:
        a = model.decoded(ty, a)
    want = model.der(ty, a)
    hist = [graph.read(g, o) for _ in range(g.draw(3))]
    for _ in range(1 + g.draw(3)):
        if isinstance(ty, Union):
            break
        cty, ca, get = g.choice(containers_of(ty, a, lambda: o, []))
        obj = get()
        if isinstance(cty, Record):
            f = g.choice(cty.fields)
            v = f.ty.gen(g, 3)
            c = corrupt(g, f.ty, v)
            if c is None:
                continue
            key = f.name if g.draw(3) else cty.fields.index(f)

            def act():
                obj[key] = c[0]
            what = 'assign field %r %s' % (key, c[1])
        else:
            if not ca or g.draw(3) == 0:
                c = corrupt(g, cty.child, cty.child.gen(g, 3))
                if c is None:
                    continue

                def act():
                    obj.append(c[0])
                what = 'append %s' % c[1]
            else:
                i = g.draw(len(ca))
                c = corrupt(g, cty.child, cty.child.gen(g, 3))
                if c is None:
                    continue

                def act():
                    obj[i] = c[0]
                what = 'assign item %d %s' % (i, c[1])
        g.log(what)
        hist.append(what)
        try:
            act()
        except ERRORS:
            pass
        else:
            g.fail('an assignment that can not be represented was accepted', hist=hist, encoded=graph.quiet(lambda: o.dump()))
        if g.draw(2):
            g.eq(o.dump(), want, 'encoding after a refused assignment', hist=hist)
        if g.draw(2) and 'Parsable' not in show(ty) and not model.matches(ty, a, o.native):
            g.fail('native after a refused assignment', got=o.native, want=ty.nat(a), hist=hist)
        g.nontrivial((want, tuple(hist)))
    g.eq(o.dump(), want, 'encoding at the end', hist=hist)
    if 'Parsable' not in show(ty) and not model.matches(ty, a, o.native):
        g.fail('native at the end', got=o.native, want=ty.nat(a), hist=hist)
    if 'Parsable' not in show(ty):
        g.eq(o.dump(force=True), want, 'forced encoding at the end', hist=hist)
    g.sample('%s: %s' % (show(ty)[:200], hist))


class NumberKind(core.Enumerated):
    _map = {0: 'none', 5: 'five', 300: 'many'}


class TaggedNumber(core.Integer):
    class_ = 3
    tag = 44


class PlainNumber(core.Integer):
    pass


class OtherList(core.SetOf):
    _child_spec = core.Integer


class Items(core.SequenceOf):
    _child_spec = core.Integer


# class of the place, class of the value (a child class of it, or one that shares its content), content octets, may it go there
RELATIVES = [
    (core.Integer, NumberKind, b'\x05', False),
    (core.Integer, NumberKind, b'\x01\x2c', False),
    (core.Integer, PlainNumber, b'\x05', True),
    (PlainNumber, core.Integer, b'\x05', None),
    (core.ObjectIdentifier, core.RelativeOid, b'\x2a\x03', False),
    (core.ObjectIdentifier, model.UserOid, b'\x2a\x03', True),
    (core.ParsableOctetString, core.ParsableOctetBitString, b'\x00\x05\x00', False),
    (core.OctetString, core.VideotexString, b'ab', False),
    (core.OctetString, core.ParsableOctetString, b'ab', None),
    (core.IA5String, core.VisibleString, b'ab', False),
    (core.UTCTime, core.GeneralizedTime, b'200101000000Z', False),
    (core.Integer, core.Boolean, b'\xff', False),
]


@check.prop(15000, 200000)
def relatives(g):
    """objects of a child class that stands for another ASN.1 type are refused wherever the parent class belongs"""
    spec, kind, content, fits = g.choice(RELATIVES)
    t, outer = tagging(g), tagging(g)
    o = kind.load(t.apply(ref.Node(0, kind.tag, 'prim', content)).der(), **notation(g, t))
    where = g.choice(['field', 'built', 'choice', 'choice field', 'list', 'built list', 'append', 'set list', 'set field'])
    g.log(spec.__name__, kind.__name__, content, t, where, outer)
    p = notation(g, outer)
    if g.draw(3) == 0:
        p['optional'] = True
    decl = ('f', spec, p) if p else ('f', spec)
    good = outer.apply(ref.Node(0, spec.tag, 'prim', content)).der()
    listy = 'list' in where or where == 'append'
    if listy:
        outer = model.Tagging()
        good = ref.Node(0, spec.tag, 'prim', content).der()
        cls = type(str('Holder'), (core.SetOf if where == 'set list' else core.SequenceOf,), {'_child_spec': spec})
        whole = ref.tlv(0, 1, 17 if where == 'set list' else 16, good)
    elif where == 'choice':
        cls = type(str('Holder'), (core.Choice,), {'_alternatives': [decl]})
        whole = good
    elif where == 'choice field':
        p.pop('optional', None)
        alt = type(str('Alt'), (core.Choice,), {'_alternatives': [('x', core.Null), decl]})
        cls = type(str('Holder'), (core.Sequence,), {'_fields': [('f', alt)]})
        whole = ref.seq(good)
        # (a bare value goes where its own tags say)
        o = kind.load(outer.apply(ref.Node(0, kind.tag, 'prim', content)).der(), **notation(g, outer))
    else:
        cls = type(str('Holder'), (core.Set if where == 'set field' else core.Sequence,), {'_fields': [decl]})
        whole = ref.tlv(0, 1, 17 if where == 'set field' else 16, good)
    old = o.dump()
    h = cls.load(whole)
    if g.draw(2):
        h.dump(force=bool(g.draw(2)))
    try:
        if where == 'built':
            h = cls({'f': o})
        elif where == 'built list':
            h = cls([o])
        elif where == 'append':
            h.append(o)
        elif where == 'choice':
            h = cls('f', o)
        elif listy:
            h[0] = o
        else:
            h['f'] = o
    except (ValueError, TypeError):
        if fits:
            raise
        g.label('refused')
        g.nontrivial((spec.__name__, kind.__name__, where, t, outer))
    else:
        if fits is False:
            g.fail('an object of another type was accepted', encoded=graph.quiet(lambda: h.dump()))
        if where == 'append':
            whole = ref.seq(good, good)
    g.eq(h.dump(), whole, 'encoding afterwards')
    g.eq(o.dump(), old, 'encoding of the object afterwards')
    g.unit(2)
    g.sample('%s into %s of %s: %s' % (kind.__name__, where, spec.__name__, fits))


@check.prop(15000, 200000)
def members(g):
    """members that do not exist"""
    ty = POOL.pick(g, want=lambda t: isinstance(t, (Record, ListOf)))
    a = ty.gen(g)
    o = ty.obj(g, a) if g.draw(2) else ty.cls.load(model.der(ty, a))
    want = model.der(ty, a)
    n = len(ty.fields) if isinstance(ty, Record) else len(a)
    key = g.choice(['no such field', '', n, n + 1, n + 50, 10 ** 12] if isinstance(ty, Record) else [n + 1, n + 7, 10 ** 9])
    op = g.draw(3)
    g.log(show(ty), a, 'key', key, 'op', op)
    try:
        if op == 0:
            o[key]
        elif op == 1:
            o[key] = 5
        else:
            del o[key]
    except (KeyError, IndexError):
        pass
    except (ValueError, TypeError):
        if op == 0:
            raise
    else:
        g.fail('a member that does not exist was accepted', key=key, op=op)
    g.eq(o.dump(), want, 'encoding afterwards')
    g.nontrivial((want, key, op))
    g.sample('%s key %r op %d' % (show(ty)[:200], key, op))
