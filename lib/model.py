"""Abstract ASN.1 types: each knows how to generate a value, what the library
should report as native for it, and its DER (as a ref.Node with the liberties
BER has).  Two sources build them: seeded user-declared schemas (`Pool`) and
the frozen snapshot of the predefined structures (lib/predef.py)."""
import copy
import random
from datetime import datetime, timedelta, timezone

from lib import ref
from asn1crypto import core



class Sentinel(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


ABSENT = Sentinel('ABSENT')

CLASSES = {'universal': 0, 'application': 1, 'context': 2, 'private': 3}
CLASS_NAMES = dict((v, k) for k, v in CLASSES.items())


def equal_native(a, b):
    """Equality that does not let 1 == True or 1 == 1.0 pass and checks key order"""
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and list(a.keys()) == list(b.keys()) and
                all(equal_native(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b) and all(equal_native(x, y) for x, y in zip(a, b)))
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and a == b or isinstance(a, datetime) and a == b


class Ty(object):
    """One ASN.1 type"""
    path = None
    cls = None
    tag = (0, 0)
    kind = 'prim'
    # native() of the constructed object is what nat() says
    any_type = False

    def ids(self):
        return {self.tag}

    def name(self):
        return self.cls.__name__

    def inp(self, g, a):
        """something the constructor or item assignment accepts for abstract value a"""
        return self.raw(a)

    def raw(self, a):
        return self.nat(a)

    def nat(self, a):
        return a

    def obj(self, g, a):
        """an instance of the class holding a"""
        return self.cls(self.inp(g, a))

    def deref(self, a):
        """(type, value) that decide the native of a value of a dependent type"""
        return None

    def decode(self, a):
        return a

    def weight(self, a):
        return 1


class Prim(Ty):
    def __init__(self, cls, tag, gen, content, nat=None, raw=None, kind='prim', seg=4, inps=None):
        self.cls = cls
        self.tag = tag if isinstance(tag, tuple) else (0, tag)
        self._gen, self._content = gen, content
        self._nat, self._raw = nat, raw
        self.nkind, self.seg = kind, seg
        self._inps = inps

    def gen(self, g, depth=0):
        return self._gen(g)

    def nat(self, a):
        return self._nat(a) if self._nat else a

    def raw(self, a):
        return self._raw(a) if self._raw else self.nat(a)

    def inp(self, g, a):
        if self._inps:
            return g.choice(self._inps)(a)
        return self.raw(a)

    def node(self, a):
        return ref.Node(self.tag[0], self.tag[1], self.nkind, self._content(a), seg_tag=self.seg)


class Wrapped(Prim):
    """a type whose class declares an explicit tag"""

    def __init__(self, inner, cls, pairs):
        Prim.__init__(self, cls, inner.tag, inner._gen, inner._content, inner._nat, inner._raw, inner.nkind, inner.seg, inner._inps)
        self.inner, self.own = inner, Tagging('explicit', pairs)
        # (an implicit tag on top of it is nothing the library has a notation for)
        self.tag = None

    def ids(self):
        return {self.own.pairs[-1]}

    def node(self, a):
        return self.own.apply(self.inner.node(a))


def fromtag(n):
    return n if isinstance(n, tuple) else (0, n)


# ------------------------------------------------------------ primitive types

def g_int(g):
    return g.signed(g.choice([6, 16, 64, 200]))


def g_bytes(g):
    if g.draw(30) == 29:
        return g.nbytes(g.choice([127, 128, 255, 256, 300]))
    return g.bytes(0, 8)


def g_bits(g):
    return tuple(g.draw(2) for _ in range(g.draw(20)))


def g_oid(g):
    a = g.draw(3)
    return '.'.join(map(str, [a, g.draw(40) if a < 2 else g.draw(200)] + [g.draw(g.choice([2, 128, 20000, 1 << 40])) for _ in range(g.draw(5))]))


ASCII = 'abcXYZ019 '
WIDE = 'aZ é߀漢\U0001f600\x7f'


def g_text(alphabet):
    def f(g):
        if g.draw(40) == 39:
            return alphabet[0] * g.choice([127, 128, 256])
        return g.text(alphabet, 0, 6)
    return f


def g_time(g):
    return datetime(1950, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=g.draw(100 * 365 * 86400))


def c_utc(a):
    return a.strftime('%y%m%d%H%M%SZ').encode()


def c_gen(a):
    return (('%04d' % a.year) + a.strftime('%m%d%H%M%SZ')).encode()


def integer(cls=core.Integer, tag=2):
    return Prim(cls, tag, g_int, ref.int_content)


def named_int(cls, table, tag=2, closed=False):
    """table {int: name}; closed for ENUMERATED"""
    keys = sorted(table)
    rev = dict((v, k) for k, v in table.items())

    def gen(g):
        if closed or g.draw(4):
            return g.choice(keys)
        v = g_int(g)
        return v
    return Prim(cls, tag, gen, ref.int_content, nat=lambda a: table.get(a, a), raw=lambda a: a,
                inps=[lambda a: table.get(a, a), lambda a: a])


def named_bits(cls, table, tag=3):
    keys = sorted(table)

    def gen(g):
        return frozenset(k for k in keys if g.draw(2)) if g.draw(3) else frozenset([g.choice(keys)][:g.draw(2)])

    def content(a):
        return ref.read(ref.named_bits(a)).content
    return Prim(cls, tag, gen, content, nat=lambda a: set(table[k] for k in a), kind='bits', seg=3,
                inps=[lambda a: set(table[k] for k in a), lambda a: tuple(1 if i in a else 0 for i in range(max(keys) + 1))])


def mapped_oid(cls, table, tag=6, open_=True):
    """table {dotted: name}"""
    keys = sorted(table)

    def gen(g):
        if not keys or (open_ and g.draw(6) == 5):
            o = g_oid(g)
            return o
        return g.choice(keys)
    return Prim(cls, tag, gen, ref.oid_content, nat=lambda a: table.get(a, a), raw=lambda a: a,
                inps=[lambda a: table.get(a, a), lambda a: a])


def string(cls, tag, codec, alphabet):
    return Prim(cls, tag, g_text(alphabet), lambda a: a.encode(codec), kind='string', seg=fromtag(tag)[1] if fromtag(tag)[0] == 0 else 4)


class UserNumber(core.Integer):
    _map = {1: 'one', 2: 'two', -5: 'minus_five', 300: 'many'}


class UserEnum(core.Enumerated):
    _map = {0: 'zero', 1: 'first', 7: 'seventh', 1000: 'high'}


class UserOid(core.ObjectIdentifier):
    _map = {'1.2.3': 'first_id', '2.5.4.3': 'second_id', '2.999.1': 'third_id'}


class UserBits(core.BitString):
    _map = {0: 'bit_zero', 1: 'bit_one', 3: 'bit_three', 9: 'bit_nine'}


def user_bits():
    table = UserBits._map

    def gen(g):
        return frozenset(g.draw(g.choice([4, 12, 30])) for _ in range(g.draw(4)))
    return Prim(UserBits, 3, gen, lambda a: ref.read(ref.named_bits(a)).content, nat=lambda a: set(table.get(k, k) for k in a), kind='bits', seg=3)


def user_prims():
    return [
        named_int(UserNumber, UserNumber._map),
        named_int(UserEnum, UserEnum._map, 10, True),
        mapped_oid(UserOid, UserOid._map),
        user_bits(),
        string(core.TeletexString, 20, 'ascii', ASCII),
        string(core.GeneralString, 27, 'latin1', ASCII + '\xe9'),
        string(core.GraphicString, 25, 'latin1', ASCII + '\xe9'),
    ]


def basic_prims():
    return [
        integer(),
        Prim(core.Boolean, 1, lambda g: bool(g.draw(2)), lambda a: b'\xff' if a else b'\x00', kind='bool'),
        Prim(core.OctetString, 4, g_bytes, lambda a: a, kind='string', seg=4),
        Prim(core.ObjectIdentifier, 6, g_oid, ref.oid_content),
        string(core.UTF8String, 12, 'utf-8', WIDE),
        Prim(core.Null, 5, lambda g: None, lambda a: b'', raw=lambda a: core.Null()),
        Prim(core.BitString, 3, g_bits, ref.bits_content, kind='bits', seg=3),
        string(core.PrintableString, 19, 'latin1', ASCII),
        string(core.IA5String, 22, 'ascii', ASCII),
        string(core.BMPString, 30, 'utf-16-be', WIDE),
        string(core.VisibleString, 26, 'latin1', ASCII),
        Prim(core.UTCTime, 23, g_time, c_utc, kind='string', seg=23),
        Prim(core.GeneralizedTime, 24, g_time, c_gen, kind='string', seg=24),
        Prim(core.OctetBitString, 3, g_bytes, lambda a: b'\x00' + a, kind='bits', seg=3),
        Prim(core.RelativeOid, 13, lambda g: '.'.join(str(g.draw(300)) for _ in range(1 + g.draw(4))),
             lambda a: ref.rel_oid_content([int(x) for x in a.split('.')])),
        string(core.UniversalString, 28, 'utf-32-be', WIDE),
        string(core.NumericString, 18, 'latin1', '0123456789 '),
        Prim(core.IntegerOctetString, 4, lambda g: g.nat(80), lambda a: ref.uint_content(a) or b'\x00', kind='string', seg=4),
        Prim(core.ParsableOctetString, 4, g_bytes, lambda a: a, kind='string', seg=4),
    ] + user_prims()


class UserWrappedText(core.UTF8String):
    explicit = (1, 5)


class UserWrappedOctets(core.OctetString):
    explicit = ((2, 0), (3, 31))


class UserWrappedInt(core.Integer):
    explicit = (2, 3)


def wrapped_prims():
    """types whose class declares explicit tags of its own"""
    by = dict((p.cls, p) for p in basic_prims())
    return [Wrapped(by[core.UTF8String], UserWrappedText, [(1, 5)]), Wrapped(by[core.OctetString], UserWrappedOctets, [(2, 0), (3, 31)]),
            Wrapped(by[core.Integer], UserWrappedInt, [(2, 3)])]


class AnyOf(Ty):
    """an untyped field holding some universal value"""
    any_type = True
    cls = core.Any
    tag = None

    def __init__(self, prims):
        self.prims = prims

    def ids(self):
        return None

    def gen(self, g, depth=0):
        i = g.draw(len(self.prims))
        return (i, self.prims[i].gen(g))

    def nat(self, a):
        return self.prims[a[0]].nat(a[1])

    def raw(self, a):
        p = self.prims[a[0]]
        return p.cls(p.raw(a[1]))

    def inp(self, g, a):
        p = self.prims[a[0]]
        v = p.obj(g, a[1])
        return v

    def obj(self, g, a):
        return core.Any(self.inp(g, a))

    def node(self, a):
        return self.prims[a[0]].node(a[1])


def any_prims():
    keep = ('Integer', 'Boolean', 'OctetString', 'ObjectIdentifier', 'UTF8String', 'Null', 'BitString', 'PrintableString', 'IA5String')
    return [p for p in basic_prims() if p.cls.__name__ in keep]


# ------------------------------------------------------------ tagging

class Tagging(object):
    """None, implicit or explicit (a list of levels, innermost first)"""

    def __init__(self, mode=None, pairs=()):
        self.mode, self.pairs = mode, list(pairs)

    def apply(self, node):
        if self.mode == 'implicit':
            c, t = self.pairs[0]
            if node.kind == 'wrap' and False:
                raise ValueError
            return node.retag(c, t)
        if self.mode == 'explicit':
            for c, t in self.pairs:
                node = ref.Node(c, t, 'wrap', kids=[node])
        return node

    def ids(self, inner):
        if self.mode:
            return {self.pairs[-1]}
        return inner

    def params(self, r):
        """the ways a user may write it; r: random.Random"""
        if not self.mode:
            return {}
        if self.mode == 'implicit':
            c, t = self.pairs[0]
        elif len(self.pairs) == 1:
            c, t = self.pairs[0]
        else:
            return {'explicit': tuple((c, t) for c, t in self.pairs)}
        k = r.randrange(4)
        if c == 2 and k == 0:
            return {self.mode: t}
        if k == 1:
            p = {'tag_type': self.mode, 'tag': t}
            if c != 2 or r.randrange(2):
                p['class'] = c
            return p
        if k == 2:
            return {self.mode: (CLASS_NAMES[c], t)}
        return {self.mode: (c, t)}

    def __repr__(self):
        return '%s%r' % (self.mode, self.pairs)


class Field(object):
    def __init__(self, name, ty, mode='req', tagging=None, default=None):
        self.name, self.ty, self.mode = name, ty, mode
        self.tagging = tagging or Tagging()
        self.default = default

    def ids(self):
        return self.tagging.ids(self.ty.ids())

    def node(self, a):
        return self.tagging.apply(self.ty.node(a))


class Record(Ty):
    """SEQUENCE or SET"""

    def __init__(self, cls, fields, is_set=False, tag=None):
        self.cls, self.fields, self.is_set = cls, fields, is_set
        self.tag = tag or (0, 17 if is_set else 16)
        self.by_name = dict((f.name, f) for f in fields)

    def gen(self, g, depth=0):
        out = {}
        for f in self.fields:
            if f.mode == 'opt' and g.draw(2):
                out[f.name] = ABSENT
            elif f.mode == 'def' and g.draw(3) == 0:
                out[f.name] = copy.deepcopy(f.default)
            else:
                out[f.name] = f.ty.gen(g, depth + 1)
        return out

    def nat(self, a):
        return dict((f.name, None if a[f.name] is ABSENT else f.ty.nat(a[f.name])) for f in self.fields)

    def raw(self, a):
        return dict((f.name, f.ty.raw(a[f.name])) for f in self.fields if a[f.name] is not ABSENT)

    def inp(self, g, a):
        out = {}
        for f in g.perm(self.fields) if g.draw(4) == 3 else self.fields:
            v = a[f.name]
            if v is ABSENT:
                if g.draw(4) == 3:
                    out[f.name] = None
                continue
            if f.mode == 'def' and self.same(f, v) and g.draw(2):
                continue
            out[f.name] = f.ty.inp(g, v) if g.draw(3) else f.ty.obj(g, v)
        return out

    @staticmethod
    def same(f, v):
        return f.node(v).der() == f.node(f.default).der()

    def obj(self, g, a):
        return self.cls(self.inp(g, a))

    def node(self, a):
        kids, extra = [], []
        for f in self.fields:
            v = a[f.name]
            if v is ABSENT:
                continue
            n = f.node(v)
            if f.mode == 'def' and self.same(f, v):
                extra.append((len(kids), n))
            else:
                kids.append(n)
        if self.is_set:
            kids.sort(key=lambda n: ref.read_header(n.der(), 0)[0:3:2])
        return ref.Node(self.tag[0], self.tag[1], 'set' if self.is_set else 'seq', kids=kids, extra=extra)

    def weight(self, a):
        return 1 + sum(f.ty.weight(a[f.name]) for f in self.fields if a[f.name] is not ABSENT)


class ListOf(Ty):
    def __init__(self, cls, child, is_set=False, tag=None, maxlen=4, minlen=0):
        self.cls, self.child, self.is_set = cls, child, is_set
        self.tag = tag or (0, 17 if is_set else 16)
        self.maxlen, self.minlen = maxlen, minlen

    def gen(self, g, depth=0):
        return [self.child.gen(g, depth + 1) for _ in range(g.uint(self.minlen, max(self.minlen, self.maxlen if depth < 4 else 1)))]

    def nat(self, a):
        return [self.child.nat(x) for x in a]

    def raw(self, a):
        return [self.item(None, x) for x in a]

    def item(self, g, x):
        """what append and item assignment accept"""
        c = self.child
        if isinstance(c, (Union, AnyOf)):
            return c.obj(g, x) if g is not None else c.make(x)
        if g is not None and g.draw(3) == 2:
            return c.obj(g, x)
        return c.inp(g, x) if g is not None else c.raw(x)

    def inp(self, g, a):
        return [self.item(g, x) for x in a]

    def node(self, a):
        kids = [self.child.node(x) for x in a]
        if self.is_set:
            kids.sort(key=lambda n: n.der())
        return ref.Node(self.tag[0], self.tag[1], 'set' if self.is_set else 'seq', kids=kids)

    def weight(self, a):
        return 1 + sum(self.child.weight(x) for x in a)

    def decoded(self, a):
        """the order a decoder of the DER sees"""
        if not self.is_set:
            return a
        return sorted(a, key=lambda x: self.child.node(x).der())


class SpecList(ListOf):
    """a plain SequenceOf or SetOf whose item type the field that holds it gives"""

    def obj(self, g, a):
        return self.cls(self.inp(g, a), spec=self.child.cls)


class Union(Ty):
    """CHOICE"""
    tag = None

    def __init__(self, cls, alts):
        # alts: [Field]
        self.cls, self.alts = cls, alts
        self.by_name = dict((f.name, f) for f in alts)

    def ids(self):
        out = set()
        for f in self.alts:
            out |= f.ids() or set()
        return out

    def gen(self, g, depth=0):
        f = g.choice(self.alts)
        return (f.name, f.ty.gen(g, depth + 1))

    def nat(self, a):
        return self.by_name[a[0]].ty.nat(a[1])

    def raw(self, a):
        return (a[0], self.by_name[a[0]].ty.raw(a[1]))

    def inp(self, g, a):
        f = self.by_name[a[0]]
        v = f.ty.inp(g, a[1]) if g.draw(3) else f.ty.obj(g, a[1])
        return {a[0]: v} if g.draw(2) else (a[0], v)

    def make(self, a):
        return self.cls(a[0], self.by_name[a[0]].ty.raw(a[1]))

    def obj(self, g, a):
        k = g.draw(3)
        f = self.by_name[a[0]]
        v = f.ty.inp(g, a[1])
        if k == 0:
            return self.cls(a[0], v)
        if k == 1:
            return self.cls({a[0]: v})
        return self.cls((a[0], v))

    def node(self, a):
        return self.by_name[a[0]].node(a[1])

    def weight(self, a):
        return 1 + self.by_name[a[0]].ty.weight(a[1])


def any_make(self, a):
    return core.Any(self.raw(a))


AnyOf.make = any_make


def decoded(ty, a):
    """abstract value as a decoder of the DER reports it (set-of order)"""
    if isinstance(ty, ListOf):
        out = [decoded(ty.child, x) for x in a]
        return ListOf.decoded(ty, out) if ty.is_set else out
    if isinstance(ty, Record):
        return dict((f.name, a[f.name] if a[f.name] is ABSENT else decoded(f.ty, a[f.name])) for f in ty.fields)
    if isinstance(ty, Union):
        return (a[0], decoded(ty.by_name[a[0]].ty, a[1]))
    return ty.decode(a)


def der(ty, a):
    return ty.node(a).der()


def matches(ty, a, native):
    """does native denote a?  The order inside a set-of is nobody's promise."""
    if isinstance(ty, Record):
        return (isinstance(native, dict) and list(native) == [f.name for f in ty.fields] and all(
            native[f.name] is None if a[f.name] is ABSENT else matches(f.ty, a[f.name], native[f.name]) for f in ty.fields))
    if isinstance(ty, ListOf):
        if not isinstance(native, list) or len(native) != len(a):
            return False
        if not ty.is_set:
            return all(matches(ty.child, x, n) for x, n in zip(a, native))
        left = list(a)
        for n in native:
            for i, x in enumerate(left):
                if matches(ty.child, x, n):
                    del left[i]
                    break
            else:
                return False
        return True
    if isinstance(ty, Union):
        return matches(ty.by_name[a[0]].ty, a[1], native)
    inner = ty.deref(a)
    if inner:
        return matches(inner[0], inner[1], native)
    return equal_native(native, ty.nat(a))


def pair(ty, a, items):
    """[(abstract, object)] of a list, whatever order a set-of chose"""
    if not ty.is_set:
        return list(zip(a, items))
    left = [(ty.child.node(x).der(), x) for x in a]
    out = []
    for o in items:
        d = o.dump()
        for i, (e, x) in enumerate(left):
            if e == d:
                out.append((left.pop(i)[1], o))
                break
        else:
            return None
    return out


# ------------------------------------------------------------ user-declared schemas

class Pool(object):
    """Seeded schemas; seed 0 is the simplest, complexity grows with the seed"""

    SIZE = 1500

    def __init__(self):
        self.cache = {}

    def pick(self, g, size=None, want=None):
        n = size or self.SIZE
        k = g.draw(n)
        for i in range(n):
            ty = self.get((k + i) % n)
            if want is None or want(ty):
                return ty

    def get(self, seed):
        if seed not in self.cache:
            r = random.Random(seed * 7919 + 13)
            self.cache[seed] = Builder(r, budget=2 + seed // 60).top(seed)
        return self.cache[seed]


class Builder(object):
    def __init__(self, r, budget):
        self.r = r
        self.budget = budget
        self.n = 0
        self.prims = basic_prims()
        self.anyp = any_prims()

    def cname(self, base):
        self.n += 1
        return 'User%s%d' % (base, self.n)

    def top(self, seed):
        k = seed % 8
        if k in (0, 1, 2):
            return self.record(0, False)
        if k == 3:
            return self.record(0, True)
        if k == 4:
            return self.listof(0, False)
        if k == 5:
            return self.listof(0, True)
        if k == 6:
            return self.union(0)
        return self.record(0, False)

    def ty(self, depth, in_list=False):
        r = self.r
        self.budget -= 1
        k = r.randrange(12)
        if depth < 4 and self.budget > 0:
            if k in (0, 1):
                return self.record(depth + 1, False)
            if k == 2:
                return self.record(depth + 1, True)
            if k == 3:
                return self.listof(depth + 1, False)
            if k == 4:
                return self.listof(depth + 1, True)
            if k == 5:
                return self.union(depth + 1)
        if k == 6 and not in_list and r.randrange(2):
            is_set = bool(r.randrange(2))
            return SpecList(core.SetOf if is_set else core.SequenceOf, self.ty(depth + 1, True), is_set)
        return self.prim()

    def prim(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            table = dict((i, 'name_%d' % i) for i in r.sample(range(-3, 300), r.randrange(1, 5)))
            return named_int(type(str(self.cname('Int')), (core.Integer,), {'_map': table}), table)
        if k == 1:
            table = dict((i, 'enum_%d' % i) for i in r.sample(range(0, 200), r.randrange(1, 5)))
            return named_int(type(str(self.cname('Enum')), (core.Enumerated,), {'_map': table}), table, tag=10, closed=True)
        if k == 2:
            table = dict((i, 'bit_%d' % i) for i in r.sample(range(0, 12), r.randrange(1, 6)))
            return named_bits(type(str(self.cname('Bits')), (core.BitString,), {'_map': table}), table)
        if k == 3:
            table = dict(('1.2.%d.%d' % (i, i * 77), 'oid_%d' % i) for i in r.sample(range(1, 300), r.randrange(1, 4)))
            return mapped_oid(type(str(self.cname('Oid')), (core.ObjectIdentifier,), {'_map': table}), table)
        if k == 4 and r.randrange(3) == 0:
            # class-level implicit tag
            c, t = r.randrange(1, 4), r.choice([0, 7, 31, 200])
            cls = type(str(self.cname('Tagged')), (core.Integer,), {'class_': c, 'tag': t})
            return Prim(cls, (c, t), g_int, ref.int_content)
        if k == 5 and r.randrange(3) == 0:
            # class-level explicit tags
            inner = r.choice([p for p in self.prims if p.cls in (core.Integer, core.UTF8String, core.OctetString, core.BitString, core.Boolean)])
            pairs = [(r.randrange(1, 4), r.choice([0, 5, 31, 130])) for _ in range(1 + (r.randrange(4) == 0))]
            cls = type(str(self.cname('Wrapped')), (inner.cls,), {'explicit': pairs[0] if len(pairs) == 1 else tuple(pairs)})
            return Wrapped(inner, cls, pairs)
        return r.choice(self.prims)

    def params(self, f):
        p = f.tagging.params(self.r)
        if isinstance(f.ty, SpecList):
            p['spec'] = f.ty.child.cls
        return p

    def tagnum(self):
        return self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 30, 31, 32, 127, 128, 300])

    def tagging(self, ty, need):
        r = self.r
        untaggable = ty.tag is None
        if not need and r.randrange(3):
            return Tagging()
        mode = 'explicit' if untaggable or r.randrange(2) else 'implicit'
        c = r.choice([2, 2, 2, 1, 3])
        if mode == 'explicit' and not untaggable and r.randrange(8) == 0:
            return Tagging(mode, [(r.choice([1, 2, 3]), self.tagnum()), (c, self.tagnum())])
        return Tagging(mode, [(c, self.tagnum())])

    def place(self, used, ty):
        """tagging under which ty's identifiers avoid `used`"""
        for i in range(60):
            t = self.tagging(ty, need=i > 3)
            ids = t.ids(ty.ids())
            if ids is not None and not (ids & used):
                return t, ids
        for n in range(1000, 1200):
            t = Tagging('explicit', [(2, n)])
            if (2, n) not in used:
                return t, {(2, n)}

    def record(self, depth, is_set):
        r = self.r
        n = r.randrange(1, 3 + min(5, max(0, self.budget)))
        fields = []
        pending = set()
        r0 = random.Random(r.randrange(1 << 30))

        class G(object):
            def draw(self, k):
                return r0.randrange(k)
        from lib.pbt import Gen
        dg = Gen(r0)
        for i in range(n):
            ty = self.ty(depth)
            mode = r.choice(['req', 'req', 'opt', 'opt', 'def'])
            last = i == n - 1
            if last and not is_set and r.randrange(12) == 0:
                ty = AnyOf(self.anyp)
                if r.randrange(2) or pending:
                    t = Tagging('explicit', [(2, 90 + self.tagnum())])
                    ids = t.ids(None)
                else:
                    t, ids = Tagging(), set()
                mode = r.choice(['req', 'opt'])
            elif r.randrange(16) == 0:
                # an untyped field elsewhere has a tag of its own, or is required
                # and follows nothing that may be left out
                ty = AnyOf(self.anyp)
                mode = r.choice(['req', 'opt'])
                if mode == 'req' and not pending and not is_set and r.randrange(2):
                    t, ids = Tagging(), set()
                else:
                    t = Tagging('explicit', [(2, 400 + 40 * i + r.randrange(40))])
                    ids = t.ids(None)
            else:
                t, ids = self.place(pending, ty)
            if isinstance(ty, Prim) and ty.cls is core.Null and mode == 'def':
                mode = 'opt'
            default = ty.gen(dg) if mode == 'def' else None
            fields.append(Field('f%d' % i, ty, mode, t, default))
            if mode == 'req' and not is_set:
                pending = set()
            else:
                pending = pending | ids
        decl = []
        for f in fields:
            p = self.params(f)
            if f.mode == 'opt':
                p['optional'] = True
            elif f.mode == 'def':
                p['default'] = f.ty.raw(f.default)
            if p or r.randrange(2):
                decl.append((f.name, f.ty.cls, p))
            else:
                decl.append((f.name, f.ty.cls))
        base = core.Set if is_set else core.Sequence
        attrs = {'_fields': decl}
        tag = None
        if r.randrange(10) == 0 and depth:
            tag = (r.choice([1, 2, 3]), self.tagnum())
            attrs['class_'], attrs['tag'] = tag
        return Record(type(str(self.cname('Rec')), (base,), attrs), fields, is_set, tag)

    def listof(self, depth, is_set):
        r = self.r
        child = self.ty(depth, True)
        base = core.SetOf if is_set else core.SequenceOf
        attrs = {'_child_spec': child.cls}
        tag = None
        if r.randrange(10) == 0 and depth:
            tag = (r.choice([1, 2, 3]), self.tagnum())
            attrs['class_'], attrs['tag'] = tag
        return ListOf(type(str(self.cname('List')), (base,), attrs), child, is_set, tag)

    def union(self, depth):
        r = self.r
        n = r.randrange(1, 5)
        used = set()
        alts = []
        for i in range(n):
            ty = self.ty(depth)
            t, ids = self.place(used, ty)
            used |= ids
            alts.append(Field('alt%d' % i, ty, 'req', t))
        decl = []
        for f in alts:
            p = self.params(f)
            decl.append((f.name, f.ty.cls, p) if p or r.randrange(2) else (f.name, f.ty.cls))
        return Union(type(str(self.cname('Choice')), (core.Choice,), {'_alternatives': decl}), alts)


POOL = Pool()
