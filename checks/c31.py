"""C31: values under the protocols of Python: ==, !=, in, str, bytes, int, bool, len and iteration."""
import copy
import pickle

from lib.pbt import Check
from lib import ref, model
from lib.model import ABSENT, POOL, Tagging, Union, AnyOf, Record, ListOf
from checks.c08 import show
from checks.c10 import tagging, notation, retag_args
from asn1crypto import core

check = Check('C31', rule=(
    'pairs of scalar values of the same, of related and of unrelated classes, with equal, nearly equal and unrelated contents, under any '
    'tagging, each built, loaded, copied, retagged or cast; strings, octets, numbers and identifiers viewed as Python values in every BER '
    'spelling and after assignments; records, lists and concatenations walked before and after edits. Non-trivial: a pair whose members '
    'differ in tagging, class or content, a spelling that is not DER, or an edited container; distinct by octets.'))

PRIMS = model.basic_prims()


class OtherText(core.UTF8String):
    pass


class OtherNumber(core.Integer):
    pass


class OtherOctets(core.OctetString):
    pass


class ThirdOctets(OtherOctets):
    pass


# classes of the same universal tag
RELATED = [
    [core.Integer, OtherNumber, model.UserNumber],
    [core.OctetString, OtherOctets, ThirdOctets, core.ParsableOctetString, core.IntegerOctetString],
    [core.BitString, core.OctetBitString, core.ParsableOctetBitString, model.UserBits],
    [core.UTF8String, OtherText],
    [core.ObjectIdentifier, model.UserOid],
]


def make(g, ty, a, cls, t, foreign=False):
    """a value with the content of a in one of many ways"""
    tlv = t.apply(ty.node(a)).der()
    k = g.draw(6)
    own = cls is ty.cls and not foreign
    if k == 0 and own:
        o = cls(ty.inp(g, a), **notation(g, t))
    elif k == 1 and own:
        o = cls(ty.inp(g, a)).retag(retag_args(g, t))
    elif k == 2 and own:
        o = cls(ty.inp(g, ty.gen(g)), **notation(g, t))
        o.set(ty.raw(a) if ty.cls is not core.Null else None)
    else:
        o = cls.load(tlv, **notation(g, t))
    k = g.draw(8)
    if k == 0:
        o = o.copy()
    elif k == 1:
        o = copy.deepcopy(o)
    elif k == 2:
        o = pickle.loads(pickle.dumps(o))
    elif k == 3 and own:
        # (not every content is one its other classes can read)
        o.native
    elif k == 4:
        o.dump()
    return o, tlv


def near(g, ty, a):
    """another value of the same type, often a close one"""
    if isinstance(a, int) and not isinstance(a, bool) and ty.cls is core.Integer and g.draw(2):
        return g.choice([a + 1, -a, a + 256, a - 1])
    if isinstance(a, bytes) and g.draw(2):
        return g.choice([a + b'\x00', b'\x00' + a, a[:-1], a[::-1]]) if a else b'\x00'
    if isinstance(a, tuple) and g.draw(2):
        return g.choice([a + (0,), a[:-1], a[::-1]])
    return ty.gen(g)


@check.prop(60000, 1000000)
def equality(g):
    ty = g.choice(PRIMS)
    a = ty.gen(g)
    k = g.draw(4)
    foreign = False
    if k == 0:
        ty2 = g.choice(PRIMS)
        b = ty2.gen(g)
        # the same content octets under another type
        if g.draw(2):
            content = ty.node(a).content
            ty2 = model.Prim(ty2.cls, ty2.tag, None, lambda b: content, kind=ty2.nkind, seg=ty2.seg)
            foreign = True
    elif k == 1:
        ty2, b = ty, near(g, ty, a)
        if ty.cls is core.IntegerOctetString or ty.cls is model.UserEnum:
            b = ty.gen(g)
    else:
        ty2, b = ty, a
    c1, c2 = ty.cls, ty2.cls
    for family in RELATED:
        if ty.cls in family and g.draw(2):
            c1 = g.choice(family)
        if ty2.cls in family and g.draw(2):
            c2 = g.choice(family)
    t1, t2 = tagging(g), tagging(g) if g.draw(2) else None
    t2 = t2 or t1
    x, d1 = make(g, ty, a, c1, t1)
    y, d2 = make(g, ty2, b, c2, t2, foreign)
    g.log('x', c1.__name__, d1, t1)
    g.log('y', c2.__name__, d2, t2)
    n1, n2 = ty.node(a), ty2.node(b)
    want = (n1.tag, n1.content) == (n2.tag, n2.content)
    before = [o.native for o in (x, y)] if g.draw(2) and c1 is ty.cls and c2 is ty2.cls and not foreign else None
    for p, q in ((x, y), (y, x)):
        g.true((p == q) is want, 'equality of two values', got=p == q, want=want)
        g.true((p != q) is (not want), 'inequality of two values', got=p != q, want=not want)
    g.true(x == x and not x != x, 'a value differs from itself')
    g.true(x == x.copy() and x.copy() == x and x.untag() == x, 'a value differs from its copy')
    for other in (None, before and before[0], d1, 5, 'a', core.Sequence, core.VOID, core.SequenceOf):
        g.true(not x == other and x != other, 'a value equals something that is no value', other=other)
    g.eq((x.dump(), y.dump()), (d1, d2), 'encodings after comparing')
    if before is not None:
        g.true(model.equal_native(x.native, before[0]) and model.equal_native(y.native, before[1]), 'native after comparing')
    g.label('equal' if want else 'unequal')
    g.unit(10)
    if d1 != d2 or c1 is not c2:
        g.nontrivial((d1, d2, c1.__name__, c2.__name__))
        g.sample('%s %s == %s %s: %s' % (c1.__name__, d1.hex(), c2.__name__, d2.hex(), want))


@check.prop(20000, 400000)
def membership(g):
    """`in` and the search methods of lists follow equality"""
    ty = g.choice([p for p in PRIMS if p.cls is not core.Null])
    is_set = g.draw(3) == 0
    cls = type(str('Many'), (core.SetOf if is_set else core.SequenceOf,), {'_child_spec': ty.cls})
    items = []
    for _ in range(g.draw(5)):
        items.append(g.choice(items) if items and g.draw(3) == 0 else ty.gen(g))
    if is_set:
        items.sort(key=lambda a: ty.node(a).der())
    der = ref.tlv(0, 1, 17 if is_set else 16, b''.join(ty.node(a).der() for a in items))
    o = cls.load(der) if g.draw(2) else cls([ty.inp(g, a) for a in items])
    g.log(ty.cls.__name__, 'list', der)
    for _ in range(1 + g.draw(3)):
        w = g.choice(items) if items and g.draw(2) else ty.gen(g)
        t = tagging(g)
        x, d = make(g, ty, w, ty.cls, t)
        g.log('item', d, t)
        conts = [ty.node(a).content for a in items]
        want = ty.node(w).content in conts
        g.true((x in o) is want, 'membership', got=x in o, want=want)
        kids = list(o)
        g.eq([k == x for k in kids], [c == ty.node(w).content for c in conts], 'items equal to the value')
        g.eq(kids.count(x), conts.count(ty.node(w).content), 'count')
        if want:
            g.eq(kids.index(x), conts.index(ty.node(w).content), 'index')
        k = g.draw(4)
        if k == 0 and not is_set:
            o.append(x)
            items.append(w)
        elif k == 1 and items:
            i = g.draw(len(items))
            if not is_set:
                del o[i]
                del items[i]
        elif k == 2:
            o.dump(force=bool(g.draw(2)))
    g.true(None not in o and core.VOID not in o, 'an absent value is a member')
    other = core.Null() if ty.cls is not core.Null else core.Integer(1)
    try:
        other in o
    except TypeError:
        pass
    else:
        g.fail('membership of a value of another type')
    want = ref.tlv(0, 1, 17 if is_set else 16, b''.join(ty.node(a).der() for a in items))
    g.eq(o.dump(), want, 'encoding after the searches')
    g.unit(5)
    if items:
        g.nontrivial((der, d))
        g.sample('%s in %s' % (d.hex(), der.hex()))


TEXT = [p for p in PRIMS if issubclass(p.cls, core.AbstractString) and not issubclass(p.cls, core.AbstractTime)]
NUMBERS = [p for p in PRIMS if issubclass(p.cls, core.Integer)]
OIDS = [p for p in PRIMS if issubclass(p.cls, core.ObjectIdentifier)]


def octet_prim(cls, bits):
    return model.Prim(cls, 3 if bits else 4, model.g_bytes, (lambda a: b'\x00' + a) if bits else (lambda a: a),
                      kind='bits' if bits else 'string', seg=3 if bits else 4)


OCTETS = [octet_prim(core.OctetString, 0), octet_prim(core.OctetBitString, 1), octet_prim(core.ParsableOctetString, 0),
          octet_prim(core.ParsableOctetBitString, 1), octet_prim(OtherOctets, 0)]
BOOLS = [p for p in PRIMS if p.cls is core.Boolean]
VIEWS = [('text', TEXT, str, lambda ty, a: a), ('octets', OCTETS, bytes, lambda ty, a: a),
         ('number', NUMBERS, int, lambda ty, a: int.from_bytes(ty.node(a).content, 'big', signed=True)),
         ('identifier', OIDS, str, lambda ty, a: a), ('dotted identifier', OIDS, lambda o: o.dotted, lambda ty, a: a),
         ('truth', BOOLS, bool, lambda ty, a: a)]


@check.prop(40000, 700000)
def views(g):
    """str(), bytes(), int() and bool() of a value are what it holds, in any spelling and after assignments"""
    what, prims, view, want = g.choice(VIEWS)
    ty = g.choice(prims)
    a = ty.gen(g)
    t = tagging(g)
    g.log(what, ty.cls.__name__, t)
    hist = []
    loose = False
    if g.draw(2):
        b = ref.Ber(g)
        node = t.apply(ty.node(a))
        data = b.spell(node)
        loose = data != node.der()
        g.log('octets', data)
        own_loose = b.spelled[id(node)][2]
        o = ty.cls.load(data, **notation(g, t))
        hist.append(data)
        if own_loose:
            # (a value of indefinite length or in segments is encoded anew)
            data = None
    else:
        o = ty.cls(ty.inp(g, a), **notation(g, t))
        data = o.dump()
    edits = 0
    for _ in range(1 + g.draw(4)):
        k = g.draw(6)
        if k == 0:
            a = ty.gen(g)
            o.set(ty.inp(g, a))
            data = None
            edits += 1
        elif k == 1:
            o = g.choice([o.copy, lambda: copy.copy(o), lambda: copy.deepcopy(o), lambda: pickle.loads(pickle.dumps(o))])()
        elif k == 2:
            o.native
        elif k == 3:
            o.dump()
        elif k == 4:
            o.dump(force=True)
            data = None
        hist.append(k)
        got = view(o)
        g.true(type(got) is type(want(ty, a)) and got == want(ty, a), 'view as a Python value', got=got, want=want(ty, a), hist=hist)
        g.unit()
    if data is not None:
        g.eq(o.dump(), data, 'encoding after the views', hist=hist)
    else:
        g.eq(o.dump(True), t.apply(ty.node(a)).der(), 'encoding after the views', hist=hist)
    if not model.matches(ty, a, o.native):
        g.fail('native after the views', got=o.native, want=ty.nat(a), hist=hist)
    if loose or edits:
        g.nontrivial((ty.cls.__name__, hist))
        g.sample('%s of %s %s = %r' % (what, ty.cls.__name__, hist, want(ty, a)))


@check.prop(20000, 400000)
def walks(g):
    """len() and iteration of records and lists agree with their native value, before and after edits"""
    ty = POOL.pick(g, size=300, want=lambda t: isinstance(t, (Record, ListOf)))
    a = model.decoded(ty, ty.gen(g))
    der = ty.node(a).der()
    k = g.draw(3)
    g.log('type', show(ty), k)
    if k == 0:
        o = ty.cls(ty.inp(g, a))
    elif k == 1:
        o = ty.cls.load(der)
    else:
        data = ref.Ber(g, order=False).spell(ty.node(a))
        g.log('octets', data)
        o = ty.cls.load(data)
    for step in range(1 + g.draw(3)):
        if isinstance(ty, Record):
            names = [f.name for f in ty.fields]
            g.eq(len(o), len(names), 'length of a record')
            g.eq(list(o), names, 'iteration over a record')
            g.true(all(n in o for n in names) and 'no such field' not in o, 'names in a record')
            for i, f in enumerate(ty.fields):
                if a[f.name] is ABSENT:
                    if f.mode == 'opt':
                        v = o[f.name]
                        g.true(not v and len(v) == 0 and list(v) == [] and v.native is None and v == core.VOID and v.dump() == b'', 'an absent field', got=v)
                g.true(o[i] is o[f.name], 'a field by index is the field by name', field=f.name)
            if step == 0:
                opts = [f for f in ty.fields if f.mode == 'opt']
                if opts:
                    f = g.choice(opts)
                    del o[f.name]
                    a = dict(a)
                    a[f.name] = ABSENT
                    g.log('delete', f.name)
        else:
            g.eq(len(o), len(a), 'length of a list')
            kids = list(o)
            g.eq(len(kids), len(a), 'iteration over a list')
            if not ty.is_set:
                for x, kid in zip(a, kids):
                    if not model.matches(ty.child, x, kid.native):
                        g.fail('native of an item', got=kid.native, want=ty.child.nat(x))
                g.true(all(o[i] is k for i, k in enumerate(kids)), 'an item by index is the iterated one')
            g.eq([1 for _ in o], [1] * len(a), 'second iteration over a list')
            if not ty.is_set:
                x = ty.child.gen(g)
                if g.draw(2) or not a:
                    o.append(ty.item(g, x))
                    a = a + [model.decoded(ty.child, x) if 0 else x]
                    g.log('append')
                else:
                    i = g.draw(len(a))
                    del o[i]
                    a = a[:i] + a[i + 1:]
                    g.log('delete', i)
        g.unit(4)
    g.nontrivial(der)
    g.sample('%s %s' % (show(ty)[:200], der.hex()[:200]))
