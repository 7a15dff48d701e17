"""C10: tagging, casting, choices and untyped values."""
from lib.pbt import Check
from lib import ref, model
from lib.model import POOL, Tagging, Union, AnyOf, Record, ListOf, Prim, CLASS_NAMES
from checks.c08 import show
from asn1crypto import core

check = Check('C10', rule=(
    'values of every scalar class and of generated schemas, untagged, implicitly or (multiply) explicitly tagged, built or loaded (DER or BER '
    'contents), put through chains of retag, untag, cast and parse; decoding under a tagging that differs from the one encoded; choices and '
    'untyped values holding them. Oracle: reference identifier octets around the unchanged contents. Non-trivial: at least one tag or cast '
    'applied; distinct by octets and operations.'))

TAGS = [0, 1, 2, 3, 4, 5, 16, 17, 30, 31, 32, 127, 128, 300, 20000]


def tagging(g, implicit=True, maxlevels=3):
    k = g.draw(4)
    pair = lambda: (1 + g.draw(3), g.choice(TAGS))
    if k == 0:
        return Tagging()
    if k == 1 and implicit:
        return Tagging('implicit', [pair()])
    return Tagging('explicit', [pair() for _ in range(1 + (g.draw(maxlevels) if g.draw(3) == 0 else 0))])


def notation(g, t, legacy=True):
    """keyword arguments for load(), a field or the constructor"""
    if not t.mode:
        return {}
    c, n = t.pairs[0]
    if len(t.pairs) > 1:
        k = g.draw(2)
        return {'explicit': tuple((CLASS_NAMES[c] if k else c, n) for c, n in t.pairs)}
    k = g.draw(4)
    if k == 0 and c == 2:
        return {t.mode: n}
    if k == 1 and legacy and c == 2:
        # the older spelling; it has no agreed keyword for another class
        return {'tag_type': t.mode, 'tag': n}
    if k == 2:
        return {t.mode: (c, n)}
    return {t.mode: (CLASS_NAMES[c], n)}


def retag_args(g, t):
    if not t.mode:
        return {}
    return notation(g, t, legacy=False)


def value(g):
    """(ty, abstract value)"""
    if g.draw(3) == 0:
        ty = POOL.pick(g, size=400)
    elif g.draw(8) == 7:
        ty = g.choice(model.wrapped_prims())
    else:
        ty = g.choice(model.basic_prims())
    return ty, ty.gen(g)


def expect(g, ty, a, t, o, what, hist):
    want = t.apply(ty.node(a)).der()
    got = o.dump()
    if got != want:
        g.fail('encoding ' + what, got=got, want=want, hist=hist)
    if not model.matches(ty, a, o.native):
        g.fail('native ' + what, got=o.native, want=ty.nat(a), hist=hist)
    if not isinstance(ty, (Union, AnyOf, model.Wrapped)) and o.contents != ref.read(ty.node(a).der()).content:
        g.fail('contents ' + what, got=o.contents, want=ref.read(ty.node(a).der()).content, hist=hist)
    if not isinstance(ty, AnyOf):
        g.true(type(o) is ty.cls, 'type ' + what, got=type(o))
    g.unit(3)


@check.prop(70000, 1000000)
def retag(g):
    ty, a = value(g)
    a = model.decoded(ty, a)
    implicit = ty.tag is not None
    t0 = tagging(g, implicit)
    der = t0.apply(ty.node(a)).der()
    k = g.draw(3)
    g.log('type', show(ty), t0)
    g.log('der', der)
    if k == 0 or isinstance(ty, Union) and t0.mode and g.draw(2):
        o = ty.cls.load(der, **notation(g, t0))
    elif isinstance(ty, Union):
        o = ty.cls(a[0], ty.by_name[a[0]].ty.raw(a[1]), **notation(g, t0))
    else:
        o = ty.cls(ty.inp(g, a), **notation(g, t0))
    if g.draw(2):
        expect(g, ty, a, t0, o, 'of the tagged value', [])
    states = [(o, t0, 'original')]
    hist = []
    for i in range(1 + g.draw(4)):
        src, ts, name = g.choice(states)
        op = g.draw(5)
        if op == 0:
            hist.append('untag %s' % name)
            new, tn = src.untag(), Tagging()
        elif op == 1 and ts.mode and len(ts.pairs) == 1:
            hist.append('retag %s as it is' % name)
            new, tn = src.retag(retag_args(g, ts)), ts
        elif op == 2:
            hist.append('copy %s' % name)
            new, tn = src.copy(), ts
        else:
            tn = tagging(g, implicit)
            hist.append('retag %s with %r' % (name, tn))
            if tn.mode and len(tn.pairs) == 1 and tn.pairs[0][0] == 2 and g.draw(3) == 0:
                # the older notation
                new = src.retag(tn.mode, tn.pairs[0][1])
            else:
                new = src.retag(retag_args(g, tn))
        g.log(hist[-1])
        g.true(new is not src, 'a retagged value is a new object')
        states.append((new, tn, 'v%d' % i))
        if g.draw(2):
            expect(g, ty, a, tn, new, 'after %s' % hist[-1], hist)
    for o, t, name in states if g.draw(2) else states[::-1]:
        expect(g, ty, a, t, o, 'of %s at the end' % name, hist)
    # decodable under the tagging it carries
    o, t, name = states[-1]
    b = ty.cls.load(o.dump(), **notation(g, t))
    expect(g, ty, a, t, b, 'after re-reading', hist)
    g.eq(b.dump(force=True), o.dump(), 'forced encoding of a tagged value', hist=hist)
    g.nontrivial((der, hist))
    g.sample('%s %r: %s' % (show(ty)[:200], a, '; '.join(hist)))


@check.prop(30000, 400000)
def mismatch(g):
    """a value is decoded only under the tags it carries"""
    ty, a = value(g)
    if isinstance(ty, AnyOf):
        return
    implicit = ty.tag is not None
    t0 = tagging(g, implicit)
    # a near miss: another class, another number, another number of levels, another type
    k = g.draw(5)
    t1 = tagging(g, implicit)
    if t0.mode and k < 3:
        pairs = [list(p) for p in t0.pairs]
        i = g.draw(len(pairs))
        if k == 0:
            pairs[i][0] = 1 + g.draw(3)
        elif k == 1:
            pairs[i][1] = g.choice(TAGS)
        elif t0.mode == 'explicit':
            if g.draw(2):
                pairs = pairs[1:]
            else:
                pairs = pairs + [[2, g.choice(TAGS)]]
        t1 = Tagging(t0.mode if pairs else None, [tuple(p) for p in pairs])
    data = t0.apply(ty.node(a)).der()
    g.log('type', show(ty), 'encoded', t0, 'expected', t1)
    g.log('octets', data)

    def chain(t):
        """the identifiers a decoder must find"""
        if t.mode == 'explicit':
            return list(reversed(t.pairs)) + [None]
        if t.mode == 'implicit':
            return [t.pairs[0]]
        return [None]

    def actual(data):
        out = []
        pos = 0
        while pos < len(data):
            c, cons, t, size, p = ref.read_header(data, pos)
            out.append((c, t, cons))
            if not cons:
                break
            pos = p
        return out
    got = actual(data)
    inner = ty.ids()
    fits = True
    for i, want in enumerate(chain(t1)):
        if i >= len(got):
            fits = False
            break
        c, t, cons = got[i]
        last = i == len(chain(t1)) - 1
        if want is not None and (c, t) != want:
            fits = False
            break
        if want is None and (c, t) not in inner:
            fits = False
            break
        if not last and not cons:
            fits = False
            break
    same = repr(t0) == repr(t1)
    try:
        o = ty.cls.load(data, **notation(g, t1))
    except ValueError:
        g.true(not same, 'a value is refused under its own tags')
        g.nontrivial((data, repr(t1)))
        g.unit()
        return
    if not fits:
        g.fail('a value was accepted under other tags than those it carries', got=o.native)
    g.unit()


@check.prop(30000, 400000)
def choices(g):
    ty = POOL.pick(g, want=lambda t: isinstance(t, Union))
    a = model.decoded(ty, ty.gen(g))
    t = tagging(g, False)
    f = ty.by_name[a[0]]
    node = t.apply(ty.node(a))
    k = g.draw(3)
    der = node.der()
    g.log('type', show(ty), t)
    if k == 0:
        o = ty.cls(a[0], f.ty.inp(g, a[1]), **notation(g, t))
        data = der
    elif k == 1:
        o = ty.cls.load(der, **notation(g, t))
        data = der
    else:
        b = ref.Ber(g, indefinite=False, segment=False)
        data = b.spell(node)
        o = ty.cls.load(data, **notation(g, t))
    g.log('octets', data)
    g.eq(o.name, a[0], 'name of the alternative')
    if not isinstance(f.ty, AnyOf):
        g.true(type(o.chosen) is f.ty.cls, 'class of the alternative', got=type(o.chosen), want=f.ty.cls)
    inner = f.node(a[1]).der()
    if k < 2:
        g.eq(o.chosen.dump(), inner, 'encoding of the alternative')
    g.eq(o.dump(), data, 'encoding of the choice')
    if not model.matches(ty, a, o.native) or not model.matches(f.ty, a[1], o.chosen.native):
        g.fail('native of the choice', got=o.native, want=ty.nat(a))
    u = o.untag()
    if k < 2:
        g.eq(u.dump(), ty.node(a).der(), 'encoding of the untagged choice')
    g.eq(u.name, a[0], 'name after untag')
    r = u.retag({'explicit': 9})
    if k < 2:
        g.eq(r.dump(), ref.tlv(2, 1, 9, ty.node(a).der()), 'encoding of the retagged choice')
    g.eq(o.dump(), data, 'encoding of the choice afterwards')
    # a name it does not have
    try:
        ty.cls('no_such_alternative', 1)
    except ValueError:
        pass
    else:
        g.fail('a choice accepted an unknown alternative')
    try:
        ty.cls(a[0], f.ty.raw(a[1]), implicit=5)
    except ValueError:
        pass
    else:
        g.fail('a choice accepted an implicit tag')
    # a tag none of the alternatives has
    ids = ty.ids()
    c, n = 1 + g.draw(3), g.choice(TAGS)
    if (c, n) not in ids:
        try:
            ty.cls.load(ref.tlv(c, g.draw(2), n, ref.integer(5)))
        except ValueError:
            pass
        else:
            g.fail('a choice accepted a tag none of its alternatives has', tag=(c, n), ids=ids)
    g.nontrivial((data, show(ty)))
    g.sample('%s %r' % (show(ty)[:300], a))


@check.prop(30000, 400000)
def untyped(g):
    """an untyped value re-emits what it holds, whatever it is parsed as"""
    prims = model.any_prims()
    ty = g.choice(prims) if g.draw(3) else POOL.pick(g, size=300)
    a = model.decoded(ty, ty.gen(g))
    inner_tag = Tagging()
    if isinstance(ty, Prim) and g.draw(3) == 0 or ty.tag and ty.tag[0]:
        inner_tag = tagging(g, ty.tag is not None)
    # (a value does not carry an implicit tag inside an explicit one)
    outer = tagging(g, False) if inner_tag.mode != 'implicit' else Tagging()
    b = ref.Ber(g, indefinite=False, segment=False)
    node = outer.apply(inner_tag.apply(ty.node(a)))
    data = b.spell(node) if g.draw(2) else node.der()
    g.log('type', show(ty), inner_tag, outer)
    g.log('octets', data)

    p = notation(g, outer)
    decl = [('n', core.Integer), ('f', core.Any, p)] if p else [('n', core.Integer), ('f', core.Any)]
    cls = type(str('Holder'), (core.Sequence,), {'_fields': decl})
    whole = ref.seq(ref.integer(3), data)
    h = cls.load(whole)
    hist = []
    f = h['f']
    for _ in range(1 + g.draw(5)):
        k = g.draw(6)
        hist.append(k)
        if k == 0:
            g.eq(f.dump(), data, 'encoding of the untyped value', hist=hist)
        elif k == 1:
            v = f.parse(ty.cls, notation(g, inner_tag) or None)
            if not isinstance(ty, AnyOf):
                g.true(type(v) is ty.cls, 'class of the parsed value', got=type(v))
            if not model.matches(ty, a, v.native):
                g.fail('native of the parsed value', got=v.native, want=ty.nat(a), hist=hist)
            g.eq(v.dump(), data, 'encoding of the parsed value', hist=hist)
            if not model.matches(ty, a, f.native):
                g.fail('native of the untyped value parsed with a class', got=f.native, want=ty.nat(a), hist=hist)
        elif k == 2:
            try:
                f.parse(core.Real, {'explicit': ('private', 77)})
            except ValueError:
                pass
            else:
                g.fail('an untyped value was parsed as something else', hist=hist)
        elif k == 3:
            # (the class of a value that is not universal would be a guess)
            if not inner_tag.mode and not isinstance(ty, Union):
                f.parse()
        elif k == 4:
            f = f.copy()
            g.eq(f.dump(), data, 'encoding of a copy of the untyped value', hist=hist)
        else:
            g.eq(h.dump(), whole, 'encoding of the record', hist=hist)
    g.eq(f.dump(), data, 'encoding of the untyped value', hist=hist)
    g.eq(h.dump(), whole, 'encoding of the record', hist=hist)
    v = f.parse(ty.cls, notation(g, inner_tag) or None)
    if not model.matches(ty, a, v.native):
        g.fail('native of the parsed value', got=v.native, want=ty.nat(a), hist=hist)
    # built from a value (one that already carries the tags of the field is left alone)
    if outer.mode and outer.pairs == inner_tag.pairs:
        return
    o = v.untag() if not inner_tag.mode else v.untag().retag(retag_args(g, inner_tag))
    w = core.Any(o, **notation(g, outer))
    if data == node.der():
        g.eq(w.dump(), data, 'encoding of an untyped value built from one')
        h2 = cls({'n': 3, 'f': o})
        g.eq(h2.dump(), whole, 'encoding of a record built with a value for an untyped field')
    if not model.matches(ty, a, w.native):
        g.fail('native of an untyped value built from one', got=w.native, want=ty.nat(a))
    g.nontrivial((data, tuple(hist)))
    g.sample('%s via %s' % (data.hex(), hist))


@check.prop(30000, 400000)
def placed(g):
    """a value put into a field, an alternative or a list takes on the tags of its place, whatever tags it carried before"""
    ty, a = value(g)
    if isinstance(ty, AnyOf):
        return
    a = model.decoded(ty, a)
    implicit = ty.tag is not None
    t0 = tagging(g, implicit)
    k = g.draw(4)
    g.log('type', show(ty), t0)
    if k == 0 or isinstance(ty, Union):
        o = ty.cls.load(t0.apply(ty.node(a)).der(), **notation(g, t0))
    elif k == 1:
        o = ty.cls(ty.inp(g, a), **notation(g, t0))
    elif k == 2:
        o = ty.cls(ty.inp(g, a)).retag(retag_args(g, t0))
    else:
        # the field of another record
        p = notation(g, t0)
        other = type(str('Other'), (core.Sequence,), {'_fields': [('x', ty.cls, p)] if p else [('x', ty.cls)]})
        o = other.load(ref.seq(t0.apply(ty.node(a)).der()))['x']
    if g.draw(2):
        o.native
    t1 = t0 if g.draw(5) == 0 else tagging(g, implicit)
    want = t1.apply(ty.node(a)).der()
    p = notation(g, t1)
    n = g.draw(300)
    where = g.choice(['field', 'built field', 'replaced field', 'optional field', 'set field', 'alternative', 'list', 'set list'])
    g.log('into', where, t1, p)
    outer = Tagging()
    opt = dict(p)
    if g.draw(2):
        opt['optional'] = True
    if where in ('field', 'built field', 'replaced field', 'optional field'):
        if where == 'optional field':
            opt['optional'] = True
        cls = type(str('Holder'), (core.Sequence,), {'_fields': [('n', core.Integer), ('f', ty.cls, opt) if opt else ('f', ty.cls)]})
        whole = ref.seq(ref.integer(n), want)
        if where == 'built field':
            h = cls({'n': n, 'f': o})
        else:
            h = cls({'n': n})
            if where == 'replaced field':
                h['f'] = ty.cls.load(t0.apply(ty.node(model.decoded(ty, ty.gen(g)))).der(), **notation(g, t0))
            h[g.choice(['f', 1])] = o
        child = lambda h: h['f']
    elif where == 'set field':
        mark = ('private', 55)
        cls = type(str('Holder'), (core.Set,), {'_fields': [('n', core.Integer, {'implicit': mark}), ('f', ty.cls, opt) if opt else ('f', ty.cls)]})
        if isinstance(ty, Union) and not t1.mode:
            return
        if (t1.pairs[-1] if t1.mode else ty.tag) == (3, 55):
            return
        h = cls({'n': n, 'f': o}) if g.draw(2) else cls({'n': n})
        h['f'] = o
        whole = ref.tlv(0, 1, 17, b''.join(sorted([ref.tlv(3, 0, 55, ref.read(ref.integer(n)).content), want], key=lambda d: (ref.read_header(d, 0)[0], ref.read_header(d, 0)[2]))))
        child = lambda h: h['f']
    elif where == 'alternative':
        outer = tagging(g, False)
        cls = type(str('Holder'), (core.Choice,), {'_alternatives': [('n', core.Integer, {'implicit': ('private', 55)}), ('f', ty.cls, p) if p else ('f', ty.cls)]})
        h = cls('f', o, **notation(g, outer))
        whole = wrap(outer, want)
        child = lambda h: h.chosen
    else:
        base, number = (core.SequenceOf, 16) if where == 'list' else (core.SetOf, 17)
        t1 = Tagging()
        want = t1.apply(ty.node(a)).der()
        cls = type(str('Holder'), (base,), {'_child_spec': ty.cls})
        k = g.draw(4)
        if k == 0:
            h = cls([o])
        elif k == 1:
            h = cls([])
            h.append(o)
        elif k == 2:
            h = cls()
            h.append(o)
        else:
            h = cls([ty.cls.load(ty.node(model.decoded(ty, ty.gen(g))).der())])
            h[0] = o
        whole = ref.tlv(0, 1, number, want)
        child = lambda h: h[0]
    g.eq(h.dump(), whole, 'encoding of the holder')
    if not model.matches(ty, a, child(h).native):
        g.fail('native of the placed value', got=child(h).native, want=ty.nat(a))
    g.eq(child(h).dump(), want, 'encoding of the placed value')
    again = cls.load(h.dump(), **notation(g, outer))
    g.eq(child(again).dump(), want, 'encoding of the placed value after re-reading')
    # the value as it was before
    if repr(t0) != repr(t1):
        g.eq(o.dump(), t0.apply(ty.node(a)).der(), 'encoding of the original value afterwards')
        g.nontrivial((whole, repr(t0), where))
        g.sample('%s %r as %r into a %s as %r' % (show(ty)[:200], a, t0, where, t1))
    g.unit(3)


@check.prop(20000, 300000)
def bare(g):
    """a value of an alternative put directly where a choice belongs: matched by the tags it carries, or refused"""
    ty = POOL.pick(g, want=lambda t: isinstance(t, Union))
    a = model.decoded(ty, ty.gen(g))
    f = ty.by_name[a[0]]
    k = g.draw(4)
    vt, va = f.ty, a[1]
    t = f.tagging
    fits = True
    if k == 0:
        # the tags of this alternative around a value of another type
        vt, va = value(g)
        va = model.decoded(vt, va)
        fits = vt is f.ty
        if vt.tag is None and t.mode == 'implicit':
            return
    elif k == 1:
        # other tags, often close to the right ones
        t = tagging(g, f.ty.tag is not None)
        if f.tagging.mode and g.draw(2):
            pairs = [list(p) for p in f.tagging.pairs]
            i = g.draw(len(pairs))
            j = g.draw(3)
            if j == 0:
                pairs[i][g.draw(2)] = 3
            elif j == 1 and f.tagging.mode == 'explicit':
                pairs.insert(i, (2, g.choice(TAGS)))
            t = Tagging(f.tagging.mode, [tuple(p) for p in pairs])
        fits = repr(t) == repr(f.tagging)
    if isinstance(f.ty, AnyOf) or isinstance(vt, AnyOf):
        return
    if isinstance(vt, Union) and not t.mode or vt is ty:
        return
    data = t.apply(vt.node(va)).der()
    kw = notation(g, t)
    if isinstance(vt, model.SpecList):
        kw['spec'] = vt.child.cls
    if g.draw(2) or isinstance(vt, Union):
        v = vt.cls.load(data, **kw)
    else:
        v = vt.cls(vt.inp(g, va), **kw)
    outer = tagging(g, False)
    p = notation(g, outer)
    where = g.choice(['field', 'built field', 'list', 'built list', 'set list'])
    g.log('type', show(ty), 'value', show(vt), data, where, outer)
    listy = 'list' in where
    if listy:
        cls = type(str('Holder'), (core.SetOf if where == 'set list' else core.SequenceOf,), {'_child_spec': ty.cls})
        outer = Tagging()
    else:
        cls = type(str('Holder'), (core.Sequence,), {'_fields': [('f', ty.cls, p) if p else ('f', ty.cls)]})
    number = 17 if where == 'set list' else 16
    old = outer.apply(ty.node(a)).der()
    h = cls.load(ref.tlv(0, 1, number, old))
    if g.draw(2):
        h.native
    try:
        if where == 'built field':
            h = cls({'f': v})
        elif where == 'built list':
            h = cls([v])
        else:
            h[0] = v
    except (ValueError, TypeError) as e:
        if fits:
            raise
        g.true(type(e) in (ValueError, TypeError), 'kind of refusal', got=e)
        if 'built' not in where:
            g.eq(h.dump(), ref.tlv(0, 1, number, old), 'encoding after a refusal')
        g.label('refused')
        g.nontrivial((data, show(ty), repr(outer)))
        g.unit()
        return
    if fits:
        g.eq(h.dump(), ref.tlv(0, 1, number, wrap(outer, data)), 'encoding of the holder')
        g.eq(h[0].name, f.name, 'name of the alternative')
        if not model.matches(f.ty, a[1], h[0].native):
            g.fail('native of the choice', got=h[0].native, want=f.ty.nat(a[1]))
        g.label('fits')
    # whatever was accepted is what a reader finds
    again = cls.load(h.dump())
    g.eq(again[0].name, h[0].name, 'name of the alternative after re-reading')
    got = again[0].chosen
    while isinstance(got, core.Choice) and not isinstance(vt, Union):
        # (the value stands for an alternative of an untagged choice)
        got = got.chosen
    g.eq(got.__class__.tag, vt.cls.tag, 'type of the alternative after re-reading')
    if not isinstance(vt, Union):
        g.eq(got.contents, vt.node(va).der()[-len(got.contents):] if got.contents else b'', 'contents after re-reading')
    g.eq(v.dump(), data, 'encoding of the original value afterwards')
    g.nontrivial((data, show(ty), repr(outer)))
    g.sample('%s into a %s of %s' % (data.hex()[:100], where, show(ty)[:200]))


def wrap(t, data):
    for c, n in t.pairs:
        data = ref.tlv(c, 1, n, data)
    return data


class WideInt(core.IntegerOctetString):
    pass


FAMILIES = [
    (4, [core.OctetString, core.IntegerOctetString, core.ParsableOctetString]),
    (3, [core.BitString, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString]),
]


@check.prop(30000, 400000)
def casts(g):
    tag, classes = g.choice(FAMILIES)
    raw = g.bytes(1, 9)
    content = raw if tag == 4 else b'\x00' + raw
    node = ref.Node(0, tag, 'string' if tag == 4 else 'bits', content, seg_tag=tag)
    t = tagging(g)
    node = t.apply(node)
    src = g.choice(classes)
    der = node.der()
    k = g.draw(3)
    g.log('octets', der, t)
    own_loose = False
    if k == 0:
        o = src.load(der, **notation(g, t))
        data = der
    elif k == 1:
        b = ref.Ber(g)
        data = b.spell(node)
        # the spelling of the value itself; the tags around it are to stay as they were
        own = node
        while own.kind == 'wrap':
            own = own.kids[0]
        own_loose = b.spelled[id(own)][2]
        o = src.load(data, **notation(g, t))
    else:
        v = raw
        if src in (core.IntegerOctetString,):
            # as wide as the octets
            o = core.OctetString(raw, **notation(g, t)).cast(src)
        elif src is core.IntegerBitString:
            o = core.OctetBitString(raw, **notation(g, t)).cast(src)
        elif src is core.BitString:
            o = src(ref.bits_value(content), **notation(g, t))
        else:
            o = src(v, **notation(g, t))
        data = der
    g.log('from', src.__name__, data)
    hist = [src.__name__]
    first = o
    before = o.native if g.draw(2) else None
    for _ in range(1 + g.draw(3)):
        dst = g.choice(classes)
        hist.append(dst.__name__)
        n = o.cast(dst)
        g.true(type(n) is dst, 'class after a cast')
        o = n
        fresh = dst.load(der, **notation(g, t))
        if g.draw(2):
            if not model.equal_native(o.native, fresh.native):
                g.fail('native after a cast', got=o.native, want=fresh.native, hist=hist)
        if g.draw(2) and not own_loose:
            g.eq(o.dump(), data, 'encoding after a cast', hist=hist)
    if not model.equal_native(o.native, fresh.native):
        g.fail('native after a cast', got=o.native, want=fresh.native, hist=hist)
    if own_loose:
        again = dst.load(o.dump(), **notation(g, t))
        if not model.equal_native(again.native, fresh.native):
            g.fail('native after a cast and re-reading', got=again.native, want=fresh.native, hist=hist)
    else:
        g.eq(o.dump(), data, 'encoding after a cast', hist=hist)
        g.eq(first.dump(), data, 'encoding of the original', hist=hist)
    if before is not None and not model.equal_native(first.native, before):
        g.fail('native of the original', got=first.native, want=before, hist=hist)
    g.eq(o.dump(force=True), der, 'forced encoding after a cast', hist=hist)
    other = g.choice([core.Integer, core.UTF8String, core.BitString if tag == 4 else core.OctetString])
    try:
        o.cast(other)
    except TypeError:
        pass
    else:
        g.fail('a cast to a class with another tag', other=other)
    g.nontrivial((data, tuple(hist)))
    g.sample('%s: %s' % (data.hex(), ' -> '.join(hist)))
