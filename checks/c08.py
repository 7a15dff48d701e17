"""C08: user-declared schemas against a reference encoder."""
from lib.pbt import Check
from lib import ref, model
from lib.model import ABSENT, POOL, Record, ListOf, Union, AnyOf
from asn1crypto import core

check = Check('C08', rule=(
    'user-declared schemas of 1-8 fields nested up to 5 deep (records, sets, lists, set-lists, choices, untyped fields; optional and default '
    'fields; implicit, explicit and doubly explicit tags of every class, in every notation the library accepts; implicit and explicit tags of classes; lists typed by their field), each '
    'with values generated for it. Non-trivial: a schema with a tag, an optional or a default field or nesting, i.e. two or more fields '
    'present; distinct by encoding.'))


def show(ty, ind=0):
    if isinstance(ty, Record):
        return '%s%s{%s}' % ('SET' if ty.is_set else 'SEQ', ty.tag if ty.tag[0] else '', ', '.join(
            '%s: %s%s%s' % (f.name, show(f.ty), '' if f.mode == 'req' else ' OPT' if f.mode == 'opt' else ' DEF(%r)' % (f.default,),
                            ' ' + repr(f.tagging) if f.tagging.mode else '') for f in ty.fields))
    if isinstance(ty, ListOf):
        return '%s%s[%s]' % ('SETOF' if ty.is_set else 'SEQOF', ty.tag if ty.tag[0] else '', show(ty.child))
    if isinstance(ty, Union):
        return 'CHOICE(%s)' % ', '.join('%s: %s%s' % (f.name, show(f.ty), ' ' + repr(f.tagging) if f.tagging.mode else '') for f in ty.alts)
    return ty.cls.__name__ + ('%r' % (ty.tag,) if ty.tag and ty.tag[0] else '')


def walk(g, ty, a, o, path='value'):
    """the library's object tree against the abstract value"""
    if isinstance(ty, Record):
        if list(o) != [f.name for f in ty.fields]:
            g.fail('iterating a record', path=path, got=list(o))
        for i, f in enumerate(ty.fields):
            v = a[f.name]
            c = o[f.name]
            if v is ABSENT:
                g.true(isinstance(c, core.Void), 'an absent field is not void', path=path + '.' + f.name, got=c)
                g.true(c.native is None, 'native of an absent field')
                g.true(o[i] is c, 'field by position', path=path)
            else:
                walk(g, f.ty, v, c, path + '.' + f.name)
        g.eq(len(o), len(ty.fields), 'len() of a record', path=path)
    elif isinstance(ty, ListOf):
        g.eq(len(o), len(a), 'length of a list', path=path)
        items = list(o)
        pairs = model.pair(ty, a, items)
        if pairs is None:
            g.fail('members of a set-of', path=path, got=[x.dump() for x in items], want=[ty.child.node(x).der() for x in a])
        for i, (x, c) in enumerate(pairs):
            walk(g, ty.child, x, c, '%s[%d]' % (path, i))
            g.true(o[i] is c, 'item by position', path=path)
    elif isinstance(ty, Union):
        g.eq(o.name, a[0], 'chosen alternative', path=path)
        walk(g, ty.by_name[a[0]].ty, a[1], o.chosen, path + '<' + a[0] + '>')
    elif isinstance(ty, AnyOf):
        pass
    else:
        g.true(isinstance(o, ty.cls), 'class of a field', path=path, got=type(o), want=ty.cls)
    if not model.matches(ty, a, o.native):
        g.fail('native', path=path, got=o.native, want=ty.nat(a))
    g.unit()


def interesting(ty, a):
    return ty.weight(a) > 2


@check.prop(40000, 800000)
def build_and_load(g):
    ty = POOL.pick(g)
    a = ty.gen(g)
    der = model.der(ty, a)
    g.log('type', show(ty))
    g.log('value', a)
    g.log('der', der)
    o = ty.obj(g, a)
    order = g.draw(3)
    if order == 0:
        got = o.dump()
        if got != der:
            g.fail('encoding of a constructed value', got=got, want=der)
    if order != 1:
        if not model.matches(ty, a, o.native):
            g.fail('native of a constructed value', got=o.native, want=ty.nat(a))
    if order == 2:
        walk(g, ty, a, o)
    got = o.dump()
    if got != der:
        g.fail('encoding of a constructed value', got=got, want=der, order=order)
    g.unit(3)
    if not model.matches(ty, a, o.native):
        g.fail('native of a constructed value after encoding', got=o.native, want=ty.nat(a))
    got = o.dump(force=True)
    if got != der:
        g.fail('forced encoding of a constructed value', got=got, want=der)
    b = ty.cls.load(der)
    g.true(type(b) is ty.cls, 'type after load')
    d = model.decoded(ty, a)
    if g.draw(2):
        walk(g, ty, d, b)
    if not model.matches(ty, d, b.native):
        g.fail('native after load', got=b.native, want=ty.nat(d))
    walk(g, ty, d, b)
    got = b.dump()
    if got != der:
        g.fail('encoding after load', got=got, want=der)
    got = b.dump(force=True)
    if got != der:
        g.fail('forced encoding after load', got=got, want=der)
    if interesting(ty, a):
        g.nontrivial(der)
        g.sample('%s = %s' % (show(ty), der.hex()))
    for k in kinds(ty, a):
        g.label(k)


def kinds(ty, a, out=None):
    out = set() if out is None else out
    if isinstance(ty, Record):
        out.add('set' if ty.is_set else 'sequence')
        for f in ty.fields:
            if f.tagging.mode:
                out.add(f.tagging.mode + ('2' if len(f.tagging.pairs) > 1 else ''))
            if a[f.name] is ABSENT:
                out.add('absent')
            else:
                if f.mode == 'def':
                    out.add('default field ' + ('omitted' if ty.same(f, a[f.name]) else 'present'))
                elif f.mode == 'opt':
                    out.add('optional present')
                kinds(f.ty, a[f.name], out)
    elif isinstance(ty, ListOf):
        out.add('setof' if ty.is_set else 'sequenceof')
        for x in a:
            kinds(ty.child, x, out)
    elif isinstance(ty, Union):
        out.add('choice')
        kinds(ty.by_name[a[0]].ty, a[1], out)
    elif isinstance(ty, AnyOf):
        out.add('any')
    return out


@check.prop(20000, 400000)
def piecewise(g):
    """a record filled field by field, in any order"""
    ty = POOL.pick(g, want=lambda t: isinstance(t, Record))
    a = ty.gen(g)
    der = model.der(ty, a)
    g.log('type', show(ty))
    g.log('value', a)
    o = ty.cls()
    touched = False
    fields = g.perm(ty.fields)
    for f in fields:
        v = a[f.name]
        if v is ABSENT:
            if g.draw(4) == 3:
                o[f.name] = None
                touched = True
            continue
        if f.mode == 'def' and ty.same(f, v) and g.draw(2):
            continue
        touched = True
        o[f.name if g.draw(4) else ty.fields.index(f)] = f.ty.inp(g, v) if g.draw(2) else f.ty.obj(g, v)
    if not touched:
        # an object nothing was ever assigned to has no value
        return
    got = o.dump()
    if got != der:
        g.fail('encoding of a record filled field by field', got=got, want=der)
    if not model.matches(ty, a, o.native):
        g.fail('native of a record filled field by field', got=o.native, want=ty.nat(a))
    if len([f for f in fields if a[f.name] is not ABSENT]) > 1:
        g.nontrivial(der)


def rejects(g, ty, data, what):
    """refused at load() or as soon as the value is read"""
    o = None
    try:
        o = ty.cls.load(data)
        n = o.native
    except ValueError:
        return
    g.fail(what, data=data, native=n)


@check.prop(25000, 400000)
def missing_and_undeclared(g):
    ty = POOL.pick(g, want=lambda t: isinstance(t, Record))
    a = ty.gen(g)
    node = ty.node(a)
    g.log('type', show(ty))
    g.log('value', a)
    present = [f for f in ty.fields if a[f.name] is not ABSENT and not (f.mode == 'def' and ty.same(f, a[f.name]))]
    kind = g.draw(3)
    if kind == 0:
        # drop a required field whose identifier nothing after it can supply
        cands = []
        for i, f in enumerate(present):
            if f.mode != 'req' or f.ids() is None:
                continue
            cands.append(f)
        if not cands:
            return
        f = g.choice(cands)
        b = dict(a)
        parts = []
        following = []
        seen = False
        for x in present:
            if x is f:
                seen = True
                continue
            parts.append(x)
            if seen:
                following.append(x)
        idents = [ref.read_header(x.node(a[x.name]).der(), 0)[0:3:2] for x in (parts if ty.is_set else following)]
        if any(i in f.ids() for i in idents):
            return
        kids = [x.node(a[x.name]) for x in parts]
        if ty.is_set:
            kids = g.perm(kids)
        data = ref.Node(ty.tag[0], ty.tag[1], 'seq', kids=kids).der()
        g.log('without', f.name, data)
        rejects(g, ty, data, 'an encoding without the required field %s was accepted' % f.name)
        if not parts:
            return
        o = ty.cls()
        for x in parts:
            o[x.name] = x.ty.inp(g, a[x.name])
        try:
            d = o.dump()
        except ValueError:
            pass
        else:
            g.fail('a record without the required field %s was encoded' % f.name, got=d)
    else:
        # an element no field has
        extra = ref.tlv(g.choice([1, 2, 3]), g.draw(2), 5000 + g.draw(100), b'')
        kids = [f.node(a[f.name]).der() for f in present]
        if any(f.ids() is None for f in ty.fields):
            return
        i = g.draw(len(kids) + 1) if kind == 1 else len(kids)
        kids.insert(i, extra)
        if i == len(kids) - 1 and not ty.is_set and ty.fields:
            g.label('trailing element')
            return trailing(g, ty, a, kids)
        data = ref.tlv(ty.tag[0], 1, ty.tag[1], b''.join(kids))
        g.log('with an extra element', data)
        rejects(g, ty, data, 'an undeclared element was accepted')
    g.nontrivial(data)
    g.sample(data.hex())


def trailing(g, ty, a, kids):
    """elements after the last declared field: kept as extension data under their position, never dropped"""
    data = ref.tlv(ty.tag[0], 1, ty.tag[1], b''.join(kids))
    g.log('with an element after the last field', data)
    o = ty.cls.load(data)
    try:
        n = o.native
    except ValueError:
        g.eq(ty.cls.load(data).dump(), data, 'dump of an unread value')
        g.nontrivial(data)
        return
    g.eq(o.dump(), data, 'dump of a record with a trailing element')
    g.nontrivial(data)


@check.prop(20000, 400000)
def constructors(g):
    """every documented way to make one value: value, default, parsed and spec arguments, with tags"""
    from checks.c10 import tagging, notation
    k = g.draw(6)
    if k == 0:
        # lists whose item type the caller gives
        child = POOL.pick(g, size=300) if g.draw(2) else g.choice(model.basic_prims() + model.wrapped_prims())
        is_set = bool(g.draw(2))
        ty = model.SpecList(core.SetOf if is_set else core.SequenceOf, child, is_set)
        extra = {'spec': child.cls}
    elif k == 1:
        inner = POOL.pick(g, size=300) if g.draw(2) else g.choice(model.basic_prims() + model.wrapped_prims())
        return holding(g, inner, tagging, notation)
    else:
        ty = POOL.pick(g, size=400) if k < 4 else g.choice(model.basic_prims() + model.wrapped_prims())
        extra = {}
    a, other = ty.gen(g), ty.gen(g)
    if ty.cls is core.Null:
        return
    t = tagging(g, ty.tag is not None)
    kw = dict(notation(g, t), **extra)
    node = t.apply(ty.node(a))
    der = node.der()
    g.log('type', show(ty), t, kw)
    g.log('value', a, 'other', other)
    if isinstance(ty, Union):
        how = g.draw(5)
        f = ty.by_name[a[0]]
        v = f.ty.inp(g, a[1])
        if how == 0:
            o = ty.cls(a[0], v, **kw)
        elif how == 1:
            o = ty.cls(name=a[0], value=v, **kw)
        elif how == 2:
            o = ty.cls({a[0]: v}, **kw)
        elif how == 3:
            o = ty.cls((a[0], v), default=ty.raw(other), **kw)
        else:
            o = ty.cls(default=g.choice([{a[0]: v}, (a[0], v)]), **kw)
    else:
        how = g.draw(4)
        v = ty.inp(g, a)
        if how == 0:
            o = ty.cls(v, **kw)
        elif how == 1:
            o = ty.cls(value=v, default=ty.inp(g, other), **kw)
        elif how == 2:
            o = ty.cls(default=v, **kw)
        else:
            o = ty.cls(v, optional=True, **kw)
    g.log('how', how)
    if g.draw(2) and not model.matches(ty, a, o.native):
        g.fail('native of a constructed value', got=o.native, want=ty.nat(a))
    g.eq(o.dump(), der, 'encoding of a constructed value')
    if not model.matches(ty, a, o.native):
        g.fail('native of a constructed value', got=o.native, want=ty.nat(a))
    c = o.copy() if g.draw(2) else o
    g.eq(c.dump(force=True), der, 'forced encoding of a constructed value')
    b = ty.cls.load(der, **dict(kw, default=ty.raw(other)) if g.draw(3) == 2 else kw)
    if not model.matches(ty, model.decoded(ty, a), b.native):
        g.fail('native after load', got=b.native, want=ty.nat(a))
    g.eq(b.dump(), der, 'encoding after load')
    g.label('way %d' % how)
    g.nontrivial((show(ty), der, how))
    g.sample('%s %r = %s' % (show(ty)[:200], t, der.hex()[:200]))


def holding(g, ty, tagging, notation):
    """an octet or bit string made from the object it holds"""
    if isinstance(ty, AnyOf) or ty.cls is core.Null:
        return
    bits = g.draw(2)
    cls = core.ParsableOctetBitString if bits else core.ParsableOctetString
    a = ty.gen(g)
    t = tagging(g)
    inner = ty.node(a).der()
    node = t.apply(ref.Node(0, 3, 'bits', b'\x00' + inner) if bits else ref.Node(0, 4, 'string', inner))
    der = node.der()
    kw = notation(g, t)
    g.log('holding', show(ty), t, a)
    p = ty.obj(g, a)
    o = cls(parsed=p, **kw)
    for k in [g.draw(5) for _ in range(g.draw(4))]:
        if k == 0:
            g.true(o.parsed is p, 'the object held is another one')
        elif k == 1:
            g.eq(bytes(o), inner, 'octets of what is held')
        elif k == 2:
            g.true(model.matches(ty, a, o.native), 'native of what is held', got=o.native, want=ty.nat(a))
        elif k == 3:
            g.eq(o.dump(force=True), der, 'forced encoding')
        elif k == 4:
            o = o.copy()
            p = o.parsed
    g.eq(o.dump(), der, 'encoding')
    b = cls.load(der, **kw)
    for _ in range(2):
        q = b.parse(ty.cls)
        g.true(type(q) is ty.cls, 'class parsed', got=type(q))
        g.true(model.matches(ty, a, q.native), 'native of what is held', got=q.native, want=ty.nat(a))
        g.true(b.parsed is q, 'what is held is parsed again')
    g.eq(q.dump(), inner, 'encoding of what is held')
    # other octets leave what was parsed behind
    c = g.choice(model.basic_prims())
    v = c.gen(g)
    b.set(c.node(v).der())
    g.true(model.matches(c, v, b.parse(c.cls).native), 'native of what is held after set()', got=b.native, want=c.nat(v))
    n2 = t.apply(ref.Node(0, 3, 'bits', b'\x00' + c.node(v).der()) if bits else ref.Node(0, 4, 'string', c.node(v).der()))
    g.eq(b.dump(), n2.der(), 'encoding after set()')
    g.label('parsed')
    g.nontrivial((show(ty), der))
