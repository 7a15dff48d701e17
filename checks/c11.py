"""C11: copies and pickles are equal to and independent of the original."""
import copy
import pickle

from lib.pbt import Check, Discard
from lib import ref, model, corpus, graph
from lib.model import POOL, Union, AnyOf, Record, ListOf, Prim
from checks.c08 import show
from checks.c09 import Machine, want_container
from checks.c10 import tagging, notation
from asn1crypto import core

check = Check('C11', rule=(
    'values of every scalar class, of generated schemas and of real documents (built, loaded from DER or BER, tagged), read and edited at random '
    'depths, then copied by copy(), copy.copy, copy.deepcopy or pickle, whole or in part; then either side is edited on. Oracle: the copy has '
    'the class, native value, tagging and octets of the original, and each side follows its own plain model. Non-trivial: at least one read or '
    'edit before the copy or one edit after it; distinct by octets and history.'))


def repickle(o):
    # (classes made on the fly can not be found by name, so the recipe is followed directly)
    fn, args = o.__reduce__()[:2]
    return fn(*args)


def real_pickle(o):
    return pickle.loads(pickle.dumps(o, 2))


WAYS = [('copy()', lambda o: o.copy()), ('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy), ('pickle', repickle)]
REAL = WAYS[:3] + [('pickle', real_pickle)]


def duplicate(g, o, ways=WAYS, odd=False):
    """odd: octets that were parsed as a guess may be no value at all"""
    name, fn = g.choice(ways)
    g.log(name)
    if odd:
        try:
            return name, fn(o)
        except (ValueError, TypeError):
            raise Discard('a value that was guessed')
    return name, fn(o)


def identity(g, name, o, c, loose=False, hist=None, odd=False):
    """a copy against its original"""
    if c is o:
        g.fail('the copy is the original', how=name)
    g.true(type(c) is type(o), 'class of the copy', got=type(c), want=type(o), how=name)
    try:
        before = o.dump()
    except (ValueError, TypeError):
        if odd:
            raise Discard('a value that was guessed')
        raise
    got = c.dump()
    if not loose and got != before:
        g.fail('encoding of the copy', got=got, want=before, how=name, hist=hist)
    try:
        n = o.native
    except (ValueError, TypeError):
        n = None
    else:
        # (pickling an indefinite set of values puts them in order, and forgets that octets were parsed without being told to)
        if not (loose and 'pickle' in name) and not odd and not model.equal_native(c.native, n):
            g.fail('native of the copy', got=c.native, want=n, how=name, hist=hist)
    if not isinstance(o, core.Concat) and not odd:
        a, b = graph.quiet(lambda: o.untag().dump()), graph.quiet(lambda: c.untag().dump())
        if not loose and a != b:
            g.fail('untagged encoding of the copy', got=b, want=a, how=name, hist=hist)
        mode = 'explicit' if isinstance(o, (core.Choice, core.Any)) else 'implicit'
        a, b = graph.quiet(lambda: o.retag({mode: 7}).dump()), graph.quiet(lambda: c.retag({mode: 7}).dump())
        if not loose and a != b:
            g.fail('retagged encoding of the copy', got=b, want=a, how=name, hist=hist)
    if not loose:
        g.eq(c.dump(), got, 'encoding of the copy after reading it')
        g.eq(o.dump(), before, 'encoding of the original after copying and reading')
    g.unit(4)


def plain(ty):
    """the native value of a parsable string depends on whether it was parsed"""
    return 'Parsable' not in show(ty)


def build(g, ty, a, implicit=True):
    """(object, tagging, own encoding is loose)"""
    t = tagging(g, implicit and ty.tag is not None) if g.draw(3) == 0 else model.Tagging()
    node = t.apply(ty.node(a))
    k = g.draw(4)
    if k == 0 and not (isinstance(ty, (Union, AnyOf)) and t.mode):
        o = ty.cls(ty.inp(g, a), **notation(g, t)) if not isinstance(ty, (Union, AnyOf)) else ty.obj(g, a)
        return o, t, False, None
    if k == 3:
        b = ref.Ber(g)
        data = b.spell(node)
        o = ty.cls.load(data, **notation(g, t))
        g.log('loaded', data)
        return o, t, bool(set(b.used) & {'indefinite', 'segment'}), data
    data = node.der()
    g.log('loaded', data)
    return ty.cls.load(data, **notation(g, t)), t, False, data


@check.prop(60000, 900000)
def equal(g):
    if g.draw(3) == 0:
        ty = POOL.pick(g, size=400)
    else:
        ty = g.choice(model.basic_prims() + model.wrapped_prims())
    a = model.decoded(ty, ty.gen(g))
    g.log('type', show(ty), a)
    o, t, loose, data = build(g, ty, a)
    hist = []
    for _ in range(g.draw(4)):
        hist.append(graph.read(g, o))
    g.log('reads', hist)
    # (neither has the order of a set-of a meaning)
    odd = not plain(ty)
    name, c = duplicate(g, o, odd=odd)
    n = c.native if plain(ty) else None
    if plain(ty) and not model.matches(ty, a, n):
        g.fail('native of the copy', got=n, want=ty.nat(a), how=name, hist=hist)
    if not loose:
        g.eq(c.dump(), data if data is not None else t.apply(ty.node(a)).der(), 'encoding of the copy', how=name, hist=hist)
    identity(g, name, o, c, loose, hist, odd or 'SETOF' in show(ty))
    # a copy of the copy, and what its tags say
    name2, d = duplicate(g, c, odd=odd)
    identity(g, name + ', ' + name2, o, d, loose, hist, odd or 'SETOF' in show(ty))
    if not odd:
        g.eq(d.dump(force=True), o.copy().dump(force=True), 'forced encoding of the copy', how=name, hist=hist)
    if plain(ty) and not model.matches(ty, a, o.native):
        g.fail('native of the original after the copy', got=o.native, want=ty.nat(a), hist=hist)
    if t.mode and plain(ty):
        again = ty.cls.load(d.dump(), **notation(g, t))
        g.true(model.matches(ty, a, again.native), 'the copy is read under the tags of the original', got=again.native)
    if hist or t.mode:
        g.nontrivial((o.dump(), name, hist))
        g.sample('%s of %s %r after %s' % (name, show(ty)[:200], t, hist))


@check.prop(25000, 400000)
def independent(g):
    """both sides live on, each follows its own model"""
    ty = POOL.pick(g, want=want_container)
    a = copy.deepcopy(ty.gen(g))
    g.log('type', show(ty))
    g.log('start', a)
    k = g.draw(3)
    der_only = True
    if k == 0:
        o = ty.obj(g, a)
    elif k == 1:
        o = ty.cls.load(model.der(ty, a))
        a = model.decoded(ty, a)
    else:
        b = ref.Ber(g)
        o = ty.cls.load(b.spell(ty.node(a)))
        der_only = not b.used
        if der_only:
            a = model.decoded(ty, a)
    one = Machine(g, ty, a, o, der_only)
    for _ in range(g.draw(4)):
        k = g.draw(3)
        if k == 0:
            one.edit()
        elif k == 1:
            one.read()
        else:
            one.compare_dump(False)
    name, c = duplicate(g, one.o)
    one.step('duplicate by %s' % name)
    # members of sets keep the order they were read in
    two = Machine(g, ty, copy.deepcopy(one.a), c, one.der_only)
    two.hist = list(one.hist)
    if name == 'pickle' and one.der_only:
        two.a = model.decoded(ty, two.a)
    sides = [one, two]
    if g.draw(2):
        two.compare_native()
    for _ in range(1 + g.draw(6)):
        m = g.choice(sides)
        m.step('original:' if m is one else 'copy:')
        k = g.draw(6)
        if k < 3:
            m.edit()
        elif k == 3:
            m.read()
        elif k == 4:
            m.compare_dump(False)
        else:
            m.compare_native()
        for s in sides:
            if s is not m and g.draw(3) == 0:
                if g.draw(2):
                    s.compare_native()
                else:
                    s.compare_dump(False)
    for s in sides if g.draw(2) else sides[::-1]:
        if g.draw(2):
            s.compare_native()
        s.compare_dump(False)
        s.compare_native()
    for s in sides:
        s.compare_dump(True)
    if one.edits or two.edits:
        g.nontrivial((one.hist, two.hist, one.o.dump(), two.o.dump()))
        g.sample('%s: %s | %s' % (show(ty)[:200], '; '.join(one.hist), '; '.join(two.hist)))


def settable():
    return [p for p in model.basic_prims() if p.cls is not core.Null and 'Parsable' not in p.cls.__name__]


@check.prop(25000, 400000)
def scalars(g):
    """reassigning one side of a copied scalar leaves the other as it was"""
    ty = g.choice(settable())
    a, b = ty.gen(g), ty.gen(g)
    g.log('type', show(ty), a, b)
    o, t, loose, data = build(g, ty, a)
    hist = [graph.read(g, o) for _ in range(g.draw(3))]
    if g.draw(2):
        # a value that was reassigned
        o.set(ty.raw(a))
        hist.append('set')
        loose = False
    name, c = duplicate(g, o)
    hist.append(name)
    hist += [graph.read(g, g.choice([o, c])) for _ in range(g.draw(3))]
    x, y = (o, c) if g.draw(2) else (c, o)
    x.set(ty.raw(b))
    hist.append('set the %s' % ('original' if x is o else 'copy'))
    g.log('history', hist)
    for obj, v in g.perm([(x, b), (y, a)]):
        if not model.matches(ty, v, obj.native):
            g.fail('native', got=obj.native, want=ty.nat(v), hist=hist, edited=obj is x)
        if not (loose and obj is y):
            want = t.apply(ty.node(v)).der()
            g.eq(obj.dump(force=True) if obj is y else obj.dump(), want, 'encoding', hist=hist, edited=obj is x)
        if not model.matches(ty, v, obj.native):
            g.fail('native', got=obj.native, want=ty.nat(v), hist=hist, edited=obj is x)
    g.nontrivial((hist, x.dump(), y.dump()))
    g.sample('%s %r/%r: %s' % (ty.name(), a, b, hist))


BITS = [t for t in model.basic_prims() if t.cls in (core.BitString, model.UserBits)]


@check.prop(12000, 200000)
def bits(g):
    """single bits of one side of a copied bit string, against two sets (or tuples) of bits"""
    ty = g.choice(BITS)
    named = ty.cls is not core.BitString
    v = ty.gen(g)
    if not named and not v:
        v = (1,)
    o, t, loose, data = build(g, ty, v)
    hist = [graph.read(g, o) for _ in range(g.draw(3))]
    if g.draw(3) == 0:
        o.set(ty.raw(v))
        hist.append('set')
        loose = False
    name, c = duplicate(g, o)
    hist.append(name)
    sides = [[o, v, loose], [c, v, loose]]
    for _ in range(1 + g.draw(4)):
        side = g.choice(sides)
        obj, now = side[:2]
        who = 'the original' if obj is o else 'the copy'
        hist.append('%s of %s' % (graph.read(g, obj), who) if g.draw(2) else 'nothing')
        if named:
            i = g.draw(12)
            on = bool(g.draw(3)) if i not in now else False
            obj[g.choice([i, ty.cls._map[i]]) if i in ty.cls._map else i] = on
            side[1] = now | {i} if on else now - {i}
        else:
            i = g.draw(len(now))
            on = 1 - now[i]
            obj[i] = bool(on)
            side[1] = now[:i] + (on,) + now[i + 1:]
        side[2] = False
        hist.append('bit %d of %s = %r' % (i, who, on))
        g.log('history', hist)
        for obj, want, loose in g.perm(sides):
            g.eq(obj.native, ty.nat(want), 'bits', hist=hist, of='original' if obj is o else 'copy')
            if not loose:
                g.eq(obj.dump(force=True), t.apply(ty.node(want)).der(), 'encoding', hist=hist, of='original' if obj is o else 'copy')
    if sides[0][1] != sides[1][1]:
        g.nontrivial((hist, o.dump(), c.dump()))
    g.sample('%s %r: %s' % (ty.name(), v, hist))


DEEP = [WAYS[0], WAYS[2]]


@check.prop(12000, 200000)
def joined(g):
    """values that are laid end to end: each part of each side follows its own model"""
    tys = [POOL.pick(g, want=want_container, size=400) for _ in range(1 + g.draw(3))]
    vals = [copy.deepcopy(ty.gen(g)) for ty in tys]
    cls = type(str('Joined'), (core.Concat,), {'_child_specs': [ty.cls for ty in tys]})
    g.log('types', [show(ty) for ty in tys])
    g.log('start', vals)
    if g.draw(2):
        o = cls([ty.obj(g, a) for ty, a in zip(tys, vals)])
    else:
        o = cls.load(b''.join(model.der(ty, a) for ty, a in zip(tys, vals)))
        vals = [model.decoded(ty, a) for ty, a in zip(tys, vals)]
    one = [Machine(g, ty, a, o[i], True) for i, (ty, a) in enumerate(zip(tys, vals))]
    hist = []

    def live(m):
        k = g.draw(5)
        if k < 3:
            m.edit()
        elif k == 3:
            m.read()
        else:
            m.compare_native()

    for _ in range(g.draw(4)):
        live(g.choice(one))
    shallow = g.draw(4) == 0
    name, c = ('copy.copy', copy.copy(o)) if shallow else duplicate(g, o, DEEP)
    hist.append(name)
    if c is o or type(c) is not type(o) or len(c) != len(o):
        g.fail('the copy of a concatenation', got=c, want=o, how=name)
    two = [Machine(g, m.ty, copy.deepcopy(m.a), c[i], True) for i, m in enumerate(one)]
    sides = [(o, one, 'original'), (c, two, 'copy')]
    for _ in range(1 + g.draw(5)):
        obj, ms, who = g.choice(sides)
        i = g.draw(len(ms))
        if shallow or g.draw(4) == 0:
            # (a shallow copy is a list of its own, of the same parts)
            a = copy.deepcopy(tys[i].gen(g))
            obj[i] = tys[i].obj(g, a)
            ms[i] = Machine(g, tys[i], a, obj[i], True)
            hist.append('replace part %d of the %s' % (i, who))
        else:
            live(ms[i])
            hist.append('part %d of the %s' % (i, who))
    g.log('history', hist)
    for obj, ms, who in g.perm(sides):
        for i, m in enumerate(ms):
            if obj[i] is not m.o:
                g.fail('part', index=i, of=who, hist=hist)
            m.compare_dump(False)
            m.compare_native()
        want = b''.join(model.der(m.ty, m.a) for m in ms)
        g.eq(obj.dump(force=True), want, 'encoding of a concatenation', of=who, hist=hist)
    g.nontrivial((hist, o.dump(), c.dump()))
    g.sample('%s: %s' % ([show(t)[:80] for t in tys], hist))


@check.prop(6000, 100000)
def documents(g):
    doc = g.choice(corpus.DOCS)
    g.log('document', doc[0], doc[1])
    data = doc[2]
    tidy = doc[0] in corpus.TIDY
    if tidy and g.draw(3) == 0:
        data = ref.Ber(g, indefinite=False, segment=False).spell(corpus.tree(data))
        g.log('octets', data)
    o = corpus.cls_of(doc).load(data)
    hist = [graph.read(g, o) for _ in range(g.draw(5))]
    # a part
    part, path, unread = o, '', False
    for _ in range(g.draw(6)):
        ks = [x for x in graph.kids(part) if not isinstance(x[1], core.Void)]
        if not ks:
            break
        label, part = g.choice(ks)
        path += label
    g.log('reads', hist, 'part', path)
    loose = not tidy
    name, c = duplicate(g, part, REAL)
    identity(g, name, part, c, loose, hist + [path], 
             # (what a part is parsed as, or whether it was, is known to the whole alone)
             'parsed' in str(hist) + path or 'props' in str(hist) or 'debug' in str(hist) or name == 'pickle' and bool(path))
    if not loose:
        g.eq(o.dump(), data, 'encoding of the original after copying a part', part=path, how=name)
    # accessors say the same of the copy as of the original
    for p in graph.props(type(part)) if name != 'pickle' or not path else ():
        try:
            x = getattr(part, p)
        except Exception as e:
            x = ('raises', type(e).__name__)
        try:
            y = getattr(c, p)
        except Exception as e:
            y = ('raises', type(e).__name__)
        if not same(x, y):
            g.fail('accessor of the copy', accessor=p, got=y, want=x, how=name, part=path, cls=type(part))
        g.unit()
    # an edit below the copy does not reach the original
    before = c.dump()
    hist2 = []
    victim, victim_path = c, ''
    for _ in range(6):
        if isinstance(victim, core.Sequence) and g.draw(2):
            break
        ks = [x for x in graph.kids(victim, parsed=False) if not isinstance(x[1], core.Void)]
        if not ks:
            break
        label, victim = g.choice(ks)
        victim_path += label
    if hasattr(victim, 'set'):
        try:
            new = {core.Integer: 123456789, core.Boolean: not victim.native}.get(type(victim), victim.native)
            if isinstance(victim, core.AbstractString):
                new = 'a'
            elif isinstance(victim, core.OctetString):
                new = b'zzz'
            victim.set(new)
            hist2.append('set %s' % victim_path)
        except (ValueError, TypeError, AttributeError):
            return
    elif isinstance(victim, core.SequenceOf) and len(victim):
        del victim[0]
        hist2.append('delete the first item of %s' % victim_path)
    if not loose:
        g.eq(o.dump(), data, 'encoding of the original after editing its copy', part=path, how=name, edit=hist2)
        g.eq(part.dump(), before, 'encoding of the copied part after editing its copy', part=path, how=name, edit=hist2)
    g.nontrivial((doc[0], path, name, hist, hist2))
    g.sample('%s%s: %s after %s, then %s' % (doc[0], path, name, hist, hist2))


def same(x, y):
    if isinstance(x, core.Asn1Value) or isinstance(y, core.Asn1Value):
        return type(x) is type(y) and x.dump() == y.dump()
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if type(x) is not type(y):
        return False
    if hasattr(x, 'native'):
        return x.native == y.native
    return model.equal_native(x, y) or x == y
