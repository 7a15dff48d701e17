"""C24: the predefined structures against the published definitions."""
from lib.pbt import Check
from lib import ref, model, predef
from lib.model import ABSENT, Record, ListOf, Union, AnyOf
from lib.predef import Dep, Inside, NameTy
from lib.schema import DATA, resolve, named
from asn1crypto import core

check = Check('C24', rule=(
    'every predefined structure (X.509, CRL, OCSP, CSR, keys, algorithms, CMS, TSP, PKCS#12, PDF), with values generated from a frozen copy of '
    'its published definition: optional and default fields, every alternative, every registered identifier with the type it selects, unregistered '
    'identifiers, nested to a bounded size; against a reference encoder. Non-trivial: two or more parts; distinct by class and encoding.'))


def walk(g, ty, a, o, path):
    """the object tree against the abstract value"""
    if isinstance(ty, Dep):
        ty, a = a
        if isinstance(ty, AnyOf):
            return
        if isinstance(o, core.Any):
            o = o.parsed
        walk(g, ty, a, o, path)
        return
    if isinstance(ty, Record):
        if list(o) != [f.name for f in ty.fields]:
            g.fail('iterating a record', path=path, got=list(o))
        for f in ty.fields:
            c = o[f.name]
            v = a[f.name]
            if v is ABSENT:
                g.true(isinstance(c, core.Void) and c.native is None, 'an absent field is not void', path=path + '.' + f.name, got=c)
            else:
                walk(g, f.ty, v, c, path + '.' + f.name)
    elif isinstance(ty, ListOf):
        g.eq(len(o), len(a), 'length of a list', path=path)
        pairs = model.pair(ty, a, list(o))
        if pairs is None:
            g.fail('members of a set-of', path=path, got=[x.dump() for x in o], want=[ty.child.node(x).der() for x in a])
        for i, (x, c) in enumerate(pairs):
            walk(g, ty.child, x, c, '%s[%d]' % (path, i))
    elif isinstance(ty, Union):
        g.eq(o.name, a[0], 'chosen alternative', path=path)
        walk(g, ty.by_name[a[0]].ty, a[1], o.chosen, path + '<' + a[0] + '>')
    elif isinstance(ty, Inside):
        g.true(isinstance(o, ty.cls), 'class of a field', path=path, got=type(o), want=ty.cls)
        walk(g, ty.inner, a, o.parsed, path + '()')
    elif isinstance(ty, (AnyOf, NameTy)):
        pass
    else:
        g.true(isinstance(o, ty.cls), 'class of a field', path=path, got=type(o), want=ty.cls)
    if not model.matches(ty, a, o.native):
        g.fail('native', path=path, got=o.native, want=ty.nat(a))
    g.unit()


def start(g):
    path = g.choice(predef.PATHS)
    return given(g, path)


def given(g, path):
    ty = predef.build(path)
    a = predef.value(g, ty)
    der = model.der(ty, a)
    g.log('class', path)
    g.log('native', ty.nat(a))
    g.log('der', der)
    return path, ty, a, der


def note(g, path, ty, a, der):
    g.label(path.split('.')[0])
    if ty.weight(a) > 2:
        g.nontrivial((path, der))
        g.sample('%s %s' % (path, der.hex()[:400]))


@check.prop(30000, 800000)
def build_structures(g):
    path, ty, a, der = start(g)
    o = ty.obj(g, a)
    order = g.draw(3)
    if order == 0:
        g.eq(o.dump(), der, 'encoding of a constructed value')
    elif order == 1:
        if not model.matches(ty, a, o.native):
            g.fail('native of a constructed value', got=o.native, want=ty.nat(a))
    else:
        walk(g, ty, a, o, path)
    g.eq(o.dump(), der, 'encoding of a constructed value after reading')
    if not model.matches(ty, a, o.native):
        g.fail('native of a constructed value after encoding', got=o.native, want=ty.nat(a))
    g.eq(o.dump(force=True), der, 'forced encoding of a constructed value')
    g.unit(4)
    note(g, path, ty, a, der)


@check.prop(30000, 800000)
def load_structures(g):
    path, ty, a, der = start(g)
    o = ty.cls.load(der, strict=True)
    g.true(type(o) is ty.cls, 'type after load', got=type(o))
    d = model.decoded(ty, a)
    if g.draw(2):
        walk(g, ty, d, o, path)
    if not model.matches(ty, d, o.native):
        g.fail('native after load', got=o.native, want=ty.nat(d))
    walk(g, ty, d, o, path)
    g.eq(o.dump(), der, 'encoding after load')
    g.eq(o.dump(force=True), der, 'forced encoding after load')
    if not model.matches(ty, d, o.native):
        g.fail('native after forced encoding', got=o.native, want=ty.nat(d))
    g.unit(4)
    note(g, path, ty, a, der)


@check.prop(15000, 300000)
def via_native(g):
    """the native of a decoded value builds the same encoding again"""
    path, ty, a, der = start(g)
    if not rebuildable(ty, a):
        return
    native = ty.cls.load(der).native
    o = ty.cls(native)
    g.eq(o.dump(), der, 'encoding of a value built from the native of the decoded one', native=native)
    g.unit()
    note(g, path, ty, a, der)


def rebuildable(ty, a):
    """natives that say which type and alternative they came from"""
    if isinstance(ty, Record):
        return all(v is ABSENT or rebuildable(ty.by_name[n].ty, v) for n, v in a.items())
    if isinstance(ty, ListOf):
        return all(rebuildable(ty.child, x) for x in a)
    if isinstance(ty, (Union, AnyOf, NameTy)):
        return False
    inner = ty.deref(a)
    if inner:
        return rebuildable(*inner)
    if ty is predef.NULL or issubclass(ty.cls, core.Null):
        # None says absent
        return False
    # some names stand for more than one identifier
    pref = DATA[ty.path].get('preferred') if ty.path in DATA else None
    return not pref or pref.get(ty.nat(a), a) == a


NAMED = [(path, num, name) for kind in ('objectidentifier', 'integer', 'enumerated', 'bitstring')
         for path, k, table in named(kind) for num, name in sorted(table.items())]


@check.prop(len(NAMED), len(NAMED), shards=1)
def tables(g):
    """every declared name, both ways"""
    path, num, name = NAMED[g.enum(len(NAMED))]
    d = DATA[path]
    cls = resolve(path)
    pref = d.get('preferred') or {}
    g.log('table', path, num, name)
    if d['kind'] == 'objectidentifier':
        der = ref.tlv(0, 0, 6, ref.oid_content(num))
        g.eq(cls(num).native, name, 'name of a number')
        g.eq(cls(name).dotted, pref.get(name, num), 'number of a name')
        g.eq(cls(name).dump(), ref.tlv(0, 0, 6, ref.oid_content(pref.get(name, num))), 'encoding of a name')
        g.eq(cls.load(der).native, name, 'name of an encoding')
        g.eq(cls.map(num), name, 'map()')
        g.eq(cls.unmap(name), pref.get(name, num), 'unmap()')
    elif d['kind'] == 'bitstring':
        der = ref.named_bits([int(num)])
        g.eq(cls({name}).dump(), der, 'encoding of a name')
        g.eq(cls.load(der).native, {name}, 'name of an encoding')
    else:
        der = ref.tlv(0, 0, 10 if d['kind'] == 'enumerated' else 2, ref.int_content(int(num)))
        g.eq(cls(name).dump(), der, 'encoding of a name')
        g.eq(cls.load(der).native, name, 'name of an encoding')
        g.eq(cls(int(num)).native, name, 'name of a number')
    g.unit(3)
    g.nontrivial((path, num))
    g.sample('%s %s %s' % (path, num, name))
