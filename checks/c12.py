"""C12: object identifiers against the reference arc codec and the frozen tables."""
from lib.pbt import Check
from lib import ref, schema
from asn1crypto import core

check = Check('C12', rule=(
    'arc lists: first arc 0-2, second below 40 (or of any size under 2), further arcs log-uniform up to 2^200 with bias to 7-bit '
    'boundaries; generated and declared name tables; reassignment histories. Non-trivial: an arc of two or more base-128 octets, or a '
    'named identifier; distinct by identifier.'))


def arc(g):
    k = g.draw(5)
    if k < 2:
        return g.draw(130)
    if k == 2:
        return max(0, (1 << (7 * (1 + g.draw(8)))) + g.draw(5) - 2)
    return g.nat(g.choice([14, 32, 64, 200]))


def gen_arcs(g):
    first = g.draw(3)
    second = g.draw(40) if first < 2 else arc(g)
    return [first, second] + g.list(lambda: arc(g), 0, 9)


def dot(arcs):
    return '.'.join(str(a) for a in arcs)


@check.prop(60000, 1500000)
def arcs(g):
    a = gen_arcs(g)
    d = dot(a)
    g.log('oid', d)
    der = ref.tlv(0, 0, 6, ref.arcs_content(a))
    o = core.ObjectIdentifier(d)
    g.eq(o.dump(), der, 'dump()')
    g.eq((o.dotted, o.native, str(o)), (d, d, d), 'views of a constructed identifier')
    for b in (core.ObjectIdentifier.load(der), core.load(der)):
        g.true(type(b) is core.ObjectIdentifier, 'type after load')
        if g.draw(2):
            g.eq(b.native, d, 'native after load')
            g.eq(b.dotted, d, 'dotted after load')
        else:
            g.eq(b.dotted, d, 'dotted after load')
            g.eq(b.native, d, 'native after load')
        g.eq(b.dump(), der, 'dump after load')
        g.eq(b.dump(force=True), der, 'forced dump after load')
        g.eq((b.dotted, b.native), (d, d), 'views after forced dump')
        g.true(b == o, 'equality')
    other = gen_arcs(g)
    g.eq(core.ObjectIdentifier(dot(other)) == o, other == a, 'equality with another identifier', other=dot(other))
    if max(a[2:] + [a[0] * 40 + a[1]]) > 127:
        g.nontrivial(d)
        g.sample(d)


@check.prop(20000, 300000)
def relative(g):
    a = g.list(lambda: arc(g), 1, 8)
    d = dot(a)
    g.log('relative oid', d)
    der = ref.tlv(0, 0, 13, ref.rel_oid_content(a))
    o = core.RelativeOid(d)
    g.eq(o.dump(), der, 'RELATIVE-OID dump()')
    g.eq(core.RelativeOid.load(der).dotted, d, 'RELATIVE-OID dotted after load')
    g.eq(core.RelativeOid.load(der).native, d, 'RELATIVE-OID native after load')
    g.eq(core.load(der).native, d, 'RELATIVE-OID untyped load')
    g.eq(core.RelativeOid.load(der).dump(True), der, 'RELATIVE-OID forced dump')
    if max(a) > 127:
        g.nontrivial(d)


def views(g, o, d, mapping, what):
    """All views, in a drawn order"""
    name = mapping.get(d, d)
    for k in g.perm(['native', 'dotted', 'dump', 'str']):
        if k == 'native':
            g.eq(o.native, name, what + ': native')
        elif k == 'dotted':
            g.eq(o.dotted, d, what + ': dotted')
        elif k == 'str':
            g.eq(str(o), d, what + ': str()')
        else:
            g.eq(ref.read(o.dump()).content, ref.oid_content(d), what + ': contents')


@check.prop(12000, 200000)
def history(g):
    """Reassignment, reads, copies and reloads on one object, with and without names"""
    n = g.draw(5)
    mapping = {}
    for i in range(n):
        mapping[dot(gen_arcs(g))] = 'name_%d' % i
    cls = type(str('T'), (core.ObjectIdentifier,), {'_map': dict(mapping) or None})
    pool = sorted(mapping) + [dot(gen_arcs(g)) for _ in range(2)]
    cur = g.choice(pool)
    o = cls(mapping.get(cur, cur) if g.draw(2) else cur)
    g.log('start', cur, 'table', mapping)
    for step in range(g.int(1, 6)):
        k = g.draw(6)
        if k <= 1:
            cur = g.choice(pool)
            arg = mapping.get(cur, cur) if g.draw(2) else cur
            g.log('set', arg)
            o.set(arg)
        elif k == 2:
            g.log('copy')
            o = o.copy()
        elif k == 3:
            g.log('reload')
            o = cls.load(o.dump())
        elif k == 4:
            g.log('force')
            o.dump(force=True)
        if g.draw(3):
            views(g, o, cur, mapping, 'step %d' % step)
    views(g, o, cur, mapping, 'end')
    if mapping:
        for d, name in mapping.items():
            g.eq(cls.map(d), name, 'map()')
            g.eq(cls.unmap(name), d, 'unmap()')
            g.eq(cls.unmap(d), d, 'unmap() of a dotted form')
        d = pool[-1]
        if d not in mapping:
            g.eq(cls.map(d), d, 'map() of an unknown identifier')
            g.eq(cls.unmap(d), d, 'unmap() of an unknown dotted form')
        try:
            cls.unmap('no such name')
        except ValueError:
            pass
        else:
            g.fail('unmap() accepted an unknown name')
        g.nontrivial((sorted(mapping.items()), pool[-1]))
    else:
        for fn in (cls.map, cls.unmap):
            try:
                fn(cur)
            except ValueError:
                pass
            else:
                g.fail('%s() without a table did not fail' % fn.__name__)


def _declared():
    out = []
    for path, _, mapping in schema.named('objectidentifier'):
        for d in sorted(mapping):
            out.append((path, d, mapping[d]))
    return out


DECLARED = _declared()


@check.prop(len(DECLARED), len(DECLARED) * 2, shards=8)
def declared(g):
    """Every declared identifier, one by one"""
    if True:
        path, d, name = DECLARED[g.enum(len(DECLARED))]
        g.log(path, d, name)
        cls = schema.resolve(path)
        info = schema.DATA[path]
        der = ref.oid(d)
        b = cls.load(der)
        g.eq(b.native, name, '%s: name of %s' % (path, d))
        g.eq(b.dotted, d, '%s: dotted form of %s' % (path, d))
        g.eq(cls.map(d), name, '%s.map(%s)' % (path, d))
        o = cls(d)
        g.eq(o.native, name, '%s(%s).native' % (path, d))
        g.eq(o.dump(), der, '%s(%s).dump()' % (path, d))
        pref = info.get('preferred', {}).get(name, d)
        o = cls(name)
        g.eq(o.dump(), ref.oid(pref), '%s(%s).dump()' % (path, name))
        g.eq(o.dotted, pref, '%s(%s).dotted' % (path, name))
        g.eq(o.native, name, '%s(%s).native' % (path, name))
        g.eq(cls.unmap(name), pref, '%s.unmap(%s)' % (path, name))
        g.nontrivial((path, d))
        g.label('declared identifiers')


@check.prop(6000, 60000)
def declared_unknown(g):
    """Declared classes keep identifiers they do not know"""
    paths = [p for p, _, _ in schema.named('objectidentifier')]
    path = g.choice(paths)
    cls = schema.resolve(path)
    mapping = schema.DATA[path]['map']
    base = g.choice(sorted(mapping)).split('.')
    k = g.draw(4)
    if k == 0:
        base = base + [str(arc(g))]
    elif k == 1:
        base = base[:-1] + [str(int(base[-1]) + 1 + g.draw(300))]
    elif k == 2 and len(base) > 3:
        base = base[:-1]
    else:
        base = [str(a) for a in gen_arcs(g)]
    d = '.'.join(base)
    g.log(path, d)
    name = mapping.get(d, d)
    o = cls.load(ref.oid(d))
    views(g, o, d, mapping, path)
    g.eq(cls(d).dump(), ref.oid(d), path + ' dump')
    g.eq(cls.map(d), name, path + ' map')
    if name == d:
        g.eq(cls.unmap(d), d, path + ' unmap')
    g.nontrivial((path, d))
