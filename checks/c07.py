"""C07: every BER spelling of a value decodes to the same native value."""
from lib.pbt import Check
from lib import ref, model, corpus, graph
from lib.model import POOL, AnyOf
from checks.c08 import show, walk
from asn1crypto import core

check = Check('C07', rule=(
    'values of generated schemas, untyped value trees and real documents, each in a random BER spelling: indefinite lengths at any level, '
    'long-form lengths, strings segmented (also in segments of segments), set members in another order, explicit defaults, any non-zero true '
    'octet. Oracle: the abstract value the spelling was made from. Non-trivial: at least one liberty taken; distinct by spelling.'))


def used(g, b, data):
    for x in b.used:
        g.label(x)
    if b.used:
        g.nontrivial(data if len(data) < 200 else hash(data))
        g.sample('%s (%s)' % (data.hex()[:400], ', '.join('%s x%d' % i for i in sorted(b.used.items()))))


@check.prop(70000, 1200000)
def declared(g):
    ty = POOL.pick(g)
    a = ty.gen(g)
    b = ref.Ber(g, rate=g.choice([2, 3, 2, 6]), maxdepth=g.choice([8, 8, 14]))
    data = b.spell(ty.node(a))
    g.log('type', show(ty))
    g.log('octets', data)
    o = ty.cls.load(data)
    if not model.matches(ty, a, o.native):
        g.fail('native of a BER spelling', got=o.native, want=ty.nat(a), der=model.der(ty, a))
    g.unit()
    if g.draw(3) == 0 and not b.used.get('order'):
        o = ty.cls.load(data)
        compare(g, ty, a, o)
    # strict loading takes it too
    if g.draw(4) == 0:
        ty.cls.load(data, strict=True)
    used(g, b, data)


def compare(g, ty, a, o, path=''):
    """the parts, read one by one before the whole"""
    if isinstance(ty, model.Record):
        for f in ty.fields:
            c = o[f.name]
            if a[f.name] is model.ABSENT:
                g.true(c.native is None, 'an absent field', path=path + '.' + f.name)
            else:
                compare(g, f.ty, a[f.name], c, path + '.' + f.name)
    elif isinstance(ty, model.ListOf):
        g.eq(len(o), len(a), 'length', path=path)
        if not ty.is_set:
            for i, x in enumerate(a):
                compare(g, ty.child, x, o[i], path + '[%d]' % i)
    elif isinstance(ty, model.Union):
        g.eq(o.name, a[0], 'chosen alternative', path=path)
        compare(g, ty.by_name[a[0]].ty, a[1], o.chosen, path)
    if not model.matches(ty, a, o.native):
        g.fail('native of a part of a BER spelling', path=path, got=o.native, want=ty.nat(a))
    g.unit()


@check.prop(30000, 500000)
def tagged_string(g):
    """one string value under up to three tags, spelled in many segments"""
    prims = [p for p in model.basic_prims() + model.wrapped_prims() if p.nkind in ('string', 'bits')]
    p = g.choice(prims)
    a = p.gen(g)
    node = p.node(a)
    kw = {}
    k = g.draw(4)
    if p.tag is None:
        # the class has explicit tags
        k = g.choice([0, 2])
    if k == 1:
        c, t = 1 + g.draw(3), g.choice([0, 4, 30, 31, 500])
        node = node.retag(c, t)
        kw = {'implicit': (model.CLASS_NAMES[c], t)}
    elif k > 1:
        pairs = []
        for _ in range(1 + g.draw(3)):
            c, t = 1 + g.draw(3), g.choice([0, 4, 30, 31, 500])
            node = ref.Node(c, t, 'wrap', kids=[node])
            pairs.append((c, t))
        kw = {'explicit': tuple(pairs)}
    b = ref.Ber(g, rate=2, maxdepth=10)
    data = b.spell(node)
    g.log('class', p.cls.__name__, kw)
    g.log('octets', data)
    o = p.cls.load(data, **kw)
    first = g.draw(3)
    if first == 1:
        o.dump()
    elif first == 2:
        o = o.copy()
    if not model.equal_native(o.native, p.nat(a)):
        g.fail('native of a respelled string', got=o.native, want=p.nat(a))
    if isinstance(o, core.AbstractString) and not isinstance(o, core.AbstractTime):
        g.eq(str(o), p.nat(a), 'text of a respelled string')
    if isinstance(o, (core.OctetString, core.ParsableOctetString)):
        g.eq(bytes(o), p._content(a), 'octets of a respelled string')
    used(g, b, data)


def plain(g, depth):
    """an untyped value: (Node, native)"""
    k = g.draw(6)
    if depth < 4 and k in (0, 1):
        kids = [plain(g, depth + 1) for _ in range(g.draw(4))]
        return ref.Node(0, 16 + k, 'seq', kids=[n for n, _ in kids]), dict((str(i), v) for i, (_, v) in enumerate(kids))
    p = g.choice(model.any_prims())
    a = p.gen(g)
    return p.node(a), p.nat(a)


@check.prop(24000, 400000)
def untyped(g):
    node, want = plain(g, 0)
    b = ref.Ber(g, rate=2)
    data = b.spell(node)
    g.log('octets', data)
    o = core.load(data)
    if not model.equal_native(o.native, want):
        g.fail('native of an untyped BER spelling', got=o.native, want=want)
    if node.kind == 'seq':
        # the same value in an untyped field
        class Holder(core.Sequence):
            _fields = [('f', core.Any), ('g', core.Any, {'explicit': 3})]
        h = Holder.load(ref.tlv(0, 1, 16, data + ref.tlv(2, 1, 3, data)))
        if not model.equal_native(h.native, {'f': want, 'g': want}):
            g.fail('native of an untyped BER spelling in a record', got=h.native, want=want)
    used(g, b, data)


BASE = {}


def base(doc):
    if doc[0] not in BASE:
        BASE[doc[0]] = (corpus.tree(doc[2]), corpus.cls_of(doc).load(doc[2]).native)
    return BASE[doc[0]]


@check.prop(16000, 200000)
def documents(g):
    tidy = [d for d in corpus.DOCS if d[0] in corpus.TIDY]
    doc = g.choice(tidy[:60] if g.draw(4) else tidy)
    cls = corpus.cls_of(doc)
    node, native = base(doc)
    b = ref.Ber(g, order=False, rate=g.choice([2, 3, 8]))
    data = b.spell(node)
    g.log('document', doc[0], doc[1])
    g.log('octets', data)
    o = cls.load(data)
    if not model.equal_native(o.native, native):
        g.fail('native of a respelled document', got=o.native, want=native)
    # accessors that do not talk about octets
    fresh = cls.load(doc[2])
    o = cls.load(data)
    for name in g.perm(graph.props(cls))[:6]:
        got, want = view(o, name), view(fresh, name)
        g.unit()
        if got is not SKIP and want is not SKIP and got != want:
            g.fail('accessor of a respelled document', name=name, got=got, want=want)
    used(g, b, data)


SKIP = object()
OCTETS = ('contents', 'sha1', 'sha256', 'sha1_fingerprint', 'sha256_fingerprint', 'parsed', 'issuer_serial')


def view(o, name):
    if name in OCTETS:
        return SKIP
    try:
        v = getattr(o, name)
    except ValueError as e:
        return 'ValueError'
    except Exception:
        return SKIP
    if isinstance(v, core.Asn1Value):
        return v.native
    if isinstance(v, (list, tuple)):
        return [x.native if isinstance(x, core.Asn1Value) else x for x in v]
    if isinstance(v, (str, int, bytes, bool, set, type(None))):
        return v
    return SKIP
