"""C06: a forced re-encode is canonical and keeps the value."""
from lib.pbt import Check
from lib import ref, model, corpus, graph
from lib.model import POOL
from checks.c08 import show

check = Check('C06', rule=(
    'values of generated schemas in random BER spellings (or DER), loaded, optionally read, and encoded with force; single strings, bit '
    'strings, booleans, times and OIDs in odd spellings; real documents in random BER spellings. Oracle: the reference DER encoding. '
    'Non-trivial: the spelling differs from DER; distinct by spelling.'))


def force(g, o, want, what, **kw):
    got = o.dump(force=True)
    g.unit()
    if got != want:
        g.fail(what, got=got, want=want, **kw)


@check.prop(60000, 1000000)
def declared(g):
    ty = POOL.pick(g)
    a = ty.gen(g)
    node = ty.node(a)
    der = node.der()
    b = ref.Ber(g, rate=g.choice([3, 2, 5]))
    data = b.spell(node)
    g.log('type', show(ty))
    g.log('octets', data)
    o = ty.cls.load(data)
    hist = []
    k = g.draw(4)
    if k == 1:
        o.native
    elif k == 2 and 'Parsable' not in show(ty):
        # forcing also encodes afresh what octet strings were parsed as
        for _ in range(1 + g.draw(3)):
            hist.append(graph.read(g, o))
    elif k == 3:
        o.dump()
    g.log('reads', hist)
    force(g, o, der, 'forced encoding', reads=hist)
    if not model.matches(ty, a, o.native):
        g.fail('native after forcing', got=o.native, want=ty.nat(a), reads=hist)
    force(g, o, der, 'second forced encoding', reads=hist)
    g.eq(o.dump(), der, 'encoding after forcing', reads=hist)
    n = ty.cls.load(der)
    force(g, n, der, 'forced encoding of DER')
    if not model.matches(ty, a, n.native):
        g.fail('native after forcing DER', got=n.native, want=ty.nat(a))
    for x in b.used:
        g.label(x)
    if data != der:
        g.nontrivial(data)
        g.sample('%s -> %s' % (data.hex(), der.hex()))


@check.prop(30000, 400000)
def parts(g):
    """forcing a part gives the DER of the part and leaves the rest alone"""
    ty = POOL.pick(g)
    a = ty.gen(g)
    node = ty.node(a)
    b = ref.Ber(g)
    data = b.spell(node)
    g.log('type', show(ty))
    g.log('octets', data)
    o = ty.cls.load(data)
    ders = set(n.der() for n, _, _ in b.spelled.values()) | {b''}
    for n, _, _ in list(b.spelled.values()):
        for _, x in n.extra:
            ders.add(x.der())
            for y in x.kids:
                ders.add(y.der())
    x, path, owner = o, '', None
    for _ in range(1 + g.draw(4)):
        ks = graph.kids(x, parsed=False)
        if not ks:
            break
        i = g.draw(len(ks))
        owner = (x, i)
        x = ks[i][1]
        path += ks[i][0]
        if getattr(x, 'contents', None) is None:
            break
        d = x.dump(force=True)
        g.unit()
        fields = getattr(owner[0], '_fields', None) or []
        if i < len(fields) and len(fields[i]) > 2 and 'default' in fields[i][2] and d == fields[i][1](**fields[i][2]).dump():
            # perhaps not part of the encoding
            break
        if d not in ders:
            g.fail('forced encoding of a part', got=d, path=path, cls=type(x))
        g.eq(x.dump(force=True), d, 'second forced encoding of a part', path=path)
    force(g, o, node.der(), 'forced encoding of the whole', path=path)
    if not model.matches(ty, a, o.native):
        g.fail('native after forcing', got=o.native, want=ty.nat(a), path=path)
    if path and data != node.der():
        g.nontrivial((data, path))
        g.sample('%s forced at %s' % (data.hex(), path))


CANON = {}


def canon(g, doc):
    """(DER of the document, its value tree, its native value)"""
    if doc[0] not in CANON:
        o = corpus.cls_of(doc).load(doc[2])
        der = o.dump(force=True)
        CANON[doc[0]] = (der, corpus.tree(der), corpus.cls_of(doc).load(der).native)
    return CANON[doc[0]]


@check.prop(16000, 200000)
def documents(g):
    doc = g.choice([d for d in corpus.DOCS if d[0] in corpus.TIDY][:60 if g.draw(4) else None])
    cls = corpus.cls_of(doc)
    g.log('document', doc[0], doc[1])
    der, node, native = canon(g, doc)
    if not ref.is_der_framing(der):
        g.fail('a forced document does not have minimal definite lengths', got=der)
    b = ref.Ber(g)
    data = b.spell(node)
    g.log('octets', data)
    o = cls.load(data)
    k = g.draw(3)
    if k == 1:
        o.native
    elif k == 2:
        o.dump()
    force(g, o, der, 'forced encoding of a respelled document')
    if not model.equal_native(o.native, native):
        # the order of members of a set follows the encoding that was read
        if not model.equal_native(cls.load(o.dump()).native, native):
            g.fail('native of a forced document', got=o.native, want=native)
    force(g, o, der, 'second forced encoding')
    n = cls.load(der)
    force(g, n, der, 'forced encoding of a DER document')
    if data != der:
        g.nontrivial((doc[0], hash(data)))
        g.sample('%s respelled with %s' % (doc[0], sorted(b.used.items())))


EXACT = set(['keys/test-der.crt', 'globalsign_example_keys/IssuingCA-der.cer', 'lets_encrypt/isrgrootx1.pem', 'keys/test-pkcs8-der.key',
             'keys/test-public-der.key', 'keys/test-ec-named-der.crt', 'tsp_response', 'ocsp_response', 'test-third-der.csr'])


@check.prop(500, 2000, shards=1)
def real_der(g):
    """documents known to be DER come back identical"""
    doc = g.choice([d for d in corpus.DOCS if d[0] in EXACT])
    o = corpus.cls_of(doc).load(doc[2])
    g.log('document', doc[0])
    hist = [graph.read(g, o) for _ in range(g.draw(4))]
    force(g, o, doc[2], 'forced encoding of a DER document', reads=hist)
    g.nontrivial((doc[0], hist))
