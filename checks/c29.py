"""C29: decoding consumes exactly one value; nothing is dropped silently."""
from lib.pbt import Check
from lib import ref, model, corpus, graph
from lib.model import POOL, Union, AnyOf, Record, ListOf, Tagging
from checks.c08 import show
from checks.c10 import tagging, notation
from asn1crypto import core, parser, x509

check = Check('C29', rule=(
    'values of generated schemas, of scalar classes and real documents in DER and BER, followed by random octets, other values or fragments; '
    'marked values and loose octets planted inside records, lists, explicit tags and wrappers of valid encodings; concatenations of 1-4 declared '
    'parts. Oracle: the value alone, strict mode refusing any further octet, and the planted octets being either refused or still there after a '
    'forced re-encode. Non-trivial: at least one extra octet; distinct by octets.'))


def tail(g):
    k = g.draw(6)
    if k == 0:
        return b'\x00'
    if k == 1:
        return b'\x00\x00'
    if k == 2:
        return ref.integer(g.signed(16))
    if k == 3:
        return b'\x30\x80'
    return g.bytes(1, 12)


def pick(g):
    if g.draw(3) == 0:
        ty = g.choice(model.basic_prims() + model.wrapped_prims())
    else:
        ty = POOL.pick(g)
    return ty, model.decoded(ty, ty.gen(g))


@check.prop(50000, 800000)
def prefix(g):
    ty, a = pick(g)
    t = tagging(g, ty.tag is not None) if g.draw(3) == 0 else Tagging()
    node = t.apply(ty.node(a))
    data = node.der() if g.draw(2) else ref.Ber(g).spell(node)
    extra = tail(g)
    g.log('type', show(ty), t)
    g.log('octets', data, 'followed by', extra)
    kw = notation(g, t)
    alone = ty.cls.load(data, strict=True, **dict(kw))
    o = ty.cls.load(data + extra, **dict(kw))
    if not model.matches(ty, a, alone.native):
        g.fail('native in strict mode', got=alone.native, want=ty.nat(a))
    first = g.draw(2)
    if first and o.dump() != alone.dump():
        g.fail('encoding depends on the octets that follow', got=o.dump(), want=alone.dump())
    if not model.equal_native(o.native, alone.native):
        g.fail('native depends on the octets that follow', got=o.native, want=alone.native)
    g.eq(o.dump(), alone.dump(), 'encoding depends on the octets that follow')
    try:
        ty.cls.load(data + extra, strict=True, **dict(kw))
    except ValueError:
        pass
    else:
        g.fail('octets after the value were accepted in strict mode')
    # what is there is needed
    cut = g.draw(len(data))
    try:
        ty.cls.load(data[:cut], **dict(kw)).native
    except ValueError:
        pass
    else:
        g.fail('a truncated value was accepted', cut=cut)
    # without a type
    if not t.mode and ty.tag is not None and not ty.tag[0] or isinstance(ty, AnyOf):
        for fn in (core.load, core.Asn1Value.load):
            w = fn(data + extra)
            v = fn(data, strict=True)
            g.true(type(w) is type(v), 'class of an untyped value', got=type(w), want=type(v))
            g.eq(w.dump(), v.dump(), 'encoding of an untyped value depends on what follows')
            try:
                fn(data + extra, strict=True)
            except ValueError:
                pass
            else:
                g.fail('octets after an untyped value were accepted in strict mode')
    info = parser.parse(data + extra)
    g.eq(info[3] + info[4] + info[5], data, 'octets of the value')
    g.eq(parser.peek(data + extra), len(data), 'peek')
    try:
        parser.parse(data + extra, strict=True)
    except ValueError:
        pass
    else:
        g.fail('the parser accepted octets after the value in strict mode')
    g.nontrivial((data, extra))
    g.sample('%s | %s' % (data.hex(), extra.hex()))


@check.prop(2000, 40000)
def documents(g):
    doc = g.choice(corpus.DOCS)
    cls = corpus.cls_of(doc)
    data = doc[2]
    extra = tail(g)
    g.log('document', doc[0], doc[1], 'followed by', extra)
    is_concat = issubclass(cls, core.Concat)
    cls.load(data, strict=True)
    try:
        cls.load(data + extra, strict=True)
    except ValueError:
        pass
    else:
        g.fail('octets after the value were accepted in strict mode')
    if not is_concat:
        o, alone = cls.load(data + extra), cls.load(data)
        g.eq(o.dump(), alone.dump(), 'encoding depends on the octets that follow')
        if not model.equal_native(graph.quiet(lambda: o.native), graph.quiet(lambda: alone.native)):
            g.fail('native depends on the octets that follow')
    cut = g.draw(len(data))
    try:
        o = cls.load(data[:cut], strict=True)
        o.native
    except ValueError:
        pass
    else:
        g.fail('a truncated document was accepted', cut=cut)
    g.nontrivial((doc[0], extra, cut))
    g.sample('%s followed by %s; cut at %d' % (doc[0], extra.hex(), cut))


MARK = b'\xfeMARKER\xfe'


def plant(g, n, spot, junk, counter):
    """octets of node n with junk inserted into the spot-th constructed node, at a random place"""
    if n.kind in ('seq', 'set', 'wrap'):
        mine = counter[0]
        counter[0] += 1
        if n.kind == 'set' and n.cls == 0 and n.tag == 17 or n.kind == 'set':
            kids = list(n.kids)
            order = sorted(kids, key=lambda k: k.der())
        kids = [plant(g, k, spot, junk, counter) for k in n.kids]
        if mine == spot:
            at = len(kids) if g.draw(4) else g.draw(len(kids) + 1)
            kids.insert(at, junk)
            counter.append((n, at))
        return ref.tlv(n.cls, 1, n.tag, b''.join(kids))
    return n.der()


def count(n):
    return (1 + sum(count(k) for k in n.kids)) if n.kind in ('seq', 'set', 'wrap') else 0


def planted(g, node, cls, params, what):
    total = count(node)
    if not total:
        return
    spot = g.draw(total)
    k = g.draw(4)
    if k == 0:
        junk = b'\xfe' + MARK
    elif k == 1:
        junk = ref.tlv(3, 0, 77, MARK)
    elif k == 2:
        junk = ref.tlv(0, 0, 4, MARK)
    else:
        junk = ref.tlv(0, 1, 16, ref.tlv(0, 0, 12, b'x' + MARK[1:-1]) + ref.tlv(0, 0, 4, MARK))
    counter = [0]
    data = plant(g, node, spot, junk, counter)
    g.log(what)
    g.log('octets', data, 'with', junk, 'inside', spot)
    key = MARK
    try:
        o = cls.load(data, **params)
        if g.draw(2):
            o.native
        if g.draw(2):
            g.eq(o.dump(), data, 'encoding of the loaded value')
        forced = o.dump(force=True)
    except ValueError:
        g.label('refused')
        g.nontrivial(data)
        return
    g.label('kept')
    if key not in forced:
        g.fail('octets inside the value were dropped by a forced re-encode', got=forced, planted=junk)
    g.nontrivial(data)
    g.sample('%s with %s at %d' % (what[:200], junk.hex(), spot))


@check.prop(40000, 600000)
def leftovers(g):
    ty, a = pick(g)
    t = tagging(g, ty.tag is not None) if g.draw(3) == 0 else Tagging()
    planted(g, t.apply(ty.node(a)), ty.cls, notation(g, t), '%s %r' % (show(ty), t))


@check.prop(6000, 100000)
def document_leftovers(g):
    doc = g.choice([d for d in corpus.DOCS if d[0] in corpus.TIDY])
    cls = corpus.cls_of(doc)
    if issubclass(cls, core.Concat):
        return
    planted(g, corpus.tree(doc[2]), cls, {}, '%s %s' % (doc[0], doc[1]))


@check.prop(15000, 250000)
def concatenations(g):
    n = 1 + g.draw(4)
    parts = []
    for _ in range(n):
        ty, a = pick(g)
        if ty.tag is None:
            continue
        parts.append((ty, a))
    if not parts:
        return
    cls = type(str('Joined'), (core.Concat,), {'_child_specs': [p[0].cls for p in parts]})
    datas = []
    for ty, a in parts:
        datas.append(ty.node(a).der() if g.draw(2) else ref.Ber(g, indefinite=False, segment=False).spell(ty.node(a)))
    data = b''.join(datas)
    g.log('types', [show(p[0]) for p in parts])
    g.log('octets', datas)
    o = cls.load(data, strict=True)
    g.eq(len(o), len(parts), 'number of parts')
    for i, (ty, a) in enumerate(parts):
        g.true(type(o[i]) is ty.cls, 'class of a part', got=type(o[i]), want=ty.cls)
        g.eq(o[i].dump(), datas[i], 'octets of a part', index=i)
        if not model.matches(ty, a, o[i].native):
            g.fail('native of a part', index=i, got=o[i].native, want=ty.nat(a))
    g.eq([c.dump() for c in o], datas, 'iterated parts')
    g.eq(o.dump(), data, 'encoding of the concatenation')
    g.eq(o.contents, data, 'contents of the concatenation')
    g.eq(o.copy().dump(), data, 'encoding of a copy of the concatenation')
    extra = tail(g)
    w = cls.load(data + extra)
    g.eq(w.dump(), data, 'encoding of the concatenation with more behind it')
    try:
        cls.load(data + extra, strict=True)
    except ValueError:
        pass
    else:
        g.fail('octets after a concatenation were accepted in strict mode')
    # the last parts may be missing
    k = g.draw(len(parts) + 1)
    # (a null is there even if nothing says so)
    while k < len(parts) and any(p[0].cls is core.Null for p in parts[k:]):
        k += 1
    short = b''.join(datas[:k])
    s = cls.load(short, strict=True)
    g.eq(s.dump(), short, 'encoding of a concatenation without its last parts', missing=len(parts) - k)
    for i in range(k):
        g.eq(s[i].dump(), datas[i], 'octets of a part of a short concatenation')
    if k:
        cut = len(short) - 1 - g.draw(len(datas[k - 1]))
        if cut > len(short) - len(datas[k - 1]):
            try:
                cls.load(short[:cut])
            except ValueError:
                pass
            else:
                g.fail('a truncated part of a concatenation was accepted', cut=cut)
    # replacing a part
    i = g.draw(len(parts))
    ty, _ = parts[i]
    b = model.decoded(ty, ty.gen(g))
    o[i] = ty.cls.load(ty.node(b).der())
    datas[i] = ty.node(b).der()
    g.eq(o.dump(), b''.join(datas), 'encoding after a part was replaced')
    built = cls([ty.cls.load(d) for (ty, _), d in zip(parts, datas)])
    g.eq(built.dump(), b''.join(datas), 'encoding of a concatenation built from parts')
    for bad in (-1, len(parts)):
        try:
            o[bad]
        except (KeyError, IndexError):
            pass
        else:
            g.fail('a part that is not declared was returned')
    g.nontrivial((tuple(datas), extra))
    g.sample('%s' % [d.hex() for d in datas])


@check.prop(2000, 20000)
def trusted(g):
    """OpenSSL's trusted certificates"""
    doc = g.choice(corpus.docs('x509.Certificate'))
    if doc[1] != 'x509.Certificate':
        return
    aux = {}
    if g.draw(2):
        aux['trust'] = g.list(lambda: g.choice(['server_auth', 'client_auth', '1.2.3.4']), 0, 3)
    if g.draw(2):
        aux['reject'] = g.list(lambda: g.choice(['server_auth', 'client_auth', '1.2.3.4']), 0, 3)
    if g.draw(2):
        aux['alias'] = g.text('aé漢', 0, 8)
    if g.draw(2):
        aux['keyid'] = g.bytes(0, 20)
    OIDS = {'server_auth': '1.3.6.1.5.5.7.3.1', 'client_auth': '1.3.6.1.5.5.7.3.2'}
    oids = lambda v: b''.join(ref.tlv(0, 0, 6, ref.oid_content(OIDS.get(x, x))) for x in v)
    body = b''
    if 'trust' in aux:
        body += ref.tlv(0, 1, 16, oids(aux['trust']))
    if 'reject' in aux:
        body += ref.tlv(2, 1, 0, oids(aux['reject']))
    if 'alias' in aux:
        body += ref.tlv(0, 0, 12, aux['alias'].encode('utf-8'))
    if 'keyid' in aux:
        body += ref.tlv(0, 0, 4, aux['keyid'])
    extra = ref.tlv(0, 1, 16, body)
    g.log(doc[0], aux)
    t = x509.TrustedCertificate.load(doc[2] + extra, strict=True)
    g.eq(t[0].dump(), doc[2], 'certificate')
    g.true(type(t[0]) is x509.Certificate and type(t[1]) is x509.CertificateAux, 'classes of the parts')
    want = dict((k, None) for k in ('trust', 'reject', 'alias', 'keyid', 'other'))
    want.update(aux)
    g.eq(dict(t[1].native), want, 'trust settings')
    g.eq(t.dump(), doc[2] + extra, 'encoding')
    built = x509.TrustedCertificate([x509.Certificate.load(doc[2]), x509.CertificateAux(aux)])
    g.eq(built.dump(), doc[2] + extra, 'encoding of a built one')
    plain = x509.TrustedCertificate.load(doc[2])
    g.eq(plain.dump(), doc[2], 'encoding of a certificate without trust settings')
    g.nontrivial((doc[0], extra))
    g.sample('%s + %s' % (doc[0], extra.hex()))
