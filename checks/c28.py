"""C28: fields whose type an identifier decides."""
import copy
import zlib

from lib.pbt import Check
from lib import ref, model, predef, corpus, openrec
from lib.model import ABSENT, AnyOf, Prim, Tagging
from lib.predef import Dep, Inside, PRecord
from lib.schema import DATA, resolve
from checks.c24 import walk, rebuildable
from checks.c10 import tagging, notation
from asn1crypto import core, cms, pkcs12, tsp, x509

check = Check('C28', rule=(
    'every structure with an identifier-directed field (attributes, extensions, contents, bags, algorithm parameters, keys), every registered '
    'identifier and unregistered ones, with contents generated for the type the standards assign; content as octets, parsed and untyped; read in '
    'any order, re-assigned, and rebuilt; the content of octet strings, bit strings and untyped values read as several types in turn; sequences and sets a user declares with identifier tables and spec callbacks of every form; the names older versions gave to parts. Non-trivial: the identifier selects a declared type or the content is kept for an unknown one; '
    'distinct by class and encoding.'))

RECORDS = []
for _p in predef.PATHS:
    _t = predef.build(_p)
    if isinstance(_t, PRecord):
        for _f in _t.fields:
            if isinstance(_f.ty, Dep):
                RECORDS.append((_t, _f))


def expected_class(ty, f, a):
    """(class of the field object, class of the parsed value or None)"""
    t = a[0]
    if isinstance(t, Inside):
        return t.cls, t.inner.cls
    if isinstance(t, AnyOf):
        return core.Any, None
    return t.cls, t.cls


def read_field(g, o, f, a):
    """all forms the content can be read in, in any order, and again"""
    t, v = a
    field_cls, parsed_cls = expected_class(None, f, a)
    c = o[f.name]
    inner = t.inner.node(v).der() if isinstance(t, Inside) else t.node(v).der()
    for k in [g.draw(6) for _ in range(1 + g.draw(5))]:
        c = o[f.name]
        if k == 0:
            if not model.matches(t, v, c.native):
                g.fail('native of the content', got=c.native, want=t.nat(v))
        elif k == 1 and isinstance(t, Inside):
            g.eq(bytes(c), inner, 'octets of the content')
        elif k == 2 and isinstance(t, Inside):
            p = c.parsed
            g.true(isinstance(p, parsed_cls), 'class of the parsed content', got=type(p), want=parsed_cls)
            g.eq(p.dump(), inner, 'encoding of the parsed content')
        elif k == 3 and isinstance(t, AnyOf):
            p = c.parsed
            g.eq(p.native, t.nat(v), 'native of content of no declared type')
        elif k == 4:
            g.true(isinstance(c, field_cls), 'class of the field', got=type(c), want=field_cls)
        elif k == 5:
            g.eq(f.tagging.apply(t.node(v)).der(), c.dump(), 'encoding of the field')
    g.unit(2)


@check.prop(40000, 800000)
def dispatch(g):
    """each registered identifier gives the content its type"""
    ty, f = g.choice(RECORDS)
    a = ty.gen(g) if predef.FUEL.__setitem__(0, g.choice([8, 20, 50])) is None else None
    d = model.decoded(ty, a)
    node = ty.node(a)
    der = node.der()
    g.log('class', ty.path, 'field', f.name)
    g.log('native', ty.nat(a))
    g.log('der', der)
    o = ty.cls.load(der)
    if a[f.name] is ABSENT:
        g.true(o[f.name].native is None, 'an absent field has a value')
    else:
        read_field(g, o, f, d[f.name])
    if g.draw(2):
        walk(g, ty, d, o, ty.path)
    g.eq(o.dump(), der, 'encoding after reading')
    if not model.matches(ty, d, o.native):
        g.fail('native', got=o.native, want=ty.nat(d))
    if rebuildable(ty, a):
        g.eq(ty.cls(o.native).dump(), der, 'the same message built from its native value')
    g.label(ty.path)
    g.nontrivial((ty.path, der))
    g.sample('%s %s' % (ty.path, der.hex()[:300]))


def pick(g):
    if g.draw(3) == 2:
        ty = openrec.POOL.pick(g)
        return ty, ty.dep
    return g.choice(RECORDS)


@check.prop(30000, 600000)
def reassigned(g):
    """identifier and content assigned again, in order, on an object already in use"""
    ty, f = pick(g)
    objs = []
    predef.FUEL[0] = 60
    a = ty.gen(g)
    predef.FUEL[0] = 60
    b = ty.gen(g)
    g.log('class', ty.path, [(x.name, x.ty.cls, x.mode, x.tagging) for x in ty.fields])
    g.log('first', ty.nat(a))
    g.log('then', ty.nat(b))
    if g.draw(2):
        o = ty.cls.load(ty.node(a).der())
    else:
        o = ty.obj(g, a)
    for k in range(g.draw(3)):
        r = g.draw(3)
        if r == 0:
            o.native
        elif r == 1:
            o.dump()
        else:
            o[f.name].native
    if ty.path == 'keys.PrivateKeyInfo' and repr(a[ty.by_name['private_key_algorithm'].name]) != repr(b['private_key_algorithm']):
        # a container refuses an elliptic curve as the algorithm of a key that is not one
        o = ty.cls()
    for x in ty.fields:
        # an encoder fills a structure front to back
        if b[x.name] is ABSENT:
            if x.mode == 'opt':
                o[x.name] = None
            else:
                return
        else:
            o[x.name] = x.ty.inp(g, b[x.name]) if g.draw(2) else x.ty.obj(g, b[x.name])
    der = ty.node(b).der()
    g.eq(o.dump(), der, 'encoding after identifier and content were assigned again')
    if not model.matches(ty, b, o.native):
        g.fail('native after identifier and content were assigned again', got=o.native, want=ty.nat(b))
    if b[f.name] is not ABSENT:
        read_field(g, o, f, b[f.name])
    g.eq(o.dump(force=True), der, 'forced encoding')
    g.nontrivial((ty.path, ty.node(a).der(), der))
    g.sample('%s %s -> %s' % (ty.path, ty.node(a).der().hex()[:150], der.hex()[:150]))


def random_tree(g, depth=0):
    """octets of some universal value that need not be DER"""
    k = g.draw(6)
    if k < 3 or depth > 3:
        p = g.choice(predef.build('core.Any').prims)
        return p.node(p.gen(g)).der()
    body = b''.join(random_tree(g, depth + 1) for _ in range(g.draw(4)))
    first = b'\x30' if k < 5 else b'\x31'
    if g.draw(3) == 0:
        return first + ref.long_length(len(body), 1 + g.draw(2)) + body
    return first + ref.length(len(body)) + body


UNKNOWN = ['1.2.3.4', '0.39.1', '2.999.3', '1.3.6.1.4.1.311.999']


@check.prop(25000, 400000)
def unknown(g):
    """content of an identifier nobody declared is kept to the octet"""
    ty, f = g.choice(RECORDS)
    if not ty.selector:
        return
    predef.FUEL[0] = 20
    a = ty.gen(g)
    sel = ty.by_name[ty.selector]
    num = g.choice(UNKNOWN) if not issubclass(sel.ty.cls, core.Integer) else g.choice([999, 30000])
    a[ty.selector] = num
    octets = isinstance(f.ty.wrap(predef.NULL), Inside)
    listed = not octets and not isinstance(f.ty.fallback, AnyOf)
    parts = []
    for x in ty.fields:
        if x.name == f.name:
            if octets:
                body = g.bytes(0, 20) if g.draw(2) else random_tree(g)
                raw = ref.tlv(0, 0, 4, body)
            elif listed:
                body = raw = ref.tlv(0, 1, 17, b''.join(random_tree(g) for _ in range(g.draw(3))))
            else:
                body = raw = random_tree(g)
            if f.tagging.mode:
                (c, t), = f.tagging.pairs
                raw = ref.tlv(c, 1, t, raw)
            parts.append(raw)
        elif a[x.name] is not ABSENT and not (x.mode == 'def' and ty.same(x, a[x.name])):
            parts.append(x.node(a[x.name]).der())
    der = ref.tlv(0, 1, 16, b''.join(parts))
    g.log('class', ty.path)
    g.log('der', der)
    o = ty.cls.load(der)
    c = o[f.name]
    for k in [g.draw(5) for _ in range(g.draw(4))]:
        if k == 0:
            n = c.native
            if octets:
                g.eq(n, body, 'native of octets of no known type')
        elif k == 1:
            o.native
        elif k == 2:
            g.eq(c.dump(), raw, 'encoding of content of no known type')
        elif k == 3 and octets:
            g.eq(bytes(c), body, 'octets of no known type')
        elif k == 4 and not octets and not listed:
            c.parsed
    g.eq(o[ty.selector].native, num, 'an identifier nobody declared')
    g.eq(c.dump(), raw, 'encoding of content of no known type')
    g.eq(o.dump(), der, 'encoding of a message with content of no known type')
    if octets:
        g.eq(o.dump(force=True), der, 'forced encoding of a message with octets of no known type')
    if not octets and not listed and not f.tagging.mode:
        b = ty.cls.load(der)
        inner = b[f.name].parse(core.Sequence) if body[0] == 0x30 else b[f.name].parsed
        g.eq(inner.dump(), body, 'encoding of content parsed as a type')
        g.eq(b.dump(), der, 'encoding of a message after its content was parsed as a type')
    g.unit(3)
    g.nontrivial((ty.path, der))
    g.sample('%s %s' % (ty.path, der.hex()[:300]))


# ------------------------------------------------------------ messages

DATA_OID = '1.2.840.113549.1.7.1'
SIGNED_OID = '1.2.840.113549.1.7.2'
TST_OID = '1.2.840.113549.1.9.16.1.4'


def signed(version, content):
    return ref.seq(ref.integer(version), ref.set_of(), content, ref.set_of())


def content_info(oid, body):
    return ref.seq(ref.oid(oid), *([ref.explicit(0, body)] if body is not None else []))


@check.prop(12000, 250000)
def signed_content(g):
    """content as octets (CMS), and directly (PKCS#7 or version 1)"""
    version = g.choice([1, 3, 1, 4, 5, 0, 2])
    kind = g.draw(4)
    nat = None
    if kind == 0:
        oid, cls = DATA_OID, core.OctetString
        content = g.bytes(0, 20)
        nat = content
        body = ref.octets(content)
    elif kind == 1 and version != 1:
        oid, cls = TST_OID, tsp.TSTInfo
        ty = predef.build('tsp.TSTInfo')
        content = model.der(ty, predef.value(g, ty, 20))
        nat = tsp.TSTInfo.load(content).native
        body = ref.octets(content)
    elif kind == 2:
        name = g.choice(['encrypted_data', 'compressed_data', 'digested_data'])
        oid = dict((v, k) for k, v in DATA['cms.ContentType']['map'].items())[name]
        path = {'encrypted_data': 'cms.EncryptedData', 'compressed_data': 'cms.CompressedData', 'digested_data': 'cms.DigestedData'}[name]
        cls = resolve(path)
        ty = predef.build(path)
        content = model.der(ty, predef.value(g, ty, 15))
        nat = cls.load(content).native
        body = content if version == 1 else ref.octets(content)
    else:
        oid, cls = g.choice(UNKNOWN), None
        content = random_tree(g) if version == 1 else g.bytes(0, 20)
        body = content if version == 1 else ref.octets(content)
        nat = content if version != 1 else core.load(content).native
        if version == 1 and content[0] == 4:
            return
    detached = g.draw(8) == 7
    ci = content_info(oid, None if detached else body)
    der = content_info(SIGNED_OID, signed(version, ci))
    g.log('version', version, 'content type', oid, 'detached', detached)
    g.log('der', der)
    o = cms.ContentInfo.load(der)
    if g.draw(3) == 0:
        o.native
    sd = o['content']
    g.true(isinstance(sd, cms.SignedData), 'class of signed content', got=type(sd))
    eci = sd['encap_content_info']
    g.eq(eci['content_type'].dotted, oid, 'content type')
    c = eci['content']
    if detached:
        g.true(c.native is None, 'detached content has a value', got=c.native)
    else:
        for k in [g.draw(3) for _ in range(1 + g.draw(3))]:
            if k == 0:
                g.true(model.equal_native(c.native, nat), 'native of the content', got=c.native, want=nat)
            elif k == 1 and version != 1:
                g.eq(bytes(c), content, 'octets of the content')
                if cls is not None and kind != 0:
                    g.true(isinstance(c.parsed, cls), 'class of the content', got=type(c.parsed))
                    g.eq(c.parsed.dump(), content, 'encoding of the content')
            elif k == 2 and version == 1 and cls is not None:
                g.true(isinstance(c, cls), 'class of the content', got=type(c))
        g.true(model.equal_native(o.native['content']['encap_content_info']['content'], nat), 'native of the message', got=o.native, want=nat)
    g.eq(o.dump(), der, 'encoding')
    g.eq(o.dump(force=True), der, 'forced encoding')
    g.unit(4)
    g.nontrivial(der)
    g.label('version %d' % version)
    g.sample('version %d %s %s' % (version, oid, der.hex()[:200]))


@check.prop(6000, 100000)
def pfx(g):
    """the safe of a PKCS#12 file, in data or in signed data of either generation"""
    ty = predef.build('pkcs12.AuthenticatedSafe')
    predef.FUEL[0] = 20
    contents = []
    safes = []
    for _ in range(g.draw(3)):
        st = predef.build('pkcs12.SafeContents')
        predef.FUEL[0] = 30
        s = model.decoded(st, st.gen(g))
        safes.append((st, s))
        contents.append(content_info(DATA_OID, ref.octets(model.der(st, s))))
    safe = ref.seq(*contents)
    form = g.draw(3)
    if form == 0:
        auth = content_info(DATA_OID, ref.octets(safe))
    else:
        auth = content_info(SIGNED_OID, signed(1 if form == 1 else 3, content_info(DATA_OID, ref.octets(safe))))
    der = ref.seq(ref.integer(3), auth)
    g.log('der', der)
    o = pkcs12.Pfx.load(der)
    if g.draw(3) == 0:
        o.native
    a = o.authenticated_safe
    g.true(isinstance(a, pkcs12.AuthenticatedSafe), 'class of the safe', got=type(a))
    g.eq(a.dump(), safe, 'encoding of the safe')
    g.eq(len(a), len(safes), 'number of safes')
    for (st, s), ci in zip(safes, a):
        inner = pkcs12.SafeContents.load(ci['content'].native)
        walk(g, st, s, inner, 'safe')
    g.true(o.authenticated_safe is a, 'the safe is parsed again')
    g.eq(o.dump(), der, 'encoding')
    g.unit(4)
    if safes:
        g.nontrivial(der)
        g.sample(der.hex()[:300])


@check.prop(4000, 60000)
def compressed(g):
    data = g.bytes(0, 40) * g.choice([1, 1, 20])
    z = zlib.compress(data, g.draw(10))
    # typed contents in compressed form: known finding id=compressed-typed
    oid = g.choice([DATA_OID] + UNKNOWN)
    der = ref.seq(ref.integer(0), ref.seq(ref.oid('1.2.840.113549.1.9.16.3.8')), content_info(oid, ref.octets(z)))
    g.log('der', der)
    o = cms.CompressedData.load(der)
    for _ in range(2):
        g.eq(o.decompressed, data, 'decompressed content')
        g.eq(o['encap_content_info']['content'].native, z, 'compressed content')
    g.eq(o.dump(), der, 'encoding')
    g.nontrivial(der)
    g.sample(der.hex()[:200])


# ------------------------------------------------------------ declared by the user

@check.prop(25000, 500000)
def declared(g):
    """records a user declares, whose content another field types"""
    ty = openrec.POOL.pick(g)
    f = ty.dep
    a = ty.gen(g)
    node = ty.node(a)
    der = node.der()
    g.log('type', ty.how, [(x.name, x.ty.cls, x.mode, x.tagging) for x in ty.fields])
    g.log('contents', dict((k, t.cls) for k, t in ty.table.items()))
    g.log('value', ty.nat(a))
    g.log('der', der)
    o = ty.obj(g, a)
    if g.draw(2):
        g.eq(o.dump(), der, 'encoding of a constructed value')
    if a[f.name] is not ABSENT:
        read_field(g, o, f, a[f.name])
    if not model.matches(ty, a, o.native):
        g.fail('native of a constructed value', got=o.native, want=ty.nat(a))
    g.eq(o.dump(), der, 'encoding of a constructed value')
    g.eq(o.dump(force=True), der, 'forced encoding of a constructed value')
    d = model.decoded(ty, a)
    data = der if g.draw(2) else ref.Ber(g).spell(node)
    o = ty.cls.load(data)
    if a[f.name] is ABSENT:
        g.true(o[f.name].native is None, 'an absent field has a value')
    elif data == der:
        read_field(g, o, f, d[f.name])
    if g.draw(2) and data == der:
        walk(g, ty, d, o, ty.path)
    if not model.matches(ty, d if data == der else a, o.native):
        g.fail('native', got=o.native, want=ty.nat(d))
    if data == der:
        g.eq(o.dump(), data, 'encoding after reading')
        g.eq(o.copy().dump(), data, 'encoding of a copy')
    if a[f.name] is ABSENT or not isinstance(a[f.name][0], AnyOf):
        c = g.choice([lambda x: x, lambda x: x.copy(), copy.copy, copy.deepcopy])(o)
        g.eq(c.dump(force=True), der, 'forced encoding')
        if not model.matches(ty, a, c.native):
            g.fail('native after forcing', got=c.native, want=ty.nat(a))
    if rebuildable(ty, a):
        g.eq(ty.cls(o.native).dump(), der, 'the same record built from its native value')
    g.label(ty.how)
    g.nontrivial((ty.how, der))
    g.sample('%s %s' % (ty.how, der.hex()[:200]))


# ------------------------------------------------------------ nested content, read again

def subclass(cls):
    return type(str('Sub'), (cls,), {})


@check.prop(20000, 400000)
def reparse(g):
    """the content of an octet or bit string or an untyped value, read as one type after another"""
    def inner():
        ty = model.POOL.pick(g, size=300) if g.draw(3) == 0 else g.choice(model.basic_prims() + model.wrapped_prims())
        t = tagging(g, ty.tag is not None)
        a = ty.gen(g)
        return ty, a, t, t.apply(ty.node(a)).der()

    kind = g.choice([core.ParsableOctetString, core.ParsableOctetBitString, core.Any])
    bits, free = kind is core.ParsableOctetBitString, kind is core.Any
    outer = tagging(g, not free)
    ty, a, t, octets = inner()
    if free and t.mode == 'implicit':
        outer = Tagging()

    def string(octets):
        return outer.apply(ref.Node(0, 3, 'bits', b'\x00' + octets, seg_tag=3) if bits else ref.Node(0, 4, 'string', octets))

    def encode(octets):
        if free:
            for c, n in outer.pairs:
                octets = ref.tlv(c, 1, n, octets)
            return octets
        return string(octets).der()

    kw = notation(g, outer)
    data = encode(octets)
    if not free and g.draw(3) == 0:
        o = kind(octets, **kw)
    elif not free and g.draw(3) == 0:
        # octets in pieces
        o = kind.load(ref.Ber(g).spell(string(octets)), **kw)
        if o.dump() != data:
            data = None
    else:
        o = kind.load(data, **kw) if not free else holder(data, kw)
    g.log('holder', kind, outer, 'content', ty.cls, t, a, octets)
    last, hist, types = None, [], 0
    for _ in range(2 + g.draw(6)):
        k = g.draw(10)
        hist.append(k)
        g.log('step', k)
        if k < 3:
            p = notation(g, t) or g.choice([None, {}])
            cls = ty.cls if k < 2 or isinstance(ty, AnyOf) else subclass(ty.cls)
            v = o.parse(cls, p)
            last = (cls, v)
            types += 1
        elif k == 3:
            g.true(o.parse(core.Any).dump() == octets or free and outer.pairs, 'octets of the content read untyped', got=o.parse(core.Any).dump(), want=octets)
            last = None
            o.parse(ty.cls, notation(g, t))
        elif k == 4 and not t.mode and not isinstance(ty, (model.Union, AnyOf, model.Wrapped)):
            # without a type, the universal one of the tag
            v = o.parse()
            g.true(type(v).__module__ == 'asn1crypto.core' and type(v).tag == int(octets[0]) & 31, 'class of content read without a type', got=type(v))
            last = (type(v), None)
        elif k == 5:
            try:
                o.parse(core.Real, {'explicit': ('private', 77)})
            except ValueError:
                pass
            else:
                g.fail('content read as what it is not', hist=hist)
        elif k == 6 and not free:
            g.eq(bytes(o), octets, 'octets of the content')
        elif k == 7:
            o = g.choice([lambda x: x.copy(), copy.copy, copy.deepcopy])(o)
            if last:
                last = (last[0], None)
        elif k == 8 and not free and data is not None:
            # other content
            ty, a, t, octets = inner()
            g.log('other content', ty.cls, t, a, octets)
            o.set(octets)
            data, last = encode(octets), None
        elif k == 9 and t.mode and t.pairs[-1] not in ty.ids() and not isinstance(ty, AnyOf) and not (free and outer.pairs):
            try:
                o.parse(ty.cls)
            except ValueError:
                pass
            else:
                g.fail('content read without its tag', hist=hist)
        if last is not None and last[0] is not None:
            v = o.parsed
            g.true(last[1] is None or v is last[1], 'what is held is not what was last read', hist=hist)
            if not isinstance(ty, AnyOf):
                g.true(type(v) is last[0], 'class of the content', got=type(v), want=last[0], hist=hist)
            if issubclass(last[0], ty.cls):
                if not model.matches(ty, model.decoded(ty, a), v.native):
                    g.fail('native of the content', got=v.native, want=ty.nat(a), hist=hist)
                if not model.matches(ty, model.decoded(ty, a), o.native):
                    g.fail('native of the holder', got=o.native, want=ty.nat(a), hist=hist)
            if not free:
                g.eq(v.dump(), octets, 'encoding of the content', hist=hist)
        if data is not None:
            g.eq(o.dump(), data, 'encoding of the holder', hist=hist)
    g.eq(o.dump(force=True), encode(octets), 'forced encoding of the holder', hist=hist)
    g.label('%s %d' % (kind.__name__, min(types, 3)))
    if types:
        g.nontrivial((octets, tuple(hist)))
    g.sample('%s via %s' % (octets.hex()[:200], hist))


def holder(data, kw):
    """an untyped value, the way one is met: in a field"""
    cls = type(str('Holder'), (core.Sequence,), {'_fields': [('f', core.Any, kw)] if kw else [('f', core.Any)]})
    return cls.load(ref.seq(data))['f']


RKI = predef.build('cms.RecipientKeyIdentifier')
PREF = predef.build('cms.SMIMEEncryptionKeyPreference')
OLD = {'recipientKeyId': 'recipient_key_id', 'subjectAltKeyIdentifier': 'subject_alt_key_identifier'}


@check.prop(4000, 80000)
def old_names(g):
    """the names that older versions gave to three parts of S/MIME messages still work"""
    a = predef.value(g, RKI)
    data = model.der(RKI, a)
    other = g.bytes(0, 8)
    k = g.draw(3)
    g.log('identifier', data, 'other', other, 'way', k)
    r = RKI.cls.load(data)
    if k:
        r.native
    g.true(r['subjectKeyIdentifier'] is r['subject_key_identifier'], 'old name of the key identifier, read')
    g.eq(r['subjectKeyIdentifier'].native, r.native['subject_key_identifier'], 'old name of the key identifier')
    want = RKI.cls.load(data)
    want['subject_key_identifier'] = other
    r['subjectKeyIdentifier'] = other
    g.eq(r['subject_key_identifier'].native, other, 'assigned by the old name')
    g.eq(r.dump(), want.dump(), 'encoding after an assignment by the old name')
    g.eq(RKI.cls({'subjectKeyIdentifier': other}).dump(), ref.seq(ref.octets(other)), 'built by the old name')
    old = g.choice(sorted(OLD))
    value = RKI.cls.load(data) if old == 'recipientKeyId' else other
    make = (lambda n: PREF.cls(name=n, value=value)) if g.draw(2) else (lambda n: PREF.cls({n: value}))
    x, y = make(old), make(OLD[old])
    g.eq(x.name, OLD[old], 'name of an alternative built by its old name')
    g.eq(x.dump(), y.dump(), 'encoding of an alternative built by its old name')
    g.eq(x.dump(), ref.tlv(2, 1, 1, ref.read(data).content) if old == 'recipientKeyId' else ref.tlv(2, 0, 2, other), 'encoding of an alternative')
    g.eq(x.native, y.native, 'native of an alternative built by its old name')
    g.nontrivial((data, other, old))
    g.sample('%s %s' % (old, data.hex()))
