"""The predefined structures as abstract types (lib/model.py), built from the
frozen snapshot of the published definitions (data/schema.json).

Sizes are bounded by fuel: every generated part burns some, and when it is used
up optional fields stay absent, lists stay short, choices take their smallest
alternative and open types an unregistered identifier."""
import ipaddress
import json
import os

from lib import ref, model
from lib.model import ABSENT, Ty, Prim, AnyOf, Record, ListOf, Union, Field, Tagging
from lib.schema import DATA, HERE, resolve
from asn1crypto import core, x509

FUEL = [0]


def burn(n=1):
    FUEL[0] -= n
    return FUEL[0] > 0


def value(g, ty, fuel=None):
    """an abstract value of bounded size"""
    FUEL[0] = g.choice([4, 12, 30, 60, 120]) if fuel is None else fuel
    return ty.gen(g)


# ------------------------------------------------------------ heights

_height = {}


def height(path, seen=()):
    if path in _height:
        return _height[path]
    if path in seen:
        return 1000
    d = DATA[path]
    seen = seen + (path,)
    k = d['kind']
    if k in ('sequence', 'set'):
        hs = [0]
        for name, p, params in d['fields']:
            if 'optional' in params or 'default' in params or p is None or p == 'core.Any':
                continue
            hs.append(height(p, seen))
        h = 1 + max(hs)
    elif k == 'choice':
        h = 1 + min(height(p, seen) for _, p, _ in d['alternatives'])
    else:
        h = 1
    if not seen[1:] or h < 500:
        _height[path] = h
    return h


# ------------------------------------------------------------ special primitives

HOST = ['example.com', 'a.b', 'www.example.org', '*.example.com', '.example.net', 'x-1.test', 'localhost', '']
MAIL = ['a@b.com', 'John.Doe@example.org', 'x', '.example.com', 'A_b+c@d-e.test']
URIS = ['http://example.com/', 'http://a.b/c?d=e#f', 'ldap://host/cn=x', 'urn:oid:1.2', 'https://example.com:8443/x', 'mailto:a@b.com']


def g_ip(g):
    if g.draw(2):
        n, w = (g.draw(1 << 30) * 4 + g.draw(4)), 4
        text = str(ipaddress.IPv4Address(n))
    else:
        # keep clear of ranges whose text form is a matter of taste
        n = 0x20010db8 << 96 | g.draw(1 << 40) << g.choice([0, 20, 40])
        w = 16
        text = str(ipaddress.IPv6Address(n))
    raw = n.to_bytes(w, 'big')
    if g.draw(3) == 0:
        bits = g.draw(8 * w + 1)
        text += '/%d' % bits
        raw += ((1 << 8 * w) - (1 << (8 * w - bits))).to_bytes(w, 'big')
    return (text, raw)


def prim(cls, tag, gen, content, **kw):
    return Prim(cls, tag, gen, content, **kw)


LATIN = 'abcXYZ019 '


def make_prim(path):
    d = DATA[path]
    cls = resolve(path)
    kind = d['kind']
    tag = (d['class_'] or 0, d['tag'])
    table = d.get('map')
    if path == 'x509.IPAddress':
        return Prim(cls, tag, g_ip, lambda a: a[1], nat=lambda a: a[0], kind='string')
    if path == 'x509.DNSName':
        return Prim(cls, tag, lambda g: g.choice(HOST), lambda a: a.encode(), kind='string')
    if path == 'x509.EmailAddress':
        return Prim(cls, tag, lambda g: g.choice(MAIL), lambda a: a.encode(), kind='string')
    if path == 'x509.URI':
        return Prim(cls, tag, lambda g: g.choice(URIS), lambda a: a.encode(), kind='string')
    if path == 'ocsp.StatusGood':
        return Prim(cls, tag, lambda g: 0, lambda a: b'', nat=lambda a: 'good')
    if path == 'ocsp.StatusUnknown':
        return Prim(cls, tag, lambda g: 0, lambda a: b'', nat=lambda a: 'unknown')
    if kind == 'integer':
        if table:
            return model.named_int(cls, dict((int(k), v) for k, v in table.items()), tag)
        return model.integer(cls, tag)
    if kind == 'enumerated':
        return model.named_int(cls, dict((int(k), v) for k, v in table.items()), tag, closed=True)
    if kind == 'boolean':
        return Prim(cls, tag, lambda g: bool(g.draw(2)), lambda a: b'\xff' if a else b'\x00', kind='bool')
    if kind == 'null':
        return Prim(cls, tag, lambda g: None, lambda a: b'', raw=lambda a: core.Null())
    if path == 'core.RelativeOid':
        return Prim(cls, tag, lambda g: '.'.join(str(g.draw(300)) for _ in range(1 + g.draw(4))),
                    lambda a: ref.rel_oid_content([int(x) for x in a.split('.')]))
    if kind == 'objectidentifier':
        return make_oid(cls, d, tag)
    if kind == 'bitstring':
        if table:
            return model.named_bits(cls, dict((int(k), v) for k, v in table.items()), tag)
        return Prim(cls, tag, model.g_bits, ref.bits_content, kind='bits', seg=3)
    if kind == 'octetbitstring' or kind == 'parsableoctetbitstring':
        return Prim(cls, tag, model.g_bytes, lambda a: b'\x00' + a, kind='bits', seg=3)
    if kind == 'octetstring' or kind == 'parsableoctetstring':
        return Prim(cls, tag, model.g_bytes, lambda a: a, kind='string')
    if kind == 'integeroctetstring':
        return Prim(cls, tag, lambda g: g.nat(300), lambda a: ref.uint_content(a) or b'\x00', kind='string')
    if kind == 'integerbitstring':
        return Prim(cls, tag, lambda g: g.nat(80), lambda a: b'\x00' + (ref.uint_content(a) or b'\x00'), kind='bits', seg=3)
    if kind == 'utctime':
        return Prim(cls, tag, model.g_time, model.c_utc, kind='string', seg=tag[1])
    if kind == 'generalizedtime':
        return Prim(cls, tag, model.g_time, model.c_gen, kind='string', seg=tag[1])
    if kind == 'abstractstring':
        codec, alphabet = {12: ('utf-8', model.WIDE), 30: ('utf-16-be', 'aZ é߀漢'), 28: ('utf-32-be', model.WIDE), 18: ('latin1', '0123456789 '),
                           20: ('latin1', LATIN)}.get(tag[1], ('latin1', LATIN))
        return model.string(cls, tag, codec, alphabet)
    raise LookupError('no model for %s' % path)


def make_oid(cls, d, tag):
    table = d.get('map') or {}
    keys = sorted(table)
    pref = d.get('preferred') or {}

    def gen(g):
        if not keys or g.draw(6) == 5:
            return model.g_oid(g)
        return g.choice(keys)

    def name(a):
        n = table.get(a, a)
        return n if pref.get(n, a) == a else a
    return Prim(cls, tag, gen, ref.oid_content, nat=lambda a: table.get(a, a), raw=lambda a: a, inps=[name, lambda a: a])


class NameTy(Ty):
    """distinguished names: a dictionary of the attributes in order"""
    cls = x509.Name
    tag = (0, 16)

    def gen(self, g, depth=0):
        burn(3)
        spec = DATA['x509.NameTypeAndValue']['oid_specs']
        table = DATA['x509.NameType']['map']
        kinds = [k for k in sorted(table) if spec.get(table[k]) == 'x509.DirectoryString']
        ds = []
        for o in dict.fromkeys(g.choice(kinds) for _ in range(g.draw(4))):
            ds.append((o, g.choice([(12, 'utf-8'), (19, 'latin1')]), g.text(LATIN, 1, 6)))
        return ds

    def nat(self, a):
        return dict((DATA['x509.NameType']['map'][o], t) for o, _, t in a)

    def raw(self, a):
        return x509.Name.load(self.node(a).der())

    def inp(self, g, a):
        return self.raw(a)

    def make(self, a):
        return self.raw(a)

    def obj(self, g, a):
        return self.raw(a)

    def node(self, a):
        rdns = []
        for o, (tag, codec), t in a:
            tv = ref.Node(0, 16, 'seq', kids=[ref.Node(0, 6, 'prim', ref.oid_content(o)), ref.Node(0, tag, 'string', t.encode(codec), seg_tag=tag)])
            rdns.append(ref.Node(0, 17, 'set', kids=[tv]))
        return ref.Node(0, 16, 'seq', kids=rdns)


class Dep(Ty):
    """a field whose type another field decides; abstract values are (type, value)"""
    tag = None
    any_type = True

    def ids(self):
        return None

    def nat(self, a):
        return a[0].nat(a[1])

    def deref(self, a):
        return a

    def decode(self, a):
        return (a[0], model.decoded(a[0], a[1]))

    def raw(self, a):
        return a[0].raw(a[1])

    def inp(self, g, a):
        return a[0].inp(g, a[1])

    def obj(self, g, a):
        return a[0].obj(g, a[1])

    def node(self, a):
        return a[0].node(a[1])

    def weight(self, a):
        return a[0].weight(a[1])


class Inside(Ty):
    """a value kept inside an octet or bit string"""

    def __init__(self, cls, inner, bits=False):
        self.cls, self.inner, self.bits = cls, inner, bits
        self.tag = (0, 3 if bits else 4)

    def gen(self, g, depth=0):
        return self.inner.gen(g, depth + 1)

    def nat(self, a):
        return self.inner.nat(a)

    def deref(self, a):
        return (self.inner, a)

    def decode(self, a):
        return model.decoded(self.inner, a)

    def raw(self, a):
        return self.inner.raw(a)

    def inp(self, g, a):
        return self.inner.inp(g, a)

    def obj(self, g, a):
        k = g.draw(3)
        if k == 0:
            return self.cls(self.inner.node(a).der())
        return self.inner.obj(g, a)

    def weight(self, a):
        return 1 + self.inner.weight(a)

    def node(self, a):
        body = self.inner.node(a).der()
        if self.bits:
            return ref.Node(0, 3, 'bits', b'\x00' + body, seg_tag=3)
        return ref.Node(0, 4, 'string', body, seg_tag=4)


class PRecord(Record):
    path = None

    def gen(self, g, depth=0):
        out = {}
        rich = burn()
        for f in self.fields:
            if f.mode == 'opt' and (FUEL[0] <= 0 or g.draw(2)):
                out[f.name] = ABSENT
            elif f.mode == 'def' and (FUEL[0] <= 0 or g.draw(3) == 0):
                out[f.name] = f.default
            elif isinstance(f.ty, Dep):
                v = self.dependent(g, f, out, depth)
                if v is not None:
                    out[f.name] = v
                else:
                    out[f.name] = ABSENT
            elif f.name == self.selector:
                out[f.name] = self.select(g, f, rich)
            else:
                out[f.name] = f.ty.gen(g, depth + 1)
        if self.path == 'cms.AttributeCertificateInfoV1':
            # a structure of this type has no other version
            out['version'] = self.by_name['version'].default
        for f in self.fields:
            # an absent field the standard wants there for this identifier
            if isinstance(f.ty, Dep) and out[f.name] is ABSENT and self.needed(out):
                out[f.name] = (NULL, None)
        return out

    selector = None
    specs = {}
    unknown = None

    def needed(self, out):
        return self.force_null and out[self.selector] in NULLS and self.spec_path(out) is None

    force_null = False

    def select(self, g, f, rich):
        if FUEL[0] <= 0:
            return self.unknown
        if self.with_spec and g.draw(5) < 3:
            return g.choice(self.with_spec)
        return f.ty.gen(g)

    def spec_path(self, out):
        n = self.by_name[self.selector].ty.nat(out[self.selector])
        return self.specs.get(n)

    def dependent(self, g, f, out, depth):
        p = self.spec_path(out)
        if p is None:
            if self.force_null and out[self.selector] in NULLS:
                return (NULL, None)
            ty = f.ty.fallback
        else:
            ty = f.ty.wrap(build(p))
        return (ty, ty.gen(g, depth + 1))


NULLS = {'1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13', '1.2.840.113549.1.1.14',
         '1.3.14.3.2.26', '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3', '2.16.840.1.101.3.4.2.4'}


class PList(ListOf):
    spec_class = None

    def obj(self, g, a):
        if self.spec_class:
            return self.cls(self.inp(g, a), spec=self.spec_class)
        return self.cls(self.inp(g, a))

    def gen(self, g, depth=0):
        if not burn():
            return [] if self.minlen == 0 else [self.child.gen(g, depth + 1)]
        return [self.child.gen(g, depth + 1) for _ in range(g.draw(4))]


class BareSet(PList):
    """a set-of whose element type the class does not know: assigned as an object only"""

    def obj(self, g, a):
        return self.cls([self.item(g, x) for x in a], spec=core.Any)

    def inp(self, g, a):
        return self.obj(g, a)

    def raw(self, a):
        return self.cls([self.item(None, x) for x in a], spec=core.Any)


class PUnion(Union):
    small = None

    def gen(self, g, depth=0):
        f = g.choice(self.alts) if burn() else self.small
        return (f.name, f.ty.gen(g, depth + 1))


class Lazy(object):
    """resolves recursion: stands for a type that is being built"""


_built = {}


def tagging(params):
    for mode in ('implicit', 'explicit'):
        if mode in params:
            t = params[mode]
            if isinstance(t, list):
                # ['tuple', class, tag]
                return Tagging(mode, [(t[1], t[2])])
            return Tagging(mode, [(2, t)])
    return Tagging()


def unconv(v):
    if isinstance(v, list):
        if v[0] == 'bytes':
            return bytes.fromhex(v[1])
        if v[0] == 'dict':
            return dict((k, unconv(x)) for k, x in v[1].items())
        if v[0] in ('list', 'tuple'):
            return [unconv(x) for x in v[1:]]
        if v[0] == 'set':
            return set(v[1:])
    return v


def abstract(ty, v):
    """the abstract value of a native one (used for declared defaults only)"""
    if isinstance(ty, PRecord):
        out = {}
        for f in ty.fields:
            if f.name in v:
                if isinstance(f.ty, Dep):
                    p = ty.spec_path(out)
                    t = f.ty.wrap(build(p)) if p else f.ty.fallback
                    out[f.name] = (t, abstract(t, v[f.name]))
                else:
                    out[f.name] = abstract(f.ty, v[f.name])
            elif f.mode == 'def':
                out[f.name] = f.default
            else:
                out[f.name] = ABSENT
        for f in ty.fields:
            if isinstance(f.ty, Dep) and out[f.name] is ABSENT and ty.needed(out):
                out[f.name] = (NULL, None)
        return out
    if isinstance(ty, ListOf):
        return [abstract(ty.child, x) for x in v]
    table = DATA.get(ty.path, {}).get('map') if getattr(ty, 'path', None) else None
    if table:
        rev = dict((n, k) for k, n in table.items())
        if isinstance(v, (set, frozenset)):
            return frozenset(int(rev[x]) for x in v)
        k = rev.get(v, v)
        if isinstance(k, str) and issubclass(ty.cls, core.ObjectIdentifier):
            pref = DATA[ty.path].get('preferred') or {}
            return pref.get(v, k)
        return int(k)
    return v


def fixed(params):
    """SetOf / SequenceOf declared by field parameter"""
    return params.get('spec')


def build(path, spec=None):
    key = (path, spec)
    if key in _built:
        return _built[key]
    d = DATA[path]
    k = d['kind']
    if path == 'x509.Name':
        ty = NameTy()
    elif path == 'core.Any':
        ty = AnyOf(model.any_prims())
    elif k in ('sequence', 'set') and d['fields']:
        ty = PRecord(resolve(path), [], k == 'set')
        _built[key] = ty
        ty.path = path
        fill_record(ty, d)
        return ty
    elif k in ('sequenceof', 'setof'):
        child = spec or d['child']
        ty = PList(resolve(path), None, k == 'setof')
        ty.path = path
        _built[key] = ty
        ty.child = build(child) if child else AnyOf(model.any_prims())
        if path == 'core.SetOf' or path == 'core.SequenceOf':
            ty.spec_class = resolve(child or 'core.Any')
        return ty
    elif k == 'choice':
        ty = PUnion(resolve(path), [])
        ty.path = path
        _built[key] = ty
        for name, p, params in d['alternatives']:
            f = Field(name, build(p, None), 'req', tagging(params))
            f.height = height(p)
            ty.alts.append(f)
            ty.by_name[name] = f
        ty.small = min(ty.alts, key=lambda f: f.height)
        if d.get('explicit'):
            pairs = [(t[1], t[2]) for t in d['explicit'][1:]]
            ty = classtagged(ty, Tagging('explicit', pairs))
    else:
        ty = make_prim(path)
    ty.path = path
    _built[key] = ty
    return ty


def classtagged(ty, tagging):
    plain = ty.node
    ty.node = lambda a: tagging.apply(plain(a))
    ty.ids = lambda: {tagging.pairs[-1]}
    return ty


NULL = Prim(core.Null, 5, lambda g: None, lambda a: b'', raw=lambda a: core.Null())
NULL.path = 'core.Null'


def untouched(ty):
    return ty


FIELD_KEYS = {
    # path: (field, selecting field)
    'cms.CMSAttribute': ('values', 'type', 'cms.SetOfAny'),
    'cms.AttCertAttribute': ('values', 'type', 'cms.SetOfAny'),
    'pkcs12.Attribute': ('values', 'type', 'pkcs12.SetOfAny'),
}


class SignedLike(PRecord):
    """encap_content_info is EncapsulatedContentInfo unless the version is 1"""

    def dependent(self, g, f, out, depth):
        v1 = DATA['cms.CMSVersion']['map'].get(str(out['version'])) == 'v1'
        ty = build('cms.ContentInfo' if v1 else 'cms.EncapsulatedContentInfo')
        return (ty, ty.gen(g, depth + 1))

    def needed(self, out):
        return False


class KeyInfo(PRecord):
    """the key's type follows from the algorithm"""

    KEYS = {}

    def dependent(self, g, f, out, depth):
        alg = out[self.alg]
        n = build(self.alg_id).nat(alg['algorithm'])
        ty = self.key_type(n)
        return (ty, ty.gen(g, depth + 1))

    def needed(self, out):
        return False


with open(os.path.join(HERE, 'data', 'curves.json')) as fh:
    CURVES = json.load(fh)


class ECPriv(PRecord):
    """private keys are as wide as the order of the curve"""

    def gen(self, g, depth=0):
        a = PRecord.gen(self, g, depth)
        p = a['parameters']
        width = 0
        if p is not ABSENT:
            p = a['parameters'] = usable(g, p)
            width = width_of(p)
        n = g.nat(8 * width) if width else g.nat(300)
        a['private_key'] = (n, width or len(ref.uint_content(n)) or 1)
        return a


def width_of(p):
    """encoded width of private keys under the domain parameters, 0 if unknown; makes them usable first"""
    if p[0] == 'named':
        return CURVES[p[1]]
    if p[0] == 'specified':
        return len(ref.uint_content(p[1]['order'] - 1))
    return 0


def usable(g, p):
    if p[0] == 'named' and p[1] not in CURVES:
        return ('named', g.choice(sorted(CURVES)))
    if p[0] == 'specified':
        p[1]['order'] = 2 + g.nat(600)
    return p


class PrivInfo(KeyInfo):
    def gen(self, g, depth=0):
        a = KeyInfo.gen(self, g, depth)
        alg = a['private_key_algorithm']
        if build(self.alg_id).nat(alg['algorithm']) == 'ec' and alg['parameters'] is not ABSENT:
            ty, p = alg['parameters']
            p = usable(g, p)
            alg['parameters'] = (ty, p)
            w = width_of(p)
            if w:
                key = a['private_key'][1]
                if key['parameters'] is not ABSENT:
                    key['parameters'] = p
                key['private_key'] = (g.nat(8 * w), w)
        return a

    alg, alg_id = 'private_key_algorithm', 'keys.PrivateKeyAlgorithmId'

    def key_type(self, n):
        p = {'rsa': 'keys.RSAPrivateKey', 'rsassa_pss': 'keys.RSAPrivateKey', 'dsa': 'core.Integer', 'ec': 'keys.ECPrivateKey',
             'x25519': 'core.OctetString', 'x448': 'core.OctetString', 'ed25519': 'core.OctetString', 'ed448': 'core.OctetString'}.get(n)
        return Inside(core.ParsableOctetString, build(p)) if p else build('core.ParsableOctetString')


class PubInfo(KeyInfo):
    alg, alg_id = 'algorithm', 'keys.PublicKeyAlgorithmId'

    def key_type(self, n):
        p = {'rsa': 'keys.RSAPublicKey', 'rsaes_oaep': 'keys.RSAPublicKey', 'rsassa_pss': 'keys.RSAPublicKey', 'dsa': 'core.Integer',
             'dh': 'core.Integer'}.get(n)
        if p:
            return Inside(core.ParsableOctetBitString, build(p), bits=True)
        if n == 'ec':
            return build('keys.ECPointBitString')
        if n in ('x25519', 'x448', 'ed25519', 'ed448'):
            return build('core.OctetBitString')
        return build('core.ParsableOctetBitString')


def fill_record(ty, d):
    path = ty.path
    pair = d['oid_pair']
    force = '_ForceNullParameters' in d['bases']
    if path in ('cms.SignedData', 'cms.DigestedData'):
        ty.__class__ = SignedLike
    elif path == 'keys.PrivateKeyInfo':
        ty.__class__ = PrivInfo
    elif path == 'keys.PublicKeyInfo':
        ty.__class__ = PubInfo
    elif path == 'keys.ECPrivateKey':
        ty.__class__ = ECPriv
    dep = {}
    if path in FIELD_KEYS:
        f, sel, default = FIELD_KEYS[path]
        ty.selector, ty.specs = sel, d['oid_specs']
        dep[f] = (default, untouched)
    elif pair:
        ty.selector, ty.specs = pair[0], d['oid_specs'] or {}
        ty.force_null = force
        dep[pair[1]] = ('core.SetOf' if path == 'x509.SubjectDirectoryAttribute' else None, None)
    elif force:
        ty.selector, ty.specs, ty.force_null = 'algorithm', {}, True
        dep['parameters'] = (None, None)
    if isinstance(ty, SignedLike):
        dep['encap_content_info'] = (None, untouched)
    elif isinstance(ty, PrivInfo):
        dep['private_key'] = (None, untouched)
    elif isinstance(ty, PubInfo):
        dep['public_key'] = (None, untouched)
    for name, p, params in d['fields']:
        mode = 'def' if 'default' in params else 'opt' if 'optional' in params else 'req'
        if name in dep:
            fty = Dep()
            fallback, wrap = dep[name]
            if wrap is None:
                if p == 'core.ParsableOctetString':
                    wrap = lambda t: Inside(core.ParsableOctetString, t)
                    fallback = fallback or 'core.ParsableOctetString'
                else:
                    wrap = untouched
            fty.wrap = wrap
            if path == 'x509.SubjectDirectoryAttribute':
                fty.fallback = BareSet(core.SetOf, AnyOf(model.any_prims()), True)
            else:
                fty.fallback = build(fallback) if fallback else AnyOf(model.any_prims())
            fty.cls = None
        else:
            sp = params.get('spec')
            fty = build(p, sp[1] if sp else None)
        if path == 'keys.ECPrivateKey' and name == 'private_key':
            fty = Prim(core.IntegerOctetString, 4, lambda g: 0, lambda a: a[0].to_bytes(a[1], 'big'), nat=lambda a: a[0], kind='string')
        f = Field(name, fty, mode, tagging(params))
        ty.fields.append(f)
        ty.by_name[name] = f
        if mode == 'def':
            f.default = abstract(fty, unconv(params['default']))
    if ty.selector:
        st = ty.by_name[ty.selector].ty
        table = DATA[st.path].get('map') or {}
        closed = issubclass(st.cls, core.Integer)
        inv = [k for k in sorted(table) if table[k] in ty.specs]
        ty.with_spec = [int(k) for k in inv] if closed else inv
        ty.unknown = 999 if closed else '1.2.3.4'
    else:
        ty.with_spec = []


SKIP = {'core.AbstractString', 'core.IntegerBitString', 'core.AbstractTime', 'core.Asn1Value', 'core.Primitive', 'core.Choice', 'core.Concat', 'core.Void', 'core.Real',
        'core.ObjectDescriptor', 'core.InstanceOf', 'core.EmbeddedPdv', 'core.Sequence', 'core.Set', 'core.SequenceOf', 'core.SetOf', 'core.Any',
        'core.CharacterString', 'x509.TrustedCertificate', 'core.Enumerated', 'x509.NotReallyTeletexString'}

PATHS = [p for p in sorted(DATA) if p not in SKIP]
