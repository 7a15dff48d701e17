"""C25: key containers hold the key they were given and report its true parameters."""
import copy
import hashlib
import pickle

from lib.pbt import Check
from lib import ref, model, predef
from lib.predef import CURVES, ABSENT
from asn1crypto import core, keys

check = Check('C25', rule=(
    'RSA, DSA, DH, EC and Edwards/Montgomery keys with numbers of 1 to 4200 bits (short, at octet boundaries, powers of two), every named curve, '
    'generated specified curves, implied curves, coordinates and private values of every length up to and including the width of the curve; wrapped from objects and '
    'from octets, built by hand, loaded, copied, pickled and edited. Oracle: reference encoder and arithmetic on the numbers. Non-trivial: every '
    'case with a key or a point; distinct by encoding.'))

PRIV = {'rsa': '1.2.840.113549.1.1.1', 'rsassa_pss': '1.2.840.113549.1.1.10', 'dsa': '1.2.840.10040.4.1', 'ec': '1.2.840.10045.2.1', 'x25519': '1.3.101.110',
        'x448': '1.3.101.111', 'ed25519': '1.3.101.112', 'ed448': '1.3.101.113'}
PUB = dict(PRIV, rsaes_oaep='1.2.840.113549.1.1.7', dh='1.2.840.10046.2.1')
RAW = {'x25519': 32, 'x448': 56, 'ed25519': 32, 'ed448': 57}
WIDTHS = sorted(set(CURVES.values()) | {1, 2, 20, 66})


def number(g, most=4200, least=1):
    """a number with lengths that matter"""
    k = g.draw(4)
    if k == 0:
        bits = g.choice([8, 16, 64, 160, 256, 512, 1024, 2048, 3072, 4096])
        bits = min(bits, most)
        n = g.choice([(1 << bits) - 1, 1 << (bits - 1), 1 << bits, (1 << bits) - 1 - g.draw(1 << 16), (1 << (bits - 1)) + g.draw(1 << 16), (1 << (bits - 1)) - 1])
    elif k == 1:
        n = g.nat(min(most, 300))
    else:
        n = g.nat(most)
    return max(n, least)


def octet_length(n):
    return max(1, (n.bit_length() + 7) // 8)


def width(g):
    return g.choice(WIDTHS)


def coordinate(g, w):
    """a number that fits in w octets, often short"""
    k = g.draw(5)
    if k == 0:
        return g.draw(3)
    if k == 1:
        return (1 << 8 * w) - 1 - g.draw(3)
    if k == 2:
        return g.nat(8 * g.uint(1, w))
    return g.nat(8 * w)


def through(g, o):
    """the object as it is, or as it comes out of a copy or a file"""
    k = g.draw(6)
    g.log('through', k)
    if k == 1:
        return o.copy()
    if k == 2:
        return copy.deepcopy(o)
    if k == 3:
        return pickle.loads(pickle.dumps(o))
    if k == 4:
        return type(o).load(o.dump())
    if k == 5:
        o.native
    return o


def fails(g, fn, what, kinds=(ValueError,)):
    try:
        got = fn()
    except kinds:
        g.unit()
        return
    g.fail('no error: ' + what, got=got)


# ------------------------------------------------------------ points

@check.prop(20000, 400000)
def points(g):
    cls = g.choice([keys.ECPoint, keys.ECPointBitString])
    w = width(g)
    x, y = coordinate(g, w), coordinate(g, w)
    g.log(cls.__name__, w, hex(x), hex(y))
    o = cls.from_coords(x, y)
    g.true(type(o) is cls, 'class of a point', got=type(o))
    n = max(octet_length(x), octet_length(y))
    want = b'\x04' + x.to_bytes(n, 'big') + y.to_bytes(n, 'big')
    g.eq(o.native, want, 'octets of a point')
    g.eq(o.dump(), ref.octets(want) if cls is keys.ECPoint else ref.bitstr(want), 'encoding of a point')
    g.eq(tuple(through(g, o).to_coords()), (x, y), 'coordinates of a point made from them')
    # at the width of the curve
    data = b'\x04' + x.to_bytes(w, 'big') + y.to_bytes(w, 'big')
    enc = ref.octets(data) if cls is keys.ECPoint else ref.bitstr(data)
    p = cls.load(enc) if g.draw(2) else cls(data)
    p = through(g, p)
    g.eq(tuple(p.to_coords()), (x, y), 'coordinates of a point')
    g.eq(tuple(p.to_coords()), (x, y), 'coordinates of a point, again')
    g.eq(p.native, data, 'octets of a point after converting')
    g.eq(p.dump(), enc, 'encoding of a point after converting')
    if n == w:
        g.eq(cls.from_coords(*p.to_coords()).native, data, 'octets of a point converted both ways')
    k = g.draw(3)
    if k == 0:
        bad = b'\x04' + data[1:1 + g.draw(w) * 2 + 1]
        fails(g, lambda: cls(bad).to_coords(), 'coordinates of different lengths')
    elif k == 1:
        first = g.draw(256)
        bad = bytes([first if first != 4 else 0]) + data[1:1 + g.draw(2 * w + 1)]
        fails(g, lambda: cls(bad).to_coords(), 'not an uncompressed point')
    g.nontrivial((cls.__name__, x, y, w))
    g.sample('%s of width %d, x of %d and y of %d octets' % (cls.__name__, w, octet_length(x), octet_length(y)))


# ------------------------------------------------------------ curves

SPECIFIED = predef.build('keys.SpecifiedECDomain')


class Domain(object):
    """domain parameters of an EC key"""

    def __init__(self, g, implied=True):
        k = g.draw(6)
        self.size = None
        if k == 0 and implied:
            self.facts = ('implicit_ca', None)
            self.der = ref.null()
        elif k == 1:
            a = predef.value(g, SPECIFIED, 30)
            predef.usable(g, ('specified', a))
            self.size = octet_length(a['order'] - 1)
            self.der = SPECIFIED.node(a).der()
            self.facts = ('specified', SPECIFIED.nat(a))
            self.a = a
        else:
            oids = sorted(CURVES)
            o = oids[g.enum(len(oids))]
            name = predef.DATA['keys.NamedCurve']['map'].get(o)
            self.size = CURVES[o]
            self.facts = ('named', name)
            self.der = ref.oid(o)

    def check(self, g, got):
        if not isinstance(got, tuple) or len(got) != 2 or got[0] != self.facts[0]:
            g.fail('curve', got=got, want=self.facts)
        if self.facts[0] == 'specified':
            g.true(model.matches(SPECIFIED, self.a, got[1]), 'parameters of a specified curve', got=got[1], want=self.facts[1])
        else:
            g.eq(got[1], self.facts[1], 'curve')

    def value(self):
        return keys.ECDomainParameters.load(self.der)


@check.prop(12000, 200000)
def curves(g):
    d = Domain(g)
    o = through(g, d.value())
    g.log(d.facts, d.der)
    if d.size is None:
        fails(g, lambda: o.key_size, 'width of the keys of an implied curve')
    else:
        g.eq(o.key_size, d.size, 'width of the private keys of a curve', curve=d.facts)
    if d.facts[0] == 'named':
        g.eq(keys.NamedCurve(d.facts[1]).dump(), d.der, 'a curve by its name')
        g.eq(keys.ECDomainParameters(('named', d.facts[1])).key_size, d.size, 'width by name')
    k = g.draw(4)
    if k == 0:
        # a curve that nobody registered, then one that was
        fails(g, lambda: keys.ECDomainParameters(('named', '1.3.6.1.4.1.55555.1.%d' % g.draw(50))).key_size, 'width of the keys of an unknown curve')
    elif k == 1:
        i, n = g.draw(200), g.uint(1, 90)
        oid, name = '1.3.6.1.4.1.55555.%d.%d' % (2 + 2 * g.draw(2), i), 'curve%d' % i
        keys.NamedCurve.register(name, oid, n)
        g.eq(keys.ECDomainParameters.load(ref.oid(oid)).key_size, n, 'width of the keys of a registered curve')
        g.eq(keys.NamedCurve.load(ref.oid(oid)).native, name, 'name of a registered curve')
        g.eq(keys.NamedCurve(name).dump(), ref.oid(oid), 'a registered curve by its name')
        priv = coordinate(g, n)
        e = keys.ECPrivateKey({'version': 1, 'private_key': priv, 'parameters': ('named', name)})
        g.eq(e.dump(), ref.seq(ref.integer(1), ref.octets(priv.to_bytes(n, 'big')), ref.explicit(0, ref.oid(oid))), 'key on a registered curve')
    g.nontrivial(d.der)
    g.sample('%s of %s octets' % (d.facts[0], d.size))


# ------------------------------------------------------------ private keys

class Private(object):
    """a private key: the key on its own, and what a container should hold and say"""

    def __init__(self, g, algorithm=None):
        self.algorithm = algorithm or g.choice(['rsa', 'rsassa_pss', 'dsa', 'ec', 'ec', 'ec'])
        self.domain = self.q = None
        alg = ref.oid(PRIV[self.algorithm])
        if self.algorithm in ('rsa', 'rsassa_pss'):
            ns = [number(g)] + [number(g, 300, 0) for _ in range(7)]
            others = [ref.seq(*[ref.integer(number(g, 100)) for _ in range(3)]) for _ in range(g.draw(3))] if g.draw(4) == 0 else None
            self.alone = ref.seq(ref.integer(0 if others is None else 1), *([ref.integer(n) for n in ns] + ([ref.seq(*others)] if others is not None else [])))
            self.inside = self.alone
            self.cls = keys.RSAPrivateKey
            self.bits = 8 * octet_length(ns[0])
            self.params = ref.null() if self.algorithm == 'rsa' else b''
        elif self.algorithm == 'dsa':
            p, q, x, y, z = number(g), number(g, 520, 0), number(g, 300, 0), number(g, 300, 0), number(g, 300, 0)
            self.alone = ref.seq(*[ref.integer(n) for n in (0, p, q, x, y, z)])
            self.inside = ref.integer(z)
            self.cls = keys.DSAPrivateKey
            self.bits = 8 * octet_length(p)
            self.params = ref.seq(ref.integer(p), ref.integer(q), ref.integer(x))
            self.q = q
        elif self.algorithm == 'ec':
            self.domain = d = Domain(g)
            w = d.size or g.uint(1, 72)
            self.number = coordinate(g, w)
            self.point = b'\x04' + g.nbytes(2 * w) if g.draw(3) else None
            public = b'' if self.point is None else ref.explicit(1, ref.bitstr(self.point))
            head = ref.integer(1) + ref.octets(self.number.to_bytes(w, 'big'))
            self.alone = ref.seq(head, ref.explicit(0, d.der), public)
            self.inside = ref.seq(head, public)
            self.cls = keys.ECPrivateKey
            self.bits = 8 * w
            self.params = d.der
        else:
            data = g.nbytes(RAW[self.algorithm])
            self.alone = None
            self.inside = ref.octets(data)
            self.bits = 8 * len(data)
            self.params = b''
        self.der = ref.seq(ref.integer(0), ref.seq(alg, self.params), ref.octets(self.inside))

    def obj(self):
        spec = {'rsa': keys.RSAPrivateKey, 'rsassa_pss': keys.RSAPrivateKey, 'dsa': core.Integer, 'ec': keys.ECPrivateKey}.get(self.algorithm, core.OctetString)
        return spec.load(self.inside)

    def views(self, g):
        out = [self.algo, self.size, self.bytes, self.key, self.params_octets]
        return g.perm(out + [self.curve, self.hash])

    def algo(self, g, o):
        g.eq(o.algorithm, self.algorithm, 'algorithm')

    def size(self, g, o):
        g.eq(o.bit_size, self.bits, 'bit size')

    def bytes(self, g, o):
        g.eq(o.byte_size, self.bits // 8, 'byte size')

    def key(self, g, o):
        g.eq(o['private_key'].parsed.dump(), self.inside, 'the key in the container')
        if self.domain:
            g.eq(o['private_key'].parsed['private_key'].native, self.number, 'the private number')

    def params_octets(self, g, o):
        g.eq(o['private_key_algorithm']['parameters'].dump(), self.params, 'parameters in the container')
        if self.q is not None:
            g.eq(o['private_key_algorithm']['parameters'].q_byte_size, (self.q.bit_length() + 7) // 8, 'byte size of q')

    def curve(self, g, o):
        if self.domain:
            self.domain.check(g, o.curve)
        else:
            fails(g, lambda: o.curve, 'curve of a key that has none')

    def hash(self, g, o):
        if self.q is not None:
            g.eq(o.hash_algo, 'sha1' if octet_length(self.q) <= 20 else 'sha2', 'hash algorithm of a DSA key')
        else:
            fails(g, lambda: o.hash_algo, 'hash algorithm of a key that is not DSA')


@check.prop(24000, 400000)
def private(g):
    k = Private(g)
    g.log(k.algorithm, k.alone)
    how = g.draw(4)
    given = k.alone
    own = None
    if how:
        own = given = k.cls.load(k.alone)
        if how == 2:
            own.native
            if g.draw(3) == 0:
                own = given = own.retag({g.choice(['implicit', 'explicit']): g.draw(40)})
        elif how == 3:
            if k.algorithm == 'ec':
                own = k.cls({'version': 1, 'private_key': k.number, 'parameters': k.domain.value(), 'public_key': k.point})
                if not k.domain.size:
                    own.set_key_size(k.bits // 8)
            else:
                own = k.cls(own.native)
            given = own
            g.eq(own.dump(), k.alone, 'the key before it is wrapped')
    o = keys.PrivateKeyInfo.wrap(given, k.algorithm)
    g.true(isinstance(o, keys.PrivateKeyInfo), 'class of the container', got=type(o))
    if g.draw(3) == 0:
        for v in k.views(g)[:2]:
            v(g, o)
    g.eq(o.dump(), k.der, 'container')
    if own is not None:
        g.eq(own.untag().dump(), k.alone, 'the key after it was wrapped')
    o = through(g, o)
    for v in k.views(g):
        v(g, o)
    g.eq(o.dump(), k.der, 'container after reading it')
    g.eq(o.dump(force=True), k.der, 'container encoded again')
    # and out again, with its parameters back in place
    if k.algorithm == 'ec':
        e = o['private_key'].parsed.copy()
        e['parameters'] = o['private_key_algorithm']['parameters']
        g.eq(e.dump(), k.alone, 'the key taken out of the container')
    elif k.algorithm != 'dsa':
        g.eq(k.cls.load(o['private_key'].native if isinstance(o['private_key'].native, bytes) else bytes(o['private_key'])).dump(), k.alone, 'the key taken out')
    g.nontrivial(k.der)
    g.sample('%s key of %d bits, way %d' % (k.algorithm, k.bits, how))


@check.prop(8000, 150000)
def loaded_private(g):
    """containers made by others, and ones built field by field"""
    k = Private(g, g.choice(sorted(PRIV)))
    g.log(k.algorithm, k.der)
    how = g.draw(3)
    if how == 0:
        b = ref.Ber(g)
        o = keys.PrivateKeyInfo.load(k.der)
    elif how == 1:
        o = keys.PrivateKeyInfo({
            'version': 0,
            'private_key_algorithm': keys.PrivateKeyAlgorithm.load(ref.seq(ref.oid(PRIV[k.algorithm]), k.params)),
            'private_key': k.obj(),
        })
    else:
        o = keys.PrivateKeyInfo()
        o['version'] = 0
        o[g.choice([1, 'private_key_algorithm'])] = {'algorithm': k.algorithm}
        if k.params:
            cls = {'dsa': keys.DSAParams, 'ec': keys.ECDomainParameters, 'rsa': core.Null}[k.algorithm]
            o['private_key_algorithm']['parameters'] = cls.load(k.params)
        o[g.choice([2, 'private_key'])] = k.obj()
    g.eq(o.dump(), k.der, 'container')
    o = through(g, o)
    for v in k.views(g):
        v(g, o)
    g.eq(o.dump(), k.der, 'container after reading it')
    # another key of another kind takes its place
    k2 = Private(g, k.algorithm)
    if g.draw(3) == 0:
        g.log('then', k2.der)
        o['private_key_algorithm'] = keys.PrivateKeyAlgorithm.load(ref.seq(ref.oid(PRIV[k.algorithm]), k2.params))
        o['private_key'] = k2.obj()
        for v in k2.views(g):
            v(g, o)
        g.eq(o.dump(), k2.der, 'container after another key was put in')
    g.nontrivial(k.der)
    g.sample('%s key of %d bits, way %d' % (k.algorithm, k.bits, how))


@check.prop(3000, 50000)
def refused(g):
    """what can not be wrapped"""
    k = Private(g)
    g.log(k.algorithm, k.alone)
    how = g.draw(6)
    if how == 0:
        bad = g.choice(['rsax', 'RSA', 'dh', 'ed25519', 'x448', None, ''])
        fails(g, lambda: keys.PrivateKeyInfo.wrap(k.alone, bad), 'wrapping under %r' % bad)
    elif how == 1:
        bad = g.choice([None, 'text', 5, [1], {'a': 1}])
        fails(g, lambda: keys.PrivateKeyInfo.wrap(bad, k.algorithm), 'wrapping %r' % (bad,), (TypeError,))
        fails(g, lambda: keys.PublicKeyInfo.wrap(bad, 'rsa'), 'wrapping %r' % (bad,), (TypeError,))
    elif how == 2:
        bad = g.choice(['dsa', 'ec', 'rsax', 'dh', 'ed25519', None])
        fails(g, lambda: keys.PublicKeyInfo.wrap(b'0\x06\x02\x01\x07\x02\x01\x03', bad), 'wrapping under %r' % bad)
    elif how == 3:
        e = ref.seq(ref.integer(1), ref.octets(g.nbytes(g.uint(1, 40))))
        fails(g, lambda: keys.PrivateKeyInfo.wrap(e, 'ec').dump(), 'wrapping an EC key without a curve')
    elif how == 4:
        cut = k.alone[:g.draw(len(k.alone))]
        fails(g, lambda: keys.PrivateKeyInfo.wrap(cut, k.algorithm).dump(), 'wrapping part of a key')
    else:
        oid = '1.2.3.%d' % g.draw(40)
        o = keys.PrivateKeyInfo.load(ref.seq(ref.integer(0), ref.seq(ref.oid(oid)), ref.octets(k.inside)))
        g.eq(o.algorithm, oid, 'algorithm that is not known')
        fails(g, lambda: o.bit_size, 'size of a key of an unknown kind')
        fails(g, lambda: o.byte_size, 'size of a key of an unknown kind')
        fails(g, lambda: o.curve, 'curve of a key of an unknown kind')
        p = keys.PublicKeyInfo.load(ref.seq(ref.seq(ref.oid(oid)), ref.bitstr(k.inside)))
        g.eq(p.algorithm, oid, 'algorithm that is not known')
        g.eq(p.sha256, hashlib.sha256(k.inside).digest(), 'digest of a key of an unknown kind')
        fails(g, lambda: p.bit_size, 'size of a key of an unknown kind')
        fails(g, lambda: p.curve, 'curve of a key of an unknown kind')
    g.nontrivial((how, k.alone))


# ------------------------------------------------------------ public keys

class Public(object):
    def __init__(self, g, algorithm=None):
        self.algorithm = a = algorithm or g.choice(sorted(PUB) + ['ec', 'ec', 'rsa', 'dsa'])
        self.domain = self.q = None
        self.params = b''
        alg = ref.oid(PUB[a])
        if a in ('rsa', 'rsassa_pss', 'rsaes_oaep'):
            n = number(g)
            self.key = ref.seq(ref.integer(n), ref.integer(number(g, 64, 0)))
            self.bits = 8 * octet_length(n)
            self.params = ref.null() if a == 'rsa' else b'' if g.draw(3) else ref.seq()
        elif a in ('dsa', 'dh'):
            self.key = ref.integer(number(g, 2048, 0))
            self.bits = None
            if a == 'dh' or g.draw(4):
                p, q, x = number(g), number(g, 520, 0), number(g, 300, 0)
                self.bits = 8 * octet_length(p)
                self.params = ref.seq(*[ref.integer(i) for i in ((p, q, x) if a == 'dsa' else (p, x, q))])
                if a == 'dsa':
                    self.q = q
            elif g.draw(2):
                self.q = None
        elif a == 'ec':
            self.domain = d = Domain(g)
            self.params = d.der
            w = width(g)
            k = g.draw(4)
            self.coords = None
            if k == 0:
                self.key = g.choice([b'\x02', b'\x03']) + coordinate(g, w).to_bytes(w, 'big')
            else:
                self.coords = coordinate(g, w), coordinate(g, w)
                self.key = b'\x04' + b''.join(c.to_bytes(w, 'big') for c in self.coords)
            self.bits = 8 * w
        else:
            self.key = g.nbytes(RAW[a])
            self.bits = 8 * len(self.key)
        self.der = ref.seq(ref.seq(alg, self.params), ref.bitstr(self.key))

    def given(self, g):
        if self.algorithm in RAW or self.domain and g.draw(2) == 0:
            return self.key
        if self.domain:
            return keys.ECPointBitString(self.key)
        return (keys.RSAPublicKey if self.algorithm.startswith('rsa') else core.Integer).load(self.key)

    def views(self, g):
        return g.perm([self.v_algo, self.v_size, self.v_bytes, self.v_sha1, self.v_sha256, self.v_key, self.v_curve, self.v_hash, self.v_params])

    def v_algo(self, g, o):
        g.eq(o.algorithm, self.algorithm, 'algorithm')

    def v_size(self, g, o):
        if self.bits is None:
            fails(g, lambda: o.bit_size, 'size of a key without parameters')
        else:
            g.eq(o.bit_size, self.bits, 'bit size')

    def v_bytes(self, g, o):
        if self.bits is None:
            fails(g, lambda: o.byte_size, 'size of a key without parameters')
        else:
            g.eq(o.byte_size, self.bits // 8, 'byte size')

    def v_sha1(self, g, o):
        g.eq(o.sha1, hashlib.sha1(self.key).digest(), 'SHA-1 of the key')

    def v_sha256(self, g, o):
        g.eq(o.sha256, hashlib.sha256(self.key).digest(), 'SHA-256 of the key')

    def v_key(self, g, o):
        g.eq(bytes(o['public_key']), self.key, 'octets of the key')
        if self.domain:
            if self.coords:
                g.eq(tuple(o['public_key'].to_coords()), self.coords, 'coordinates of the key')
            else:
                fails(g, o['public_key'].to_coords, 'coordinates of a compressed point')
        elif self.algorithm in RAW:
            g.eq(o['public_key'].native, self.key, 'octets of the key')
        else:
            g.eq(o['public_key'].parsed.dump(), self.key, 'the key in the container')

    def v_params(self, g, o):
        g.eq(o['algorithm']['parameters'].dump(), self.params, 'parameters')

    def v_curve(self, g, o):
        if self.domain:
            self.domain.check(g, o.curve)
        else:
            fails(g, lambda: o.curve, 'curve of a key that has none')

    def v_hash(self, g, o):
        if self.algorithm != 'dsa':
            fails(g, lambda: o.hash_algo, 'hash algorithm of a key that is not DSA')
        elif self.q is None:
            g.eq(o.hash_algo, None, 'hash algorithm of a DSA key without parameters')
        else:
            g.eq(o.hash_algo, 'sha1' if octet_length(self.q) <= 20 else 'sha2', 'hash algorithm of a DSA key')


@check.prop(20000, 300000)
def public(g):
    k = Public(g)
    g.log(k.algorithm, k.der)
    how = g.draw(4)
    if k.algorithm in ('rsa', 'rsassa_pss') and how in (1, 2):
        if k.algorithm == 'rsassa_pss':
            k.params = b''
            k.der = ref.seq(ref.seq(ref.oid(PUB[k.algorithm])), ref.bitstr(k.key))
        given = k.key if how == 1 else keys.RSAPublicKey.load(k.key)
        if how == 2 and g.draw(3) == 0:
            given = given.retag({g.choice(['implicit', 'explicit']): g.draw(40)})
        before = given if how == 1 else given.dump()
        o = keys.PublicKeyInfo.wrap(given, k.algorithm)
        g.eq(given if how == 1 else given.dump(), before, 'the key after it was wrapped')
    elif how == 3:
        o = keys.PublicKeyInfo()
        o[g.choice([0, 'algorithm'])] = keys.PublicKeyAlgorithm.load(ref.seq(ref.oid(PUB[k.algorithm]), k.params))
        o[g.choice([1, 'public_key'])] = k.given(g)
    else:
        o = keys.PublicKeyInfo.load(k.der)
    g.eq(o.dump(), k.der, 'container')
    o = through(g, o)
    for v in k.views(g):
        v(g, o)
    g.eq(o.dump(), k.der, 'container after reading it')
    g.eq(o.dump(force=True), k.der, 'container encoded again')
    if g.draw(3) == 0:
        k2 = Public(g, g.choice([k.algorithm, None]))
        g.log('then', k2.der)
        o['algorithm'] = keys.PublicKeyAlgorithm.load(ref.seq(ref.oid(PUB[k2.algorithm]), k2.params))
        o['public_key'] = k2.given(g)
        for v in k2.views(g):
            v(g, o)
        g.eq(o.dump(), k2.der, 'container after another key was put in')
    g.nontrivial(k.der)
    g.sample('%s key of %s bits, way %d' % (k.algorithm, k.bits, how))


# ------------------------------------------------------------ the width of private values

@check.prop(15000, 300000)
def widths(g):
    """a history of assignments to one EC private key"""
    d = Domain(g) if g.draw(4) else None
    n = None
    known = None        # width the curve demands
    at = 0              # width in use
    firm = False        # was the width set on this very object?
    o = keys.ECPrivateKey({'version': 1})
    if g.draw(2):
        w = d.size if d and d.size else g.uint(2, 72)
        n = coordinate(g, w)
        o = keys.ECPrivateKey.load(ref.seq(ref.integer(1), ref.octets(n.to_bytes(w, 'big')), ref.explicit(0, d.der) if d else b''))
        known = d.size if d else None
        at = w
        placed = d
    else:
        placed = None
    g.log('start', n and hex(n), at, known)
    for _ in range(g.uint(1, 6)):
        k = g.draw(6)
        if k == 5:
            # something that does not fit changes nothing
            if n is None:
                continue
            if g.draw(3):
                o.native
            how = g.draw(4)
            if how == 0:
                if not firm:
                    continue
                big = 256 ** known + g.draw(3) if g.draw(2) else 256 ** (known + 1 + g.draw(9)) - 1
                g.log('too large', hex(big))
                fails(g, lambda: o.__setitem__('private_key', big), 'a number wider than the curve', (OverflowError, ValueError))
            elif how == 1:
                if not d or not d.size or octet_length(n) <= d.size:
                    continue
                g.log('too small a curve')
                fails(g, lambda: o.__setitem__('parameters', d.value()), 'a curve too small for the number', (OverflowError, ValueError))
            elif how == 2:
                g.log('nobody registered the curve')
                fails(g, lambda: o.__setitem__('parameters', keys.ECDomainParameters.load(ref.oid('1.3.9999.%d' % g.draw(9)))), 'an unknown curve')
            else:
                if octet_length(n) < 2:
                    continue
                w = g.uint(1, octet_length(n) - 1)
                g.log('too small a width', w)
                fails(g, lambda: o.set_key_size(w), 'a width too small for the number', (OverflowError, ValueError))
        elif k <= 1:
            n = coordinate(g, known or at or g.uint(2, 72))
            at = known or max(at, octet_length(n))
            g.log('number', hex(n))
            o[g.choice([1, 'private_key'])] = n
        elif k == 2:
            if d is None or d.size and n is not None and octet_length(n) > d.size:
                continue
            g.log('curve', d.facts[0], d.der)
            o[g.choice([2, 'parameters'])] = d.value()
            placed = d
            if d.size:
                known = at = d.size
                firm = True
        elif n is None:
            continue
        elif k == 3:
            o = through(g, o)
            firm = False
        else:
            w = known or max(at, octet_length(n)) + g.draw(4)
            g.log('width', w)
            o.set_key_size(w)
            known = at = w
            firm = True
        # (one octet may be a number that was not given a width)
        if at == 1 and not known:
            at = 0
        if n is not None:
            want = ref.seq(ref.integer(1), ref.octets(n.to_bytes(known or at or 1, 'big')), ref.explicit(0, placed.der) if placed else b'')
            g.eq(o.dump(), want, 'EC private key')
            g.eq(o['private_key'].native, n, 'private number')
    if n is None:
        return
    g.nontrivial(o.dump())
    g.sample('key of width %s, number of %s octets' % (at, n and octet_length(n)))


@check.prop(8000, 150000)
def containers(g):
    """numbers without a width take that of the curve when they are put in a container"""
    d = Domain(g, implied=False)
    n = coordinate(g, d.size)
    short = max(1, octet_length(n)) if g.draw(2) else g.uint(octet_length(n), d.size)
    e = keys.ECPrivateKey({'version': 1, 'private_key': n}) if g.draw(2) else keys.ECPrivateKey.load(ref.seq(ref.integer(1), ref.octets(n.to_bytes(short, 'big'))))
    g.log(d.facts[0], d.der, hex(n), short)
    o = keys.PrivateKeyInfo()
    o['version'] = 0
    o['private_key_algorithm'] = {'algorithm': 'ec', 'parameters': d.value()}
    o[g.choice([2, 'private_key'])] = e
    want = ref.seq(ref.integer(0), ref.seq(ref.oid(PRIV['ec']), d.der), ref.octets(ref.seq(ref.integer(1), ref.octets(n.to_bytes(d.size, 'big')))))
    g.eq(o.dump(), want, 'container of a number without a width')
    if g.draw(2):
        # a key of a wider curve does not fit
        if g.draw(2):
            o.native
        big = 256 ** d.size + g.draw(99)
        fails(g, lambda: o.__setitem__('private_key', keys.ECPrivateKey({'version': 1, 'private_key': big})), 'a number wider than the curve',
              (OverflowError, ValueError))
        g.eq(o.dump(), want, 'container after a key was refused')
        g.eq(o.native['private_key']['private_key'], n, 'number after a key was refused')
    g.eq(through(g, o).bit_size, 8 * d.size, 'bit size')
    g.nontrivial(want)
    g.sample('%s curve of width %d, number of %d octets' % (d.facts[0], d.size, octet_length(n)))
