"""C19: IP addresses and networks between text and octets."""
import ipaddress
import socket

from lib.pbt import Check
from lib import ref
from asn1crypto import x509, util, _inet

check = Check('C19', rule=(
    'IPv4 and IPv6 addresses with every placement of zero groups, in every text form (compressed anywhere, upper and lower case, padded '
    'groups, embedded IPv4), every prefix length, networks, primitive and segmented encodings, malformed texts. Non-trivial: every '
    'case; distinct by text or octets.'))

V4, V6 = socket.AF_INET, socket.AF_INET6


def octets(g, family):
    if family == V4:
        return bytes(g.choice([0, 1, 9, 10, 99, 100, 127, 128, 255, g.draw(256)]) for _ in range(4))
    k = g.draw(8)
    if k == 0:
        return g.nbytes(16)
    if k == 1:
        # mapped, compatible and near misses
        return g.choice([b'\x00' * 10 + b'\xff\xff', b'\x00' * 12, b'\x00' * 8 + b'\xff\xff\x00\x00', b'\x00\x64\xff\x9b' + b'\x00' * 8, b'\x00' * 10 + b'\xff\xfe',
                         b'\x00' * 8 + b'\x00\x01\xff\xff']) + octets(g, V4)
    # any pattern of zero groups
    mask = g.draw(256)
    out = b''
    for i in range(8):
        n = 0 if mask >> i & 1 else g.choice([1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, g.draw(65536)])
        out += bytes([n >> 8, n & 255])
    return out


def canonical(family, b):
    """RFC 5952, with the mixed notation of RFC 2373 for compatible and mapped addresses"""
    if family == V4:
        return '.'.join(str(x) for x in b)
    w = [b[i] << 8 | b[i + 1] for i in range(0, 16, 2)]
    best = (0, 0)
    i = 0
    while i < 8:
        j = i
        while j < 8 and w[j] == 0:
            j += 1
        if j - i > best[1]:
            best = (i, j - i)
        i = max(j, i + 1)
    s = ['%x' % x for x in w]
    start, n = best
    if n < 2:
        return ':'.join(s)
    if start == 0 and (n == 6 or n == 5 and w[5] == 0xffff):
        return '::' + ('ffff:' if n == 5 else '') + canonical(V4, b[12:])
    return ':'.join(s[:start]) + '::' + ':'.join(s[start + n:])


def spelled(g, family, b):
    """any legal text of the address"""
    if family == V4:
        return canonical(family, b)
    if g.draw(4) == 0:
        return canonical(family, b)
    w = [b[i] << 8 | b[i + 1] for i in range(0, 16, 2)]
    groups = []
    for x in w:
        s = '%x' % x
        if g.draw(4) == 0:
            s = s.zfill(len(s) + g.draw(5 - len(s)))
        if g.draw(3) == 0:
            s = s.upper()
        groups.append(s)
    if g.draw(3) == 0:
        groups[6:] = [canonical(V4, b[12:])]
    zeros = [(i, j) for i in range(8) for j in range(i + 1, 9) if not any(w[i:j]) and j <= (8 if len(groups) == 8 else 6)]
    if zeros and g.draw(4):
        i, j = g.choice(zeros)
        return ':'.join(groups[:i]) + '::' + ':'.join(groups[j:])
    return ':'.join(groups)


def mask(bits, prefix):
    return (((1 << prefix) - 1) << (bits - prefix)).to_bytes(bits // 8, 'big')


@check.prop(40000, 1000000)
def portable(g):
    """the bundled routines agree with the operating system"""
    family = g.choice([V4, V6, V6])
    b = octets(g, family)
    g.log('octets', b)
    want = socket.inet_ntop(family, b)
    g.eq(_inet.inet_ntop(family, b), want, 'portable text')
    g.eq(util.inet_ntop(family, b), want, 'text')
    g.eq(canonical(family, b), want, 'reference text')
    t = spelled(g, family, b)
    g.log('text', t)
    g.eq(socket.inet_pton(family, t), b, 'reference spelling')
    g.eq(_inet.inet_pton(family, t), b, 'portable octets')
    g.eq(util.inet_pton(family, t), b, 'octets')
    g.unit(3)
    g.label('IPv%d' % (4 if family == V4 else 6))
    g.nontrivial((family, t))
    g.sample(t)


@check.prop(30000, 600000)
def address(g):
    """addresses and networks in IPAddress"""
    family = g.choice([V4, V6])
    bits = 32 if family == V4 else 128
    b = octets(g, family)
    t = spelled(g, family, b)
    canon = canonical(family, b)
    prefix = None
    if g.draw(2):
        prefix = g.choice([0, 1, 8, bits - 1, bits, g.draw(bits + 1)])
        pt = str(prefix)
        if g.draw(8) == 7:
            pt = '0' + pt
        t += '/' + pt
        canon += '/%d' % prefix
        b += mask(bits, prefix)
    g.log('text', t)
    o = x509.IPAddress(t)
    g.eq(o.contents, b, 'octets')
    der = ref.tlv(0, 0, 4, b)
    g.eq(o.dump(), der, 'encoding')
    l = x509.IPAddress.load(der)
    g.eq(l.native, canon, 'native')
    g.eq(bytes(l), b, 'octets of a loaded address')
    g.true(l == o and not (l != o), 'an address differs from itself')
    # the text it was set from, or its canonical form
    n = o.native
    g.true(n == t or n == canon, 'native of an address that was set', got=n, want=(t, canon))
    if g.draw(3) == 0:
        # segmented
        i = g.draw(len(b) + 1)
        segs = ref.tlv(0, 0, 4, b[:i]) + ref.tlv(0, 0, 4, b[i:])
        ber = g.choice([b'\x24\x80' + segs + b'\x00\x00', ref.tlv(0, 1, 4, segs)])
        g.log('segmented', ber)
        s = x509.IPAddress.load(ber)
        g.eq(s.native, canon, 'native of a segmented address')
        g.true(s == o, 'a segmented address differs')
        g.eq(s.dump(force=True), der, 'forced encoding')
        s.set(t)
        g.eq(s.dump(), der, 'encoding after setting a segmented address')
    # set again
    f2 = g.choice([V4, V6])
    b2 = octets(g, f2)
    t2 = spelled(g, f2, b2)
    g.log('then', t2)
    if g.draw(2):
        o.native
        o.dump()
    x = g.choice([o, l])
    x.set(t2)
    g.eq(x.contents, b2, 'octets after setting again')
    g.eq(x.dump(), ref.tlv(0, 0, 4, b2), 'encoding after setting again')
    g.eq(bytes(x), b2, 'octets after setting again')
    g.true(x.native in (t2, canonical(f2, b2)), 'native after setting again', got=x.native)
    g.eq(x == x509.IPAddress.load(der), b2 == b, 'equality after setting again')
    gn = x509.GeneralName(name='ip_address', value=t)
    g.eq(x509.GeneralName.load(gn.dump()).native, canon, 'native of a general name')
    g.unit(8)
    g.label('prefix' if prefix is not None else 'address')
    g.nontrivial(t)
    g.sample(t)


@check.prop(10000, 200000)
def compared(g):
    """equal exactly when the octets are"""
    fs = [g.choice([V4, V6]) for _ in range(2)]
    vals = []
    for f in fs:
        b = octets(g, f)
        if vals and g.draw(2):
            f, b, p = vals[0]
            if g.draw(3) == 0:
                b = bytearray(b)
                b[g.draw(len(b))] ^= 1 << g.draw(8)
                b = bytes(b)
        bits = len(b) * 8
        p = g.choice([None, None, 0, bits, g.draw(bits + 1), vals[0][2] if vals and vals[0][0] == f else None])
        vals.append((f, b, p))
    objs = []
    raw = []
    for f, b, p in vals:
        t = spelled(g, f, b) + ('' if p is None else '/%d' % p)
        whole = b + (b'' if p is None else mask(len(b) * 8, p))
        objs.append(x509.IPAddress(t) if g.draw(2) else x509.IPAddress.load(ref.tlv(0, 0, 4, whole)))
        raw.append(whole)
        g.log('address', t)
    want = raw[0] == raw[1]
    g.true((objs[0] == objs[1]) is want and (objs[1] == objs[0]) is want and (objs[0] != objs[1]) is (not want), 'equality', got=objs[0] == objs[1], want=want)
    g.true(not objs[0] == raw[0] and not objs[0] == objs[0].native and objs[0] != x509.DNSName('a'), 'an address equals a value of another type')
    g.nontrivial(tuple(raw))
    g.label(str(want))
    g.sample('%s %s' % (raw[0].hex(), raw[1].hex()))


def legal(t):
    """is the text an address, optionally with a prefix length"""
    a, slash, p = t.partition('/')
    if slash and not (p and all(c in '0123456789' for c in p)):
        return False
    try:
        if '%' in a:
            return False
        ip = ipaddress.ip_address(a)
    except ValueError:
        return False
    return not slash or int(p) <= ip.max_prefixlen


@check.prop(25000, 500000)
def malformed(g):
    """malformed addresses and prefixes are refused, the rest is not"""
    family = g.choice([V4, V6])
    t = spelled(g, family, octets(g, family))
    if g.draw(2):
        t += '/' + g.choice(['', '0', '32', '33', '128', '129', '-1', '-0', '+8', ' 8', '8 ', '1_6', '8/8', 'x', '0x8', '\u0663', '255.255.255.0', '999999999999', '8\n', '08'])
    k = g.draw(4)
    if k:
        c = list(t)
        for _ in range(k):
            i = g.draw(len(c) + 1)
            op = g.draw(3)
            if op == 0:
                c[i:i] = [g.choice('.:/0a1%f2569 -+_x\n\x00é')]
            elif op == 1:
                del c[i:i + 1]
            elif i < len(c):
                c[i] = g.choice('.:/0a1%f2569gx ')
        t = ''.join(c)
    elif g.draw(4) == 0:
        t = g.choice(['', '.', ':', '::', ':::', '1', '1.2.3', '1.2.3.4.5', '256.1.1.1', '01.2.3.4', '1.2.3.4 ', ' 1.2.3.4', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '12345::',
                      '::g', '1::2::3', '::1.2.3', '::1.2.3.256', '1.2.3.4::', 'localhost', '0x1.2.3.4', '1e1.1.1.1', '::ffff:1.2.3.4:5', 'fe80::1%eth0', '[::1]', '1:2:3:4::5:6:7:8',
                      '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '/8', '::/128', '0.0.0.0/0', '1:', ':1'])
    want = legal(t)
    g.log('text', t)
    g.label('legal' if want else 'malformed')
    start = x509.IPAddress('10.1.2.3/8')
    try:
        start.set(t)
        got = True
    except ValueError:
        got = False
    g.eq(got, want, 'accepted')
    if not want:
        g.eq(start.native, '10.1.2.3/8', 'native after a refusal')
        g.eq(start.contents, b'\x0a\x01\x02\x03\xff\x00\x00\x00', 'octets after a refusal')
    else:
        a, _, p = t.partition('/')
        ip = ipaddress.ip_address(a)
        g.eq(start.contents, ip.packed + (mask(ip.max_prefixlen, int(p)) if p else b''), 'octets')
    try:
        x509.IPAddress(t)
        g.true(want, 'a malformed address was accepted')
    except ValueError:
        g.true(not want, 'an address was refused')
    if '/' not in t:
        for f in (V4, V6):
            try:
                b = socket.inet_pton(f, t)
            except (OSError, ValueError):
                b = None
            try:
                p = _inet.inet_pton(f, t)
            except ValueError:
                p = None
            g.eq(p, b, 'portable octets')
    g.unit(3)
    g.nontrivial(t)
    g.sample(repr(t))


@check.prop(2000, 20000)
def wrong(g):
    """octets of other lengths, other types"""
    n = g.draw(40)
    b = g.nbytes(n)
    l = x509.IPAddress.load(ref.tlv(0, 0, 4, b))
    g.log('octets', b)
    if n not in (4, 8, 16, 32):
        g.true(l.native is None, 'octets that are no address have a text', got=l.native)
    else:
        g.true(isinstance(l.native, str), 'native', got=l.native)
    g.eq(l.dump(), ref.tlv(0, 0, 4, b), 'encoding')
    for f in (V4, V6):
        if n != (4 if f == V4 else 16):
            try:
                _inet.inet_ntop(f, b)
            except ValueError:
                pass
            else:
                g.fail('octets of another length were accepted')
    for w in (None, 5, b'1.2.3.4', ['1.2.3.4'], b):
        for f in (lambda: x509.IPAddress().set(w), lambda: _inet.inet_pton(V4, w), lambda: _inet.inet_ntop(V4, w if not isinstance(w, bytes) else 'x')):
            try:
                f()
            except TypeError:
                continue
            g.fail('a value of another type was accepted', got=w)
    for f in (lambda: _inet.inet_pton(99, '1.2.3.4'), lambda: _inet.inet_ntop(99, b'\x01\x02\x03\x04'), lambda: x509.IPAddress('1.2.3.4').parse()):
        try:
            f()
        except ValueError:
            continue
        g.fail('an unknown address family was accepted')
    g.unit(5)
    g.nontrivial(b)


@check.prop(1, 1, shards=1)
def all_masks(g):
    """every prefix length"""
    for bits, a in ((32, '1.2.3.4'), (128, '1:2::4')):
        f = V4 if bits == 32 else V6
        for p in range(bits + 1):
            t = '%s/%d' % (a, p)
            b = socket.inet_pton(f, a) + mask(bits, p)
            g.eq(x509.IPAddress(t).contents, b, 'octets of ' + t)
            g.eq(x509.IPAddress.load(ref.tlv(0, 0, 4, b)).native, t, 'native of ' + t)
            g.unit()
    # every pattern of zero groups
    for m in range(256):
        b = b''.join(b'\x00\x00' if m >> i & 1 else bytes([0, i + 1]) for i in range(8))
        t = socket.inet_ntop(V6, b)
        g.eq(_inet.inet_ntop(V6, b), t, 'portable text')
        g.eq(_inet.inet_pton(V6, t), b, 'portable octets')
        g.unit()
    g.nontrivial('all')
