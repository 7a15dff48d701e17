"""C23: which hosts and addresses a certificate is accepted for."""
import ipaddress

from lib.pbt import Check
from lib import ref, certs
from checks.c21 import Host, gen_host, near_host, recased, ascii_label, label
from asn1crypto import x509

check = Check('C23', rule=(
    'certificates that list any mix of host names (ASCII, international, wildcards in every position), addresses, networks, URIs and other names, or '
    'none and a common name; asked for hosts and addresses that are listed, nearly listed, spelled another way, and for arbitrary text. Non-trivial: a '
    'name or address is listed; distinct by the listed names and the question.'))


def gn_dns(b):
    return ref.tlv(2, 0, 2, b)


def gn_ip(b):
    return ref.tlv(2, 0, 7, b)


class Entry(object):
    """a listed host: prepared labels, the first one may hold wildcards"""

    def __init__(self, labels):
        self.labels = labels

    @property
    def ascii(self):
        return [ascii_label(l) for l in self.labels]

    def octets(self, g):
        return '.'.join(recased(g, a) if a == l else a for a, l in zip(self.ascii, self.labels)).encode('ascii')

    def accepts(self, host):
        """host: prepared labels without wildcards. None: not decided"""
        mine, other = self.ascii, [ascii_label(l) for l in host]
        if mine == other:
            return True
        if len(mine) != len(other):
            return False
        text = '.'.join(mine)
        if text.count('*') != 1 or '*' not in mine[0] or mine[0].startswith('xn--'):
            return False
        if mine[1:] != other[1:]:
            return False
        if mine[0] == '*':
            return True
        a, b = mine[0].split('*')
        if other[0].startswith('xn--'):
            return False
        if not (other[0].startswith(a) and other[0].endswith(b) and len(other[0]) >= len(a + b)):
            return False
        # whether a part of a label may be no character at all is not said
        return None if len(other[0]) == len(a + b) else True


def gen_entry(g):
    labels = [label(g) for _ in range(g.choice([1, 2, 2, 3, 3, 4]))]
    k = g.draw(12)
    if k < 3:
        labels[0] = '*'
    elif k == 3:
        a, b = label(g), label(g)
        labels[0] = g.choice([a + '*', '*' + b, a + '*' + b])
    elif k == 4:
        i = g.draw(len(labels))
        labels[i] = g.choice(['*', labels[i] + '*'])
    elif k == 5:
        labels[0] = g.choice(['**', '*a*', 'a**', '*.*'])
    elif k == 6:
        labels = [g.choice('abz') + g.choice('+(['), ] + labels[1:] if g.draw(2) else ['a.*'[0] + g.choice('+([.|$^?\\') + '*'] + labels[1:]
        labels[0] = labels[0].replace('.', '+')
    return Entry(labels)


def asked_from(g, e):
    """prepared labels of a question related to a listed host"""
    labels = list(e.labels)
    for i, l in enumerate(labels):
        while '*' in l:
            l = l.replace('*', g.choice(['a', 'abc', 'x-1', label(g), '']) if g.draw(4) else 'a.b', 1)
        labels[i] = l
    labels = [x for x in '.'.join(labels).split('.') if x] or ['a']
    k = g.draw(8)
    if k == 1:
        labels[g.draw(len(labels))] = label(g)
    elif k == 2:
        labels = labels[1:] or [label(g)]
    elif k == 3:
        labels.insert(g.draw(len(labels) + 1), label(g))
    elif k == 4:
        i = g.draw(len(labels))
        labels[i] = labels[i][:-1] or 'q'
    elif k == 5 and labels[0]:
        labels[0] = g.choice('ab') + labels[0]
    if any(l.isascii() and (l[:1] == '-' or l[-1:] == '-') for l in labels):
        labels = [l.strip('-') or 'a' for l in labels]
    return labels


def usual(labels):
    """labels that have one ASCII form"""
    return all(l.isascii() or not set(l) & set('*+([|$^?\\') for l in labels)


def gen_address(g):
    k = g.draw(6)
    if k < 2:
        return g.choice([b'\x01\x02\x03\x04', b'\x7f\x00\x00\x01', b'\x00\x00\x00\x00', b'\xff\xff\xff\xff']) if k else g.nbytes(4)
    if k == 2:
        # IPv4 inside IPv6
        return g.choice([b'\x00' * 10 + b'\xff\xff', b'\x00' * 12, b'\x00\x64\xff\x9b' + b'\x00' * 8]) + g.choice([b'\x01\x02\x03\x04', g.nbytes(4)])
    if k == 3:
        return g.choice([b'\x00' * 15 + b'\x01', b'\x00' * 16, b'\xfe\x80' + b'\x00' * 13 + b'\x01'])
    return b''.join(g.choice([b'\x00\x00', b'\x00\x01', b'\x0a\xbc', g.nbytes(2)]) for _ in range(8))


def address_text(g, b):
    a = ipaddress.ip_address(b)
    t = str(a)
    if len(b) == 16:
        k = g.draw(4)
        if k == 1:
            t = a.exploded
        elif k == 2:
            t = t.upper()
        elif k == 3:
            t = '%s:%d.%d.%d.%d' % ((':'.join('%x' % int.from_bytes(b[i:i + 2], 'big') for i in range(0, 12, 2)),) + tuple(b[12:]))
    return t


class Listing(object):
    pass


def gen_listing(g):
    s = Listing()
    s.hosts, s.addresses, s.common, s.names = [], [], [], []
    s.domains, s.ips = [], []
    s.san = g.choice([True, True, True, False, None])
    if s.san:
        for _ in range(g.choice([1, 1, 2, 3, 5])):
            k = g.draw(12)
            if k < 6:
                e = gen_entry(g)
                s.hosts.append(e)
                b = e.octets(g)
                s.names.append(gn_dns(b))
            elif k < 9:
                b = gen_address(g)
                s.addresses.append(b)
                s.names.append(gn_ip(b))
            elif k == 9:
                # networks and malformed addresses name no host
                b = g.choice([b'\x01\x02\x03\x00\xff\xff\xff\x00', b'\x01\x02\x03\x04\xff\xff\xff\xff', b'\x00' * 16 + b'\xff' * 16, b'', b'\x01\x02\x03'])
                s.names.append(gn_ip(b))
            elif k == 10:
                s.names.append(gn_dns(g.choice([b'.example.com', b'.gr', b'', b'a..b', b'a' * 64 + b'.com', b'example.com.'])))
            else:
                s.names.append(certs.gen_general_name(g, kinds=('uri', 'mail', 'dir', 'rid', 'other')).der)
        if g.draw(4) == 0 and s.hosts:
            # listed twice
            s.names.append(gn_dns(g.choice(s.hosts).octets(g)))
    subject = []
    for _ in range(g.choice([0, 1, 1, 2, 3])):
        rdn = []
        for _ in range(g.choice([1, 1, 2])):
            k = g.draw(6)
            if k < 4:
                labels = [x for x in (label(g) for _ in range(g.choice([1, 2, 3]))) if x.isascii()] + [g.choice(['com', 'org', 'x', 'c0m', 'co-m'])]
                if g.draw(4) == 0:
                    labels.insert(0, '*')
                t = recased(g, '.'.join(labels))
                rdn.append(('2.5.4.3', t))
            elif k == 4:
                rdn.append(('2.5.4.3', g.choice(['Some One', '1.2.3.4', 'localhost', 'a b.com', 'http://example.com', 'bücher.com', '-a.com', 'a-.com', 'a@b.com', '*', '*.com', 'a.*.com', 'a_b.com', '::1'])))
            else:
                rdn.append((g.choice(['2.5.4.10', '2.5.4.11']), 'www.example.com'))
        subject.append(rdn)
    s.subject = subject
    s.subject_der = certs.write_name(g, subject, plain=True)
    for rdn in subject:
        for o, t in sorted(rdn, key=lambda p: ref.seq(ref.oid(p[0]), ref.utf8(p[1]))):
            if o == '2.5.4.3' and looks_like_domain(t):
                s.common.append(t)
    exts = []
    if s.san:
        exts.append(san_ext(g, s.names))
    for name in ('basic_constraints', 'key_identifier'):
        if g.draw(4) == 0:
            e = certs.Ext()
            e.enc = ref.seq(ref.oid('2.5.29.19' if name[0] == 'b' else '2.5.29.14'), ref.octets(ref.seq() if name[0] == 'b' else ref.octets(b'k')))
            exts.insert(g.draw(len(exts) + 1), e)
    s.der = rebuild(g, s, exts or (None if s.san is None else []))
    return s


def san_ext(g, names):
    e = certs.Ext()
    e.enc = ref.seq(ref.oid('2.5.29.17'), ref.boolean(True) if g.draw(3) == 0 else b'', ref.octets(ref.seq(*names)))
    return e


def rebuild(g, s, exts):
    sig, _, _ = certs.gen_sig(g)
    when = ref.seq(ref.tlv(0, 0, 23, b'200101000000Z'), ref.tlv(0, 0, 23, b'300101000000Z'))
    tbs = ref.seq(ref.explicit(0, ref.integer(2)), ref.integer(1), sig, certs.write_name(g, [[('2.5.4.3', 'issuer.example.com')]], plain=True), when, s.subject_der, certs.KEY,
                  ref.explicit(3, ref.seq(*[e.enc for e in exts])) if exts is not None else b'')
    return ref.seq(tbs, sig, ref.bitstr(b'sig'))


LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
ALNUM = LETTERS | set('0123456789')


def looks_like_domain(t):
    labels = t.split('.')
    if labels[0] == '*':
        labels = labels[1:]
    if len(labels) < 2 or len(labels[-1]) < 2 or set(labels[-1]) - LETTERS:
        return False
    return all(l and l[0] in ALNUM and l[-1] in ALNUM and not set(l) - ALNUM - {'-'} for l in labels[:-1])


def expected(s, q):
    """q: ('host', labels) or ('ip', octets)"""
    kind, v = q
    if kind == 'ip':
        return v in s.addresses
    entries = s.hosts if s.san else [Entry(t.lower().split('.')) for t in s.common]
    got = [e.accepts(v) for e in entries]
    return True if True in got else None if None in got else False


def ask(g, s):
    """a question and its answer (None: either)"""
    k = g.draw(10)
    pool = s.hosts or [Entry(t.lower().split('.')) for _, t in sum(s.subject, []) if t.isascii() and ' ' not in t and '@' not in t and ':' not in t and '_' not in t and '/' not in t]
    if k < 5 and pool:
        labels = asked_from(g, g.choice(pool))
        if not usual(labels):
            labels = ['example', 'com']
        if len(labels) == 4 and all(l.isdigit() for l in labels):
            labels = labels[1:]
        h = Host(labels)
        return h.text(g)[0], expected(s, ('host', labels))
    if k < 8 and s.addresses:
        b = bytearray(g.choice(s.addresses))
        m = g.draw(6)
        if m == 1:
            b[g.draw(len(b))] ^= 1 << g.draw(8)
        elif m == 2:
            b = b[-4:]
        elif m == 3 and len(b) == 4:
            b = b'\x00' * 10 + b'\xff\xff' + b
        b = bytes(b)
        return address_text(g, b), expected(s, ('ip', b))
    if k == 8:
        b = gen_address(g)
        return address_text(g, b), expected(s, ('ip', b))
    h = [label(g) for _ in range(g.choice([1, 2, 3]))]
    return Host(h).text(g)[0], expected(s, ('host', h))


def see(g, s, o):
    t, want = ask(g, s)
    g.log('asked', t)
    got = o.is_valid_domain_ip(t)
    g.true(got is True or got is False, 'answer is not a boolean', got=got)
    if want is not None:
        g.eq(got, want, 'answer', asked=t)
        g.label('accepted' if want else 'refused')
    g.unit()
    return t


def start(g):
    s = gen_listing(g)
    g.log('certificate', s.der)
    g.log('hosts', ['.'.join(e.labels) for e in s.hosts])
    g.log('addresses', s.addresses)
    g.log('subject', s.subject)
    return s


@check.prop(70000, 2000000)
def answers(g):
    s = start(g)
    o = x509.Certificate.load(s.der)
    asked = [see(g, s, o) for _ in range(1 + g.draw(4))]
    if s.hosts or s.addresses or s.common:
        g.nontrivial((tuple(s.names), tuple(s.common), tuple(asked)))
        g.sample('%s %s %s: %s' % (['.'.join(e.labels) for e in s.hosts], [b.hex() for b in s.addresses], s.common, asked))


@check.prop(20000, 400000)
def listed(g):
    """valid_domains and valid_ips"""
    s = gen_listing(g)
    g.log('certificate', s.der)
    o = x509.Certificate.load(s.der)
    if g.draw(2):
        see(g, s, o)
    got = o.valid_domains
    if s.san:
        # every DNS name once, in order, in its readable form
        want = []
        for n in o.subject_alt_name_value:
            if n.name == 'dns_name' and n.native not in want:
                want.append(n.native)
        readable = [n for n in got]
        g.eq(readable, want, 'listed domains')
        mine = []
        for e in s.hosts:
            t = '.'.join(e.ascii)
            if t not in mine:
                mine.append(t)
        have = [x for x in (ascii_form(d) for d in got)]
        for t in mine:
            g.true(t in have, 'a listed host is missing', host=t, shown=got)
    else:
        g.eq(sorted(got), sorted(s.common), 'domains of the common names', subject=s.subject)
    ips = [b for b in s.addresses]
    have = [x for x in o.valid_ips if x is not None and '/' not in x]
    g.eq([ipaddress.ip_address(x).packed for x in have], ips, 'listed addresses', shown=o.valid_ips)
    g.eq(o.valid_ips, o.valid_ips, 'second read')
    g.unit(3)
    if s.hosts or s.addresses or s.common:
        g.nontrivial((tuple(s.names), tuple(s.common)))
        g.sample(repr((got, have)))


def ascii_form(d):
    return '.'.join(ascii_label(l) for l in d.lower().split('.'))


ODD = ['', '.', '..', 'a..b', '.a', 'a.', '1:2', '999.1.1.1', '1.2.3.4/8', '256.0.0.1', '01.2.3.4', '::1::', 'g::', 'fe80::1%eth0', '1.2.3', '[::1]', 'a:80', 'x' * 64, 'x' * 64 + '.com', '\x00', 'a\x00b',
       '\ud800', '*', '*.*', 'xn--', 'xn--\u00e9', 'xn--a-.com', '\u200d', 'a b', '1.2.3.4\n', 'example.com\n', '\u0660.1.2.3', '::ffff:1.2.3', '1.2.3.4.', '::1 ', '\u2488com', '\u0378.com', 'é' * 80, 'a' * 300,
       '\u3002', '。com', 'com。', ':::', ':', '1::2::3', '(', 'a.b' * 50, '\u05d0a', '\u05d01', '%', '\u1806']


@check.prop(25000, 600000)
def any_text(g):
    """any text gets an answer"""
    s = start(g)
    o = x509.Certificate.load(s.der)
    for _ in range(1 + g.draw(3)):
        k = g.draw(4)
        if k == 0:
            t = g.choice(ODD)
        elif k == 1:
            t = '.'.join(g.choice(ODD + ['a', 'com', '1', '*']) for _ in range(1 + g.draw(4)))
        elif k == 2:
            t = g.text('ab01.:-*/%\u00e9\u4e2d\u3002\u05d0\u0660\ud800\x00 @[]', 0, 12)
        else:
            t = ask(g, s)[0]
            i = g.draw(len(t) + 1)
            t = t[:i] + g.choice(['.', ':', '\x00', ' ', '*', '\u0378', '-', '\ud800', '\u00ad', '\n', '0']) + t[i:]
        g.log('asked', t)
        got = o.is_valid_domain_ip(t)
        g.true(got is True or got is False, 'answer is not a boolean', got=got)
        if got:
            # only where something is listed
            g.true(s.hosts or s.addresses or s.common or s.names, 'accepted by a certificate that lists nothing')
        g.unit()
        g.nontrivial((tuple(s.names), t))
    g.sample(repr(t))


@check.prop(300, 3000)
def not_text(g):
    s = gen_listing(g)
    o = x509.Certificate.load(s.der)
    v = g.choice([None, 5, b'example.com', b'', [], ('a',), 1.5])
    g.log('asked', v)
    try:
        o.is_valid_domain_ip(v)
    except TypeError:
        g.unit()
        g.nontrivial((s.der, repr(v)))
        return
    g.fail('a value that is not text was answered')
