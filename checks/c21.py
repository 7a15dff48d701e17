"""C21: comparison and conversion of DNS names, e-mail addresses and URIs."""
from lib.pbt import Check
from lib import ref
from checks import c18
from checks.c18 import ref_uri, ref_iri, same
from asn1crypto import x509

check = Check('C21', rule=(
    'host names of ASCII and international labels in several scripts, cases and compositions, wildcards, leading and trailing dots; mailboxes; '
    'URIs; each set from text or loaded from an encoding (tags seen in the wild, segmented), compared pairwise with variants that are the same and '
    'nearly the same. Non-trivial: both values of a pair have a host or mailbox; distinct by encodings.'))

SCRIPTS = ['éüñçøåäöž', 'αβγωδ', 'дияжш', '中文字日本語ひかな', 'éü']
# text -> what nameprep makes of it
FOLD = [('ß', 'ss'), ('ﬁ', 'fi'), ('Ａ', 'a'), ('e\u0301', 'é'), ('\u00ad', ''), ('Ⅳ', 'iv'), ('ﾊ', 'ハ'), ('İ', 'i\u0307'), ('ŉ', 'ʼn')]


def label(g):
    """prepared label"""
    if g.draw(3):
        l = ''.join(g.choice('abcdxyz0189') for _ in range(1 + g.draw(5)))
        if g.draw(6) == 5:
            l += '-' + g.choice('ab9')
        return l
    s = g.choice(SCRIPTS)
    l = ''.join(g.choice(s) for _ in range(1 + g.draw(4)))
    if g.draw(3) == 0:
        l = g.choice('abz') + l
    return l


def ascii_label(l):
    return l if l.isascii() else 'xn--' + l.encode('punycode').decode('ascii')


def recased(g, l):
    return ''.join(c.upper() if len(c.upper()) == 1 and c.upper().lower() == c and g.draw(2) else c for c in l)


class Host:
    """prepared labels, one text and one ASCII spelling"""

    def __init__(self, labels, lead='', trail=''):
        self.labels, self.lead, self.trail = labels, lead, trail
        self.key = (lead + '.'.join(map(ascii_label, labels)) + trail).encode('ascii')
        self.prepared = lead + '.'.join(labels) + trail

    def text(self, g):
        """(text, the ASCII form it is encoded as)"""
        t, a = [], []
        for l in self.labels:
            if l.isascii():
                k = g.draw(8)
                if k == 7 and 'ss' in l:
                    t.append(l.replace('ss', 'ß'))
                    a.append(l)
                    continue
                l = recased(g, l)
                t.append(l)
                a.append(l)
            elif g.draw(4) == 0:
                t.append(ascii_label(l))
                a.append(t[-1])
            else:
                s = recased(g, l)
                if g.draw(6) == 0:
                    s = s.replace('é', 'e\u0301')
                t.append(s)
                a.append(ascii_label(l))
        dot = '.' if g.draw(6) else g.choice('。．｡')
        if any(not x.isascii() for x in t) is False:
            dot = '.'
        return self.lead + dot.join(t) + self.trail, self.lead + '.'.join(a) + self.trail

    def octets(self, g):
        """an encoded form"""
        out = []
        for l in self.labels:
            a = ascii_label(l)
            if a == l:
                a = recased(g, a)
            elif g.draw(4) == 0:
                # the case of an A-label does not matter
                a = 'xn--' + recased(g, a[4:]) if g.draw(2) else a
            out.append(a)
        return (self.lead + '.'.join(out) + self.trail).encode('ascii')


def gen_host(g, wild=True):
    labels = [label(g) for _ in range(1 + g.draw(3))]
    if g.draw(6) == 0:
        labels[0] = g.choice(['strasse', 'ss', 'ssa'])
    lead = trail = ''
    if wild:
        k = g.draw(12)
        lead = '.' if k == 11 else '*.' if k == 10 else ''
        trail = '.' if k == 9 else ''
    return Host(labels, lead, trail)


def near_host(g, h):
    """another or the same host"""
    k = g.draw(6)
    if k < 3:
        return h
    labels = list(h.labels)
    if k == 3:
        i = g.draw(len(labels))
        labels[i] = label(g)
    elif k == 4:
        labels = labels[1:] or [label(g)]
    else:
        return Host(labels, h.lead if g.draw(2) else '', h.trail if g.draw(2) else '.')
    return Host(labels, h.lead, h.trail)


def encodings(g, cls, b):
    """an encoding of the octets as seen in the wild"""
    tag = 22
    k = g.draw(8)
    if k == 0:
        tag = 12
    elif k == 1:
        tag = 19
    if cls is x509.URI:
        tag = 22
    if tag == 22 and g.draw(4) == 0:
        i = g.draw(len(b) + 1)
        segs = ref.tlv(0, 0, tag, b[:i]) + ref.tlv(0, 0, tag, b[i:])
        return g.choice([b'\x36\x80' + segs + b'\x00\x00', ref.tlv(0, 1, 22, segs)])
    return ref.tlv(0, 0, tag, b)


def idle(g, o):
    for _ in range(g.draw(3)):
        k = g.draw(3)
        if k == 0:
            o.native
        elif k == 1:
            o.dump()
        else:
            o == o


def compare(g, a, b, want, what):
    """both ways round, repeatedly, without changing either"""
    da, db = a.dump(), b.dump()
    for x, y in ((a, b), (b, a), (a, b)):
        g.eq(x == y, want, what)
        g.eq(x != y, not want, what + ', negated')
    g.true(a == a and b == b, 'a value differs from itself')
    g.eq((a.dump(), b.dump()), (da, db), 'encodings after comparing')
    g.unit(4)


def dns(g, h):
    if g.draw(2):
        t, a = h.text(g)
        o = x509.DNSName(t)
        g.log('set', t)
        g.eq(o.contents, a.encode('ascii'), 'octets of a DNS name')
        g.eq(o.native, t, 'native of a DNS name')
        g.eq(o.dump(), ref.tlv(0, 0, 22, a.encode('ascii')), 'encoding of a DNS name')
        l = x509.DNSName.load(o.dump())
        if a.lower() == a and 'xn--' not in t:
            g.eq(l.native, h.prepared, 'native of a loaded DNS name')
        g.true(l == o, 'a DNS name differs from its encoding')
        return o
    b = h.octets(g)
    e = encodings(g, x509.DNSName, b)
    g.log('loaded', e)
    o = x509.DNSName.load(e)
    if b.lower() == b:
        g.eq(o.native, h.prepared, 'native of a loaded DNS name')
    return o


@check.prop(25000, 600000)
def names(g):
    h = gen_host(g)
    i = near_host(g, h)
    a, b = dns(g, h), dns(g, i)
    idle(g, a)
    idle(g, b)
    want = h.key.lower() == i.key.lower()
    compare(g, a, b, want, 'DNS names are equal')
    third = dns(g, near_host(g, i))
    if a == b and b == third:
        g.true(a == third, 'equality is not transitive')
    ga, gb = x509.GeneralName(name='dns_name', value=a), x509.GeneralName(name='dns_name', value=b)
    g.eq(ga == gb, want, 'general names are equal')
    # set again
    j = gen_host(g)
    t, asc = j.text(g)
    g.log('then', t)
    a.set(t)
    g.eq(a.dump(), ref.tlv(0, 0, a.tag, asc.encode('ascii')), 'encoding after setting again')
    g.eq(a.native, t, 'native after setting again')
    g.eq(a == b, j.key.lower() == i.key.lower(), 'DNS names are equal after setting again')
    g.unit(4)
    g.label(str(want))
    g.nontrivial((h.key, i.key, a.dump()))
    g.sample('%s %s' % (h.prepared, i.prepared))


MAIL = 'abcdXYZ019'


def mailbox(g):
    k = g.draw(5)
    if k == 0:
        return g.choice(['john', 'John', 'JOHN', 'a.b', 'a+b', '"a b"', '"a@b"', 'a=b', "o'x", '', 'a_b-c', '!#$%&*/?^`{|}~'])
    return ''.join(g.choice(MAIL) for _ in range(1 + g.draw(4))) + g.choice(['', '', '.x', '+y'])


class Mail:
    def __init__(self, box, host):
        self.box, self.host = box, host
        self.key = (box, host.key.lower() if host else None)

    def make(self, g):
        if self.host is None:
            if g.draw(2):
                o = x509.EmailAddress(self.box)
                g.eq(o.contents, self.box.encode(), 'octets of a mailbox')
                return o
            return x509.EmailAddress.load(encodings(g, x509.EmailAddress, self.box.encode()))
        if g.draw(2):
            t, a = self.host.text(g)
            t, a = self.box + '@' + t, self.box + '@' + a
            g.log('set', t)
            o = x509.EmailAddress(t)
            g.eq(o.native, t, 'native of an e-mail address')
            g.eq(o.contents, a.encode('ascii'), 'octets of an e-mail address')
            g.eq(o.dump(), ref.tlv(0, 0, 22, a.encode()), 'encoding of an e-mail address')
            l = x509.EmailAddress.load(o.dump())
            if a.lower() == a and 'xn--' not in t:
                g.eq(l.native, self.box + '@' + self.host.prepared, 'native of a loaded e-mail address')
            return o
        b = self.box.encode() + b'@' + self.host.octets(g)
        e = encodings(g, x509.EmailAddress, b)
        g.log('loaded', e)
        o = x509.EmailAddress.load(e)
        if b.lower() == b:
            g.eq(o.native, self.box + '@' + self.host.prepared, 'native of a loaded e-mail address')
        return o


def near_mail(g, m):
    k = g.draw(6)
    if k == 0:
        return Mail(m.box.swapcase(), m.host)
    if k == 1:
        return Mail(mailbox(g), m.host)
    if k == 2 and m.host:
        return Mail(m.box, near_host(g, m.host))
    if k == 3:
        return Mail(m.box.replace('@', 'a'), None)
    return m


@check.prop(20000, 500000)
def mail(g):
    m = Mail(mailbox(g), gen_host(g, False))
    if g.draw(8) == 7:
        m = Mail(m.box.replace('@', ''), None)
    n = near_mail(g, m)
    a, b = m.make(g), n.make(g)
    idle(g, a)
    idle(g, b)
    want = m.key == n.key
    compare(g, a, b, want, 'e-mail addresses are equal')
    third = near_mail(g, n).make(g)
    if a == b and b == third:
        g.true(a == third, 'equality is not transitive')
    g.eq(x509.GeneralName(name='rfc822_name', value=a) == x509.GeneralName(name='rfc822_name', value=b), want, 'general names are equal')
    j = Mail(mailbox(g), gen_host(g, False))
    t, asc = j.host.text(g)
    t, asc = j.box + '@' + t, j.box + '@' + asc
    g.log('then', t)
    a.set(t)
    g.eq(a.dump(), ref.tlv(0, 0, a.tag, asc.encode('ascii')), 'encoding after setting again')
    g.eq(a.native, t, 'native after setting again')
    g.eq(a == b, j.key == n.key, 'e-mail addresses are equal after setting again')
    g.unit(4)
    g.label(str(want))
    g.nontrivial((m.key, n.key, a.dump()))
    g.sample('%s %s' % (m.key, n.key))


def uri_key(p):
    port = p.port
    if (p.scheme.lower(), port) in (('http', 80), ('https', 443)):
        port = None
    path = ref_uri('path', p.path)
    query, fragment = ref_uri('query', p.query), ref_uri('fragment', p.fragment)
    if path == '/' and not query and not fragment:
        path = ''
    host = p.ahost.lower() if p.ahost is not None else None
    return (p.scheme.lower(), p.authority, ref_uri('user', p.user or ''), ref_uri('user', p.password or ''), host, port, path, query, fragment)


def near_uri(g, p):
    q = c18.Parts()
    q.__dict__.update(p.__dict__)
    k = g.draw(12)
    if k == 0:
        q.path = q.path.swapcase() if '%' not in q.path else q.path + 'x'
    elif k == 1 and q.host:
        q.port = g.choice([None, 80, 443, 8080])
    elif k == 2 and q.path in ('', '/') and q.host:
        q.path = g.choice(['', '/'])
    elif k == 3 and q.authority and q.host:
        q.host, q.ahost = c18.host(g)
        q.ahost = q.ahost or q.host
    elif k == 4:
        q.query = c18.component(g, 'query', False)
    elif k == 5:
        # escape what may be escaped, or what may not
        i = [x for x, c in enumerate(q.path) if c in 'abcxyzABC019' and not (x > 0 and q.path[x - 1] == '%') and not (x > 1 and q.path[x - 2] == '%')]
        if i:
            x = g.choice(i)
            q.path = q.path[:x] + c18.q(g, q.path[x].encode()) + q.path[x + 1:]
    elif k == 6 and ',' in q.path:
        q.path = q.path.replace(',', '%2C')
    elif k == 7:
        q.fragment = c18.component(g, 'fragment', False)
    elif k == 8 and q.user:
        q.user = q.user + 'x'
    return q


def make_uri(g, p):
    s = c18.Parts()
    s.__dict__.update(p.__dict__)
    if g.draw(3) == 0:
        s.scheme = recased(g, s.scheme)
    if s.host and s.host.isascii() and g.draw(3) == 0:
        s.host = recased(g, s.host)
    if g.draw(2):
        if s.host and g.draw(3) == 0:
            s.host = s.ahost
        t = c18.text(s, 'iri', same)
        g.log('set', t)
        o = x509.URI(t)
        g.eq(o.native, t, 'native of a URI')
        return o
    if s.ahost == p.host and s.host:
        s.ahost = s.host
    # percent signs that quote nothing do not occur in encoded form
    b = c18.text(s, 'uri', lambda part, x: ref_uri(part, x)).encode('ascii')
    if g.draw(2):
        b = b.replace(b'%C3', b'%c3').replace(b'%2F', b'%2f')
    e = encodings(g, x509.URI, b)
    g.log('loaded', e)
    return x509.URI.load(e)


@check.prop(20000, 500000)
def uris(g):
    p = c18.generate(g, False)
    if g.draw(2):
        p.scheme = g.choice(['http', 'https', 'HTTP'.lower()]) if p.authority else p.scheme
        if g.draw(2) and p.host:
            p.path, p.query, p.fragment = g.choice(['', '/', p.path]), '', ''
    if p.host is None:
        p.ahost = None
        if p.authority and p.port is not None:
            p.port = None
    q = near_uri(g, p)
    a, b = make_uri(g, p), make_uri(g, q)
    idle(g, a)
    idle(g, b)
    ka, kb = uri_key(p), uri_key(q)
    want = ka == kb
    g.log('keys', ka, kb)
    compare(g, a, b, want, 'URIs are equal')
    r = near_uri(g, q)
    third = make_uri(g, r)
    if a == b and b == third:
        g.true(a == third, 'equality is not transitive')
    g.eq(x509.GeneralName(name='uniform_resource_identifier', value=a) == x509.GeneralName(name='uniform_resource_identifier', value=b), want, 'general names are equal')
    der = ref.tlv(0, 0, 22, c18.text(p, 'uri', ref_uri).encode('ascii'))
    b.set(c18.text(p, 'iri', same))
    g.eq(c18.up(b.dump()), c18.up(der), 'encoding after setting again')
    g.eq(b.native, c18.text(p, 'iri', same), 'native after setting again')
    g.true(b == x509.URI(c18.text(p, 'iri', same)), 'a URI differs from one set from the same text')
    g.unit(4)
    g.label(str(want))
    g.nontrivial((ka, kb, a.dump()))
    g.sample('%s %s' % (ka, kb))


OTHERS = [None, 5, 'example.com', b'example.com', [], ()]


@check.prop(4000, 60000)
def mixed(g):
    """values of different kinds are unequal; refused texts leave the value as it was"""
    vals = [x509.DNSName('example.com'), x509.EmailAddress('example.com'), x509.URI('example.com'), x509.EmailAddress('a@example.com'), x509.IPAddress('1.2.3.4'),
            x509.DNSName(''), x509.URI(''), x509.EmailAddress(''), x509.DNSName(), x509.URI(), x509.EmailAddress()]
    a, b = g.choice(vals), g.choice(vals)
    if type(a) is not type(b):
        g.true(not a == b and a != b, 'values of different kinds are equal')
    w = g.choice(OTHERS)
    g.true(not a == w and a != w, 'a value equals one of another type', got=w)
    fields = {x509.DNSName: 'dns_name', x509.EmailAddress: 'rfc822_name', x509.URI: 'uniform_resource_identifier', x509.IPAddress: 'ip_address'}
    if a.contents is not None and b.contents is not None:
        ga, gb = x509.GeneralName(name=fields[type(a)], value=a.copy()), x509.GeneralName(name=fields[type(b)], value=b.copy())
        g.eq(ga == gb, type(a) is type(b) and a == b, 'general names are equal')
        g.true(not ga == w and ga != w, 'a general name equals one of another type')
    h = gen_host(g, False)
    long = 'a' * (64 + g.draw(10))
    bad = g.choice(['a..b', '..', long + '.b', 'é' * 70, 'א1a.b', '\ud800.a', 'b.' + long])
    g.log('refused', bad)
    for cls, text in ((x509.DNSName, bad), (x509.EmailAddress, 'x@' + bad), (x509.EmailAddress, 'é@' + 'a.b'), (x509.EmailAddress, 'é'), (x509.URI, 'http://' + bad + '/')):
        t, asc = h.text(g)
        t = {x509.DNSName: t, x509.EmailAddress: 'x@' + t, x509.URI: 'http://' + t + '/'}[cls]
        o = cls(t)
        d = o.dump()
        if text in ('x@א1a.b', 'א1a.b', 'http://א1a.b/'):
            continue
        try:
            o.set(text)
        except ValueError:
            pass
        else:
            g.fail('a text that cannot be encoded was accepted', text=text, got=o.dump())
        g.eq(o.native, t, 'native after a refusal')
        g.eq(o.dump(), d, 'encoding after a refusal')
        for x in (None, 5, b'a', ['a']):
            try:
                o.set(x)
            except TypeError:
                continue
            g.fail('a value of another type was accepted', got=x)
    g.unit(10)
    g.nontrivial((type(a), type(b), repr(w), bad, h.key))
