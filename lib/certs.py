"""Certificates and extension lists written with the reference encoder, next to the facts they state."""
import datetime

from lib import ref, model, predef
from lib.schema import DATA

UTC = datetime.timezone.utc

# ------------------------------------------------------------ names

ATTRS = [('2.5.4.3', 'common_name'), ('2.5.4.6', 'country_name'), ('2.5.4.10', 'organization_name'), ('2.5.4.11', 'organizational_unit_name'), ('2.5.4.5', 'serial_number')]
WORDS = ['Test CA', 'example', 'US', 'Root 1', 'x', 'Ä Corp', 'ACME']


def gen_name(g):
    """a distinguished name as [[(oid, text)]]"""
    return [[(g.choice(ATTRS)[0], g.choice(WORDS)) for _ in range(g.choice([1, 1, 1, 2]))] for _ in range(g.choice([1, 2, 1, 3, 0]))]


def near_name(g, n):
    n = [list(r) for r in n]
    k = g.draw(4)
    if not n or k == 0:
        n.append([(ATTRS[0][0], g.choice(WORDS))])
    elif k == 1:
        n.pop(g.draw(len(n)))
    elif k == 2:
        n.reverse()
    else:
        i = g.draw(len(n))
        n[i][0] = (n[i][0][0], g.choice(WORDS))
    return n


def name_key(n):
    return tuple(tuple(sorted((o, ' '.join(t.lower().split())) for o, t in r)) for r in n)


def write_name(g, n, plain=False):
    out = []
    for r in n:
        avas = []
        for o, t in r:
            if not plain:
                k = g.draw(5)
                t = t.upper() if k == 1 else t.lower() if k == 2 else t.replace(' ', '  ') if k == 3 else t
            kind = g.draw(3)
            if kind == 0 and t.isascii():
                v = ref.printable(t)
            elif kind == 1 and not plain:
                v = ref.tlv(0, 0, 30, t.encode('utf-16-be'))
            else:
                v = ref.utf8(t)
            avas.append(ref.seq(ref.oid(o), v))
        out.append(ref.set_of(*avas))
    return ref.seq(*out)


# ------------------------------------------------------------ general names

HOSTS = ['example.com', 'www.example.com', 'a.b', 'ca.example.org', 'localhost']


def gen_url(g):
    scheme = g.choice(['http://', 'https://', 'ldap://', 'ldaps://', 'ftp://', 'HTTP://', 'Ldap://', 'file:///', 'urn:', 'mailto:'])
    if scheme == 'urn:':
        return 'urn:example:' + g.choice(['a', 'b'])
    if scheme == 'mailto:':
        return 'mailto:a@example.com'
    if scheme == 'file:///':
        return 'file:///tmp/x'
    return scheme + g.choice(HOSTS) + g.choice(['', '/', '/ca.crl', '/a/b?x=1', ':8080/c', '/d+e'])


def readable(u):
    """scheme in lower case: conversion to the readable form may change it"""
    if u is None or ':' not in u:
        return u
    s, rest = u.split(':', 1)
    return s.lower() + ':' + rest


class GN(object):
    def __init__(self, kind, value, der):
        self.kind, self.value, self.der = kind, value, der


def gen_general_name(g, kinds=('uri', 'uri', 'uri', 'dns', 'dir', 'ip', 'mail', 'rid', 'other')):
    k = g.choice(kinds)
    if k == 'uri':
        u = gen_url(g)
        return GN(k, u, ref.tlv(2, 0, 6, u.encode('ascii')))
    if k == 'dns':
        h = g.choice(HOSTS)
        return GN(k, h, ref.tlv(2, 0, 2, h.encode('ascii')))
    if k == 'mail':
        return GN(k, 'a@example.com', ref.tlv(2, 0, 1, b'a@example.com'))
    if k == 'ip':
        b = g.nbytes(g.choice([4, 16]))
        return GN(k, b, ref.tlv(2, 0, 7, b))
    if k == 'dir':
        n = write_name(g, gen_name(g))
        return GN(k, n, ref.explicit(4, n))
    if k == 'rid':
        return GN(k, '1.2.3.4', ref.tlv(2, 0, 8, ref.oid_content('1.2.3.4')))
    return GN('other', None, ref.tlv(2, 1, 0, ref.oid('1.2.3.5') + ref.explicit(0, ref.utf8('x'))))


def gen_general_names(g, least=1, **kw):
    return [gen_general_name(g, **kw) for _ in range(least + g.choice([0, 0, 1, 2, 3]))]


# ------------------------------------------------------------ extension values with the facts they state

def points(g):
    """a CRLDistributionPoints value and what each point holds"""
    out, facts = [], []
    for _ in range(g.choice([1, 1, 2, 3, 0])):
        parts = []
        k = g.choice(['full', 'full', 'full', 'none', 'relative'])
        names = []
        if k == 'full':
            names = gen_general_names(g)
            parts.append(ref.explicit(0, ref.tlv(2, 1, 0, b''.join(n.der for n in names))))
        elif k == 'relative':
            parts.append(ref.explicit(0, ref.tlv(2, 1, 1, ref.seq(ref.oid('2.5.4.3'), ref.utf8('x')))))
        if g.draw(3) == 0:
            parts.append(ref.tlv(2, 0, 1, ref.bitstr(b'\x40', 6)[2:]))
        if k == 'none' or g.draw(4) == 0:
            parts.append(ref.tlv(2, 1, 2, b''.join(n.der for n in gen_general_names(g, kinds=('dir', 'uri')))))
        der = ref.seq(*parts)
        out.append(der)
        urls = [n.value for n in names if n.kind == 'uri']
        usable = [u for u in urls if u.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://'))]
        facts.append({'der': der, 'kind': k, 'urls': urls, 'url': usable[0] if usable else None})
    return ref.seq(*out), facts


def check_points(g, facts, got, what):
    """the points that name a URI, in order; a point that names several may be listed for each"""
    want = [f for f in facts if f['urls']]
    seen = [o.dump() for o in got]
    reach = {0}
    for f in want:
        reach = set(p + k for p in reach for k in range(1, len(f['urls']) + 1) if seen[p:p + k] == [f['der']] * k)
    if len(seen) not in reach:
        g.fail(what, got=seen, want=[f['der'] for f in want])
    urls = dict((f['der'], f['url']) for f in want)
    for o, d in zip(got, seen):
        g.eq(readable(o.url), readable(urls[d]), 'URL of a distribution point')
    g.unit()


def access(g):
    out, facts = [], []
    for _ in range(g.choice([1, 1, 2, 3, 0])):
        m, name = g.choice([('1.3.6.1.5.5.7.48.1', 'ocsp'), ('1.3.6.1.5.5.7.48.1', 'ocsp'), ('1.3.6.1.5.5.7.48.2', 'ca_issuers'), ('1.3.6.1.5.5.7.48.2', 'ca_issuers'), ('1.2.3.4', '1.2.3.4'),
                            ('1.3.6.1.5.5.7.48.3', 'time_stamping'), ('1.3.6.1.5.5.7.48.5', 'ca_repository')])
        n = gen_general_name(g)
        out.append(ref.seq(ref.oid(m), n.der))
        facts.append((name, n))
    return ref.seq(*out), facts


def aki(g, ids=None):
    parts, f = [], {'key': None, 'issuer': None, 'serial': None}
    if g.draw(4):
        f['key'] = g.choice(ids) if ids and g.draw(2) else g.bytes(0, 4)
        parts.append(ref.tlv(2, 0, 0, f['key']))
    k = g.draw(4)
    if k == 1:
        f['issuer'] = gen_general_names(g, kinds=('dir', 'dir', 'dir', 'uri', 'dns'))
        parts.append(ref.tlv(2, 1, 1, b''.join(n.der for n in f['issuer'])))
    if k == 1 or (k == 2 and g.draw(4) == 0):
        f['serial'] = g.choice([1, 0, -5, 127, 128, 2 ** 64]) if g.draw(2) else g.int(0, 2 ** 160)
        parts.append(ref.tlv(2, 0, 2, ref.int_content(f['serial'])))
    return ref.seq(*parts), f


def constraints(g):
    parts, f = [], {'ca': False, 'len': None}
    k = g.draw(4)
    if k:
        f['ca'] = True
        parts.append(ref.boolean(True))
    elif g.draw(4) == 0:
        parts.append(ref.boolean(False))
    if g.draw(2):
        f['len'] = g.choice([0, 1, 2, 5, 127, 128, 1000])
        parts.append(ref.integer(f['len']))
    return ref.seq(*parts), f


class Ext(object):
    """an extension: oid, name, critical, octets of the value, facts about it, type and abstract value where generated from the schema"""
    der = name = oid = facts = ty = value = None
    critical = False


def gen_ext(g, table, specs, name, special):
    e = Ext()
    e.name = name
    rev = dict((v, k) for k, v in table.items())
    e.oid = rev.get(name, name)
    if name in special:
        e.der, e.facts = special[name](g)
    elif name in specs:
        e.ty = predef.build(specs[name])
        a = predef.value(g, e.ty, g.choice([4, 12, 30]))
        e.der = model.der(e.ty, a)
        e.value = model.decoded(e.ty, a)
    else:
        e.der = g.choice([ref.utf8('x'), ref.null(), ref.seq(ref.integer(5)), b'', g.bytes(0, 6)])
    parts = [ref.oid(e.oid)]
    k = g.draw(5)
    if k in (1, 2):
        e.critical = True
        parts.append(ref.tlv(0, 0, 1, b'\xff' if g.draw(4) else b'\x01'))
    elif k == 3 and g.draw(2):
        parts.append(ref.boolean(False))
    parts.append(ref.octets(e.der))
    e.enc = ref.seq(*parts)
    return e


UNKNOWN = ['1.2.3.4', '2.5.29.99', '1.3.6.1.4.1.99999.1', '2.5.29.22']


def gen_exts(g, id_path, ext_path, special, favour, most=8):
    """extensions with distinct identifiers, in any order"""
    table, specs = DATA[id_path]['map'], DATA[ext_path]['oid_specs']
    names = sorted(table.values())
    n = g.choice([0, 1, 2, 3, 4, 6, most])
    out, used = [], set()
    for _ in range(n):
        k = g.draw(6)
        name = g.choice(favour) if favour and k < 3 else g.choice(UNKNOWN) if k == 3 else g.choice(names)
        if name in used:
            continue
        used.add(name)
        out.append(gen_ext(g, table, specs, name, special))
    return out


# ------------------------------------------------------------ the rest of a certificate

SIGS = [
    ('1.2.840.113549.1.1.11', True, 'rsassa_pkcs1v15', 'sha256'), ('1.2.840.113549.1.1.5', True, 'rsassa_pkcs1v15', 'sha1'), ('1.2.840.113549.1.1.4', True, 'rsassa_pkcs1v15', 'md5'),
    ('1.2.840.113549.1.1.2', True, 'rsassa_pkcs1v15', 'md2'), ('1.2.840.113549.1.1.13', True, 'rsassa_pkcs1v15', 'sha512'), ('1.2.840.113549.1.1.14', True, 'rsassa_pkcs1v15', 'sha224'),
    ('1.2.840.113549.1.1.12', True, 'rsassa_pkcs1v15', 'sha384'), ('1.2.840.10040.4.3', False, 'dsa', 'sha1'), ('2.16.840.1.101.3.4.3.2', False, 'dsa', 'sha256'),
    ('1.2.840.10045.4.1', False, 'ecdsa', 'sha1'), ('1.2.840.10045.4.3.2', False, 'ecdsa', 'sha256'), ('1.2.840.10045.4.3.4', False, 'ecdsa', 'sha512'),
]


def gen_sig(g):
    o, null, sig, digest = g.choice(SIGS)
    return ref.seq(ref.oid(o), ref.null() if null else b''), sig, digest


def gen_time(g):
    """encoding and instant"""
    y = g.choice([1950, 1999, 2000, 2026, 2049, 2050, 1949, 9999, 1, 1970]) if g.draw(2) else 1960 + g.draw(80)
    d = datetime.datetime(y, 1 + g.draw(12), 1 + g.draw(28), g.draw(24), g.draw(60), g.draw(60), tzinfo=UTC)
    if 1950 <= y <= 2049 and g.draw(3):
        return ref.tlv(0, 0, 23, ('%02d%02d%02d%02d%02d%02dZ' % (y % 100, d.month, d.day, d.hour, d.minute, d.second)).encode()), d
    return general_time(d), d


def general_time(d):
    return ref.tlv(0, 0, 24, ('%04d%02d%02d%02d%02d%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)).encode())


def gen_general_time(g):
    d = datetime.datetime(1990 + g.draw(60), 1 + g.draw(12), 1 + g.draw(28), g.draw(24), g.draw(60), g.draw(60), tzinfo=UTC)
    return general_time(d), d


def gen_serial(g):
    return g.choice([0, 1, -1, 127, 128, 255, 256, -128, -129, 2 ** 64, 2 ** 159]) if g.draw(2) else g.int(-2 ** 160, 2 ** 160)


KEY = ref.seq(ref.seq(ref.oid('1.2.840.113549.1.1.1'), ref.null()), ref.bitstr(ref.seq(ref.integer(0xc0ffee0000000001), ref.integer(65537))))


class Cert(object):
    pass


def write_cert(g, exts, subject=None, issuer=None, spki=None, full=True):
    """a certificate around a list of extensions (None: the field is absent)"""
    c = Cert()
    c.exts = exts or []
    c.subject = subject if subject is not None else gen_name(g)
    c.issuer = issuer if issuer is not None else gen_name(g)
    c.subject_der = write_name(g, c.subject)
    c.issuer_der = write_name(g, c.issuer)
    c.serial = gen_serial(g)
    sig, c.sig, c.digest = gen_sig(g)
    before, c.before = gen_time(g)
    after, c.after = gen_time(g)
    c.spki = spki or KEY
    c.signature = g.bytes(0, 8)
    version = 2 if exts is not None else g.draw(2)
    uids = b''
    if version and g.draw(6) == 0:
        uids = ref.tlv(2, 0, 1, b'\x00' + g.bytes(0, 3)) + (ref.tlv(2, 0, 2, b'\x00' + g.bytes(0, 3)) if g.draw(2) else b'')
    c.tbs = ref.seq(
        ref.explicit(0, ref.integer(version)) if version else b'', ref.integer(c.serial), sig, c.issuer_der, ref.seq(before, after), c.subject_der, c.spki, uids,
        ref.explicit(3, ref.seq(*[e.enc for e in exts])) if exts is not None else b'')
    c.der = ref.seq(c.tbs, sig, ref.bitstr(c.signature))
    return c
