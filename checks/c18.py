"""C18: conversion between international and ASCII resource identifiers."""
import re

from lib.pbt import Check
from asn1crypto import util, x509

check = Check('C18', rule=(
    'identifiers of every shape (schemes, empty and missing authorities, user info, ASCII, international, IPv4 and IPv6 hosts, ports, paths, '
    'queries, fragments) with Unicode, characters that have to be quoted, reserved characters literal and quoted, quoted percent signs, quoted '
    'sequences that are and are not UTF-8, in both directions; random text. Non-trivial: holds a quoted or quotable character, or an '
    'international, IPv6 or empty host; distinct by text.'))

SUB = "!$&'()*+,;="
UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'
SAFE = {'user': SUB, 'path': '/' + SUB + '@:', 'query': '/?' + SUB + '@:', 'fragment': '/?' + SUB + '@:'}
# characters that end or split the component when they are not quoted
SPLIT = {'user': ':@/?#[]', 'path': '?#', 'query': '#', 'fragment': '#'}
QUOTED = ' "<>\\^`{|}'
WIDE = 'éüßñçøåäöžłığαβγωдияжשאعربहिंदी中文字日本語한국어ก€…–“”🙂𝄞\u00a0\u2028\u0085\u200d\ufffd'
HEX = re.compile('%[0-9a-fA-F]{2}')


def up(b):
    """quoted octets in one case"""
    return re.sub(b'%[0-9a-fA-F]{2}', lambda m: m.group(0).upper(), b)


def ups(s):
    return re.sub('%[0-9a-fA-F]{2}', lambda m: m.group(0).upper(), s)


def runs(s):
    """[(is quoted, text or octets)]"""
    out = []
    i = 0
    while i < len(s):
        if HEX.match(s, i):
            b = bytearray()
            while HEX.match(s, i):
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            out.append((True, bytes(b)))
        else:
            j = i
            while j < len(s) and not HEX.match(s, j):
                j += 1
            out.append((False, s[i:j]))
            i = j
    return out


def quote(c):
    return ''.join('%%%02X' % b for b in c.encode('utf-8'))


def ref_uri(part, s):
    out = ''
    for quoted, t in runs(s):
        if not quoted:
            out += ''.join(c if c in UNRESERVED or c in SAFE[part] else quote(c) for c in t)
            continue
        for c in t.decode('utf-8', 'surrogateescape'):
            if 0xdc80 <= ord(c) <= 0xdcff:
                out += '%%%02X' % (ord(c) - 0xdc00)
            elif c in UNRESERVED:
                out += c
            else:
                out += quote(c)
    return out


def ref_iri(part, s):
    out = ''
    for quoted, t in runs(s):
        if not quoted:
            out += t
            continue
        for c in t.decode('utf-8', 'surrogateescape'):
            if 0xdc80 <= ord(c) <= 0xdcff:
                out += '%%%02X' % (ord(c) - 0xdc00)
            elif c in SAFE[part] or c in SPLIT[part] or c == '%' or c < ' ' or c == '\x7f':
                out += quote(c)
            else:
                out += c
    return out


def component(g, part, encoded, escapes=True):
    out = ''
    for _ in range(g.choice([0, 1, 2, 3, 5, 8])):
        k = g.draw(10)
        if k < 3:
            out += g.choice(UNRESERVED)
        elif k == 3:
            out += g.choice(SAFE[part])
        elif k == 4 and not encoded:
            out += g.choice(WIDE) if g.draw(4) else chr(0xa1 + g.draw(0x5000))
        elif k == 5 and not encoded:
            out += g.choice(QUOTED) if part == 'user' else g.choice(QUOTED + '[]' if escapes else QUOTED)
        elif not escapes:
            out += g.choice(UNRESERVED)
        elif k == 6:
            out += q(g, g.choice('/?#[]@:' + SUB + '%' + QUOTED + UNRESERVED).encode())
        elif k == 7:
            out += q(g, g.choice(WIDE).encode('utf-8'))
        elif k == 8:
            out += q(g, g.choice([b'\xff', b'\xc3', b'\xe2\x82', b'\x80', b'\xed\xa0\x80', b'\xc0\xaf', b'\xf5\x80', b'\x00', b'\n', b'\x1a', b'\x1f', b'\x7f', b'%25', b'%',
                                  g.nbytes(1 + g.draw(3))]))
        elif not encoded and g.draw(3) == 0:
            out += g.choice(['%', '%4', '%zz', '%%', '100%'])
        else:
            out += g.choice(UNRESERVED)
    return out


def q(g, b):
    f = '%%%02x' if g.draw(2) else '%%%02X'
    return ''.join(f % x for x in b)


# characters nameprep leaves as they are, each in composed form
LABEL_CHARS = 'éüñçøåäöžłαβγωδдияжшשאع中文字日本語ひかな'
SCHEMES = ['http', 'https', 'ldap', 'ldaps', 'ftp', 'file', 'svn+ssh', 'x-a.b', 'h323', 'sip', 'ws']


def host(g):
    """(readable, ASCII)"""
    k = g.draw(8)
    if k == 0:
        return '.'.join(str(g.draw(256)) for _ in range(4)), None
    if k == 1:
        return '[' + g.choice(['::1', '::', '2001:db8::1', 'fe80::1:2', '1:2:3:4:5:6:7:8', '::ffff:1.2.3.4']) + ']', None
    labels, ascii_ = [], []
    for _ in range(1 + g.draw(3)):
        if g.draw(3) == 0:
            script = g.choice(['éüñçøåäöžł', 'αβγωδ', 'дияжш', '中文字日本語ひかな', 'שא'])
            l = ''.join(g.choice(script) for _ in range(1 + g.draw(5)))
            if 'ש' not in l and 'א' not in l and g.draw(2):
                l = 'ab'[g.draw(2)] + l + 'yz'[g.draw(2)]
            labels.append(l)
            ascii_.append('xn--' + l.encode('punycode').decode())
        else:
            l = ''.join(g.choice('abcxyz019') for _ in range(1 + g.draw(6)))
            if g.draw(4) == 0:
                l = l + '-' + g.choice('ab1')
            labels.append(l)
            ascii_.append(l)
    dot = '.' if g.draw(8) == 7 else ''
    return '.'.join(labels) + dot, '.'.join(ascii_) + dot


class Parts:
    pass


def generate(g, encoded, escapes=True):
    p = Parts()
    p.scheme = g.choice(SCHEMES)
    p.authority = g.draw(6) > 0
    p.user = p.password = p.host = p.ahost = p.port = None
    if p.authority and g.draw(5):
        p.host, p.ahost = host(g)
        if p.ahost is None:
            p.ahost = p.host
        if g.draw(4) == 0:
            p.user = component(g, 'user', encoded, escapes) or 'u'
            if g.draw(2):
                p.password = component(g, 'user', encoded, escapes) or 'p'
        if g.draw(3) == 0:
            p.port = g.choice([80, 443, 389, 8080, 1, 65535, g.draw(65536)])
    p.path = ''
    for i in range(g.choice([0, 1, 1, 2, 3])):
        s = component(g, 'path', encoded, escapes)
        p.path += '/' + s
    if not p.authority:
        p.scheme = g.choice(['mailto', 'urn', 'tag', 'ldap', 'cid'])
        p.path = p.path.lstrip('/') or 'x'
        if p.path.startswith(' '):
            p.path = 'x' + p.path
    elif p.host is None and not p.path:
        p.path = '/'
    p.query = component(g, 'query', encoded, escapes) if g.draw(3) == 0 else ''
    p.fragment = component(g, 'fragment', encoded, escapes) if g.draw(4) == 0 else ''
    return p


def text(p, name, conv):
    """the identifier with converted components"""
    out = p.scheme + ':'
    if p.authority:
        out += '//'
        if p.user is not None:
            out += conv('user', p.user)
            if p.password is not None:
                out += ':' + conv('user', p.password)
            out += '@'
        if p.host is not None:
            out += p.ahost if name == 'uri' else p.host
        if p.port is not None:
            out += ':%d' % p.port
    out += conv('path', p.path)
    if p.query:
        out += '?' + conv('query', p.query)
    if p.fragment:
        out += '#' + conv('fragment', p.fragment)
    return out


def same(part, s):
    return s


def meaning(part, s):
    """octets and delimiters"""
    out = []
    for c in re.findall('%[0-9a-fA-F]{2}|.', s, re.S):
        if len(c) == 3:
            n = int(c[1:], 16)
            out.append(('quoted', n) if chr(n) in '/?#[]@:' + SUB else n)
        elif c in '/?#[]@:' + SUB:
            out.append(c)
        else:
            out.extend(c.encode('utf-8'))
    return out


def interesting(g, p, t):
    if '%' in t or any(c in QUOTED or ord(c) > 126 for c in t) or '[' in t or '//' not in t or ':///' in t:
        g.nontrivial(t)
        g.sample(t)
    g.label('authority' if p.host else 'empty authority' if p.authority else 'no authority')


@check.prop(25000, 800000)
def readable(g):
    """to ASCII and back"""
    escapes = g.draw(3) > 0
    p = generate(g, False, escapes)
    t = text(p, 'iri', same)
    want = text(p, 'uri', ref_uri).encode('ascii')
    g.log('text', t)
    u = util.iri_to_uri(t)
    g.true(isinstance(u, bytes), 'type', got=type(u))
    g.eq(up(u), up(want), 'ASCII form')
    back = util.uri_to_iri(u)
    wanti = text(p, 'iri', lambda part, s: ref_iri(part, ref_uri(part, s)))
    g.eq(ups(back), ups(wanti), 'readable form')
    if not escapes:
        g.eq(back, t, 'original characters')
    g.eq(up(util.iri_to_uri(back)), up(u), 'ASCII form of the readable form')
    o = x509.URI(t)
    g.eq(o.native, t, 'native of a URI')
    g.eq(o.contents, u, 'contents of a URI')
    l = x509.URI.load(o.dump())
    g.eq(l.native, back, 'native of a loaded URI')
    g.eq(l.dump(), o.dump(), 'encoding')
    gn = x509.GeneralName(name='uniform_resource_identifier', value=t)
    g.eq(x509.GeneralName.load(gn.dump()).native, back, 'native of a general name')
    g.unit(8)
    interesting(g, p, t)


@check.prop(25000, 800000)
def encoded(g):
    """from ASCII and back: the meaning stays the same"""
    p = generate(g, True)
    t = text(p, 'uri', same)
    b = t.encode('ascii')
    g.log('text', b)
    i = util.uri_to_iri(b)
    g.true(isinstance(i, str), 'type', got=type(i))
    g.eq(ups(i), ups(text(p, 'iri', ref_iri)), 'readable form')
    u = util.iri_to_uri(i)
    g.eq(up(u), text(p, 'uri', ref_uri).encode('ascii'), 'ASCII form of the readable form')
    for part, s in (('user', p.user), ('user', p.password), ('path', p.path), ('query', p.query), ('fragment', p.fragment)):
        if s:
            g.eq(meaning(part, ref_uri(part, s)), meaning(part, s), 'meaning')
    g.eq(ups(util.uri_to_iri(u)), ups(i), 'readable form, converted twice')
    l = x509.URI.load(b'\x16' + bytes([len(b)] if len(b) < 128 else [0x81, len(b)] if len(b) < 256 else [0x82, len(b) >> 8, len(b) & 255]) + b)
    g.eq(l.native, i, 'native of a loaded URI')
    l2 = x509.URI(l.native)
    g.eq(up(l2.contents), up(u), 'contents of a URI set from it')
    g.true(l2 == l, 'a URI differs from one set from its native value', native=l.native)
    g.unit(6)
    interesting(g, p, t)


@check.prop(6000, 100000)
def normalized(g):
    """default ports and a lone slash are dropped on request, and nothing else"""
    p = generate(g, False)
    if g.draw(2):
        p.scheme = g.choice(['http', 'https'])
        if not p.authority or p.host is None:
            p.authority = True
            p.host, p.ahost = 'example.com', 'example.com'
            p.path = '/' + p.path.lstrip('/')
        p.port = g.choice([80, 443, None, p.port])
        if g.draw(2):
            p.path = g.choice(['', '/', '//', '/x'])
            if g.draw(2):
                p.query = p.fragment = ''
    if p.authority and p.host is None:
        return
    t = text(p, 'iri', same)
    g.log('text', t)
    plain = util.iri_to_uri(t)
    if (p.scheme, p.port) in (('http', 80), ('https', 443)):
        p.port = None
    if not p.query and not p.fragment and p.path == '/':
        p.path = ''
    g.eq(up(plain), up(util.iri_to_uri(t, False)), 'without normalisation')
    g.eq(up(util.iri_to_uri(t, normalize=True)), text(p, 'uri', ref_uri).encode('ascii'), 'normalised')
    g.nontrivial(t)
    g.sample(t)


@check.prop(15000, 300000)
def any_text(g):
    """any text or octets give an ASCII or readable form, or ValueError"""
    k = g.draw(3)
    if k == 0:
        t = ''.join(g.choice(['http', 'https', ':', '/', '//', '@', '?', '#', '[', ']', '%', '%2f', '%00', '%C3%A9', 'é', ' ', '\t', '\n', '80', '1', 'a.b', '::1', '..', '.', '\x00', '\udc80', 'xn--', 'xn--a-', '+', '℀', '。'])
                    for _ in range(g.draw(12)))
    elif k == 1:
        t = ''.join(chr(g.draw(0xd800)) if g.draw(2) else g.choice('%:/?#@[]ab') for _ in range(g.draw(20)))
    else:
        p = generate(g, False)
        t = list(text(p, 'iri', same))
        for _ in range(1 + g.draw(3)):
            i = g.draw(len(t))
            t[i] = g.choice([':', '/', '@', '?', '#', '[', ']', '%', '', ' ', '\n', 'é', '..', '\x00'])
        t = ''.join(t)
    g.log('text', t)
    try:
        u = util.iri_to_uri(t)
    except ValueError:
        u = None
    else:
        g.true(isinstance(u, bytes) and all(x < 128 for x in u), 'ASCII form', got=u)
    try:
        b = t.encode('utf-8')
    except ValueError:
        return
    for v in (b, u):
        if v is None:
            continue
        try:
            i = util.uri_to_iri(v)
            g.true(isinstance(i, str), 'readable form', got=i)
        except ValueError:
            pass
    g.unit(3)
    if len(t) > 3:
        g.nontrivial(t)
        g.sample(repr(t))
    for f, wrong in ((util.iri_to_uri, b), (util.uri_to_iri, t), (util.iri_to_uri, None), (util.uri_to_iri, 5)):
        try:
            f(wrong)
        except TypeError:
            continue
        g.fail('a value of another type was converted', got=wrong)
