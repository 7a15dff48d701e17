"""C14: character strings against their character sets."""
import codecs
import copy
import io
import json
import os

from lib.pbt import Check, VERIF
from lib import ref
from asn1crypto import core, x509

check = Check('C14', rule=(
    'texts over the whole character set of each string type (every single character enumerated for the one-octet sets, boundary and '
    'random code points for the Unicode sets), plus texts outside it; constructed, reassigned, segmented at any octet, copied, forced; '
    'arbitrary octets on the decoding side. Non-trivial: a non-ASCII or unrepresentable character or a segmented spelling; distinct by '
    'type and text.'))

with open(os.path.join(VERIF, 'data', 'teletex.json')) as fh:
    TELETEX = dict((int(k), v) for k, v in json.load(fh).items())
TELETEX_ENC = dict((v, k) for k, v in TELETEX.items() if v is not None)


def enc_utf8(s):
    out = bytearray()
    for ch in s:
        c = ord(ch)
        if 0xd800 <= c < 0xe000:
            return None
        if c < 0x80:
            out.append(c)
        elif c < 0x800:
            out += bytes([0xc0 | c >> 6, 0x80 | c & 63])
        elif c < 0x10000:
            out += bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
        else:
            out += bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return bytes(out)


def enc_bmp(s):
    out = bytearray()
    for ch in s:
        c = ord(ch)
        if 0xd800 <= c < 0xe000:
            return None
        if c >= 0x10000:
            c -= 0x10000
            hi, lo = 0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)
            out += bytes([hi >> 8, hi & 255, lo >> 8, lo & 255])
        else:
            out += bytes([c >> 8, c & 255])
    return bytes(out)


def enc_universal(s):
    out = bytearray()
    for ch in s:
        c = ord(ch)
        if 0xd800 <= c < 0xe000:
            return None
        out += bytes([c >> 24, c >> 16 & 255, c >> 8 & 255, c & 255])
    return bytes(out)


def single(limit):
    def enc(s):
        if any(ord(c) >= limit for c in s):
            return None
        return bytes(ord(c) for c in s)
    return enc


def enc_teletex(s):
    if any(c not in TELETEX_ENC for c in s):
        return None
    return bytes(TELETEX_ENC[c] for c in s)


# The library declares ISO 8859-1 for the types whose real repertoire is a
# subset of it; only the unambiguous rejections are asserted for those.
TYPES = [
    ('UTF8String', 12, enc_utf8), ('NumericString', 18, single(256)), ('PrintableString', 19, single(256)),
    ('TeletexString', 20, enc_teletex), ('IA5String', 22, single(128)), ('GraphicString', 25, single(256)),
    ('VisibleString', 26, single(256)), ('GeneralString', 27, single(256)), ('UniversalString', 28, enc_universal),
    ('CharacterString', 29, single(256)), ('BMPString', 30, enc_bmp),
]
EDGES = [0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2126, 0xfffd, 0x1f600]
BAD = [0xd800, 0xdbff, 0xdc00, 0xdfff]


def gen_char(g):
    k = g.draw(6)
    if k == 0:
        return chr(32 + g.draw(95))
    if k == 1:
        return chr(g.draw(256))
    if k == 2:
        return chr(g.choice(EDGES))
    if k == 3:
        c = g.draw(0x110000)
        return chr(c if not 0xd800 <= c < 0xe000 else 0x41)
    if k == 4:
        c = g.draw(0x10000)
        return chr(c if not 0xd800 <= c < 0xe000 else 0x41)
    return g.choice(sorted(TELETEX_ENC))


def gen_text(g, enc):
    n = g.draw(12)
    if g.draw(12) == 11:
        n = g.choice([63, 64, 127, 128, 256, 400])
    out = []
    for _ in range(n):
        ch = gen_char(g)
        for _ in range(4):
            if enc(ch) is not None:
                break
            ch = g.choice([chr(32 + g.draw(95)), chr(g.draw(256)), g.choice(sorted(TELETEX_ENC))])
        if enc(ch) is None:
            ch = 'A'
        out.append(ch)
    return ''.join(out)


def check_one(g, name, tag, enc, s):
    cls = getattr(core, name)
    want = enc(s)
    der = ref.tlv(0, 0, tag, want)
    o = cls(s)
    g.eq(o.dump(), der, 'dump()', type=name)
    g.eq(bytes(o.contents), want, 'contents')
    g.eq((o.native, str(o)), (s, s), 'native of a constructed string')
    for b in (cls.load(der), core.load(der)):
        g.true(type(b) is cls, 'type after load', got=type(b))
        if g.draw(2):
            g.eq(str(b), s, 'str() after load')
        g.eq(b.native, s, 'native after load')
        g.eq(b.dump(), der, 'dump after load')
        g.eq(b.dump(force=True), der, 'forced dump after load')
        g.eq((b.native, str(b)), (s, s), 'native after forced dump')
        g.true(b == o and o == b, 'equality')
    return cls, der


@check.prop(40000, 800000)
def round_trip(g):
    name, tag, enc = g.choice(TYPES)
    s = gen_text(g, enc)
    g.log(name, s)
    cls, der = check_one(g, name, tag, enc, s)
    # reassignment changes every view together
    b = cls.load(der) if g.draw(2) else cls(s)
    if g.draw(2):
        b.native
    t = gen_text(g, enc)
    g.log('then', t)
    b.set(t)
    g.eq((b.native, str(b)), (t, t), 'native after set()')
    g.eq(b.dump(), ref.tlv(0, 0, tag, enc(t)), 'dump after set()')
    c = b.copy() if g.draw(2) else copy.copy(b)
    g.eq((c.native, c.dump()), (t, b.dump()), 'copy')
    c.set(s)
    g.eq((b.native, b.dump()), (t, ref.tlv(0, 0, tag, enc(t))), 'original after an edit of the copy')
    g.eq(cls(t) == cls(s), s == t, 'equality of two strings')
    if any(ord(x) > 127 for x in s):
        g.nontrivial((name, s))
        g.sample('%s %r' % (name, s))


@check.prop(2816, 2816)
def every_octet(g):
    """one-octet sets, every octet"""
    name, tag, enc = TYPES[g.enum(len(TYPES) * 256) // 256]
    octet = g.choices[0] % 256
    g.log(name, octet)
    der = bytes([tag, 1, octet])
    cls = getattr(core, name)
    if name == 'TeletexString':
        want = TELETEX[octet]
    elif name == 'IA5String':
        want = chr(octet) if octet < 128 else None
    elif name == 'UTF8String':
        want = chr(octet) if octet < 128 else None
    elif name in ('BMPString', 'UniversalString'):
        want = None
    else:
        want = chr(octet)
    try:
        got = cls.load(der).native
    except ValueError:
        got = None
    g.eq(got, want, 'text of a single octet')
    if want is not None:
        g.eq(cls(want).dump(), der, 'encoding of that text')
    g.nontrivial((name, octet))


@check.prop(20000, 300000)
def unrepresentable(g):
    name, tag, enc = g.choice(TYPES)
    cls = getattr(core, name)
    s = gen_text(g, enc)[:10]
    k = g.draw(3)
    bad = chr(g.choice(BAD)) if k == 0 else chr(g.choice(EDGES)) if k == 1 else gen_char(g)
    if enc(bad) is not None:
        bad = chr(g.choice(BAD))
    i = g.draw(len(s) + 1)
    t = s[:i] + bad + s[i:]
    g.log(name, ascii(t))
    try:
        o = cls(t)
    except ValueError:
        o = None
    if o is not None:
        g.fail('text outside the character set was accepted', type=name, encoding=o.dump())
    o = cls(s)
    before = o.dump()
    try:
        o.set(t)
    except ValueError:
        pass
    else:
        g.fail('set() accepted text outside the character set', type=name, encoding=o.dump())
    g.eq((o.native, str(o), o.dump()), (s, s, before), 'value after a refused set()')
    g.nontrivial((name, ascii(t)))
    g.sample('%s %s' % (name, ascii(t)))


@check.prop(25000, 400000)
def segmented(g):
    name, tag, enc = g.choice(TYPES)
    cls = getattr(core, name)
    s = gen_text(g, enc)
    node = ref.Node(0, tag, 'string', enc(s), seg_tag=g.choice([tag, 4]))
    sp = ref.Ber(g, rate=2)
    ber = sp.spell(node)
    g.log(name, s, ber)
    for b in (cls.load(ber), core.load(ber)):
        if g.draw(3) == 2:
            b = b.copy()
        if g.draw(2):
            g.eq(str(b), s, 'str()')
        g.eq(b.native, s, 'native')
        if not sp.used.get('segment') and b.contents is not None and g.draw(2):
            pass
        k = g.draw(3)
        if k == 0:
            g.eq(b.dump(force=True), ref.tlv(0, 0, tag, enc(s)), 'forced dump')
        elif k == 1:
            t = gen_text(g, enc)
            b.set(t)
            g.eq((b.native, b.dump()), (t, ref.tlv(0, 0, tag, enc(t))), 'set() over a segmented value')
        else:
            c = b.copy()
            g.eq((c.native, c.dump(True)), (s, ref.tlv(0, 0, tag, enc(s))), 'copy of a segmented value')
    if sp.used.get('segment'):
        g.nontrivial(ber)
        g.sample(ber.hex())


@check.prop(20000, 400000)
def any_octets(g):
    """decoding arbitrary octets: the text whose encoding they are, or ValueError"""
    name, tag, enc = g.choice(TYPES)
    cls = getattr(core, name)
    raw = g.bytes(0, 12)
    if g.draw(2):
        base = bytearray(enc(gen_text(g, enc)))
        for _ in range(g.draw(3)):
            if base:
                base[g.draw(len(base))] ^= 1 << g.draw(8)
        raw = bytes(base)
    g.log(name, raw)
    o = cls.load(ref.tlv(0, 0, tag, raw))
    try:
        s = o.native
    except ValueError:
        s = None
    if s is not None:
        g.eq(enc(s), raw, 'octets of the decoded text', text=ascii(s))
        g.label('decoded')
    else:
        # the octets must really not be the encoding of anything
        codec = {'UTF8String': 'utf-8', 'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be', 'IA5String': 'ascii'}.get(name)
        if codec:
            try:
                t = raw.decode(codec)
            except ValueError:
                t = None
        elif name == 'TeletexString':
            t = None if any(TELETEX[x] is None for x in raw) else ''
        else:
            t = ''
        g.true(t is None, 'octets that are an encoding were refused', type=name)
        g.label('refused')
    g.eq(o.dump(), ref.tlv(0, 0, tag, raw), 'dump of an unmodified value')
    g.nontrivial((name, raw))


@check.prop(400, 400)
def wrong_types(g):
    name, tag, enc = TYPES[g.enum(len(TYPES))]
    cls = getattr(core, name)
    v = g.choice([b'abc', 5, 1.5, ['a'], ('a',), {'a': 1}, object(), bytearray(b'a'), True])
    o = cls('12')
    for f in (lambda: cls(v), lambda: o.set(v)):
        try:
            f()
        except TypeError:
            continue
        g.fail('a value that is not text was accepted', type=name, value=v)
    g.eq((o.native, o.dump()), ('12', ref.tlv(0, 0, tag, enc('12'))), 'value after refused set()')
    o = cls()
    g.true(o.native is None and str(o) == '', 'an unset string')
    g.nontrivial((name, repr(type(v))))


@check.prop(6000, 60000)
def codec(g):
    """the Teletex codec by itself: at once, in pieces, as a stream"""
    s = gen_text(g, enc_teletex)
    raw = enc_teletex(s)
    g.log(s, raw)
    g.eq((s.encode('teletex'), raw.decode('teletex')), (raw, s), 'at once')
    e, d = codecs.getincrementalencoder('teletex')(), codecs.getincrementaldecoder('teletex')()
    cuts = sorted(g.draw(len(s) + 1) for _ in range(g.draw(3)))
    out, back = b'', ''
    for i, j in zip([0] + cuts, cuts + [len(s)]):
        out += e.encode(s[i:j], j == len(s))
        back += d.decode(raw[i:j], j == len(s))
    g.eq((out, back), (raw, s), 'in pieces')
    f = io.BytesIO()
    codecs.getwriter('teletex')(f).write(s)
    g.eq(f.getvalue(), raw, 'written to a stream')
    g.eq(codecs.getreader('teletex')(io.BytesIO(raw)).read(), s, 'read from a stream')
    bad = g.choice([x for x in range(256) if TELETEX[x] is None])
    odd = gen_char(g)
    i = g.draw(len(s) + 1)
    for mode, o, n in (('ignore', raw, s), ('replace', None, s[:i] + '\ufffd' + s[i:])):
        g.eq((raw[:i] + bytes([bad]) + raw[i:]).decode('teletex', mode), s if mode == 'ignore' else n, 'undefined octet', mode=mode)
        if o is not None and odd not in TELETEX_ENC:
            g.eq((s[:i] + odd + s[i:]).encode('teletex', mode), o, 'character outside of the set', mode=mode)
    for f in (lambda: (raw[:i] + bytes([bad]) + raw[i:]).decode('teletex'), lambda: d.decode(bytes([bad]), True)):
        try:
            f()
        except ValueError:
            continue
        g.fail('an undefined octet was decoded', octet=bad)
    try:
        codecs.lookup('teletex_%d' % g.draw(9))
    except LookupError:
        pass
    else:
        g.fail('another codec was found by the Teletex one')
    g.nontrivial(raw)
    g.sample('%r %s' % (s, raw.hex()))


DIRECTORY = [('printable_string', 'PrintableString', 19, single(256)), ('universal_string', 'UniversalString', 28, enc_universal),
             ('utf8_string', 'UTF8String', 12, enc_utf8), ('bmp_string', 'BMPString', 30, enc_bmp), ('ia5_string', 'IA5String', 22, single(128))]


@check.prop(12000, 200000)
def directory(g):
    """directory strings of X.509: Teletex is written as T.61, but read as Windows-1252 unless told otherwise"""
    if g.draw(3) == 0:
        name, _, tag, enc = g.choice(DIRECTORY)
        s = gen_text(g, enc)
        der = ref.tlv(0, 0, tag, enc(s))
        g.log(name, s)
        for o in (x509.DirectoryString(name, s), x509.DirectoryString.load(der)):
            g.eq((o.name, o.native, o.dump()), (name, s, der), 'directory string')
        g.nontrivial(der)
        return
    s = gen_text(g, enc_teletex)
    raw = enc_teletex(s)
    o = x509.DirectoryString('teletex_string', s)
    der = ref.tlv(0, 0, 20, raw)
    g.log(s, raw)
    g.eq((o.name, o.native, o.dump()), ('teletex_string', s, der), 'constructed')
    if g.draw(2):
        raw = g.bytes(0, 9)
        der = ref.tlv(0, 0, 20, raw)
        s = None if any(TELETEX[x] is None for x in raw) else ''.join(TELETEX[x] for x in raw)
    try:
        lenient = raw.decode('cp1252')
    except ValueError:
        lenient = None

    def read(want, what):
        b = ref.Ber(g, rate=2).spell(ref.Node(0, 20, 'string', raw, seg_tag=20)) if g.draw(3) == 0 else der
        o = x509.DirectoryString.load(b)
        if g.draw(3) == 0:
            o = o.copy()
        try:
            got = o.native
        except ValueError:
            got = None
        g.eq(got, want, what, octets=b)
        if b == der:
            g.eq(o.dump(), der, 'encoding of an unmodified value')
        g.eq(o.dump(force=True), der, 'forced encoding', octets=b)
    read(lenient, 'read')
    try:
        with x509.strict_teletex():
            read(s, 'read strictly')
            if g.draw(2):
                raise KeyError()
    except KeyError:
        pass
    read(lenient, 'read after reading strictly')
    odd = gen_char(g)
    if odd not in TELETEX_ENC:
        o = x509.DirectoryString('teletex_string', 'x')
        for f in (lambda: x509.DirectoryString('teletex_string', odd), lambda: o.chosen.set('a' + odd)):
            try:
                f()
            except ValueError:
                continue
            g.fail('text outside of T.61 was accepted', text=odd)
        g.eq((o.native, o.dump()), ('x', b'\x14\x01x'), 'value after a refused set()')
    g.nontrivial((raw, s))
    g.sample('%s %r %r' % (raw.hex(), s, lenient))
