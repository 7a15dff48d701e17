"""C20: distinguished names."""
import hashlib
import itertools
import stringprep
import unicodedata
from collections import OrderedDict

from lib.pbt import Check
from lib import ref
from checks.c21 import gen_host, near_host, mailbox
from asn1crypto import x509, core

check = Check('C20', rule=(
    'names of 0-5 relative names of 1-3 attributes over every attribute type and undeclared ones, values of words over Latin, Greek, Cyrillic, '
    'CJK and right-to-left characters in case, width, composition, ligature, spacing and ignorable-character variants and every string type; '
    'pairs that are the same and nearly the same; dictionaries for build(). Non-trivial: at least one value; distinct by encodings.'))

# ------------------------------------------------------------ text and its spellings

UNITS = {
    'a': ['a', 'A', 'ａ', 'Ａ', 'ª'], 'b': ['b', 'B'], 'c': ['c', 'C', 'Ｃ'], 'd': ['d', 'D'], 'e': ['e', 'E', 'ℯ'], 'f': ['f', 'F'], 'i': ['i', 'I', 'ⅰ'], 's': ['s', 'S', 'ſ'],
    'é': ['é', 'É', 'e\u0301', 'E\u0301'], 'ss': ['ss', 'SS', 'ß', 'sS'], 'fi': ['fi', 'ﬁ', 'FI', 'Fi'], 'ö': ['ö', 'Ö', 'o\u0308'], 'å': ['å', 'Å', 'Å', 'A\u030a'],
    'σ': ['σ', 'Σ', 'ς'], 'ω': ['ω', 'Ω', 'Ω'], 'я': ['я', 'Я'], 'й': ['й', 'Й', 'и\u0306'], '中': ['中'], '文': ['文'], 'ハ': ['ハ', 'ﾊ'], 'バ': ['バ', 'ﾊﾞ', 'ハ\u3099'],
    '2': ['2', '²', '２', '②'], 'iv': ['iv', 'Ⅳ', 'IV', 'ⅳ'], '.': ['.', '．'], ',': [','], '-': ['-'], "'": ["'"], '&': ['&', '＆'], ':': [':'], 'x': ['x', 'X'], 'kg': ['kg', '㎏', 'KG'],
    '=': ['='], '/': ['/'], '1': ['1', '¹'], 'ñ': ['ñ', 'Ñ'], 'ı': ['ı'],
}
ASCII_UNITS = dict((k, [v for v in vs if v.isascii()]) for k, vs in UNITS.items() if k.isascii())
RTL = {'א': ['א'], 'ב': ['ב'], 'ה': ['ה'], 'ا': ['ا', 'ﺍ', 'ﺎ'], 'ب': ['ب', 'ﺏ', 'ﺐ'], 'س': ['س', 'ﺱ'], 'م': ['م', 'ﻡ']}
SPACES = [' ', ' ', '\u00a0', '\u3000', '\u2003', '\t', '\n', '\u1680', '\u2028', '\u2029', '\u202f', '\u205f', '\u0085', '\r', '\x0b', '\x0c', '\u2000', '\u200a']
NOTHING = ['\u00ad', '\u1806', '\u034f', '\u180b', '\u180d', '\ufe00', '\ufe0f', '\ufe07', '\ufffc', '\u200b', '\u200c', '\u200f', '\u202a', '\u2060', '\u206f', '\ufeff', '\x00', '\x08', '\x0e', '\x1f',
           '\x7f', '\x84', '\x86', '\x9f', '\u06dd', '\u070f', '\u180e', '\ufff9', '\ufffb', '\U0001d173', '\U0001d17a', '\U000e0001', '\U000e0020', '\U000e007f', '\u202e', '\u2063', '\u206a',
           '\x1e', '\x1f']


class Text:
    """words of units; equal exactly when the words are"""

    def __init__(self, words, table, ascii_only=False):
        self.words, self.table, self.ascii_only = words, table, ascii_only

    @property
    def key(self):
        return tuple(''.join(w) for w in self.words)

    def spell(self, g, plain=False):
        """some text with this key"""
        sp = [' '] if self.ascii_only else SPACES
        no = [] if self.ascii_only else NOTHING

        def space(least):
            if plain:
                return ' ' * least
            n = least + g.choice([0, 0, 0, 1, 2])
            return ''.join(g.choice(sp) if g.draw(2) else ' ' for _ in range(n))

        def nothing():
            return g.choice(no) if no and not plain and g.draw(12) == 0 else ''
        out = space(0)
        for i, w in enumerate(self.words):
            if i:
                out += space(1)
            for u in w:
                out += nothing()
                v = self.table[u]
                s = g.choice(v) if not plain and g.draw(2) else v[0]
                if len(s) == 2 and nothing() and s[1] in '\u0301\u0308\u030a\u0306\u3099':
                    s = s[0] + g.choice(no) + s[1]
                out += s
            out += nothing()
        return out + space(0)


def gen_text(g, ascii_only=False):
    table = ASCII_UNITS if ascii_only else g.choice([UNITS, UNITS, UNITS, ASCII_UNITS, RTL])
    units = list(table)
    words = [[g.choice(units) for _ in range(1 + g.draw(4))] for _ in range(g.choice([1, 1, 2, 3, 0, 1]))]
    return Text(words, table, ascii_only)


def near_text(g, t):
    """another text, or the same"""
    k = g.draw(8)
    words = [list(w) for w in t.words]
    if k < 3 or not words:
        pass
    elif k == 3:
        i = g.draw(len(words))
        words[i][g.draw(len(words[i]))] = g.choice(list(t.table))
    elif k == 4 and len(words) > 1:
        i = g.draw(len(words) - 1)
        words[i:i + 2] = [words[i] + words[i + 1]]
    elif k == 5:
        i = g.draw(len(words))
        if len(words[i]) > 1:
            j = 1 + g.draw(len(words[i]) - 1)
            words[i:i + 1] = [words[i][:j], words[i][j:]]
    elif k == 6:
        i = g.draw(len(words))
        words[i].append(g.choice(list(t.table)))
    elif k == 7:
        words.reverse()
    return Text(words, t.table, t.ascii_only)


# ------------------------------------------------------------ attribute values

DIRECTORY = {
    'common_name': '2.5.4.3', 'surname': '2.5.4.4', 'serial_number': '2.5.4.5', 'country_name': '2.5.4.6', 'locality_name': '2.5.4.7',
    'state_or_province_name': '2.5.4.8', 'street_address': '2.5.4.9', 'organization_name': '2.5.4.10', 'organizational_unit_name': '2.5.4.11',
    'title': '2.5.4.12', 'business_category': '2.5.4.15', 'postal_code': '2.5.4.17', 'name': '2.5.4.41', 'given_name': '2.5.4.42', 'initials': '2.5.4.43',
    'generation_qualifier': '2.5.4.44', 'dn_qualifier': '2.5.4.46', 'pseudonym': '2.5.4.65', 'organization_identifier': '2.5.4.97',
    'incorporation_locality': '1.3.6.1.4.1.311.60.2.1.1', 'incorporation_state_or_province': '1.3.6.1.4.1.311.60.2.1.2',
    'incorporation_country': '1.3.6.1.4.1.311.60.2.1.3', 'user_id': '0.9.2342.19200300.100.1.1', 'name_distinguisher': '0.2.262.1.10.7.20',
}
UTF8 = {'tpm_manufacturer': '2.23.133.2.1', 'tpm_model': '2.23.133.2.2', 'tpm_version': '2.23.133.2.3', 'platform_manufacturer': '2.23.133.2.4',
        'platform_model': '2.23.133.2.5', 'platform_version': '2.23.133.2.6'}
OTHER = {'telephone_number': '2.5.4.20', 'unique_identifier': '2.5.4.45', 'email_address': '1.2.840.113549.1.9.1', 'domain_component': '0.9.2342.19200300.100.1.25'}
OIDS = dict(DIRECTORY, **dict(UTF8, **OTHER))
UNDECLARED = ['1.2.3.4', '2.5.4.99', '2.5.4.33', '1.3.6.1.4.1.311.60.2.1.9']
HUMAN = {
    'common_name': 'Common Name', 'surname': 'Surname', 'serial_number': 'Serial Number', 'country_name': 'Country', 'locality_name': 'Locality',
    'state_or_province_name': 'State/Province', 'street_address': 'Street Address', 'organization_name': 'Organization',
    'organizational_unit_name': 'Organizational Unit', 'title': 'Title', 'business_category': 'Business Category', 'postal_code': 'Postal Code',
    'telephone_number': 'Telephone Number', 'name': 'Name', 'given_name': 'Given Name', 'initials': 'Initials', 'generation_qualifier': 'Generation Qualifier',
    'unique_identifier': 'Unique Identifier', 'dn_qualifier': 'DN Qualifier', 'pseudonym': 'Pseudonym', 'email_address': 'Email Address',
    'incorporation_locality': 'Incorporation Locality', 'incorporation_state_or_province': 'Incorporation State/Province',
    'incorporation_country': 'Incorporation Country', 'domain_component': 'Domain Component', 'name_distinguisher': 'Name Distinguisher',
    'organization_identifier': 'Organization Identifier', 'tpm_manufacturer': 'TPM Manufacturer', 'tpm_model': 'TPM Model', 'tpm_version': 'TPM Version',
    'platform_manufacturer': 'Platform Manufacturer', 'platform_model': 'Platform Model', 'platform_version': 'Platform Version', 'user_id': 'User ID',
}
ORDER = ['incorporation_country', 'incorporation_state_or_province', 'incorporation_locality', 'business_category', 'serial_number', 'country_name', 'postal_code',
         'state_or_province_name', 'locality_name', 'street_address', 'organization_name', 'organizational_unit_name', 'title', 'common_name', 'user_id', 'initials',
         'generation_qualifier', 'surname', 'given_name', 'name', 'pseudonym', 'dn_qualifier', 'telephone_number', 'email_address', 'domain_component',
         'name_distinguisher', 'organization_identifier', 'tpm_manufacturer', 'tpm_model', 'tpm_version', 'platform_manufacturer', 'platform_model', 'platform_version']
TAGS = {'utf8': 12, 'printable': 19, 'teletex': 20, 'ia5': 22, 'universal': 28, 'bmp': 30}


def encode(g, s, kinds):
    """the text in one of the string types that can hold it"""
    ok = [k for k in kinds if k in ('utf8', 'universal') or k == 'bmp' and all(ord(c) < 0x10000 for c in s)
          or k == 'teletex' and all(c.isascii() or 0xa0 <= ord(c) <= 0xff for c in s) or s.isascii()]
    k = g.choice(ok or ['utf8'])
    b = {'utf8': 'utf-8', 'printable': 'ascii', 'teletex': 'latin-1', 'ia5': 'ascii', 'universal': 'utf-32-be', 'bmp': 'utf-16-be'}[k]
    return ref.tlv(0, 0, TAGS[k], s.encode(b))


class Attr:
    """attribute type and a value with a key"""

    def __init__(self, name, kind, value):
        self.name, self.kind, self.value = name, kind, value
        self.oid = OIDS.get(name, name)

    @property
    def key(self):
        v = self.value
        if self.kind == 'bits':
            return self.name, v
        if self.kind == 'host':
            return self.name, (v.prepared,)
        if self.kind == 'mail':
            return self.name, (v[0].lower() + '@' + v[1].prepared,)
        return self.name, v.key

    def write(self, g):
        """(encoding, native value) of one spelling"""
        v = self.value
        if self.kind == 'bits':
            return ref.tlv(0, 0, 3, b'\x00' + v), v
        if self.kind == 'host':
            b = v.octets(g)
            if b'xn--' in b:
                b = b.lower()
            return ref.tlv(0, 0, 22, b), None
        if self.kind == 'mail':
            box = ''.join(c.swapcase() if g.draw(3) == 0 else c for c in v[0])
            b = v[1].octets(g)
            if b'xn--' in b:
                b = b.lower()
            return ref.tlv(0, 0, 22, box.encode() + b'@' + b), None
        s = v.spell(g)
        kinds = {'dir': ['utf8', 'utf8', 'printable', 'bmp', 'universal', 'teletex', 'ia5'], 'utf8': ['utf8'], 'tel': ['printable'],
                 'any': ['utf8', 'printable', 'ia5', 'bmp', 'universal']}[self.kind]
        return encode(g, s, kinds), s


DIR_NAMES, UTF8_NAMES = sorted(DIRECTORY), sorted(UTF8)


def gen_attr(g):
    k = g.draw(12)
    if k < 7:
        return Attr(g.choice(DIR_NAMES), 'dir', gen_text(g))
    if k == 7:
        return Attr(g.choice(UTF8_NAMES), 'utf8', gen_text(g))
    if k == 8:
        return g.choice([lambda: Attr('telephone_number', 'tel', gen_text(g, True)), lambda: Attr('unique_identifier', 'bits', g.bytes(0, 4))])()
    if k == 9:
        return Attr('domain_component', 'host', gen_host(g, False))
    if k == 10:
        box = mailbox(g)
        while not box.isascii() or ' ' in box or '@' in box or not box:
            box = 'john'
        return Attr('email_address', 'mail', (box, gen_host(g, False)))
    return Attr(g.choice(UNDECLARED), 'any', gen_text(g))


def near_attr(g, a):
    k = g.draw(6)
    if k == 0 and a.kind in ('dir', 'utf8', 'any'):
        names = {'dir': DIR_NAMES, 'utf8': UTF8_NAMES, 'any': UNDECLARED}[a.kind]
        return Attr(g.choice(names), a.kind, a.value)
    v = a.value
    if k < 3:
        if a.kind == 'bits':
            v = g.choice([v + b'\x00', v[:-1], v, bytes(x ^ 0x20 for x in v)])
        elif a.kind == 'host':
            v = near_host(g, v)
            if v.trail or v.lead:
                v = a.value
        elif a.kind == 'mail':
            v = (v[0] + 'x', v[1]) if g.draw(2) else v
        else:
            v = near_text(g, v)
    return Attr(a.name, a.kind, v)


def gen_name(g):
    return [[gen_attr(g) for _ in range(g.choice([1, 1, 1, 1, 2, 3]))] for _ in range(g.choice([1, 1, 2, 2, 3, 5, 0]))]


def near_name(g, n):
    n = [list(r) for r in n]
    k = g.draw(10)
    if not n or k < 3:
        return n
    i = g.draw(len(n))
    if k < 6:
        j = g.draw(len(n[i]))
        n[i][j] = near_attr(g, n[i][j])
    elif k == 6:
        n.reverse()
    elif k == 7:
        del n[i]
    elif k == 8:
        if len(n[i]) > 1:
            n[i:i + 1] = [n[i][:1], n[i][1:]]
        elif len(n) > 1:
            n[0:2] = [n[0] + n[1]]
    else:
        c = g.draw(3)
        if c == 0:
            # the same type twice in one relative name
            a = g.choice(n[i])
            n[i].append(Attr(a.name, a.kind, near_attr(g, a).value) if g.draw(2) else a)
        elif c == 1:
            del n[i][g.draw(len(n[i]))]
            if not n[i]:
                del n[i]
        else:
            n.insert(i, [gen_attr(g)])
    return n


def key(n):
    return [sorted(a.key for a in r) for r in n]


class Written:
    def __init__(self, g, n):
        self.n = n
        rdns = []
        self.flat = []
        for r in n:
            w = [(ref.seq(ref.oid(a.oid), b), a, v) for a in r for b, v in [a.write(g)]]
            if g.draw(2):
                w.sort(key=lambda x: x[0])
            else:
                w = g.perm(w)
            self.flat.append([(a, v) for _, a, v in w])
            rdns.append(ref.tlv(0, 1, 17, b''.join(x[0] for x in w)))
        self.der = ref.seq(*rdns)


def load(g, n):
    w = Written(g, n)
    o = x509.Name.load(w.der)
    g.log('name', w.der)
    return w, o


def shown(v, listed=False):
    return v if isinstance(v, str) else str(v)


def check_views(g, w, o):
    """native and readable form show the values, in order"""
    nat = OrderedDict()
    human = OrderedDict()
    last = None
    for r, orig in zip(w.flat, o.chosen):
        for (a, v), tv in zip(r, orig):
            if v is None:
                v = tv['value'].native
                g.true(isinstance(v, str), 'native of a value', got=v)
            nat.setdefault(a.name, []).append(v)
            h = HUMAN.get(a.name, a.name)
            human.setdefault(h, []).append(v)
            last = h
    want = OrderedDict((k, v[0] if len(v) == 1 else v) for k, v in nat.items())
    g.eq(o.native, want, 'native of a name')
    g.eq(list(o.native), list(want), 'order of the native of a name')
    keys = list(human)
    if last == 'Country':
        keys.reverse()
    parts = ['%s: %s' % (k, ', '.join(shown(x) for x in reversed(human[k]))) for k in keys]
    sep = '; ' if any(',' in p for p in parts) else ', '
    g.eq(o.human_friendly, sep.join(reversed(parts)), 'readable form')
    g.unit(2)


@check.prop(20000, 500000)
def compared(g):
    """equal exactly when the prepared attributes are, in order"""
    m = gen_name(g)
    n = near_name(g, m)
    p = near_name(g, n)
    trio = [(k,) + load(g, k) for k in (m, n, p)]
    for k, w, o in trio:
        if g.draw(4) == 0:
            check_views(g, w, o)
        if g.draw(4) == 0:
            o.hashable
    for (k1, w1, a), (k2, w2, b) in itertools.product(trio, trio):
        want = key(k1) == key(k2)
        g.eq(a == b, want, 'names are equal')
        g.eq(a != b, not want, 'names are unequal')
        g.eq(a.hashable == b.hashable, want, 'hashable forms are equal')
        g.eq(a.chosen == b.chosen, want, 'sequences of relative names are equal')
        g.eq(a.chosen != b.chosen, not want, 'sequences of relative names are unequal')
        g.eq(a.chosen.hashable == b.chosen.hashable, want, 'hashable forms of sequences of relative names are equal')
    k1, w1, a = trio[0]
    k2, w2, b = trio[1]
    if len(m) and len(n):
        i, j = g.draw(len(m)), g.draw(len(n))
        want = sorted(x.key for x in m[i]) == sorted(x.key for x in n[j])
        ra, rb = a.chosen[i], b.chosen[j]
        g.eq(ra == rb, want, 'relative names are equal')
        g.eq(ra != rb, not want, 'relative names are unequal')
        g.eq(ra.hashable == rb.hashable, want, 'hashable forms of relative names are equal')
        x, y = w1.flat[i][0][0], w2.flat[j][0][0]
        g.eq(ra[0] == rb[0], x.key == y.key, 'attributes are equal')
        g.eq(ra[0] != rb[0], x.key != y.key, 'attributes are unequal')
        for part in (a.chosen, ra, ra[0]):
            g.true(not part == a and part != a and not part == None and part != None and part != part.dump(), 'a part of a name equals a value of another type')  # noqa
    g.eq(x509.GeneralName(name='directory_name', value=a) == x509.GeneralName(name='directory_name', value=b), key(m) == key(n), 'general names are equal')
    for k, w, o in trio:
        g.eq(o.dump(), w.der, 'encoding after comparing')
        g.eq(o.sha1, hashlib.sha1(w.der).digest(), 'SHA-1')
        g.eq(o.sha256, hashlib.sha256(w.der).digest(), 'SHA-256')
        g.eq(len(o), len(k), 'length')
    g.true(type(a.hashable) is str and hash(a.hashable) is not None, 'hashable form', got=a.hashable)
    g.true(not a == None and not a == w1.der and not a == a.chosen and a != a.native, 'a name equals a value of another type')  # noqa
    g.unit(20)
    g.label('equal' if key(m) == key(n) else 'unequal')
    if any(m):
        g.nontrivial((w1.der, w2.der))
        g.sample('%s == %s: %s' % (w1.der.hex(), w2.der.hex(), key(m) == key(n)))


@check.prop(12000, 300000)
def build(g):
    """names from dictionaries"""
    d = OrderedDict()
    printable = g.draw(3) == 0
    chosen = OrderedDict()
    for _ in range(g.choice([1, 2, 3, 5, 8, 0])):
        a = gen_attr(g)
        if a.kind == 'any':
            continue
        chosen[a.name] = a
    rdns = []
    expect = []
    for name, a in chosen.items():
        k = a.oid if g.draw(4) == 0 else name
        if a.kind == 'bits':
            v = a.value
            b = ref.tlv(0, 0, 3, b'\x00' + v)
            n = v
            obj = core.OctetBitString
        elif a.kind == 'host':
            v, asc = a.value.text(g)
            b, n, obj = ref.tlv(0, 0, 22, asc.encode()), v, x509.DNSName
        elif a.kind == 'mail':
            t, asc = a.value[1].text(g)
            v = a.value[0] + '@' + t
            b, n, obj = ref.tlv(0, 0, 22, (a.value[0] + '@' + asc).encode()), v, x509.EmailAddress
        else:
            restricted = name in ('dn_qualifier', 'country_name', 'serial_number', 'telephone_number') or printable and a.kind == 'dir'
            t = gen_text(g, True) if restricted else a.value
            v = n = t.spell(g)
            b = ref.tlv(0, 0, 19 if restricted else 12, v.encode('utf-8'))
            obj = core.PrintableString if a.kind == 'tel' else core.UTF8String if a.kind == 'utf8' else None
            if obj is None and g.draw(4) == 0:
                # a ready value is taken as it is
                alt = g.choice(['utf8_string', 'bmp_string', 'universal_string'])
                if alt == 'bmp_string' and any(ord(c) > 0xffff for c in v):
                    alt = 'utf8_string'
                enc = {'utf8_string': (12, 'utf-8'), 'bmp_string': (30, 'utf-16-be'), 'universal_string': (28, 'utf-32-be')}[alt]
                b = ref.tlv(0, 0, enc[0], v.encode(enc[1]))
                v = x509.DirectoryString(name=alt, value=v)
        if obj is not None and g.draw(3) == 0:
            v = obj(v)
        d[k] = v
        expect.append((ORDER.index(name) if name in ORDER else len(ORDER), name, ref.seq(ref.oid(a.oid), b), n, a))
    expect.sort(key=lambda x: x[:2])
    g.log('dictionary', dict((k, v if not isinstance(v, core.Asn1Value) else v.native) for k, v in d.items()), 'printable', printable)
    o = x509.Name.build(d, use_printable=printable) if printable or g.draw(2) else x509.Name.build(d)
    der = ref.seq(*[ref.tlv(0, 1, 17, e[2]) for e in expect])
    g.eq(o.dump(), der, 'encoding of a built name')
    g.eq(list(o.native.items()), [(e[1], e[3]) for e in expect], 'native of a built name')
    l = x509.Name.load(der)
    g.true(l == o and o == l and l.hashable == o.hashable, 'a built name differs from its encoding')
    g.eq(l.dump(), der, 'encoding')
    if not any(e[4].kind in ('host', 'mail') for e in expect):
        g.eq(l.human_friendly, o.human_friendly, 'readable form')
        g.eq(l.native, o.native, 'native')
    g.eq(o.sha256, hashlib.sha256(der).digest(), 'SHA-256')
    g.unit(6)
    # what cannot be built
    bad = g.choice([({'1.2.3.4': 'x'}, ValueError), ({'nonsense': 'x'}, ValueError), ({'common_name': 5}, TypeError), ({'common_name': None}, TypeError),
                    ({'country_name': b'US'}, TypeError), ({'common_name': ['a', 'b']}, TypeError)])
    try:
        x509.Name.build(dict(d, **bad[0]))
    except bad[1]:
        pass
    except (ValueError, TypeError):
        pass
    else:
        g.fail('a dictionary that cannot be encoded was accepted', got=bad[0])
    if expect:
        g.nontrivial(der)
        g.sample(der.hex())


def one(v):
    return x509.Name.load(ref.seq(ref.tlv(0, 1, 17, ref.seq(ref.oid('2.5.4.3'), v))))


IN_3_2 = [i for i in range(0x20, 0x110000) if not 0xd800 <= i < 0xe000 and not stringprep.in_table_a1(chr(i))]
SKIPPED = set(''.join(NOTHING) + ''.join(SPACES))


@check.prop(12000, 400000)
def characters(g):
    """single characters, against Unicode's own case folding and normalisation"""
    c = chr(g.choice(IN_3_2))
    if c in SKIPPED or unicodedata.category(c) in ('Co', 'Cs', 'Cn', 'Cc', 'Cf', 'Zs', 'Zl', 'Zp') or c == '\ufffd':
        return
    if 0xfe00 <= ord(c) <= 0xfe0f or 0x180b <= ord(c) <= 0x180f or c == '\u034f':
        return
    fold = unicodedata.normalize('NFKC', unicodedata.normalize('NFKC', c.casefold()).casefold())
    rtl = unicodedata.bidirectional(c) in ('R', 'AL')
    fill = 'א' if rtl else 'z'
    other = chr(g.choice(IN_3_2[:3000]))
    g.log('character', '%04x' % ord(c))
    a = one(ref.utf8(fill + c + fill))
    b = one(ref.utf8(fill + fold + fill))
    n = one(ref.utf8(fill + fill))
    g.nontrivial(c)
    g.sample('U+%04X' % ord(c))
    if any(stringprep.in_table_a1(x) for x in fold):
        return
    try:
        same = a == b
        lost = a == n
    except ValueError:
        # a sequence that mixes directions
        g.true(rtl or any(unicodedata.bidirectional(x) in ('R', 'AL', 'L') for x in fold), 'a character was refused')
        return
    g.true(same, 'a character differs from its folded form', character=c, folded=fold)
    g.true(not lost, 'a character is ignored', character=c)
    g.eq(a.hashable, b.hashable, 'hashable forms')
    o = one(ref.utf8(fill + other + fill))
    ofold = unicodedata.normalize('NFKC', unicodedata.normalize('NFKC', other.casefold()).casefold())
    if ofold != fold and unicodedata.category(other)[0] not in 'CZ':
        try:
            g.true(a != o, 'different characters are equal', character=c, other=other)
        except ValueError:
            pass
    g.unit(3)


PROHIBITED = ['\u0378', '\ue000', '\ufffd', '\ufdd0', '\uffff', '\U0010fffe', '\U000f0000', '\u0221']


@check.prop(1500, 20000)
def prohibited(g):
    """characters that RFC 4518 prohibits never make two different names equal"""
    t = gen_text(g)
    s = t.spell(g)
    p = g.choice(PROHIBITED)
    i = g.draw(len(s) + 1)
    bad = s[:i] + p + s[i:]
    a, b = one(ref.utf8(s)), one(ref.utf8(bad))
    g.log('texts', s, bad)
    for x, y in ((a, b), (b, a)):
        try:
            g.true(not x == y, 'a name equals one with a prohibited character')
        except ValueError:
            pass
    g.eq(b.native, {'common_name': bad}, 'native')
    g.eq(b.dump(), one(ref.utf8(bad)).dump(), 'encoding')
    g.nontrivial(bad)
