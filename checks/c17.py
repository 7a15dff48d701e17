"""C17: PEM armour, unarmour and detection."""
import base64
from collections import OrderedDict

from lib.pbt import Check
from asn1crypto import pem

check = Check('C17', rule=(
    'octet strings of 0-300 octets (lengths around every multiple of 48), type names over letters, digits, spaces and the punctuation of '
    'RFC 7468 labels, 0-4 RFC 1421 headers, 1-4 blocks with either marker style, any line ending and width, blank and padded lines, text '
    'around the blocks; truncated, damaged and markerless texts. Non-trivial: the text holds a block; distinct by text.'))

LABELS = ['CERTIFICATE', 'PRIVATE KEY', 'RSA PRIVATE KEY', 'X509 CRL', 'PKCS7', 'PKCS #7 SIGNED DATA', 'DH PARAMETERS', 'SSH2 PUBLIC KEY', 'A', '0',
          'CERTIFICATE REQUEST', 'TRUSTED CERTIFICATE', 'CMS', 'EC PRIVATE KEY', 'BEGIN', 'END', 'END CERTIFICATE']
WORD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
PUNCT = '#/+.,_()&\'"*<=>?@[]^`|~!$%:'


def label(g):
    k = g.draw(4)
    if k < 2:
        return g.choice(LABELS)
    words = []
    for _ in range(1 + g.draw(3)):
        words.append(''.join(g.choice(WORD + PUNCT if k == 3 else WORD) for _ in range(1 + g.draw(5))))
    return g.choice([' ', ' ', '-' if k == 3 else ' ']).join(words)


def data(g):
    k = g.draw(4)
    if k == 0:
        n = max(0, 48 * g.draw(5) + g.int(-2, 2))
        return g.nbytes(n)
    if k == 1:
        return g.bytes(0, 4)
    return g.bytes(0, 300)


NAMES = ['Proc-Type', 'DEK-Info', 'Comment', 'Content-Domain', 'X-Any', 'Subject', 'Key_ID', 'a', 'MIC-Info', 'localKeyID', 'Bag Attributes']
VALUES = ['4,ENCRYPTED', 'DES-EDE3-CBC,C0FFEE0123456789', '', 'x', 'a: b', ':', 'C=US; CN=a b', '"quoted"', '-----END', '-----BEGIN X-----', 'QUJD', '---- x',
          'key: value: more', '=', 'http://example.com:80/']


def headers(g):
    out = OrderedDict()
    for _ in range(g.choice([0, 0, 1, 2, 3, 4])):
        n = g.choice(NAMES) if g.draw(3) else ''.join(g.choice(WORD.lower() + '-') for _ in range(1 + g.draw(6)))
        if n.startswith('-----'):
            continue
        v = g.choice(VALUES) if g.draw(2) else ''.join(chr(33 + g.draw(94)) if g.draw(4) else ' ' for _ in range(g.draw(90))).strip()
        out[n] = v
    return out


def reference_armor(name, der, hdrs):
    lines = ['-----BEGIN %s-----' % name.upper()]
    if hdrs:
        lines += ['%s: %s' % kv for kv in hdrs.items()] + ['']
    b = base64.b64encode(der).decode()
    lines += [b[i:i + 64] for i in range(0, len(b), 64)]
    lines.append('-----END %s-----' % name.upper())
    return '\n'.join(lines).encode() + b'\n'


def some_case(g, name):
    return g.choice([name, name, name.lower(), name.title()]) if g.draw(2) else name


@check.prop(20000, 600000)
def roundtrip(g):
    """unarmouring what was armoured"""
    name, der, h = label(g), data(g), headers(g)
    arg = some_case(g, name)
    if arg.upper() != name:
        arg = name
    g.log('type', arg)
    g.log('headers', h)
    g.log('octets', der)
    if h:
        text = pem.armor(arg, der, h) if g.draw(2) else pem.armor(arg, der, headers=h)
    else:
        text = pem.armor(arg, der) if g.draw(2) else pem.armor(arg, der, headers=g.choice([None, {}]))
    g.true(isinstance(text, bytes), 'type of the text', got=type(text))
    g.true(all(len(l) <= 64 for l in text.split(b'\n')[1 + (len(h) + 1 if h else 0):] if not l.startswith(b'-----')), 'line of more than 64 characters', got=text)
    g.eq(text, reference_armor(arg, der, h), 'armoured text')
    got = pem.unarmor(text)
    g.true(isinstance(got, tuple) and len(got) == 3, 'shape of the result', got=got)
    g.eq(got, (name, dict(h), der), 'unarmoured')
    g.eq(list(got[1].items()), list(h.items()), 'order of the headers')
    g.true(type(got[0]) is str and type(got[2]) is bytes, 'types of the result', got=got)
    g.eq(list(pem.unarmor(text, multiple=True)), [(name, dict(h), der)], 'all blocks')
    g.true(pem.detect(text) is True, 'an armoured text is not detected')
    g.unit(5)
    g.nontrivial(text)
    g.label('headers' if h else 'no headers')
    g.sample(text.decode()[:300])


CLUTTER = ['Certificate:', '    Data:', '        Serial Number: 12 (0xc)', 'subject=/C=US/CN=a', '', ' ', '# comment', '-----', '---', 'BEGIN CERTIFICATE',
           'END CERTIFICATE', '-----END CERTIFICATE-----', ' -----BEGIN CERTIFICATE-----', 'x-----BEGIN CERTIFICATE-----', 'QUJDRA==', '=====', '----',
           '----- BEGIN', 'Bag Attributes: <No Attributes>', '-----END', '---- END X ----', '\t', 'a: b', ':', '-----BEGIN-----', '-----Begin X-----']


def clutter(g, eol):
    out = b''
    for _ in range(g.choice([0, 0, 1, 2, 5])):
        k = g.draw(5)
        if k == 0:
            s = bytes(x for x in g.bytes(0, 20) if x not in (10, 13))
            if b'BEGIN' in s:
                continue
        else:
            s = g.choice(CLUTTER).encode()
        out += s + eol
    return out


def block(g, eol):
    name, der, h = label(g), data(g), headers(g)
    blank = [b'', b'', b'', eol, eol + eol]
    style = g.draw(4)
    if style == 3:
        begin, end = '---- BEGIN %s ----' % name, '---- END %s ----' % name
    else:
        begin, end = '-----BEGIN %s-----' % name, '-----END %s-----' % name
    tail = g.choice([b'', b'', b' ', b'\t', b'  '])
    out = begin.encode() + tail + eol + g.choice(blank)
    for k, v in h.items():
        out += k.encode() + g.choice([b': ', b': ', b':', b':  ', b':\t']) + v.encode() + g.choice([b'', b'', b' ']) + eol
    if h:
        out += g.choice([eol, eol, b'', eol + eol])
    b = base64.b64encode(der)
    width = g.choice([64, 64, 76, 1, 4, 63, 65, 1000, 1 + g.draw(100)])
    pad = g.choice([b'', b'', b'', b' ', b'\t'])
    ind = g.choice([b'', b'', b'', b'', b' '])
    for i in range(0, len(b), width):
        out += ind + b[i:i + width] + pad + eol + (g.choice(blank) if g.draw(8) == 7 else b'')
    body_end = len(out)
    out += end.encode()
    return name, h, der, out, body_end


@check.prop(15000, 400000)
def surrounded(g):
    """blocks in any layout and surroundings"""
    eol = g.choice([b'\n', b'\r\n', b'\n', b'\r'])
    text = clutter(g, eol)
    want = []
    n = 1 + g.choice([0, 0, 1, 2, 3])
    for i in range(n):
        name, h, der, b, _ = block(g, eol)
        text += b
        if i < n - 1 or g.draw(3):
            text += g.choice([b'', b'', b' ', b'\t']) + eol
            text += clutter(g, eol)
        want.append((name, dict(h), der))
    g.log('text', text)
    got = pem.unarmor(text)
    g.eq(got, want[0], 'first block')
    got = list(pem.unarmor(text, True) if g.draw(2) else pem.unarmor(text, multiple=True))
    g.eq(got, want, 'all blocks')
    # blocks read before more are asked for stay as they were
    it = pem.unarmor(text, multiple=True)
    held = [next(it) for _ in want]
    g.eq(held, want, 'blocks read one at a time')
    g.true(next(it, None) is None, 'a block too many')
    g.true(pem.detect(text) is True, 'a text with a block is not detected')
    g.unit(4)
    g.nontrivial(text)
    g.label('%d blocks' % n)
    g.sample(text.decode('latin-1')[:300])


FRAG = [b'-', b'--', b'----', b'-----', b'BEGIN', b' BEGIN', b'BEGI', b' ', b'\n', b'-----BEGIN', b'---- BEGIN', b'----  BEGIN', b'----- BEGIN', b'-----END', b'x',
        b'-----Begin', b'\x00', b'---BEGIN', b'----BEGIN', b'---- begin', b'--- BEGIN', b'-----\nBEGIN']


@check.prop(20000, 400000)
def detect(g):
    """a text is detected exactly when it contains a begin marker"""
    text = b''.join(g.choice(FRAG) if g.draw(4) else g.bytes(0, 5) for _ in range(g.draw(7)))
    want = any(text[i:i + 10] in (b'-----BEGIN', b'---- BEGIN') for i in range(len(text)))
    g.log('text', text)
    g.true(pem.detect(text) is want, 'detected', got=pem.detect(text), want=want)
    if len(text) > 4:
        g.nontrivial(text)
        g.label(str(want))
        g.sample(text.hex())


@check.prop(15000, 300000)
def damaged(g):
    """text without a complete block, and damaged blocks"""
    eol = g.choice([b'\n', b'\r\n', b'\r'])
    kind = g.draw(5)
    g.label('kind %d' % kind)
    if kind == 0:
        text = clutter(g, eol)
    elif kind == 1:
        # ends before the end marker
        name, h, der, b, body_end = block(g, eol)
        text = clutter(g, eol) + b[:g.choice([body_end, g.draw(body_end + 1)])]
    elif kind == 2:
        # no begin marker
        name, h, der, b, _ = block(g, eol)
        at = b.index(b'BEGIN')
        text = clutter(g, eol) + g.choice([b[:at] + b'BEGUN' + b[at + 5:], b[1:], b[b.index(eol):], b' ' + b, b[:at + 5] + b[at + 6:]]) + eol
    elif kind == 3:
        # a character of base64 is missing
        name, der = label(g), data(g)
        if not der:
            return
        e = base64.b64encode(der)
        i = g.draw(len(e))
        text = reference_armor(name, der, {}).replace(b'\n', eol)
        e2 = e[:i] + e[i + 1:]
        if g.draw(4) == 0:
            e2 = e2.rstrip(b'=')[:-1] if len(e) % 64 else e2
        if len(e2.rstrip(b'=')) % 4 == 0 and len(e2) % 4 == 0 or not e2:
            return
        text = b'-----BEGIN X-----' + eol + e2 + eol + b'-----END X-----' + eol
        if len(e2) % 4 == 0:
            return
    else:
        name, h, der, b, body_end = block(g, eol)
        t = bytearray(clutter(g, eol) + b + eol)
        for _ in range(1 + g.draw(4)):
            i = g.draw(len(t))
            k = g.draw(3)
            if k == 0:
                t[i] = g.draw(256)
            elif k == 1:
                del t[i:i + 1 + g.draw(10)]
            else:
                t[i:i] = g.choice(FRAG)
            if not t:
                break
        text = bytes(t)
    g.log('text', text)
    for multiple in (False, True):
        try:
            got = pem.unarmor(text, multiple=multiple)
            if multiple:
                got = list(got)
        except ValueError:
            pass
        else:
            if kind < 4:
                g.fail('a text without a complete block was accepted', text=text, got=got, multiple=multiple)
            for t in got if multiple else [got]:
                g.true(isinstance(t, tuple) and len(t) == 3 and type(t[0]) is str and type(t[2]) is bytes, 'shape of the result', got=t)
    g.unit(2)
    g.nontrivial(text)
    g.sample(text.decode('latin-1')[:200])


WRONG = ['text', None, 5, bytearray(b'-----BEGIN'), [b'x'], ('a',), {}, 1.5]


@check.prop(300, 2000)
def wrong_types(g):
    w = g.choice(WRONG)
    g.log('value', w)

    def refuse(f, *a):
        try:
            r = f(*a)
        except TypeError:
            return
        g.fail('accepted', got=r)
    refuse(pem.detect, w)
    refuse(pem.unarmor, w)
    refuse(lambda: list(pem.unarmor(w, multiple=True)))
    refuse(pem.armor, 'CERTIFICATE', w)
    if not isinstance(w, str):
        refuse(pem.armor, w, b'x')
    refuse(pem.armor, b'CERTIFICATE', b'x')
    g.unit(6)
    g.nontrivial(repr(w))
