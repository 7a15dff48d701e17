"""C01: parser.parse / peek against a reference BER reader."""
from lib.pbt import Check
from lib import ref
from asn1crypto import parser

check = Check('C01', rule=(
    'byte strings: trees of BER values (short/long tags, short/long/indefinite lengths, nested), then left as they are, '
    'truncated at any point, extended, or with octets replaced; plus random octets. Non-trivial: the reference reads a '
    'value with a long tag, long or indefinite length, or rejects the input; distinct by input octets.'),
    assumptions=['The documented indefinite nesting limit is 10: up to 10 nested indefinite values must be accepted, 12 or more '
                 'refused, 11 is left open.'])


def gen_tag(g):
    k = g.draw(6)
    if k < 3:
        return g.draw(31)
    if k == 3:
        return g.choice([30, 31, 127, 128, 16383, 16384])
    if k == 4:
        return 31 + g.draw(300)
    return 31 + g.nat(70)


def gen_value(g, depth, indef_depth):
    cls, tag = g.draw(4), gen_tag(g)
    kind = g.draw(8)
    cons = 0
    if depth > 0 and kind >= 3:
        cons = 1
        parts = [gen_value(g, depth - 1, indef_depth + 1) for _ in range(g.draw(4))]
        content = b''.join(parts)
        if kind >= 5:
            # an end-of-contents marker must not appear as a child
            if not any(p[:2] == b'\x00\x00' for p in parts):
                g.label('indefinite')
                return ref.ident(cls, 1, tag) + b'\x80' + content + b'\x00\x00'
    else:
        if g.draw(12) == 11:
            content = g.nbytes(g.choice([126, 127, 128, 129, 255, 256, 257, 300, 65535, 65536]))
        else:
            content = g.bytes(0, 12)
        cons = 1 if g.draw(9) == 8 else 0
    head = ref.ident(cls, cons, tag)
    if g.draw(4) == 3:
        return head + ref.long_length(len(content), g.draw(4)) + content
    return head + ref.length(len(content)) + content


def reference(data, limit):
    try:
        return ref.read(data, 0, limit)
    except ref.RefError as e:
        return e


def compare(g, data):
    g.log('input', data)
    lo = reference(data, 10)
    hi = reference(data, 11)
    try:
        info = parser.parse(data)
    except ValueError as e:
        info = e
    try:
        plen = parser.peek(data)
    except ValueError as e:
        plen = e
    try:
        sinfo = parser.parse(data, strict=True)
    except ValueError as e:
        sinfo = e
    g.unit(3)
    open_case = isinstance(lo, ref.TooDeep) and not isinstance(hi, ref.TooDeep)
    if open_case:
        g.label('limit')
        return
    if isinstance(lo, ref.RefError):
        g.label('reject:' + str(lo))
        g.true(isinstance(info, ValueError), 'parse accepted malformed input: %s' % lo, got=info)
        g.true(isinstance(plen, ValueError), 'peek accepted malformed input: %s' % lo, got=plen)
        g.true(isinstance(sinfo, ValueError), 'strict parse accepted malformed input: %s' % lo, got=sinfo)
        g.nontrivial(data)
        return
    g.label('accept')
    g.true(not isinstance(info, ValueError), 'parse rejected a well-formed value', error=info)
    want = (lo.cls, lo.cons, lo.tag, lo.header, lo.content, lo.trailer)
    g.eq(tuple(info), want, 'parse() result')
    g.eq(info[3] + info[4] + info[5], data[:lo.end], 'header+contents+trailer is a prefix of the input')
    g.eq(plen, lo.end, 'peek()')
    if lo.end == len(data):
        g.eq(sinfo, info, 'strict parse without trailing data')
    else:
        g.label('trailing')
        g.true(isinstance(sinfo, ValueError), 'strict parse accepted trailing data', got=sinfo)
    if lo.trailer or lo.tag > 30 or lo.header[-1] != len(lo.content):
        g.nontrivial(data)
    g.sample(data.hex())


@check.prop(60000, 2000000)
def structured(g):
    data = gen_value(g, g.draw(5), 0)
    if g.draw(3) == 2:
        data += g.bytes(0, 6)
    compare(g, data)


@check.prop(60000, 2000000)
def damaged(g):
    data = gen_value(g, g.draw(4), 0)
    if len(data) > 400:
        data = data[:400]
    k = g.draw(5)
    if k == 0:
        data = data[:g.draw(len(data) + 1)]
    elif k == 1:
        i = g.draw(len(data))
        data = data[:i] + bytes([g.draw(256)]) + data[i + 1:]
    elif k == 2:
        i = g.draw(len(data))
        data = data[:i] + data[i + 1 + g.draw(3):]
    elif k == 3:
        i = g.draw(len(data) + 1)
        data = data[:i] + g.choice([b'\x00\x00', b'\x80', b'\x24\x80', b'\x00', b'\x81', b'\x1f\x80', b'\x3f\x1e']) + data[i:]
    else:
        i = g.draw(len(data))
        data = data[:i] + bytes([g.choice([0x80, 0x00, 0x81, 0x84, 0xff, 0x1f, 0x3f])]) + data[i + 1:]
    compare(g, data)


@check.prop(40000, 1000000)
def octets(g):
    n = g.draw(9)
    data = bytes(bytearray(g.choice([0, 0, 0x80, 0x1f, 0x3f, 0x30, 0x24, 1, 2, 3, 0x81, 0x82, 0x84, 0xff, 0x7f, 0x9f, 0xbf])
                           if g.draw(3) else g.draw(256) for _ in range(n)))
    compare(g, data)


@check.prop(4000, 40000)
def nesting(g):
    """Chains of indefinite values around the limit, with definite levels mixed in"""
    depth = g.int(1, 14)
    inner = g.choice([b'', b'\x05\x00', b'\x04\x03abc', b'\x30\x80\x00\x00', b'\x30\x04\x30\x80\x00\x00'])
    data = inner
    for _ in range(depth):
        k = g.draw(5)
        if k == 4:
            data = ref.tlv(g.draw(4), 1, g.draw(31), data)
        else:
            sib = g.choice([b'', b'\x05\x00', b'\x02\x01\x00', b'\x04\x02\x00\x00'])
            data = ref.ident(g.choice([0, 0, 1, 2, 3]), 1, g.choice([16, 17, 4, 3, 0, 40])) + b'\x80' + sib + data + b'\x00\x00'
    compare(g, data)
    if g.draw(2):
        compare(g, data[:g.draw(len(data))])


@check.prop(300, 1000)
def types(g):
    """Only byte strings are accepted"""
    v = g.choice(['abc', '', None, 5, [48, 0], bytearray(b'0\x00'), memoryview(b'0\x00'), 1.5, {}])
    g.log('value', v)
    for fn in (parser.parse, parser.peek):
        try:
            r = fn(v)
        except TypeError:
            g.nontrivial((fn.__name__, repr(v)[:20]))
            continue
        g.fail('%s accepted a value that is not a byte string' % fn.__name__, got=r)


@check.prop(400, 4000)
def large(g):
    """Lengths that need two, three and four octets, complete and truncated"""
    n = g.choice([255, 256, 65535, 65536, 65537, 70000, 16777215 + g.draw(3)]) if g.draw(40) == 39 else g.choice([255, 256, 65535, 65536])
    body = bytes(n)
    data = ref.ident(g.draw(4), 0, gen_tag(g)) + ref.length(n) + body
    r = g.draw(3)
    if r == 1:
        data = data[:-1]
    elif r == 2:
        data += b'\x00'
    lo = reference(data, 10)
    g.log('header', data[:12], 'length', len(data))
    try:
        info = parser.parse(data)
    except ValueError as e:
        info = e
    if isinstance(lo, ref.RefError):
        g.true(isinstance(info, ValueError), 'parse accepted truncated data')
    else:
        g.true(not isinstance(info, ValueError), 'parse rejected well-formed value', err=info)
        g.true(tuple(info) == (lo.cls, lo.cons, lo.tag, lo.header, lo.content, lo.trailer), 'parse() result differs')
        g.eq(parser.peek(data), lo.end, 'peek')
    g.nontrivial((data[:12], len(data)))
