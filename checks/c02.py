"""C02: parser.emit against the reference writer and the reader."""
from lib.pbt import Check
from lib import ref
from asn1crypto import parser

check = Check('C02', rule=(
    'class 0-3, method 0-1, tags by log-uniform size up to 2^100 and around every 7-bit boundary, contents lengths around every '
    'length-form boundary; wrong types and out-of-range numbers. Non-trivial: tag >= 31 or contents >= 128 octets or a refused '
    'argument; distinct by arguments.'))


def gen_tag(g):
    k = g.draw(5)
    if k < 2:
        return g.draw(40)
    if k == 2:
        e = 7 * (1 + g.draw(12))
        return max(0, (1 << e) + g.draw(5) - 2)
    return g.nat(100)


def verify(g, cls, method, tag, content):
    got = parser.emit(cls, method, tag, content)
    want = ref.ident(cls, method, tag) + ref.length(len(content)) + content
    g.true(type(got) is bytes, 'emit() must return bytes', got=type(got))
    g.unit()
    if got != want:
        g.fail('emit() is not the DER encoding', got=got[:60], want=want[:60])
    info = parser.parse(got, strict=True)
    g.eq((info[0], info[1], info[2]), (cls, method, tag), 'parse(emit()) identifier')
    g.true(info[4] == content, 'parse(emit()) contents differ')
    g.eq(info[5], b'', 'parse(emit()) trailer')
    g.eq(parser.peek(got), len(got), 'peek(emit())')


@check.prop(60000, 2000000)
def roundtrip(g):
    cls, method, tag = g.draw(4), g.draw(2), gen_tag(g)
    k = g.draw(8)
    if k < 5:
        content = g.bytes(0, 20)
    elif k < 7:
        content = g.nbytes(g.choice([126, 127, 128, 129, 254, 255, 256, 257, 1000]))
    else:
        content = g.nbytes(g.uint(0, 700))
    g.log('emit', cls, method, tag, len(content), content[:40])
    verify(g, cls, method, tag, content)
    if tag >= 31 or len(content) >= 128:
        g.nontrivial((cls, method, tag, len(content)))
        g.sample('emit(%d, %d, %d, %d octets)' % (cls, method, tag, len(content)))


@check.prop(300, 3000)
def lengths(g):
    n = g.choice([65534, 65535, 65536, 65537, 100000]) if g.draw(12) != 11 else (1 << 24) + g.draw(5) - 2
    fill = g.draw(256)
    g.log('length', n)
    verify(g, g.draw(4), g.draw(2), gen_tag(g), bytes([fill]) * n)
    g.nontrivial((n, fill))


@check.prop(6000, 60000)
def refused(g):
    good = [g.draw(4), g.draw(2), gen_tag(g), g.bytes(0, 4)]
    bad = list(good)
    i = g.draw(4)
    wrong_type = [None, '1', 1.0, b'\x01', [1], (1,)]
    exc = TypeError
    if i == 3:
        bad[3] = g.choice([None, 'abc', 5, bytearray(b'a'), [1], ('a',)])
    elif g.draw(2):
        bad[i] = g.choice(wrong_type)
    else:
        exc = ValueError
        if i == 0:
            bad[0] = g.choice([-1, 4, 5, -100, 64, 255, 1 << 70])
        elif i == 1:
            bad[1] = g.choice([-1, 2, 32, 255, -2, 1 << 70])
        else:
            bad[2] = -1 - g.nat(40)
    g.log('emit', *bad)
    try:
        r = parser.emit(*bad)
    except exc:
        g.nontrivial(bad)
        g.unit()
    except Exception as e:
        g.fail('emit() raised %s instead of %s' % (type(e).__name__, exc.__name__), error=e)
    else:
        g.fail('emit() accepted an invalid argument', got=r)
    verify(g, *good)
