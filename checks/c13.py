"""C13: bit strings against a plain list-of-bits / set-of-indexes model."""
import copy
import random

from lib.pbt import Check
from lib import ref, schema
from asn1crypto import core, keys

check = Check('C13', rule=(
    'bit lists of 0-200 bits (boundary lengths around octet multiples), generated name tables with gaps and every declared one, padding '
    'bits of any value, segmented spellings, and histories of set/assign/read/encode/reload/copy steps against a list or set model. '
    'Non-trivial: length not a multiple of 8, a bit without a name, a segmented spelling, or a history with two or more edits; distinct '
    'by bits or history.'))

_classes = {}


def named_class(g):
    """(class, {index: name}, size)"""
    if g.draw(4) == 3:
        tables = schema.named('bitstring')
        path, _, m = g.choice(tables)
        m = dict((int(k), v) for k, v in m.items())
        return schema.resolve(path), m, max(m) + 1
    seed = g.draw(300)
    if seed not in _classes:
        r = random.Random(seed)
        n = r.choice([1, 2, 3, 7, 8, 9, 12, 16, 17, 31])
        idx = sorted(r.sample(range(n + r.choice([0, 0, 3, 9])), n))
        m = dict((i, 'bit_%d' % i) for i in idx)
        _classes[seed] = (type('Named%d' % seed, (core.BitString,), {'_map': m}), m, max(m) + 1)
    return _classes[seed]


def gen_bits(g, hi=200):
    k = g.draw(4)
    if k == 0:
        n = g.draw(10)
    elif k == 1:
        n = max(0, 8 * g.draw(6) + g.draw(3) - 1)
    else:
        n = g.draw(hi)
    style = g.draw(4)
    if style == 0:
        return tuple(g.draw(2) for _ in range(n))
    if style == 1:
        return (0,) * n
    if style == 2:
        return (1,) * n
    # sparse
    bits = [0] * n
    for _ in range(g.draw(3)):
        if n:
            bits[g.draw(n)] = 1
    return tuple(bits)


def native_of(m, idx):
    return set(m.get(i, i) for i in idx)


def trim(bits):
    bits = list(bits)
    while bits and not bits[-1]:
        bits.pop()
    return tuple(bits)


def idx_of(bits):
    return set(i for i, b in enumerate(bits) if b)


def bits_der(bits):
    return ref.tlv(0, 0, 3, ref.bits_content(bits))


@check.prop(20000, 500000)
def unnamed(g):
    bits = gen_bits(g)
    g.log('bits', bits)
    der = bits_der(bits)
    b = core.BitString(bits)
    g.eq(b.dump(), der, 'dump()')
    g.eq(b.native, bits, 'native')
    for x in (core.BitString.load(der), core.load(der), core.BitString.load(der).copy()):
        g.true(type(x) is core.BitString, 'type')
        order = g.draw(3)
        if order == 0:
            g.eq(x.unused_bits, (0,) * (-len(bits) % 8), 'unused_bits')
        g.eq(x.native, bits, 'native after load')
        if order == 1:
            g.eq(x.unused_bits, (0,) * (-len(bits) % 8), 'unused_bits')
        for i in range(0, len(bits) + 10, 1 if len(bits) < 20 else 7):
            g.true(x[i] is bool(i < len(bits) and bits[i]), 'bit by index', index=i, got=x[i])
        g.eq(x.dump(), der, 'dump after load')
        g.eq(x.dump(force=True), der, 'forced dump')
        g.eq(x.native, bits, 'native after forced dump')
    # the octet and integer views of the same encoding
    o = core.OctetBitString.load(der)
    body = ref.bits_content(bits)[1:]
    g.eq(o.native, body, 'octet view')
    g.eq(bytes(o), body, 'bytes of the octet view')
    g.eq(o.unused_bits, (0,) * (-len(bits) % 8), 'unused bits of the octet view')
    v = 0
    for x in bits:
        v = 2 * v + x
    i = core.IntegerBitString.load(der)
    if g.draw(2):
        g.eq(i.unused_bits, (0,) * (-len(bits) % 8), 'unused bits of the integer view')
    g.eq(i.native, v, 'integer view')
    g.eq(i.unused_bits, (0,) * (-len(bits) % 8), 'unused bits of the integer view')
    for x in (o, i):
        g.eq(x.dump(), der, 'dump of a view', view=type(x).__name__)
        g.eq(x.dump(force=True), der, 'forced dump of a view', view=type(x).__name__)
        c = x.copy()
        g.eq(c.native, x.native, 'native of a copy of a view')
        g.eq(c.dump(), der, 'dump of a copy of a view')
    # casts between the views keep the octets
    for cls in (core.OctetBitString, core.IntegerBitString, core.BitString, core.ParsableOctetBitString):
        c = core.BitString.load(der).cast(cls)
        g.eq(c.dump(), der, 'dump after cast', cls=cls.__name__)
        if cls is not core.ParsableOctetBitString or not len(bits) % 8:
            want = {core.OctetBitString: body, core.IntegerBitString: v, core.BitString: bits,
                    core.ParsableOctetBitString: body}[cls]
            g.eq(c.native, want, 'native after cast', cls=cls.__name__)
    if len(bits) % 8:
        g.nontrivial(bits)
        g.sample('bits %s' % ''.join(map(str, bits)))


@check.prop(12000, 250000)
def octet_and_integer(g):
    """setting octets and integers"""
    v = g.bytes(0, 40)
    der = ref.tlv(0, 0, 3, b'\x00' + v)
    g.log('octets', v)
    for cls in (core.OctetBitString, core.ParsableOctetBitString):
        o = cls(v)
        g.eq(o.dump(), der, 'dump', cls=cls.__name__)
        g.eq(o.native, v, 'native', cls=cls.__name__)
        o = cls.load(der)
        if g.draw(2):
            g.eq(o.native, v, 'native after load', cls=cls.__name__)
        g.eq(bytes(o), v, 'bytes after load', cls=cls.__name__)
        w = g.bytes(0, 20)
        o.set(w)
        g.eq((o.native, bytes(o)), (w, w), 'native after set', cls=cls.__name__)
        g.eq(o.dump(), ref.tlv(0, 0, 3, b'\x00' + w), 'dump after set', cls=cls.__name__)
    # setting octets drops an earlier padding
    o = core.OctetBitString.load(ref.tlv(0, 0, 3, b'\x03\xf8'))
    o.native
    o.set(v)
    g.eq((o.native, o.unused_bits), (v, ()), 'unused bits after set')
    n = g.nat(300)
    i = core.IntegerBitString(n)
    g.eq(i.native, n, 'integer native')
    t = ref.read(i.dump())
    g.true((t.cls, t.cons, t.tag) == (0, 0, 3) and t.content[:1] == b'\x00', 'integer bit string header', der=i.dump())
    g.eq(int.from_bytes(t.content[1:], 'big'), n, 'integer bit string octets')
    g.eq(core.IntegerBitString.load(i.dump()).native, n, 'integer bit string after load')
    i = core.IntegerBitString.load(ref.tlv(0, 0, 3, b'\x03\xf8'))
    i.native
    i.set(n)
    g.eq((i.native, i.unused_bits), (n, ()), 'integer bit string after set')
    g.nontrivial((v, n))


@check.prop(20000, 500000)
def named(g):
    cls, m, size = named_class(g)
    idx = set(i for i in range(size) if g.draw(2)) if g.draw(4) else set()
    if g.draw(3) == 2:
        idx = set(i for i in idx if g.draw(3) == 2)
    g.log('class', m, 'indexes', sorted(idx))
    bits = tuple(1 if i in idx else 0 for i in range(size))
    native = native_of(m, idx)
    der = ref.named_bits(idx)
    ways = [cls(bits), cls(set(native)), cls.load(der), cls.load(bits_der(bits)), cls(trim(bits))]
    for k, x in enumerate(ways):
        order = g.draw(2)
        if order:
            g.eq(x.native, native, 'native', way=k)
        if k != 3:
            g.eq(x.dump(), der, 'dump', way=k)
        else:
            g.eq(x.dump(), bits_der(bits), 'dump of an unmodified value', way=k)
        g.eq(x.native, native, 'native', way=k)
        for i in range(size + 3):
            g.true(x[i] is (i in idx), 'bit by index', index=i, got=x[i])
            if i in m:
                g.true(x[m[i]] is (i in idx), 'bit by name', index=i, got=x[m[i]])
        g.eq(x.dump(force=True), der, 'forced dump', way=k)
        g.eq(x.native, native, 'native after forced dump', way=k)
        c = x.copy()
        g.eq((c.native, c.dump()), (native, der), 'copy')
        for unknown in ('no such bit', ''):
            for read in (lambda: x[unknown], lambda: c.__setitem__(unknown, True), lambda: cls({unknown})):
                try:
                    got = read()
                except ValueError:
                    continue
                g.fail('a name the class does not declare was accepted', name=unknown, got=got)
        g.eq((c.native, c.dump()), (native, der), 'copy after a refused name')
        if size not in idx:
            # a copy's set must be its own
            c[m[max(m)]] = not x[m[max(m)]]
            g.eq(x.native, native, 'original after an edit of the copy')
    extra = size + g.draw(20)
    x = cls.load(bits_der(bits + (0,) * (extra - size) + (1,)))
    want = native_of(m, idx) | {extra}
    g.eq(x.native, want, 'a bit beyond the declared ones')
    g.true(x[extra] is True, 'index beyond the declared ones')
    g.eq(x.dump(True), ref.named_bits(idx | {extra}), 'forced dump with a bit beyond the declared ones')
    if any(i not in m for i in idx) or (idx and (max(idx) + 1) % 8):
        g.nontrivial((sorted(m.items()), sorted(idx)))
        g.sample('%s with bits %s set' % (cls.__name__, sorted(idx)))


@check.prop(12000, 250000)
def spellings(g):
    """padding bits of any value, and segmented forms"""
    bits = gen_bits(g, 90)
    pad = -len(bits) % 8
    content = bytearray(ref.bits_content(bits))
    padbits = 0
    if pad and len(content) > 1:
        padbits = g.draw(1 << pad)
        content[-1] |= padbits
    content = bytes(content)
    node = ref.Node(0, 3, 'bits', content, seg_tag=3)
    sp = ref.Ber(g, rate=2)
    ber = sp.spell(node)
    g.log('bits', bits, 'encoding', ber)
    body = ref.bits_content(bits)[1:]
    v = 0
    for x in bits:
        v = 2 * v + x
    ub = tuple((padbits >> (pad - 1 - k)) & 1 for k in range(pad))
    for cls, want in ((core.BitString, bits), (core.OctetBitString, body), (core.IntegerBitString, v)):
        for mode in range(2):
            x = cls.load(ber)
            if mode:
                x = x.copy()
            c = x
            g.eq(c.native, want, 'native', cls=cls.__name__, copied=bool(mode))
            if not mode:
                g.eq(c.unused_bits, ub, 'unused bits', cls=cls.__name__)
                if not sp.used.get('segment'):
                    g.eq(c.dump(), ber, 'dump of an unmodified value')
            g.eq(c.dump(force=True), bits_der(bits), 'forced dump', cls=cls.__name__, copied=bool(mode))
            g.eq(c.native, want, 'native after forced dump', cls=cls.__name__)
    x = core.load(ber)
    g.eq(x.native, bits, 'native of an untyped load')
    cls, m, size = named_class(g)
    x = cls.load(ber)
    g.eq(x.native, native_of(m, idx_of(bits)), 'native as a named bit list')
    g.eq(x.dump(force=True), ref.named_bits(idx_of(bits)), 'forced dump as a named bit list')
    if not pad:
        x = core.ParsableOctetBitString.load(ber)
        g.eq(bytes(x), body, 'parsable bit string octets')
        g.eq(x.dump(force=True), bits_der(bits), 'parsable bit string forced dump')
    if sp.used.get('segment') or padbits:
        g.nontrivial(ber)
        g.sample(ber.hex())


@check.prop(3000, 40000)
def bad_padding(g):
    """unused-bit counts that cannot be: refused, never misread"""
    n = g.draw(4)
    pad = g.choice([8, 9, 127, 255, 1, 7])
    body = g.nbytes(n) if pad > 7 else b''
    der = ref.tlv(0, 0, 3, bytes([pad]) + body)
    g.log('encoding', der)
    for cls in (core.BitString, core.OctetBitString, core.IntegerBitString):
        try:
            x = cls.load(der).native
        except ValueError:
            continue
        g.fail('an impossible unused-bit count was accepted', cls=cls.__name__, native=x)
    # a segment other than the last with unused bits
    seg = ref.tlv(0, 0, 3, bytes([1 + g.draw(7), g.draw(256)]))
    tail = ref.tlv(0, 0, 3, bytes([0]) + g.nbytes(1 + g.draw(2)))
    der = b'\x23\x80' + seg + tail + b'\x00\x00'
    for cls in (core.BitString, core.OctetBitString, core.IntegerBitString):
        try:
            x = cls.load(der).native
        except ValueError:
            continue
        g.fail('unused bits in a segment that is not the last were accepted', cls=cls.__name__, native=x, der=der)
    g.nontrivial(der)


@check.prop(15000, 400000)
def history(g):
    isnamed = g.draw(2)
    if isnamed:
        cls, m, size = named_class(g)
    else:
        cls, m, size = core.BitString, None, None
    model = ()

    def current():
        return native_of(m, idx_of(model)) if isnamed else model

    def encoding():
        return ref.named_bits(idx_of(model)) if isnamed else bits_der(model)

    def padto(n):
        return list(model) + [0] * (n - len(model))

    obj = cls(()) if g.draw(2) else cls()
    if obj.contents is None:
        obj.set(set() if isnamed else ())
    edits = 0
    held = None
    others = []

    def check_dump(got, what):
        # a segmented value keeps its spelling until it is edited
        if got != held:
            g.eq(got, encoding(), what)

    for _ in range(g.uint(1, 14)):
        op = g.choice(['setitem', 'setitem', 'name', 'tuple', 'set', 'read', 'dump', 'force', 'reload', 'copy', 'get', 'segload'])
        if op == 'setitem':
            i = g.draw(size + 6 if isnamed else len(model) + 12)
            v = g.choice([True, False, 1, 0])
            g.log('obj[%d] = %r' % (i, v))
            obj[i] = v
            new = padto(i + 1)
            new[i] = 1 if v else 0
            model = tuple(new)
            edits += 1
        elif op == 'name':
            if not isnamed:
                continue
            i = g.choice(sorted(m))
            v = bool(g.draw(2))
            g.log('obj[%r] = %r' % (m[i], v))
            obj[m[i]] = v
            new = padto(i + 1)
            new[i] = 1 if v else 0
            model = tuple(new)
            edits += 1
        elif op == 'tuple':
            bits = gen_bits(g, 40)
            if isnamed:
                bits = bits[:size]
            g.log('set(%r)' % (bits,))
            obj.set(bits)
            model = bits
            edits += 1
        elif op == 'set':
            if not isnamed:
                continue
            idx = set(i for i in sorted(m) if g.draw(2))
            names = set(m[i] for i in idx)
            g.log('set(%r)' % sorted(names))
            obj.set(names)
            model = tuple(1 if i in idx else 0 for i in range(size))
            edits += 1
        elif op == 'read':
            g.log('native')
            g.eq(obj.native, current(), 'native')
        elif op == 'get':
            i = g.draw(len(model) + 5)
            g.log('obj[%d]' % i)
            g.true(obj[i] is bool(i < len(model) and model[i]), 'bit by index', index=i, got=obj[i])
        elif op == 'dump':
            g.log('dump()')
            check_dump(obj.dump(), 'dump')
        elif op == 'force':
            g.log('dump(force=True)')
            g.eq(obj.dump(force=True), encoding(), 'forced dump')
            held = None
        elif op == 'reload':
            g.log('reload')
            obj = cls.load(obj.dump())
        elif op == 'copy':
            g.log('copy')
            others.append((obj, current(), encoding()))
            obj = copy.copy(obj) if g.draw(2) and not isnamed else obj.copy()
        elif op == 'segload':
            bits = gen_bits(g, 40)
            b = ref.Ber(g, rate=1, longlen=False, indefinite=False).spell(ref.Node(0, 3, 'bits', ref.bits_content(bits), seg_tag=3))
            g.log('load', b)
            obj = cls.load(b)
            if g.draw(2):
                g.eq(obj.native, native_of(m, idx_of(bits)) if isnamed else bits, 'native of a segmented value')
            model = bits
            held = b
            edits += 1
        if op in ('setitem', 'name', 'tuple', 'set'):
            held = None
    g.eq(obj.native, current(), 'native at the end')
    for o, n, e in others:
        g.eq(o.native, n, 'a value that was copied earlier changed')
        g.eq(o.dump(True), e, 'encoding of a value that was copied earlier')
    check_dump(obj.dump(), 'dump at the end')
    if edits > 1:
        g.nontrivial(tuple(g.trace))
        g.sample('; '.join(g.trace))


@check.prop(3000, 30000)
def key_usage(g):
    """the declared tables: every name is the bit its standard assigns"""
    tables = schema.named('bitstring')
    path, _, m = tables[g.enum(len(tables))]
    cls = schema.resolve(path)
    g.log(path)
    for k, name in m.items():
        k = int(k)
        der = ref.named_bits({k})
        g.eq(cls({name}).dump(), der, 'encoding of a single name', name=name)
        x = cls.load(der)
        g.eq(x.native, {name}, 'native of a single bit', bit=k)
        g.true(x[name] is True and x[k] is True, 'reading the bit', bit=k)
    g.nontrivial(path)
