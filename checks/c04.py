"""C04: scalar types against the reference encoder, in both directions."""
from lib.pbt import Check
from lib import ref, schema
from asn1crypto import core

check = Check('C04', rule=(
    'integers by log-uniform size up to 4096 bits with boundary bias at every power of two, booleans, octet strings, enumerations and '
    'named integers (declared tables and generated ones), widths; each built by constructor, by set() over an earlier value, and by '
    'decoding. Non-trivial: integer of at least 7 bits or negative, named value, fixed width; distinct by value.'))


def big(g):
    k = g.draw(6)
    if k == 0:
        return g.signed(9)
    if k == 1:
        b = 8 * (1 + g.draw(40))
        v = (1 << b) + g.draw(5) - 2
        v >>= g.draw(2)
        return -v if g.draw(2) else v
    if k == 2:
        return g.signed(4096)
    return g.signed(200)


def content_of(obj):
    return bytes(obj.contents)


def both_ways(g, cls, native, der, make=None, tagged=True):
    """construct -> DER, set() over something -> DER, load -> native"""
    obj = cls(native)
    g.eq(obj.dump(), der, 'dump() of constructed value', native=native)
    g.eq(obj.native, native, 'native of constructed value')
    t = ref.read(der)
    g.eq(content_of(obj), t.content, 'contents')
    back = cls.load(der)
    g.true(type(back) is cls, 'load() type', got=type(back))
    g.eq(back.native, native, 'native after load()', der=der)
    g.eq(back.dump(), der, 'dump() after load()')
    g.eq(back.dump(force=True), der, 'dump(force=True) after load()')
    g.eq(back.native, native, 'native after forced dump')
    g.true(obj == back, 'constructed and decoded values are equal')
    return back


@check.prop(60000, 1500000)
def integers(g):
    v = big(g)
    g.log('Integer', v)
    der = ref.integer(v)
    back = both_ways(g, core.Integer, v, der)
    g.eq(int(back), v, 'int()')
    w = big(g)
    back.set(w)
    g.eq(back.native, w, 'native after set()', before=v)
    g.eq(back.dump(), ref.integer(w), 'dump() after set()', before=v, value=w)
    g.eq(int(back), w, 'int() after set()')
    # an unspecified load picks the type from the tag
    x = core.load(der)
    g.true(type(x) is core.Integer, 'core.load() type')
    g.eq(x.native, v, 'core.load().native')
    if abs(v) > 63:
        g.nontrivial(v)
        g.sample('Integer(%d)' % v if abs(v) < 1 << 200 else 'Integer of %d bits' % v.bit_length())


@check.prop(20000, 400000)
def tagged_integers(g):
    """The same through implicit and explicit tagging"""
    v = big(g)
    tag = g.choice([0, 1, 5, 30, 31, 40, 127, 128, 1000])
    cls_name, cls_num = g.choice([('context', 2), ('application', 1), ('private', 3)])
    g.log('Integer', v, cls_name, tag)
    base = ref.integer(v)
    i = core.Integer(v, implicit=(cls_name, tag))
    want = ref.implicit(tag, base, cls_num)
    g.eq(i.dump(), want, 'implicit dump')
    g.eq(core.Integer.load(want, implicit=(cls_name, tag)).native, v, 'implicit load')
    e = core.Integer(v, explicit=(cls_name, tag))
    want = ref.explicit(tag, base, cls_num)
    g.eq(e.dump(), want, 'explicit dump')
    b = core.Integer.load(want, explicit=(cls_name, tag))
    g.eq(b.native, v, 'explicit load')
    w = big(g)
    b.set(w)
    g.eq(b.dump(), ref.explicit(tag, ref.integer(w), cls_num), 'explicit dump after set()')
    g.eq(b.native, w, 'native after set()')
    g.nontrivial((v, tag))


@check.prop(4000, 60000)
def booleans_and_null(g):
    v = bool(g.draw(2))
    g.log('Boolean', v)
    back = both_ways(g, core.Boolean, v, ref.boolean(v))
    g.eq(bool(back), v, 'bool()')
    back.set(not v)
    g.eq(back.native, not v, 'native after set')
    g.eq(bool(back), not v, 'bool() after set')
    g.eq(back.dump(), ref.boolean(not v), 'dump after set')
    truthy = g.choice([1, 'x', [0], 5, 0, '', [], b'', b'\x00'])
    b = core.Boolean(truthy)
    g.eq(b.native, bool(truthy), 'truth value')
    g.eq(b.dump(), ref.boolean(bool(truthy)), 'dump of truth value')
    octet = 1 + g.draw(255)
    g.eq(core.Boolean.load(bytes([1, 1, octet])).native, True, 'any non-zero octet is true')
    n = core.Null()
    g.eq(n.dump(), b'\x05\x00', 'Null dump')
    g.true(core.Null.load(b'\x05\x00').native is None, 'Null native')
    g.eq(core.Null.load(b'\x05\x00').dump(True), b'\x05\x00', 'Null forced dump')
    g.nontrivial((v, octet))


@check.prop(20000, 300000)
def octet_strings(g):
    v = g.bytes(0, 40) if g.draw(8) else g.nbytes(g.choice([126, 127, 128, 129, 255, 256, 257, 1000]))
    g.log('OctetString', v)
    back = both_ways(g, core.OctetString, v, ref.octets(v))
    g.eq(bytes(back), v, 'bytes()')
    w = g.bytes(0, 10)
    back.set(w)
    g.eq((back.native, bytes(back), back.dump()), (w, w, ref.octets(w)), 'after set()')
    p = core.ParsableOctetString(v)
    g.eq((p.native, bytes(p), p.dump()), (v, v, ref.octets(v)), 'ParsableOctetString')
    for cls in (core.ObjectDescriptor, core.Real, core.VideotexString):
        o = cls(v)
        der = ref.tlv(0, 0, cls.tag, v)
        g.eq(o.dump(), der, cls.__name__ + ' dump')
        g.eq(cls.load(der).dump(), der, cls.__name__ + ' reload')
    if len(v) > 1:
        g.nontrivial(v)


@check.prop(20000, 300000)
def integer_strings(g):
    v = abs(big(g))
    g.log('IntegerOctetString', v)
    need = max(1, (v.bit_length() + 7) // 8)
    raw = v.to_bytes(need, 'big')
    o = core.IntegerOctetString(v)
    g.eq(o.dump(), ref.octets(raw), 'IntegerOctetString dump')
    g.eq(o.native, v, 'native')
    pad = g.draw(4)
    enc = ref.octets(bytes(pad) + raw)
    b = core.IntegerOctetString.load(enc)
    g.eq(b.native, v, 'IntegerOctetString load')
    g.eq(b.dump(), enc, 'IntegerOctetString re-dump')
    width = need + g.draw(8)
    o.set_encoded_width(width)
    g.eq(o.dump(), ref.octets(v.to_bytes(width, 'big')), 'fixed width dump', width=width)
    g.eq(o.native, v, 'native at fixed width')
    w = abs(big(g)) % (1 << (8 * width))
    o.set(w)
    g.eq(o.dump(), ref.octets(w.to_bytes(width, 'big')), 'fixed width dump after set()', width=width, value=w)
    g.eq(o.dump(force=True), ref.octets(w.to_bytes(width, 'big')), 'forced fixed width dump', width=width, value=w)
    g.eq(o.native, w, 'native after set() at fixed width')
    g.eq(core.IntegerOctetString.load(o.dump()).native, w, 'reload at fixed width')
    o2 = core.IntegerOctetString()
    o2.set_encoded_width(width)
    o2.set(w)
    g.eq(o2.dump(), ref.octets(w.to_bytes(width, 'big')), 'width set before the value')
    over = (1 << (8 * width)) + abs(big(g))
    try:
        o.set(over)
    except (OverflowError, ValueError):
        pass
    else:
        g.fail('a value wider than the declared width was encoded', width=width, value=over, got=o.dump())
    s = core.IntegerBitString(v)
    g.eq(s.native, v, 'IntegerBitString native')
    enc = s.dump()
    t = ref.read(enc)
    g.eq((t.cls, t.cons, t.tag), (0, 0, 3), 'IntegerBitString identifier')
    g.eq(t.content[0], 0, 'IntegerBitString unused bits')
    g.eq(t.content[1:], ref.int_content(v), 'IntegerBitString contents')
    g.eq(core.IntegerBitString.load(enc).native, v, 'IntegerBitString reload')
    # any number of unused bits, and leading zero octets
    free = g.draw(8)
    wide = (v << free).to_bytes((v.bit_length() + free + 7) // 8 or 1, 'big')
    enc = ref.tlv(0, 0, 3, bytes([free] + [0] * pad) + wide)
    b = core.IntegerBitString.load(enc)
    g.eq(b.native, v, 'IntegerBitString load', unused=free)
    g.eq(b.dump(), enc, 'IntegerBitString re-dump')
    b.set(w)
    g.eq(b.native, w, 'IntegerBitString native after set()')
    g.eq(b.dump(), ref.tlv(0, 0, 3, b'\x00' + ref.int_content(w)), 'IntegerBitString dump after set()')
    g.nontrivial((v, width))


def named_cls(base, mapping):
    return type(str('N'), (base,), {'_map': dict(mapping)})


@check.prop(6000, 100000)
def generated_names(g):
    """Named integers and enumerations over generated tables"""
    n = 1 + g.draw(6)
    nums = []
    while len(nums) < n:
        v = g.signed(g.choice([4, 9, 40]))
        if v not in nums:
            nums.append(v)
    mapping = dict((k, 'name%d' % i) for i, k in enumerate(nums))
    g.log('table', mapping)
    I, E = named_cls(core.Integer, mapping), named_cls(core.Enumerated, mapping)
    for num, name in mapping.items():
        for cls, der in ((I, ref.integer(num)), (E, ref.enum(num))):
            for arg in (num, name):
                o = cls(arg)
                g.eq(o.dump(), der, 'dump of a named value', arg=arg)
                g.eq(o.native, name, 'native of a named value', arg=arg)
            b = cls.load(der)
            g.eq(b.native, name, 'native after load')
            g.eq(int(b), num, 'int() after load')
            g.eq(b.dump(True), der, 'forced dump')
    other = g.signed(50)
    if other not in mapping:
        o = I(other)
        g.eq((o.native, o.dump()), (other, ref.integer(other)), 'unnamed integer')
        g.eq(I.load(ref.integer(other)).native, other, 'unnamed integer load')
        try:
            r = E(other)
        except ValueError:
            pass
        else:
            g.fail('an undeclared enumeration value was accepted', value=other, got=r.dump())
        try:
            r = E.load(ref.enum(other)).native
        except ValueError:
            pass
        except Exception as e:
            g.fail('undeclared enumeration value: %s' % type(e).__name__, error=e)
        else:
            g.fail('an undeclared enumeration value was given a name', got=r)
    for cls in (I, E):
        try:
            cls('no such name')
        except ValueError:
            pass
        else:
            g.fail('an undeclared name was accepted')
    # a sequence of reassignments
    o, e = I(nums[0]), E(nums[0])
    for _ in range(g.draw(4)):
        num = g.choice(nums)
        arg = mapping[num] if g.draw(2) else num
        o.set(arg)
        e.set(arg)
        g.eq((o.native, int(o), o.dump()), (mapping[num], num, ref.integer(num)), 'after set()')
        g.eq((e.native, int(e), e.dump()), (mapping[num], num, ref.enum(num)), 'after set()')
    g.nontrivial(sorted(mapping.items()))


NAMED = [(path, kind, int(key), mapping[key]) for path, kind, mapping in schema.named('integer') + schema.named('enumerated')
         for key in sorted(mapping)]


@check.prop(len(NAMED), len(NAMED) * 2, shards=4)
def declared_names(g):
    """Every declared named integer and enumeration of the library, against the frozen tables"""
    path, kind, num, name = NAMED[g.enum(len(NAMED))]
    cls = schema.resolve(path)
    der = ref.integer(num) if kind == 'integer' else ref.enum(num)
    g.log(path, num, name)
    for arg in (num, name):
        g.eq(cls(arg).dump(), der, '%s(%r).dump()' % (path, arg))
        g.eq(cls(arg).native, name, '%s(%r).native' % (path, arg))
    g.eq(cls.load(der).native, name, '%s decoded' % path)
    g.eq(int(cls.load(der)), num, '%s decoded' % path)
    g.nontrivial((path, num))
