"""Independent reference BER/DER codec, written from X.690 (no asn1crypto code)."""
import random


class RefError(Exception):
    pass


# ---------------------------------------------------------------- writing

def ident(cls, cons, tag):
    first = (cls << 6) | (0x20 if cons else 0)
    if tag < 31:
        return bytes([first | tag])
    groups = []
    while True:
        groups.append(tag % 128)
        tag //= 128
        if tag == 0:
            break
    groups.reverse()
    return bytes([first | 31] + [g | 0x80 for g in groups[:-1]] + [groups[-1]])


def length(n):
    if n < 128:
        return bytes([n])
    body = []
    while n:
        body.append(n % 256)
        n //= 256
    body.reverse()
    return bytes([0x80 + len(body)] + body)


def long_length(n, extra):
    """A legal but non-minimal BER length: `extra` redundant octets"""
    body = []
    m = n
    while m:
        body.append(m % 256)
        m //= 256
    if not body:
        body = [0]
    body.reverse()
    body = [0] * extra + body
    return bytes([0x80 + len(body)] + body)


def tlv(cls, cons, tag, content):
    return ident(cls, cons, tag) + length(len(content)) + content


# ---------------------------------------------------------------- reading

MAX_INDEF = 10


class Tlv(object):
    __slots__ = ('cls', 'cons', 'tag', 'header', 'content', 'trailer', 'end', 'start')

    @property
    def raw(self):
        return self.header + self.content + self.trailer


def read_header(data, pos):
    """(cls, cons, tag, length or None, position after the header)"""
    n = len(data)
    if pos >= n:
        raise RefError('truncated identifier')
    b = data[pos]
    pos += 1
    cls, cons, tag = b // 64, (b // 32) % 2, b % 32
    if tag == 31:
        digits = []
        while True:
            if pos >= n:
                raise RefError('truncated tag')
            d = data[pos]
            pos += 1
            digits.append(d % 128)
            if d < 128:
                break
        if digits[0] == 0 and len(digits) > 1:
            raise RefError('non-minimal tag')
        tag = 0
        for d in digits:
            tag = tag * 128 + d
        if tag < 31:
            raise RefError('non-minimal tag')
    if pos >= n:
        raise RefError('truncated length')
    b = data[pos]
    pos += 1
    if b < 128:
        return cls, cons, tag, b, pos
    k = b - 128
    if k == 0:
        if not cons:
            raise RefError('indefinite primitive')
        return cls, cons, tag, None, pos
    if pos + k > n:
        raise RefError('truncated length')
    size = 0
    for i in range(k):
        size = size * 256 + data[pos + i]
    return cls, cons, tag, size, pos + k


class TooDeep(RefError):
    pass


def skip(data, pos, depth=0, limit=None):
    """End of the value at pos, walking indefinite lengths"""
    if limit is not None and depth > limit:
        raise TooDeep('too deep')
    cls, cons, tag, size, p = read_header(data, pos)
    if size is not None:
        if p + size > len(data):
            raise RefError('truncated contents')
        return p + size
    while data[p:p + 2] != b'\x00\x00':
        p = skip(data, p, depth + 1, limit)
    return p + 2


def read(data, pos=0, limit=None):
    cls, cons, tag, size, p = read_header(data, pos)
    t = Tlv()
    t.cls, t.cons, t.tag, t.start = cls, cons, tag, pos
    t.header = data[pos:p]
    t.end = skip(data, pos, 0, limit)
    if size is None:
        t.content = data[p:t.end - 2]
        t.trailer = b'\x00\x00'
    else:
        t.content = data[p:t.end]
        t.trailer = b''
    return t


def children(content):
    out = []
    pos = 0
    while pos < len(content):
        t = read(content, pos)
        out.append(t)
        pos = t.end
    return out


# ---------------------------------------------------------------- contents

def int_content(v):
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    if v < 0:
        v += 1 << (8 * n)
    out = []
    for i in range(n):
        out.append(v % 256)
        v //= 256
    return bytes(reversed(out))


def int_value(content):
    if not content:
        return 0
    v = 0
    for b in content:
        v = v * 256 + b
    if content[0] & 0x80:
        v -= 1 << (8 * len(content))
    return v


def uint_content(v):
    out = []
    while v:
        out.append(v % 256)
        v //= 256
    return bytes(reversed(out))


def bits_content(bits):
    """bits: sequence of 0/1"""
    n = len(bits)
    pad = -n % 8
    out = [pad]
    for i in range(0, n, 8):
        b = 0
        for k in range(8):
            b = b * 2 + (bits[i + k] if i + k < n else 0)
        out.append(b)
    return bytes(out)


def bits_value(content):
    pad = content[0]
    bits = []
    for b in content[1:]:
        for k in range(7, -1, -1):
            bits.append((b >> k) & 1)
    return tuple(bits[:len(bits) - pad])


def arcs_content(arcs):
    nums = [arcs[0] * 40 + arcs[1]] + list(arcs[2:])
    out = []
    for a in nums:
        groups = [a % 128]
        a //= 128
        while a:
            groups.append(a % 128 + 128)
            a //= 128
        out.extend(reversed(groups))
    return bytes(out)


def oid_content(dotted):
    return arcs_content([int(x) for x in dotted.split('.')])


def rel_oid_content(arcs):
    out = []
    for a in arcs:
        groups = [a % 128]
        a //= 128
        while a:
            groups.append(a % 128 + 128)
            a //= 128
        out.extend(reversed(groups))
    return bytes(out)


def arcs_value(content):
    nums = []
    a = 0
    for b in content:
        a = a * 128 + b % 128
        if b < 128:
            nums.append(a)
            a = 0
    first = min(nums[0] // 40, 2)
    return [first, nums[0] - 40 * first] + nums[1:]


# ---------------------------------------------------------------- simple builders

def seq(*parts):
    return tlv(0, 1, 16, b''.join(parts))


def set_of(*parts):
    return tlv(0, 1, 17, b''.join(sorted(parts)))


def integer(v):
    return tlv(0, 0, 2, int_content(v))


def boolean(v):
    return tlv(0, 0, 1, b'\xff' if v else b'\x00')


def null():
    return b'\x05\x00'


def oid(dotted):
    return tlv(0, 0, 6, oid_content(dotted))


def octets(b):
    return tlv(0, 0, 4, b)


def bitstr(b, pad=0):
    return tlv(0, 0, 3, bytes([pad]) + b)


def named_bits(indexes):
    """DER BIT STRING of a named bit list"""
    if not indexes:
        return tlv(0, 0, 3, b'\x00')
    n = max(indexes) + 1
    return tlv(0, 0, 3, bits_content([1 if i in indexes else 0 for i in range(n)]))


def enum(v):
    return tlv(0, 0, 10, int_content(v))


def utf8(s):
    return tlv(0, 0, 12, s.encode('utf-8'))


def printable(s):
    return tlv(0, 0, 19, s.encode('ascii'))


def ia5(s):
    return tlv(0, 0, 22, s.encode('ascii'))


def explicit(tag, body, cls=2):
    return tlv(cls, 1, tag, body)


def implicit(tag, body, cls=2):
    """Replaces the identifier of an encoded value"""
    c, cons, t, size, p = read_header(body, 0)
    return ident(cls, cons, tag) + length(size) + body[p:]


# ---------------------------------------------------------------- DER check

def is_der_framing(data, pos=0, end=None):
    """All lengths minimal and definite, recursively through constructed values"""
    end = len(data) if end is None else end
    while pos < end:
        cls, cons, tag, size, p = read_header(data, pos)
        if size is None or data[pos:p] != ident(cls, cons, tag) + length(size) or p + size > end:
            return False
        if cons and not is_der_framing(data, p, p + size):
            return False
        pos = p + size
    return pos == end


# ---------------------------------------------------------------- value trees
#
# A Node is an abstract encoding: identifier, and either contents or children.
# kind says which BER liberties X.690 grants it:
#   'prim'   primitive, nothing but the length form
#   'bool'   primitive, any non-zero octet for true
#   'string' may be segmented (seg_tag: tag of the segments)
#   'bits'   bit string, may be segmented on octet boundaries
#   'seq'    constructed, fixed order
#   'set'    constructed, any order allowed in BER, children already in DER order
#   'wrap'   explicit tag around one child
#   'raw'    bytes emitted verbatim

class Node(object):
    __slots__ = ('cls', 'tag', 'kind', 'content', 'kids', 'seg_tag', 'extra')

    def __init__(self, cls, tag, kind, content=b'', kids=(), seg_tag=4, extra=()):
        self.cls, self.tag, self.kind = cls, tag, kind
        self.content, self.kids, self.seg_tag = content, list(kids), seg_tag
        # extra: [(position, Node)] default-valued fields that BER may include
        self.extra = list(extra)

    def der(self):
        if self.kind == 'raw':
            return self.content
        if self.kind in ('seq', 'set', 'wrap'):
            return tlv(self.cls, 1, self.tag, b''.join(k.der() for k in self.kids))
        return tlv(self.cls, 0, self.tag, self.content)

    def retag(self, cls, tag):
        n = Node(cls, tag, self.kind, self.content, self.kids, self.seg_tag, self.extra)
        return n


class Ber(object):
    """Spells a Node tree in some legal BER way, chosen by g.

    feature switches say which liberties are used; `used` counts those taken.
    """

    def __init__(self, g, indefinite=True, longlen=True, segment=True, order=True, defaults=True, bools=True,
                 maxdepth=8, rate=3):
        self.g = g
        self.indefinite, self.longlen, self.segment = indefinite, longlen, segment
        self.order, self.defaults, self.bools = order, defaults, bools
        self.maxdepth = maxdepth
        self.rate = rate
        self.used = {}
        # id(node) -> (node, its octets, whether it starts with an indefinite length or is segmented)
        self.spelled = {}

    def hit(self, what):
        self.used[what] = self.used.get(what, 0) + 1

    def maybe(self):
        return self.g.draw(self.rate) == self.rate - 1

    def frame(self, cls, cons, tag, content, depth, allow_indef=True):
        if cons and self.indefinite and allow_indef and depth < self.maxdepth and self.maybe():
            self.hit('indefinite')
            return ident(cls, 1, tag) + b'\x80' + content + b'\x00\x00'
        if self.longlen and self.maybe():
            self.hit('longlen')
            return ident(cls, cons, tag) + long_length(len(content), self.g.draw(3)) + content
        return tlv(cls, cons, tag, content)

    def spell(self, n, depth=0):
        out = self._spell(n, depth)
        if not out:
            return out
        cls, cons, tag, size, p = read_header(out, 0)
        loose = size is None or bool(cons and n.kind in ('string', 'bits'))
        if n.kind == 'wrap':
            loose = loose or self.spelled[id(n.kids[0])][2]
        self.spelled[id(n)] = (n, out, loose)
        return out

    def _spell(self, n, depth):
        if n.kind == 'raw':
            return n.content
        if n.kind in ('seq', 'wrap', 'set'):
            kids = list(n.kids)
            if self.defaults and n.extra:
                for pos, k in reversed(n.extra):
                    if self.maybe():
                        kids.insert(pos, k)
                        self.hit('default')
            parts = [self.spell(k, depth + 1) for k in kids]
            if n.kind == 'set' and self.order and len(parts) > 1 and self.maybe():
                p2 = self.g.perm(parts)
                if p2 != parts:
                    self.hit('order')
                parts = p2
            return self.frame(n.cls, 1, n.tag, b''.join(parts), depth)
        if n.kind == 'bool' and n.content != b'\x00' and self.bools and self.maybe():
            self.hit('bool')
            return self.frame(n.cls, 0, n.tag, bytes([1 + self.g.draw(255)]), depth)
        if n.kind in ('string', 'bits') and self.segment and depth < self.maxdepth - 2 and self.maybe():
            self.hit('segment')
            segs = self.segments(n.content, n.kind, n.seg_tag, depth + 1, 0)
            return self.frame(n.cls, 1, n.tag, segs, depth)
        return self.frame(n.cls, 0, n.tag, n.content, depth)

    def segments(self, content, kind, tag, depth, level):
        g = self.g
        if kind == 'bits':
            pad, body = content[0], content[1:]
        else:
            pad, body = 0, content
        out = []
        k = g.draw(4)
        cuts = sorted(g.draw(len(body) + 1) for _ in range(k))
        pieces = []
        last = 0
        for c in cuts + [len(body)]:
            pieces.append(body[last:c])
            last = c
        if not body and g.draw(2):
            # no segment at all denotes the empty string
            return b''
        for i, p in enumerate(pieces):
            final = i == len(pieces) - 1
            if kind == 'bits':
                if final and pad and not p:
                    # the padding must sit in a segment that has octets
                    if out:
                        pass
                # keep the padding with the last octet
                pd = pad if (final and p) else 0
                c = bytes([pd]) + p
            else:
                c = p
            if level < 2 and depth < self.maxdepth - 2 and g.draw(6) == 5:
                inner = self.segments(c, kind, tag, depth + 1, level + 1)
                out.append(self.frame(0, 1, tag, inner, depth))
                self.hit('nested-segment')
            else:
                out.append(self.frame(0, 0, tag, c, depth))
        if kind == 'bits' and pad and not pieces[-1]:
            # the last octet is in an earlier piece: respell it as one segment
            return self.frame(0, 0, tag, bytes([pad]) + body, depth)
        return b''.join(out)


def spell_seeded(node, seed, **kw):
    class G(object):
        def __init__(self, s):
            self.r = random.Random(s)

        def draw(self, n):
            return self.r.randrange(n)

        def perm(self, seq):
            seq = list(seq)
            self.r.shuffle(seq)
            return seq
    b = Ber(G(seed), **kw)
    return b.spell(node), b
