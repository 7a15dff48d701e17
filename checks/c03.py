"""C03: no input octets can crash or hang the decoder."""
import copy

from lib.pbt import Check
from lib import ref, model, corpus, graph, predef
from lib.model import POOL
from lib.schema import DATA, resolve
from checks.c08 import show
from asn1crypto import core, parser

check = Check('C03', rule=(
    'random octets, random value trees, and structured mutations (delete, repeat, swap, retag, change contents, change lengths, splice, truncate, '
    'nest) of documents, of typed parts of documents and of values of generated schemas, decoded as every public class or untyped; the native '
    'value is read in full (and again), every part is visited, encoded and re-encoded by force; the accessors of damaged structures are asked '
    'twice, after one another and of fresh objects. Oracle: only ValueError and TypeError may escape, within a '
    'bounded amount of processor time, and afterwards known good values still decode as before. Non-trivial: the first value is at least readable '
    'or the input came from a valid one; distinct by class and octets.'))

OK = (ValueError, TypeError)


def public_classes():
    out = []
    for p in sorted(DATA):
        cls = resolve(p) if hasattr(__import__('asn1crypto.' + p.split('.')[0], fromlist=['x']), p.split('.')[1]) else None
        if isinstance(cls, type) and (issubclass(cls, core.Asn1Value) or issubclass(cls, core.Concat)):
            out.append((p, cls))
    return out


CLASSES = public_classes()
UNI = [c for c in [core.Boolean, core.Integer, core.BitString, core.OctetString, core.Null, core.ObjectIdentifier, core.ObjectDescriptor,
                   core.InstanceOf, core.Real, core.Enumerated, core.EmbeddedPdv, core.UTF8String, core.RelativeOid, core.Sequence, core.Set,
                   core.NumericString, core.PrintableString, core.TeletexString, core.VideotexString, core.IA5String, core.UTCTime,
                   core.GeneralizedTime, core.GraphicString, core.VisibleString, core.GeneralString, core.UniversalString, core.CharacterString,
                   core.BMPString, core.SequenceOf, core.SetOf, core.Any, core.OctetBitString, core.IntegerBitString, core.IntegerOctetString,
                   core.ParsableOctetString, core.ParsableOctetBitString]]


def again(g, fn, what):
    """a read that is refused is refused again, and one that is not says the same"""
    try:
        first = fn()
    except OK:
        try:
            got = fn()
        except OK:
            return
        g.fail('%s: refused at first, then given' % what, got=got)
    g.true(fn() == first, '%s: another one when read again' % what, first=first)


def exercise(g, o, budget=60):
    """reads everything there is to read"""
    if not isinstance(o, core.Concat):
        again(g, lambda: o.native, 'native')
        again(g, o.dump, 'encoding')
    for fn in (lambda: o.native, lambda: o.dump(), lambda: o.contents):
        try:
            fn()
        except OK:
            pass
        except AttributeError:
            if not isinstance(o, core.Concat):
                raise
    left = [budget]

    def walk(x, depth):
        if left[0] <= 0 or depth > 25:
            return
        left[0] -= 1
        for name, k in graph.kids(x):
            again(g, lambda: k.native, 'native of a part')
            walk(k, depth + 1)
    if not isinstance(o, core.Concat) or True:
        walk(o, 0)
    for fn in (lambda: o.copy().dump(), lambda: o.dump(force=True), lambda: o.native if not isinstance(o, core.Concat) else None, lambda: o.dump()):
        try:
            fn()
        except OK:
            pass


_good = {}


def still_fine(g):
    """a known good document decodes as it always did"""
    i = g.draw(len(corpus.DOCS))
    doc = corpus.DOCS[i]
    if len(doc[2]) > 3000 or doc[0] not in corpus.TIDY:
        return
    o = corpus.cls_of(doc).load(doc[2])
    g.eq(o.dump(), doc[2], 'encoding of a good document decoded after a bad one', document=doc[0])
    if isinstance(o, core.Concat):
        return
    n = o.native
    if doc[0] in _good:
        g.true(n == _good[doc[0]], 'native of a good document changed by decoding bad values', document=doc[0], now=n, before=_good[doc[0]])
    else:
        _good[doc[0]] = copy.deepcopy(n)


def attempt(g, cls, data, how):
    g.log('class', getattr(cls, '__name__', cls), how)
    g.log('octets', data if len(data) < 3000 else data[:3000])
    try:
        o = cls.load(data)
    except OK:
        g.label('refused')
        o = None
    if o is not None:
        g.label('decoded')
        exercise(g, o)
    if g.draw(40) == 39:
        still_fine(g)
    g.unit()


def any_class(g):
    k = g.draw(3)
    if k == 0:
        return g.choice(UNI)
    return g.choice(CLASSES)[1]


@check.prop(40000, 1000000)
def octets(g):
    """random octets"""
    k = g.draw(4)
    cls = any_class(g)
    tag = getattr(cls, 'tag', None)
    if k == 0 or tag is None:
        data = g.bytes(0, 30)
    else:
        # a header that fits, then anything
        body = g.bytes(0, 24)
        first = ref.ident(cls.class_ or 0, cls.method if g.draw(8) else 1 - cls.method, tag)
        m = g.draw(8)
        size = ref.length(len(body)) if m < 6 else ref.long_length(len(body), g.draw(4)) if m == 6 else b'\x80'
        data = first + size + body + (b'\x00\x00' if m == 7 else b'')
        for c, t in cls.explicit or ():
            data = ref.tlv(c if isinstance(c, int) else 2, 1, t, data)
    attempt(g, cls, data, 'random octets')
    g.nontrivial((cls.__name__, data))
    g.sample('%s %s' % (cls.__name__, data.hex()))


NASTY = [b'', b'\x00', b'\x80', b'\xff', b'\x7f', b'\xff\xff', b'\x00\x00', b'\x80\x01', b'\x01\x80', b'\x08\x00', b'\x07', b'\x30\x80', b'\x80' * 5,
         b'0', b'\xed\xa0\x80', b'99999999', b'20200230000000Z', b'000000000000Z', b'99990101000000-2359', b'20000101000000.', b'991231235960Z',
         b'http://[', b'http://a:b', b'@', b'a@', b'xn--', b'\xd8\x00', b'\x00\x11\x00\x00', b'\xff' * 20, b'\x00' * 33, b'\x04' + b'\x00' * 10,
         b'\x05\x00\x00', b'a@b@c', b'http://xn--\xff/', b'//', b'http://' + b'a' * 70, b'.' * 5, b'a..b', b'\x09', b'\x0f\xff', b'\x01' * 17]


class M(object):
    """a node that can be spoiled"""

    def __init__(self, n):
        self.cls, self.tag, self.content = n.cls, n.tag, n.content
        self.cons = n.kind in ('seq', 'set', 'wrap')
        self.kids = [M(k) for k in n.kids]
        self.flip = False
        self.badlen = 0


def flatten(n, out):
    out.append(n)
    for k in n.kids:
        flatten(k, out)
    return out


def mutate(g, root, donor):
    """One structural change; returns a function from node to octets"""
    allnodes = flatten(root, [])
    for _ in range(1 + g.draw(3)):
        n = g.choice(allnodes)
        k = g.draw(14)
        parents = [p for p in allnodes if p.kids]
        if k == 0 and parents:
            p = g.choice(parents)
            del p.kids[g.draw(len(p.kids))]
        elif k == 1 and parents:
            p = g.choice(parents)
            i = g.draw(len(p.kids))
            p.kids.insert(i, p.kids[i])
        elif k == 2 and parents:
            p = g.choice(parents)
            i, j = g.draw(len(p.kids)), g.draw(len(p.kids))
            p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
        elif k == 3:
            n.tag = g.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 16, 17, 19, 22, 23, 24, 30, 31, 200])
        elif k == 4:
            n.cls = g.draw(4)
        elif k == 5 and not n.kids:
            n.content = g.choice(NASTY)
        elif k == 6 and not n.kids:
            n.content = g.bytes(0, 12)
        elif k == 7 and not n.kids and n.content:
            b = bytearray(n.content)
            b[g.draw(len(b))] = g.draw(256)
            n.content = bytes(b)
        elif k == 8 and not n.kids and n.content:
            n.content = n.content[:g.draw(len(n.content))]
        elif k == 9 and donor is not None and parents:
            p = g.choice(parents)
            p.kids[g.draw(len(p.kids))] = copy.deepcopy(g.choice(flatten(donor, [])))
        elif k == 10:
            n.flip = True
        elif k == 11:
            n.badlen = g.choice([-1, 1, 2, -2, 100, 1 << 20, 'indef', 'long'])
        elif k == 12 and parents:
            p = g.choice(parents)
            p.kids = []
        elif k == 13 and parents:
            p = g.choice(parents)
            p.kids = p.kids * g.choice([2, 3])
        allnodes = flatten(root, [])
        if len(allnodes) > 4000:
            break
    return root


def emit(n):
    cons = 1 if n.cons else 0
    body = b''.join(emit(k) for k in n.kids) if cons else n.content
    if n.flip:
        cons = 1 - cons
    bl = n.badlen
    size = len(body)
    if bl == 'indef':
        return ref.ident(n.cls, cons, n.tag) + b'\x80' + body + b'\x00\x00'
    if bl == 'long':
        return ref.ident(n.cls, cons, n.tag) + ref.long_length(size, 3) + body
    return ref.ident(n.cls, cons, n.tag) + ref.length(max(0, size + bl)) + body


def spoil(g, data, donor_data):
    k = g.draw(8)
    if k == 0:
        b = bytearray(data)
        for _ in range(1 + g.draw(4)):
            if b:
                b[g.draw(len(b))] = g.draw(256)
        return bytes(b)
    if k == 1:
        return data[:g.draw(len(data) + 1)]
    root = M(corpus.tree(data, segment=False))
    donor = M(corpus.tree(donor_data, segment=False)) if donor_data is not None else None
    return emit(mutate(g, root, donor))


@check.prop(60000, 1200000)
def parts(g):
    ps = corpus.parts()
    name, datas = g.choice(ps)
    data = g.choice(datas)
    donor = g.choice(g.choice(ps)[1]) if g.draw(3) == 0 else None
    bad = spoil(g, data, donor)
    cls = resolve(name) if g.draw(12) else any_class(g)
    attempt(g, cls, bad, 'mutated from %s %s' % (name, data.hex()))
    g.nontrivial((cls.__name__, bad))
    g.sample('%s %s' % (cls.__name__, bad.hex()[:300]))


@check.prop(8000, 150000)
def documents(g):
    small = [d for d in corpus.DOCS if len(d[2]) < 2500]
    doc = g.choice(small)
    donor = g.choice(small) if g.draw(3) == 0 else None
    bad = spoil(g, doc[2], donor and donor[2])
    cls = corpus.cls_of(doc)
    attempt(g, cls, bad, 'mutated from %s' % doc[0])
    g.nontrivial((cls.__name__, bad))
    g.sample('%s %s' % (doc[0], bad.hex()[:300]))


@check.prop(30000, 500000)
def declared(g):
    ty = POOL.pick(g, size=300)
    data = ty.node(ty.gen(g)).der()
    bad = spoil(g, data, None)
    g.log('type', show(ty))
    attempt(g, ty.cls, bad, 'mutated from %s' % data.hex())
    g.nontrivial((show(ty), bad))
    g.sample('%s %s' % (show(ty)[:200], bad.hex()[:300]))


@check.prop(15000, 300000)
def untyped(g):
    if g.draw(2):
        data = g.bytes(0, 24)
    else:
        data = spoil(g, g.choice(g.choice(corpus.parts())[1]), None)
    class Loader(object):
        __name__ = 'core.load'
        load = staticmethod(g.choice([core.load, core.Asn1Value.load, core.Any.load]))
    attempt(g, Loader, data, 'untyped')
    try:
        info = parser.parse(data)
    except ValueError:
        pass
    else:
        g.nontrivial(data)
    g.sample('%s' % data.hex()[:300])


DEEP = [core.Sequence, core.SequenceOf, core.Set, core.Any, core.OctetString, core.BitString, core.UTF8String, core.ParsableOctetString]


@check.prop(400, 3000)
def nesting(g):
    """deep and wide values"""
    depth = g.choice([3, 8, 9, 10, 11, 30, 100, 300, 1000, 3000])
    inner = g.choice([b'', b'\x05\x00', b'\x02\x01\x05', b'\x30\x00', b'\x24\x00'])
    style = g.draw(5)
    data = inner
    heads = g.choice([[0x30], [0x31], [0x30, 0x31], [0xa0], [0x24], [0x23], [0x2c], [0x30, 0xa0, 0x24]])
    if style == 4:
        data = bytes([heads[0]]) + ref.length(len(inner) * depth * 3) + inner * (depth * 3)
    else:
        for i in range(depth):
            h = bytes([heads[i % len(heads)]])
            if style == 0 or style == 3 and i % 2:
                data = h + ref.length(len(data)) + data
            elif style == 1:
                data = h + b'\x80' + data + b'\x00\x00'
            elif style == 2:
                data = h + ref.long_length(len(data), 1) + data
            else:
                data = b'\x04' + ref.length(len(data)) + data
    k = g.draw(3)
    if k == 0:
        cls = g.choice(DEEP)
    elif k == 1:
        cls = any_class(g)
    else:
        class cls(object):
            load = staticmethod(core.load)
    g.log('depth', depth, 'style', style, 'heads', heads)
    try:
        attempt(g, cls, data, 'nested')
    except RecursionError:
        # known finding: id=deep-nesting
        if depth < 150 or style == 4:
            raise
        g.label('deep nesting exhausts the stack')
        still_fine(g)
    g.nontrivial((cls.__name__, data))
    g.sample('%s, %d levels, style %d, %r' % (cls.__name__, depth, style, heads))


# ------------------------------------------------------------ reads that fail

GENERIC = {'contents', 'parsed', 'chosen', 'name', 'dotted', 'native'}
RICH = []


def rich():
    """documents and generated structures of the classes that offer accessors"""
    if not RICH:
        by = {}
        for name, datas in corpus.parts():
            if set(graph.props(resolve(name))) - GENERIC:
                by.setdefault(resolve(name), []).extend(datas)
        for d in corpus.DOCS:
            if set(graph.props(corpus.cls_of(d))) - GENERIC and len(d[2]) < 4000:
                by.setdefault(corpus.cls_of(d), []).append(d[2])
        RICH.extend(sorted(((c, ds) for c, ds in by.items()), key=lambda x: x[0].__module__ + x[0].__name__))
    return RICH


def told(fn):
    """what a read says, in a form that compares"""
    def plain(v):
        if isinstance(v, core.Asn1Value):
            return type(v).__name__, v.dump()
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        return v
    try:
        return 'says', plain(fn())
    except Exception:
        # which error an accessor raises is not the question here
        return 'refuses', None


@check.prop(25000, 500000)
def accessors(g):
    """what an accessor says of a damaged value does not depend on what was asked before, nor on how often"""
    if g.draw(4):
        cls, datas = g.choice(rich())
        data = g.choice(datas)
    else:
        path = g.choice(predef.PATHS)
        cls = resolve(path)
        ty = predef.build(path)
        data = model.der(ty, predef.value(g, ty))
    damaged(g, cls, data)


def damaged(g, cls, data):
    names = sorted(set(graph.props(cls)) - GENERIC) + ['native']
    bad = deep_spoil(g, data) if g.draw(4) else spoil(g, data, None)
    g.log('class', cls)
    g.log('octets', bad)
    try:
        o = cls.load(bad)
    except OK:
        return
    if isinstance(o, core.Concat):
        return
    hist, refused = [], 0
    for _ in range(2 + g.draw(8)):
        n = g.choice(names)
        hist.append(n)
        one = told(lambda: getattr(o, n))
        two = told(lambda: getattr(o, n))
        refused += one[0] == 'refuses'
        if one != two:
            g.fail('an accessor read twice', accessor=n, first=one, then=two, history=hist)
        fresh = told(lambda: getattr(cls.load(bad), n))
        if one != fresh and n != 'native':
            g.fail('an accessor read after others', accessor=n, got=one, want=fresh, history=hist)
        g.unit(2)
    g.label('%s' % ('refused' if refused else 'read'))
    g.nontrivial((cls.__name__, bad, tuple(hist)))
    g.sample('%s %s: %s' % (cls.__name__, bad.hex()[:200], hist))


def deep_spoil(g, data):
    """one primitive somewhere inside gets other contents, and every length is put right"""
    spans = []

    def walk(pos, end, path):
        while pos < end:
            try:
                t = ref.read(data[:end], pos)
            except ref.RefError:
                return
            if t.end <= pos:
                return
            spans.append((pos, t, path))
            if t.cons:
                body = t.end - len(t.content) if t.end - len(t.content) > pos else pos
                walk(body, t.end, path + [(pos, t)])
            elif t.cls == 0 and t.tag in (3, 4) and len(t.content) > 2 and t.content[-1:] and t.tag == 4 and t.content[0] in (0x30, 0x03, 0x31, 0x04):
                # what an octet string holds
                walk(t.end - len(t.content), t.end, path + [(pos, t)])
            pos = t.end
    walk(0, len(data), [])
    leaves = [s for s in spans if not s[1].cons]
    if not leaves:
        return data
    pos, t, path = g.choice(leaves)
    k = g.draw(6)
    c = t.content
    if k == 0:
        new = b''
    elif k == 1:
        new = g.choice(NASTY)
    elif k == 2 and c:
        i = g.draw(len(c))
        new = c[:i] + bytes([g.draw(256)]) + c[i + 1:]
    elif k == 3:
        new = c[:-1]
    elif k == 4:
        new = c + bytes([g.draw(256)])
    else:
        new = bytes(g.draw(256) for _ in range(g.draw(6)))
    tag = t.tag if g.draw(3) else g.choice([1, 2, 4, 5, 6, 12, 19, 22, 30])
    part = ref.tlv(t.cls, 0, tag, new)
    start, stop = pos, t.end
    for p, u in reversed(path):
        body = u.end - len(u.content)
        inner = data[body:start] + part + data[stop:u.end]
        part = ref.tlv(u.cls, u.cons, u.tag, inner)
        start, stop = p, u.end
    return data[:start] + part + data[stop:]
