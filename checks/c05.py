"""C05: whatever is read, an unmodified value re-encodes to its own octets."""
from lib.pbt import Check
from lib import ref, model, corpus, graph, predef
from lib.schema import resolve
from lib.model import POOL
from checks.c08 import show
from asn1crypto import core

check = Check('C05', rule=(
    'values of generated schemas and real documents in DER and in random BER spellings (long-form lengths, indefinite lengths, segmented '
    'strings, explicit defaults, set order, odd booleans), as well as random untyped value trees, each put through 1-12 random reads at '
    'random depths (native, children, iteration, lengths, accessors, representations, copies, pickling, retagging, casting, debug output) '
    'before encoding the whole and its parts. Non-trivial: at least three reads and more than four octets; distinct by octets and reads.'))


def forms(n, b, cache):
    """what the value of node n may encode as.  Only a value that itself is
    indefinite or segmented has any other form than its own octets."""
    k = id(n)
    if k in cache:
        return cache[k]
    _, octets, loose = b.spelled[k]
    out = {octets}
    if loose:
        out.add(n.der())
        if n.kind in ('seq', 'set', 'wrap'):
            cls, cons, tag, size, p = ref.read_header(octets, 0)
            body = octets[p:-2] if size is None else octets[p:]
            out.add(ref.tlv(n.cls, 1, n.tag, body))
            if n.kind == 'wrap':
                for f in forms(n.kids[0], b, cache):
                    out.add(ref.tlv(n.cls, 1, n.tag, f))
    cache[k] = out
    return out


def allowed(b):
    cache, out = {}, set()

    def canonical(n):
        # encoding an indefinite value encodes everything inside it afresh
        out.add(n.der())
        for k in list(n.kids) + [x for _, x in n.extra]:
            canonical(k)
    for n, octets, loose in list(b.spelled.values()):
        out |= forms(n, b, cache)
        if loose:
            canonical(n)
    return out


def parts(g, o, ok, blobs, path, depth=0):
    """a random descent checking the encoding of each part"""
    while depth < 12:
        ks = graph.kids(o)
        if not ks:
            return
        i = g.draw(len(ks))
        name, c = ks[i]
        path = path + name
        if isinstance(c, core.Void):
            g.eq(c.dump(), b'', 'encoding of an absent value', path=path)
            return
        d = c.dump()
        g.unit()
        if d not in ok:
            good = name == 'parsed' and any(d in x for x in blobs)
            if not good and isinstance(o, core.Sequence) and i < len(o._fields):
                params = o._fields[i][2] if len(o._fields[i]) > 2 else {}
                # a default that was not encoded is not part of the octets
                if 'default' in params and d == o._fields[i][1](**params).dump():
                    return
            if not good and not any(d in x for x in blobs[1:]):
                g.fail('encoding of an unmodified part', path=path, got=d, cls=type(c))
        o = c
        depth += 1


def reads(g, o):
    hist = []
    for _ in range(1 + g.draw(12)):
        hist.append(graph.read(g, o))
    g.log('reads', hist)
    return hist


def judge(g, o, data, loose, hist):
    got = o.dump()
    g.unit()
    if loose is None:
        if got != data:
            g.fail('encoding of an unmodified value', got=got, want=data, reads=hist)
    elif got not in loose:
        g.fail('encoding of an unmodified value', got=got, want=sorted(loose, key=len), reads=hist)


def spelling(g, node, strict=False):
    k = g.draw(2 if strict else 4)
    if k == 0:
        b = ref.Ber(g, indefinite=False, segment=False, order=False, defaults=False, bools=False, longlen=False)
    elif k == 1:
        b = ref.Ber(g, indefinite=False, segment=False)
    else:
        b = ref.Ber(g)
    data = b.spell(node)
    return b, data


@check.prop(60000, 1000000)
def declared(g):
    ty = POOL.pick(g)
    a = ty.gen(g)
    node = ty.node(a)
    # encoding an indefinite value afresh also encodes what its octet strings were parsed as
    b, data = spelling(g, node, 'Parsable' in show(ty))
    g.log('type', show(ty))
    g.log('octets', data)
    o = ty.cls.load(data)
    hist = reads(g, o)
    cache = {}
    own = forms(node, b, cache)
    if g.draw(2):
        parts(g, o, allowed(b), [data] + string_blobs(node, []), '')
    judge(g, o, data, own, hist)
    if g.draw(2):
        # nothing read afterwards disturbs it
        hist += reads(g, o)
        parts(g, o, allowed(b), [data] + string_blobs(node, []), '')
        judge(g, o, data, own, hist)
    for k in b.used:
        g.label(k)
    if len(hist) > 2 and len(data) > 4:
        g.nontrivial((data, hist))
        g.sample('%s: %s' % (data.hex(), ', '.join(hist))[:700])


def string_blobs(n, out):
    if n.kind in ('string', 'bits', 'prim', 'bool'):
        if len(n.content) > 1:
            out.append(n.content)
    for k in n.kids:
        string_blobs(k, out)
    return out


@check.prop(24000, 400000)
def documents(g):
    ds = corpus.DOCS[:60] if g.draw(4) else corpus.DOCS
    doc = g.choice(ds)
    node = corpus.tree(doc[2])
    b, data = spelling(g, node)
    g.log('document', doc[0], doc[1])
    g.log('octets', data)
    o = corpus.cls_of(doc).load(data)
    hist = reads(g, o)
    strict = doc[0] in corpus.TIDY and not ('indefinite' in b.used or 'segment' in b.used)
    blobs = [data] + string_blobs(node, [])
    if strict:
        for i in range(3):
            parts(g, o, allowed(b), blobs, '')
    if b.spelled[id(node)][2]:
        # encoded afresh, which C06 and C07 decide
        o.dump()
    else:
        judge(g, o, data, None, hist)
    if len(hist) > 2:
        g.nontrivial((doc[0], hash(data), hist))
        g.sample('%s: %s' % (doc[0], ', '.join(hist))[:700])


UNIVERSAL = [1, 2, 3, 4, 5, 6, 10, 12, 13, 18, 19, 20, 22, 23, 24, 26, 28, 30]


def random_value(g, depth=0):
    """a random encoding of universal types, contents often meaningless"""
    if depth < 4 and g.draw(3) == 0:
        tag = g.choice([16, 17])
        body = b''.join(random_value(g, depth + 1) for _ in range(g.draw(4)))
        cons = 1
    else:
        tag = g.choice(UNIVERSAL)
        cons, cls = 0, 0
        body = g.bytes(0, 6)
        if tag in (1,):
            body = bytes([g.draw(256)])
        elif tag in (2, 10, 3):
            body = bytes([g.draw(256 if tag != 3 else 8)]) + body
        elif tag == 5:
            body = b''
        elif tag == 6:
            body = ref.oid_content(model.g_oid(g))
        elif tag in (18, 19, 22, 26):
            body = bytes(32 + x % 90 for x in body)
    head = ref.ident(0, cons, tag)
    n = len(body)
    return head + (ref.length(n) if g.draw(3) else ref.long_length(n, g.draw(3))) + body


@check.prop(30000, 500000)
def untyped(g):
    data = random_value(g)
    g.log('octets', data)
    o = core.load(data) if g.draw(2) else core.Asn1Value.load(data)
    hist = reads(g, o)
    judge(g, o, data, None, hist)
    if len(hist) > 2 and len(data) > 4:
        g.nontrivial((data, hist))
        g.sample('%s: %s' % (data.hex(), ', '.join(hist))[:700])


class Piece(object):
    """One encoded value: its octets as loaded, or a container of pieces once it was edited."""

    def __init__(self, g, ty, a, tagging):
        self.ty, self.a, self.tagging = ty, a, tagging
        self.edited = False
        self.kids = None
        b = ref.Ber(g, indefinite=False, segment=False, defaults=False)
        if isinstance(ty, (model.Record, model.ListOf)) and not ty.is_set:
            if isinstance(ty, model.Record):
                self.kids = {f.name: Piece(g, f.ty, a[f.name], f.tagging) for f in ty.fields
                             if a[f.name] is not model.ABSENT and not (f.mode == 'def' and ty.same(f, a[f.name]))}
            else:
                self.kids = [Piece(g, ty.child, x, model.Tagging()) for x in a]
            self.loaded = b.spell(tagging.apply(ref.Node(ty.tag[0], ty.tag[1], 'seq', kids=[ref.Node(0, 0, 'raw', self.body())])))
        else:
            self.loaded = b.spell(tagging.apply(ty.node(a)))

    def body(self):
        if isinstance(self.kids, list):
            return b''.join(k.octets() for k in self.kids)
        out = b''
        for f in self.ty.fields:
            k = self.kids.get(f.name)
            if k is None or (k.edited and f.mode == 'def' and k.octets() == f.node(f.default).der()):
                # absent, or edited back to the default
                continue
            out += k.octets()
        return out

    def octets(self):
        if not self.edited:
            return self.loaded
        if self.kids is None:
            return self.tagging.apply(self.ty.node(self.a)).der()
        return self.tagging.apply(ref.Node(self.ty.tag[0], self.ty.tag[1], 'seq', kids=[ref.Node(0, 0, 'raw', self.body())])).der()


def fresh(g, ty, v, tagging):
    p = Piece(g, ty, v, tagging)
    p.kids, p.edited = None, True
    return p


@check.prop(30000, 500000)
def neighbours(g):
    """an edit of one part leaves the octets of all the parts beside it"""
    while True:
        ty = POOL.pick(g)
        if isinstance(ty, (model.Record, model.ListOf)) and not ty.is_set:
            break
    a = ty.gen(g)
    root = Piece(g, ty, a, model.Tagging())
    data = root.octets()
    g.log('type', show(ty))
    g.log('octets', data)
    o = ty.cls.load(data)
    hist, kept = [], 0
    for _ in range(1 + g.draw(3)):
        if g.draw(2):
            hist.append(graph.read(g, o))
        p, obj, chain, path = root, o, [root], []
        while True:
            inner = [(k, c) for k, c in (enumerate(p.kids) if isinstance(p.kids, list) else sorted(p.kids.items())) if c.kids is not None]
            if not inner or g.draw(3) == 0:
                break
            k, p = g.choice(inner)
            obj = obj[k]
            chain.append(p)
            path.append(k)
        if isinstance(p.kids, list):
            v = p.ty.child.gen(g, 3)
            new = p.ty.item(g, v)
            if p.kids and g.draw(3):
                i = g.draw(len(p.kids))
                if g.draw(3):
                    obj[i] = new
                    p.kids[i] = fresh(g, p.ty.child, v, model.Tagging())
                    hist.append('assign %r' % (path + [i]))
                else:
                    del obj[i]
                    del p.kids[i]
                    hist.append('delete %r' % (path + [i]))
            else:
                obj.append(new)
                p.kids.append(fresh(g, p.ty.child, v, model.Tagging()))
                hist.append('append to %r' % path)
        else:
            if not p.ty.fields:
                continue
            f = g.choice(p.ty.fields)
            if f.mode == 'opt' and g.draw(3) == 0:
                del obj[f.name]
                p.kids.pop(f.name, None)
                hist.append('delete %r' % (path + [f.name]))
            else:
                v = f.ty.gen(g, 3)
                obj[f.name] = f.ty.inp(g, v) if g.draw(2) else f.ty.obj(g, v)
                if f.mode == 'def' and p.ty.same(f, v):
                    p.kids.pop(f.name, None)
                else:
                    p.kids[f.name] = fresh(g, f.ty, v, f.tagging)
                hist.append('assign %r' % (path + [f.name]))
        for c in chain:
            c.edited = True
        kept += len(p.kids)
        g.log('history', hist)
        if g.draw(2):
            g.eq(o.dump(), root.octets(), 'encoding after an edit', history=hist)
            hist.append('encode')
    g.eq(o.dump(), root.octets(), 'encoding after an edit', history=hist)
    if kept > 2 and data != ty.node(a).der():
        g.nontrivial((data, hist))
        g.sample('%s: %s' % (data.hex(), hist))


def inner(node, obj):
    """the node of the record or list inside the explicit tags, or None"""
    for _ in obj.explicit or ():
        if len(node.kids) != 1:
            return None
        node = node.kids[0]
    return node


def framed(node, levels, body):
    """the octets of an edited record or list under its explicit tags"""
    if levels:
        return ref.tlv(node.cls, 1, node.tag, framed(node.kids[0], levels - 1, body))
    return ref.tlv(node.cls, 1, node.tag, body)


@check.prop(12000, 200000)
def document_parts(g):
    """replacing one part of a document leaves the octets of all others"""
    doc = g.choice(corpus.DOCS)
    if doc[0] not in corpus.TIDY:
        doc = g.choice([d for d in corpus.DOCS[:60] if d[0] in corpus.TIDY])
    node = corpus.tree(doc[2])
    b = ref.Ber(g, indefinite=False, segment=False, order=False)
    data = b.spell(node)
    g.log('document', doc[0], doc[1])
    g.log('octets', data)
    o = root = corpus.cls_of(doc).load(data)
    hist = [graph.read(g, o) for _ in range(g.draw(3))]
    chain = []
    n = node
    while isinstance(o, (core.Sequence, core.SequenceOf)) and not isinstance(o, (core.Set, core.SetOf)):
        n2 = inner(n, o)
        if n2 is None:
            break
        # which of the children are encoded, and where
        at, place = 0, {}
        for i in range(len(o)):
            c = o[i]
            if at < len(n2.kids) and not isinstance(c, core.Void) and c.dump() == b.spelled[id(n2.kids[at])][1]:
                place[i] = at
                at += 1
        if at != len(n2.kids) or not place:
            break
        i = g.choice(sorted(place))
        chain.append((o, n, n2, place[i]))
        key = i
        last = o
        o, n = o[i], n2.kids[place[i]]
        if g.draw(5) == 0:
            break
    if not chain:
        return
    new = last[key].copy()
    if isinstance(new, core.ObjectIdentifier) and isinstance(last, core.Sequence) or type(last).__name__ == 'ECPrivateKey':
        # its neighbours depend on it
        return
    g.log('replace', [c[3] for c in chain], type(new))
    hist.append('replace %r' % [c[3] for c in chain])
    last[key] = new
    got = root.dump()
    # how the replaced part itself is encoded is not the question here
    options = {last[key].dump()}
    for obj, outer, body, at in reversed(chain):
        options = set(framed(outer, len(obj.explicit or ()), b''.join(
            x if k == at else b.spelled[id(body.kids[k])][1] for k in range(len(body.kids)))) for x in options)
    g.unit()
    if got not in options:
        g.fail('encoding after one part was replaced by its copy', got=got, want=sorted(options, key=len), history=hist)
    if data != doc[2] and len(chain) > 1:
        g.nontrivial((doc[0], hash(data), hist))
        g.sample('%s: %s' % (doc[0], hist))


GENERIC = {'contents', 'parsed', 'chosen', 'name', 'dotted', 'native'}
RICH = [p for p in predef.PATHS if set(graph.props(resolve(p))) - GENERIC]


@check.prop(40000, 800000)
def accessors(g):
    """reading what the predefined structures offer beside their fields leaves their octets alone"""
    path = g.choice(RICH)
    ty = predef.build(path)
    a = predef.value(g, ty)
    node = ty.node(a)
    b = ref.Ber(g, indefinite=False, segment=False)
    data = b.spell(node)
    g.log('class', path)
    g.log('octets', data)
    o = ty.cls.load(data)
    names = sorted(set(graph.props(ty.cls)) - GENERIC)
    hist = []
    for _ in range(1 + g.draw(6)):
        k = g.draw(8)
        if k < 6:
            n = g.choice(names)
            hist.append(n)
            try:
                v = getattr(o, n)
                if isinstance(v, core.Asn1Value) and g.draw(3) == 0:
                    v.native
            except Exception:
                # what the value says may make no sense, which is not the question here
                pass
        elif k == 6:
            hist.append(graph.read(g, o))
        else:
            # where the accessor is asked of a copy
            o = o.copy()
            hist.append('copy')
    judge(g, o, data, None, hist)
    c = ty.cls.load(data)
    graph.run(g, 'props', c)
    judge(g, c, data, None, ['every accessor'])
    g.label(path)
    if data != node.der():
        g.nontrivial((data, tuple(hist)))
        g.sample('%s %s: %s' % (path, data.hex()[:200], hist))
