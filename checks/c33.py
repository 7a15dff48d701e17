"""C33: what .debug() shows of a value."""
import contextlib
import copy
import io
import re

from lib.pbt import Check
from lib import ref, model, predef, corpus, graph
from lib.model import POOL
from lib.schema import resolve
from checks.c08 import show
from checks.c10 import tagging, notation
from asn1crypto import core, x509

check = Check('C33', rule=(
    'values of generated schemas, of every predefined structure and of documents, under any tagging, in DER and any BER spelling, typed and untyped, '
    'loaded, built, edited or copied, shown after any reads. Oracle: the printed tree names the class of every part that can be reached from the value, in '
    'order and deeper than the part it is in, with its header octets, its class, method and tag, its contents, the names of fields and the native value '
    'of what has no parts; and nothing about the value changes. Non-trivial: a value with parts; distinct by class and octets.'))

OBJECT = re.compile(r'^( *)(\S+) Object #\d+$')
CLASS = {0: 'universal', 1: 'application', 2: 'context', 3: 'private'}
METHOD = {0: 'primitive', 1: 'constructed'}


def printed(g, o, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = o.debug(**kw)
    g.true(r is None, 'debug() returned something', got=r)
    return out.getvalue()


def plain(text):
    """without what depends on whether a part was encoded before"""
    return re.sub(r'#\d+', '', re.sub(r'(?m)^ *Header: .*\n', '', text))


def blocks(g, text, o):
    """[(indentation, class, text of the block)] of what was printed"""
    out = []
    for line in text.split('\n'):
        m = OBJECT.match(line)
        if m:
            out.append([len(m.group(1)), m.group(2), []])
        elif out:
            out[-1][2].append(line)
        elif line:
            g.fail('text before the first value', text=text)
    return [(n, c, '\n'.join(ls)) for n, c, ls in out]


def members(o):
    """[(field name or None, part)] in the order they are shown"""
    if isinstance(o, core.Sequence):
        n = len(o)
        names = [f[0] for f in o._fields] if o._fields else [str(i) for i in range(n)]
        out = [(names[i], o[i]) for i in range(n)]
        return [(n, k) for n, k in out if not isinstance(k, core.Void)]
    return [(None, k) for _, k in graph.kids(o)]


def tree(o, depth=0, field=None):
    """[(depth, part, has parts, name of the field it is)] in the order they are shown"""
    ks = members(o)
    out = [(depth, o, bool(ks), field)]
    for name, k in ks:
        out.extend(tree(k, depth + 1, name))
    return out


def look(g, o, what, exact=True):
    """what is printed of o against its parts"""
    text = printed(g, o)
    # (parts with an indefinite length get other octets when the value is encoded)
    before = o.dump() if exact else None
    got = blocks(g, text, o)
    want = tree(o)
    g.eq([c for _, c, _ in got], ['%s.%s' % (type(p).__module__, type(p).__name__) for _, p, _, _ in want], what + ': the classes of all parts')
    stack = []
    prev = None
    for (indent, _, body), (depth, p, inner, field) in zip(got, want):
        g.unit()
        del stack[depth:]
        g.true(not stack or indent > stack[-1], what + ': a part is not deeper than what it is in', text=text)
        stack.append(indent)
        if field is not None:
            g.true(prev is not None and prev.rstrip('\n').endswith('Field "%s"' % field), what + ': name of a field', field=field, text=text)
        prev = body
        if not exact or isinstance(p, core.Concat):
            continue
        data = p.contents or b''
        m = re.search(r'^ *Data: 0x([0-9a-f]*)$', body, re.M)
        g.true(m is not None, what + ': no contents', text=text)
        g.eq(m.group(1), data.hex(), what + ': contents of a part', cls=type(p))
        if isinstance(p, (core.Choice, core.Any)):
            continue
        enc = p.dump()
        lines = body[:m.start()].split('\n')
        m = re.search(r'^ *Header: 0x([0-9a-f]*)$', body, re.M)
        if m:
            head = bytes.fromhex(m.group(1))
            t = re.search(r'^ *Trailer: 0x([0-9a-f]*)$', body, re.M)
            whole = head + data + (bytes.fromhex(t.group(1)) if t else b'')
            g.true(enc.startswith(head) and len(head) >= 2, what + ': header of a part', header=head, encoding=enc)
            g.eq(whole, enc, what + ': header, contents and trailer make up the encoding', cls=type(p))
        heads = wrappers(enc, data, p)
        said = [l.strip() for l in lines if re.search(r'\b(universal|application|context|private)\b', l)]
        g.eq(len(said), len(heads), what + ': tags of a part', said=said, cls=type(p))
        # (in which order the outer tags are shown is not promised)
        outer = sorted((c, str(tag)) for c, _, tag in heads[:-1])
        g.eq(sorted((c, w) for line in said[:-1] for c in CLASS for w in line.split() if CLASS[c] in line.split() and w.isdigit()), outer, what + ': explicit tags', said=said)
        g.true(all('explicitly' in line for line in said[:-1]), what + ': explicit tags', said=said)
        c, method, tag = heads[-1]
        if c != 0 and not p.implicit or method != type(p).method and not isinstance(p, core.Constructable) or isinstance(p, x509.EmailAddress):
            # octets read without a type that are not one's encoding; an address spelt as another string, which is tolerated
            continue
        words = said[-1].split()
        g.true(CLASS[c] in words and str(tag) in words and METHOD[method] in words, what + ': class, method and tag', line=said[-1], want=(c, method, tag))
        if not inner and not isinstance(p, (core.Sequence, core.SequenceOf)):
            m = re.search(r'^ *Native: (.*)\Z', body, re.M | re.S)
            g.true(m is not None, what + ': no native value', text=text)
            shown = m.group(1)
            # (the name of the next field follows)
            g.true(shown.startswith(str(p.native)), what + ': native value', got=shown, want=str(p.native))
    if exact:
        g.eq(o.dump(), before, what + ': encoding after it was shown')
        g.eq(plain(printed(g, o)), plain(text), what + ': shown again')
    deeper = blocks(g, printed(g, o, nest_level=4), o)
    g.eq([n - got[0][0] for n, _, _ in got], [n - deeper[0][0] for n, _, _ in deeper], what + ': layout at another level')
    g.true(deeper[0][0] > got[0][0], what + ': indentation at another level')
    return got


def wrappers(enc, data, p):
    """[(class, method, tag)] from the outermost tag to the one of the value itself"""
    out = []
    n = len(p.explicit or ())
    pos = 0
    for i in range(n + 1):
        t = header(enc, pos)
        out.append(t[:3])
        pos = t[3]
    return out


def header(enc, pos):
    """(class, method, tag, position of the contents)"""
    b = enc[pos]
    pos += 1
    tag = b & 31
    if tag == 31:
        tag = 0
        while True:
            x = enc[pos]
            pos += 1
            tag = tag << 7 | x & 127
            if not x & 128:
                break
    n = enc[pos]
    pos += 1
    if n & 128:
        pos += n & 127
    return b >> 6, b >> 5 & 1, tag, pos


def handle(g, o, data=None):
    """o after some reads, perhaps a copy of it; data: what it was loaded from"""
    if data is not None and g.draw(4) == 0:
        # nothing was read so far: all of the octets are shown
        top = blocks(g, printed(g, o), o)[0][2]
        if not isinstance(o, (core.Choice, core.Any)):
            shown = re.findall(r'^ *(?:Header|Trailer|Data): 0x([0-9a-f]*)$', top.split('Field "')[0], re.M)
            if 'Trailer' in top:
                shown[1:] = shown[:0:-1]
            g.eq(''.join(shown), data.hex(), 'header, contents and trailer of a loaded value')
            g.label('fresh')
        return o
    hist = []
    for _ in range(g.draw(4)):
        hist.append(graph.read(g, o))
    k = g.draw(6)
    g.log('reads', hist, 'then', k)
    if k < 3:
        o = [lambda x: x.copy(), copy.copy, copy.deepcopy][k](o)
    return o


@check.prop(12000, 250000)
def declared(g):
    """values of generated schemas"""
    ty = POOL.pick(g)
    a = ty.gen(g)
    t = tagging(g, implicit=not isinstance(ty, (model.Union, model.AnyOf)))
    g.log('type', show(ty), t)
    k = 0
    if g.draw(3) == 0:
        kw = notation(g, t)
        if not readable(ty.cls.load(t.apply(ty.node(a)).der(), **kw)):
            return
        o = handle(g, ty.cls(ty.inp(g, a), **kw))
    else:
        k = g.draw(3)
        b = None if k == 0 else ref.Ber(g, indefinite=False, segment=False) if k == 1 else ref.Ber(g)
        node = t.apply(ty.node(a))
        data = b.spell(node) if b else node.der()
        g.log('octets', data)
        kw = notation(g, t)
        if not readable(ty.cls.load(data, **kw)):
            return
        o = handle(g, ty.cls.load(data, **kw), data)
    got = look(g, o, 'value', k < 2)
    if len(got) > 1:
        g.nontrivial((show(ty), o.dump()))
        g.sample('%s: %s' % (show(ty)[:200], o.dump().hex()[:200]))


def readable(o):
    """whether everything in it can be read"""
    try:
        for _, p, _, _ in tree(o):
            if not isinstance(p, core.Concat):
                p.native
    except (ValueError, TypeError):
        return False
    return True


@check.prop(8000, 150000)
def predefined(g):
    """values of the predefined structures and documents, as what they are and untyped"""
    if g.draw(3):
        path = g.choice(predef.PATHS)
        ty = predef.build(path)
        data = model.der(ty, predef.value(g, ty))
        cls = resolve(path)
    else:
        path, datas = g.choice(corpus.parts())
        cls, data = resolve(path), g.choice(datas)
    if g.draw(4) == 0:
        cls = core.Asn1Value
    g.log('class', path, cls)
    g.log('octets', data)
    try:
        o = cls.load(data)
    except ValueError:
        # a tag that says nothing of the type
        g.true(cls is core.Asn1Value, 'refused')
        return
    if not readable(o):
        return
    o = handle(g, cls.load(data), data)
    got = look(g, o, 'value')
    if len(got) > 1:
        g.nontrivial((cls.__name__, data))
        g.sample('%s: %s' % (path, data.hex()[:200]))


@check.prop(5000, 100000)
def octets(g):
    """strings that may hold an encoded value or something else"""
    data = g.bytes(0, 10) if g.draw(3) else ref.seq(ref.octets(g.bytes(0, 5)))
    cls = g.choice([core.ParsableOctetString, core.ParsableOctetBitString])
    k = g.draw(3)
    g.log('class', cls, 'holding', data, 'way', k)
    if k == 0:
        o = cls(data)
    else:
        o = cls.load(ref.octets(data) if cls is core.ParsableOctetString else ref.bitstr(data))
    if k == 2:
        o.native
    outer = core.Sequence.load(ref.seq(o.dump()))
    holds = True
    try:
        if not readable(cls.load(o.dump()).parsed):
            return
    except (ValueError, TypeError):
        holds = False
    text = printed(g, o)
    got = blocks(g, text, o)
    g.true((len(got) > 1) == holds, 'parts of an octet string', text=text)
    g.true(('Data: 0x%s' % o.contents.hex()) in text, 'contents', text=text)
    if not holds:
        g.true(text.rstrip('\n').endswith('Native: %s' % (o.native,)), 'native value', text=text)
        g.eq(o.native, data, 'native value after it was shown')
    g.eq(bytes(o), data, 'octets after it was shown')
    look(g, outer, 'untyped value')
    g.nontrivial((cls.__name__, data, k))
    g.sample('%s: %s' % (cls.__name__, data.hex()))
