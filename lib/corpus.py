"""Real documents (frozen copies of the repository's fixtures) and their generic value trees."""
import json
import os

from lib import ref
from lib.schema import resolve

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'data', 'corpus.json')) as fh:
    DOCS = [(d['name'], d['cls'], bytes.fromhex(d['hex'])) for d in json.load(fh)]

STRINGS = (4, 12, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30)


def docs(prefix=None):
    return [d for d in DOCS if prefix is None or d[1].startswith(prefix)]


def cls_of(doc):
    return resolve(doc[1])


def nodes(data, pos=0, end=None, segment=True):
    """Node trees of the values in data[pos:end], which may be BER"""
    end = len(data) if end is None else end
    out = []
    while pos < end:
        n, pos = node_at(data, pos, segment)
        out.append(n)
    return out


def node_at(data, pos, segment=True):
    cls, cons, tag, size, p = ref.read_header(data, pos)
    if cons:
        kids = []
        if size is None:
            while data[p:p + 2] != b'\x00\x00':
                k, p = node_at(data, p, segment)
                kids.append(k)
            stop = p + 2
        else:
            stop = p + size
            kids = nodes(data, p, stop, segment)
        # SET members may come in any order, but only the class knows DER order
        kind = 'set' if (cls, tag) == (0, 17) else 'seq'
        return ref.Node(cls, tag, kind, kids=kids), stop
    content = data[p:p + size]
    kind, seg = 'prim', 4
    if cls == 0 and segment:
        if tag in STRINGS:
            kind, seg = 'string', tag
        elif tag == 3 and content:
            kind, seg = 'bits', 3
    if (cls, tag) == (0, 1):
        kind = 'bool'
    return ref.Node(cls, tag, kind, content, seg_tag=seg), p + size


def tree(data, segment=True):
    n, stop = node_at(data, 0, segment)
    assert stop == len(data)
    return n


def _segmented(n):
    return n.kind == 'seq' and n.cls == 0 and n.tag in STRINGS + (3,) or any(_segmented(k) for k in n.kids)


# documents with definite lengths and primitive strings throughout
TIDY = set(d[0] for d in DOCS if ref.is_der_framing(d[2]) and not _segmented(tree(d[2])))


_parts = []


def parts():
    """[(class path, octets)] of typed parts of the documents, smaller classes first"""
    if not _parts:
        with open(os.path.join(HERE, 'data', 'parts.json')) as fh:
            d = json.load(fh)
        for k in sorted(d):
            _parts.append((k, [bytes.fromhex(x) for x in d[k]]))
    return _parts
