"""Freezes data/parts.json: encodings of the typed parts of the corpus documents, by class.
Run once against the pristine tree; checks only read the result."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]
from lib import corpus, graph
from lib.schema import DATA
from asn1crypto import core

out = {}


def path(cls):
    p = '%s.%s' % (cls.__module__.split('.')[-1], cls.__name__)
    return p if p in DATA or cls.__module__.endswith('core') else None


def visit(o, depth=0):
    if depth > 30 or isinstance(o, core.Void):
        return
    if isinstance(o, core.Asn1Value):
        p = path(type(o))
        if p and not isinstance(o, core.Any):
            try:
                d = o.untag().dump()
            except (ValueError, TypeError):
                d = None
            if d and len(d) <= 1500:
                s = out.setdefault(p, [])
                if d.hex() not in s and len(s) < 12:
                    s.append(d.hex())
    for _, k in graph.kids(o):
        visit(k, depth + 1)


for name, cls, data in corpus.DOCS:
    visit(corpus.cls_of((name, cls, data)).load(data))
with open(os.path.join(HERE, 'data', 'parts.json'), 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
print(len(out), sum(map(len, out.values())))
