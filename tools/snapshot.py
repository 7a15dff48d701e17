"""Dumps the declared schemas of asn1crypto into data/schema.json.

Run once against the pristine tree (and reviewed against the standards); the
checks only ever read the committed file, so a later change of a declaration
shows up as a disagreement with it.
"""
import json
import os
import sys

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from asn1crypto import (algos, cms, core, crl, csr, keys, ocsp, pdf, pkcs12, tsp, x509)  # noqa

MODS = [core, algos, x509, keys, crl, csr, ocsp, cms, tsp, pkcs12, pdf]
NAMES = dict((m, m.__name__.split('.')[1]) for m in MODS)


def path_of(c):
    if c is None:
        return None
    for m in MODS:
        if m.__name__ == c.__module__ and getattr(m, c.__name__, None) is c:
            return NAMES[m] + '.' + c.__name__
    raise SystemExit('no path for %r' % c)


def params(p):
    out = {}
    for k, v in (p or {}).items():
        out[k] = conv(v)
    return out


def conv(v):
    if isinstance(v, bytes):
        return ['bytes', v.hex()]
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return ['tuple'] + [conv(x) for x in v]
    if isinstance(v, list):
        return ['list'] + [conv(x) for x in v]
    if isinstance(v, dict):
        return ['dict', dict((str(k), conv(x)) for k, x in v.items())]
    if isinstance(v, set):
        return ['set'] + sorted(conv(x) for x in v)
    if isinstance(v, type):
        return ['class', path_of(v)]
    raise SystemExit('cannot convert %r' % (v,))


out = {}
for m in MODS:
    for name, c in sorted(vars(m).items()):
        if not isinstance(c, type) or c.__module__ != m.__name__:
            continue
        if not issubclass(c, (core.Asn1Value, core.Concat)):
            continue
        if issubclass(c, core.Asn1Value):
            try:
                c()
            except Exception as e:
                print('cannot instantiate', c, e, file=sys.stderr)
        d = {'bases': [b.__name__ for b in c.__mro__ if b.__module__.startswith('asn1crypto')][1:]}
        d['module'] = NAMES[m]
        for k in ('tag', 'class_', 'method'):
            if hasattr(c, k):
                d[k] = getattr(c, k)
        d['explicit'] = conv(getattr(c, 'explicit', None))
        d['implicit'] = conv(getattr(c, 'implicit', None))
        if getattr(c, '_map', None):
            d['map'] = dict((str(k), v) for k, v in c._map.items())
        if isinstance(getattr(c, '_reverse_map', None), dict):
            dup = dict((k, str(v)) for k, v in c._reverse_map.items() if list(c._map.values()).count(k) > 1)
            if dup:
                d['preferred'] = dup
        if issubclass(c, core.Sequence):
            d['kind'] = 'set' if issubclass(c, core.Set) else 'sequence'
            d['fields'] = [[f[0], path_of(f[1]), params(f[2] if len(f) > 2 else {})] for f in c._fields]
            d['oid_pair'] = list(c._oid_pair) if c._oid_pair else None
            d['oid_specs'] = dict((k, path_of(v)) for k, v in c._oid_specs.items()) if c._oid_specs else None
            d['callbacks'] = sorted(c._spec_callbacks) if c._spec_callbacks else None
        elif issubclass(c, core.SequenceOf):
            d['kind'] = 'setof' if issubclass(c, core.SetOf) else 'sequenceof'
            d['child'] = path_of(c._child_spec)
        elif issubclass(c, core.Choice):
            d['kind'] = 'choice'
            d['alternatives'] = [[f[0], path_of(f[1]), params(f[2] if len(f) > 2 else {})] for f in (c._alternatives or [])]
        elif issubclass(c, core.Concat):
            d['kind'] = 'concat'
            d['child_specs'] = [path_of(x) for x in (c._child_specs or [])]
        else:
            for k in ('Any', 'ObjectIdentifier', 'Enumerated', 'Integer', 'Boolean', 'Null', 'OctetBitString', 'IntegerBitString',
                      'ParsableOctetBitString', 'BitString', 'IntegerOctetString', 'ParsableOctetString', 'OctetString',
                      'UTCTime', 'GeneralizedTime', 'AbstractTime', 'AbstractString', 'Void', 'Primitive'):
                if issubclass(c, getattr(core, k)):
                    d['kind'] = k.lower()
                    break
            else:
                d['kind'] = 'other'
        if hasattr(c, '_encoding'):
            d['encoding'] = c._encoding
        out[NAMES[m] + '.' + name] = d

json.dump(out, sys.stdout, indent=0, sort_keys=True)
