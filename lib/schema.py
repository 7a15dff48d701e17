"""Access to the frozen schema snapshot (data/schema.json)."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'data', 'schema.json')) as fh:
    DATA = json.load(fh)

MODULES = ['core', 'algos', 'x509', 'keys', 'crl', 'csr', 'ocsp', 'cms', 'tsp', 'pkcs12', 'pdf']
for _m in MODULES:
    # pdf and tsp extend tables of x509 and cms on import; the snapshot was
    # taken with every module loaded
    importlib.import_module('asn1crypto.' + _m)


def resolve(path):
    mod, name = path.split('.')
    return getattr(importlib.import_module('asn1crypto.' + mod), name)


def named(kind):
    """[(path, kind, {str(number): name})] of every declared table of that kind, in a fixed order"""
    return [(p, kind, DATA[p]['map']) for p in sorted(DATA) if DATA[p]['kind'] == kind and DATA[p].get('map')]
