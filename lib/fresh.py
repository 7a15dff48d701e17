"""Run as a program: imports and uses modules of the code under test in the order given, then tells what all tables say.

argv: repository, then JSON steps [["import", module] | ["use", module, class, number] | ["reload"]]
"""
import importlib
import json
import sys

MODULES = ['algos', 'cms', 'core', 'crl', 'csr', 'keys', 'ocsp', 'pdf', 'pem', 'pkcs12', 'tsp', 'x509']


def use(cls, k):
    from asn1crypto import core
    if issubclass(cls, core.ObjectIdentifier):
        table = sorted((cls._map or {}).items())
        if not table:
            return cls(u'1.2.3').native
        oid, name = table[k % len(table)]
        return [lambda: cls.unmap(name), lambda: cls.map(oid), lambda: cls(name).dotted, lambda: cls(oid).native][k % 4]()
    if issubclass(cls, core.Choice):
        return sorted(a[0] for a in cls._alternatives)
    return cls().native


def probe():
    """every name of every table in both directions"""
    from asn1crypto import core
    out = {}
    for m in MODULES:
        importlib.import_module('asn1crypto.' + m)
    for m in MODULES:
        mod = importlib.import_module('asn1crypto.' + m)
        for n in sorted(vars(mod)):
            cls = vars(mod)[n]
            if not isinstance(cls, type) or cls.__module__ != mod.__name__:
                continue
            rows = []
            # (some tables are completed by the first value)
            try:
                cls()
            except Exception:
                pass
            table = getattr(cls, '_map', None)
            if table and issubclass(cls, (core.ObjectIdentifier, core.Integer)):
                for key in sorted(table, key=str):
                    try:
                        v = cls(table[key])
                        w = cls(key)
                        rows.append([str(key), v.dump().hex(), w.dump().hex(), w.native])
                    except Exception as e:
                        rows.append([str(key), type(e).__name__])
            if table and issubclass(cls, core.BitString):
                for key in sorted(table):
                    try:
                        v = cls(set([table[key]]))
                        rows.append([str(key), v.dump().hex(), sorted(map(str, v.native))])
                    except Exception as e:
                        rows.append([str(key), type(e).__name__])
            specs = getattr(cls, '_oid_specs', None)
            if specs:
                rows.append(sorted((str(k), str(getattr(v, '__name__', v))) for k, v in specs.items()))
            if rows:
                out[m + '.' + n] = rows
    return out


if __name__ == '__main__':
    sys.path.insert(0, sys.argv[1])
    for step in json.loads(sys.argv[2]):
        if step[0] == 'reload':
            # everything that is loaded, in the order that is documented for that
            for name in importlib.import_module('asn1crypto').load_order():
                if name in sys.modules:
                    importlib.reload(sys.modules[name])
            continue
        mod = importlib.import_module('asn1crypto.' + step[1])
        if step[0] == 'use':
            cls = getattr(mod, step[2], None)
            if cls is not None:
                try:
                    use(cls, step[3])
                except Exception:
                    # (what is refused is decided elsewhere)
                    pass
    print(json.dumps(probe(), sort_keys=True))
