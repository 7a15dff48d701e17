"""C32: results depend on their own inputs, not on earlier or concurrent use of the library."""
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import traceback
from collections import OrderedDict

from lib.sched import Schedule  # (before the code under test)
from lib.pbt import Check, Gen, REPO, VERIF
from lib import ref, model, corpus, graph
from checks.c08 import show
from asn1crypto import algos, cms, core, keys, pem, util, x509

check = Check('C32', rule=(
    'two or three threads, each with values of its own, build, decode, read, re-encode and copy values of the same types, which none of them had '
    'used before, under a generated schedule that switches between them at up to six places in the code, or one after the other; families of '
    'classes that extend one another, first used in any order; modules of the library imported and used in any order. Oracle: the abstract values '
    'and their reference encodings, the declared tables, or what the same work gives alone in a new process. Non-trivial: a switch happened while '
    'a thread was inside the library, or something was used before; distinct by type, work and schedule.'))


def schedule(g, steps):
    """up to six switches; the first use of a type is at the beginning"""
    out = []
    for _ in range(g.draw(7)):
        out.append((1 + g.draw(g.choice([40, 200, 1000, steps])), g.draw(2)))
    return out


def fresh(g):
    seed = g.draw(100000)
    return model.Builder(random.Random(seed * 104729 + 7), budget=2 + g.draw(8)).top(seed)


def work(g, ty, a):
    """(name, what the thread does, whether it got what it has to)"""
    der = model.der(ty, a)
    seed = g.draw(1 << 16)

    def obj():
        return ty.obj(Gen(random.Random(seed)), a)
    # (octets may turn a parsed string into what they were parsed as)
    k = g.draw(5)
    if k == 0:
        return 'build', lambda: obj().dump(), lambda got: got == der
    if k == 1:
        return 'decode', lambda: ty.cls.load(der).native, lambda got: model.matches(ty, model.decoded(ty, a), got)
    if k == 2:
        ber = ref.Ber(g).spell(ty.node(a))
        return 'force', lambda: ty.cls.load(ber).dump(force=True), lambda got: got == der
    if k == 3:
        def both():
            o = ty.cls.load(der)
            n = o.native
            return n, o.copy().dump(force=True)
        return 'copy', both, lambda got: model.matches(ty, model.decoded(ty, a), got[0]) and got[1] == der
    return 'round trip', lambda: ty.cls.load(obj().dump()).native, lambda got: model.matches(ty, model.decoded(ty, a), got)


@check.prop(7000, 150000)
def first_use(g):
    ty = fresh(g)
    g.log('type', show(ty))
    jobs = []
    for _ in range(2 + (g.draw(3) == 0)):
        a = ty.gen(g)
        name, fn, ok = work(g, ty, a)
        jobs.append((name, a, fn, ok))
    g.log('work', [(j[0], j[1]) for j in jobs])
    s = Schedule(schedule(g, 4000))
    plan = list(s.switches)
    got = s.run([j[2] for j in jobs])
    g.log('switches', s.at)
    for (name, a, _, ok), (how, what) in zip(jobs, got):
        if how == 'raises':
            g.fail('a thread failed', work=name, value=a, error=repr(what), switches=s.at)
        if not ok(what):
            g.fail('a thread got something else', work=name, value=a, got=what, switches=s.at)
        g.unit()
    if s.at or len(jobs) > 1:
        g.nontrivial((show(ty), [(j[0], j[1]) for j in jobs], plan))
        g.sample('%s: %s, switches at %s' % (show(ty)[:200], [j[0] for j in jobs], s.at))


# ------------------------------------------------------------ real documents


def stable(x):
    """something that compares across processes"""
    if isinstance(x, (core.Asn1Value, core.Concat)):
        return type(x).__name__ + ':' + x.dump().hex()
    if isinstance(x, (list, tuple)):
        return [stable(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, dict):
        return [(k, stable(v)) for k, v in x.items()]
    if hasattr(x, 'isoformat'):
        return x.isoformat()
    if hasattr(x, 'native'):
        return repr(x.native)
    return repr(x)


def visit(cls, data, plan):
    """what a reading of a document gives"""
    out = []
    o = cls.load(data)
    part = o
    for k, n in plan:
        try:
            if k == 0:
                got = stable(part.native)
            elif k == 1:
                got = part.dump().hex()
            elif k == 2:
                part = o
                got = part.copy().dump(force=True).hex()
            elif k == 3:
                names = graph.props(type(part))
                got = stable(getattr(part, names[n % len(names)])) if names else None
            else:
                ks = graph.kids(part)
                part = ks[n % len(ks)][1] if ks else o
                got = type(part).__name__
        except Exception as e:
            # (what is refused is decided elsewhere)
            got = type(e).__name__
        out.append(got)
    return out


def forked(fn):
    """the result of a process in which nothing of the library was used before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 30)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(fn()))
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError('the child failed')
    return pickle.loads(data)


def told(outcome):
    how, what = outcome
    return (how, what) if how == 'ok' else (how, type(what).__name__)


def pick_plan(g):
    return [(g.draw(6), g.draw(40)) for _ in range(1 + g.draw(5))]


@check.prop(900, 30000)
def documents(g):
    jobs = []
    one = g.choice(corpus.DOCS)
    for _ in range(2 + (g.draw(4) == 0)):
        doc = one if g.draw(2) else g.choice([d for d in corpus.DOCS if d[1] == one[1]])
        jobs.append((doc, pick_plan(g)))
    g.log('documents', [(d[0], p) for d, p in jobs])
    plan = schedule(g, 30000)

    def fns():
        return [lambda d=d, p=p: visit(corpus.cls_of(d), d[2], p) for d, p in jobs]

    def together():
        s = Schedule(plan)
        return [told(x) for x in s.run(fns())], s.at

    got, at = forked(together)
    want = [forked(lambda f=f: ('ok', f())) for f in fns()]
    g.log('switches', at)
    for (doc, p), a, b in zip(jobs, got, want):
        if a != b:
            g.fail('work gave something else than alone', document=doc[0], reads=p, got=a, want=b, switches=at)
        g.unit(len(p))
    if at or len(jobs) > 1:
        g.nontrivial(([(d[0], p) for d, p in jobs], plan))
        g.sample('%s, switches at %s' % ([(d[0], p) for d, p in jobs], at))


# ------------------------------------------------------------ everything else


def texts(g):
    return ''.join(g.choice('abcXYZ019 .-\u00e9\u0434\u4e2d') for _ in range(1 + g.draw(8)))


def host(g):
    return '.'.join(''.join(g.choice('abcz09\u00e9\u4e2d') for _ in range(1 + g.draw(5))) for _ in range(1 + g.draw(3)))


def calls():
    def names(g):
        d = [(k, texts(g)) for k in g.perm(['common_name', 'organization_name', 'country_name', 'email_address', 'domain_component'])[:1 + g.draw(3)]]
        d = [(k, v[:2] if k == 'country_name' else 'a@' + 'b.c' if k == 'email_address' else 'x' + 'y' * len(v) if k == 'domain_component' else v) for k, v in d]

        def fn():
            n = x509.Name.build(OrderedDict(d))
            m = x509.Name.load(n.dump())
            return n.dump().hex(), n.hashable, m == n, m.human_friendly, m.sha1.hex(), stable(m.native)
        return fn

    def uri(g):
        u = 'http://%s/%s?%s' % (host(g), texts(g).replace(' ', ''), texts(g).replace(' ', ''))

        def fn():
            v = x509.URI(u)
            return v.dump().hex(), x509.URI.load(v.dump()).native, v == x509.URI(u)
        return fn

    def mail(g):
        u = '%s@%s' % (''.join(g.choice('abcAB') for _ in range(3)), host(g))
        return lambda: (x509.EmailAddress(u).dump().hex(), x509.EmailAddress(u) == x509.EmailAddress(u.upper()), x509.EmailAddress(u).native)

    def dns(g):
        u = host(g)
        return lambda: (x509.DNSName(u).dump().hex(), x509.DNSName.load(x509.DNSName(u).dump()).native)

    def address(g):
        u = '%d.%d.%d.%d/%d' % (g.draw(256), g.draw(256), g.draw(256), g.draw(256), g.draw(33)) if g.draw(2) else '2001:%x::%x/%d' % (g.draw(65536), g.draw(65536), g.draw(129))
        return lambda: (x509.IPAddress(u).dump().hex(), x509.IPAddress.load(x509.IPAddress(u).dump()).native)

    def armour(g):
        data, name = g.bytes(0, 100), g.choice(['CERTIFICATE', 'X', 'PRIVATE KEY'])

        def fn():
            t = pem.armor(name, data)
            return t, [stable(x) for x in pem.unarmor(t + t, multiple=True)], pem.detect(t)
        return fn

    def numbers(g):
        n = g.int(-(1 << 90), 1 << 90)
        return lambda: (util.int_to_bytes(n, signed=True).hex(), util.int_from_bytes(util.int_to_bytes(n, signed=True), signed=True))

    def times(g):
        # offsets that differ in the hours, in the sign, or by a day
        off = g.choice([0, 300, 330, g.draw(1440)])
        off = g.choice([off, -off, off - 1440 if off else 0, 1440 - off if off else 0])
        text = '%04d0102030405%s%02d%02d' % (g.draw(9999), '+' if off >= 0 else '-', abs(off) // 60, abs(off) % 60)
        data = bytes(bytearray([24, len(text)])) + text.encode('ascii')

        def fn():
            t = core.GeneralizedTime.load(data)
            return stable(t.native), str(t.native), t.copy().dump(force=True).hex()
        return fn

    def ids(g):
        cls = g.choice([algos.DigestAlgorithmId, algos.SignedDigestAlgorithmId, algos.EncryptionAlgorithmId, algos.AnyAlgorithmId, keys.NamedCurve,
                        x509.ExtensionId, x509.NameType, cms.ContentType, algos.HmacAlgorithmId, x509.KeyPurposeId])
        k = g.draw(60)

        def fn():
            table = sorted(cls._map.items()) if cls is not algos.AnyAlgorithmId else sorted(algos.DigestAlgorithmId._map.items())
            oid, name = table[k % len(table)]
            return cls.map(oid), cls.unmap(name), cls(name).dotted, cls(oid).native, cls(name).dump().hex()
        return fn

    def alg(g):
        name = g.choice(['sha256_rsa', 'md5_rsa', 'sha1_dsa', 'sha512_ecdsa', 'ed25519'])

        def fn():
            a = algos.SignedDigestAlgorithm({'algorithm': name})
            b = algos.AnyAlgorithmIdentifier({'algorithm': name})
            return a.dump().hex(), b.dump().hex(), a.signature_algo, stable(b.native)
        return fn

    def preference(g):
        k = g.draw(3)

        def fn():
            name = ['subject_alt_key_identifier', 'subjectAltKeyIdentifier', 'recipientKeyId'][k]
            if k < 2:
                p = cms.SMIMEEncryptionKeyPreference(name, b'abc')
                return p.dump().hex(), p.name
            p = cms.SMIMEEncryptionKeyPreference(name, {'subjectKeyIdentifier': b'abc'})
            return p.dump().hex(), p.chosen['subjectKeyIdentifier'].native
        return fn

    def point(g):
        x, y = g.nat(256), g.nat(256)
        return lambda: (keys.ECPoint.from_coords(x, y).dump().hex(), keys.ECPoint.from_coords(x, y).to_coords())

    def text(g):
        t = ''.join(g.choice('ab\u00e9\u00f7') for _ in range(4))
        return lambda: (core.TeletexString(t).dump().hex(), core.TeletexString.load(core.TeletexString(t).dump()).native)
    return [names, uri, mail, dns, address, armour, numbers, times, ids, alg, preference, point, text]


CALLS = calls()


@check.prop(1600, 50000)
def functions(g):
    """the same for names, tables, texts, times and numbers"""
    n = 2 + (g.draw(4) == 0)
    kind = g.choice(CALLS)
    jobs = [[(kind if g.draw(3) else g.choice(CALLS)) for _ in range(1 + g.draw(3))] for _ in range(n)]
    work = [[k(g) for k in ks] for ks in jobs]
    names = [[k.__name__ for k in ks] for ks in jobs]
    g.log('work', names)
    plan = schedule(g, 8000)

    def run(fs):
        out = []
        for f in fs:
            try:
                out.append(repr(f()))
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def together():
        s = Schedule(plan)
        return [told(x) for x in s.run([lambda fs=fs: run(fs) for fs in work])], s.at

    got, at = forked(together)
    want = [('ok', sum([forked(lambda f=f: run([f])) for f in fs], [])) for fs in work]
    g.log('switches', at)
    for k, a, b in zip(names, got, want):
        if a != b:
            g.fail('work gave something else than alone', work=k, got=a, want=b, switches=at)
        g.unit(len(k))
    if at or len(jobs) > 1:
        g.nontrivial((names, got, plan))
        g.sample('%s, switches at %s' % (names, at))


# ------------------------------------------------------------ classes that extend others


NUMBERS = [(core.Integer, 2), (core.Enumerated, 10)]


def family(g, base, keys):
    """[(class, its table)]: each extends one before it, with or without a table of its own"""
    out = []
    for i in range(2 + g.draw(3)):
        parent, inherited = (base, None) if not out or g.draw(4) == 0 else g.choice(out)
        attrs = {}
        table = inherited
        if table is None or g.draw(3):
            names = g.perm(['one', 'two', 'three', 'four', 'five'])
            table = dict((k, names[j]) for j, k in enumerate(g.perm(keys)[:1 + g.draw(4)]))
            attrs['_map'] = table
        out.append((type(str('Family%d' % i), (parent,), attrs), table))
    return out


@check.prop(8000, 120000)
def families(g):
    k = g.draw(3)
    if k == 0:
        base, tag = g.choice(NUMBERS)
        keys_ = [0, 1, 2, 5, 200]
        encode = lambda key: ref.tlv(0, 0, tag, ref.int_content(key))
    elif k == 1:
        base, tag = core.ObjectIdentifier, 6
        keys_ = ['1.2.3', '2.5.4.3', '2.999.7', '1.3.6.1', '0.9.2342']
        encode = lambda key: ref.tlv(0, 0, 6, ref.oid_content(key))
    else:
        base, tag = core.BitString, 3
        keys_ = [0, 1, 3, 8, 17]
        encode = lambda key: ref.named_bits([key])
    fam = family(g, base, keys_)
    g.log('family', base.__name__, [(c.__name__, c.__bases__[0].__name__, t) for c, t in fam])
    hist = []
    for _ in range(2 + g.draw(6)):
        i = g.draw(len(fam))
        cls, table = fam[i]
        key = g.choice(sorted(table, key=str))
        name = table[key]
        how = g.draw(4)
        hist.append((i, how, name))
        der = encode(key)
        if how == 0:
            v = cls(set([name])) if k == 2 else cls(name)
            g.eq(v.dump(), der, 'encoding of a name', hist=hist)
        elif how == 1:
            n = cls.load(der).native
            g.eq(n, set([name]) if k == 2 else name, 'name of an encoding', hist=hist)
        elif how == 2 and k == 1:
            g.eq(cls.unmap(name), key, 'unmap', hist=hist)
        elif how == 3 and k == 1:
            g.eq(cls.map(key), name, 'map', hist=hist)
        else:
            # a name that only others have
            other = g.choice(['one', 'two', 'three', 'four', 'five'])
            if other not in table.values():
                try:
                    got = (cls(set([other])) if k == 2 else cls(other)).dump()
                except ValueError:
                    pass
                else:
                    g.fail('a name of another class was accepted', name=other, got=got, hist=hist)
    g.log('history', hist)
    if len(set(h[0] for h in hist)) > 1:
        g.nontrivial((base, [t for _, t in fam], hist))
        g.sample('%s %s: %s' % (base.__name__, [t for _, t in fam], hist))


# ------------------------------------------------------------ modules


TABLES = [('algos', 'DigestAlgorithmId'), ('algos', 'EncryptionAlgorithmId'), ('algos', 'AnyAlgorithmId'), ('algos', 'AnyAlgorithmIdentifier'),
          ('algos', 'SignedDigestAlgorithmId'), ('cms', 'ContentType'), ('cms', 'CMSAttributeType'), ('cms', 'CMSAttribute'), ('cms', 'ContentInfo'),
          ('cms', 'EncapsulatedContentInfo'), ('x509', 'ExtensionId'), ('x509', 'Extension'), ('x509', 'KeyPurposeId'), ('x509', 'NameType'),
          ('keys', 'NamedCurve'), ('keys', 'PublicKeyAlgorithmId'), ('crl', 'CRLReason'), ('ocsp', 'ResponseType'), ('csr', 'CSRAttributeType'),
          ('pkcs12', 'AttributeType'), ('tsp', 'PKIStatus'), ('pkcs12', 'BagId'), ('cms', 'AttCertAttributeType'), ('cms', 'KeyEncryptionAlgorithmId')]
PLAIN = []


def interpreter(steps):
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'lib', 'fresh.py'), REPO, json.dumps(steps)], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        return {'failed': [r.stderr.decode('utf-8', 'replace').strip().splitlines()[-1:]]}
    return json.loads(r.stdout.decode())


@check.prop(240, 6000)
def modules(g):
    """the tables are the same whatever was imported and used first"""
    from lib.fresh import MODULES
    if not PLAIN:
        PLAIN.append(interpreter([]))
    steps = []
    for _ in range(1 + g.draw(6)):
        k = g.draw(7)
        if k < 2:
            steps.append(['import', g.choice(MODULES)])
        elif k == 2:
            steps.append(['reload'])
        else:
            m, c = g.choice(TABLES)
            steps.append(['use', m, c, g.draw(100)])
    g.log('steps', steps)
    got, want = interpreter(steps), PLAIN[0]
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        if a != b:
            rows = [(x, y) for x, y in zip(a, b) if x != y] if a and b else None
            g.fail('a table depends on what was used before', table=k, got=rows and rows[0][0] or a, want=rows and rows[0][1] or b, steps=steps)
        g.unit(len(b))
    g.nontrivial(steps)
    g.sample('%s' % steps)
