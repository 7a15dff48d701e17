"""C22: what the accessors of a certificate report."""
import copy
import hashlib
import pickle

from lib.pbt import Check
from lib import ref, model, predef, certs
from lib.schema import DATA
from checks import c03
from asn1crypto import core, x509, pem

check = Check('C22', rule=(
    'certificates of any version, names, serial, validity, key and signature algorithm, with 0-8 extensions in any order, known (value generated from '
    'its definition or written next to the facts it states), known without accessor and unknown, critical or not, loaded, copied or pickled; all '
    'accessors in random orders; then certificates with one part damaged, whose accessors are asked twice, after one another and of fresh objects. '
    'Non-trivial: one extension or more; distinct by encoding.'))


def gen_key_id(g):
    b = g.choice([b'', b'\x00', b'key', b'\x01\x02\x03\x04']) if g.draw(2) else g.bytes(0, 20)
    return ref.octets(b), b


def gen_names(g):
    names = certs.gen_general_names(g, least=g.choice([1, 1, 1, 0]))
    return ref.seq(*[n.der for n in names]), names


SPECIAL = {
    'key_identifier': gen_key_id, 'subject_alt_name': gen_names, 'issuer_alt_name': gen_names, 'basic_constraints': certs.constraints,
    'crl_distribution_points': certs.points, 'freshest_crl': certs.points, 'authority_information_access': certs.access,
    'subject_information_access': certs.access,
    'authority_key_identifier': lambda g: certs.aki(g, [b'', b'\x00', b'key', b'\x01\x02\x03\x04']),
}
ACCESSORS = [
    'private_key_usage_period', 'subject_directory_attributes', 'key_identifier', 'key_usage', 'subject_alt_name', 'issuer_alt_name', 'basic_constraints',
    'name_constraints', 'crl_distribution_points', 'certificate_policies', 'policy_mappings', 'authority_key_identifier', 'policy_constraints', 'freshest_crl',
    'inhibit_any_policy', 'extended_key_usage', 'authority_information_access', 'subject_information_access', 'tls_feature', 'ocsp_no_check',
]
SPKI = predef.build('keys.PublicKeyInfo')


def gen_cert(g, favour=ACCESSORS, plain_key=False):
    exts = certs.gen_exts(g, 'x509.ExtensionId', 'x509.Extension', SPECIAL, favour)
    if not exts and g.draw(2):
        exts = None
    subject = certs.gen_name(g)
    k = g.draw(3)
    issuer = subject if k == 0 else certs.near_name(g, subject) if k == 1 else certs.gen_name(g)
    spki = None
    if not plain_key and g.draw(3) == 0:
        spki = model.der(SPKI, predef.value(g, SPKI, 20))
    return certs.write_cert(g, exts, subject, issuer, spki)


def find(c, name):
    for e in c.exts:
        if e.name == name:
            return e
    return None


def facts(c, name, default):
    e = find(c, name)
    return default if e is None else e.facts


def native_text(n):
    return n.kind == 'uri'


def see_extension(name):
    def see(g, c, o):
        got = getattr(o, name + '_value')
        e = find(c, name)
        if e is None:
            g.eq(got, None, 'value of an absent extension ' + name)
            return
        if got is None:
            g.fail('no value for an extension that is present', name=name)
        want = DATA['x509.Extension']['oid_specs'][name]
        g.eq(type(got).__name__, want.split('.')[1], 'class of the value of ' + name)
        g.eq(got.dump(), e.der, 'value of ' + name)
        if e.ty is not None and not model.matches(e.ty, e.value, got.native):
            g.fail('native of ' + name, got=got.native, want=e.ty.nat(e.value))
    return see


def see_critical(g, c, o):
    g.eq(o.critical_extensions, set(e.name for e in c.exts if e.critical), 'critical extensions')


def see_plain(g, c, o):
    g.eq(o.serial_number, c.serial, 'serial number')
    g.eq(o.not_valid_before, c.before, 'start of validity')
    g.eq(o.not_valid_after, c.after, 'end of validity')
    g.eq(o.signature, c.signature, 'signature')
    g.eq(o.signature_algo, c.sig, 'signature algorithm')
    g.eq(o.hash_algo, c.digest, 'hash algorithm')


def see_names(g, c, o):
    g.eq(o.subject.dump(), c.subject_der, 'subject')
    g.eq(o.issuer.dump(), c.issuer_der, 'issuer')
    g.eq(o.public_key.dump(), c.spki, 'public key')


def see_digests(g, c, o):
    one, two = hashlib.sha1(c.der), hashlib.sha256(c.der)
    g.eq(o.sha1, one.digest(), 'SHA-1')
    g.eq(o.sha256, two.digest(), 'SHA-256')
    g.eq(o.sha1_fingerprint, ' '.join('%02X' % b for b in one.digest()), 'SHA-1 fingerprint')
    g.eq(o.sha256_fingerprint, ' '.join('%02X' % b for b in two.digest()), 'SHA-256 fingerprint')


def see_issuer_serial(g, c, o):
    g.eq(o.issuer_serial, hashlib.sha256(c.issuer_der).digest() + b':' + str(c.serial).encode(), 'issuer and serial')


def see_key_id(g, c, o):
    g.eq(o.key_identifier, facts(c, 'key_identifier', None), 'key identifier')


def see_authority_key(g, c, o):
    f = facts(c, 'authority_key_identifier', None)
    g.eq(o.authority_key_identifier, f and f['key'], 'authority key identifier')


def see_authority_serial(g, c, o):
    f = facts(c, 'authority_key_identifier', None)
    want = None
    if f and f['issuer'] is not None and f['serial'] is not None:
        names = [n.value for n in f['issuer'] if n.kind == 'dir']
        if names:
            want = hashlib.sha256(names[0]).digest() + b':' + str(f['serial']).encode()
    g.eq(o.authority_issuer_serial, want, 'issuer and serial of the authority key identifier')


def see_points(g, c, o):
    certs.check_points(g, facts(c, 'crl_distribution_points', []), o.crl_distribution_points, 'CRL distribution points')


def see_delta_points(g, c, o):
    certs.check_points(g, facts(c, 'freshest_crl', []), o.delta_crl_distribution_points, 'delta CRL distribution points')


def see_point_urls(g, c, o):
    """every point by itself, named by a URI or not"""
    for name in ('crl_distribution_points', 'freshest_crl'):
        e = find(c, name)
        if e is None:
            continue
        for f, p in zip(e.facts, getattr(o, name + '_value')):
            if f['kind'] == 'relative':
                try:
                    p.url
                except ValueError:
                    continue
                g.fail('URL of a point relative to the issuer')
            g.eq(certs.readable(p.url), certs.readable(f['url']), 'URL of a point', kind=f['kind'])


def see_ocsp(g, c, o):
    want = [n.value for m, n in facts(c, 'authority_information_access', [])
            if m == 'ocsp' and n.kind == 'uri' and n.value.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://'))]
    g.eq([certs.readable(u) for u in o.ocsp_urls], [certs.readable(u) for u in want], 'OCSP URLs')


def see_constraints(g, c, o):
    f = facts(c, 'basic_constraints', None)
    ca = bool(f and f['ca'])
    got = o.ca
    g.true(got is None or isinstance(got, bool), 'type of the CA flag', got=got)
    g.eq(bool(got), ca, 'CA flag')
    g.eq(o.max_path_length, f['len'] if ca else None, 'path length')


def see_self(g, c, o):
    issued = certs.name_key(c.subject) == certs.name_key(c.issuer)
    g.eq(o.self_issued, issued, 'self-issued', subject=c.subject, issuer=c.issuer)
    ki = facts(c, 'key_identifier', None)
    f = facts(c, 'authority_key_identifier', None)
    aki = f and f['key']
    want = 'no' if not issued or (ki is not None and aki is not None and ki != aki) else 'maybe'
    g.eq(o.self_signed, want, 'self-signed', key=ki, authority=aki, issued=issued)


def see_ext_list(g, c, o):
    got = o['tbs_certificate']['extensions']
    g.eq([(e['extn_id'].native, bool(e['critical'].native)) for e in got], [(e.name, e.critical) for e in c.exts], 'extension list')


def see_native(g, c, o):
    n = o['tbs_certificate']['serial_number'].native
    g.eq(n, c.serial, 'serial number')
    o.subject.native, o.issuer.human_friendly
    o.dump()


VIEWS = [see_extension(n) for n in ACCESSORS] + [see_critical, see_plain, see_names, see_digests, see_issuer_serial, see_key_id, see_authority_key, see_authority_serial,
                                                see_points, see_delta_points, see_point_urls, see_ocsp, see_constraints, see_self, see_ext_list, see_native]
FACTS = VIEWS[len(ACCESSORS):]


def origin(g, c):
    k = g.draw(8)
    if k < 3:
        return x509.Certificate.load(c.der)
    if k == 3:
        return x509.Certificate.load(c.der).copy()
    if k == 4:
        o = x509.Certificate.load(c.der)
        g.choice(VIEWS)(g, c, o)
        g.choice(VIEWS)(g, c, o)
        return copy.deepcopy(o)
    if k == 5:
        return pickle.loads(pickle.dumps(x509.Certificate.load(c.der)))
    if k == 6:
        return x509.TrustedCertificate.load(c.der + ref.seq())[0]
    t = x509.TbsCertificate.load(c.tbs)
    sig = x509.Certificate.load(c.der)
    return x509.Certificate({'tbs_certificate': t, 'signature_algorithm': sig['signature_algorithm'], 'signature_value': c.signature})


def log(g, c):
    g.log('certificate', c.der)
    g.log('extensions', [(e.name, e.critical, e.der.hex()) for e in c.exts])
    g.label('%d extensions' % len(c.exts))
    if c.exts:
        g.nontrivial(c.der)
        g.sample(' '.join(('!' if e.critical else '') + e.name for e in c.exts))


@check.prop(30000, 800000)
def accessors(g):
    c = gen_cert(g)
    log(g, c)
    o = origin(g, c)
    # all views, in a random order, the first few twice
    order = g.perm(VIEWS)
    for v in order + order[:4]:
        v(g, c, o)
    g.unit(len(order))
    g.eq(o.dump(), c.der, 'encoding after all accessors')


@check.prop(30000, 800000)
def classification(g):
    """the extensions the accessors compute from"""
    c = gen_cert(g, ['key_identifier', 'authority_key_identifier', 'basic_constraints', 'authority_information_access', 'crl_distribution_points', 'freshest_crl',
                     'subject_alt_name'], plain_key=True)
    log(g, c)
    o = origin(g, c)
    order = g.perm(FACTS)
    for v in order:
        v(g, c, o)
    g.unit(len(order))


@check.prop(6000, 120000)
def first_read(g):
    """each accessor read before any other"""
    c = gen_cert(g)
    log(g, c)
    for v in g.perm(VIEWS)[:8]:
        o = x509.Certificate.load(c.der)
        v(g, c, o)
        g.unit()


POINT = predef.build('x509.DistributionPoint')


@check.prop(10000, 250000)
def damaged(g):
    """an accessor of a damaged certificate says the same whenever it is asked, or refuses every time"""
    if g.draw(5) == 0:
        c03.damaged(g, x509.DistributionPoint, model.der(POINT, predef.value(g, POINT)))
    else:
        c03.damaged(g, x509.Certificate, gen_cert(g).der)
