"""C27: what the accessors of CRLs, OCSP messages and certification requests report."""
import copy
import hashlib
import pickle

from lib.pbt import Check
from lib import ref, model, predef, certs
from lib.schema import DATA
from checks import c03
from checks.c22 import gen_names
from asn1crypto import core, crl, csr, ocsp, x509

check = Check('C27', rule=(
    'CRLs with 0-4 entries, OCSP requests and responses with 0-3 parts (good, revoked, unknown, every status, with and without response octets, of known '
    'and unknown type) and certification requests, each with 0-8 extensions or attributes in any order, known and unknown, critical or not, loaded, copied '
    'or pickled; all accessors in random orders; then the same with one part damaged, whose accessors are asked twice, after one another and of fresh '
    'objects. Non-trivial: one extension, entry or attribute or more; distinct by encoding.'))

NAMES = {'issuer_alt_name': gen_names, 'certificate_issuer': lambda g: issuer_names(g), 'freshest_crl': certs.points, 'authority_information_access': certs.access,
         'authority_key_identifier': lambda g: certs.aki(g, [b'', b'key'])}


def issuer_names(g):
    names = certs.gen_general_names(g, least=g.choice([1, 1, 0]), kinds=('dir', 'dir', 'uri', 'dns', 'mail'))
    return ref.seq(*[n.der for n in names]), names


class Exts(object):
    """a generated extension list and the views of it on an object"""

    def __init__(self, g, mod, prefix, accessors, chance=4):
        self.mod, self.prefix, self.accessors = mod, prefix, accessors
        self.list = certs.gen_exts(g, '%s.%sId' % (mod, prefix), '%s.%s' % (mod, prefix), NAMES, accessors)
        self.absent = not self.list and g.draw(chance) != 0
        self.specs = DATA['%s.%s' % (mod, prefix)]['oid_specs']

    @property
    def der(self):
        return ref.seq(*[e.enc for e in self.list])

    def under(self, tag):
        return b'' if self.absent else ref.explicit(tag, self.der)

    def find(self, name):
        for e in self.list:
            if e.name == name:
                return e
        return None

    def facts(self, name, default=None):
        e = self.find(name)
        return default if e is None else e.facts

    def views(self):
        return [self.view(n) for n in self.accessors] + [self.critical]

    def view(self, name):
        def see(g, o):
            got = getattr(o, name + '_value')
            e = self.find(name)
            if e is None:
                g.eq(got, None, 'value of an absent extension ' + name)
                return
            if got is None:
                g.fail('no value for an extension that is present', name=name)
            g.eq(type(got).__name__, self.specs[name].split('.')[1], 'class of the value of ' + name)
            g.eq(got.dump(), e.der, 'value of ' + name)
            if e.ty is not None and not model.matches(e.ty, e.value, got.native):
                g.fail('native of ' + name, got=got.native, want=e.ty.nat(e.value))
        return see

    def critical(self, g, o):
        g.eq(o.critical_extensions, set(e.name for e in self.list if e.critical), 'critical extensions')

    def log(self, g, what):
        g.log(what, [(e.name, e.critical, e.der.hex()) for e in self.list])


def run(g, cls, der, views, warm=()):
    """an object from the encoding and all views on it in a random order, some of them twice"""
    if TAKE:
        raise Taken(cls, der)
    k = g.draw(6)
    o = cls.load(der)
    if k == 1:
        o = o.copy()
    elif k == 2:
        for _ in range(2):
            g.choice(views)(g, o)
        o = copy.deepcopy(o)
    elif k == 3:
        o = pickle.loads(pickle.dumps(o))
    elif k == 4:
        o.native
    order = g.perm(views)
    for v in order + order[:3]:
        v(g, o)
        g.unit()
    g.eq(o.dump(), der, 'encoding after all accessors')
    return o


# ------------------------------------------------------------ CRLs

REASONS = {0: 'unspecified', 1: 'key_compromise', 2: 'ca_compromise', 3: 'affiliation_changed', 4: 'superseded', 5: 'cessation_of_operation', 6: 'certificate_hold',
           8: 'remove_from_crl', 9: 'privilege_withdrawn', 10: 'aa_compromise'}
HUMAN = {0: 'an unspecified reason', 1: 'a compromised key', 2: 'the CA being compromised', 3: 'an affiliation change', 4: 'certificate supersession',
         5: 'a cessation of operation', 6: 'a certificate hold', 8: 'removal from the CRL', 9: 'privilege withdrawl', 10: 'the AA being compromised'}
CRL_ACCESSORS = ['issuer_alt_name', 'crl_number', 'delta_crl_indicator', 'issuing_distribution_point', 'authority_key_identifier', 'freshest_crl', 'authority_information_access']
ENTRY_ACCESSORS = ['crl_reason', 'invalidity_date', 'certificate_issuer']


class Entry(object):
    def __init__(self, g):
        self.exts = Exts(g, 'crl', 'CRLEntryExtension', ENTRY_ACCESSORS)
        self.serial = certs.gen_serial(g)
        when, self.when = certs.gen_time(g)
        self.der = ref.seq(ref.integer(self.serial), when, b'' if self.exts.absent else self.exts.der)

    def see_plain(self, g, o):
        g.eq(o['user_certificate'].native, self.serial, 'revoked serial number')
        g.eq(o['revocation_date'].native, self.when, 'revocation date')

    def see_issuer(self, g, o):
        dirs = [n.value for n in self.exts.facts('certificate_issuer', []) if n.kind == 'dir']
        got = o.issuer_name
        if not dirs:
            g.eq(got, None, 'issuer of an entry that names none')
        else:
            g.true(isinstance(got, x509.Name), 'issuer of an entry', got=got)
            g.eq(got.untag().dump(), dirs[0], 'issuer of an entry')

    def see_reason(self, g, o):
        e = self.exts.find('crl_reason')
        if e is not None:
            code = ref.int_value(ref.read(e.der).content)
            g.eq(o.crl_reason_value.native, REASONS[code], 'reason')
            g.eq(o.crl_reason_value.human_friendly, HUMAN[code], 'reason in words')

    def views(self):
        return self.exts.views() + [self.see_plain, self.see_issuer, self.see_reason]


@check.prop(15000, 300000)
def revocation_lists(g):
    exts = Exts(g, 'crl', 'TBSCertListExtension', CRL_ACCESSORS)
    entries = None
    k = g.draw(4)
    if k:
        entries = [Entry(g) for _ in range(g.choice([0, 1, 1, 2, 4]))]
    sig, name, digest = certs.gen_sig(g)
    issuer = certs.write_name(g, certs.gen_name(g))
    this, this_t = certs.gen_time(g)
    nxt, next_t = certs.gen_time(g) if g.draw(3) else (b'', None)
    signature = g.bytes(0, 6)
    version = g.choice([None, 1]) if exts.absent else 1
    der = ref.seq(ref.seq(b'' if version is None else ref.integer(version), sig, issuer, this, nxt,
                          b'' if entries is None else ref.seq(*[e.der for e in entries]), exts.under(0)), sig, ref.bitstr(signature))
    g.log('CRL', der)
    exts.log(g, 'extensions')
    for e in entries or []:
        e.exts.log(g, 'entry %d' % e.serial)

    def see_plain(g, o):
        g.eq(o.issuer.dump(), issuer, 'issuer')
        g.eq(o.signature, signature, 'signature')
        t = o['tbs_cert_list']
        g.eq(t['this_update'].native, this_t, 'this update')
        g.eq(t['next_update'].native, next_t, 'next update')
        g.eq(o['signature_algorithm'].hash_algo, digest, 'hash algorithm')
        g.eq(o['signature_algorithm'].signature_algo, name, 'signature algorithm')

    def see_digests(g, o):
        g.eq(o.sha1, hashlib.sha1(der).digest(), 'SHA-1')
        g.eq(o.sha256, hashlib.sha256(der).digest(), 'SHA-256')

    def see_key(g, o):
        f = exts.facts('authority_key_identifier')
        g.eq(o.authority_key_identifier, f and f['key'], 'authority key identifier')

    def see_points(g, o):
        certs.check_points(g, exts.facts('freshest_crl', []), o.delta_crl_distribution_points, 'delta CRL distribution points')

    def see_urls(g, o):
        want = [certs.readable(n.value) for m, n in exts.facts('authority_information_access', []) if m == 'ca_issuers' and n.kind == 'uri' and n.value.lower().startswith('http://')]
        g.eq([certs.readable(u) for u in o.issuer_cert_urls], want, 'issuer certificate URLs')

    def see_entries(g, o):
        got = o['tbs_cert_list']['revoked_certificates']
        if entries is None:
            g.eq(got.native, None, 'absent entries')
            return
        g.eq(len(got), len(entries), 'number of entries')
        for e, x in zip(entries, got):
            for v in g.perm(e.views()):
                v(g, x)
                g.unit()

    run(g, crl.CertificateList, der, exts.views() + [see_plain, see_digests, see_key, see_points, see_urls, see_entries])
    g.label('%s entries' % (None if entries is None else len(entries)))
    if exts.list or entries:
        g.nontrivial(der)
        g.sample('%s %s' % ([e.name for e in exts.list], [[x.name for x in e.exts.list] for e in entries or []]))


@check.prop(15000, 300000)
def revoked_entries(g):
    e = Entry(g)
    g.log('entry', e.der)
    e.exts.log(g, 'extensions')
    run(g, crl.RevokedCertificate, e.der, e.views())
    if e.exts.list:
        g.nontrivial(e.der)
        g.sample(repr([x.name for x in e.exts.list]))


# ------------------------------------------------------------ OCSP

DIGESTS = [('1.3.14.3.2.26', 'sha1', 20), ('2.16.840.1.101.3.4.2.1', 'sha256', 32), ('2.16.840.1.101.3.4.2.3', 'sha512', 64)]


class CertId(object):
    def __init__(self, g):
        o, self.algo, n = g.choice(DIGESTS)
        self.name, self.key = g.bytes(0, 4), g.bytes(0, 4)
        self.serial = certs.gen_serial(g)
        self.der = ref.seq(ref.seq(ref.oid(o), ref.null() if g.draw(2) else b''), ref.octets(self.name), ref.octets(self.key), ref.integer(self.serial))

    def see(self, g, o):
        g.eq(o['hash_algorithm']['algorithm'].native, self.algo, 'digest of a certificate identifier')
        g.eq(o['issuer_name_hash'].native, self.name, 'issuer name hash')
        g.eq(o['issuer_key_hash'].native, self.key, 'issuer key hash')
        g.eq(o['serial_number'].native, self.serial, 'serial number')


class Request(object):
    def __init__(self, g):
        self.id = CertId(g)
        self.exts = Exts(g, 'ocsp', 'RequestExtension', ['service_locator'])
        self.der = ref.seq(self.id.der, self.exts.under(0))

    def see_id(self, g, o):
        self.id.see(g, o['req_cert'])

    def views(self):
        return self.exts.views() + [self.see_id]


@check.prop(12000, 250000)
def ocsp_requests(g):
    exts = Exts(g, 'ocsp', 'TBSRequestExtension', ['nonce', 'acceptable_responses', 'preferred_signature_algorithms'])
    parts = [Request(g) for _ in range(g.choice([1, 1, 2, 3, 0]))]
    name = certs.gen_general_name(g) if g.draw(3) == 0 else None
    sig, sig_name, digest = certs.gen_sig(g)
    signature = g.bytes(0, 6) if g.draw(3) == 0 else None
    der = ref.seq(
        ref.seq(ref.explicit(0, ref.integer(0)) if g.draw(5) == 0 else b'', ref.explicit(1, name.der) if name else b'', ref.seq(*[p.der for p in parts]), exts.under(2)),
        ref.explicit(0, ref.seq(sig, ref.bitstr(signature))) if signature is not None else b'')
    g.log('request', der)
    exts.log(g, 'extensions')

    def see_parts(g, o):
        got = o['tbs_request']['request_list']
        g.eq(len(got), len(parts), 'number of requests')
        for p, x in zip(parts, got):
            for v in g.perm(p.views()):
                v(g, x)
                g.unit()

    def see_plain(g, o):
        t = o['tbs_request']
        g.eq(t['version'].native, 'v1', 'version')
        if name is None:
            g.eq(t['requestor_name'].native, None, 'absent requestor')
        else:
            g.eq(t['requestor_name'].name, {'uri': 'uniform_resource_identifier', 'dns': 'dns_name', 'dir': 'directory_name', 'ip': 'ip_address', 'mail': 'rfc822_name',
                                            'rid': 'registered_id', 'other': 'other_name'}[name.kind], 'kind of requestor')
        s = o['optional_signature']
        if signature is None:
            g.eq(s.native, None, 'absent signature')
        else:
            g.eq(s['signature'].native, signature, 'signature')
            g.eq(s['signature_algorithm'].hash_algo, digest, 'hash algorithm')

    run(g, ocsp.OCSPRequest, der, exts.views() + [see_parts, see_plain])
    if exts.list or parts:
        g.nontrivial(der)
        g.sample('%s %s' % ([e.name for e in exts.list], [[x.name for x in p.exts.list] for p in parts]))


class Single(object):
    def __init__(self, g):
        self.id = CertId(g)
        self.exts = Exts(g, 'ocsp', 'SingleResponseExtension', ['crl', 'archive_cutoff', 'crl_reason', 'invalidity_date', 'certificate_issuer'])
        self.status = g.choice(['good', 'revoked', 'unknown'])
        this, self.this = certs.gen_general_time(g)
        nxt, self.next = certs.gen_general_time(g) if g.draw(2) else (None, None)
        if self.status == 'revoked':
            when, self.when = certs.gen_general_time(g)
            self.reason = g.choice(sorted(REASONS)) if g.draw(2) else None
            s = ref.tlv(2, 1, 1, when + (b'' if self.reason is None else ref.explicit(0, ref.enum(self.reason))))
        else:
            s = ref.tlv(2, 0, 0 if self.status == 'good' else 2, b'')
        self.der = ref.seq(self.id.der, s, this, ref.explicit(0, nxt) if nxt else b'', self.exts.under(1))

    def see_plain(self, g, o):
        self.id.see(g, o['cert_id'])
        s = o['cert_status']
        g.eq(s.name, self.status, 'status')
        if self.status == 'revoked':
            g.eq(s.chosen['revocation_time'].native, self.when, 'revocation time')
            g.eq(s.chosen['revocation_reason'].native, None if self.reason is None else REASONS[self.reason], 'revocation reason')
        else:
            g.eq(s.native, self.status, 'native status')
        g.eq(o['this_update'].native, self.this, 'this update')
        g.eq(o['next_update'].native, self.next, 'next update')

    def views(self):
        return self.exts.views() + [self.see_plain]


STATUS = {0: 'successful', 1: 'malformed_request', 2: 'internal_error', 3: 'try_later', 5: 'sign_required', 6: 'unauthorized'}


@check.prop(15000, 300000)
def ocsp_responses(g):
    exts = Exts(g, 'ocsp', 'ResponseDataExtension', ['nonce', 'extended_revoke'])
    parts = [Single(g) for _ in range(g.choice([1, 1, 2, 3, 0]))]
    kind = g.choice(['basic', 'basic', 'basic', 'basic', 'absent', 'unknown'])
    status = 0 if kind == 'basic' and g.draw(6) else g.choice(sorted(STATUS))
    by_name = g.draw(2)
    who = certs.write_name(g, certs.gen_name(g)) if by_name else g.bytes(0, 20)
    at, at_t = certs.gen_general_time(g)
    sig, sig_name, digest = certs.gen_sig(g)
    signature = g.bytes(0, 6)
    inner = [certs.write_cert(g, None).der for _ in range(g.choice([0, 0, 1, 2]))]
    data = ref.seq(ref.explicit(0, ref.integer(0)) if g.draw(5) == 0 else b'', ref.explicit(1, who) if by_name else ref.explicit(2, ref.octets(who)), at,
                   ref.seq(*[p.der for p in parts]), exts.under(1))
    basic = ref.seq(data, sig, ref.bitstr(signature), ref.explicit(0, ref.seq(*inner)) if inner else b'')
    if kind == 'basic':
        octs = ref.explicit(0, ref.seq(ref.oid('1.3.6.1.5.5.7.48.1.1'), ref.octets(basic)))
    elif kind == 'unknown':
        octs = ref.explicit(0, ref.seq(ref.oid('1.2.3.4'), ref.octets(g.choice([b'', b'abc', ref.utf8('x'), ref.seq(ref.integer(1))]))))
    else:
        octs = b''
    der = ref.seq(ref.enum(status), octs)
    g.log('response', der)
    exts.log(g, 'extensions')
    g.label(kind)
    if kind != 'basic':
        exts.list = []

    def see_status(g, o):
        g.eq(o['response_status'].native, STATUS[status], 'response status')

    def see_basic(g, o):
        got = o.basic_ocsp_response
        if kind != 'basic':
            g.eq(got, None, 'basic response where there is none')
            return
        g.true(isinstance(got, ocsp.BasicOCSPResponse), 'basic response', got=got)
        g.eq(got.dump(), basic, 'basic response')
        g.eq(got['signature'].native, signature, 'signature')
        g.eq(got['signature_algorithm'].hash_algo, digest, 'hash algorithm')
        g.eq([c.dump() for c in got['certs']], inner, 'certificates')

    def see_data(g, o):
        got = o.response_data
        if kind != 'basic':
            g.eq(got, None, 'response data where there is none')
            return
        g.true(isinstance(got, ocsp.ResponseData), 'response data', got=got)
        g.eq(got.dump(), data, 'response data')
        g.eq(got['produced_at'].native, at_t, 'time of production')
        r = got['responder_id']
        g.eq(r.name, 'by_name' if by_name else 'by_key', 'responder')
        if by_name:
            g.eq(r.chosen.untag().dump(), who, 'responder')
        else:
            g.eq(r.native, who, 'responder')

    def see_parts(g, o):
        if kind != 'basic':
            return
        got = o.response_data['responses']
        g.eq(len(got), len(parts), 'number of responses')
        for p, x in zip(parts, got):
            for v in g.perm(p.views()):
                v(g, x)
                g.unit()

    run(g, ocsp.OCSPResponse, der, exts.views() + [see_status, see_basic, see_data, see_parts])
    if kind != 'basic' or exts.list or parts:
        g.nontrivial(der)
        g.sample('%s %s %s %s' % (kind, STATUS[status], [e.name for e in exts.list], [p.status for p in parts]))


@check.prop(10000, 200000)
def ocsp_singles(g):
    p = g.choice([Single, Request])(g)
    g.log('part', p.der)
    p.exts.log(g, 'extensions')
    run(g, ocsp.SingleResponse if isinstance(p, Single) else ocsp.Request, p.der, p.views())
    if p.exts.list:
        g.nontrivial(p.der)
        g.sample(repr([e.name for e in p.exts.list]))


# ------------------------------------------------------------ certification requests

@check.prop(10000, 200000)
def certification_requests(g):
    attrs = []
    kinds = g.subset(['challenge_password', 'extension_request', 'microsoft_os_version', 'microsoft_enrollment_csp_provider', 'microsoft_request_client_info', '1.2.3.4'])
    table = DATA['csr.CSRAttributeType']['map']
    rev = dict((v, k) for k, v in table.items())
    for k in kinds:
        facts = None
        if k == 'extension_request':
            facts = certs.gen_exts(g, 'x509.ExtensionId', 'x509.Extension', {}, ['basic_constraints', 'key_usage', 'extended_key_usage', 'subject_alt_name'])
            values = ref.set_of(ref.seq(*[e.enc for e in facts]))
        elif k in ('challenge_password', 'microsoft_os_version'):
            facts = [g.choice(['secret', 'é', '10.0.1.2', '']) for _ in range(g.choice([1, 1, 2]))]
            facts = sorted(set(facts), key=lambda t: ref.utf8(t))
            values = ref.set_of(*[ref.utf8(t) for t in facts])
        elif k == '1.2.3.4':
            values = ref.set_of(ref.integer(5), ref.utf8('x'))
        else:
            ty = predef.build(DATA['csr.CRIAttribute']['oid_specs'][k])
            a = predef.value(g, ty, 12)
            values = model.der(ty, a)
            facts = ty.nat(a)
        attrs.append((k, ref.seq(ref.oid(rev.get(k, k)), values), values, facts))
    attrs.sort(key=lambda t: t[1])
    subject = certs.write_name(g, certs.gen_name(g))
    sig, name, digest = certs.gen_sig(g)
    signature = g.bytes(0, 6)
    present = attrs or g.draw(2)
    info = ref.seq(ref.integer(0), subject, certs.KEY, ref.tlv(2, 1, 0, b''.join(a[1] for a in attrs)) if present else b'')
    der = ref.seq(info, sig, ref.bitstr(signature))
    g.log('request', der)

    def see_plain(g, o):
        i = o['certification_request_info']
        g.eq(i.dump(), info, 'signed part')
        g.eq(i['subject'].dump(), subject, 'subject')
        g.eq(i['subject_pk_info'].dump(), certs.KEY, 'key')
        g.eq(i['version'].native, 'v1', 'version')
        g.eq(o['signature'].native, signature, 'signature')
        g.eq(o['signature_algorithm'].hash_algo, digest, 'hash algorithm')
        g.eq(o['signature_algorithm'].signature_algo, name, 'signature algorithm')

    def see_attributes(g, o):
        got = o['certification_request_info']['attributes']
        if not present:
            g.eq(got.native, None, 'absent attributes')
            return
        g.eq(len(got), len(attrs), 'number of attributes')
        for (k, enc, values, facts), x in zip(attrs, got):
            g.eq(x['type'].native, k, 'type of an attribute')
            g.eq(x['values'].dump(), values, 'values of an attribute')
            if k == '1.2.3.4':
                continue
            if k == 'extension_request':
                exts = x['values'][0]
                g.eq([(e['extn_id'].native, e['critical'].native, e['extn_value'].contents) for e in exts], [(e.name, e.critical, e.der) for e in facts], 'requested extensions')
                for e, y in zip(facts, exts):
                    if e.ty is not None and not model.matches(e.ty, e.value, y['extn_value'].parsed.native):
                        g.fail('value of a requested extension', name=e.name, got=y['extn_value'].parsed.native)
            elif isinstance(facts, list) and k in ('challenge_password', 'microsoft_os_version'):
                g.eq(x['values'].native, facts, 'native values of an attribute')

    def see_each(g, o):
        for x in o['certification_request_info']['attributes']:
            x['type'].native

    run(g, csr.CertificationRequest, der, [see_plain, see_attributes, see_each])
    if attrs:
        g.nontrivial(der)
        g.sample(repr(kinds))


class Taken(Exception):
    pass


TAKE = []


@check.prop(12000, 250000)
def damaged(g):
    """an accessor of a damaged message says the same whenever it is asked, or refuses every time"""
    TAKE.append(1)
    try:
        g.choice([revocation_lists, revocation_lists, revoked_entries, ocsp_requests, ocsp_responses, ocsp_singles, certification_requests])(g)
    except Taken as e:
        cls, der = e.args
    finally:
        del TAKE[:]
    c03.damaged(g, cls, der)
