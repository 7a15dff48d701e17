"""C26: algorithm identifiers report what they and their parameters denote."""
import copy
import pickle

from lib.pbt import Check
from lib import ref
from asn1crypto import algos, core, keys

check = Check('C26', rule=(
    'every registered signature, digest and encryption algorithm identifier and unregistered ones, with parameters present, absent, null, defaulted or '
    'of another kind (PBES1, PBES2 over PBKDF2, scrypt and unknown derivation functions and every cipher, RC2 and RC5 parameters, PSS and OAEP parameters), '
    'built or loaded, copied or pickled, facts asked in any order; pairs of numbers up to 700 bits at every width. Oracle: tables from the standards, keyed by object identifier. '
    'Non-trivial: every case with a registered identifier or a pair; distinct by encoding.'))

RAISES = 'ValueError'

DIGESTS = {
    'md2': '1.2.840.113549.2.2', 'md5': '1.2.840.113549.2.5', 'sha1': '1.3.14.3.2.26', 'sha224': '2.16.840.1.101.3.4.2.4', 'sha256': '2.16.840.1.101.3.4.2.1',
    'sha384': '2.16.840.1.101.3.4.2.2', 'sha512': '2.16.840.1.101.3.4.2.3', 'sha512_224': '2.16.840.1.101.3.4.2.5', 'sha512_256': '2.16.840.1.101.3.4.2.6',
    'sha3_224': '2.16.840.1.101.3.4.2.7', 'sha3_256': '2.16.840.1.101.3.4.2.8', 'sha3_384': '2.16.840.1.101.3.4.2.9', 'sha3_512': '2.16.840.1.101.3.4.2.10',
    'shake128': '2.16.840.1.101.3.4.2.11', 'shake256': '2.16.840.1.101.3.4.2.12', 'shake128_len': '2.16.840.1.101.3.4.2.17', 'shake256_len': '2.16.840.1.101.3.4.2.18'}
HMACS = {
    '1.3.14.3.2.10': 'des_mac', '1.2.840.113549.2.7': 'sha1', '1.2.840.113549.2.8': 'sha224', '1.2.840.113549.2.9': 'sha256', '1.2.840.113549.2.10': 'sha384',
    '1.2.840.113549.2.11': 'sha512', '1.2.840.113549.2.12': 'sha512_224', '1.2.840.113549.2.13': 'sha512_256', '2.16.840.1.101.3.4.2.13': 'sha3_224',
    '2.16.840.1.101.3.4.2.14': 'sha3_256', '2.16.840.1.101.3.4.2.15': 'sha3_384', '2.16.840.1.101.3.4.2.16': 'sha3_512'}

# identifier: (name, scheme, hash), the preferred identifier of a name first
SIGNATURES = {
    '1.2.840.113549.1.1.2': ('md2_rsa', 'rsassa_pkcs1v15', 'md2'), '1.3.14.7.2.3.1': ('md2_rsa', 'rsassa_pkcs1v15', 'md2'),
    '1.2.840.113549.1.1.4': ('md5_rsa', 'rsassa_pkcs1v15', 'md5'), '1.3.14.3.2.3': ('md5_rsa', 'rsassa_pkcs1v15', 'md5'),
    '1.2.840.113549.1.1.5': ('sha1_rsa', 'rsassa_pkcs1v15', 'sha1'), '1.3.14.3.2.29': ('sha1_rsa', 'rsassa_pkcs1v15', 'sha1'),
    '1.2.840.113549.1.1.14': ('sha224_rsa', 'rsassa_pkcs1v15', 'sha224'), '1.2.840.113549.1.1.11': ('sha256_rsa', 'rsassa_pkcs1v15', 'sha256'),
    '1.2.840.113549.1.1.12': ('sha384_rsa', 'rsassa_pkcs1v15', 'sha384'), '1.2.840.113549.1.1.13': ('sha512_rsa', 'rsassa_pkcs1v15', 'sha512'),
    '1.2.840.113549.1.1.1': ('rsassa_pkcs1v15', 'rsassa_pkcs1v15', RAISES), '1.2.840.113549.1.1.10': ('rsassa_pss', 'rsassa_pss', None),
    '1.2.840.10040.4.3': ('sha1_dsa', 'dsa', 'sha1'), '1.3.14.3.2.13': ('sha1_dsa', 'dsa', 'sha1'), '1.3.14.3.2.27': ('sha1_dsa', 'dsa', 'sha1'),
    '2.16.840.1.101.3.4.3.1': ('sha224_dsa', 'dsa', 'sha224'), '2.16.840.1.101.3.4.3.2': ('sha256_dsa', 'dsa', 'sha256'),
    '2.16.840.1.101.3.4.3.3': ('sha384_dsa', 'dsa', 'sha384'), '2.16.840.1.101.3.4.3.4': ('sha512_dsa', 'dsa', 'sha512'), '1.2.840.10040.4.1': ('dsa', 'dsa', RAISES),
    '1.2.840.10045.4.1': ('sha1_ecdsa', 'ecdsa', 'sha1'), '1.2.840.10045.4.3.1': ('sha224_ecdsa', 'ecdsa', 'sha224'), '1.2.840.10045.4.3.2': ('sha256_ecdsa', 'ecdsa', 'sha256'),
    '1.2.840.10045.4.3.3': ('sha384_ecdsa', 'ecdsa', 'sha384'), '1.2.840.10045.4.3.4': ('sha512_ecdsa', 'ecdsa', 'sha512'), '1.2.840.10045.4': ('ecdsa', 'ecdsa', RAISES),
    '1.3.101.112': ('ed25519', 'ed25519', RAISES), '1.3.101.113': ('ed448', 'ed448', RAISES)}
for _i, _h in enumerate(['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512']):
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (5 + _i)] = (_h + '_dsa', 'dsa', _h)
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (9 + _i)] = (_h + '_ecdsa', 'ecdsa', _h)
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (13 + _i)] = (_h + '_rsa', 'rsassa_pkcs1v15', _h)
    SIGNATURES['0.4.0.127.0.7.1.1.4.1.%d' % (8 + _i)] = (_h + '_ecdsa_plain', 'ecdsa', _h)
for _i, _h in enumerate(['sha1', 'sha224', 'sha256', 'sha384', 'sha512']):
    SIGNATURES['0.4.0.127.0.7.1.1.4.1.%d' % (1 + _i)] = (_h + '_ecdsa_plain', 'ecdsa', _h)
CMS_HASH = {'ed25519': 'sha512', 'ed448': 'shake256'}
SECOND = {'1.3.14.7.2.3.1', '1.3.14.3.2.3', '1.3.14.3.2.29', '1.3.14.3.2.13', '1.3.14.3.2.27'}

# identifiers whose parameters have to be null (RFC 4055)
NULL = {'1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13', '1.2.840.113549.1.1.14', '1.3.14.3.2.26',
        '2.16.840.1.101.3.4.2.4', '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3'}


def alg(oid, params=b''):
    return ref.seq(ref.oid(oid), params)


def through(g, o):
    k = g.draw(6)
    if k == 1:
        return o.copy()
    if k == 2:
        return copy.deepcopy(o)
    if k == 3:
        return pickle.loads(pickle.dumps(o))
    if k == 4:
        return type(o).load(o.dump())
    if k == 5:
        try:
            o.native
        except ValueError:
            # (parameters of another kind)
            pass
    return o


def ask(g, o, facts):
    """facts: name -> value, RAISES for a fact there is not"""
    names = g.perm(sorted(facts))
    for name in names + names[:2]:
        want = facts[name]
        try:
            got = getattr(o, name)
        except ValueError:
            if want is not RAISES:
                g.fail('no ' + name, want=want)
            g.unit()
            continue
        if want is RAISES:
            g.fail('%s of an algorithm that has none' % name, got=got)
        if isinstance(want, tuple):
            # any of these
            g.true(got in want, name, got=got, want=want)
        else:
            g.eq(got, want, name)


# ------------------------------------------------------------ digests and parameters

@check.prop(6000, 80000)
def nulls(g):
    """null parameters where they have to be, and nowhere else"""
    table = [(algos.DigestAlgorithm, n, o) for n, o in sorted(DIGESTS.items())]
    table += [(algos.SignedDigestAlgorithm, SIGNATURES[o][0], o) for o in sorted(SIGNATURES) if o not in SECOND]
    table += [(algos.EncryptionAlgorithm, n, o) for o, n in sorted(CIPHERS.items())]
    table += [(keys.PublicKeyAlgorithm, 'rsa', '1.2.840.113549.1.1.1'), (keys.PublicKeyAlgorithm, 'ed25519', '1.3.101.112'), (keys.PublicKeyAlgorithm, 'dsa', '1.2.840.10040.4.1'),
              (keys.PrivateKeyAlgorithm, 'rsa', '1.2.840.113549.1.1.1'), (keys.PrivateKeyAlgorithm, 'x448', '1.3.101.111'),
              (algos.AnyAlgorithmIdentifier, 'sha256_rsa', '1.2.840.113549.1.1.11'), (algos.AnyAlgorithmIdentifier, 'md5', DIGESTS['md5']),
              (algos.AnyAlgorithmIdentifier, 'sha384', DIGESTS['sha384'])]
    cls, name, oid = table[g.enum(len(table))]
    how = g.draw(4)
    given = g.choice([name, oid])
    g.log(cls.__name__, given, how)
    null = ref.null() if oid in NULL else b''
    if how == 0:
        o = cls({'algorithm': given})
    elif how == 1:
        o = cls()
        o[g.choice([0, 'algorithm'])] = given
    elif how == 2:
        o = cls.load(alg(oid))
        null = b''
    else:
        o = cls.load(alg(oid, ref.null())) if oid in NULL else cls.load(alg(oid))
    g.eq(o.dump(), alg(oid, null), 'encoding of an algorithm without parameters')
    o = through(g, o)
    g.eq(o['algorithm'].native, name, 'name of an algorithm')
    g.eq(o['algorithm'].dotted, oid, 'identifier of an algorithm')
    g.eq(o['parameters'].native, None, 'parameters')
    g.eq(type(o['parameters']), core.Null if null else core.Void, 'class of the parameters')
    g.eq(o.dump(), alg(oid, null), 'encoding of an algorithm without parameters, after reading it')
    if how == 1 and g.draw(2):
        cls2, name2, oid2 = g.choice([t for t in table if t[0] is cls])
        o[g.choice([0, 'algorithm'])] = name2
        # (parameters that were there before stay)
        g.eq(o.dump(), alg(oid2, null or (ref.null() if oid2 in NULL else b'')), 'encoding after the identifier was changed')
    g.nontrivial((cls.__name__, given, how))


# ------------------------------------------------------------ signatures

class Pss(object):
    """RSASSA-PSS parameters"""

    def __init__(self, g):
        self.hash = 'sha1'
        parts = []
        if g.draw(4):
            self.hash = g.choice(sorted(DIGESTS))
            parts.append(ref.explicit(0, alg(DIGESTS[self.hash], ref.null() if g.draw(2) else b'')))
        self.mgf = 'sha1'
        if g.draw(3):
            self.mgf = g.choice(sorted(DIGESTS))
            parts.append(ref.explicit(1, alg('1.2.840.113549.1.1.8', alg(DIGESTS[self.mgf], ref.null()))))
        self.salt = 20
        if g.draw(2):
            self.salt = g.draw(100)
            parts.append(ref.explicit(2, ref.integer(self.salt)))
        if g.draw(4) == 0:
            parts.append(ref.explicit(3, ref.integer(1)))
        self.der = ref.seq(*parts)

    def check(self, g, p):
        g.eq(p['hash_algorithm']['algorithm'].native, self.hash, 'digest of the padding')
        g.eq(p['mask_gen_algorithm']['algorithm'].native, 'mgf1', 'mask of the padding')
        g.eq(p['mask_gen_algorithm']['parameters']['algorithm'].native, self.mgf, 'digest of the mask')
        g.eq(p['salt_length'].native, self.salt, 'salt length')
        g.eq(p['trailer_field'].native, 'trailer_field_bc', 'trailer')


@check.prop(16000, 250000)
def signatures(g):
    oids = sorted(SIGNATURES)
    k = g.enum(len(oids) + 20)
    pss = None
    params = b''
    if k >= len(oids) + 6:
        oid = '1.2.840.113549.1.1.10'
    elif k >= len(oids):
        oid = '1.2.3.%d' % g.draw(1000)
    else:
        oid = oids[k]
    name, scheme, digest = SIGNATURES.get(oid, (oid, RAISES, RAISES))
    if name == 'rsassa_pss':
        if g.draw(6):
            pss = Pss(g)
            params, digest = pss.der, pss.hash
        else:
            digest = RAISES
    elif oid in NULL or g.draw(3) == 0:
        params = ref.null()
    g.log(name, oid, params)
    der = alg(oid, params)
    if g.draw(3) == 0 and not pss and oid not in SECOND and params != b'' and oid in SIGNATURES:
        o = algos.SignedDigestAlgorithm({'algorithm': name})
        if oid not in NULL:
            o['parameters'] = core.Null()
    else:
        o = algos.SignedDigestAlgorithm.load(der)
    o = through(g, o)
    ask(g, o, {'signature_algo': scheme, 'hash_algo': digest, 'cms_hash_algo': CMS_HASH.get(name, digest)})
    g.eq(o['algorithm'].native, name, 'name of the algorithm')
    if pss:
        pss.check(g, o['parameters'])
    g.eq(o.dump(), der, 'encoding')
    if pss:
        # built from the values, the defaults are left out
        h = {'algorithm': pss.hash}
        p = algos.RSASSAPSSParams({'hash_algorithm': h, 'mask_gen_algorithm': {'algorithm': 'mgf1', 'parameters': {'algorithm': pss.mgf}}, 'salt_length': pss.salt})
        pss.check(g, p)
        b = algos.SignedDigestAlgorithm({'algorithm': 'rsassa_pss', 'parameters': p})
        ask(g, b, {'hash_algo': pss.hash, 'cms_hash_algo': pss.hash, 'signature_algo': 'rsassa_pss'})
        again = algos.SignedDigestAlgorithm.load(b.dump())
        pss.check(g, again['parameters'])
        if g.draw(2):
            # another digest
            other = g.choice(sorted(DIGESTS))
            again['parameters']['hash_algorithm'] = {'algorithm': other}
            ask(g, again, {'hash_algo': other, 'cms_hash_algo': other})
            ask(g, algos.SignedDigestAlgorithm.load(again.dump(force=True)), {'hash_algo': other, 'cms_hash_algo': other})
    if oid in SIGNATURES:
        g.nontrivial(der)
    g.sample('%s %s' % (name, params.hex()[:60]))


# ------------------------------------------------------------ encryption

CIPHERS = {
    '1.3.14.3.2.7': 'des', '1.2.840.113549.3.7': 'tripledes_3key', '1.2.840.113549.3.2': 'rc2', '1.2.840.113549.3.4': 'rc4', '1.2.840.113549.3.9': 'rc5',
    '1.2.840.113549.1.5.13': 'pbes2', '1.2.840.113549.1.5.1': 'pbes1_md2_des', '1.2.840.113549.1.5.3': 'pbes1_md5_des', '1.2.840.113549.1.5.4': 'pbes1_md2_rc2',
    '1.2.840.113549.1.5.6': 'pbes1_md5_rc2', '1.2.840.113549.1.5.10': 'pbes1_sha1_des', '1.2.840.113549.1.5.11': 'pbes1_sha1_rc2',
    '1.2.840.113549.1.12.1.1': 'pkcs12_sha1_rc4_128', '1.2.840.113549.1.12.1.2': 'pkcs12_sha1_rc4_40', '1.2.840.113549.1.12.1.3': 'pkcs12_sha1_tripledes_3key',
    '1.2.840.113549.1.12.1.4': 'pkcs12_sha1_tripledes_2key', '1.2.840.113549.1.12.1.5': 'pkcs12_sha1_rc2_128', '1.2.840.113549.1.12.1.6': 'pkcs12_sha1_rc2_40',
    '1.2.840.113549.1.1.1': 'rsaes_pkcs1v15', '1.2.840.113549.1.1.7': 'rsaes_oaep'}
MODES = ['ecb', 'cbc', 'ofb', 'cfb', 'wrap', 'gcm', 'ccm', 'wrap_pad']
for _b, _k in ((0, 128), (20, 192), (40, 256)):
    for _i, _m in enumerate(MODES):
        CIPHERS['2.16.840.1.101.3.4.1.%d' % (_b + _i + 1)] = 'aes%d_%s' % (_k, _m)
OIDS = sorted(CIPHERS)
# digest, cipher, key length
PBE = {
    'pbes1_md2_des': ('md2', 'des', 8), 'pbes1_md5_des': ('md5', 'des', 8), 'pbes1_md2_rc2': ('md2', 'rc2', 8), 'pbes1_md5_rc2': ('md5', 'rc2', 8),
    'pbes1_sha1_des': ('sha1', 'des', 8), 'pbes1_sha1_rc2': ('sha1', 'rc2', 8), 'pkcs12_sha1_rc4_128': ('sha1', 'rc4', 16), 'pkcs12_sha1_rc4_40': ('sha1', 'rc4', 5),
    'pkcs12_sha1_tripledes_3key': ('sha1', 'tripledes', 24), 'pkcs12_sha1_tripledes_2key': ('sha1', 'tripledes', 16), 'pkcs12_sha1_rc2_128': ('sha1', 'rc2', 16),
    'pkcs12_sha1_rc2_40': ('sha1', 'rc2', 5)}
RC2 = {160: 5, 120: 8, 58: 16}
KDF_FACTS = ['kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations']
CIPHER_FACTS = ['key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv']


def cipher(g, oid, depth=0):
    """(encoding, facts) of an encryption algorithm"""
    name = CIPHERS.get(oid, oid)
    f = dict((n, RAISES) for n in KDF_FACTS + CIPHER_FACTS)
    present = g.draw(6) != 0
    params = b''
    if oid not in CIPHERS:
        params = g.choice([b'', ref.null(), ref.octets(b'12345678'), ref.seq()])
    elif name in ('des', 'tripledes_3key'):
        iv = g.nbytes(8)
        params = ref.octets(iv) if present else b''
        f.update(key_length=8 if name == 'des' else 24, encryption_mode='cbc', encryption_cipher=name.split('_')[0], encryption_block_size=8,
                 encryption_iv=iv if present else None)
    elif name == 'rc2':
        f.update(encryption_mode='cbc', encryption_cipher='rc2', encryption_block_size=8)
        if present:
            iv = g.nbytes(8)
            v = g.choice([None, 160, 120, 58, 256, 1024, 255, 0, 1, 257, 264, 160, 120, 58, g.draw(1100), -1])
            params = ref.seq(b'' if v is None else ref.integer(v), ref.octets(iv))
            n = 4 if v is None else RC2.get(v, (v + 7) // 8 if v >= 256 else RAISES)
            f.update(encryption_iv=iv, key_length=n)
    elif name == 'rc4':
        params = b'' if present else ref.null()
        f.update(encryption_cipher='rc4', encryption_block_size=0, encryption_iv=None)
    elif name == 'rc5':
        f.update(encryption_mode='cbc', encryption_cipher='rc5')
        if present:
            iv = g.nbytes(8) if g.draw(3) else None
            bits = g.choice([64, 128, 32, 256])
            params = ref.seq(ref.integer(16), ref.integer(g.draw(256)), ref.integer(bits), b'' if iv is None else ref.octets(iv))
            f.update(encryption_iv=iv, encryption_block_size=bits // 8)
    elif name.startswith('aes'):
        bits, mode = name[3:].split('_', 1)
        f.update(encryption_cipher='aes', key_length=int(bits) // 8, encryption_mode=mode, encryption_block_size=16, encryption_iv=None)
        if mode in ('cbc', 'ofb'):
            if present:
                iv = g.nbytes(16)
                params = ref.octets(iv)
                f['encryption_iv'] = iv
        elif mode == 'ccm':
            if present:
                params = ref.seq(ref.octets(g.nbytes(12)), ref.integer(g.choice([4, 8, 12, 16])))
        elif mode in ('gcm', 'cfb') and present:
            params = ref.seq(ref.octets(g.nbytes(12))) if mode == 'gcm' else ref.octets(g.nbytes(16))
    elif name in PBE:
        digest, c, n = PBE[name]
        f.update(kdf='pbkdf1' if name.startswith('pbes1') else 'pkcs12_kdf', kdf_hmac=digest, key_length=n, encryption_cipher=c, encryption_iv=None,
                 encryption_block_size=0 if c == 'rc4' else 8)
        if c != 'rc4':
            f['encryption_mode'] = 'cbc'
        if present:
            salt, count = g.bytes(0, 20), g.nat(40)
            params = ref.seq(ref.octets(salt), ref.integer(count))
            f.update(kdf_salt=salt, kdf_iterations=count)
    elif name == 'pbes2':
        if present:
            params, f = pbes2(g, f, depth)
    elif name == 'rsaes_oaep':
        f['encryption_iv'] = None
        if present:
            params = oaep(g)
    else:
        f['encryption_iv'] = None
        params = ref.null()
    return alg(oid, params), f, name


def oaep(g):
    parts = []
    if g.draw(2):
        parts.append(ref.explicit(0, alg(g.choice(sorted(DIGESTS.values())), ref.null())))
    if g.draw(2):
        parts.append(ref.explicit(2, alg('1.2.840.113549.1.1.9', ref.octets(g.bytes(1, 9)))))
    return ref.seq(*parts)


def pbes2(g, f, depth):
    inner_oid = g.choice(OIDS if depth < 2 else [o for o in OIDS if CIPHERS[o] != 'pbes2'])
    if g.draw(12) == 0:
        inner_oid = '1.2.3.%d' % g.draw(100)
    inner, inner_f, _ = cipher(g, inner_oid, depth + 1)
    f.update((n, inner_f[n]) for n in CIPHER_FACTS)
    k = g.draw(8)
    if k == 0:
        # a derivation function nobody knows
        oid = '1.2.3.4.%d' % g.draw(50)
        kdf = alg(oid, g.choice([b'', ref.null(), ref.seq(ref.octets(b'salt'), ref.integer(5))]))
        f.update(kdf=oid)
        f['key_length'] = (RAISES, f['key_length'])
    elif k == 1:
        # one without its parameters
        name, oid = g.choice([('pbkdf2', '1.2.840.113549.1.5.12'), ('scrypt', '1.3.6.1.4.1.11591.4.11')])
        kdf = alg(oid)
        f.update(kdf=name)
        if name == 'scrypt':
            f.update(kdf_hmac=None, kdf_iterations=None)
        f['key_length'] = (RAISES, f['key_length'])
    elif k <= 3:
        salt = g.bytes(0, 20)
        n = g.choice([None, 5, 16, 24, 32, g.draw(70)])
        kdf = alg('1.3.6.1.4.1.11591.4.11', ref.seq(ref.octets(salt), ref.integer(1 << g.draw(20)), ref.integer(g.draw(20)), ref.integer(g.draw(20)),
                                                   b'' if n is None else ref.integer(n)))
        f.update(kdf='scrypt', kdf_hmac=None, kdf_salt=salt, kdf_iterations=None)
        if n is not None:
            f['key_length'] = n
    else:
        other = g.draw(6) == 0
        salt = g.bytes(0, 20)
        count = g.nat(40)
        n = g.choice([None, None, 5, 8, 16, 24, 32, g.draw(70)])
        mac = g.choice([None, None] + sorted(HMACS) + ['1.2.3.%d' % g.draw(9)])
        kdf = alg('1.2.840.113549.1.5.12', ref.seq(
            alg('1.2.3.4', ref.null()) if other else ref.octets(salt), ref.integer(count), b'' if n is None else ref.integer(n),
            b'' if mac is None else alg(mac, ref.null() if g.draw(2) else b'')))
        f.update(kdf='pbkdf2', kdf_hmac='sha1' if mac is None else HMACS.get(mac, mac), kdf_salt=RAISES if other else salt, kdf_iterations=count)
        if n is not None:
            f['key_length'] = n
    return ref.seq(kdf, inner), f


def soften(g, o, facts):
    """what may be inferred or refused is asked apart from the rest"""
    soft = dict((k, v) for k, v in facts.items() if isinstance(v, tuple))
    ask(g, o, dict((k, v) for k, v in facts.items() if k not in soft))
    for name, options in soft.items():
        try:
            got = getattr(o, name)
        except ValueError:
            continue
        g.true(got in options, name, got=got, want=options)


@check.prop(40000, 700000)
def ciphers(g):
    k = g.enum(len(OIDS) * 2 + 4)
    if k < len(OIDS):
        oid = OIDS[k]
    elif k < len(OIDS) * 2:
        oid = '1.2.840.113549.1.5.13'
    else:
        oid = '1.2.3.%d' % g.draw(100)
    der, facts, name = cipher(g, oid)
    g.log(name, der)
    o = through(g, algos.EncryptionAlgorithm.load(der))
    soften(g, o, facts)
    g.eq(o['algorithm'].native, name, 'name of the algorithm')
    g.eq(o.dump(), der, 'encoding after all facts')
    if g.draw(4) == 0:
        # another algorithm in the same place
        der2, facts2, name2 = cipher(g, g.choice(OIDS))
        g.log('then', name2, der2)
        e = keys.EncryptedPrivateKeyInfo.load(ref.seq(der, ref.octets(b'x')))
        soften(g, e['encryption_algorithm'], facts)
        e['encryption_algorithm'] = algos.EncryptionAlgorithm.load(der2)
        soften(g, e['encryption_algorithm'], facts2)
        g.eq(e.dump(), ref.seq(der2, ref.octets(b'x')), 'encoding with another algorithm')
    if name != oid:
        g.nontrivial(der)
    g.sample('%s: %s' % (name, ', '.join('%s=%r' % (n, facts[n]) for n in ('kdf', 'key_length', 'encryption_mode'))))


@check.prop(8000, 100000)
def built(g):
    """password based schemes put together from native values"""
    salt, count = g.bytes(0, 20), g.nat(40)
    if g.draw(2):
        name = g.choice(sorted(PBE))
        o = algos.EncryptionAlgorithm({'algorithm': name, 'parameters': {'salt': salt, 'iterations': count}})
        digest, c, n = PBE[name]
        facts = dict(kdf='pbkdf1' if name.startswith('pbes1') else 'pkcs12_kdf', kdf_hmac=digest, kdf_salt=salt, kdf_iterations=count, key_length=n, encryption_cipher=c)
    else:
        bits, mode = g.choice([128, 192, 256]), g.choice(['cbc', 'ofb'])
        iv = g.nbytes(16)
        kdf = {'salt': algos.Pbkdf2Salt('specified', salt), 'iteration_count': count}
        n, mac = None, None
        if g.draw(2):
            n = kdf['key_length'] = g.draw(70)
        if g.draw(2):
            mac = g.choice(sorted(set(HMACS.values())))
            kdf['prf'] = {'algorithm': mac}
        if g.draw(3) == 0:
            kdf = {'salt': salt, 'cost_parameter': 1024, 'block_size': 8, 'parallelization_parameter': 1}
            if n is not None:
                kdf['key_length'] = n
            facts = dict(kdf='scrypt', kdf_hmac=None, kdf_iterations=None)
        else:
            facts = dict(kdf='pbkdf2', kdf_hmac=mac or 'sha1', kdf_iterations=count)
        name = 'aes%d_%s' % (bits, mode)
        o = algos.EncryptionAlgorithm({'algorithm': 'pbes2', 'parameters': {
            'key_derivation_func': {'algorithm': facts['kdf'], 'parameters': kdf}, 'encryption_scheme': {'algorithm': name, 'parameters': iv}}})
        facts.update(kdf_salt=salt, key_length=bits // 8 if n is None else n, encryption_mode=mode, encryption_cipher='aes', encryption_block_size=16, encryption_iv=iv)
    g.log(name, o.dump())
    ask(g, through(g, o), facts)
    ask(g, algos.EncryptionAlgorithm.load(o.dump(force=True)), facts)
    g.nontrivial(o.dump())


# ------------------------------------------------------------ signature pairs

@check.prop(20000, 400000)
def pairs(g):
    w = g.choice([1, 2, 20, 28, 32, 48, 66, g.uint(1, 90)])

    def half():
        k = g.draw(4)
        if k == 0:
            return g.draw(3)
        if k == 1:
            return (1 << 8 * w) - 1 - g.draw(3)
        if k == 2:
            return g.nat(8 * g.uint(1, w))
        return g.nat(8 * w)
    r, s = half(), half()
    g.log(w, hex(r), hex(s))
    data = r.to_bytes(w, 'big') + s.to_bytes(w, 'big')
    der = ref.seq(ref.integer(r), ref.integer(s))
    o = algos.DSASignature.from_p1363(data)
    g.eq(o.dump(), der, 'encoded form of a concatenated pair')
    o = through(g, o)
    g.eq((o['r'].native, o['s'].native), (r, s), 'numbers')
    n = max(1, (max(r, s).bit_length() + 7) // 8)
    p = through(g, algos.DSASignature.load(der))
    short = r.to_bytes(n, 'big') + s.to_bytes(n, 'big')
    g.eq(p.to_p1363(), short, 'concatenation of a pair')
    g.eq(p.to_p1363(w), data, 'concatenation of a pair at a width')
    g.eq(p.to_p1363(width=w), data, 'concatenation of a pair at a width, again')
    g.eq(algos.DSASignature.from_p1363(short).dump(), der, 'both ways')
    wide = w + g.draw(40)
    g.eq(algos.DSASignature.from_p1363(p.to_p1363(wide)).dump(), der, 'both ways at a larger width')
    g.eq(p.dump(), der, 'encoding after converting')
    if g.draw(2) and n > 1:
        small = g.uint(1, n - 1)
        try:
            got = p.to_p1363(small)
        except ValueError:
            pass
        else:
            g.fail('concatenation at a width that is too small', width=small, got=got)
    if g.draw(3) == 0:
        odd = data[:len(data) - 1 - 2 * g.draw(w)]
        try:
            got = algos.DSASignature.from_p1363(odd)
        except ValueError:
            pass
        else:
            g.fail('pair from an odd number of octets', octets=odd, got=got.native)
    g.nontrivial((w, r, s))
    g.sample('width %d, numbers of %d and %d bits' % (w, r.bit_length(), s.bit_length()))
