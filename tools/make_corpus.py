"""Collects the DER/BER documents of the repository's fixtures, with the class each
decodes as, into data/corpus.json (run once; the file is committed)."""
import base64
import json
import os
import re
import sys

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from asn1crypto.parser import peek  # noqa
from asn1crypto import x509, keys, crl, csr, ocsp, cms, tsp, pkcs12, algos  # noqa

ROOT = '/repo/tests/fixtures'
GUESS = [x509.Certificate, csr.CertificationRequest, crl.CertificateList, ocsp.OCSPRequest, ocsp.OCSPResponse, keys.PrivateKeyInfo,
         keys.DSAParams, keys.ECPrivateKey, pkcs12.Pfx,
         tsp.TimeStampReq, tsp.TimeStampResp, cms.ContentInfo, keys.EncryptedPrivateKeyInfo, keys.PublicKeyInfo,
         keys.RSAPrivateKey, keys.DSAPrivateKey, keys.RSAPublicKey, cms.AttributeCertificateV2,
         pkcs12.SafeContents, pkcs12.SafeBag, algos.EncryptionAlgorithm, algos.AlgorithmIdentifier]


def blocks(data):
    if data[:1] == b'\x30':
        return [data[:peek(data)]]
    out = []
    for m in re.finditer(rb'-----BEGIN ([^-]+)-----(.*?)-----END', data, re.S):
        body = m.group(2)
        if b'Proc-Type' in body:
            continue
        b = base64.b64decode(re.sub(rb'[^A-Za-z0-9+/=]', b'', body))
        out.append(b[:peek(b)])
    return out


def touch(v):
    """every part of the value can be read"""
    v.native
    assert len(v) == len(v._fields) if hasattr(v, '_fields') else True
    v.dump(force=False)


docs, seen = [], set()
for d, _, files in sorted(os.walk(ROOT)):
    for f in sorted(files):
        if f.endswith(('.md', '.txt')):
            continue
        data = open(os.path.join(d, f), 'rb').read()
        for b in blocks(data):
            if b in seen or len(b) > 30000:
                continue
            seen.add(b)
            for cls in GUESS:
                try:
                    v = cls.load(b, strict=True)
                    touch(v)
                except Exception:
                    continue
                docs.append({'name': os.path.relpath(os.path.join(d, f), ROOT), 'cls': cls.__module__.split('.')[-1] + '.' + cls.__name__,
                             'hex': b.hex()})
                break
            else:
                sys.stderr.write('no class for %s (%d octets, %s)\n' % (f, len(b), b[:20].hex()))
docs.sort(key=lambda x: (len(x['hex']), x['name']))
json.dump(docs, sys.stdout, indent=0)
