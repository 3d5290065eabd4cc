"""A small JOSE implementation, independent of the libraries under test, used by the
simulated OPs and by the oracles."""
import base64
import functools
import hashlib
import hmac
import json
import os

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'keys.json')) as _f:
    KEYS = json.load(_f)


def b64e(b):
    if isinstance(b, str):
        b = b.encode()
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def b64d(s):
    if isinstance(s, str):
        s = s.encode()
    return base64.urlsafe_b64decode(s + b'=' * (-len(s) % 4))


def _i(s):
    return int.from_bytes(b64d(s), 'big')


def jwk(owner, kty, use='sig'):
    for k in KEYS[owner]['keys']:
        if k['kty'] == kty and k.get('use') == use:
            return k
    raise KeyError((owner, kty, use))


PRIV = {'d', 'p', 'q', 'dp', 'dq', 'qi', 'k'}


def public(k):
    return {a: v for a, v in k.items() if a not in PRIV}


def jwks(owner, private=False, kinds=None):
    ks = [k for k in KEYS[owner]['keys'] if kinds is None or (k['kty'], k['use']) in kinds]
    return {'keys': [dict(k) if private else public(k) for k in ks]}


@functools.lru_cache(maxsize=None)
def _priv(n, e, d, p, q):
    p, q, d, e, n = (_i(x) for x in (p, q, d, e, n))
    return rsa.RSAPrivateNumbers(p, q, d, d % (p - 1), d % (q - 1), pow(q, -1, p),
                                 rsa.RSAPublicNumbers(e, n)).private_key()


@functools.lru_cache(maxsize=None)
def _ecpriv(x, y, d):
    return ec.EllipticCurvePrivateNumbers(
        _i(d), ec.EllipticCurvePublicNumbers(_i(x), _i(y), ec.SECP256R1())).private_key()


HASH = {'256': hashes.SHA256, '384': hashes.SHA384, '512': hashes.SHA512}


@functools.lru_cache(maxsize=4096)
def _sign(alg, inp, keyid):
    """keyid: (owner, use) or ('secret', secret)."""
    if alg == 'none':
        return b''
    if alg.startswith('HS'):
        return hmac.new(keyid[1].encode() if isinstance(keyid[1], str) else keyid[1],
                        inp.encode(), getattr(hashlib, 'sha' + alg[2:])).digest()
    h = HASH[alg[2:]]()
    if alg.startswith('RS') or alg.startswith('PS'):
        k = jwk(keyid[0], 'RSA', keyid[1])
        key = _priv(k['n'], k['e'], k['d'], k['p'], k['q'])
        pad = padding.PKCS1v15() if alg[0] == 'R' else padding.PSS(
            mgf=padding.MGF1(h), salt_length=h.digest_size)
        return key.sign(inp.encode(), pad, h)
    k = jwk(keyid[0], 'EC', keyid[1])
    key = _ecpriv(k['x'], k['y'], k['d'])
    r, s = decode_dss_signature(key.sign(inp.encode(), ec.ECDSA(h)))
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def sign(claims, alg, owner=None, secret=None, kid='auto', extra=None, use='sig'):
    hdr = {'alg': alg}
    if kid == 'auto':
        if owner and alg[:2] in ('RS', 'PS'):
            hdr['kid'] = jwk(owner, 'RSA', use)['kid']
        elif owner and alg[:2] == 'ES':
            hdr['kid'] = jwk(owner, 'EC', use)['kid']
    elif kid:
        hdr['kid'] = kid
    hdr.update(extra or {})
    inp = b64e(json.dumps(hdr)) + '.' + b64e(json.dumps(claims))
    keyid = ('secret', secret) if secret is not None else (owner, use)
    return inp + '.' + b64e(_sign(alg, inp, keyid))


def decode(jwt):
    h, p, s = jwt.split('.')
    return json.loads(b64d(h)), json.loads(b64d(p)), b64d(s)


def verify(jwt, key):
    """Strict verification. key: public jwk dict or {'secret': ..}; returns claims or raises."""
    h, p, s = jwt.split('.')
    hdr = json.loads(b64d(h))
    sig = b64d(s)
    inp = (h + '.' + p).encode()
    alg = hdr['alg']
    if alg == 'none':
        raise ValueError('unsigned')
    if alg.startswith('HS'):
        want = hmac.new(key['secret'].encode(), inp, getattr(hashlib, 'sha' + alg[2:])).digest()
        if not hmac.compare_digest(want, sig):
            raise ValueError('bad mac')
    elif alg[:2] in ('RS', 'PS'):
        if key.get('kty') != 'RSA':
            raise ValueError('wrong key type')
        hh = HASH[alg[2:]]()
        pad = padding.PKCS1v15() if alg[0] == 'R' else padding.PSS(
            mgf=padding.MGF1(hh), salt_length=hh.digest_size)
        rsa.RSAPublicNumbers(_i(key['e']), _i(key['n'])).public_key().verify(sig, inp, pad, hh)
    elif alg[:2] == 'ES':
        if key.get('kty') != 'EC':
            raise ValueError('wrong key type')
        crv = {'P-256': ec.SECP256R1(), 'P-384': ec.SECP384R1(), 'P-521': ec.SECP521R1()}[key['crv']]
        n = len(sig) // 2
        ec.EllipticCurvePublicNumbers(_i(key['x']), _i(key['y']), crv).public_key().verify(
            encode_dss_signature(int.from_bytes(sig[:n], 'big'), int.from_bytes(sig[n:], 'big')),
            inp, ec.ECDSA(HASH[alg[2:]]()))
    else:
        raise ValueError('alg')
    return json.loads(b64d(p))


def left_hash(value, alg):
    h = getattr(hashlib, 'sha' + alg[-3:])(value.encode()).digest()
    return b64e(h[:len(h) // 2])
