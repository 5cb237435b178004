"""JOSE workload: fixed keys, honest and hostile compact JWS/JWE builders (independent of oidcmsg)."""
import base64
import hashlib
import hmac
import json
import os
import zlib

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.ec import ECKey
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import RSAKey
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar

KEYS = json.load(open(os.path.join(os.path.dirname(__file__), 'keys.json')))
ASYM = ['RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'ES256', 'ES384', 'ES512']
SYM = ['HS256', 'HS384', 'HS512']
ALGS = ASYM + SYM
ISS1, ISS2 = 'https://op.example.org', 'https://op2.example.com/tenant'
RP = 'client_1'
_CURVE = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def unb64(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def kid_for(who, alg):
    if alg in SYM:
        return who + '-oct'
    if alg in _CURVE:
        return who + '-' + _CURVE[alg]
    return who + '-rsa'


_cache = {}


def key(who, alg):
    kid = kid_for(who, alg)
    if kid not in _cache:
        d = [k for k in KEYS[who] if k['kid'] == kid][0]
        _cache[kid] = {'RSA': RSAKey, 'EC': ECKey, 'oct': SYMKey}[d['kty']](**d)
        _cache[kid].deserialize()
    return _cache[kid]


def jwks(who, private=False, drop=()):
    out = []
    for k in KEYS[who]:
        k = dict(k)
        if k['kid'] in drop:
            continue
        if not private and k['kty'] != 'oct':
            for p in ('d', 'p', 'q', 'dp', 'dq', 'qi'):
                k.pop(p, None)
        out.append(k)
    return {'keys': out}


def jar(own=None, **issuers):
    """KeyJar with `own` private keys under '' and public (plus shared symmetric) keys of named issuers."""
    kj = KeyJar()
    if own:
        kj.import_jwks(jwks(own, True), '')
    return kj


_jars = {}


def rp_jar(iss1=ISS1, iss2=ISS2, own='rp', second=True, drop=()):
    """Shared (cached): never hand it to code that is allowed to change it."""
    ident = (iss1, iss2, own, second, tuple(drop))
    if ident not in _jars:
        _jars[ident] = new_rp_jar(*ident)
    return _jars[ident]


def new_rp_jar(iss1=ISS1, iss2=ISS2, own='rp', second=True, drop=()):
    kj = KeyJar()
    if own:
        kj.import_jwks({'keys': jwks(own, True)['keys'] + [dict(k) for k in ENC_JWKS.get(own, [])]}, '')
    kj.import_jwks(jwks('iss1', drop=drop), iss1)
    if second:
        kj.import_jwks(jwks('iss2'), iss2)
    return kj


def sign(claims, alg, who='iss1', **headers):
    """Honest token. Names the key, mostly: where there is only one key of the kind it need not."""
    hdr = dict({'alg': alg, 'kid': kid_for(who, alg)}, **headers)
    if not headers:
        n = zlib.crc32(json.dumps(claims, sort_keys=True).encode() if isinstance(claims, dict) else b'')
        if alg not in _CURVE and n % 5 == 1:
            del hdr['kid']
        if n % 7 == 1:
            hdr['typ'] = ('JWT', 'jwt', 'at+jwt', 'secevent+jwt')[n // 7 % 4]
        if n % 11 == 1:         # claims replicated in the header (RFC 7519 5.3)
            hdr.update({k: v for k, v in claims.items() if k in ('iss', 'sub', 'aud', 'client_id')})
        if n % 13 == 1:
            hdr.update(odd_header(n // 13))
    return forge(hdr, claims, alg, who)


ODD = ({'x': 'y'}, {'zip': 'DEF'}, {'b64': True}, {'b64': False}, {'enc': 'A128GCM'}, {'cty': 'JWT'}, {'iat': 1}, {'jti': 'a'}, {'nonce': 'a'},
       {'url': 'https://a'}, {'ver': '1'}, {'verified': True}, {'trusted': True}, {'sig': 'none'}, {'use': 'enc'}, {'typ': 'none'}, {'typ': 'JOSE+JSON'},
       {'cty': 'none'}, {'iss': ISS2}, {'epk': {}}, {'jku': ''}, {'x5t': 'a'}, {'kty': 'oct'}, {'exp': 1})


def odd_header(n):
    o = ODD[n % len(ODD)]
    return {} if 'cty' in o or 'typ' in o else o        # those say what the payload is


def raw(header, payload, sig=b''):
    h = header if isinstance(header, bytes) else json.dumps(header).encode()
    p = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    s = sig if isinstance(sig, str) else b64(sig)
    return '%s.%s.%s' % (b64(h), b64(p), s)


def forge(header, claims, alg, who):
    """Sign with any key under an arbitrary header."""
    from cryptojwt.jws.jws import SIGNER_ALGS
    h = b64(json.dumps(header).encode())
    p = b64(claims if isinstance(claims, bytes) else json.dumps(claims).encode())
    k = key(who, alg)
    s = SIGNER_ALGS[alg].sign((h + '.' + p).encode(), k.key if alg in SYM else _priv(who, alg))
    return '%s.%s.%s' % (h, p, b64(s))


_privs = {}


def _priv(who, alg):
    kid = kid_for(who, alg)
    if kid not in _privs:
        _privs[kid] = key(who, alg).private_key()
    return _privs[kid]


def unsigned(claims, alg='none', sig=b'', **headers):
    return raw(dict(headers, alg=alg), claims, sig)


def hs_raw(header, claims, secret):
    h = {'HS256': hashlib.sha256, 'HS384': hashlib.sha384, 'HS512': hashlib.sha512}[header['alg']]
    body = '%s.%s' % (b64(json.dumps(header).encode()), b64(json.dumps(claims).encode()))
    return body + '.' + b64(hmac.new(secret, body.encode(), h).digest())


def public_bytes(who):
    """Plausible byte strings an attacker uses as HMAC secret in RS->HS confusion."""
    from cryptography.hazmat.primitives import serialization as s
    pub = key(who, 'RS256').public_key()
    out = [pub.public_bytes(s.Encoding.PEM, s.PublicFormat.SubjectPublicKeyInfo),
           pub.public_bytes(s.Encoding.DER, s.PublicFormat.SubjectPublicKeyInfo),
           pub.public_bytes(s.Encoding.PEM, s.PublicFormat.PKCS1)]
    d = [k for k in jwks(who)['keys'] if k['kid'] == who + '-rsa'][0]
    return out + [d['n'].encode(), json.dumps(d).encode(), b'', b'\0']


ENC_ALGS = ['RSA-OAEP', 'RSA-OAEP-256', 'RSA1_5']
ENC_ENCS = ['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM', 'A192GCM']


MORE_ENC_ALGS = ENC_ALGS + ['A128KW', 'A192KW', 'A256KW', 'ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW']


def _more_enc_keys(who):
    """Encryption keys of the other kinds, the same in every run."""
    from cryptography.hazmat.primitives.asymmetric import ec
    n = int.from_bytes(hashlib.sha256(who.encode()).digest()[:30], 'big')
    pn = ec.derive_private_key(n, ec.SECP256R1()).public_key().public_numbers()
    out = [{'kty': 'EC', 'kid': who + '-ecenc', 'use': 'enc', 'crv': 'P-256', 'x': b64(pn.x.to_bytes(32, 'big')),
            'y': b64(pn.y.to_bytes(32, 'big')), 'd': b64(n.to_bytes(32, 'big'))}]
    for size in (16, 24, 32):
        out.append({'kty': 'oct', 'kid': '%s-kw%d' % (who, size), 'use': 'enc', 'k': b64(hashlib.sha256(b'%d' % size + who.encode()).digest()[:size])})
    return out


ENC_JWKS = {who: _more_enc_keys(who) for who in ('rp', 'evil')}


def enc_key(who, alg='RSA-OAEP'):
    kid = who + {'E': '-ecenc', 'A': '-kw%d' % (int(alg[1:4]) // 8) if alg[0] == 'A' else ''}.get(alg[0], '-enc')
    if kid not in _cache:
        d = [k for k in KEYS[who] + ENC_JWKS.get(who, []) if k['kid'] == kid][0]
        _cache[kid] = {'RSA': RSAKey, 'EC': ECKey, 'oct': SYMKey}[d['kty']](**d)
        _cache[kid].deserialize()
    return _cache[kid]


def encrypt(text, who='rp', alg='RSA-OAEP', enc='A128CBC-HS256', **kw):
    return JWE(text, alg=alg, enc=enc, **kw).encrypt([enc_key(who, alg)])


def left_hash(msg, alg):
    """OIDC Core 3.1.3.6, independent implementation."""
    h = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]]
    d = h(msg.encode('utf-8')).digest()
    return b64(d[:len(d) // 2])


B64CH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def tamper(rng, tok):
    """(name, token): a modification of a compact JWS that changes header, payload or signature *bytes*.
    Returns None when the drawn mutation happens to be an identity."""
    h, p, s = tok.split('.')
    kind = rng.choice(('payload', 'payload', 'payload-claim', 'header', 'sigbit', 'sigbyte', 'sigtrunc', 'sigext',
                       'nosig', 'swapsig', 'alg'))
    if kind == 'payload':
        b = bytearray(unb64(p))
        i = rng.randrange(len(b))
        b[i] ^= 1 << rng.randrange(7)
        t = '.'.join((h, b64(bytes(b)), s))
    elif kind == 'payload-claim':
        d = json.loads(unb64(p))
        d[rng.choice(sorted(d) + ['admin', 'sub'])] = rng.choice(('attacker', 1, True, ['x']))
        t = '.'.join((h, b64(json.dumps(d).encode()), s))
    elif kind == 'header':
        d = json.loads(unb64(h))
        d[rng.choice(('x', 'typ', 'cty'))] = 'x%d' % rng.randrange(1000)
        t = '.'.join((b64(json.dumps(d).encode()), p, s))
    elif kind == 'alg':
        d = json.loads(unb64(h))
        d['alg'] = rng.choice([a for a in ALGS if a != d['alg']])
        t = '.'.join((b64(json.dumps(d).encode()), p, s))
    elif kind == 'sigbit':
        b = bytearray(unb64(s))
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        t = '.'.join((h, p, b64(bytes(b))))
    elif kind == 'sigbyte':
        b = bytearray(unb64(s))
        i = rng.randrange(len(b))
        b[i] = (b[i] + rng.randrange(1, 256)) % 256
        t = '.'.join((h, p, b64(bytes(b))))
    elif kind == 'sigtrunc':
        b = unb64(s)
        t = '.'.join((h, p, b64(b[:rng.randrange(len(b))])))
    elif kind == 'sigext':
        t = '.'.join((h, p, b64(unb64(s) + bytes([rng.randrange(256)]))))
    elif kind == 'nosig':
        t = '.'.join((h, p, ''))
    else:
        b = bytearray(unb64(s))
        rng.shuffle(b)
        t = '.'.join((h, p, b64(bytes(b))))
    try:
        same = all(unb64(a) == unb64(c) for a, c in zip(t.split('.'), tok.split('.')))
    except Exception:
        same = False
    return None if same else (kind, t)
