"""C02 encrypted messages: round trip, integrity, nested signatures, pinned algorithms."""
import json

from rv import gen, jose
from rv.checks import c01
from oidcmsg import oidc
from oidcmsg.message import Message

ENC_ALGS = jose.MORE_ENC_ALGS


def pick(rng):
    return rng.choice(ENC_ALGS), rng.choice(jose.ENC_ENCS)


def corrupt(rng, tok):
    parts = tok.split('.')
    while True:
        i = rng.choice((0, 1, 2, 3, 3, 4))
        if i == 1 and not parts[1]:     # direct key agreement, nothing there
            continue
        b = bytearray(jose.unb64(parts[i]))
        how = rng.choice(('flip', 'cut', 'ext', 'empty'))
        if i == 0:
            d = json.loads(bytes(b))
            d['x'] = rng.randrange(100)
            nb = json.dumps(d).encode()
        elif how == 'flip' and b:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            nb = bytes(b)
        elif how == 'cut' and b:
            nb = bytes(b[:rng.randrange(len(b))])
        elif how == 'ext':
            nb = bytes(b) + b'\x01'
        else:
            nb = b''
        if nb != jose.unb64(parts[i]):
            parts[i] = jose.b64(nb)
            return ('part%d-%s' % (i, how if i else 'header')), '.'.join(parts)


def roundtrip(run, rng):
    """to_jwe/from_jwe with the recipient's key; wrong key and corruption are refused."""
    alg, enc = pick(rng)
    cls = rng.choice([Message, oidc.OpenIDSchema, oidc.IdToken])
    c = c01.claims(rng)
    if cls is Message:
        c.update(gen.json_object(rng))
        c = {k: v for k, v in c.items() if v not in ('', [''])}
    m = cls(**c)
    run.note(alg=alg, enc=enc, claims=c)
    tok = run.must('to_jwe', m.to_jwe, [jose.enc_key('rp', alg)], enc, alg)
    run.expect(len(tok.split('.')) == 5, 'not a compact JWE: %r', tok)
    hdr = json.loads(jose.unb64(tok.split('.')[0]))
    run.expect((hdr['alg'], hdr['enc']) == (alg, enc), 'JWE made with %r, asked for %r', hdr, (alg, enc))
    leak = [v for v in (c.get('sub'),) if isinstance(v, str) and len(v) > 12 and (v in tok or jose.b64(v.encode()) in tok)]
    run.expect(not leak, 'plaintext visible in the encrypted message')
    m2 = run.must('from_jwe', cls().from_jwe, tok, [jose.enc_key('rp', alg)])
    run.expect(m2 == m and m2.to_dict() == m.to_dict(), 'decrypts to something else: %r', m2.to_dict())
    run.obs('jwe_roundtrip', (alg, enc, cls.__name__))
    if rng.random() < .5:       # made by someone whose JSON is not all ASCII
        body = json.dumps(m.to_dict(), ensure_ascii=False, indent=rng.choice((None, None, 1)))
        try:
            body = body.encode()
        except UnicodeEncodeError:
            body = json.dumps(m.to_dict()).encode()
        m4 = run.must('from_jwe of another maker', cls().from_jwe, jose.encrypt(body, 'rp', alg, enc), [jose.enc_key('rp', alg)])
        run.expect(m4 == m, 'decrypts to something else: %r', m4.to_dict())
        i = body.find(b'"', 3) + 1
        run.raises('a decrypted text that is not UTF-8', cls().from_jwe, jose.encrypt(body[:i] + rng.choice((b'\xff', b'\xc3(', b'\xed\xa0')) + body[i:], 'rp', alg, enc),
                   [jose.enc_key('rp', alg)])
        run.obs('foreign_json', (alg, enc))
    m3 = cls(set_defaults=False)
    run.raises('from_jwe with another key', m3.from_jwe, tok, [jose.enc_key('evil', alg)])
    kind, bad = corrupt(rng, tok)
    run.note(corruption=kind, token=bad)
    run.raises('corrupted JWE (%s)' % kind, m3.from_jwe, bad, [jose.enc_key('rp', alg)])
    run.expect(len(m3) == 0, 'refused JWE left content behind: %r', m3.to_dict())
    run.obs('jwe_corruption_refused', (kind, alg, enc))


def nested(run, rng):
    """Signed then encrypted, through from_jwt: both layers are enforced."""
    alg, enc = pick(rng)
    salg = rng.choice(jose.ALGS)
    c = c01.claims(rng)
    cls = rng.choice(c01.CLASSES)
    kj = jose.rp_jar()
    mode = rng.choice(('honest', 'honest', 'pinned', 'inner', 'inner', 'outer', 'foreign', 'badpin', 'notencrypted', 'others'))
    run.note(mode=mode, alg=alg, enc=enc, salg=salg, cls=cls.__name__)
    inner = jose.sign(c, salg)
    if mode in ('honest', 'pinned'):
        kw = {'encalg': alg, 'encenc': enc} if mode == 'pinned' else {}
        if mode == 'pinned' and rng.random() < .4:
            del kw[rng.choice(sorted(kw))]
        if rng.random() < .1:
            kw['verify'] = False
        hdr = {} if rng.random() < .7 else {rng.choice(('cty', 'typ')): 'JWT'}
        m = run.must('nested JWT', cls().from_jwt, jose.encrypt(inner, 'rp', alg, enc, **hdr), kj, **kw)
        run.expect(m.to_dict() == c, 'nested JWT claims differ')
        run.expect(m.jws_header.get('alg') == salg and m.jwe_header.get('alg') == alg
                   and m.jwe_header.get('enc') == enc, 'headers not reported')
        run.obs('nested_accepted', (alg, enc, salg))
        return
    m, kw = cls(), {}
    if mode == 'inner':
        kind, bad = c01.hostile(rng, c)
        hdr = {}
        if rng.random() < .5:           # what the outer header says about the content changes nothing
            hdr = {rng.choice(('cty', 'typ', 'cty')): rng.choice(('JWT', 'jwt', 'json', 'JSON', 'JWE', 'text/plain', 'application/json', 'none', ''))}
        tok = jose.encrypt(bad, 'rp', alg, enc, **hdr)
        mode += ':' + kind
    elif mode == 'outer':
        kind, tok = corrupt(rng, jose.encrypt(inner, 'rp', alg, enc))
        mode += ':' + kind
    elif mode == 'foreign':
        tok = jose.encrypt(inner, 'evil', alg, enc)
    elif mode == 'others':
        # private keys we happen to hold for somebody else are not ours
        kj = jose.new_rp_jar(own=rng.choice(('rp', None)))
        kj.import_jwks({'keys': jose.jwks('evil', True)['keys'] + [dict(k) for k in jose.ENC_JWKS['evil']]}, rng.choice((jose.ISS1, 'https://third.example.org', jose.RP)))
        tok = jose.encrypt(inner, 'evil', alg, enc)
    elif mode == 'badpin':
        tok = jose.encrypt(inner, 'rp', alg, enc)
        kw = rng.choice(({'encalg': rng.choice([a for a in ENC_ALGS + ['A128GCMKW', 'dir'] if a != alg])},
                         {'encenc': rng.choice([e for e in jose.ENC_ENCS if e != enc])}))
        if rng.random() < .5:
            kw = dict({'encalg': alg, 'encenc': enc}, **kw)         # the other one is right
    else:
        tok = inner
        kw = {'encalg': alg}
        if rng.random() < .5:
            kw['encenc'] = enc
    run.note(mode=mode, token=tok, kw=kw)
    run.raises('nested JWT (%s)' % mode, m.from_jwt, tok, kj, **kw)
    run.expect(len(m) == len(cls()), 'refused nested JWT left content behind')
    run.obs('nested_refused', (mode, cls.__name__))


TOGETHER = ('roundtrip', 'nested')


def scenarios(run):
    run.rules.append('JWE alg x enc x signature alg x corruption site; non-trivial = distinct combination observed')
    run.assumptions.append('with direct key agreement the (empty) encrypted key is ignored by cryptojwt: not changed here')
    run.assumptions.append('cryptojwt and the cryptography package implement the primitives correctly')
    run.require(jwe_roundtrip=50, jwe_corruption_refused=50, foreign_json=50, nested_accepted=50, nested_refused=100)
    return {'roundtrip': (roundtrip, 400, 8000), 'nested': (nested, 1200, 25000)}
