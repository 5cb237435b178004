"""C34 what is issued is what was asked for: ID Tokens, other signed messages and request objects."""
import copy
import json
import time

from cryptojwt import KeyJar

from rv import gen, jose, samples
from rv.checks.c12 import plain
from oidcmsg import oidc
from oidcmsg.oidc import make_openid_request

OP = 'https://op.example.org'


def parts(run, tok):
    run.expect(isinstance(tok, str) and tok.count('.') == 2, 'not a compact JWS: %r', tok)
    h, p, _ = tok.split('.')
    return json.loads(jose.unb64(h)), json.loads(jose.unb64(p))


def good_signature(run, tok, alg, who):
    from cryptojwt.jws.jws import JWS
    try:
        JWS(alg=alg).verify_compact(tok, [jose.key(who, alg)])
    except Exception as e:
        run.expect(False, 'signature does not verify with the %s key: %s', alg, type(e).__name__)


def own(rng, alg):
    """The key, perhaps among keys of other kinds."""
    ks = [jose.key('iss1', alg)]
    if rng.random() < .5:
        kinds = {ks[0].kty}
        for a in rng.sample(jose.ALGS, 6):
            if jose.key('iss1', a).kty not in kinds:
                kinds.add(jose.key('iss1', a).kty)
                ks.insert(rng.randint(0, len(ks)), jose.key('iss1', a))
    return ks


def value(rng):
    return rng.choice((lambda: gen.word(rng), lambda: gen.text(rng)))()


def id_claims(rng):
    """Claims of an ID Token, without the times the issuing fills in."""
    c = {'iss': jose.ISS1, 'sub': gen.word(rng), 'aud': [jose.RP]}
    if rng.random() < .6:
        c['nonce'] = gen.word(rng)
    for k in ('acr', 'given_name', 'locale', 'sid', 'picture', 'name'):
        if rng.random() < .2:
            c[k] = gen.text(rng)
    if rng.random() < .2:
        c['auth_time'] = int(time.time()) - 100
    if rng.random() < .2:
        c['amr'] = ['pwd', 'otp']
    if rng.random() < .2:
        c['email_verified'] = rng.random() < .5
    if rng.random() < .2:
        c['address'] = {'street_address': gen.word(rng), 'country': 'SE'}
    if rng.random() < .2:
        c['azp'] = jose.RP
    if rng.random() < .3:
        v = gen.json_value(rng, 2)
        c[gen.extra_key(rng, ('access_token', 'code', 'lifetime'))] = 'x' if v in ('', ['']) else v
    return c


def issue(run, rng):
    alg = rng.choice(jose.ALGS)
    c = id_claims(rng)
    at = value(rng) if rng.random() < .6 else None
    code = value(rng) if rng.random() < .6 else None
    life = rng.choice((0, 0, 1, 300, 3600, 86400 * 365))
    give_exp = not life or rng.random() < .3
    args = dict(c)
    old_exp = int(time.time()) + rng.choice((600, 5000))
    if give_exp:
        args['exp'] = old_exp
    if rng.random() < .3:
        args['iat'] = 12345
    if at is not None:
        args['access_token'] = at
    if code is not None:
        args['code'] = code
    if rng.random() < .15:
        args['at_hash'] = 'stale'           # only the present token counts
        if at is None:
            c['at_hash'] = 'stale'
    m = oidc.IdToken(**args)
    rounds = rng.choice((1, 1, 2))
    run.note(alg=alg, claims=args, lifetime=life)
    for n in range(rounds):
        if n:                               # the same instance is used to issue another one
            if at is not None:
                at = value(rng)
                m['access_token'] = at
            life = rng.choice((0, 60))
            if code is not None and rng.random() < .5:
                code = value(rng)
                m['code'] = code
            old_exp = m['exp'] if 'exp' in m else old_exp
        t0 = gen.now()
        tok = run.must('issuing', m.to_jwt, own(rng, alg), alg, 0, life)
        t1 = int(time.time())
        h, p = parts(run, tok)
        run.expect(h.get('alg') == alg, 'signed with %r, asked for %s', h.get('alg'), alg)
        good_signature(run, tok, alg, 'iss1')
        run.expect('access_token' not in p and 'code' not in p, 'the token itself is shown in the ID Token: %r', p)
        run.expect(type(p.get('iat')) is int and t0 <= p['iat'] <= t1, 'issued at %r, now is %d', p.get('iat'), t0)
        if life:
            run.expect(p.get('exp') == p['iat'] + life, 'expires %r, issued %r for %d s', p.get('exp'), p['iat'], life)
        else:
            run.expect(p.get('exp') == old_exp, 'expires %r, should be %r', p.get('exp'), old_exp)
        want = dict(c)
        if at is not None:
            want['at_hash'] = jose.left_hash(at, alg)
            run.expect(p.get('at_hash') == want['at_hash'], 'at_hash %r, expected %r (%s)', p.get('at_hash'), want['at_hash'], alg)
        if code is not None:
            want['c_hash'] = jose.left_hash(code, alg)
            run.expect(p.get('c_hash') == want['c_hash'], 'c_hash %r, expected %r (%s)', p.get('c_hash'), want['c_hash'], alg)
        got = {k: v for k, v in p.items() if k not in ('iat', 'exp')}
        run.expect(got == want, 'the ID Token says %r, expected %r', got, want)
        run.obs('issued', (alg, at is not None, code is not None, bool(life), n))
        # ... and the receiver agrees
        if c.get('at_hash') != 'stale' and isinstance(p.get('exp'), int):
            r = {'state': 's', 'id_token': tok}
            if at is not None:
                r.update(access_token=at, token_type='Bearer')
            if code is not None:
                r['code'] = code
            kw = dict(keyjar=jose.rp_jar(), iss=jose.ISS1, client_id=jose.RP)
            if 'nonce' in c:
                kw['nonce'] = c['nonce']
            a = oidc.AuthorizationResponse(**r)
            run.expect(run.must('verifying the issued ID Token', a.verify, **kw) is not False, 'the issued ID Token is not accepted')
            seen = a['__verified_id_token']
            run.expect(plain(dict(seen)) == p, 'verified as %r, issued %r', plain(dict(seen)), p)
            run.obs('accepted', alg)
            if at is not None and rng.random() < .3:
                a = oidc.AuthorizationResponse(**dict(r, access_token=gen.near(rng, at) or at + 'x'))
                run.refuses('the ID Token with another access token', a.verify, **kw)
                run.obs('other_token')


def signed(run, rng):
    """Any other message: the JWS says exactly what the message says."""
    name = rng.choice([n for n in samples.NAMES if n != 'oidcmsg.oidc:IdToken'])
    cls = gen.cls_of(name)
    d, _ = samples.valid(rng, name)
    alg = rng.choice(jose.ALGS + ['none'])
    m = cls(set_defaults=False, **d)
    before = {k: copy.deepcopy(plain(v)) for k, v in m.items()}
    want = json.loads(json.dumps(m.to_dict()))
    run.note(cls=name, alg=alg, content=d)
    tok = run.must('signing', m.to_jwt, [] if alg == 'none' else own(rng, alg), alg)
    h, p = parts(run, tok)
    run.expect(h.get('alg') == alg, 'signed with %r, asked for %s', h.get('alg'), alg)
    run.expect(p == want, 'the JWS says %r, the message %r', p, want)
    if alg != 'none':
        good_signature(run, tok, alg, 'iss1')
        if rng.random() < .3:
            other = rng.choice([a for a in jose.ALGS if a[0] not in ('RP' if alg[0] in 'RP' else alg[0])])
            bad = rng.choice((None, [], [jose.key('iss1', other)], [jose.key('rp', other), jose.key('evil', other)]))
            run.raises('signing with %s without a key for it' % alg, m.to_jwt, bad, alg)
            run.obs('unsigned_refused', (alg, bad and len(bad)))
    run.expect({k: plain(v) for k, v in m.items()} == before, 'signing changed the message')
    if alg != 'none':
        kj = KeyJar()
        kj.import_jwks(jose.jwks('iss1'), p['iss'] if isinstance(p.get('iss'), str) else jose.ISS1)
        kw = {} if isinstance(p.get('iss'), str) else {'iss': jose.ISS1}
        if isinstance(p.get('iss'), str) or 'iss' not in p:
            b = run.must('reading it back', cls(set_defaults=False).from_jwt, tok, kj, **kw)
            run.expect(json.loads(json.dumps(b.to_dict())) == want, 'read back as %r, was %r', b.to_dict(), want)
            run.obs('read_back', name)
    run.obs('signed', (name, alg))


def jar_for(alg, owner, who='rp'):
    kj = KeyJar()
    kid = jose.kid_for(who, alg)
    ks = [k for k in jose.jwks(who, True)['keys'] if k['kid'] == kid]
    kj.import_jwks({'keys': copy.deepcopy(ks)}, owner)
    return kj


def request_object(run, rng):
    alg = rng.choice([a for a in jose.ALGS if a != 'ES512'])       # cryptojwt doesn't find P-521 keys for it
    owner = rng.choice(('client_1', 'https://rp.example.com', 'foobar'))
    kj = jar_for(alg, owner)
    # keys of others, none of which must be used
    ev = [k for k in jose.jwks('evil', True)['keys'] if k['kid'] == jose.kid_for('evil', alg)]
    for o in rng.sample(['', 'other', OP], rng.randint(0, 3)):
        kj.import_jwks({'keys': copy.deepcopy(ev)}, o)
    args = {'response_type': rng.choice((['code'], ['code', 'id_token'], ['id_token'])), 'client_id': owner, 'scope': ['openid'] + rng.choice(([], ['email'])),
            'redirect_uri': 'https://rp.example.com/cb', 'nonce': gen.word(rng), 'state': gen.word(rng)}
    if rng.random() < .4:
        args['claims'] = {'id_token': {'auth_time': {'essential': True}, 'acr': {'values': ['a', 'b']}}}
    if rng.random() < .3:
        args['max_age'] = rng.randint(1, 10000)
    if rng.random() < .3:
        args['ui_locales'] = ['sv', 'en']
    if rng.random() < .4:
        args[gen.extra_key(rng, ('exp', 'lifetime'))] = gen.text(rng)
    if rng.random() < .3:
        args[rng.choice(('max_age', 'x_zero'))] = 0
    if rng.random() < .3:
        args[gen.extra_key(rng, ('exp', 'lifetime'))] = rng.choice((False, 0, {}, None, True, 0.0))
    jti, life = rng.random() < .5, rng.choice((0, 0, 300, 1))
    arq = oidc.AuthorizationRequest(**args)
    before = plain(dict(arq))
    said = json.loads(json.dumps(arq.to_dict()))
    recv = rng.choice((OP, OP + '/', 'barfoo'))
    run.note(alg=alg, issuer=owner, recv=recv, request=args, with_jti=jti, lifetime=life)
    seen = set()
    for _ in range(2):
        t0 = gen.now()
        tok = run.must('make_openid_request', make_openid_request, arq, kj, owner, alg, recv, with_jti=jti, lifetime=life)
        t1 = int(time.time())
        h, p = parts(run, tok)
        run.expect(h.get('alg') == alg, 'signed with %r, asked for %s', h.get('alg'), alg)
        good_signature(run, tok, alg, 'rp')
        run.expect(p.get('iss') == owner, 'issuer %r, expected %r', p.get('iss'), owner)
        run.expect(p.get('aud') == [recv] or p.get('aud') == recv, 'audience %r, expected %r', p.get('aud'), recv)
        run.expect(t0 <= p.get('iat', 0) <= t1, 'issued at %r, now is %d', p.get('iat'), t0)
        if life:
            run.expect(p.get('exp') == p['iat'] + life, 'expires %r, issued %r for %d s', p.get('exp'), p['iat'], life)
        else:
            run.expect('exp' not in p, 'expires %r without a lifetime', p.get('exp'))
        run.expect(('jti' in p) is jti, 'jti is %r, asked for: %r', p.get('jti'), jti)
        if jti:
            run.expect(p['jti'] and p['jti'] not in seen, 'jti %r used twice', p['jti'])
            seen.add(p['jti'])
        rest = {k: v for k, v in p.items() if k not in ('iss', 'aud', 'iat', 'exp', 'jti')}
        run.expect(rest == said, 'the request object says %r, the request %r', rest, said)
        run.expect(plain(dict(arq)) == before, 'making the request object changed the request')
        run.obs('request', (alg, jti, bool(life), tuple(sorted(rest))))
        # the provider gets the same request out of it
        op = KeyJar()
        op.import_jwks(jose.jwks('rp'), owner)
        outer = {k: v for k, v in args.items() if k in ('client_id', 'response_type', 'scope', 'redirect_uri', 'nonce')}
        a = oidc.AuthorizationRequest(**dict(outer, request=tok))
        ok = run.must('verifying the request', a.verify, keyjar=op)
        run.expect(ok is not False, 'the request object is not accepted')
        for k, v in before.items():
            run.expect(plain(a.get(k)) == v, 'the provider sees %s = %r, asked for %r', k, a.get(k), v)
        run.obs('op_accepts', alg)
    if rng.random() < .3:
        bare = KeyJar()
        bare.import_jwks({'keys': copy.deepcopy(ev)}, 'other')
        run.raises('making a request object without own keys', make_openid_request, arq, bare, owner, alg, recv)
        run.obs('no_key')


def encrypted(run, rng):
    """to_jwe: only the holder of the key reads it, and reads exactly the message."""
    name = rng.choice(samples.NAMES)
    cls = gen.cls_of(name)
    d, _ = samples.valid(rng, name)
    m = cls(set_defaults=False, **d)
    alg, enc = rng.choice(jose.ENC_ALGS[:2]), rng.choice(jose.ENC_ENCS)
    want = json.loads(json.dumps(m.to_dict()))
    run.note(cls=name, alg=alg, enc=enc, content=d)
    tok = run.must('encrypting', m.to_jwe, [jose.enc_key('rp')], enc, alg)
    run.expect(isinstance(tok, str) and tok.count('.') == 4, 'not a compact JWE')
    h = json.loads(jose.unb64(tok.split('.')[0]))
    run.expect(h.get('alg') == alg and h.get('enc') == enc, 'encrypted with %r, asked for %s, %s', h, alg, enc)
    text = b''.join(jose.unb64(x) for x in tok.split('.'))
    for v in d.values():
        if isinstance(v, str) and len(v) > 12:
            run.expect(v.encode() not in text, 'content in clear: %r', v)
    b = run.must('decrypting', cls(set_defaults=False).from_jwe, tok, [jose.enc_key('rp')])
    run.expect(json.loads(json.dumps(b.to_dict())) == want, 'decrypted as %r, was %r', b.to_dict(), want)
    run.refuses('decryption with another key', cls().from_jwe, tok, [jose.enc_key('evil')])
    run.obs('encrypted', (alg, enc))


TIMES = (120, 2500)
TOGETHER = ('issue', 'signed', 'request_object')


def scenarios(run):
    run.rules.append('issued ID Tokens, signed and encrypted messages and request objects taken apart independently and handed to the receiving side; distinct = '
                     '(algorithm, what is in it), (class, algorithm)')
    run.assumptions.append("an ID Token signed with 'none' carries no hashes worth judging; access tokens and codes are texts")
    run.require(issued=300, accepted=250, other_token=20, signed=200, read_back=100, request=200, op_accepts=200, no_key=10, encrypted=60)
    return {'issue': (issue, 350, 9000), 'signed': (signed, 300, 9000), 'request_object': (request_object, 200, 4000), 'encrypted': (encrypted, 80, 2500)}
