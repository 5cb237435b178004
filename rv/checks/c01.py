"""C01 signature authenticity: hostile tokens against every entry point that consumes a signed JWT."""
import json
import os
import time

from rv import gen, jose, store
from oidcmsg import oidc, oauth2
from oidcmsg.message import Message
from oidcmsg.oidc import session

CLASSES = [Message, oidc.IdToken, oidc.JsonWebToken, oidc.OpenIDSchema, oidc.OpenIDRequest, oidc.AuthnToken,
           oauth2.AuthorizationRequest, session.LogoutToken]


def claims(rng, iss=jose.ISS1):
    now = int(time.time())
    d = {'iss': iss, 'sub': gen.text(rng), 'aud': [jose.RP], 'exp': now + rng.randint(60, 3600),
         'iat': now - rng.randint(0, 100)}
    if rng.random() < .5:
        d['nonce'] = gen.text(rng)
    if rng.random() < .3:
        d[gen.extra_key(rng)] = gen.text(rng)
    if rng.random() < .3:
        d['acr'] = gen.word(rng)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def hostile(rng, base=None):
    """(class of attack, token) - never validly signed by a key that the key jar binds to the claimed issuer."""
    while True:
        c = dict(base) if base else claims(rng)
        kind = rng.choice(('tamper', 'tamper', 'tamper', 'evil', 'evil-kid', 'evil-nokid', 'evil-jwk', 'evil-jku', 'cross-iss',
                           'cross-iss-kid', 'hs-confusion', 'none-case', 'unknown-iss', 'no-iss', 'empty-sig', 'null-alg',
                           'odd-alg', 'swap-parts', 'crit', 'odd-header', 'odd-header'))
        alg = rng.choice(jose.ALGS)
        if kind.startswith('cross') and rng.random() < .5:      # the signer is mentioned, but not as issuer
            for k in rng.sample(('sub', 'azp', 'client_id', 'jku', 'x_iss', 'aud', 'issuer', 'owner', 'opponent_id', 'kid'), 3):
                c[k] = [jose.ISS2] if k == 'aud' else jose.ISS2
        if kind == 'tamper':
            t = jose.tamper(rng, jose.sign(c, alg))
            if not t:
                continue
            return 'tamper-%s' % t[0], t[1]
        if kind == 'evil':
            return kind, jose.sign(c, alg, 'evil')
        if kind == 'evil-kid':
            return kind, jose.sign(c, alg, 'evil', kid=jose.kid_for('iss1', alg))
        if kind == 'evil-nokid':
            tok = _forge(c, alg, {'alg': alg})
            return kind, tok
        if kind == 'evil-jwk':
            pub = [k for k in jose.jwks('evil')['keys'] if k['kid'] == jose.kid_for('evil', alg)][0]
            hdr = {'alg': alg, 'jwk': pub}
            if rng.random() < .5:
                hdr['kid'] = jose.kid_for(rng.choice(('iss1', 'evil')), alg)
            return kind, _forge(c, alg, hdr)
        if kind == 'evil-jku':
            return kind, _forge(c, alg, {'alg': alg, 'kid': jose.kid_for('evil', alg), 'jku': 'http://127.0.0.1:9/jwks'})
        if kind == 'cross-iss':
            return kind, jose.sign(c, alg, 'iss2')
        if kind == 'cross-iss-kid':
            return kind, jose.sign(c, alg, 'iss2', kid=jose.kid_for('iss1', alg))
        if kind == 'hs-confusion':
            a = rng.choice(jose.SYM)
            hdr = {'alg': a}
            r = rng.random()
            if r < .7:
                hdr['kid'] = rng.choice(('iss1-rsa', 'iss1-oct', 'iss1-P-256'))
            return kind, jose.hs_raw(hdr, c, rng.choice(jose.public_bytes('iss1')))
        if kind == 'none-case':
            return kind, jose.unsigned(c, rng.choice(('None', 'NONE', 'nOne', ' none', 'none ', 'NonE')),
                                       rng.choice((b'', b'x')))
        if kind == 'unknown-iss':
            c['iss'] = rng.choice(('https://unknown.example.org', jose.ISS1 + '/', jose.ISS1.upper(),
                                   jose.ISS1 + '\u0000', ' ' + jose.ISS1))
            return kind, jose.sign(c, alg, rng.choice(('evil', 'iss1')))
        if kind == 'no-iss':
            c.pop('iss')
            return kind, jose.sign(c, alg, rng.choice(('evil', 'iss2')))
        if kind == 'empty-sig':
            h, p, s = jose.sign(c, alg).split('.')
            return kind, h + '.' + p + '.'
        if kind == 'null-alg':
            return kind, jose.raw(rng.choice(({}, {'alg': ''}, {'alg': []}, {'typ': 'JWT'})), c, b'')
        if kind == 'odd-alg':
            return kind, jose.raw({'alg': rng.choice(('HS1', 'RS1', 'MD5', 'dir', 'RSA-OAEP', 'HS256 ', 'rs256', 'A128KW'))},
                                  c, rng.choice((b'', b'abc')))
        if kind == 'swap-parts':
            a = jose.sign(c, alg).split('.')
            c2 = dict(c, sub='someone else')
            b = jose.sign(c2, alg).split('.')
            return kind, '.'.join((a[0], b[1], a[2]))
        if kind == 'odd-header':
            hdr = dict({'alg': alg, 'kid': jose.kid_for('iss1', alg)}, **rng.choice(jose.ODD))
            if rng.random() < .5:
                hdr.update(rng.choice(jose.ODD), crit=['b64'])
            if rng.random() < .3:
                hdr[rng.choice(('x', 'b64', 'zip', 'crit', 'enc', 'cty', 'verified', gen.extra_key(rng)))] = rng.choice((True, False, 'DEF', 'JWT', ['alg'], 1))
            if hdr.get('crit') == []:
                del hdr['crit']
            if rng.random() < .5:
                return kind, _forge(c, alg, hdr)
            return kind, jose.raw(hdr, c, rng.choice((b'', b'\0' * 64, bytes(256))))
        if kind == 'crit':
            return kind, jose.raw({'alg': alg, 'crit': ['alg'], 'kid': jose.kid_for('iss1', alg)}, c, b'\0' * 64)


def _forge(c, alg, hdr):
    return jose.forge(hdr, c, alg, 'evil')


def no_keys(rng):
    """Somebody who holds no keys of the issuer, or none at all."""
    return rng.choice((lambda: None, jose.KeyJar, lambda: jose.jar('rp'), lambda: jose.rp_jar('https://a.example', 'https://b.example')))()


def direct(run, rng):
    cls = rng.choice(CLASSES)
    kj = jose.rp_jar() if rng.random() < .9 else no_keys(rng)
    kind, tok = hostile(rng)
    m = cls()
    before = m.to_dict()
    args = {}
    if rng.random() < .2:
        args['allow_missing_kid'] = True
    if rng.random() < .2:
        args['no_kid_issuer'] = {jose.ISS1: []}
    run.note(attack=kind, cls=cls.__name__, token=tok, args=args)
    run.raises('hostile token (%s)' % kind, m.from_jwt, tok, kj, **args)
    run.expect(m.to_dict() == before, 'claims of a refused token (%s) were loaded: %r', kind, m.to_dict())
    run.obs('hostile_refused', (kind, cls.__name__))


def honest(run, rng):
    cls = rng.choice(CLASSES)
    alg = rng.choice(jose.ALGS)
    c = claims(rng)
    tok = jose.sign(c, alg)
    kj = jose.rp_jar()
    run.note(cls=cls.__name__, alg=alg, claims=c)
    m = run.must('validly signed token', cls().from_jwt, tok, kj)
    run.expect(m.to_dict() == c, 'claims differ: %r != %r', m.to_dict(), c)
    run.expect(m.jws_header and m.jws_header.get('alg') == alg, 'protected header not reported: %r', m.jws_header)
    run.obs('honest_accepted', (alg, cls.__name__))
    # the same token with the issuer's keys gone, or replaced, must be refused
    how = rng.choice(('nokeys', 'otherkeys', 'onlyown', 'nojar'))
    if how == 'nokeys':
        kj2 = jose.KeyJar()
    elif how == 'nojar':
        kj2 = None
    elif how == 'onlyown':
        kj2 = jose.rp_jar('https://a', 'https://b')
    else:
        kj2 = jose.rp_jar(jose.ISS2, jose.ISS1)
    run.raises('token verified with %s' % how, cls().from_jwt, tok, kj2)
    run.obs('wrong_keys_refused', (how, alg))


def limited(run, rng):
    """The issuer has no key of the kind in question, but somebody else the receiver knows does."""
    alg = rng.choice(jose.ALGS)
    drop = tuple(k for k in ('iss1-rsa', 'iss1-P-256', 'iss1-P-384', 'iss1-P-521', 'iss1-oct') if k == jose.kid_for('iss1', alg) or rng.random() < .3)
    kj = jose.rp_jar(drop=drop)
    cls = rng.choice(CLASSES)
    c = claims(rng)
    for k in rng.sample(('sub', 'azp', 'client_id', 'aud', 'issuer', 'owner', 'kid'), rng.randint(0, 3)):
        c[k] = [jose.ISS2] if k == 'aud' else jose.ISS2
    who = rng.choice(('iss2', 'iss2', 'iss1', 'evil', 'rp') if alg not in jose.SYM else ('iss2', 'iss1', 'evil'))
    hdr = {'alg': alg}
    if rng.random() < .7:
        hdr['kid'] = jose.kid_for(rng.choice((who, 'iss1')), alg)
    args = {}
    if rng.random() < .3:
        args['allow_missing_kid'] = True
    if rng.random() < .2:
        args[rng.choice(('opponent_id', 'sender', 'owner'))] = jose.ISS2
    tok = jose.forge(hdr, c, alg, who)
    run.note(alg=alg, who=who, dropped=drop, token=tok, args=args)
    m = cls()
    run.raises('token signed by %s in the name of an issuer without %s key' % (who, alg), m.from_jwt, tok, kj, **args)
    run.expect(m == cls(), 'claims of a refused token were loaded')
    run.obs('limited_refused', (alg, who, cls.__name__))


def rotation(run, rng):
    """Keys come and go in one and the same key jar; what counts is what it holds when a token arrives."""
    kj = jose.KeyJar()
    held = set()
    alg = rng.choice(jose.ALGS)
    cls = rng.choice(CLASSES)
    c = claims(rng)
    toks = {w: jose.sign(c, alg, w, kid=jose.kid_for(w, alg)) for w in ('iss1', 'iss2', 'evil')}
    ops = []
    for _ in range(rng.choice((4, 8, 14))):
        op = rng.choice(('add', 'drop', 'use', 'use', 'use', 'bad', 'otheradd'))
        who = rng.choice(sorted(toks))
        ops.append((op, who))
        if op == 'add' and who not in held:
            kj.import_jwks(jose.jwks(who), jose.ISS1)
            held.add(who)
        elif op == 'otheradd':
            kj.import_jwks(jose.jwks(who), rng.choice((jose.ISS2, 'https://x.example', jose.RP)))
        elif op == 'drop' and held:
            rest = sorted(held)
            rest.remove(rng.choice(rest))
            held = set(rest)
            del kj[jose.ISS1]
            for w in rest:
                kj.import_jwks(jose.jwks(w), jose.ISS1)
        elif op == 'use':
            m = cls()
            if who in held:
                run.must('token signed with a key held', m.from_jwt, toks[who], kj)
                run.expect(m.to_dict() == dict(c), 'claims differ')
                run.obs('rotation_accepted', (alg, len(held)))
            else:
                run.raises('token signed with a key not held (any more)', m.from_jwt, toks[who], kj)
                run.obs('rotation_refused', (alg, len(held)))
        elif op == 'bad':
            # same header and claims as a token that was fine, another signature
            h, p, sig = toks[who].split('.')
            b = bytearray(jose.unb64(sig))
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            run.raises('token with a signature bit flipped', cls().from_jwt, '.'.join((h, p, jose.b64(bytes(b)))), kj)
        run.note(ops=ops, alg=alg)


def refetch(run, rng):
    """The issuer's keys come from a file that changes; a token that no key ever seen signed is refused, whatever a reload brings."""
    from cryptojwt.key_bundle import KeyBundle
    d = store.scratch()
    try:
        path = os.path.join(d, 'jwks.json')

        def publish(keys, n):
            with open(path, 'w') as fp:
                json.dump({'keys': keys}, fp)
            os.utime(path, (n, n))
        every = jose.jwks('iss1')['keys']
        if rng.random() < .5:       # keys for one algorithm only
            for k in every:
                k['alg'] = {'P-256': 'ES256', 'P-384': 'ES384', 'P-521': 'ES512'}.get(k.get('crv'), 'HS256' if k['kty'] == 'oct' else 'RS256')
        first = rng.sample(every, rng.randint(1, len(every)))
        publish(first, 1000)
        kj = jose.KeyJar()
        kj.add_kb(jose.ISS1, KeyBundle(source='file://' + path, fileformat='jwks'))
        then = rng.choice(([], [], rng.sample(every, rng.randint(1, len(every))), first, jose.jwks('iss2')['keys'], 'gone', 'broken'))
        cls = rng.choice(CLASSES)
        c = claims(rng)
        alg = rng.choice(jose.ALGS)
        run.note(first=[k['kid'] for k in first], alg=alg, then=then if isinstance(then, str) else [k['kid'] for k in then])
        honest = jose.sign(c, alg, 'iss1', kid=jose.kid_for('iss1', alg))
        known = jose.kid_for('iss1', alg) in [k['kid'] for k in first if k.get('alg', alg) == alg]
        if known:
            m = run.must('token signed with a key from the file', cls().from_jwt, honest, kj)
            run.expect(m.to_dict() == c, 'claims differ')
        if then == 'gone':
            os.remove(path)
        elif then == 'broken':
            with open(path, 'w') as fp:
                fp.write('{"keys": [')
        else:
            publish(then, time.time() + 100)
        for _ in range(3):
            a = rng.choice(jose.ALGS + ['ES256', 'ES384', 'ES512'])
            who = 'evil'
            hdr = {'alg': a}
            if rng.random() < .4:
                hdr['kid'] = jose.kid_for(rng.choice(('iss1', 'evil')), a)
            args = {'allow_missing_kid': True} if rng.random() < .6 else {}
            tok = jose.forge(hdr, c, a, who)
            if rng.random() < .3:
                tok = tok.rsplit('.', 1)[0] + '.' + rng.choice(('', 'AAAA'))
            run.note(token=tok, args=args)
            m = cls()
            run.raises('token that no key of the issuer signed', m.from_jwt, tok, kj, **args)
            run.expect(m == cls(), 'claims of a refused token were loaded')
        if isinstance(then, list) and known and jose.kid_for('iss1', alg) in [k['kid'] for k in then]:
            m = run.must('token signed with a key still in the file', cls().from_jwt, honest, kj)
            run.expect(m.to_dict() == c, 'claims differ')
        run.obs('refetch', (alg, known, then if isinstance(then, str) else len(then)))
    finally:
        store.drop(d)


ENTRIES = ('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'RefreshSessionResponse',
           'CheckSessionRequest', 'EndSessionRequest', 'BackChannelLogoutRequest', 'AuthorizationRequest', 'hint', 'JAR',
           'PAR', 'objhint', 'hintobj')
PLAIN = {'client_id': jose.RP, 'response_type': ['code'], 'scope': ['openid'],
         'redirect_uri': 'https://rp.example.com/cb'}


def base_claims(rng, which):
    now = int(time.time())
    if which in ('AuthorizationRequest', 'JAR', 'PAR'):
        return {'iss': jose.ISS1, 'client_id': jose.RP, 'response_type': 'code', 'scope': 'openid',
                'redirect_uri': 'https://rp.example.com/cb', 'state': gen.word(rng)}
    if which == 'BackChannelLogoutRequest':
        return {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'iat': now - 5, 'jti': gen.word(rng),
                'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}
    return {'iss': jose.ISS1, 'sub': gen.text(rng), 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5}


def carrier(which, tok):
    if which == 'AccessTokenResponse':
        return oidc.AccessTokenResponse(access_token='a', token_type='Bearer', id_token=tok), 'id_token'
    if which == 'AuthorizationResponse':
        return oidc.AuthorizationResponse(state='a', id_token=tok), 'id_token'
    if which == 'RefreshSessionRequest':
        return session.RefreshSessionRequest(id_token=tok, redirect_url='https://a', state='x'), 'id_token'
    if which == 'RefreshSessionResponse':
        return session.RefreshSessionResponse(id_token=tok, state='x'), 'id_token'
    if which == 'CheckSessionRequest':
        return session.CheckSessionRequest(id_token=tok), 'id_token'
    if which == 'EndSessionRequest':
        return session.EndSessionRequest(id_token_hint=tok), 'id_token_hint'
    if which == 'BackChannelLogoutRequest':
        return session.BackChannelLogoutRequest(logout_token=tok), 'logout_token'
    if which == 'AuthorizationRequest':
        return oidc.AuthorizationRequest(request=tok, **PLAIN), 'request'
    if which == 'hint':
        return oidc.AuthorizationRequest(id_token_hint=tok, **PLAIN), 'id_token_hint'
    if which in ('objhint', 'hintobj'):
        obj = dict(PLAIN, iss=jose.ISS1, response_type='code', scope='openid', id_token_hint=tok)
        kw = dict(PLAIN, request=jose.sign(obj, 'RS256'))
        if which == 'hintobj':
            kw['id_token_hint'] = tok
        return oidc.AuthorizationRequest(**kw), 'id_token_hint'
    if which == 'JAR':
        return oauth2.JWTSecuredAuthorizationRequest(request=tok, **PLAIN), 'request'
    return oauth2.PushedAuthorizationRequest(request=tok, **PLAIN), 'request'


def company(rng, m, slot, honest=False):
    """What else a message of the kind can carry, none of which says anything about the token."""
    for k, v in (('error', 'access_denied'), ('error_description', 'no'), ('refresh_token', gen.word(rng)), ('expires_in', 3600), ('scope', ['openid', 'email']),
                 ('state', gen.word(rng)), ('token_type', 'Bearer'), ('post_logout_redirect_uri', 'https://rp.example.com/out'), ('session_state', gen.word(rng)),
                 ('ui_locales', ['sv']), ('max_age', 100), ('login_hint', 'x'), ('acr_values', ['1']), ('display', 'page'), ('prompt', ['login'])):
        if k not in m and rng.random() < .12 and (k in m.c_param or k == 'error'):
            if k == 'error' and not isinstance(m, (oidc.AuthorizationResponse, oidc.AccessTokenResponse)):
                continue
            m[k] = v


def entry(run, rng):
    """The token arrives inside a protocol message."""
    which = rng.choice(ENTRIES)
    base = base_claims(rng, which)
    kw = {'keyjar': jose.rp_jar()}
    honest = rng.random() < .2
    kind, tok = ('honest', jose.sign(base, rng.choice(jose.ALGS))) if honest else hostile(rng, base)
    m, slot = carrier(which, tok)
    company(rng, m, slot)
    if not honest and rng.random() < .1:
        kw['keyjar'] = no_keys(rng)
        if rng.random() < .3:
            del kw['keyjar']
    if slot == 'id_token' and rng.random() < .5:
        kw.update(iss=jose.ISS1, client_id=jose.RP)
    run.note(attack=kind, entry=which, token=tok, message=sorted(m))
    if honest:
        run.expect(run.must('%s with an honest token' % which, m.verify, **kw) is True, '%s: honest token not accepted', which)
        run.obs('entry_accepted', which)
        return
    run.refuses('%s carrying a hostile token (%s)' % (which, kind), m.verify, **kw)
    run.expect('__verified_' + slot not in m, 'refused token (%s) left a verified slot in %s', kind, which)
    run.expect('verified_id_token_hint' not in m, 'refused token (%s) left a verified slot in %s', kind, which)
    run.obs('entry_refused', (which, kind))


def issuance(run, rng):
    """to_jwt: what we sign can be verified with the matching public key only, and says what the message says."""
    alg = rng.choice(jose.ALGS)
    cls = rng.choice([Message, oidc.OpenIDSchema, oidc.JsonWebToken, oidc.OpenIDRequest])
    c = claims(rng)
    m = cls(**c)
    run.note(alg=alg, claims=c, cls=cls.__name__)
    tok = run.must('to_jwt', m.to_jwt, [jose.key('iss1', alg)], alg)
    hdr = json.loads(jose.unb64(tok.split('.')[0]))
    run.expect(hdr['alg'] == alg, 'issued with alg %r instead of %r', hdr['alg'], alg)
    body = json.loads(jose.unb64(tok.split('.')[1]))
    run.expect(body == m.to_dict(), 'issued claims differ from the message')
    from cryptojwt.jws.jws import JWS
    JWS(alg=alg).verify_compact(tok, [jose.key('iss1', alg)])
    m2 = run.must('from_jwt of an issued token', cls().from_jwt, tok, jose.rp_jar())
    run.expect(m2 == m, 'issued token parses to a different message')
    run.obs('issued', (alg, cls.__name__))


TOGETHER = ('direct', 'honest', 'entry', 'issuance')


def scenarios(run):
    run.rules.append('hostile JWS per attack class and consuming class/message; non-trivial = distinct (attack, consumer)')
    run.assumptions.append('cryptojwt and the cryptography package implement the primitives correctly')
    run.require(hostile_refused=100, honest_accepted=50, entry_refused=100, entry_accepted=50, issued=20, limited_refused=500, rotation_accepted=100, rotation_refused=100, refetch=200)
    return {'direct': (direct, 2500, 60000), 'honest': (honest, 800, 20000), 'entry': (entry, 4000, 90000),
            'issuance': (issuance, 300, 10000), 'limited': (limited, 1000, 20000), 'rotation': (rotation, 300, 8000),
            'refetch': (refetch, 400, 8000)}
