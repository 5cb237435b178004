"""C10 logout: logout tokens, back-channel requests and RP initiated end-session requests."""
import json
import time

from rv import gen, jose
from rv.checks import c01
from oidcmsg.oidc import session

EV = 'http://schemas.openid.net/event/backchannel-logout'


KNOWN = {'iss', 'sub', 'aud', 'iat', 'jti', 'events', 'sid', 'nonce'}


def case(rng):
    now = int(time.time())
    me = rng.choice((jose.RP, 'https://rp.example.com', 'abc'))
    c = {'iss': jose.ISS1, 'sub': gen.token(rng)[:100], 'aud': [me], 'iat': now - rng.randint(5, 1000), 'jti': gen.word(rng),
         'events': {EV: {}}}
    kw = {}
    if rng.random() < .6:
        kw['aud'] = me
    if rng.random() < .6:
        kw['iss'] = jose.ISS1
    if rng.random() < .4:
        kw['skew'] = rng.choice((0, 1, 10, 300))
    r = rng.random()
    if r < .3:
        c['sid'] = gen.word(rng)
    elif r < .5:
        c['sid'] = gen.word(rng)
        del c['sub']
    if rng.random() < .3:
        c['aud'] = c['aud'] + [gen.token(rng)[:80] for _ in range(rng.randint(1, 2))]
        rng.shuffle(c['aud'])
    elif rng.random() < .3:
        c['aud'] = me
    if rng.random() < .2:
        c[gen.extra_key(rng)] = gen.text(rng)
    c = dict(gen.extras(rng, KNOWN, (me, jose.ISS1, now + 1000, now - 1000, 4102444800)), **c)
    for k, v in (('exp', now + 500), ('exp', now - 500), ('nbf', now - 10), ('azp', me), ('client_id', me), ('sids', ['x']), ('sub_id', 'x'), ('toe', now)):
        if rng.random() < .05:
            c[k] = v
    bad = []
    skew = kw.get('skew', 0)
    for _ in range(rng.choice((0, 0, 1, 1, 1, 2))):
        d = rng.choice(('nonce', 'event-name', 'event-two', 'event-none', 'event-value', 'nosubsid', 'aud', 'audlist', 'iss', 'future',
                        'past', 'miss'))
        if d == 'nonce':
            c['nonce'] = rng.choice((gen.text(rng), gen.text(rng), gen.text(rng), 0, False, {}, {'a': 1}, ['x'], 'null', None))
            bad.append(d)
        elif d == 'event-name':
            c['events'] = {rng.choice((EV + '/', EV.upper(), EV.replace('http', 'https'), 'backchannel-logout', gen.near(rng, EV))): {}}
            bad.append(d)
        elif d == 'event-two':
            e = [(EV, {}), (gen.near(rng, EV), {})]
            rng.shuffle(e)
            c['events'] = dict(e)
            bad.append(d)
        elif d == 'event-none':
            c['events'] = {}
            bad.append(d)
        elif d == 'event-value':
            c['events'] = {EV: rng.choice(({'a': 1}, [], '', None, 'x', 0, 1, True, [{}], {'': {}}))}
            bad.append(d)
        elif d == 'nosubsid':
            c.pop('sub', None)
            c.pop('sid', None)
            bad.append(d)
        elif d == 'aud':
            kw['aud'] = rng.choice((gen.near(rng, me), c.get('azp') or 'x', c.get('sub') or 'x', jose.ISS1))
            while kw['aud'] in (c['aud'] if isinstance(c['aud'], list) else [c['aud']]):
                kw['aud'] += 'x'
            bad.append(d)
        elif d == 'audlist':
            kw['aud'] = me
            c['aud'] = [x for x in (gen.near(rng, me) or 'x', 'other', jose.ISS1)[:rng.randint(1, 3)] if x != me]
            for k in rng.sample(('azp', 'client_id', 'sub', 'sid', 'aud_', 'audience'), rng.randint(0, 3)):
                c[k] = me
            bad.append(d)
        elif d == 'iss':
            kw['iss'] = gen.near(rng, jose.ISS1)
            bad.append(d)
        elif d == 'future':
            c['iat'] = now + skew + rng.choice((30, 1000, 10 ** 8))
            bad.append(d)
        elif d == 'past':
            if 'future' not in bad:
                c['iat'] = rng.choice((1, now - 10 ** 6, now + max(0, skew - 5)))
        elif d == 'miss':
            bad.append(d)
    if 'aud' in bad and 'audlist' in bad:
        kw['aud'] = 'quite another'
    if 'nosubsid' in bad and ('sub' in c or 'sid' in c):
        c.pop('sub', None)
        c.pop('sid', None)
    if 'miss' in bad:
        c.pop(rng.choice(('iss', 'aud', 'iat', 'jti', 'events')))
    return c, kw, sorted(set(bad))


def token(run, rng):
    c, kw, bad = case(rng)
    via = rng.choice(('kw', 'json', 'jwt'))
    run.note(claims=c, expectations=kw, deviations=bad, via=via)
    if via == 'jwt' and 'iss' in c:
        fn = lambda: session.LogoutToken().from_jwt(jose.sign(c, rng.choice(('RS256', 'ES256', 'HS256'))), jose.rp_jar()).verify(**dict(run.noise(), **kw))
    elif via == 'json':
        fn = lambda: session.LogoutToken().from_json(json.dumps(c)).verify(**dict(run.noise(), **kw))
    else:
        fn = lambda: session.LogoutToken(**c).verify(**dict(run.noise(), **kw))
    if bad:
        run.refuses('logout token (%s)' % bad, fn)
        run.obs('token_refused', (tuple(bad), via))
    else:
        run.expect(run.must('valid logout token', fn) is True, 'not accepted')
        run.obs('token_accepted', (via, tuple(sorted(kw)), tuple(sorted(c))))


def backchannel(run, rng):
    c, kw, bad = case(rng)
    alg = rng.choice(jose.ALGS)
    if 'iss' not in c:
        kind, tok = 'unsignable', jose.sign(c, alg, rng.choice(('evil', 'iss1')))
        if not bad:
            return
    else:
        r = rng.random()
        kind, tok = ('signed', jose.sign(c, alg)) if r < .75 else ('unsigned', jose.unsigned(c)) if r < .85 else c01.hostile(rng, c)
    policy = {}
    if kind == 'unsigned' and rng.random() < .7:    # whatever is allowed for ID Tokens
        policy = rng.choice(({'allow_sign_alg_none': True}, {'sigalg': 'none'}, {'allow_sign_alg_none': True, 'allowed_sign_alg': 'none'}))
    elif kind == 'signed' and rng.random() < .3:
        a = rng.choice((alg, alg, rng.choice(jose.ALGS)))
        policy = {'allowed_sign_alg': a}
        if a != alg:
            bad = bad + ['algorithm']
    kw.update(policy)
    run.note(claims=c, expectations=kw, deviations=bad, token=tok, attack=kind)
    m = session.BackChannelLogoutRequest(logout_token=tok)
    if rng.random() < .5:
        m = session.BackChannelLogoutRequest().from_urlencoded(m.to_urlencoded())
    if bad or kind != 'signed':
        run.refuses('back-channel logout (%s, %s)' % (bad, kind), m.verify, keyjar=jose.rp_jar(), **kw)
        run.expect('__verified_logout_token' not in m, 'refused logout token presented as verified')
        run.obs('bc_refused', (tuple(bad), kind))
    else:
        run.expect(run.must('back-channel logout', m.verify, keyjar=jose.rp_jar(), **kw) is True, 'not accepted')
        v = m['__verified_logout_token']
        for k, x in c.items():
            run.expect(v.get(k) == (x if k != 'aud' or isinstance(x, list) else [x]), 'verified logout token: %s is %r, not %r', k, v.get(k), x)
        run.obs('bc_accepted', (alg, tuple(sorted(kw))))


def boundary(run, rng):
    """iat one second on either side of now + skew."""
    for _ in range(20):
        now = gen.now()
        skew = rng.choice((None, 0, 1, 7, 60))
        d = rng.choice((0, 1, 2))
        c = {'iss': 'i', 'sub': 's', 'aud': ['a'], 'iat': now + (skew or 0) + d, 'jti': 'j', 'events': {EV: {}}}
        t = session.LogoutToken(**c)
        try:
            ok = t.verify(**({} if skew is None else {'skew': skew}))
        except Exception:
            ok = False
        if int(time.time()) != now:
            continue
        if d == 0:
            run.obs('boundary_equal')
            return
        run.note(skew=skew, d=d)
        run.expect(not ok, 'logout token issued %d s beyond the allowed skew accepted', d)
        t = session.LogoutToken(**dict(c, iat=now + (skew or 0) - d))
        run.expect(t.verify(**({} if skew is None else {'skew': skew})) is True, 'issue time inside the skew refused')
        run.obs('boundary', (skew, d))
        return


def end_session(run, rng):
    now = int(time.time())
    c = {'iss': jose.ISS1, 'sub': gen.text(rng), 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5}
    p, kw = {}, {'keyjar': jose.rp_jar()}
    if rng.random() < .5:
        p['post_logout_redirect_uri'] = 'https://rp.example.com/' + gen.word(rng)
    if rng.random() < .4:
        p['state'] = gen.text(rng)
    p = dict(gen.extras(rng, {'id_token_hint', 'post_logout_redirect_uri', 'state', 'error', 'error_description'}, (jose.RP, jose.ISS1)), **p)
    for k, v in (('client_id', jose.RP), ('logout_hint', 'x'), ('ui_locales', 'en'), ('iss', jose.ISS1), ('sid', 's'), ('id_token', 'x')):
        if rng.random() < .1:
            p[k] = v
    kind = rng.choice(('absent', 'absent', 'signed', 'signed', 'signed', 'hostile', 'hostile', 'wrongclient', 'wrongiss', 'unsigned', 'expired'))
    if kind == 'signed':
        p['id_token_hint'] = jose.sign(c, rng.choice(jose.ALGS))
        if rng.random() < .5:
            kw.update(client_id=jose.RP, iss=jose.ISS1)
    elif kind == 'hostile':
        p['id_token_hint'] = c01.hostile(rng, c)[1]
    elif kind == 'unsigned':
        p['id_token_hint'] = jose.unsigned(c)
    elif kind == 'wrongclient':
        p['id_token_hint'] = jose.sign(c, 'ES256')
        kw['client_id'] = gen.near(rng, jose.RP)
    elif kind == 'wrongiss':
        p['id_token_hint'] = jose.sign(c, 'ES256')
        kw['iss'] = gen.near(rng, jose.ISS1)
    elif kind == 'expired':
        c['exp'] = now - 100
        p['id_token_hint'] = jose.sign(c, 'ES256')
    m = session.EndSessionRequest(**p)
    if rng.random() < .4 and p:
        m = session.EndSessionRequest().from_urlencoded(m.to_urlencoded())
    run.note(params=p, kind=kind)
    if kind == 'absent':
        if 'post_logout_redirect_uri' in p:
            run.refuses('end session with redirect but no ID Token hint', m.verify, **kw)
            run.obs('redirect_refused')
        else:
            run.expect(run.must('plain end session request', m.verify, **kw) is True, 'not accepted')
            run.obs('end_plain')
    elif kind == 'signed':
        run.expect(run.must('end session request with hint', m.verify, **kw) is True, 'not accepted')
        run.expect(m['__verified_id_token_hint'].to_dict() == c, 'verified hint says something else')
        run.obs('end_accepted', tuple(sorted(p)))
    else:
        run.refuses('end session request with %s hint' % kind, m.verify, **kw)
        run.expect('__verified_id_token_hint' not in m, 'refused hint presented as verified')
        run.obs('end_refused', (kind, tuple(sorted(p))))


TOGETHER = ('token', 'backchannel', 'end_session')


def scenarios(run):
    run.rules.append('logout tokens with 0-2 deviations from a valid one, plus hostile signatures; distinct = (deviations, delivery)')
    run.assumptions.append('issue time exactly at now + skew is not judged')
    run.require(token_refused=300, token_accepted=200, bc_refused=300, bc_accepted=100, boundary=60, end_accepted=50,
                end_refused=100, redirect_refused=20)
    return {'token': (token, 2000, 80000), 'backchannel': (backchannel, 1500, 40000), 'boundary': (boundary, 200, 4000),
            'end_session': (end_session, 800, 20000)}
