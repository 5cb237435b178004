"""C03 ID Token claims: reference acceptance model against IdToken.verify and the messages that carry ID Tokens."""
import time

from rv import gen, jose
from oidcmsg import oidc
from oidcmsg.oidc import session

STORAGE = 4 * 3600
IDT_PARAMS = set(gen.SCHEMA['oidcmsg.oidc:IdToken']['params'])


def model(c, kw, now):
    """'accept', 'unspecified' or the reason for refusal."""
    for k in ('iss', 'sub', 'aud', 'exp', 'iat'):
        if k not in c or c[k] in (None, '', [], [''], [None]):
            return 'missing ' + k
    if 'iss' in kw and kw['iss'] != c['iss']:
        return 'issuer'
    aud = [c['aud']] if isinstance(c['aud'], str) else c['aud']
    if 'client_id' in kw and kw['client_id'] not in aud:
        return 'audience'
    if len(aud) > 1:
        if 'azp' not in c:
            return 'azp missing'
        if c['azp'] not in aud:
            return 'azp not in aud'
    if 'azp' in c and 'client_id' in kw and kw['client_id'] != c['azp']:
        return 'azp'
    skew = kw.get('skew', 0)
    edge = False
    if c['exp'] < now - skew:
        return 'expired'
    edge |= c['exp'] == now - skew
    limit = now - skew - kw.get('nonce_storage_time', STORAGE)
    if c['iat'] < limit:
        return 'too old'
    edge |= c['iat'] == limit
    if 'nonce' in kw and 'nonce' in c and kw['nonce'] != c['nonce']:
        return 'nonce'
    return 'unspecified' if edge else 'accept'


def case(rng):
    """Valid token and expectations, then up to three deviations."""
    now = int(time.time())
    kw = {}
    if rng.random() < .4:
        kw['skew'] = rng.choice((0, 1, 5, 60, 300, 3600))
    if rng.random() < .4:
        kw['nonce_storage_time'] = rng.choice((0, 1, 60, 600, 86400, 10 ** 7))
    skew, st = kw.get('skew', 0), kw.get('nonce_storage_time', STORAGE)
    rp = rng.choice((jose.RP, 'https://rp.example.com', 'client', 'RP' + gen.word(rng)))
    c = {'iss': jose.ISS1, 'sub': gen.token(rng)[:200], 'aud': [rp], 'exp': now + rng.randint(10, 5000), 'iat': now - rng.randint(0, max(0, min(st + skew - 5, 3000)))}
    if rng.random() < .8:
        kw['iss'] = jose.ISS1
    if rng.random() < .8:
        kw['client_id'] = rp
    if rng.random() < .5:
        c['nonce'] = gen.text(rng)
        if rng.random() < .8:
            kw['nonce'] = c['nonce']
    elif rng.random() < .2:
        kw['nonce'] = gen.text(rng)
    if rng.random() < .3:
        c['aud'] = [rp] + [gen.token(rng) if rng.random() < .7 else gen.near(rng, rp) or 'x' for _ in range(rng.choice((1, 2, 3, 40)))]
        rng.shuffle(c['aud'])
        c['azp'] = rp
    elif rng.random() < .3:
        c['azp'] = rp
    elif rng.random() < .3:
        c['aud'] = rp
    for k in ('auth_time', 'acr', 'amr', 'at_hash', 'sid', 'email', 'email_verified', 'name', 'given_name'):
        if rng.random() < .1:
            c[k] = {'auth_time': now - 100, 'amr': ['pwd'], 'email_verified': True}.get(k, gen.word(rng))
    c = dict(gen.extras(rng, set(c) | IDT_PARAMS, (rp, jose.ISS1, now + 1000, now - 100000)), **c)
    if rng.random() < .1:
        c['exp'] = rng.choice((2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 10 ** 15))
    if rng.random() < .2:       # says nothing about a signed token
        kw['allow_sign_alg_none'] = True
    devs = []
    for _ in range(rng.choice((0, 0, 1, 1, 1, 1, 2, 3))):
        d = rng.choice(('del', 'blank', 'iss', 'client', 'client', 'azp', 'azp', 'noazp', 'aud', 'exp', 'exp', 'exp', 'iat', 'iat', 'iat',
                        'nonce', 'nonce', 'kwiss', 'substr'))
        devs.append(d)
        if d == 'del':
            c.pop(rng.choice(('iss', 'sub', 'aud', 'exp', 'iat', 'azp', 'nonce')), None)
        elif d == 'blank':
            k = rng.choice(('iss', 'sub', 'aud', 'exp', 'iat'))
            c[k] = {'aud': rng.choice(([], [''], None, ''))}.get(k, None if k in ('exp', 'iat') else rng.choice(('', None)))
            if c[k] is None and k == 'aud':
                c.pop(k)
        elif d == 'iss':
            c['iss'] = gen.near(rng, jose.ISS1)
        elif d == 'kwiss':
            kw['iss'] = gen.near(rng, jose.ISS1)
        elif d == 'client':
            kw['client_id'] = gen.near(rng, rp)
        elif d == 'substr':
            kw['client_id'] = rng.choice((rp[:-1], rp[1:], rp[:2], ''))
        elif d == 'azp':
            c['azp'] = rng.choice((gen.near(rng, rp), rng.choice(c['aud']) if isinstance(c.get('aud'), list) and c['aud']
                                   else 'x'))
        elif d == 'noazp':
            c.pop('azp', None)
            c['aud'] = [rp, 'other-' + gen.word(rng)][::rng.choice((1, -1))]
        elif d == 'aud':
            c['aud'] = [gen.near(rng, rp) or 'x' for _ in range(rng.choice((1, 1, 2, 3, 20)))]
            if rng.random() < .4:
                c['azp'] = rng.choice([rp] + c['aud'])
        elif d == 'exp':
            c['exp'] = now - skew + rng.choice((-1, 1, -2, 2, -1, 1, -skew, skew, -skew - 1, skew - 1, -100, 100, -10 ** 6))
        elif d == 'iat':
            lim = now - skew - st
            c['iat'] = rng.choice((lim - 1, lim + 1, lim - 2, lim + 2, lim - 1, lim + 1, lim + 2 * skew - 1, lim + 2 * skew + 1, now - st - 1, now - st + 1,
                                   now, now + 5, now - 10 ** 8))
        elif d == 'nonce':
            n = c.get('nonce') or gen.text(rng)
            r = rng.random()
            if r < .5:
                c['nonce'], kw['nonce'] = n, gen.near(rng, n)
            elif r < .75:
                c.pop('nonce', None)
            else:
                kw.pop('nonce', None)
    if c.get('iat', 1) is not None and c.get('iat', 1) <= 0 or c.get('exp') == 0:
        c['iat'] = 1
    c = {k: v for k, v in c.items() if v != ''or k in ()}
    return c, kw, devs


def norm(c):
    """What the token says after JSON parsing by a message: a string audience is a list, blanks are absent."""
    c = {k: v for k, v in c.items() if v not in ('', [''], [], [None])}
    if isinstance(c.get('aud'), str):
        c['aud'] = [c['aud']]
    return c


def judge(run, what, verify, m, c, kw, devs, extra_ok=()):
    t0 = gen.now()
    try:
        res, exc = verify(), None
    except Exception as e:
        res, exc = None, e
    t1 = int(time.time())
    exp = {model(c, kw, t) for t in {t0, t1}}
    if len(exp) > 1 or 'unspecified' in exp:
        run.obs('edge_skipped')
        return None
    exp = exp.pop()
    run.counts['assertions'] += 1
    if exp == 'accept':
        if exc is not None:
            raise_(what, 'refused a valid ID Token: %s(%s)' % (type(exc).__name__, exc))
        if res is not True:
            raise_(what, 'returned %r for a valid ID Token' % (res,))
        run.obs('accepted', (what, tuple(sorted(kw)), tuple(sorted(c))))
        return True
    if exc is None and res is not False:
        raise_(what, 'accepted an ID Token that must be refused (%s)' % exp)
    run.obs('refused', (what, exp, tuple(sorted(kw))))
    return False


def raise_(what, msg):
    from rv.core import Violation
    raise Violation('%s %s' % (what, msg))


def direct(run, rng):
    gen.set_zone(rng.choice(gen.ZONES))
    c, kw, devs = case(rng)
    n = norm(c)
    if n is None:
        return
    run.note(claims=c, expectations=kw, deviations=devs)
    t = oidc.IdToken(**c)
    if rng.random() < .08:      # an empty value is a value
        k = rng.choice(('azp', 'nonce', 'azp'))
        t[k] = ''
        n = dict(n, **{k: ''})
        run.note(claims=n)
    judge(run, 'IdToken', lambda: t.verify(**dict(run.noise(), **kw)), t, n, kw, devs)


def carried(run, rng):
    gen.set_zone(rng.choice(gen.ZONES))
    c, kw, devs = case(rng)
    n = norm(c)
    if n is None:
        return
    iss = c.get('iss')
    kj = jose.rp_jar()
    kw = dict(kw, keyjar=kj)
    alg = rng.choice(('RS256', 'ES256', 'HS256'))
    tok = jose.sign(c, alg)
    which = rng.choice(('AccessTokenResponse', 'AuthorizationResponse', 'RefreshSessionRequest', 'CheckSessionRequest',
                        'EndSessionRequest', 'verify_id_token'))
    slot = 'id_token'
    kw2 = dict(kw)
    if which == 'AccessTokenResponse':
        m = oidc.AccessTokenResponse(access_token='a', token_type='Bearer', id_token=tok)
    elif which == 'AuthorizationResponse':
        m = oidc.AuthorizationResponse(state='a', id_token=tok)
    elif which == 'RefreshSessionRequest':
        m = session.RefreshSessionRequest(id_token=tok, redirect_url='https://a', state='x')
    elif which == 'CheckSessionRequest':
        m = session.CheckSessionRequest(id_token=tok)
    elif which == 'EndSessionRequest':
        m, slot = session.EndSessionRequest(id_token_hint=tok), 'id_token_hint'
    else:
        m = {'id_token': tok}
    run.note(claims=c, expectations=kw, deviations=devs, carrier=which)
    if which == 'verify_id_token':
        fn = lambda: oidc.verify_id_token(m, **kw2)
    else:
        fn = lambda: m.verify(**dict(run.noise(), **kw2))
    mdl = {k: v for k, v in kw.items() if k != 'keyjar'}
    if iss not in (jose.ISS1, jose.ISS2) and model(n, mdl, int(time.time())) in ('accept', 'unspecified'):
        # issuer whose keys are not known
        run.refuses('%s with an ID Token from an unknown issuer' % which, fn)
        run.obs('unknown_issuer')
        return
    res = judge(run, which, fn, m, n, mdl, devs)
    vs = '__verified_' + slot
    if res:
        run.expect(vs in m, 'accepted ID Token not available as verified')
        got = m[vs].to_dict()
        run.expect(got == n, 'verified ID Token has other claims: %r', got)
    elif res is False:
        run.expect(vs not in m, 'refused ID Token available as verified')


def boundary(run, rng):
    """Exactly one second on either side of the expiry and issue-age limits, exact on the observed clock."""
    gen.set_zone(rng.choice(gen.ZONES))
    skew = rng.choice((None, 0, 1, 7, 60, 3600))
    st = rng.choice((None, 1, 30, 600, 86400))
    for _ in range(20):
        now = gen.now()
        s, n = skew or 0, STORAGE if st is None else st
        which = rng.choice(('exp', 'iat'))
        d = rng.choice((-1, 1))
        c = {'iss': 'i', 'sub': 's', 'aud': ['a'], 'exp': now + 1000, 'iat': now}
        if which == 'exp':
            c['exp'] = now - s + d
        else:
            c['iat'] = now - s - n + d
        kw = {}
        if skew is not None:
            kw['skew'] = skew
        if st is not None:
            kw['nonce_storage_time'] = st
        t = oidc.IdToken(**c)
        try:
            ok = t.verify(**dict(run.noise(), **kw))
        except Exception:
            ok = False
        if int(time.time()) != now:
            continue
        run.note(which=which, delta=d, kw=kw)
        run.expect(bool(ok) == (d > 0), 'one second %s the %s limit: verify gave %r', 'inside' if d > 0 else 'outside',
                   which, ok)
        run.obs('boundary', (which, d, skew, st))
        return


TOGETHER = ('direct', 'carried')


def scenarios(run):
    run.rules.append('valid ID Token with 0-3 deviations in claims or expectations, judged by a reference model; '
                     'non-trivial = distinct (consumer, verdict, expectation set)')
    run.assumptions += ['exact equality with a time limit is unspecified and not judged',
                        'a token without nonce is accepted even if the caller passes one (refresh responses)']
    run.require(accepted=200, refused=300, boundary=100, unknown_issuer=3)
    return {'direct': (direct, 3500, 120000), 'carried': (carried, 2000, 60000), 'boundary': (boundary, 400, 8000)}


def teardown(run):
    gen.set_zone('UTC')
