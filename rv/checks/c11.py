"""C11 JSON Web Token claims outside ID Tokens (client authentication assertions): windows, audience, issuer."""
import time

from rv import gen, jose
from oidcmsg import oidc


def model(c, kw, now, cls):
    if cls is oidc.AuthnToken:
        for k in ('iss', 'sub', 'aud', 'jti', 'exp'):
            if not c.get(k):
                return 'missing ' + k
    skew = kw.get('skew', 0)
    edge = False
    if 'exp' in c:
        if c['exp'] < now - skew:
            return 'expired'
        edge |= c['exp'] == now - skew
    if 'iat' in c:
        if c['iat'] > now + skew:
            return 'issued in the future'
        edge |= c['iat'] == now + skew
    if 'nbf' in c:
        if c['nbf'] > now + skew:
            return 'not yet valid'
        edge |= c['nbf'] == now + skew
    if 'aud' in c and 'aud' in kw and kw['aud'] not in c['aud']:
        return 'audience'
    if 'iss' in c and 'iss' in kw and kw['iss'] != c['iss']:
        return 'issuer'
    return 'unspecified' if edge else 'accept'


PARAMS = {'iss', 'sub', 'aud', 'jti', 'exp', 'nbf', 'iat'}


def case(rng):
    now = int(time.time())
    me = rng.choice((jose.ISS1, 'https://op.example.org/token', 'abc'))
    kw = {}
    if rng.random() < .5:
        kw['skew'] = rng.choice((0, 1, 5, 60, 3600))
    skew = kw.get('skew', 0)
    c = {'iss': 'client', 'sub': 'client', 'aud': [me], 'jti': gen.word(rng), 'exp': now + rng.randint(10, 1000)}
    if rng.random() < .5:
        c['iat'] = now - rng.randint(2, 100)
    if rng.random() < .5:
        c['nbf'] = now - rng.randint(2, 100)
    if rng.random() < .6:
        kw['aud'] = me
    if rng.random() < .6:
        kw['iss'] = 'client'
    if rng.random() < .3:
        c['aud'] = c['aud'] + [gen.token(rng)[:60] for _ in range(rng.choice((1, 2, 10, 60)))]
        rng.shuffle(c['aud'])
    c = dict(gen.extras(rng, PARAMS, (me, 'client', now + 1000, now - 1000)), **c)
    for _ in range(rng.choice((0, 0, 1, 1, 1, 2))):
        d = rng.choice(('exp', 'exp', 'iat', 'iat', 'nbf', 'nbf', 'aud', 'audlist', 'iss', 'del'))
        off = rng.choice((-1, 1, -2, 2, -1, 1, -60, 60, -3600, 3600, 2 * skew + 1, 2 * skew - 1, -2 * skew - 1))
        if d == 'exp':
            c['exp'] = now - skew + off if rng.random() < .9 else rng.choice((0, -1, 1, -now, 2 ** 31, 2 ** 40))
        elif d in ('iat', 'nbf'):
            c[d] = now + skew + off if rng.random() < .9 else rng.choice((0, -1, 1, -now, 2 ** 31, 2 ** 40))
        elif d == 'aud':
            kw['aud'] = rng.choice((gen.near(rng, me), me[:-1], me[1:], 'client', c.get('jti', 'x')))
        elif d == 'audlist':
            c['aud'] = [gen.near(rng, me).replace(' ', '') or 'q']
        elif d == 'iss':
            kw['iss'] = rng.choice((gen.near(rng, 'client'), gen.near(rng, 'client'), c.get('sub', 'x'), me, c.get('jti', 'x')))
            if rng.random() < .4:
                c['sub'] = kw['iss']
        else:
            c.pop(rng.choice(sorted(c)), None)
    return c, kw


def window(run, rng):
    gen.set_zone(rng.choice(gen.ZONES))
    cls = rng.choice((oidc.JsonWebToken, oidc.AuthnToken))
    c, kw = case(rng)
    w = dict(c)
    if len(c.get('aud', ())) == 1 and rng.random() < .4:
        w['aud'] = c['aud'][0]
    via = rng.choice(('kw', 'kw', 'jwt'))
    kid = None
    if via == 'jwt':
        alg = rng.choice(('ES256', 'RS256', 'HS256'))
        kj = jose.rp_jar('client', 'other') if c.get('iss') else None
        if kj is None:
            via = 'kw'
    m = cls(**w) if via == 'kw' else cls().from_jwt(jose.sign(w, alg), kj)
    run.note(cls=cls.__name__, claims=w, expectations=kw, via=via)
    t0 = gen.now()
    try:
        res, exc = m.verify(**dict(run.noise(), **kw)), None
    except Exception as e:
        res, exc = None, e
    t1 = int(time.time())
    want = {model(c, kw, t, cls) for t in {t0, t1}}
    if len(want) > 1 or 'unspecified' in want:
        run.obs('edge')
        return
    want = want.pop()
    if want == 'accept':
        run.expect(exc is None and res is True, 'valid token refused: %r %r', exc, res)
        run.obs('accepted', (cls.__name__, via, tuple(sorted(c)), tuple(sorted(kw))))
    else:
        run.expect(exc is not None or res is False, 'token accepted that must be refused (%s)', want)
        run.obs('refused', (cls.__name__, via, want, tuple(sorted(kw))))


TOGETHER = ('window',)


def scenarios(run):
    run.rules.append('tokens with 0-2 deviations incl. one second inside/outside each window, judged by a reference model over '
                     'time zones; distinct = (class, verdict, expectations)')
    run.assumptions.append('exact equality with a time limit is unspecified and not judged')
    run.require(accepted=400, refused=600)
    return {'window': (window, 4000, 150000)}


def teardown(run):
    gen.set_zone('UTC')
