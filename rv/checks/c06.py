"""C06 verified slots: after a successful verification they hold exactly what the verified token said; the sender, or an
earlier verification, can not put anything there."""
import time

from rv import gen, jose
from rv.checks import c01, c03
from oidcmsg import oidc, oauth2
from oidcmsg.oidc import session

SLOTS = ['__verified_id_token', '__verified_id_token_hint', '__verified_request', '__verified_logout_token',
         'verified_id_token_hint']
# message -> slots its verification is responsible for
OWN = {'AccessTokenResponse': SLOTS[:3], 'AuthorizationResponse': SLOTS[:3], 'RefreshSessionRequest': SLOTS[:3],
       'RefreshSessionResponse': SLOTS[:3], 'CheckSessionRequest': SLOTS[:3], 'EndSessionRequest': SLOTS[:3],
       'BackChannelLogoutRequest': ['__verified_logout_token'],
       'AuthorizationRequest': SLOTS[:3] + ['verified_id_token_hint'],
       'hint': SLOTS[:3] + ['verified_id_token_hint'], 'objhint': SLOTS[:3] + ['verified_id_token_hint'],
       'hintobj': SLOTS[:3] + ['verified_id_token_hint'], 'JAR': ['__verified_request'], 'PAR': ['__verified_request']}
NOTOKEN = {'AccessTokenResponse': lambda: oidc.AccessTokenResponse(access_token='a', token_type='Bearer'),
           'AuthorizationResponse': lambda: oidc.AuthorizationResponse(code='c', state='s'),
           'EndSessionRequest': lambda: session.EndSessionRequest(state='s'),
           'AuthorizationRequest': lambda: oidc.AuthorizationRequest(**c01.PLAIN),
           'hint': lambda: oidc.AuthorizationRequest(**c01.PLAIN),
           'JAR': lambda: oauth2.JWTSecuredAuthorizationRequest(request_uri='https://a/r', **c01.PLAIN),
           'PAR': lambda: oauth2.PushedAuthorizationRequest(**c01.PLAIN)}


def forged(rng):
    r = rng.random()
    d = {'sub': 'admin', 'iss': jose.ISS1, 'aud': [jose.RP]}
    if r < .3:
        return d
    if r < .6:
        return oidc.IdToken(**d)
    return rng.choice(('admin', [d], 'eyJhbGciOiJub25lIn0.e30.', '{"sub": "admin"}'))


def deliver(rng, m):
    """The message as the receiver gets it from the wire (urlencoded or json), or as built in process."""
    via = rng.choice(('obj', 'json', 'urlencoded'))
    if via == 'obj':
        return via, m
    if via == 'json':
        return via, m.__class__().from_json(m.to_json())
    return via, m.__class__().from_urlencoded(m.to_urlencoded())


CLAIM_NAMES = ('sub', 'sid', 'email', 'email_verified', 'name', 'acr', 'amr', 'auth_time', 'exp', 'iat', 'jti', 'azp', 'at_hash', 'c_hash',
               'events', 'groups', 'role', 'admin', 'iss', 'aud', 'verified', 'nonce')
REQUIRED = {'AccessTokenResponse': ('access_token', 'token_type'), 'RefreshSessionRequest': ('redirect_url', 'state'), 'RefreshSessionResponse': ('state',),
            'AuthorizationRequest': ('client_id', 'response_type', 'scope', 'redirect_uri'), 'hint': ('client_id', 'response_type', 'scope', 'redirect_uri'),
            'CheckSessionRequest': ('id_token',), 'BackChannelLogoutRequest': ('logout_token',)}


def beside(rng, m):
    """Parameters in the message that look like what the token could say."""
    known = set(m.c_param) | {'error', 'error_description', 'error_uri'}
    out = gen.extras(rng, known | {'iss', 'aud', 'client_id'}, p=.4)
    if rng.random() < .5:
        for k in rng.sample(CLAIM_NAMES, rng.randint(1, 4)):
            if k not in known:
                out[k] = rng.choice(('admin', jose.ISS2, jose.RP, True, 0, 4102444800, ['admin'], gen.text(rng)))
    return out


def lapse(rng, which, base, kw):
    """Make a rightly signed token one that must be refused for what it says."""
    now = int(time.time())
    if which == 'BackChannelLogoutRequest':
        k = rng.choice(('iss', 'aud', 'nonce', 'iat', 'events'))
        if k == 'iss':
            kw['iss'] = gen.near(rng, jose.ISS1)
        elif k == 'aud':
            kw['aud'] = gen.near(rng, jose.RP)
        else:
            base[k] = {'nonce': 'n', 'iat': now + 1000, 'events': {'x': {}}}[k]
        return k
    k = rng.choice(('iss', 'client_id', 'nonce', 'exp', 'iat', 'azp', 'sub') + ('hash',) * 3 * (which == 'AuthorizationResponse'))
    if k == 'iss':
        kw['iss'] = gen.near(rng, jose.ISS1)
    elif k == 'client_id':
        kw['client_id'] = gen.near(rng, jose.RP)
    elif k == 'nonce':
        base['nonce'] = gen.word(rng)
        kw['nonce'] = gen.near(rng, base['nonce'])
    elif k == 'hash':       # for a code or access token that this message does not carry
        base.update(at_hash=gen.word(rng), c_hash=gen.word(rng))
    elif k == 'azp':
        base['aud'] = [jose.RP, 'other']
    elif k == 'sub':
        base.pop('sub')
    else:
        base[k] = now - 100000
    return k


def slots(run, rng):
    which = rng.choice(c01.ENTRIES)
    mode = rng.choice(('honest', 'honest', 'hostile', 'hostile', 'unsigned', 'notoken', 'claims', 'basic'))
    base = c01.base_claims(rng, which)
    kw = {'keyjar': jose.rp_jar()}
    kind = mode
    if mode == 'claims':
        if which in ('AuthorizationRequest', 'hint', 'objhint', 'hintobj', 'JAR', 'PAR'):
            return
        kind += ' ' + lapse(rng, which, base, kw)
    if rng.random() < .4:       # whatever else the token says
        base.update(gen.extras(rng, set(base) | c03.IDT_PARAMS | set(oidc.AuthorizationRequest.c_param) | {'nonce', 'sid', 'jti', 'events'}, p=.8))
        for k in rng.sample(('x_flag', 'x_count', 'x_none', 'verified', 'groups', 'x_list'), 2):
            base[k] = {'x_flag': False, 'x_count': 0, 'x_none': None, 'verified': False, 'groups': [], 'x_list': [False, 0]}[k]
        if 'exp' in base and rng.random() < .5:
            base.update(rng.choice(({'auth_time': 0}, {'email_verified': False}, {'acr': '0'})))
    if mode in ('honest', 'claims', 'basic'):
        tok = jose.sign(base, rng.choice(jose.ALGS))
    elif mode == 'unsigned':
        if which in ('AuthorizationRequest', 'JAR', 'PAR'):
            return
        tok = jose.unsigned(base)
    elif mode == 'hostile':
        kind, tok = c01.hostile(rng, base)
    if mode == 'notoken':
        if which not in NOTOKEN:
            return
        m, tok = NOTOKEN[which](), None
        slot = c01.carrier(which, 'x')[1]
    else:
        m, slot = c01.carrier(which, tok)
    if kind == 'claims hash':
        m.update(rng.choice(({'code': 'abc'}, {'access_token': 'abc', 'token_type': 'Bearer'}, {'code': 'abc', 'access_token': 'abc', 'token_type': 'Bearer'})))
    obj = which in ('objhint', 'hintobj')
    if mode == 'basic':
        if which not in REQUIRED:
            return
        k = rng.choice(REQUIRED[which])
        kind += ' ' + k
        del m[k]
    for k, v in beside(rng, m).items():
        m[k] = v
    if mode not in ('basic', 'notoken'):
        c01.company(rng, m, slot)
    inject = [s for s in SLOTS if rng.random() < .5]
    for s in inject:
        m[s] = forged(rng)
    stale = mode not in ('notoken', 'basic') and not obj and rng.random() < .3
    if stale:       # an earlier, genuine verification on the same object, then the token is replaced
        b2 = c01.base_claims(rng, which)
        key = 'sub' if 'sub' in b2 else 'state'
        b2[key] = 'earlier'
        old = m[slot]
        m[slot] = jose.sign(b2, 'ES256')
        try:
            m.verify(**dict(run.noise(), keyjar=jose.rp_jar()))
        except Exception:
            pass
        m[slot] = old
        via = 'obj'
        for k, v in (c01.PLAIN if which in ('AuthorizationRequest', 'hint', 'JAR', 'PAR') else {}).items():
            m[k] = v
    else:
        try:
            via, m = deliver(rng, m)
        except Exception:       # not every forged object can be serialized
            via = 'obj'
    run.note(which=which, mode=kind, inject=inject, via=via, stale=stale, token=tok, message=m)
    own = OWN[which]
    mine = 'verified_id_token_hint' if which in ('hint', 'objhint', 'hintobj') else '__verified_' + slot
    try:
        res, exc = m.verify(**dict(run.noise(), **kw)), None
    except Exception as e:
        res, exc = None, e
    ok = exc is None and res is not False
    if mode == 'honest':
        run.expect(ok, '%s with an honest token refused: %r', which, exc)
    if mode in ('hostile', 'unsigned', 'claims', 'basic'):
        run.expect(not ok, '%s with a bad token (%s) accepted', which, kind)
    if mode == 'notoken':
        run.expect(ok, '%s refused: %r', which, exc)
    for s in own:
        if obj and s == '__verified_request':
            # the request object is fine whatever becomes of the hint
            got = m.get(s)
            run.expect(ok or got is None or hasattr(got, 'to_dict'), '%s: %s is %r', which, s, got)
            if got is not None:
                run.expect(got.get('id_token_hint') == tok and 'sub' not in got, '%s: %s holds %r', which, s, got)
        elif s == mine and mode in ('honest', 'basic') and (ok or s in m):
            run.expect(s in m, '%s: no verified content', which)
            got = m[s]
            run.expect(hasattr(got, 'to_dict'), '%s: %s is %r', which, s, got)
            g = {k: got[k] for k in got}
            want = dict(base)
            for k in ('response_type', 'scope'):
                if isinstance(want.get(k), str):
                    want[k] = want[k].split(' ')
            run.expect(g == want, '%s: %s holds %r, the token said %r', which, s, g, want)
        elif ok:
            run.expect(s not in m, '%s: %s supplied by the sender survived verification: %r', which, s, m.get(s))
        else:
            run.expect(s not in m, '%s: %s present although verification failed: %r', which, s, m.get(s))
    if ok:
        run.obs('ok_' + mode, (which, via, tuple(inject), stale))
    else:
        run.obs('refused_' + mode, (which, kind, via, stale))
        run.obs('refused')


def inner(run, rng):
    """Slots hidden inside a validly signed request object are not adopted either."""
    which = rng.choice(('AuthorizationRequest', 'AuthorizationRequest', 'JAR', 'PAR'))
    base = c01.base_claims(rng, which)
    inject = {s: {'sub': 'admin', 'iss': jose.ISS1} for s in SLOTS if rng.random() < .6}
    if which != 'AuthorizationRequest':
        inject = {k: v for k, v in inject.items() if k == '__verified_request'}
    tok = jose.sign(dict(base, **inject), rng.choice(jose.ALGS))
    m, slot = c01.carrier(which, tok)
    run.note(which=which, inject=sorted(inject), token=tok)
    run.must('request with a signed request object', m.verify, keyjar=jose.rp_jar())
    for s in OWN[which]:
        if s == '__verified_request':
            run.expect(hasattr(m[s], 'to_dict') and m[s].get('state') == base['state'], '%s: verified request is %r',
                       which, m[s])
            continue
        run.expect(s not in m, '%s: %s from inside the request object was adopted: %r', which, s, m.get(s))
    run.obs('inner', (which, tuple(sorted(inject))))


TOGETHER = ('slots', 'inner')


def scenarios(run):
    run.rules.append('consumer x token state x injected slots x delivery x stale earlier verification; distinct = that tuple')
    run.require(ok_honest=200, ok_notoken=100, refused=200, inner=100, refused_claims=100, refused_basic=100)
    return {'slots': (slots, 4500, 80000), 'inner': (inner, 500, 10000)}
