"""C05 binding of access token and code to the ID Token (at_hash / c_hash) in an authorization response."""
import time

from rv import gen, jose
from oidcmsg import oidc
from oidcmsg.oidc import AtHashError, CHashError


def value(rng):
    v = _value(rng)
    if rng.random() < .15:      # the hash is of the value as it is
        pad = rng.choice((' ', '\n', '\t', '  ', '=', '"', '\r\n'))
        v = rng.choice((pad + v, v + pad, pad + v + pad))
    return v


def _value(rng):
    return ''.join(chr(rng.choice((rng.randint(0x21, 0x7e), rng.randint(0x21, 0x7e), rng.randint(0xa1, 0x2ff)))) if rng.random() < .2 else
                   rng.choice(jose.B64CH + './~+=') for _ in range(rng.choice((1, 8, 22, 43, 86, 500))))


def bad(rng, v, good, alg):
    r = rng.random()
    if r < .2:
        near = rng.choice((gen.near(rng, v), v.strip(), v.lower(), v.rstrip('='), v.replace(' ', '')))
        return jose.left_hash(near if near != v else gen.near(rng, v), alg)
    if r < .35:
        other = rng.choice([a for a in ('RS256', 'RS384', 'RS512') if a[-3:] != alg[-3:]])
        return jose.left_hash(v, other)
    if r < .5:
        return good[:-1]
    if r < .6:
        return good + rng.choice(('=', '==', 'A', ' '))
    if r < .7:
        return good.swapcase() if good.swapcase() != good else good + 'x'
    if r < .75:      # full hash, not the left half
        import hashlib
        h = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]]
        return jose.b64(h(v.encode()).digest())
    if r < .88:     # not a hash at all, or another one
        import hashlib
        h = hashlib.sha256(v.encode()).digest()
        x = rng.choice((v, v, v, v, gen.near(rng, v), jose.b64(v.encode()), jose.b64(hashlib.sha1(v.encode()).digest()), h.hex(), h[:16].hex(), v[:len(v) // 2] or 'x',
                        jose.b64(h[:8]), jose.b64(hashlib.md5(v.encode()).digest()), '*', '-', 'none'))
        if x.strip() and x != good:
            return x
    if r < .9:      # right half
        import hashlib
        h = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]]
        d = h(v.encode()).digest()
        return jose.b64(d[len(d) // 2:])
    i = rng.randrange(len(good))
    t = good[:i] + rng.choice([c for c in jose.B64CH if c != good[i]]) + good[i + 1:]
    return t


def binding(run, rng):
    alg = rng.choice(jose.ALGS)
    now = int(time.time())
    c = {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5, 'nonce': 'n'}
    m = {'state': gen.word(rng)}
    at, code = value(rng), value(rng)
    if rng.random() < .15:
        code = at
    have_at, have_code = rng.choice(((1, 1), (1, 1), (1, 0), (0, 1), (0, 0)))
    if have_at:
        m.update(access_token=at)
        if rng.random() < .9:
            m['token_type'] = rng.choice(('Bearer', 'Bearer', 'bearer', 'BEARER', 'DPoP', 'MAC', 'N_A', 'pop', gen.text(rng)))
    if have_code:
        m['code'] = code
    ok = True
    states = []
    for have, v, name in ((have_at, at, 'at_hash'), (have_code, code, 'c_hash')):
        good = jose.left_hash(v, alg)
        how = rng.choice(('good', 'good', 'good', 'good', 'missing', 'bad', 'bad', 'swapped'))
        if how == 'swapped':
            o = code if name == 'at_hash' else at
            h = jose.left_hash(o, alg)
            c[name] = h
            how = 'swapped' if h != good else 'good'
        elif how == 'good':
            c[name] = good
        elif how == 'bad':
            c[name] = bad(rng, v, good, alg)
        states.append((name, bool(have), how))
        if have and how != 'good':
            ok = False
    extra = {}
    if rng.random() < .2:       # says nothing about a signed token
        extra['allow_sign_alg_none'] = True
    if rng.random() < .2:
        extra['allowed_sign_alg'] = alg
    if rng.random() < .4:
        extra.update(iss=jose.ISS1, client_id=jose.RP, nonce='n')
    tok = jose.sign(c, alg)
    m['id_token'] = tok
    run.note(alg=alg, states=states, access_token=at, code=code, claims=c)
    good = {'at_hash': jose.left_hash(at, alg), 'c_hash': jose.left_hash(code, alg)}
    m = dict(gen.extras(rng, set(m) | {'aud', 'iss', 'client_id', 'error', 'error_description', 'error_uri', 'expires_in', 'scope',
                                       'refresh_token', 'token_type', 'access_token', 'code', 'session_state'}, (at, code) + tuple(good.values())), **m)
    for k, v in (('session_state', gen.word(rng)), ('response_mode', rng.choice(('form_post', 'query', 'fragment'))), ('expires_in', 3600),
                 ('scope', ['openid', 'profile']), ('iss', jose.ISS1), ('client_id', jose.RP), ('refresh_token', gen.word(rng)), ('nonce', 'n'),
                 ('error_uri', 'https://a'), ('token_type', 'Bearer')):
        if rng.random() < .15:
            m.setdefault(k, v)
    if rng.random() < .3:       # what the message says about itself is no substitute
        m.update(good)
    elif rng.random() < .1:
        m.update({k: gen.word(rng) for k in good})
    via = rng.choice(('kw', 'urlencoded', 'json'))
    a = oidc.AuthorizationResponse(**m)
    if via == 'urlencoded':
        a = oidc.AuthorizationResponse().from_urlencoded(a.to_urlencoded())
    elif via == 'json':
        a = oidc.AuthorizationResponse().from_json(a.to_json())
    if rng.random() < .2:       # history: earlier successful verification of an honest version of the same object
        h = dict(c)
        h.update(at_hash=jose.left_hash(at, alg), c_hash=jose.left_hash(code, alg))
        a['id_token'] = jose.sign(h, alg)
        run.must('honest response', a.verify, keyjar=jose.rp_jar())
        a['id_token'] = tok
    if ok:
        run.expect(run.must('correctly bound response', a.verify, keyjar=jose.rp_jar(), **extra) is True, 'not accepted')
        run.expect(a['__verified_id_token'].to_dict() == c, 'verified ID Token differs')
        run.obs('bound_accepted', (alg, have_at, have_code))
    else:
        e = run.refuses('response with %r' % states, a.verify, keyjar=jose.rp_jar(), **extra)
        run.expect('__verified_id_token' not in a, 'unbound ID Token presented as verified')
        run.obs('unbound_refused', (alg, tuple(states)))


TOGETHER = ('binding',)


def scenarios(run):
    run.rules.append('authorization responses over algorithm x {access token, code} presence x hash state; distinct = that tuple')
    run.require(bound_accepted=200, unbound_refused=300)
    return {'binding': (binding, 2500, 80000)}
