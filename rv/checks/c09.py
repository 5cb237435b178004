"""C09 mix-up defence: an authorization response meant for someone else, or from someone else, is refused."""
import json
import time
from urllib.parse import urlencode

from rv import gen, jose
from oidcmsg import oidc, oauth2


RESP = set(gen.SCHEMA['oidcmsg.oidc:AuthorizationResponse']['params']) | {'aud', 'iss', 'client_id', 'state', 'error', 'error_description', 'error_uri'}


def case(rng):
    me = rng.choice((jose.RP, 'https://rp.example.com', 'abc', 'C' + gen.word(rng)))
    issuer = rng.choice((jose.ISS1, jose.ISS2))
    m, kw = {'code': gen.word(rng), 'state': gen.word(rng)}, {}
    if rng.random() < .7:
        kw['client_id'] = me
    if rng.random() < .7:
        kw['iss'] = issuer
    if rng.random() < .6:
        m['client_id'] = me if rng.random() < .6 else gen.near(rng, me).replace('\x00', '0') or 'x'
    if rng.random() < .6:
        m['iss'] = issuer if rng.random() < .6 else (gen.near(rng, issuer).replace('\x00', '0') or 'x') if rng.random() < .6 else gen._url_near(rng, issuer)
    if kw and rng.random() < .06:       # an empty expectation is met by nothing
        kw[rng.choice(sorted(kw))] = ''
    for k in ('scope', 'session_state'):
        if rng.random() < .2:
            m[k] = gen.word(rng)
    m = dict(gen.extras(rng, RESP, (me, issuer)), **m)
    if rng.random() < .1:
        m['error'] = rng.choice(('access_denied', 'server_error', 'login_required'))
    items = list(m.items())
    rng.shuffle(items)
    m = dict(items)
    return me, issuer, m, kw


def mk(rng, cls, m):
    via = rng.choice(('kw', 'json', 'urlencoded', 'item'))
    if via == 'kw':
        return via, cls(**m)
    if via == 'json':
        return via, cls().from_json(json.dumps(m))
    if via == 'urlencoded':
        return via, cls().from_urlencoded(urlencode(m, doseq=True))
    x = cls()
    for k, v in m.items():
        x[k] = v
    return via, x


def judge(run, rng, cls, me, m, kw, with_aud):
    bad = []
    if 'client_id' in m and 'client_id' in kw and m['client_id'] != kw['client_id']:
        bad.append('client_id')
    if 'iss' in m and 'iss' in kw and m['iss'] != kw['iss']:
        bad.append('iss')
    if with_aud and 'aud' in m and 'client_id' in kw:
        aud = m['aud'] if isinstance(m['aud'], list) else [m['aud']]
        if kw['client_id'] not in aud:
            bad.append('aud')
    via, x = mk(rng, cls, m)
    run.note(cls=cls.__module__ + ':' + cls.__name__, params=m, expected=kw, mismatch=bad, via=via)
    if bad:
        run.refuses('response with wrong %s' % bad, x.verify, **kw)
        run.obs('mixup_refused', (cls.__module__, tuple(bad), via, tuple(sorted(kw)), isinstance(m.get('aud'), list)))
    else:
        run.expect(run.must('matching response', x.verify, **kw) is True, 'matching response not accepted')
        run.obs('match_accepted', (cls.__module__, via, tuple(sorted(kw)), tuple(sorted(m))))
    return via


def params(run, rng):
    me, issuer, m, kw = case(rng)
    if rng.random() < .3:
        judge(run, rng, oauth2.AuthorizationResponse, me, m, kw, False)
        return
    if rng.random() < .5:
        others = [gen.near(rng, me) or 'y' for _ in range(rng.choice((0, 1, 2, 3, 20)))]
        if rng.random() < .3:       # the responder itself, the subject, ... are not the receiver
            others += [x for x in (m.get('iss'), issuer, m.get('client_id'), 'https://rp.example.com/cb') if x and x != me][:rng.randint(1, 4)]
        others = [o.replace('\x00', '0') for o in others]
        r = rng.random()
        aud = others + [me] if r < .5 else others or ['z' + me]
        rng.shuffle(aud)
        if len(aud) == 1 and rng.random() < .5:
            aud = aud[0]
        m['aud'] = aud
    judge(run, rng, oidc.AuthorizationResponse, me, m, kw, True)


def with_token(run, rng):
    """Issuer and audience of the ID Token in the response, and of the response itself, are both enforced."""
    me, issuer, m, kw = case(rng)
    now = int(time.time())
    tiss = issuer if rng.random() < .7 else (jose.ISS1 if issuer == jose.ISS2 else jose.ISS2)
    taud = [me] if rng.random() < .7 else [gen.near(rng, me) or 'w']
    c = {'iss': tiss, 'sub': 's', 'aud': taud, 'exp': now + 600, 'iat': now - 5, 'c_hash': jose.left_hash(m['code'], 'ES256')}
    m['id_token'] = jose.sign(c, 'ES256', 'iss1' if tiss == jose.ISS1 else 'iss2')
    bad = []
    if 'client_id' in m and 'client_id' in kw and m['client_id'] != kw['client_id']:
        bad.append('client_id')
    if 'iss' in m and 'iss' in kw and m['iss'] != kw['iss']:
        bad.append('iss')
    if 'iss' in kw and tiss != kw['iss']:
        bad.append('token iss')
    if 'client_id' in kw and kw['client_id'] not in taud:
        bad.append('token aud')
    if rng.random() < .4:
        m['aud'] = [me] if rng.random() < .5 else [gen.near(rng, me).replace('\x00', '0') or 'w', issuer][:rng.randint(1, 2)]
        if 'client_id' in kw and kw['client_id'] not in m['aud']:
            bad.append('aud')
    if ' ' in ''.join(taud):
        return
    via, x = mk(rng, oidc.AuthorizationResponse, m)
    run.note(params=m, claims=c, expected=kw, mismatch=bad, via=via)
    if bad:
        run.refuses('response with wrong %s' % bad, x.verify, keyjar=jose.rp_jar(), **kw)
        run.expect('__verified_id_token' not in x, 'ID Token of a refused response presented as verified')
        run.obs('token_mixup_refused', (tuple(bad), via))
    else:
        run.expect(run.must('matching response', x.verify, keyjar=jose.rp_jar(), **kw) is True, 'not accepted')
        run.obs('token_match', (tuple(sorted(kw)), via))


TOGETHER = ('params', 'token')


def scenarios(run):
    run.rules.append('responses with matching, absent and confusable client_id/iss/aud against the same for expectations; '
                     'distinct = (class, mismatching parts, delivery, expectations)')
    run.require(mixup_refused=400, match_accepted=400, token_mixup_refused=200, token_match=100)
    return {'params': (params, 3500, 150000), 'token': (with_token, 1200, 40000)}
