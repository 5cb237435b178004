"""C19 client registration rules (OpenID Connect Registration 2, 3.2)."""
import json

from rv import gen, jose, samples
from rv.checks import c14
from oidcmsg import oidc

ENC = ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response')
NAME = 'oidcmsg.oidc:RegistrationRequest'
ALGS = sorted(set(jose.ENC_ALGS) | {'RSA1_5', 'RSA-OAEP', 'RSA-OAEP-256', 'RSA-OAEP-384', 'RSA-OAEP-512', 'A128KW', 'A192KW', 'A256KW', 'dir',
               'ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW', 'A128GCMKW', 'A192GCMKW', 'A256GCMKW',
               'PBES2-HS256+A128KW', 'PBES2-HS384+A192KW', 'PBES2-HS512+A256KW', 'none'})
METHODS = ('client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt', 'none', 'tls_client_auth', 'bearer')
ENCS = ['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM']


def rules(d):
    if not d.get('redirect_uris'):
        return 'redirect_uris'
    if d.get('application_type') and d['application_type'] not in ('native', 'web'):
        return 'application_type'
    if d.get('subject_type') and d['subject_type'] not in ('public', 'pairwise'):
        return 'subject_type'
    if 'initiate_login_uri' in d and not d['initiate_login_uri'].startswith('https:'):
        return 'initiate_login_uri'
    for x in ENC:
        if x + '_enc' in d and x + '_alg' not in d:
            return x
    if d.get('token_endpoint_auth_signing_alg') == 'none':
        return 'token_endpoint_auth_signing_alg'
    return None


def request(run, rng):
    d, _ = samples.valid(rng, NAME, p=rng.choice((0, .1, .5)))
    for x in ENC:
        r = rng.random()
        d.pop(x + '_alg', None), d.pop(x + '_enc', None)
        if r < .4:
            d[x + '_alg'] = rng.choice(ALGS) if rng.random() < .9 else gen.text(rng)
        if .2 < r < .5 or rng.random() < .03:
            d[x + '_enc'] = rng.choice(ENCS)
    if rng.random() < .3:
        d['initiate_login_uri'] = rng.choice(('https://rp.example.com/login', 'https://rp.example.com/login', 'https://a?x=y',
                                              'http://rp.example.com/login', 'com.app:/login', 'ttps://a', '//rp.example.com/', 'rp.example.com',
                                              'http://https:', 'httpss://a', 'xhttps://rp', gen.text(rng)))
    if rng.random() < .3:
        d['token_endpoint_auth_signing_alg'] = rng.choice(('none', 'none', 'RS256', 'ES256', 'nonet', 'HS256'))
        if rng.random() < .6:
            d['token_endpoint_auth_method'] = rng.choice(METHODS)
    elif rng.random() < .2:
        d['token_endpoint_auth_method'] = rng.choice(METHODS)
    for k in ('id_token_signed_response_alg', 'userinfo_signed_response_alg', 'request_object_signing_alg'):
        if rng.random() < .1:
            d[k] = rng.choice(('none', 'RS256', 'HS256', 'ES384'))
    for k, al in (('application_type', ('native', 'web')), ('subject_type', ('public', 'pairwise'))):
        if rng.random() < .2:
            d[k] = rng.choice(al) if rng.random() < .6 else gen.near(rng, rng.choice(al))
            if not d[k]:
                del d[k]
    if rng.random() < .05:
        d.pop('redirect_uris', None)
    for k in ('default_max_age', 'client_secret_expires_at'):
        if rng.random() < .1:
            d[k] = rng.choice((0, 0, 1, 2 ** 31))
    for k in ('require_auth_time', 'frontchannel_logout_session_required', 'backchannel_logout_session_supported'):
        if rng.random() < .1:
            d[k] = False
    d.update({k: v for k, v in gen.extras(rng, gen.SCHEMA[NAME]['params'], ENCS + ['none']).items() if k not in d})
    if d.get('initiate_login_uri', '').lower().startswith('https:') != d.get('initiate_login_uri', '').startswith('https:'):
        return
    reason = rules(d)
    via, m = c14.build(rng, oidc.RegistrationRequest, d, rng.random() < .5)
    run.note(content=d, via=via, reason=reason)
    times = rng.choice((1, 1, 2))
    if reason:
        run.refuses('registration request (%s)' % reason, m.verify)
        if times == 2:
            run.refuses('registration request (%s), again' % reason, m.verify)
        run.obs('refused', (reason, via))
        return
    for _ in range(times):
        run.expect(run.must('registration request', m.verify) is True, 'not accepted')
    for x in ENC:
        if x + '_alg' in d:
            want = d.get(x + '_enc', 'A128CBC-HS256')
            run.expect(m.get(x + '_alg') == d[x + '_alg'] and m.get(x + '_enc') == want, '%s: alg %r enc %r, expected %r', x,
                       m.get(x + '_alg'), m.get(x + '_enc'), want)
            run.obs('defaulted' if x + '_enc' not in d else 'kept', x)
        else:
            run.expect(x + '_enc' not in m and x + '_alg' not in m, '%s appeared from nowhere', x)
    for k, v in d.items():
        run.expect(m[k] == v or not isinstance(v, (str, int, list)), 'verification changed %s from %r to %r', k, v, m[k])
    run.obs('accepted', (via, tuple(sorted(k for k in d if k.endswith(('_alg', '_enc'))))))


def response(run, rng):
    d, _ = samples.valid(rng, 'oidcmsg.oidc:RegistrationResponse', p=rng.choice((0, .1, .5)))
    uri, tok = rng.random() < .5, rng.random() < .5
    for k, on in (('registration_client_uri', uri), ('registration_access_token', tok)):
        d.pop(k, None)
        if on:
            d[k] = gen.word(rng)
    d.update({k: v for k, v in gen.extras(rng, gen.SCHEMA['oidcmsg.oidc:RegistrationResponse']['params'], p=.5).items() if k not in d})
    via, m = c14.build(rng, oidc.RegistrationResponse, d, rng.random() < .5)
    run.note(content=d, via=via)
    if uri != tok:
        run.refuses('registration response with only one of uri/token', m.verify)
        run.obs('one_refused', (uri, via))
    else:
        run.expect(run.must('registration response', m.verify) is True, 'not accepted')
        run.obs('response_accepted', (uri, via))
        if uri:     # history: one of them is lost later
            del m[rng.choice(('registration_client_uri', 'registration_access_token'))]
            run.refuses('registration response that lost one of uri/token', m.verify)


TOGETHER = ('request', 'response')


def scenarios(run):
    run.rules.append('registration messages with independently drawn deviations against a rule table; distinct = (reason, delivery)')
    run.require(accepted=500, refused=400, defaulted=200, kept=200, one_refused=150, response_accepted=150)
    return {'request': (request, 3000, 100000), 'response': (response, 600, 20000)}
