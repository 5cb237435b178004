"""C07 request object authority: what of the plain request survives, and that the outcome still obeys the rules."""
import json

from rv import gen, jose
from rv.checks import c08
from oidcmsg import oidc, oauth2


def norm(p):
    return {k: (v.split(' ') if isinstance(v, str) and k in ('scope', 'response_type', 'prompt', 'ui_locales') else v)
            for k, v in p.items()}


def wire(rng, p):
    """Claims in the request object; lists as space separated strings or JSON arrays."""
    return {k: (' '.join(v) if isinstance(v, list) and rng.random() < .6 else v) for k, v in p.items()}


def objects(rng, plain_bad, ro_bad):
    plain = c08.request(rng, plain_bad)
    ro = c08.request(rng, ro_bad)
    if rng.random() < .6:       # overlap in value, as in real life
        for k in rng.sample(sorted(plain), rng.randint(0, len(plain))):
            ro[k] = plain[k]
    if rng.random() < .5:
        for k in rng.sample(sorted(ro), rng.randint(0, len(ro))):
            if k not in ('client_id', 'response_type', 'scope', 'redirect_uri', 'nonce') or rng.random() < ro_bad:
                del ro[k]
    for d in (plain, ro):
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                d[gen.extra_key(rng)] = gen.text(rng)
    for base in rng.sample(('login_hint', 'state', 'response_mode', 'client_name', 'x_hint', 'redirect_uri', 'display', 'nonce'), rng.choice((0, 0, 1, 3))):
        for d in (plain, ro):       # a tagged parameter is a parameter of its own
            if rng.random() < .6:
                d[base + '#' + rng.choice(('en', 'sv'))] = gen.word(rng)
            if rng.random() < .3 and base not in ('redirect_uri', 'display', 'nonce'):
                d[base] = gen.word(rng)
    if rng.random() < .3:           # a value that is false is a value
        k = rng.choice(('max_age', 'x_flag', 'x_count'))
        ro[k] = 0 if k == 'max_age' else rng.choice((0, False))
        plain.update(max_age=rng.randint(1, 100))
        if rng.random() < .5:
            plain.update(x_flag='yes', x_count=5)
    for k, v in (('request_uri', 'https://rp.example.com/r'), ('response_mode', 'form_post'), ('code_challenge', gen.word(rng))):
        for d in (plain, ro):
            if rng.random() < .1:
                d.setdefault(k, v)
    ro.pop('request', None)
    return plain, ro


def pack(rng, ro):
    alg = rng.choice(jose.ALGS)
    c = dict(wire(rng, ro), iss=jose.ISS1)
    tok = jose.sign(c, alg)
    if rng.random() < .15:
        tok = jose.encrypt(tok)
    return tok


def content(m):
    return {k: m[k] for k in m if not k.startswith('__verified') and k != 'verified_id_token_hint'}


def oidc_request(run, rng):
    plain, ro = objects(rng, .02 if rng.random() < .8 else .4, .15)
    tok = pack(rng, ro)
    p = dict(plain, request=tok)
    via, m = c08.build(rng, p, rng.choice((oidc.AuthorizationRequest, oidc.OpenIDRequest)))
    expected = dict(ro, iss=jose.ISS1)
    if any(not plain.get(k) for k in ('response_type', 'client_id', 'scope', 'redirect_uri')):
        reason = 'plain request incomplete'
    elif (plain.get('display') or 'page') not in c08.DISPLAYS or any(x not in c08.PROMPTS for x in plain.get('prompt', [])):
        reason = 'plain request value'
    else:
        reason = c08.rules(expected)
    kw = {'keyjar': jose.rp_jar()}
    if rng.random() < .3:
        kw['nonce'] = ro['nonce'] if 'nonce' in ro and rng.random() < .6 else plain.get('nonce', 'other') + 'x'
        if reason is None:
            reason = c08.rules(expected, kw)
    run.note(plain=plain, request_object=ro, via=via, reason=reason)
    finish(run, m, kw, reason, expected, 'OIDC', via, plain, ro)


def finish(run, m, kw, reason, expected, what, via, plain, ro, names=None):
    if reason is not None:
        run.refuses('%s request (%s)' % (what, reason), m.verify, **kw)
        run.obs('refused', (what, reason, via))
        return
    run.expect(run.must('%s request with signed request object' % what, m.verify, **kw) is True, 'not accepted')
    got = content(m)
    for k in sorted(got):
        run.expect(k in expected or k == 'request', '%s: plain parameter %s=%r survived although not in the request object',
                   what, k, got[k])
    for k, v in expected.items():
        run.expect(k in got and got[k] == v, '%s: %s is %r, authoritative value is %r', what, k, got.get(k), v)
    v = m['__verified_request']
    for k, x in ro.items():
        run.expect(v.get(k) == x, '%s: verified request has %s=%r instead of %r', what, k, v.get(k), x)
    names = set(names or ro) | {'iss'}
    run.expect(set(v.keys()) == names, '%s: verified request has the parameters %r, the object had %r', what, sorted(v.keys()), sorted(names))
    run.obs('authoritative', (what, via, len(set(plain) & set(ro)), len(set(plain) - set(ro)), len(set(ro) - set(plain))))


def required_ok(p):
    return p.get('response_type') and p.get('client_id')


def jar(run, rng):
    plain, ro = objects(rng, .3, .15)
    p = dict(plain, request=pack(rng, ro))
    via, m = c08.build(rng, p, oauth2.JWTSecuredAuthorizationRequest)
    expected = dict(ro, iss=jose.ISS1)
    reason = None if required_ok(expected) else 'outcome incomplete'
    run.note(plain=plain, request_object=ro, via=via, reason=reason)
    # scope etc. of classes without prompt in their schema stay as received
    finish(run, m, {'keyjar': jose.rp_jar()}, reason, None if reason else as_received(m, expected, p), 'JAR', via, plain,
           {k: v for k, v in ro.items() if k in ('response_type', 'client_id', 'scope', 'redirect_uri', 'state')}, list(ro))


KNOWN2 = ('response_type', 'scope')


def as_received(m, expected, p):
    """Parameters outside the OAuth2 schema have no declared list type: only judge those of the schema and the rest by
    presence (their value is compared after splitting)."""
    class V:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return o == self.v or isinstance(self.v, list) and o == ' '.join(self.v) or \
                isinstance(self.v, int) and o == str(self.v)

        def __ne__(self, o):
            return not self == o

        def __repr__(self):
            return repr(self.v)
    return {k: v if k in ('response_type', 'client_id', 'scope', 'redirect_uri', 'state') else V(v)
            for k, v in expected.items()}


def par(run, rng):
    plain, ro = objects(rng, .3, .3)
    p = dict(plain, request=pack(rng, ro))
    via, m = c08.build(rng, p, oauth2.PushedAuthorizationRequest)
    expected = dict(plain)
    expected.update(ro)
    expected['iss'] = jose.ISS1
    reason = None if required_ok(expected) else 'outcome incomplete'
    run.note(plain=plain, request_object=ro, via=via, reason=reason)
    finish(run, m, {'keyjar': jose.rp_jar()}, reason, None if reason else as_received(m, expected, p), 'PAR', via, plain,
           {k: v for k, v in ro.items() if k in ('response_type', 'client_id', 'scope', 'redirect_uri', 'state')}, list(ro))
    if reason is None and rng.random() < .3:
        # without a request object the plain request is all there is, and must be complete
        via, m = c08.build(rng, plain, oauth2.PushedAuthorizationRequest)
        if required_ok(plain):
            run.expect(run.must('plain PAR', m.verify) is True, 'plain PAR not accepted')
        else:
            run.refuses('incomplete plain PAR', m.verify)
        run.obs('par_plain')


def merge(run, rng):
    plain, ro = objects(rng, .3, .3)
    cls = rng.choice((oauth2.AuthorizationRequest, oidc.AuthorizationRequest, oauth2.PushedAuthorizationRequest,
                      oauth2.JWTSecuredAuthorizationRequest))
    m, r = cls(**plain), rng.choice((cls, oauth2.AuthorizationRequest))(**ro)
    plain, ro2 = {k: m[k] for k in m}, {k: r[k] for k in r}
    how = rng.choice(('strict', 'default', 'lax', 'whitelist', 'whitelist', 'whitelist'))
    arg = r if rng.random() < .5 else dict(ro2)
    wl = rng.choice(([], (), None, set(), rng.sample(sorted(plain), rng.randint(0, len(plain))),
                     rng.sample(sorted(plain), rng.randint(0, len(plain))) + ['nope'], sorted(ro2)[:2]))
    if how == 'default':
        m.merge(arg)
        keep = set(ro2)
    elif how == 'whitelist':
        m.merge(arg, 'whitelist', wl)
        keep = set(wl or ())
    else:
        m.merge(arg, how)
        keep = set(plain) if how == 'lax' else set(ro2)
    exp = {k: v for k, v in plain.items() if k in keep}
    exp.update(ro2)
    run.note(plain=plain, request_object=ro2, how=how, whitelist=wl)
    got = {k: m[k] for k in m}
    run.expect(got == exp, '%s merge gave %r, expected %r', how, got, exp)
    run.expect({k: r[k] for k in r} == ro2, 'merge changed the request object')
    run.obs('merged', (how, len(plain), len(ro2), len(wl or ())))


TOGETHER = ('oidc', 'jar', 'par', 'merge')


def scenarios(run):
    run.rules.append('plain request x request object x merge policy, outcome compared key by key with a reference merge; '
                     'distinct = (message, delivery, overlap shape)')
    run.assumptions.append('the request object is signed by a key the key jar knows; unsigned request objects are out of scope')
    run.require(authoritative=400, refused=200, merged=300)
    return {'oidc': (oidc_request, 2000, 50000), 'jar': (jar, 800, 20000), 'par': (par, 800, 20000),
            'merge': (merge, 1200, 40000)}
