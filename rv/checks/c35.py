"""C35 hostile sizes and depths: every input is dealt with in proportionate time and memory and ends in a result or an exception.

Each case runs in a forked child under a processor time limit; its monitor reports time, memory growth and outcome, and
whether an ordinary message still verifies afterwards."""
import json
import os
import random
import resource
import signal
import time
from urllib.parse import urlencode

import oidcmsg
from oidcmsg import message, oauth2, oidc, time_util
from oidcmsg.oidc import identity_assurance as ida
from oidcmsg.oidc import session
from oidcmsg.storage import abfile, absqlalchemy, converter, extension, utils
from rv import core, gen, jose, samples, store
from rv.checks import c36

STEP = 2.5          # seconds of processor time for one operation; the slowest takes a small part of it
SECONDS = 8         # processor time; the slowest case takes a small part of one second
HARD = 25
MEGABYTES = 700
PIECES = ['a', '1', ' ', '%', '%41', '+', '&', '=', 'a=b&', ';', '#', '/', './', '../', 'a/', '.', ':', '-', '\\', '"', '{', '[', ',', 'P', '1Y', '1D', 'T1H', '0',
          '00-', '2020-01-01T', 'Z', '+00:00', '.0', 'code ', 'openid ', '\u00e5', '\U0001f600', '\x00', 'e30.', '=\n', '__', '{issuer}', '%s', '{}', '//', 'https://']


def long_text(rng, n):
    a = rng.choice(PIECES)
    r = rng.random()
    if r < .4:
        s = a * (n // len(a))
    elif r < .7:
        s = rng.choice(PIECES) + a * (n // len(a)) + rng.choice(PIECES)
    else:
        p = ''.join(rng.choice(PIECES) for _ in range(rng.randint(2, 6)))
        s = p * (n // len(p))
    return rng.choice(('', 'P', '2020-01-01', 'https://a/', '{')) + s + rng.choice(('', '!', '\n', 'x', '"'))


def nest(rng, depth, leaf=1):
    kinds = rng.choice(('[', '{', '[{', 'claims'))
    k = rng.choice(('a', 'verification', 'evidence', 'claims', 'userinfo', 'values'))
    o, c = [], []
    for i in range(depth):
        x = kinds[i % len(kinds)] if kinds != 'claims' else '{'
        o.append('[' if x == '[' else '{"%s":' % k)
        c.append(']' if x == '[' else '}')
    return ''.join(o) + json.dumps(leaf) + ''.join(reversed(c))


def many(rng, n):
    r = rng.random()
    if r < .4:
        return [gen.word(rng) + str(i) for i in range(n)]
    if r < .7:
        return [rng.choice(('a', 'code', 'openid', ''))] * n
    return [long_text(rng, 50) for _ in range(n // 10)]


def object_of(rng, name, n):
    """JSON for the class in which one thing is large."""
    d, _ = samples.valid(rng, name) if name in samples.NAMES else (gen.full(rng, name), {})
    sch = gen.SCHEMA[name]['params']
    r = rng.random()
    k = rng.choice(sorted(sch)) if sch and rng.random() < .8 else 'x'
    if r < .35:
        d[k] = long_text(rng, n)
    elif r < .6:
        d[k] = many(rng, n // 5)
    elif r < .7:
        d[k] = {w: None for w in many(rng, n // 5)}
    elif r < .85:
        for i, w in enumerate(many(rng, n // 20)):
            d['%s%s%d' % (k, rng.choice(('#', '', '_')), i)] = w
    else:
        d[k] = '@@'
        return json.dumps(d).replace('"@@"', nest(rng, n // 10))
    return json.dumps(d)


def through(cls, txt, kw):
    m = cls().from_json(txt)
    for f in (lambda: m.verify(**kw), m.to_json, m.to_dict, m.to_urlencoded, lambda: m == m.copy(), m.extra, m.rm_blanks, m.weed, lambda: str(m)):
        try:
            f()
        except Exception:
            pass
    return len(m)


def back(m):
    m.to_urlencoded()
    return m.verify()


def job(rng):
    """(description, callable)"""
    n = rng.choice((20000, 200000))
    name = rng.choice(sorted(gen.SCHEMA))
    cls = gen.cls_of(name)
    kind = rng.choice(('json', 'json', 'json', 'json', 'form', 'form', 'token', 'token', 'claims', 'request', 'time', 'path', 'match', 'merge', 'config', 'error'))
    if kind == 'json':
        txt = object_of(rng, name, n)
        kw = {'keyjar': jose.rp_jar(), 'iss': jose.ISS1, 'client_id': jose.RP}
        return (kind, name), lambda: through(cls, txt, kw)
    if kind == 'form':
        k = rng.choice(sorted(gen.SCHEMA[name]['params']) or ['x'])
        r = rng.random()
        q = (long_text(rng, n) if r < .3 else '%s=%s' % (k, long_text(rng, n)) if r < .6 else
             '&'.join('%s%s=%s' % (k, rng.choice(('', '#x', i)), w) for i, w in enumerate(many(rng, n // 5))))
        return (kind, name), lambda: back(cls().from_urlencoded(q))
    if kind == 'token':
        n //= 2
        c = samples.idt(rng)
        r = rng.random()
        if r < .3:
            c['aud'] = many(rng, n // 5) + [jose.RP]
            c['azp'] = jose.RP
        elif r < .5:
            c[rng.choice(('x', 'nonce', 'acr'))] = long_text(rng, n)
        elif r < .6:
            c['x'] = many(rng, n // 5)
        tok = jose.sign(c, rng.choice(('ES256', 'RS256')))
        if r > .8:
            tok = rng.choice((tok + '.' * n, '.' * n, tok.replace('.', '.' + 'A' * n, 1), 'A' * n + '.' + tok, tok + 'A' * n, (tok + '.') * (n // len(tok)), long_text(rng, n),
                              jose.b64(nest(rng, n // 20).encode()) + '.e30.' if hasattr(jose, 'b64') else '.' * n))
        m = rng.choice((lambda: oidc.AuthorizationResponse(code='c', state='s', id_token=tok), lambda: oidc.AccessTokenResponse(access_token='a', token_type='b', id_token=tok),
                        lambda: session.EndSessionRequest(id_token_hint=tok), lambda: session.BackChannelLogoutRequest(logout_token=tok),
                        lambda: oidc.AuthorizationRequest(response_type='code', client_id='c', scope='openid', redirect_uri='https://a', request=tok)))
        kj = jose.rp_jar()
        return (kind,), lambda: m().verify(keyjar=kj, iss=jose.ISS1, client_id=jose.RP)
    if kind == 'claims':
        r = rng.random()
        body = nest(rng, rng.choice((50, 300, 900, 3000)), rng.choice((None, {}, 'x'))) if r < .5 else json.dumps({'verification': {'trust_framework': None}, 'claims': {w: None for w in many(rng, n // 5)}})
        c = rng.choice((ida.VerifiedClaimsRequest, ida.VerificationElementRequest, ida.IDAClaimsRequest, oidc.ClaimsRequest, ida.VerifiedClaims))
        if rng.random() < .5:
            body = '{"userinfo": {"verified_claims": %s}}' % body
        return (kind, c.__name__), lambda: through(c, body, {})
    if kind == 'request':
        d = {'response_type': ' '.join(many(rng, n // 5)) if rng.random() < .5 else 'code', 'client_id': 'c', 'redirect_uri': 'https://a.example', 'scope': ['openid'] + many(rng, n // 5)}
        if rng.random() < .5:
            d['prompt'] = rng.choice(('login ' * (n // 10), many(rng, n // 5)))
        return (kind,), lambda: back(oidc.AuthorizationRequest(**d))
    if kind == 'time':
        s = long_text(rng, n)
        f = rng.choice((time_util.parse_duration, time_util.str_to_time, lambda x: time_util.add_duration(time.gmtime(0), x), time_util.before, time_util.not_on_or_after,
                        ida.time_stamp_ser, lambda x: ida.time_stamp_ser(x, 'dict'), lambda x: oidc.OpenIDSchema(birthdate=x).verify()))
        return (kind,), lambda: f(s)
    if kind == 'path':
        s = long_text(rng, n)
        return (kind,), lambda: oidcmsg.proper_path(s)
    if kind == 'match':
        v = many(rng, n // 5)
        spec = rng.choice(({'values': v}, {'value': v}, {'values': [v]}, {'value': long_text(rng, n)}))
        return (kind,), lambda: oidc.claims_match(rng.choice((v, v[-1], list(v), 'x')), spec)
    if kind == 'merge':
        n //= 3
        a = oauth2.AuthorizationRequest(response_type='code', client_id='c', scope=many(rng, n // 5), **{'x%d' % i: 'y' for i in range(n // 20)})
        o = {'response_type': ['code'], 'client_id': 'c', 'scope': many(rng, n // 5), **{'x%d' % i: 'z' for i in range(0, n // 20, 2)}}
        t = rng.choice(('strict', 'lax', 'whitelist'))
        return (kind, t), lambda: a.merge(o, t, ['x%d' % i for i in range(n // 20)])
    if kind == 'config':
        c = {'a': {'file%d' % i: 'x/' * (i % 50) for i in range(n // 20)}, 'b': [{'file': 'x'}] * (n // 20)}
        for _ in range(rng.choice((1, 50, 300))):
            c = {'n': c}
        return (kind,), lambda: oidcmsg.add_base_path(c, {'a': ['file%d' % i for i in range(n // 20)]}, '/base')
    s = long_text(rng, n)
    return (kind,), lambda: oauth2.ResponseMessage(error=rng.choice(('invalid_request', s)), error_description=s, error_uri=s).verify()


def watched(run, what, fn, seed):
    """fn(random) in a child of its own, with the monitors."""
    def f():
        r = random.Random(seed)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (HARD, HARD + 5))
        m0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        go = fn(r)
        t0 = time.process_time()
        try:
            n = go()
            res = 'done'
        except Exception as e:
            n, res = 1, type(e).__name__
        t = time.process_time() - t0
        m = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - m0) / 1024
        x = oauth2.AuthorizationRequest(response_type='code', client_id='c', scope='a b')
        ok = x.verify() is not False and x['scope'] == ['a', 'b'] and x.to_dict()['client_id'] == 'c'
        return {'res': res, 'cpu': t, 'mb': m, 'ok': ok, 'step': LONGEST[0] or t, 'n': n if type(n) is int else 1}
    run.note(what=what, seed=seed)
    r = c36.child(f, 90)
    if 'died' in r:
        if os.WIFSIGNALED(r['died']):
            raise core.Violation('%r ended the process (signal %d; %d is running out of processor time)' % (what, os.WTERMSIG(r['died']), signal.SIGXCPU))
        raise core.Violation('%r ended in something that is no ordinary exception (status %r)' % (what, r['died']))
    run.expect(r['cpu'] < SECONDS, 'too much processor time (seconds)', what, r['cpu'])
    run.expect(r['step'] < STEP, 'one step takes too much processor time (seconds)', what, r['step'])
    run.expect(r['mb'] < MEGABYTES, 'too much memory (MB)', what, int(r['mb']))
    run.expect(r['ok'], 'an ordinary message does not verify afterwards', what)
    if os.environ.get('RV_SLOW') and r['cpu'] > .4:
        print('slow', what, round(r['cpu'], 2), round(r['step'], 2), int(r['mb']), r['res'])
    run.obs('outcome', (what, r['res']))
    run.counts['result:' + r['res']] += 1
    run.counts['centiseconds'] += int(r['cpu'] * 100)
    run.counts['max_centiseconds'] = max(run.counts['max_centiseconds'], int(r['cpu'] * 100))
    run.counts['max_step_centiseconds'] = max(run.counts['max_step_centiseconds'], int(r['step'] * 100))
    run.counts['max_mb'] = max(run.counts['max_mb'], int(r['mb']))
    return r


def sizes(run, rng):
    seed = rng.getrandbits(48)
    watched(run, job(random.Random(seed))[0], lambda r: job(r)[1], seed)


LONGEST = [0]       # of the steps of a case; each case has a process of its own


def quiet(*fs):
    n = 0
    for f in fs:
        t0 = time.process_time()
        try:
            f()
        except Exception:
            pass
        LONGEST[0] = max(LONGEST[0], time.process_time() - t0)
        n += 1
    return n


def all_of(make, kw, r):
    """Some of what one does with a message."""
    t0 = time.process_time()
    m = make()
    LONGEST[0] = time.process_time() - t0
    return quiet(*r.sample(ways(m, kw), 7))


def ways(m, kw):
    return [lambda: m.verify(**kw), m.to_json, m.to_dict, m.to_urlencoded, m.copy, m.extra, m.only_extras, lambda: m == m, lambda: str(m), lambda: m.update(dict(m.items())),
            lambda: type(m)().from_dict(m.to_dict()), lambda: type(m)().from_json(m.to_json()), lambda: type(m)().from_urlencoded(m.to_urlencoded()),
            lambda: type(m)(**m.to_dict()), lambda: m.copy().weed(), lambda: m.rm_blanks(), lambda: [m.get(k) for k in list(m.keys())], lambda: m.weed()]


def one_thing(rng, name, dim, k, n):
    """An object of the class with exactly one thing large."""
    d, _ = samples.valid(rng, name) if name in samples.NAMES else (gen.full(rng, name), {})
    if dim == 'extras':
        d.update({'x%d' % i: 'y' for i in range(n)})
    elif dim == 'nulls':
        d.update({'x%d' % i: None for i in range(n)})
    elif dim == 'labels':
        d.update({'%s#l%d' % (k, i): 'y' for i in range(n)})
    elif dim == 'list':
        v = d.get(k)
        v = v[0] if isinstance(v, list) and v else v if v else 'a'
        d[k] = [v if i % 2 and len(str(v)) < 50 else 'w%d' % i for i in range(n)]
    elif dim == 'same':
        v = d.get(k)
        v = v[0] if isinstance(v, list) and v else v if v else 'a'
        d[k] = [v] * min(n, 800000 // (len(json.dumps(v)) + 1))
    elif dim == 'objects':
        v = d.get(k)
        v = v[0] if isinstance(v, list) and v else v
        v = v if isinstance(v, dict) else {'a': 'b'}
        d[k] = [v] * min(n // 8, 500000 // (len(json.dumps(v)) + 1))
    elif dim == 'object':
        d[k] = {'x%d' % i: 'y' for i in range(n)}
    elif dim == 'words':
        d[k] = ' '.join('w%d' % i for i in range(n))
    else:
        d[k] = rng.choice(('a', '1', '/', 'https://a.example/', 'code')) * (n * 5)
    return d


DIMS = ('extras', 'nulls', 'labels', 'list', 'list', 'same', 'objects', 'objects', 'object', 'words', 'text', 'text')


def each(run, rng):
    """One parameter of one class, large in one way."""
    name = rng.choice(sorted(gen.SCHEMA))
    ps = gen.SCHEMA[name]['params']
    k = rng.choice(sorted(ps) or ['x'])
    dim = rng.choice(DIMS)
    lists = sorted(p for p in ps if 'list' in str(ps[p]))
    if dim in ('list', 'same', 'objects', 'words') and lists and rng.random() < .7:
        k = rng.choice(lists)
    n = rng.choice((30000, 60000)) if dim not in ('extras', 'labels', 'nulls') else 40000
    kw = {'keyjar': jose.rp_jar(), 'iss': jose.ISS1, 'client_id': jose.RP}
    cls = gen.cls_of(name)
    way = rng.choice(('json', 'dict', 'args', 'form'))

    def fn(r):
        d = one_thing(r, name, dim, k, n)
        if way == 'json':
            txt = json.dumps(d)
            return lambda: all_of(lambda: cls().from_json(txt), kw, r)
        if way == 'args':
            return lambda: all_of(lambda: cls(**d), kw, r)
        if way == 'dict':
            return lambda: all_of(lambda: cls().from_dict(d), kw, r)
        q = urlencode([(a, b if not isinstance(b, (dict, list)) else json.dumps(b) if dim != 'words' else ' '.join(map(str, b))) for a, b in d.items()])
        return lambda: all_of(lambda: cls().from_urlencoded(q), kw, r)
    watched(run, (dim, name, k, way), fn, rng.getrandbits(48))


def verify(cls, **kw):
    return lambda s: cls(**{k: (s if v is Ellipsis else v) for k, v in kw.items()}).verify()


def text_functions():
    E = Ellipsis
    return {
        'parse_duration': time_util.parse_duration, 'str_to_time': time_util.str_to_time, 'before': time_util.before, 'not_on_or_after': time_util.not_on_or_after,
        'valid': time_util.valid, 'later_than': lambda s: time_util.later_than(s, '2020-01-01T00:00:00Z'), 'add_duration': lambda s: time_util.add_duration(time.gmtime(0), s),
        'time_stamp': ida.time_stamp_ser, 'time_stamp_dict': lambda s: ida.time_stamp_ser(s, 'dict'), 'birthdate': verify(oidc.OpenIDSchema, sub='s', birthdate=E),
        'proper_path': oidcmsg.proper_path, 'base_path': lambda s: oidcmsg.add_base_path({'a': s}, {'': ['a']}, s),
        'scopes_supported': lambda s: oidc.ProviderConfigurationResponse(issuer='https://a', scopes_supported=['openid', s], authorization_endpoint='https://a', jwks_uri='https://a',
                                                                         response_types_supported=['code'], subject_types_supported=['public'], token_endpoint='https://a',
                                                                         id_token_signing_alg_values_supported=['RS256']).verify(),
        'issuer': lambda s: oidc.ProviderConfigurationResponse(issuer=s, authorization_endpoint='https://a', jwks_uri='https://a', response_types_supported=['code'],
                                                               subject_types_supported=['public'], token_endpoint='https://a', id_token_signing_alg_values_supported=['RS256']).verify(),
        'error': verify(oauth2.ResponseMessage, error=E), 'error_description': verify(oauth2.ResponseMessage, error='invalid_request', error_description=E),
        'scope': verify(oidc.AuthorizationRequest, response_type='code', client_id='c', redirect_uri='https://a', scope=E),
        'prompt': verify(oidc.AuthorizationRequest, response_type='code', client_id='c', redirect_uri='https://a', scope='openid', prompt=E),
        'response_type': verify(oidc.AuthorizationRequest, response_type=E, client_id='c', redirect_uri='https://a', scope='openid', nonce='n'),
        'login_uri': verify(oidc.RegistrationRequest, redirect_uris=['https://a'], initiate_login_uri=E), 'redirect_uris': verify(oidc.RegistrationRequest, redirect_uris=E),
        'request': verify(oidc.AuthorizationRequest, response_type='code', client_id='c', redirect_uri='https://a', scope='openid', request=E),
        'id_token_hint': verify(session.EndSessionRequest, id_token_hint=E), 'logout_token': verify(session.BackChannelLogoutRequest, logout_token=E),
        'purpose': lambda s: ida.VerifiedClaimsRequest(verification={'trust_framework': {'purpose': s}}, claims={'name': None}).verify(),
        'from_urlencoded': lambda s: oidc.AuthorizationRequest().from_urlencoded(s), 'from_json': lambda s: oidc.AuthorizationRequest().from_json(s),
        'from_jwt': lambda s: oidc.IdToken().from_jwt(s), 'claims_match': lambda s: oidc.claims_match(s, {'value': s, 'values': [s]}),
        'qp_key': lambda s: converter.QPKey().deserialize(converter.QPKey().serialize(s)), 'modsplit': lambda s: utils.modsplit(s),
        'factory': lambda s: oidc.factory(s), 'lang': lambda s: oidc.OpenIDSchema(**{'name#' + s: 'x', 'name': s}).to_urlencoded(),
        'link': lambda s: oidc.JRD(subject=s, links=[{'rel': s}]).verify(), 'address': lambda s: oidc.AddressClaim(formatted=s, street_address=s).to_json(),
    }


HEADS = ('', 'P', 'P1Y', '-P', '2020-01-01', '2020-01-01T00:00:00', '2020-01-01T00:00:00.', 'https://', 'https://a/', '1', '2020', '{', 'openid ', 'a=', 'e30.')
ENDS = ('', '!', 'xY', 'Y', 'S', 'Z', 'T', 'M', 'x', '\n', '"')


def words(run, rng):
    """Functions that take text: texts of every piece, with every head and end, and some long ones."""
    fs = text_functions()
    ks = rng.sample(sorted(fs), 4)

    def fn(r):
        ts = [h + a * (r.choice((40, 200, 200, 200, 2500)) // len(a)) + e for h in HEADS for a in PIECES for e in r.sample(ENDS, 4)]
        for a in r.sample(PIECES, 3) + ['w', '/']:
            ts.append(r.choice(HEADS) + a * (300000 // len(a)) + r.choice(ENDS))
        return lambda: quiet(*[lambda t=t, k=k: fs[k](t) for k in ks for t in ts])
    r = watched(run, ('words', *ks), fn, rng.getrandbits(48))
    run.obs('texts', None, r['n'])


def stores(run, rng):
    """Many keys, long values and deep configurations."""
    n = 30000
    kind = rng.choice(('labelled', 'file', 'sql', 'config', 'factory'))

    def fn(r):
        if kind == 'labelled':
            s = extension.LabeledDict(r.choice(('a', '', 'x' * 5000)))
            return lambda: quiet(lambda: [s.__setitem__('k%d' % i, i) for i in range(n)], lambda: len(list(s.keys())), lambda: list(s.items()), lambda: [s['k%d' % i] for i in range(0, n, 3)],
                                 lambda: s.update({'j%d' % i: i for i in range(n)}), lambda: len(s), lambda: [s.__delitem__('k%d' % i) for i in range(n)])
        if kind == 'file':
            d = store.scratch()
            s = abfile.AbstractFileSystem({'fdir': d, 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': 'oidcmsg.storage.converter.JSON'})

            def go():
                try:
                    return quiet(lambda: [s.__setitem__('k%d' % i, 'v' * 100000 if i < 20 else i) for i in range(150)], lambda: list(s.keys()), lambda: list(s.items()),
                                 lambda: [s['k%d' % i] for i in range(150)], lambda: s.update({'j%d' % i: i for i in range(50)}), lambda: len(s), s.synch, s.clear)
                finally:
                    store.drop(d)
            return go
        if kind == 'sql':
            d = store.scratch()

            def go():
                try:
                    s = absqlalchemy.AbstractStorageSQLAlchemy({'url': 'sqlite:///%s/x.db' % d})
                    return quiet(lambda: [s.set('k%d' % i, 'v' * 100000) for i in range(30)], lambda: list(s()), lambda: [s.get('k%d' % i) for i in range(30)], lambda: str(s), s.flush)
                finally:
                    store.drop(d)
            return go
        if kind == 'config':
            c = {'a': {'file%d' % i: 'x/%d' % i for i in range(n)}, 'b': 'x' * 100000}
            return lambda: quiet(lambda: oidcmsg.add_base_path(c, {'a': ['file%d' % i for i in range(n)], 'b': None, '': ['b']}, '/base/'))
        return lambda: quiet(*[lambda i=i: m.factory('Nope%d' % i) for i in range(60) for m in (oauth2, oidc, ida, session) if hasattr(m, 'factory')])
    watched(run, ('stores', kind), fn, rng.getrandbits(48))


def scenarios(run):
    run.rules.append('large and deep inputs (to 100000 characters, 10000 items, 10000 levels) for every entry point; distinct = (entry, class, outcome)')
    run.assumptions += ['the limits (%d s of processor time, %d MB) are an order of magnitude above what the cases take' % (SECONDS, MEGABYTES),
                        'compressed content inside encryption is up to cryptojwt and not used']
    run.require(outcome=300, texts=10000)
    return {'sizes': (sizes, 220, 8000), 'each': (each, 160, 6000), 'words': (words, 45, 700), 'stores': (stores, 14, 150)}
