"""C20 provider configuration rules (OpenID Connect Discovery 3, 4.3)."""
from rv import gen, samples
from rv.checks import c14
from oidcmsg import oidc, oauth2

REQ = ['issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported',
       'id_token_signing_alg_values_supported']
CH = {0x21} | set(range(0x23, 0x5c)) | set(range(0x5d, 0x7f))


def rules(d, kw):
    for k in REQ:
        if not d.get(k):
            return 'missing ' + k
    if 'scopes_supported' in d:
        if 'openid' not in d['scopes_supported']:
            return 'openid scope'
        if any(ord(c) not in CH for s in d['scopes_supported'] for c in s):
            return 'scope characters'
    iss = d['issuer']
    if not kw.get('allow_http') and not iss.startswith('https://'):
        return 'scheme'
    if '?' in iss or '#' in iss:
        return 'issuer query/fragment'
    if 'RS256' not in d['id_token_signing_alg_values_supported']:
        return 'RS256'
    if any('code' in rt.split(' ') for rt in d['response_types_supported']) and 'token_endpoint' not in d:
        return 'token_endpoint'
    return None


RTS = ['code', 'id_token', 'token', 'id_token token', 'code id_token', 'code token', 'code id_token token', 'none']


def provider(run, rng):
    d, kw = samples.valid(rng, 'oidcmsg.oidc:ProviderConfigurationResponse', p=rng.choice((0, .1, .6)))
    b = lambda p=.1: rng.random() < p
    d['issuer'] = rng.choice(('https://op.example.org', 'https://op.example.org/tenant/a', 'https://localhost:8443', 'https://a'))
    if b(.15):
        d['issuer'] = rng.choice(('http://op.example.org', 'http://localhost', 'ftp://a', 'op.example.org', 'urn:x:y', '//op.example.org',
                                  'httpss://a', 'http://https://a', 'gopher://https', 'xhttps://a'))
    if b(.12):
        d['issuer'] += rng.choice(('?a=b', '#frag', '/?x', '/x#y', '?q#f', '/.well-known?z=1', '/#x', '/#/?', '/a/#f', '/?a=b', '/a/?b', '#/', ';p?q', '/;p#f'))
    d['response_types_supported'] = [' '.join(rng.sample(x.split(' '), x.count(' ') + 1)) for x in rng.sample(RTS, rng.randint(1, 4))]
    if b(.2):
        d.pop('token_endpoint', None)
    d['id_token_signing_alg_values_supported'] = rng.sample(['RS256', 'RS256', 'RS256', 'ES256', 'none', 'PS256', 'HS256', 'RS384', 'RS2567', 'rs256'],
                                                             rng.randint(3, 6))
    d.pop('scopes_supported', None)
    if b(.6):
        sc = ['openid'] + [gen.word(rng) for _ in range(rng.choice((0, 1, 2, 3, 8, 30)))]
        if b(.3):
            sc.append(''.join(chr(rng.choice(sorted(CH))) for _ in range(5)))
        if b(.3):
            w = gen.word(rng)
            i = rng.randint(0, len(w))
            sc.append(w[:i] + rng.choice((' ', '"', '\\', '\x7f', '\x00', '\n', '\t', '\u00e5', '\u0410', '\u2028', '\U0001f600', '\x1f', '\x80')) + w[i:])
        if b(.2):
            sc[0] = rng.choice(('openid2', 'Openid', 'open id', 'openi', 'xopenid'))
        rng.shuffle(sc)
        d['scopes_supported'] = sc
    if b(.15):
        d.pop(rng.choice(REQ))
    if b(.25):
        kw['allow_http'] = b(.5)
    reason = rules(d, kw)
    dflt = b(.5)
    via, m = c14.build(rng, oidc.ProviderConfigurationResponse, d, dflt)
    run.note(content=d, kw=kw, via=via, reason=reason)
    if reason:
        run.refuses('provider configuration (%s)' % reason, m.verify, **kw)
        run.obs('refused', (reason, via, tuple(kw)))
    else:
        run.expect(run.must('provider configuration', m.verify, **kw) is True, 'not accepted')
        run.obs('accepted', (via, 'scopes_supported' in d, tuple(kw.items()), d['issuer'][:5], tuple(sorted(d['response_types_supported']))))
        for k, v in d.items():
            run.expect(m[k] == v, 'verification changed %s', k)


def scopes(run, rng):
    """Every character, alone, in an otherwise good scope."""
    d, kw = samples.valid(rng, 'oidcmsg.oidc:ProviderConfigurationResponse', p=0)
    c = chr(rng.choice((rng.randint(1, 0x100), rng.randint(0x20, 0x7f), rng.randint(0x20, 0x7f), rng.randint(0x100, 0xd7ff))))
    d['scopes_supported'] = ['openid', rng.choice(('a%sb', '%s', '%sx', 'y%s', 'https://a.example/' + 'z' * 300 + '%s')) % c] + [
        gen.word(rng) for _ in range(rng.choice((0, 0, 1, 5, 20, 64, 200)))]
    rng.shuffle(d['scopes_supported'])
    m = oidc.ProviderConfigurationResponse(**d)
    run.note(scope=d['scopes_supported'])
    if ord(c) in CH:
        run.expect(run.must('scope with %r' % c, m.verify) is True, 'not accepted')
    else:
        run.refuses('scope with %r' % c, m.verify)
    run.obs('char', c)


TOGETHER = ('provider', 'scopes')


def scenarios(run):
    run.rules.append('provider metadata with independently drawn deviations against a rule table; distinct = (reason or shape, delivery)')
    run.require(accepted=600, refused=800, char=300)
    return {'provider': (provider, 3500, 100000), 'scopes': (scopes, 600, 10000)}
