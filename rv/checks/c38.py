"""C38 whole protocol runs: honest parties understand each other; what belongs to another run or party is refused.

OP, RP and an attacker, all made of the library's classes, talk through texts (URLs, form bodies, JSON, tokens).  Several
runs are interleaved; in some of them one message is replaced on its way, and the party that relies on it has to notice."""
import json
import time
from urllib.parse import parse_qs, urlsplit

from cryptojwt import KeyJar

from rv import core, gen, jose
from rv.checks.c12 import plain
from oidcmsg import oauth2, oidc
from oidcmsg.oidc import make_openid_request, session

TYPES = (['code'], ['id_token'], ['id_token', 'token'], ['code', 'id_token'], ['code', 'token'], ['code', 'id_token', 'token'])
EVENT = 'http://schemas.openid.net/event/backchannel-logout'
VER = '__verified_'


def publish(cls, params):
    return cls(**params).to_json()


class World:
    """Who knows which keys.  Everything passes as text."""
    def __init__(self, run, rng):
        self.run, self.rng = run, rng
        self.alg = rng.choice(jose.ASYM)
        self.req_alg = rng.choice([a for a in jose.ASYM if a not in ('ES384', 'ES512')])
        self.meta = {}
        self.users = [gen.word(rng) + str(i) for i in range(rng.choice((1, 2, 5)))]
        self.rp = KeyJar()
        self.rp.import_jwks(jose.jwks('rp', True), '')
        self.rp.import_jwks(jose.jwks('rp', True), jose.RP)
        for who, iss in (('iss1', jose.ISS1), ('iss2', jose.ISS2)):
            txt = publish(oidc.ProviderConfigurationResponse, {
                'issuer': iss, 'authorization_endpoint': iss + '/authz', 'token_endpoint': iss + '/token', 'jwks_uri': iss + '/jwks', 'end_session_endpoint': iss + '/end',
                'response_types_supported': [' '.join(t) for t in TYPES], 'subject_types_supported': ['public'], 'scopes_supported': ['openid', 'email', 'offline_access'],
                'id_token_signing_alg_values_supported': sorted({'RS256', self.alg})})
            m = oidc.ProviderConfigurationResponse().from_json(txt)
            run.expect(run.must('verifying the configuration', m.verify) is not False, 'the configuration is not accepted')
            run.expect(m['issuer'] == iss and m['token_endpoint'] == iss + '/token' and m['response_types_supported'] == [' '.join(t) for t in TYPES], 'the configuration is read as %r', m.to_dict())
            self.meta[iss] = m
            self.rp.import_jwks(json.loads(json.dumps(self.public(who))), iss)
        self.op = KeyJar()
        self.op.import_jwks(jose.jwks('iss1', True), '')
        self.op.import_jwks(jose.jwks('iss1', True), jose.ISS1)
        self.clients = {}
        for c, who in ((jose.RP, 'rp'), ('client_evil', 'evil')):
            self.clients[c] = self.register(c)
            self.op.import_jwks(json.loads(json.dumps(self.public(who))), c)

    def public(self, who):
        return {'keys': [k for k in jose.jwks(who)['keys'] if k['kty'] != 'oct' and k.get('use') != 'enc']}

    def register(self, cid):
        run, rng = self.run, self.rng
        d = {'redirect_uris': ['https://%s.example.com/cb%d' % (cid.replace('_', '-'), i) for i in range(rng.randint(1, 3))], 'client_name': gen.text(rng), 'response_types': [' '.join(t) for t in TYPES],
             'contacts': [gen.word(rng) + '@example.com'], 'client_name#' + rng.choice(gen.LANGS): gen.text(rng), 'post_logout_redirect_uris': ['https://%s/out' % cid.replace('_', '-')]}
        m = oidc.RegistrationRequest().from_json(publish(oidc.RegistrationRequest, d))
        run.expect(run.must('verifying the registration', m.verify) is not False, 'the registration is not accepted')
        for k, v in d.items():
            run.expect(plain(m.get(k)) == v, 'registration: %s is read as %r, sent %r', k, m.get(k), v)
        r = oidc.RegistrationResponse(**dict(d, client_id=cid, client_secret=gen.word(rng) + 'x' * 20, client_secret_expires_at=int(time.time()) + 3600))
        got = oidc.RegistrationResponse().from_json(r.to_json())
        run.expect(run.must('verifying the registration response', got.verify) is not False, 'the registration response is not accepted')
        run.expect(got['client_id'] == cid and got['redirect_uris'] == d['redirect_uris'], 'registered as %r', got.to_dict())
        return got


class Session:
    """One run of one client at one OP."""
    n = 0

    def __init__(self, w, cid=jose.RP, iss=jose.ISS1, who='iss1', rtype=None):
        rng = w.rng
        Session.n += 1
        self.w, self.cid, self.iss, self.who = w, cid, iss, who
        self.type = rtype or rng.choice(TYPES)
        self.state, self.nonce = gen.word(rng) + 's%d' % Session.n, gen.word(rng) + 'n%d' % Session.n
        self.code, self.token, self.token2 = gen.text(rng) + 'c%d' % Session.n, gen.word(rng) + 't%d' % Session.n, gen.word(rng) + 'u%d' % Session.n
        self.sub = rng.choice(w.users)
        self.sid = 'sid%d' % Session.n
        self.redirect = rng.choice(w.clients[cid]['redirect_uris']) + rng.choice(('', '?a=b'))
        self.scope = ['openid'] + [s for s in ('email', 'offline_access') if rng.random() < .5]
        self.max_age = rng.choice((None, 0, 3600))
        self.acr = rng.choice((None, ['1', '2']))
        self.claims = rng.choice((None, {'userinfo': {'email': {'essential': True}}, 'id_token': {'auth_time': None, 'acr': {'values': ['1']}}}))

    def id_token(self, code=None, token=None, **over):
        """As the OP issues it."""
        c = {'iss': self.iss, 'sub': self.sub, 'aud': [self.cid], 'exp': int(time.time()) + 300, 'nonce': self.nonce, 'sid': self.sid, 'auth_time': int(time.time()) - 5}
        if self.w.rng.random() < .5:
            c['jti'] = gen.word(self.w.rng)
        c.update(over)
        c = {k: v for k, v in c.items() if v is not None}
        if code:
            c['code'] = code
        if token:
            c['access_token'] = token
        return oidc.IdToken(**c).to_jwt([jose.key(over.get('signer', self.who), self.w.alg)], self.w.alg)

    # ---- the messages, as text -----------------------------------------------------------------------
    def request(self):
        rng, w = self.w.rng, self.w
        d = {'response_type': self.type, 'client_id': self.cid, 'redirect_uri': self.redirect, 'scope': self.scope, 'state': self.state, 'nonce': self.nonce}
        if self.max_age is not None:
            d['max_age'] = self.max_age
        if self.acr:
            d['acr_values'] = self.acr
        if self.claims:
            d['claims'] = self.claims
        if 'offline_access' in self.scope:
            d['prompt'] = ['consent']
        self.sent = d
        self.signed = rng.random() < .4
        m = oidc.AuthorizationRequest(**d)
        if self.signed:
            jwt = make_openid_request(m, w.rp, self.cid, w.req_alg, self.iss) if self.cid == jose.RP else jose.sign(m.to_dict(), w.req_alg, 'evil')
            m = oidc.AuthorizationRequest(**dict({k: v for k, v in d.items() if k in ('response_type', 'client_id', 'scope', 'redirect_uri')}, request=jwt))
        return m.request(self.iss + '/authz')

    def response(self, id_token=None):
        d = {'state': self.state}
        if 'code' in self.type:
            d['code'] = self.code
        if 'token' in self.type:
            d.update(access_token=self.token, token_type='Bearer', expires_in=600, scope=self.scope)
        if 'id_token' in self.type:
            d['id_token'] = id_token or self.id_token(d.get('code'), d.get('access_token'))
        if self.w.rng.random() < .5:
            d.update(iss=self.iss, client_id=self.cid)
        self.said = d
        return self.deliver(d)

    def deliver(self, d):
        return oidc.AuthorizationResponse(**d).request(self.redirect, self.type != ['code'])

    def expectation(self):
        return dict(keyjar=self.w.rp, iss=self.iss, client_id=self.cid, nonce=self.nonce)


def query(url, fragment):
    p = urlsplit(url)
    return p.fragment if fragment else p.query


def read_request(w, url, s):
    """The OP's side."""
    run = w.run
    m = oidc.AuthorizationRequest().from_urlencoded(query(url, False))
    run.expect(run.must('verifying the request', m.verify, keyjar=w.op, opponent_id=s.cid) is not False, 'an honest request is not accepted')
    for k, v in s.sent.items():
        got = m.get(k)
        got = plain(got.to_dict()) if hasattr(got, 'to_dict') else got
        if k == 'max_age':
            got, v = str(got), str(v)
        run.expect(got == v, 'request: %s is read as %r, sent %r', k, got, v)
    run.obs('request_read', (tuple(s.type), s.signed, tuple(sorted(s.sent))))


def read_response(w, url, s, said=None):
    """The RP's side; the message."""
    m = oidc.AuthorizationResponse().from_urlencoded(query(url, s.type != ['code']))
    return m


def accept(w, url, s):
    run = w.run
    m = read_response(w, url, s)
    run.expect(run.must('verifying the response', m.verify, **s.expectation()) is not False, 'an honest response is not accepted (%s)', s.type)
    for k, v in s.said.items():
        run.expect(str(m.get(k)) == str(v), 'response: %s is read as %r, sent %r', k, m.get(k), v)
    if 'id_token' in s.type:
        idt = m[VER + 'id_token']
        run.expect((idt['sub'], idt['iss'], idt['nonce'], idt['aud'], idt['sid']) == (s.sub, s.iss, s.nonce, [s.cid], s.sid), 'the ID Token is read as %r', idt.to_dict())
    run.obs('response_read', (tuple(s.type), 'iss' in s.said))


def token_step(w, s, wrong=None):
    """Token request with client assertion, token response."""
    run, rng = w.run, w.rng
    ep = s.iss + '/token'
    at = oidc.AuthnToken(iss=s.cid, sub=s.cid, aud=[ep], jti=gen.word(rng), exp=int(time.time()) + 60, iat=int(time.time())).to_jwt([jose.key('rp', w.req_alg)], w.req_alg)
    q = oidc.AccessTokenRequest(grant_type='authorization_code', code=s.code, redirect_uri=s.redirect, client_id=s.cid, client_assertion=at,
                                client_assertion_type='urn:ietf:params:oauth:client-assertion-type:jwt-bearer').to_urlencoded()
    m = oidc.AccessTokenRequest().from_urlencoded(q)
    run.expect(run.must('verifying the token request', m.verify) is not False, 'an honest token request is not accepted')
    run.expect((m['code'], m['redirect_uri'], m['client_id']) == (s.code, s.redirect, s.cid), 'token request: read %r', m.to_dict())
    a = run.must('reading the assertion', oidc.AuthnToken().from_jwt, m['client_assertion'], keyjar=w.op)
    run.expect(run.must('verifying the assertion', a.verify, iss=s.cid, aud=ep) is not False and a['sub'] == s.cid, 'the assertion says %r', a.to_dict())
    run.obs('assertion', w.req_alg)
    idt = s.id_token(token=s.token2 if rng.random() < .5 else None)
    d = {'access_token': s.token2, 'token_type': 'Bearer', 'expires_in': 300, 'id_token': idt, 'scope': s.scope, 'refresh_token': gen.word(rng)}
    r = oidc.AccessTokenResponse().from_json(oidc.AccessTokenResponse(**d).to_json())
    run.expect(run.must('verifying the token response', r.verify, **s.expectation()) is not False, 'an honest token response is not accepted')
    run.expect(all(r[k] == v for k, v in d.items()), 'token response: read %r, sent %r', r.to_dict(), d)
    run.expect(r[VER + 'id_token']['sub'] == s.sub, 'the ID Token is read as %r', r[VER + 'id_token'].to_dict())
    u = oidc.OpenIDSchema().from_json(oidc.OpenIDSchema(sub=s.sub, email='a@b.c', email_verified=False, **{'name#sv': '\u00e5'}).to_json())
    run.expect(run.must('verifying user info', u.verify) is not False and u.to_dict() == {'sub': s.sub, 'email': 'a@b.c', 'email_verified': False, 'name#sv': '\u00e5'}, 'user info: read %r', u.to_dict())
    run.obs('token_step', (w.alg, tuple(s.scope)))
    return idt


def logout_step(w, s, idt):
    run, rng = w.run, w.rng
    m = session.EndSessionRequest().from_urlencoded(session.EndSessionRequest(id_token_hint=idt, post_logout_redirect_uri='https://x/out', state=s.state).to_urlencoded())
    if s.iss == jose.ISS1:
        run.expect(run.must('verifying the end of the session', m.verify, keyjar=w.op, iss=s.iss) is not False, 'an honest end-session request is not accepted')
        run.expect(m[VER + 'id_token_hint']['sub'] == s.sub and m['state'] == s.state, 'end of session: read %r', m.to_dict())
    b = session.BackChannelLogoutRequest().from_urlencoded(session.BackChannelLogoutRequest(logout_token=logout_token(w, s)).to_urlencoded())
    run.expect(run.must('verifying the logout', b.verify, keyjar=w.rp, iss=s.iss, aud=s.cid) is not False, 'an honest logout token is not accepted')
    run.expect((b[VER + 'logout_token']['sub'], b[VER + 'logout_token']['sid']) == (s.sub, s.sid), 'logout: read %r', b[VER + 'logout_token'].to_dict())
    run.obs('logout', w.alg)


def logout_token(w, s, signer=None, **over):
    c = {'iss': s.iss, 'sub': s.sub, 'aud': [s.cid], 'sid': s.sid, 'iat': int(time.time()), 'jti': gen.word(w.rng), 'events': {EVENT: {}}}
    c.update(over)
    return jose.sign({k: v for k, v in c.items() if v is not None}, w.alg, signer or s.who)


def other_claims(w, s, o):
    return {'sub': o.sub, 'nonce': s.nonce, 'iss': s.iss, 'aud': [s.cid], 'exp': int(time.time()) + 300, 'iat': int(time.time())}


def attack_response(w, s, o, evil, foreign):
    """(name, url): the response of s with one thing replaced.  o: another run of the RP at the same OP, evil: a run of the
    attacker's client there, foreign: a run of the RP at the attacker's OP."""
    rng = w.rng
    d = s.said
    opts = []
    if 'id_token' in d:
        opts += [('another run', dict(d, id_token=o.id_token(d.get('code'), d.get('access_token')))),
                 ('another client', dict(d, id_token=evil.id_token(d.get('code'), d.get('access_token'), nonce=s.nonce))),
                 ('another issuer', dict(d, id_token=foreign.id_token(d.get('code'), d.get('access_token'), nonce=s.nonce))),
                 ('other keys', dict(d, id_token=jose.sign(dict(other_claims(w, s, o), **hashes(w, d)), w.alg, 'evil'))),
                 ('keys of the other OP', dict(d, id_token=jose.sign(dict(other_claims(w, s, o), **hashes(w, d)), w.alg, 'iss2'))),
                 ('unsigned', dict(d, id_token=jose.unsigned(dict(other_claims(w, s, o), **hashes(w, d))))),
                 ('logout token', dict(d, id_token=logout_token(w, s))),
                 ('expired', dict(d, id_token=jose.sign(dict(other_claims(w, s, o), exp=int(time.time()) - 100, iat=int(time.time()) - 500, **hashes(w, d)), w.alg, s.who))),
                 ('signed by the client', dict(d, id_token=jose.sign(dict(other_claims(w, s, o), **hashes(w, d)), w.alg, 'rp')))]
        if 'code' in d:
            opts += [('another code', dict(d, code=rng.choice((o.code, evil.code, gen.near(rng, s.code) or 'x'))))] * 2
        if 'access_token' in d:
            opts += [('another access token', dict(d, access_token=rng.choice((o.token, evil.token, gen.near(rng, s.token) or 'x'))))] * 2
    opts += [('mix-up: issuer', dict(d, iss=foreign.iss, client_id=s.cid)), ('mix-up: client', dict(d, iss=s.iss, client_id=evil.cid))]
    name, x = rng.choice(opts)
    if any(x.get(k) != d.get(k) and not x.get(k) for k in d):
        raise core.Skip()
    return name, s.deliver(x)


def hashes(w, d):
    out = {}
    if 'code' in d:
        out['c_hash'] = jose.left_hash(d['code'], w.alg)
    if 'access_token' in d:
        out['at_hash'] = jose.left_hash(d['access_token'], w.alg)
    return out


def attack_token(w, s, o, evil, foreign):
    rng = w.rng
    good = {'access_token': s.token2, 'token_type': 'Bearer', 'expires_in': 300}
    name, tok = rng.choice((('another run', lambda: o.id_token()), ('another client', lambda: evil.id_token(nonce=s.nonce)), ('another issuer', lambda: foreign.id_token(nonce=s.nonce)),
                            ('other keys', lambda: jose.sign(other_claims(w, s, o), w.alg, 'evil')), ('unsigned', lambda: jose.unsigned(other_claims(w, s, o))),
                            ('logout token', lambda: logout_token(w, s)), ('another audience', lambda: s.id_token(aud=[evil.cid, 'x'])),
                            ('authorized for another', lambda: s.id_token(aud=[s.cid, evil.cid], azp=evil.cid)), ('cut', lambda: s.id_token()[:-3])))
    txt = oidc.AccessTokenResponse(**dict(good, id_token=tok())).to_json()
    return name, lambda: oidc.AccessTokenResponse().from_json(txt).verify(**s.expectation())


def attack_request(w, s, o, evil):
    """At the OP: a request object that is not the client's."""
    rng = w.rng
    d = dict(s.sent, redirect_uri='https://evil.example.com/cb')
    name, jwt = rng.choice((('other keys', lambda: jose.sign(d, w.req_alg, 'evil', kid=jose.kid_for('rp', w.req_alg))), ('OP key', lambda: jose.sign(d, w.req_alg, 'iss2')),
                            ('changed', lambda: swap_payload(jose.sign(dict(s.sent, iss=s.cid), w.req_alg, 'rp'), d))))
    url = oidc.AuthorizationRequest(response_type=s.type, client_id=s.cid, scope=s.scope, redirect_uri=s.redirect, request=jwt()).request(s.iss + '/authz')
    return name, lambda: oidc.AuthorizationRequest().from_urlencoded(query(url, False)).verify(keyjar=w.op, opponent_id=s.cid)


def swap_payload(tok, claims):
    h, _, sig = tok.split('.')
    return '.'.join((h, jose.b64(json.dumps(claims).encode()), sig))


def attack_assertion(w, s, o, evil):
    now = int(time.time())
    ep = s.iss + '/token'
    c = {'iss': s.cid, 'sub': s.cid, 'aud': [ep], 'jti': 'j', 'exp': now + 60, 'iat': now}
    name, tok = w.rng.choice((('by another client', lambda: jose.sign(c, w.req_alg, 'evil')), ('of another client', lambda: jose.sign(dict(c, iss=evil.cid), w.req_alg, 'evil')),
                              ('for another OP', lambda: jose.sign(dict(c, aud=[jose.ISS2 + '/token']), w.req_alg, 'rp')), ('expired', lambda: jose.sign(dict(c, exp=now - 5), w.req_alg, 'rp')),
                              ('unsigned', lambda: jose.unsigned(c))))

    def go():
        a = oidc.AuthnToken().from_jwt(tok(), keyjar=w.op, sigalg=w.req_alg)
        return a.verify(iss=s.cid, aud=ep)
    return name, go


def attack_logout(w, s, o, evil, foreign):
    rng = w.rng
    name, tok = rng.choice((('of another client', lambda: logout_token(w, s, aud=[evil.cid])), ('of another issuer', lambda: logout_token(w, foreign)), ('other keys', lambda: logout_token(w, s, 'evil')),
                            ('ID Token', lambda: s.id_token()), ('ID Token without nonce', lambda: s.id_token(nonce=None)), ('with nonce', lambda: logout_token(w, s, nonce=s.nonce)), ('no event', lambda: logout_token(w, s, events={'x': {}})),
                            ('nobody', lambda: logout_token(w, s, sub=None, sid=None)), ('unsigned', lambda: jose.unsigned({'iss': s.iss, 'sub': s.sub, 'aud': [s.cid], 'iat': int(time.time()), 'jti': 'j', 'events': {EVENT: {}}}))))
    q = session.BackChannelLogoutRequest(logout_token=tok()).to_urlencoded()
    return name, lambda: session.BackChannelLogoutRequest().from_urlencoded(q).verify(keyjar=w.rp, iss=s.iss, aud=s.cid)


def attack_hint(w, s, o, evil, foreign):
    name, tok = w.rng.choice((('of another issuer', lambda: foreign.id_token()), ('other keys', lambda: jose.sign(other_claims(w, s, o), w.alg, 'evil')), ('by a client', lambda: jose.sign(other_claims(w, s, o), w.alg, 'rp')),
                              ('unsigned', lambda: jose.unsigned(other_claims(w, s, o)))))
    q = session.EndSessionRequest(id_token_hint=tok()).to_urlencoded()
    return name, lambda: session.EndSessionRequest().from_urlencoded(q).verify(keyjar=w.op, iss=s.iss)


def runs(run, rng):
    w = World(run, rng)
    ss = [Session(w) for _ in range(rng.choice((2, 2, 3)))]
    if rng.random() < .4:
        ss.append(Session(w, iss=jose.ISS2, who='iss2'))
    evil, foreign = Session(w, 'client_evil'), Session(w, iss=jose.ISS2, who='iss2')
    steps = {s: ['request', 'response', 'token', 'logout'] for s in ss}
    url, idts = {}, {}
    run.note(alg=w.alg, types=[s.type for s in ss])
    while any(steps.values()):
        s = rng.choice([s for s in ss if steps[s]])
        o = rng.choice([x for x in ss if x is not s])
        step = steps[s].pop(0)
        attacked = s.iss == jose.ISS1 and rng.random() < .45
        if step == 'request':
            url[s] = s.request()
            if s.iss == jose.ISS1:
                if attacked:
                    name, go = attack_request(w, s, o, evil)
                    run.refuses('request object: ' + name, go)
                    run.obs('attack', (step, name))
                read_request(w, url[s], s)
        elif step == 'response':
            url[s] = s.response()
            if attacked:
                try:
                    name, bad = attack_response(w, s, o, evil, foreign)
                except core.Skip:
                    continue
                run.refuses('response: ' + name, read_response(w, bad, s).verify, **s.expectation())
                run.obs('attack', (step, name, tuple(s.type)))
            accept(w, url[s], s)
        elif step == 'token':
            if attacked:
                for name, go in (attack_token(w, s, o, evil, foreign), attack_assertion(w, s, o, evil)):
                    run.refuses('token step: ' + name, go)
                    run.obs('attack', (step, name))
            idts[s] = token_step(w, s)
        else:
            if attacked:
                for name, go in (attack_logout(w, s, o, evil, foreign), attack_hint(w, s, o, evil, foreign)):
                    run.refuses('logout: ' + name, go)
                    run.obs('attack', (step, name))
            logout_step(w, s, idts[s])
        run.obs('steps')


TOGETHER = ('runs',)
TIMES = (40, 1200)


def scenarios(run):
    run.rules.append('2-4 interleaved runs (discovery, registration, request, response, token step, user info, logout), with one replaced message before about half of the '
                     'steps; distinct = (step, response type, attack)')
    run.assumptions.append('the caller states what it expects (key jar, issuer, client id, nonce), as the documentation asks')
    run.require(steps=1200, attack=300, response_read=250, token_step=250, logout=250)
    return {'runs': (runs, 170, 7000)}
