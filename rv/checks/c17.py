"""C17 isolation: what happens to one message, or one message class, never shows in another."""
import copy
import json
import pickle
import time

from rv import gen, jose, samples
from rv.checks import c12
from oidcmsg import oauth2, oidc
from oidcmsg.oidc import session

NAMES = sorted(gen.SCHEMA)
VERIFYING = ['oidcmsg.oidc:IdToken', 'oidcmsg.oidc:JsonWebToken', 'oidcmsg.oidc:AuthnToken', 'oidcmsg.oidc.session:LogoutToken', 'oidcmsg.oidc:ProviderConfigurationResponse',
             'oidcmsg.oidc:RegistrationRequest', 'oidcmsg.oauth2:AuthorizationResponse']
DEFAULTED = [n for n in NAMES if gen.SCHEMA[n]['default']]


def mutate(rng, v):
    """In-place vandalism of a value held by a message."""
    if isinstance(v, list):
        op = rng.choice(('append', 'clear', 'pop', 'set', 'reverse'))
        if op == 'append':
            v.append('x-vandal')
        elif op == 'clear':
            del v[:]
        elif op == 'pop' and v:
            v.pop()
        elif op == 'set' and v:
            v[0] = 'x-vandal'
        else:
            v.reverse()
        for x in v:
            if isinstance(x, (list, dict)) and rng.random() < .5:
                mutate(rng, x)
    elif isinstance(v, dict):
        if rng.random() < .5:
            v['x-vandal'] = True
        else:
            v.clear()
    elif hasattr(v, 'to_dict'):
        v['x-vandal'] = 'y'


def audit(run, name):
    """The class, as a user sees it, against the committed specification table."""
    cls = gen.cls_of(name)
    sch = gen.SCHEMA[name]
    m = cls()
    run.expect(c12.plain(m) == sch['default'], 'a new %s has %r instead of the defaults %r', name, c12.plain(m), sch['default'])
    run.expect(len(cls(set_defaults=False)) == 0, 'a new %s without defaults is not empty: %r', name, c12.plain(cls(set_defaults=False)))
    run.expect(sorted(m.parameters()) == sorted(sch['params']), 'parameters of %s: %r', name,
               sorted(set(m.parameters()) ^ set(sch['params'])))
    req = sorted(k for k, (_, r) in sch['params'].items() if r)
    run.expect(sorted(m.required_parameters()) == req, 'required parameters of %s: %r instead of %r', name,
               sorted(m.required_parameters()), req)
    for k, (kind, _) in sch['params'].items():
        t = m.value_type(k)
        want = {'str': str, 'int': int, 'bool': bool, 'list': [str], 'splist': [str], 'json': dict, 'dict': dict}.get(kind)
        if want is not None:
            run.expect(t == want, 'type of %s.%s reported as %r', name, k, t)
    run.expect(m.value_type('x-no-such-parameter') is None, 'unknown parameter has a type')
    run.obs('audited', name)


def errors_audit(run):
    """The enumerations of sibling classes stay their own."""
    for n in NAMES:
        al = gen.SCHEMA[n]['allowed'].get('error')
        if not al:
            continue
        for o in NAMES:
            for v in gen.SCHEMA[o]['allowed'].get('error', ()):
                m = gen.cls_of(n)(error=v)
                try:
                    ok = m.verify() is True
                except Exception:
                    ok = False
                run.expect(ok == (v in al), '%s: error=%r %s', n, v, 'accepted' if ok else 'refused')
    run.obs('errors_audited')


WILD = (('skew', 10 ** 7), ('nonce_storage_time', 10 ** 8), ('allow_http', True), ('allow_sign_alg_none', True), ('sigalg', 'none'), ('verify', False),
        ('iss', 'https://evil.example'), ('client_id', 'evil'), ('aud', 'evil'), ('nonce', 'evil'), ('allowed_sign_alg', 'none'), ('lax', True),
        ('allow_missing_kid', True), ('keyjar', None))


def verdicts(run):
    """Verdicts on messages nobody else has touched, whatever was said about others."""
    now = int(time.time())
    idt = {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + 500, 'iat': now - 10}
    jwt = {'iss': jose.RP, 'sub': jose.RP, 'aud': [jose.ISS1], 'jti': 'j', 'exp': now + 500, 'iat': now - 10}
    lot = {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'iat': now - 10, 'jti': 'j', 'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}
    pcr = {'issuer': jose.ISS1, 'authorization_endpoint': 'https://a', 'token_endpoint': 'https://t', 'jwks_uri': 'https://j',
           'response_types_supported': ['code'], 'subject_types_supported': ['public'], 'id_token_signing_alg_values_supported': ['RS256']}
    unsigned = jose.unsigned(idt)
    kj = jose.rp_jar()
    good = [(oidc.IdToken, idt, {'iss': jose.ISS1, 'client_id': jose.RP}), (oidc.JsonWebToken, jwt, {'aud': jose.ISS1}), (oidc.AuthnToken, jwt, {}),
            (session.LogoutToken, lot, {'aud': jose.RP}), (oidc.ProviderConfigurationResponse, pcr, {}),
            (oauth2.AuthorizationResponse, {'code': 'c', 'iss': jose.ISS1, 'client_id': jose.RP}, {'iss': jose.ISS1, 'client_id': jose.RP}),
            (oidc.AccessTokenResponse, {'access_token': 'a', 'token_type': 'b', 'id_token': jose.sign(idt, 'ES256')}, {'keyjar': kj}),
            (session.EndSessionRequest, {}, {}), (oidc.RegistrationRequest, {'redirect_uris': ['https://a']}, {})]
    bad = [(oidc.IdToken, dict(idt, exp=now - 5), {}), (oidc.IdToken, dict(idt, iat=now - 10 ** 6), {}), (oidc.IdToken, idt, {'client_id': 'x'}),
           (oidc.IdToken, dict(idt, nonce='n'), {'nonce': 'm'}), (oidc.IdToken, idt, {'iss': jose.ISS2}), (oidc.JsonWebToken, dict(jwt, exp=now - 5), {}),
           (oidc.JsonWebToken, dict(jwt, iat=now + 100), {}), (oidc.JsonWebToken, dict(jwt, nbf=now + 100), {}), (oidc.AuthnToken, jwt, {'aud': 'x'}),
           (oidc.AuthnToken, jwt, {'iss': 'x'}), (session.LogoutToken, dict(lot, iat=now + 100), {}), (session.LogoutToken, lot, {'aud': 'x'}),
           (session.LogoutToken, lot, {'iss': 'x'}), (oidc.ProviderConfigurationResponse, dict(pcr, issuer='http://a'), {}),
           (oauth2.AuthorizationResponse, {'code': 'c', 'iss': jose.ISS1}, {'iss': 'x'}), (oauth2.AuthorizationResponse, {'code': 'c', 'client_id': 'x'}, {'client_id': 'y'}),
           (oidc.AccessTokenResponse, {'access_token': 'a', 'token_type': 'b', 'id_token': unsigned}, {'keyjar': kj}),
           (session.EndSessionRequest, {'id_token_hint': unsigned}, {'keyjar': kj}), (session.EndSessionRequest, {'post_logout_redirect_uri': 'https://a'}, {}),
           (oidc.AccessTokenResponse, {'access_token': 'a', 'token_type': 'b', 'id_token': jose.sign(idt, 'ES256')}, {'keyjar': kj, 'allowed_sign_alg': 'RS256'}),
           (session.BackChannelLogoutRequest, {'logout_token': jose.unsigned(lot)}, {'keyjar': kj}),
           (oidc.RegistrationRequest, {'redirect_uris': ['https://a'], 'initiate_login_uri': 'http://a'}, {}),
           (oidc.RegistrationRequest, {'redirect_uris': ['https://a'], 'request_object_encryption_enc': 'A128GCM'}, {})]
    for cls, d, kw in good:
        run.expect(run.must('a good %s after other verifications' % cls.__name__, cls(**d).verify, **kw) is not False, 'good %s refused', cls.__name__)
    for cls, d, kw in bad:
        run.refuses('a bad %s (%r) after other verifications' % (cls.__name__, kw or d), cls(**d).verify, **kw)
    run.obs('verdicts')


def shared(run, rng):
    """Two messages made from one and the same mapping, or one from the other, are still two."""
    name = rng.choice(NAMES)
    cls = gen.cls_of(name)
    d = gen.params(rng, name, ('str', 'int', 'bool'), p=.7)
    d.update({gen.extra_key(rng): gen.text(rng) for _ in range(rng.randint(1, 3))})
    how = rng.choice(('update', 'updatemsg', 'from_dict', 'kw', 'to_dict', 'copy', 'update empty', 'items'))
    src = dict(d)
    snap = dict(d)
    a, b = cls(set_defaults=False), cls(set_defaults=False)
    if how == 'update':
        a.update(src)
        b.update(src)
    elif how == 'updatemsg':
        src = cls(set_defaults=False, **d)
        a.update(src)
        b.update(src)
    elif how == 'from_dict':
        a.from_dict(src)
        b.from_dict(src)
    elif how == 'kw':
        a, b = cls(set_defaults=False, **src), cls(set_defaults=False, **src)
    elif how == 'to_dict':
        b.from_dict(d)
        a.from_dict(d)
        src = a.to_dict()
    elif how == 'copy':
        b.from_dict(d)
        src = b.copy()
        a = b.copy()
    elif how == 'items':
        b.update(d)
        a.update(dict(b.items()))
    else:
        src = {}
        a.update(src)
        b.update(src)
        snap = {}
    run.note(cls=name, how=how, content=d)
    k = gen.extra_key(rng)
    a[k] = 'x-vandal'
    for x in sorted(snap)[:2]:
        if rng.random() < .5:
            del a[x]
        else:
            a[x] = a[x] if not isinstance(a[x], str) else 'x-vandal'
    a.clear() if rng.random() < .3 else a.set_defaults()
    if how == 'items':
        run.expect(dict(b.items()) == snap, 'the other message changed: %r instead of %r', b, snap)
    else:
        run.expect(dict(b.items()) == snap, 'the other message changed (%s): %r instead of %r', how, b, snap)
        run.expect(dict(src.items()) == snap, 'the source changed (%s): %r instead of %r', how, src, snap)
    run.obs('shared', (name, how))


def do_ops(rng, name, m, n):
    for _ in range(n):
        op = rng.choice(('mutate', 'mutate', 'mutate', 'set', 'del', 'verify', 'weed', 'blanks', 'defaults', 'urlenc', 'json', 'from',
                         'lax', 'clear', 'merge', 'copy', 'params', 'lang'))
        try:
            if op == 'mutate' and len(m):
                mutate(rng, m[rng.choice(sorted(m.keys()))])
            elif op == 'set':
                k = rng.choice(sorted(gen.SCHEMA[name]['params']) or ['x'])
                m[k] = gen.text(rng) if rng.random() < .5 else [gen.token(rng)]
            elif op == 'lang':
                k = rng.choice(sorted(gen.SCHEMA[name]['params']) or ['x'])
                v = rng.choice((gen.text(rng), [gen.token(rng)], 5, True, {'a': 'b'}))
                rng.choice((m.from_dict, m.update))({'%s#%s' % (k, rng.choice(gen.LANGS)): v})
                if rng.random() < .5:
                    m.from_urlencoded('%s%%23de=abc&%s%%23=x' % (k, k))
            elif op == 'del' and len(m):
                del m[rng.choice(sorted(m.keys()))]
            elif op == 'verify':
                m.verify(**{k: v for k, v in WILD if rng.random() < .4})
            elif op == 'weed':
                m.weed()
            elif op == 'blanks':
                m.rm_blanks()
            elif op == 'defaults':
                m.set_defaults()
            elif op == 'urlenc':
                m.to_urlencoded()
            elif op == 'json':
                mutate(rng, json.loads(m.to_json()))
            elif op == 'from':
                m.from_json(json.dumps({'x': [1], 'scope': ['a']}))
            elif op == 'lax':
                m.lax = True
            elif op == 'clear':
                m.clear()
            elif op == 'merge' and hasattr(m, 'merge'):
                m.merge({'scope': ['z']}, rng.choice(('strict', 'lax', 'whitelist')))
            elif op == 'copy':
                mutate(rng, m.copy().get('scope', []))
            elif op == 'params':
                mutate(rng, m.parameters())
                mutate(rng, m.required_parameters())
        except Exception:
            pass


def history(run, rng):
    """Many messages of many classes, used and abused; bystanders and classes must not notice."""
    focus = rng.sample(NAMES, 6) + rng.sample(DEFAULTED, 3)
    by = []
    for n in focus:
        d, _ = samples.valid(rng, n) if n in samples.NAMES else (gen.full(rng, n, 1), {})
        m = gen.cls_of(n)(**copy.deepcopy(d))
        by.append((n, m, copy.deepcopy(c12.plain(m))))
    for _ in range(12):
        n = rng.choice(focus) if rng.random() < .8 else rng.choice(VERIFYING)
        d, _ = samples.valid(rng, n) if n in samples.NAMES else (gen.full(rng, n, 1), {})
        how = rng.choice(('kw', 'factory', 'copy', 'empty', 'json') if n in focus else ('kw', 'json'))
        cls = gen.cls_of(n)
        if how == 'factory':
            m = (oidc if n.startswith('oidcmsg.oidc:') else oauth2).factory(n.split(':')[1], **d) or cls(**d)
        elif how == 'copy':
            src = rng.choice([b for b in by if b[0] == n])[1]
            m = rng.choice((src.copy, src.copy, lambda: copy.deepcopy(src), lambda: pickle.loads(pickle.dumps(src))))()
            run.expect(m == src and m is not src, 'a copy is not equal to the original')
            run.obs('copied', n)
        elif how == 'json':
            m = cls().from_json(json.dumps(d))
        elif how == 'empty':
            m = cls()
        else:
            m = cls(**d)
        do_ops(rng, n, m, rng.randint(3, 12))
    run.note(classes=focus)
    for n, m, snap in by:
        run.expect(c12.plain(m) == snap, 'an untouched %s changed from %r to %r', n, snap, c12.plain(m))
        run.obs('bystander', n)
    for n in focus:
        audit(run, n)
    verdicts(run)


def jar_of(kj):
    return sorted((o, k.kid, k.kty, k.use) for o in kj.owners() for k in kj.get_issuer_keys(o))


def arguments(run, rng):
    """What is handed to a message to be used is used, not changed."""
    now = int(time.time())
    way = rng.choice(('merge', 'merge', 'merge', 'update', 'verify', 'verify', 'issue', 'match', 'extra'))
    if way in ('merge', 'update', 'extra'):
        n, o = rng.choice((('oidcmsg.oidc:AuthorizationRequest', 'oidcmsg.oidc:OpenIDRequest'), ('oidcmsg.oauth2:AuthorizationRequest',) * 2,
                           ('oidcmsg.oauth2:PushedAuthorizationRequest', 'oidcmsg.oauth2:AuthorizationRequest'),
                           ('oidcmsg.oidc:AuthorizationRequest', 'oidcmsg.message:Message')))
        a, b = (gen.cls_of(x)(set_defaults=False, **(gen.full(rng, x, 1) if x in gen.SCHEMA else {})) for x in (n, o))
        for m in (a, b):
            if rng.random() < .7:
                m['scope'] = [gen.token(rng) for _ in range(rng.randint(2, 5))]
            m['x_' + gen.word(rng)] = gen.json_value(rng, 2)
        names = [rng.choice(sorted(a.keys())) for _ in range(rng.randint(0, 3))]
        d = dict(b.items()) if rng.random() < .2 else b
        snap = copy.deepcopy((c12.plain(b), names))
        run.note(request=c12.plain(a), object=snap[0], names=names, way=way)
        if way == 'merge':
            pol = rng.choice(('strict', 'lax', 'whitelist'))
            a.merge(d, pol, names) if pol == 'whitelist' or rng.random() < .3 else a.merge(d, pol)
        elif way == 'update':
            a.update(d)
        else:
            from oidcmsg.message import add_non_standard
            add_non_standard(a, b)
        run.expect(c12.same(c12.plain(b), snap[0]), 'the object went from %r to %r', snap[0], c12.plain(b))
        run.expect(names == snap[1], 'the list of names went from %r to %r', snap[1], names)
        # what the outcome then goes through by assignment does not show either
        for k in sorted(a.keys()):
            r = rng.random()
            if r < .3:
                del a[k]
            elif r < .6:
                a.update({k: 'x-vandal'})
        a.weed()
        run.expect(c12.same(c12.plain(b), snap[0]), 'the object went from %r to %r', snap[0], c12.plain(b))
    elif way == 'verify':
        kj = jose.new_rp_jar()
        idt = {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + rng.choice((-50, 500)), 'iat': now - 10}
        kw = {'keyjar': kj, 'client_id': rng.choice((jose.RP, 'x')), 'iss': jose.ISS1, 'skew': rng.choice((0, 60)), 'x_list': ['b', 'a'],
              'nonce_storage_time': 10 ** 4, 'sender': jose.ISS1}
        tok = jose.sign(idt, rng.choice(jose.ALGS), rng.choice(('iss1', 'iss1', 'iss2')))
        m = rng.choice((lambda: oidc.AccessTokenResponse(access_token='a', token_type='b', id_token=tok), lambda: oidc.AuthorizationResponse(id_token=tok),
                        lambda: session.EndSessionRequest(id_token_hint=tok), lambda: session.BackChannelLogoutRequest(logout_token=tok),
                        lambda: oidc.AuthorizationRequest(response_type='code', scope='openid', client_id=jose.ISS1, redirect_uri='https://a',
                                                          request=jose.sign({'scope': 'openid', 'response_type': 'code', 'iss': jose.ISS1}, 'ES256'))))()
        snap, had = {k: copy.deepcopy(v) for k, v in kw.items() if k != 'keyjar'}, jar_of(kj)
        given = dict(kw)
        run.note(cls=type(m).__name__, expectations=snap)
        try:
            m.verify(**given)
        except Exception:
            pass
        run.expect({k: v for k, v in given.items() if k != 'keyjar'} == snap and given['keyjar'] is kj, 'expectations changed to %r', given)
        run.expect(jar_of(kj) == had, 'the key jar holds %r instead of %r', jar_of(kj), had)
    elif way == 'issue':
        kj = jose.new_rp_jar()
        kj.import_jwks(jose.jwks('rp', True), jose.RP)
        name = rng.choice([n for n in NAMES if n != 'oidcmsg.oidc:IdToken'])
        d = gen.full(rng, name, 1)
        m = gen.cls_of(name)(**d)
        snap, had = copy.deepcopy(c12.plain(m)), jar_of(kj)
        run.note(cls=name, content=snap)
        keys = kj.get_signing_key('ec', jose.RP)
        n = [k.kid for k in keys]
        how = rng.choice(('to_jwt', 'to_jwe', 'request'))
        try:
            if how == 'to_jwt':
                m.to_jwt(keys, 'ES256', lifetime=rng.choice((0, 50)))
            elif how == 'to_jwe':
                m.to_jwe(kj.get_encrypt_key('rsa', ''), 'A128CBC-HS256', 'RSA-OAEP')
            else:
                oidc.make_openid_request(m, kj, jose.RP, 'ES256', jose.ISS1, with_jti=rng.random() < .5, lifetime=rng.choice((0, 50)))
        except Exception:
            pass
        run.expect(c12.same(c12.plain(m), snap), 'issuing changed %r to %r', snap, c12.plain(m))
        run.expect([k.kid for k in keys] == n and jar_of(kj) == had, 'issuing changed the keys')
    else:
        v = gen.json_value(rng, 2)
        spec = rng.choice(({'value': gen.json_value(rng, 2)}, {'values': [gen.json_value(rng, 2) for _ in range(3)], 'essential': True},
                           {'essential': False}, {'values': [v, gen.text(rng)]}))
        snap = copy.deepcopy((v, spec))
        run.note(value=v, spec=spec)
        oidc.claims_match(v, spec)
        run.expect(c12.same([v, spec], list(snap)), 'claims_match changed its arguments to %r', (v, spec))
    run.obs('arguments', way)


def ruin(rng, v, deep=0):
    """Change whatever can be changed in place, from the inside out."""
    if isinstance(v, list):
        for x in v:
            ruin(rng, x, deep + 1)
        v.append('x-vandal')
        if rng.random() < .3:
            del v[0]
    elif isinstance(v, dict):
        for x in list(v.values()):
            ruin(rng, x, deep + 1)
        v['x-vandal'] = True
    elif hasattr(v, 'to_dict'):
        for k in list(v.keys()):
            ruin(rng, v[k], deep + 1)
        v['x-vandal'] = 'y'
        if rng.random() < .3:
            v.clear()


def twins(run, rng):
    """The same text received twice gives two messages, and the third is as the first was."""
    name = rng.choice(NAMES)
    cls = gen.cls_of(name)
    d = c12.content(rng, name)
    for k in rng.sample(('x_a', 'x_b', 'x_c'), rng.randint(0, 2)):
        d[k] = gen.json_value(rng, 2)
    how = rng.choice(('json', 'dict', 'jwt', 'form', 'kw', 'item', 'factory'))
    txt = json.dumps(d)
    if how == 'jwt':
        txt = jose.sign(dict(d, iss=jose.ISS1), 'ES256')
    elif how == 'form':
        try:
            txt = cls(set_defaults=False, **json.loads(txt)).to_urlencoded()
        except Exception:
            return

    def receive():
        if how == 'json':
            return cls(set_defaults=False).from_json(txt)
        if how == 'dict':
            return cls(set_defaults=False).from_dict(json.loads(txt))
        if how == 'jwt':
            return cls(set_defaults=False).from_jwt(txt, jose.rp_jar())
        if how == 'form':
            return cls(set_defaults=False).from_urlencoded(txt)
        if how == 'factory' and name.split(':')[0] in ('oidcmsg.oidc', 'oidcmsg.oauth2'):
            return (oidc if name.startswith('oidcmsg.oidc:') else oauth2).factory(name.split(':')[1], **json.loads(txt))
        if how == 'item':
            m = cls(set_defaults=False)
            for k, v in json.loads(txt).items():
                m[k] = v
            return m
        return cls(**json.loads(txt))
    run.note(cls=name, how=how, content=d)
    try:
        a, b = receive(), receive()
    except Exception:
        run.counts['unreadable'] += 1
        return
    label = how
    if rng.random() < .4:
        b = rng.choice((a.copy, lambda: copy.deepcopy(a), lambda: pickle.loads(pickle.dumps(a))))()
        label = 'copy of ' + how
    snap = copy.deepcopy(c12.plain(a))
    run.expect(c12.plain(b) == snap, 'received twice: %r and %r', c12.plain(a), c12.plain(b))
    if a.jws_header:
        heads = dict(b.jws_header)
        a.jws_header['alg'] = 'none'
        run.expect(b.jws_header == heads, 'the header of one shows in the other')
    ruin(rng, rng.choice((a, a, a.to_dict())))
    run.expect(c12.plain(b) == snap, 'a change of one of two equal messages (%s) shows in the other: %r instead of %r', label, c12.plain(b), snap)
    run.expect(c12.plain(receive()) == snap, 'a message received later is %r instead of %r', c12.plain(receive()), snap)
    run.obs('twins', (name, label))


def nested_defaults(run, rng):
    """Classes of others, whose defaults are lists and objects in several levels."""
    from oidcmsg.message import OPTIONAL_LIST_OF_STRINGS, SINGLE_OPTIONAL_JSON, Message
    dflt = {'a': {'x': [gen.word(rng)], 'y': {'z': [1]}}, 'b': [gen.word(rng)], 'c': [{'d': [gen.word(rng)]}]}
    dflt = {k: v for k, v in dflt.items() if rng.random() < .8}
    base = rng.choice((Message, oauth2.ResponseMessage, oidc.RegistrationRequest))
    cls = type('Custom', (base,), {'c_param': dict(base.c_param, a=SINGLE_OPTIONAL_JSON, b=OPTIONAL_LIST_OF_STRINGS), 'c_default': copy.deepcopy(dflt)})
    run.note(defaults=dflt)
    a, b = cls(), cls()
    for m in (a, b):
        if rng.random() < .4:
            m.clear()
            m.set_defaults()
    if rng.random() < .3:
        b = a.copy()
    ruin(rng, a)
    run.expect(c12.plain(b) == dflt, 'a change in one message shows in another: %r instead of %r', c12.plain(b), dflt)
    run.expect(c12.plain(cls()) == dflt, 'a new message has %r instead of the defaults %r', c12.plain(cls()), dflt)
    b.clear()
    b.set_defaults()
    run.expect(c12.plain(b) == dflt, 'the defaults changed: %r instead of %r', c12.plain(b), dflt)
    run.obs('nested_defaults', tuple(dflt))


def everything(run, rng):
    for n in NAMES:
        audit(run, n)
    errors_audit(run)


TIMES = (120, 2500)
TOGETHER = ('arguments', 'shared', 'history', 'twins', 'nested_defaults')


def scenarios(run):
    run.rules.append('histories of construction, vandalism of held values, and class level operations over several classes with '
                     'untouched bystanders; distinct = class per observation')
    run.require(verdicts=250, shared=400, bystander=1000, audited=1000, copied=50, errors_audited=1)
    run.require(arguments=500, twins=800, nested_defaults=100)
    return {'arguments': (arguments, 800, 20000), 'shared': (shared, 600, 12000), 'history': (history, 300, 10000), 'everything': (everything, 1, 3),
            'twins': (twins, 1500, 40000), 'nested_defaults': (nested_defaults, 150, 3000)}
