"""C08 OpenID Connect authentication request rules (Core 3.1.2.1, 3.2.2.1, 11)."""
import json
import time

from rv import core, gen, jose
from oidcmsg import oidc

RT = ['code', 'id_token', 'token', 'none', 'id_token_token', 'idtoken', 'Id_token', 'code_id_token']
SCOPES = ['openid', 'profile', 'email', 'address', 'phone', 'offline_access', 'Openid', 'openid2', 'OPENID', 'xopenid',
          'offline', 'offline_access2']
PROMPTS = ['none', 'login', 'consent', 'select_account']
OTHERS = ['create', 'signup', 'registration', 'select-account', 'reauthenticate', 'embedded', 'mobile', 'iframe', 'modal', 'full', 'in_app', 'native']
DISPLAYS = ['page', 'popup', 'touch', 'wap']


def tok(s):
    return s.replace(' ', '_') or 'x'


def odd(rng, listed):
    """A value that other specifications, or the source, know."""
    return tok(rng.choice((rng.choice(OTHERS), gen.near(rng, rng.choice(listed)), rng.choice(core.LITS), gen.text(rng))))


def rules(p, kw=()):
    """Reason for refusal or None; `p` holds lists for response_type, scope, prompt."""
    kw = dict(kw)
    for k in ('response_type', 'client_id', 'scope', 'redirect_uri'):
        if not p.get(k):
            return 'missing ' + k
    if p.get('display') and p['display'] not in DISPLAYS:
        return 'display'
    if any(x not in PROMPTS for x in p.get('prompt') or []):
        return 'prompt value'
    if 'id_token' in p['response_type']:
        if 'nonce' not in p:
            return 'nonce missing'
        if 'nonce' in kw and kw['nonce'] != p['nonce']:
            return 'nonce mismatch'
    if 'openid' not in p['scope']:
        return 'openid scope'
    if 'offline_access' in p['scope'] and 'consent' not in (p.get('prompt') or []):
        return 'offline_access without consent'
    if 'none' in (p.get('prompt') or []) and len(p['prompt']) > 1:
        return 'prompt none combined'
    return None


def request(rng, p_bad=.35):
    """Mostly valid request with independent chances of every deviation."""
    p = {'client_id': gen.token(rng), 'redirect_uri': 'https://rp.example.com/' + gen.word(rng)}
    b = lambda: rng.random() < p_bad / 2
    p['response_type'] = rng.choice((['code'], ['code'], ['id_token'], ['code', 'id_token'], ['id_token', 'token'],
                                     ['code', 'id_token', 'token'], ['token', 'code']))
    if b():
        p['response_type'] = rng.sample(RT, rng.randint(1, 3))
    rng.shuffle(p['response_type'])
    sc = ['openid'] + [s for s in SCOPES[1:5] if rng.random() < .2]
    if rng.random() < .25:
        sc.append('offline_access')
    if b():
        sc = rng.sample(SCOPES, rng.randint(1, 4))
    if b():
        sc = [x for x in sc if x != 'openid'] + [tok(gen.near(rng, 'openid'))]
    if rng.random() < .1:
        sc += [tok(gen.near(rng, 'offline_access'))]
    rng.shuffle(sc)
    p['scope'] = sc
    if rng.random() < .4 or 'offline_access' in sc and rng.random() < .6:
        p['prompt'] = rng.sample(PROMPTS[1:], rng.randint(1, 3))
        if 'offline_access' in sc and 'consent' not in p['prompt'] and rng.random() < .6:
            p['prompt'].append('consent')
    elif rng.random() < .2:
        p['prompt'] = ['none']
    if b():
        p['prompt'] = rng.sample(PROMPTS, rng.randint(0, 4)) + ([odd(rng, PROMPTS)] if rng.random() < .4 else [])
        if not p['prompt']:
            del p['prompt']
    if 'prompt' in p:
        rng.shuffle(p['prompt'])
    if 'id_token' in p['response_type'] and not b() or rng.random() < .2:
        p['nonce'] = gen.text(rng).strip() or 'n'
    if rng.random() < .3:
        p['display'] = rng.choice(DISPLAYS)
    if b() and b():
        p['display'] = odd(rng, DISPLAYS)
    for k in ('state', 'login_hint', 'response_mode'):
        if rng.random() < .2:
            p[k] = gen.word(rng)
    if rng.random() < .2:
        p['max_age'] = rng.randint(1, 10000)
    if rng.random() < .2:
        p['ui_locales'] = ['en', 'sv']
    if rng.random() < p_bad / 3:
        p.pop(rng.choice(('response_type', 'client_id', 'scope', 'redirect_uri', 'nonce', 'prompt')), None)
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def build(rng, p, cls):
    """Message as built in process or received from the wire; spelling of space separated lists varied."""
    via = rng.choice(('kw', 'kwstr', 'urlencoded', 'json', 'item'))
    q = {k: (' '.join(v) if isinstance(v, list) and via != 'kw' and rng.random() < .7 else v) for k, v in p.items()}
    if via == 'urlencoded':
        from urllib.parse import urlencode
        q = {k: (' '.join(v) if isinstance(v, list) else json.dumps(v) if isinstance(v, dict) else v) for k, v in p.items()}
        return via, cls().from_urlencoded(urlencode(q)) if q else cls()
    if via == 'json':
        return via, cls().from_json(json.dumps(q))
    if via == 'item':
        m = cls()
        for k, v in q.items():
            m[k] = v
        return via, m
    return via, cls(**q)


def beside(rng):
    out = [('response_mode', rng.choice(('form_post', 'query', 'fragment', 'web_message', 'jwt'))), ('max_age', rng.choice((0, 1, 10 ** 6))),
           ('acr_values', ['1', 'urn:x']), ('claims_locales', ['en']), ('claims', {'id_token': {'nonce': {'essential': True}}, 'userinfo': {'sub': None}}),
           ('registration', {'client_name': 'x'}), ('request_uri', 'https://rp.example.com/r.jwt'), ('login_hint', 'nonce'), ('access_type', 'offline'),
           ('code_challenge', gen.word(rng)), ('code_challenge_method', 'S256'), ('resource', 'https://rs.example.com'), ('state', gen.text(rng).strip() or 's'),
           ('id_token', 'x'), ('grant_type', 'refresh_token'), ('response_type#en', 'code'), ('nonce#en', 'n'), ('prompt#en', 'consent'), ('scope#en', 'openid'), ('flow', 'implicit')]
    now = int(time.time())
    out.append(('id_token_hint', jose.sign({'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + 600, 'iat': now, 'nonce': 'n'}, rng.choice(jose.ALGS))))
    return rng.sample(out, rng.choice((1, 1, 2, 4)))


def rule(run, rng):
    p = request(rng)
    kw = {}
    if rng.random() < .4:
        kw['nonce'] = p['nonce'] if 'nonce' in p and rng.random() < .6 else gen.near(rng, p.get('nonce', 'n'))
    cls = rng.choice((oidc.AuthorizationRequest, oidc.OpenIDRequest))
    if rng.random() < .4:       # nothing here has a say in these rules
        for k, v in beside(rng):
            p.setdefault(k, v)
        items = list(p.items())
        rng.shuffle(items)
        p = dict(items)
        if 'id_token_hint' in p:
            kw['keyjar'] = jose.rp_jar()
    p = gen.alien(rng, cls, p)
    via, m = build(rng, p, cls)
    reason = rules(p, kw)
    run.note(params=p, kw=kw, via=via, reason=reason)
    again = rng.random() < .2
    if reason is None:
        run.expect(run.must('valid request', m.verify, **kw) is True, 'valid request not accepted')
        if again:
            run.expect(run.must('valid request, second time', m.verify, **kw) is True, 'not accepted the second time')
        run.obs('valid', (via, tuple(sorted(p)), len(p['response_type']), tuple(sorted(p.get('prompt', [])))))
    else:
        run.refuses('request (%s)' % reason, m.verify, **kw)
        if again:
            run.refuses('request (%s), second time' % reason, m.verify, **kw)
        run.obs('invalid', (via, reason, len(p.get('response_type', [])), tuple(sorted(p.get('scope', [])))))


TOGETHER = ('rule',)


def scenarios(run):
    run.rules.append('authentication requests with independently drawn deviations against a rule table; '
                     'distinct = (delivery, reason or parameter shape)')
    run.require(valid=500, invalid=500)
    return {'rule': (rule, 5000, 200000)}
