"""Hostile and realistic value generators (pure functions of a random.Random)."""
import contextlib
import itertools
import json
import os
import re
import string
from urllib.parse import quote, unquote

from . import core

SCHEMA = json.load(open(os.path.join(os.path.dirname(__file__), 'schema.json')))

_WORDS = ['code', 'token', 'openid', 'profile', 'email', 'client_1', 'xyz', 'N0nce', 'state', 'abc', 'DEF', 'none',
          'https://example.com/cb', 'https://op.example.org/', 'urn:example:a', 'alice@example.com', 'S6BhdRkqt3',
          'true', 'True', 'false', 'null', 'None', '0', '1', '-1', '3600', '{}', '[]', '{"a": 1}', '["x"]', '""',
          'a.b.c', 'eyJhbGciOiJub25lIn0.e30.', '__proto__', '__verified_id_token', '*', 'iss', 'sub', 'key#en',
          '\u00e5\u00e4\u00f6', '\u6f22\u5b57', '\U0001f600', 'e\u0301', '\u202eabc', '\u00a0', '\ufeff', '\u2028',
          'a b', ' lead', 'trail ', 'a+b', 'a%20b', '%', '%zz', '&', '=', 'a=b&c=d', '#', '#frag', '?', '?q=1', ';',
          'a;b', '/', '//', '../x', '\\', '\\n', '\n', 'a\nb', '\t', '"', "'", '<b>', '\x7f', '\x01', '\r\n', ',',
          ':', '@', '!', '~', '|', '.', '..', '-', '_', '~a', '\ufeffx', 'a\u0000b', 'x.lock.y', '?a', ';x=1', 'a;b=c;d',
          'https://a.example/p;q?x=1#f', 'openid profile']


def word(rng, alphabet=string.ascii_letters + string.digits + '-_'):
    return ''.join(rng.choice(alphabet) for _ in range(rng.choice((1, 3, 8, 8, 16, 40))))


def text(rng, lits=True):
    """Any non-empty string."""
    r = rng.random()
    if r < 0.30:
        return word(rng)
    if r < 0.60:
        return rng.choice(_WORDS)
    if r < 0.70 and lits:
        return rng.choice(core.LITS)
    if r < 0.78:
        return ''.join(rng.choice(_WORDS) for _ in range(rng.randint(2, 5)))
    if r < 0.93:
        return ''.join(_char(rng) for _ in range(rng.choice((1, 2, 5, 20))))
    if r < 0.98:
        return word(rng) * rng.choice((10, 50, 200))
    return ''.join(_char(rng) for _ in range(rng.choice((255, 256, 1000, 4097))))


def _char(rng):
    while True:
        r = rng.random()
        c = (rng.randint(0x20, 0x7e) if r < .5 else rng.randint(1, 0x2ff) if r < .75 else
             rng.randint(0x300, 0xffff) if r < .9 else rng.randint(0x10000, 0x10ffff))
        if not 0xd800 <= c <= 0xdfff:
            return chr(c)


def token(rng):
    """A non-empty string without SP (member of a space separated list)."""
    t = text(rng).replace(' ', '_')
    return t


def integer(rng, lo=None):
    r = rng.random()
    if r < .3:
        v = rng.choice((0, 1, -1, 2, 10, 255, 256, 3600, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1,
                        2 ** 63, 2 ** 64, -2 ** 31, 10 ** 20))
    elif r < .4:
        v = rng.choice(core.INTS)
    elif r < .7:
        v = rng.randint(-1000, 100000)
    else:
        v = rng.randint(1, 2 ** 40)
    return v if lo is None else max(lo, v)


def json_value(rng, depth=3, nonempty=False):
    r = rng.random()
    if depth <= 0 or r < .55:
        return rng.choice((lambda: text(rng), lambda: integer(rng), lambda: rng.random() < .5, lambda: None,
                           lambda: '', lambda: rng.randint(-10 ** 6, 10 ** 6) / 64.0, lambda: rng.random() * 10 ** rng.randint(-8, 16)))()
    if r < .75:
        return [json_value(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 4)))]
    return {text(rng): json_value(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 4)))}


def json_object(rng, depth=3):
    return {text(rng): json_value(rng, depth - 1) for _ in range(rng.choice((1, 1, 2, 4, 8)))}


def strlist(rng, item=text):
    n = rng.choice((1, 1, 2, 2, 3, 5, 5, 30))
    v = [item(rng) for _ in range(n)]
    if rng.random() < .1:
        v = v + v[:1]
    return v


ALL_PARAMS = {p for c in SCHEMA.values() for p in c['params']} | {
    'nonce', 'jti', 'sid', 'events', 'verified_id_token_hint', 'request_uri', 'request', 'version', 'verified_claims'}


def extra_key(rng, known=()):
    """A parameter name that is not in any schema and has no schema base name either."""
    while True:
        k = text(rng)
        if k not in known and k not in ALL_PARAMS and k.split('#')[0] not in ALL_PARAMS and k.split('#')[0] not in known and '*' not in known and not k.startswith('__verified'):
            return k


LANGS = ['en', 'ja-Kana-JP', 'sv', 'de-CH-1996', 'x-#y']


CUSTOM = 'custom:'
_custom = {}
_count = itertools.count()
CUSTOM_KINDS = ('str', 'str', 'str', 'int', 'bool', 'list', 'splist', 'json', 'rlist')


class custom:
    """A message class made up on the spot, as users of the library define them; known to SCHEMA while the block lasts."""

    def __init__(self, rng, kinds=CUSTOM_KINDS, blank=.15):
        from oidcmsg import message as m
        spec = {'str': (m.SINGLE_OPTIONAL_STRING, m.SINGLE_REQUIRED_STRING), 'int': (m.SINGLE_OPTIONAL_INT, m.SINGLE_REQUIRED_INT),
                'bool': ((bool, False, None, None, False), m.SINGLE_REQUIRED_BOOLEAN),
                'list': (m.OPTIONAL_LIST_OF_STRINGS, m.REQUIRED_LIST_OF_STRINGS),
                'splist': (m.OPTIONAL_LIST_OF_SP_SEP_STRINGS, m.REQUIRED_LIST_OF_SP_SEP_STRINGS),
                'rlist': (([str], False, None, None, False), ([str], True, None, None, False)),
                'ilist': (([int], False, None, None, False), ([int], True, None, None, False)),
                'json': (m.SINGLE_OPTIONAL_JSON, m.SINGLE_REQUIRED_JSON), 'msg': (m.OPTIONAL_MESSAGE, m.REQUIRED_MESSAGE),
                'msg:AddressClaim': (m.OPTIONAL_MESSAGE, m.REQUIRED_MESSAGE)}
        par, c_param, allowed, default = {}, {}, {}, {}
        while not par and rng.random() >= blank:
            for _ in range(rng.choice((1, 2, 4, 8, 20))):
                k = rng.choice((word(rng) + '_%d' % rng.randint(100, 999), 'x_c_' + word(rng), rng.choice(sorted(ALL_PARAMS)), 'urn:x:' + word(rng), 'https://x.org/' + word(rng),
                                word(rng) + '.c.' + word(rng), word(rng).upper() + '_C'))
                if k.startswith('__') or '#' in k or k in ('self', 'set_defaults', '*'):
                    continue
                par[k] = (rng.choice(kinds), rng.random() < .35)
        for k, (kind, req) in par.items():
            c_param[k] = spec[kind][req]
            if kind in ('str', 'list', 'splist') and rng.random() < .15:
                allowed[k] = sorted({word(rng) + str(i) for i in range(rng.randint(1, 4))})
            if rng.random() < .15 and kind in SCALARS:
                v = rng.choice(allowed[k]) if k in allowed else None
                default[k] = (v if kind == 'str' else [v]) if v else strlist(rng, token) if kind in ('list', 'splist') else scalar(rng, kind)
        if rng.random() < .5:           # in one class, or in two
            bases, part = (m.Message,), c_param
        else:
            ks = [k for k in c_param if rng.random() < .5]
            base = type('Base', (m.Message,), {'c_param': {k: c_param[k] for k in ks}})
            part = base.c_param.copy()
            part.update({k: v for k, v in c_param.items() if k not in ks})
            bases = (base,)
        body = {'c_param': part}
        if allowed or rng.random() < .3:
            body['c_allowed_values'] = {k: list(v) for k, v in allowed.items()}
        if default or rng.random() < .3:
            body['c_default'] = {k: list(v) if isinstance(v, list) else v for k, v in default.items()}
        self.cls = type(rng.choice(('Custom', 'AccessTokenRequest', 'X')), bases, body)
        self.sch = {'params': par, 'allowed': allowed, 'default': default}
        self.name = '%s%d' % (CUSTOM, next(_count))

    def __enter__(self):
        _custom[self.name] = self.cls
        SCHEMA[self.name] = self.sch
        return self.name

    def __exit__(self, *exc):
        SCHEMA.pop(self.name, None)
        _custom.pop(self.name, None)


def scalar(rng, kind):
    if kind == 'str':
        return text(rng)
    if kind == 'int':
        return integer(rng)
    if kind == 'bool':
        return rng.random() < .5
    if kind in ('list', 'rlist'):
        return strlist(rng)
    if kind == 'ilist':
        return [integer(rng) for _ in range(rng.choice((1, 2, 5)))]
    if kind == 'splist':
        return strlist(rng, token)
    if kind in ('json',):
        return json_object(rng)
    raise KeyError(kind)


SCALARS = ('str', 'int', 'bool', 'list', 'splist', 'rlist', 'ilist')


def cls_of(name):
    if name in _custom:
        return _custom[name]
    import importlib
    mod, n = name.split(':')
    return getattr(importlib.import_module(mod), n)


def params(rng, name, kinds=SCALARS, p=None, required=True, allowed=True, avoid=()):
    """Schema-conformant keyword arguments for message class `name` over the given kinds."""
    sch = SCHEMA[name]
    p = rng.choice((.0, .2, .5, .9, 1.0)) if p is None else p
    out = {}
    names = list(sch['params'])
    rng.shuffle(names)
    for k in names:
        kind, req = sch['params'][k]
        if kind not in kinds or k in avoid:
            continue
        if not (req and required) and rng.random() >= p:
            continue
        out[k] = conform(rng, name, k, kind) if allowed else scalar(rng, kind)
    return out


def conform(rng, name, k, kind):
    al = SCHEMA[name]['allowed'].get(k)
    if al:
        if kind in ('list', 'splist'):
            return rng.sample(al, rng.randint(1, len(al)))
        return rng.choice(al)
    return scalar(rng, kind)


# ---- nested message kinds ---------------------------------------------------------------------------------
IDA = 'oidcmsg.oidc.identity_assurance:'
OIDC = 'oidcmsg.oidc:'
NESTED = {'msg:AddressClaim': OIDC + 'AddressClaim', 'msg:Claims': OIDC + 'Claims',
          'msg:ClaimsRequest': OIDC + 'ClaimsRequest', 'msg:Document': IDA + 'Document',
          'msg:IdentityAssuranceClaims': IDA + 'IdentityAssuranceClaims', 'msg:Issuer': IDA + 'Issuer',
          'msg:Provider': IDA + 'Provider', 'msg:VerificationElement': IDA + 'VerificationElement',
          'msg:Verifier': IDA + 'Verifier', 'msg': 'oidcmsg.message:Message'}


def claim_spec(rng):
    r = rng.random()
    if r < .3:
        return None
    d = {}
    if rng.random() < .6:
        d['essential'] = rng.random() < .5
    if rng.random() < .4:
        d['value'] = text(rng)
    elif rng.random() < .4:
        d['values'] = strlist(rng)
    return d or {'essential': True}


CLAIM_NAMES = ['given_name', 'nickname', 'email', 'email_verified', 'picture', 'auth_time', 'acr', 'sub',
               'http://example.info/claims/groups']


def claims(rng):
    ks = rng.sample(CLAIM_NAMES, rng.randint(1, 5))
    if rng.random() < .3:
        ks.append(extra_key(rng))
    return {k: claim_spec(rng) for k in ks}


def nested(rng, kind, depth=2):
    """A plain (JSON-like) value for a nested kind; never empty."""
    if kind == 'idtoken':
        return rng.choice(('eyJhbGciOiJub25lIn0.e30.', 'a.b.c', word(rng) + '.' + word(rng) + '.' + word(rng)))
    if kind == 'timestamp':
        import datetime
        t = rng.randint(1, 4 * 10 ** 9)
        if rng.random() < .5:
            return t
        tz = datetime.timezone(datetime.timedelta(minutes=rng.choice((0, 60, -330, 345, 720))))
        return datetime.datetime.fromtimestamp(t, tz).strftime('%Y-%m-%dT%H:%M:%S%z')
    if kind == 'dict':
        return json_object(rng, 2)
    if kind == 'list:Link':
        out = []
        for _ in range(rng.randint(1, 4)):
            d = params(rng, OIDC + 'Link', ('str',))
            out.append(d)
        return out
    if kind == 'list:Evidence':
        return [evidence(rng) for _ in range(rng.randint(1, 3))]
    if kind == 'msg:Claims':
        return claims(rng)
    if kind == 'msg':
        return {k: text(rng) for k in (word(rng), extra_key(rng))}
    if kind == 'msg:ClaimsRequest':
        d = {}
        while not d:
            for k in ('userinfo', 'id_token'):
                if rng.random() < .6:
                    d[k] = claims(rng) if rng.random() < .9 else {}
            while rng.random() < .15:
                v = json_value(rng, 2) or rng.choice((0, False, [], {}, None, 0.0))
                d[extra_key(rng)] = v if v != [''] else None
        return d
    return full(rng, NESTED[kind], depth - 1) or {'x_' + word(rng): text(rng)}


def evidence(rng):
    t = rng.choice(('IdDocument', 'UtilityBill', 'QES'))
    d = full(rng, IDA + t, 1)
    d['type'] = {'IdDocument': 'id_document', 'UtilityBill': 'utility_bill', 'QES': 'qes'}[t]
    return d


def full(rng, name, depth=2, p=None, avoid=(), kinds=None):
    """Schema-conformant plain dict including nested kinds."""
    sch = SCHEMA[name]
    out = params(rng, name, SCALARS + ('json',), p=p, avoid=avoid)
    pp = rng.choice((0, .3, .8)) if p is None else p
    for k, (kind, req) in sch['params'].items():
        if kind in SCALARS or kind == 'json' or k in avoid:
            continue
        if kinds is not None and kind not in kinds:
            continue
        if req or (depth > 0 and rng.random() < pp):
            out[k] = nested(rng, kind, depth)
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


ZONES = ['UTC', 'Asia/Kolkata', 'America/New_York', 'Europe/Stockholm', 'Pacific/Auckland', 'Pacific/Kiritimati',
         'Etc/GMT+12', 'XXX-3:30', 'AAA11', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3']


_frozen = []


@contextlib.contextmanager
def frozen_zone():
    _frozen.append(1)
    try:
        yield
    finally:
        _frozen.pop()


def set_zone(name):
    import os
    import time
    if _frozen:
        return
    os.environ['TZ'] = name
    time.tzset()


def near(rng, s):
    """A string that is easily confused with s but differs from it."""
    while True:
        w = word(rng)
        t = rng.choice((s + rng.choice('/ .x\t'), s[:-1], s[1:], s.upper(), s.lower(), s.swapcase(), s + s, ' ' + s,
                        s.replace('https', 'http'), s.replace('e', '\u0435', 1), s[::-1], s + '\x00', 'other', '', '*',
                        s[:len(s) // 2], text(rng),
                        s + rng.choice(' ,;|&\n\t+#?/:.') + w, w + rng.choice(' ,;|&\n\t+/:.@') + s, s + '#' + w, s + '?' + w, s + '/' + w,
                        _url_near(rng, s), _url_near(rng, s), s.title(), s.capitalize(), '"%s"' % s, '[%s]' % s, quote(s, safe=''),
                        quote(s), unquote(s), s.replace('_', '-'), s.replace('-', '_'), s.replace('.', '', 1), s + '\u200b', '\ufeff' + s,
                        s.rstrip('/'), s.strip(), s.replace(' ', ''), s + '\n', s + '\r\n', '\t' + s, s + '\u00a0'))
        if t != s:
            return t


def _url_near(rng, s):
    """Another URL that some would say is the same."""
    if '://' not in s:
        return s + '%20'
    scheme, rest = s.split('://', 1)
    host, slash, path = rest.partition('/')
    return rng.choice((
        '%s://%s:%s%s%s' % (scheme, host, '443' if scheme == 'https' else '80', slash, path), '%s://%s.%s%s' % (scheme, host, slash, path),
        '%s://%s%s%s' % (scheme, host.upper(), slash, path), '%s://%s%s%s' % (scheme.upper(), host, slash, path),
        '%s://x@%s%s%s' % (scheme, host, slash, path), '%s://www.%s%s%s' % (scheme, host, slash, path), '%s://%s/./%s' % (scheme, host, path),
        '%s://%s//%s' % (scheme, host, path), '%s://%s/x/../%s' % (scheme, host, path), '%s://%s%s%s?' % (scheme, host, slash, path),
        '%s://%s%s%s#' % (scheme, host, slash, path), '%s://%s%s%s;' % (scheme, host, slash, path), s.replace('e', '%65', 1),
        '%s:%s' % (scheme, rest), '//' + rest, rest, '%s://%s' % (scheme, host), s + '/', s + '?x=y', s + '#x'))


_NAMES = None
# names registered or in wide use elsewhere (JWT claims, OAuth parameters) that this library gives no meaning
IANA = ('txn toe sub_id may_act act cnf vot vtm orig dest mky rph roles groups entitlements auth_req_id jwk jku x5c x5t crit b64 trust_mark metadata '
        'authority_hints constraints authorization_details tid oid upn ver amr_values sids jwe_header jws_header _type claims_supported code_challenge '
        'code_challenge_method code_verifier audience resource dpop_jkt nbf_skew issuer owner opponent_id sender keyjar verify skew trusting '
        'no_kid_issuer allow_missing_kid allow_sign_alg_none allowed_sign_alg sigalg encalg encenc allow_http treatement whitelist response '
        'iss_parameter admin debug internal ver1 legacy test force tenant hd at_use_nbr s_hash rt_hash transaction_id purpose').split()


def extras(rng, avoid=(), values=(), p=.35):
    """Parameters nobody defined for the message at hand, some with names the library uses elsewhere."""
    global _NAMES
    if _NAMES is None:
        _NAMES = [x for x in core.LITS if re.match(r'[A-Za-z_][A-Za-z0-9_:./-]{0,60}\Z', x) and not x.startswith(('__verified', 'verified_id_token'))]
    out = {}
    if rng.random() < p:
        for _ in range(rng.choice((1, 1, 2, 4, 8, 12))):
            k = rng.choice(_NAMES) if rng.random() < .65 else rng.choice(IANA) if rng.random() < .6 else extra_key(rng)
            if k in avoid or k.split('#')[0] in avoid or k in ('__iter__', 'self', 'set_defaults') or '\x00' in k:
                continue
            r = rng.random()
            out[k] = (rng.choice(values) if values and r < .4 else text(rng) if r < .55 else rng.choice((True, False, 0, 1, 'true', 'none', '*'))
                      if r < .8 else [text(rng)] if r < .9 else integer(rng) if r < .95 else {'a': text(rng)})
    return out


# undeclared or not, these mean something to some class
MEANT = {'aud', 'iss', 'client_id', 'nonce', 'error', 'error_description', 'error_uri', 'device_code', 'verified_claims', 'verification', 'claims',
         'evidence', 'document', 'date', 'type', 'userinfo', 'id_token', 'id_token_hint', 'request', 'request_uri', 'logout_token', 'value', 'values',
         'trust_framework', 'exp', 'iat', 'nbf', 'azp', 'sub', 'sid', 'access_token', 'code', 'at_hash', 'c_hash', 'birthdate'}


def alien(rng, cls, d, p=.15):
    """The parameters with others that the class does not know among them."""
    x = extras(rng, MEANT | set(cls.c_param) | set(d), p=p)
    if not x:
        return d
    items = list(dict(x, **d).items())
    rng.shuffle(items)
    return dict(items)


def now():
    """The current second, on which coarse and fine clocks of the system agree (time(2) lags behind clock_gettime(2))."""
    import time
    while True:
        t = time.time()
        if t % 1 > .02:
            return int(t)
        time.sleep(.021 - t % 1)
