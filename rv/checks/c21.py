"""C21 error responses: description character set (RFC 6749 5.2), error codes per endpoint, recognition of errors."""
import json
import re
from urllib.parse import urlencode

from rv import core, gen, samples
from rv.checks import c14
from oidcmsg import oauth2

NAMES = [n for n in samples.NAMES if 'error_description' in gen.SCHEMA[n]['params']]
ERRCLS = [n for n in NAMES if 'error' in gen.SCHEMA[n]['allowed']]
CODES = sorted({c for n in ERRCLS for c in gen.SCHEMA[n]['allowed']['error']})
FOREIGN = sorted({x for x in core.LITS if re.match(r'[a-z]+(_[a-z]+)+\Z', x)} | {'invalid_dpop_proof', 'use_dpop_nonce', 'insufficient_scope', 'invalid_token',
                  'invalid_redirect_uri', 'invalid_client_metadata', 'invalid_target', 'slow_down', 'authorization_pending', 'expired_token',
                  'unmet_authentication_requirements', 'login_required ', 'not_found', 'none', 'error'})
CH = [chr(c) for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]
CHSET = set(CH)
BAD = ['"', '\\', '\0', '\x7f', '\n', '\r', '\t', '\x1f', '\x01', '\u00a0', '\u00e5', '\u2028', '\u201d', '\ud7ff', '\U0001f600', '\x80', '\xff',
       '\uff3c', '\u0300']


def description(rng, bad):
    s = [rng.choice(CH) for _ in range(rng.choice((1, 2, 5, 30, 300)))]
    if rng.random() < .2:
        s = list(rng.choice(('The client_id is not valid!', "it's [x]^_`{|}~", 'a' * 5000, '!', '#]', '<script>&;', "';--", '%22 %5C')))
    if bad:
        c = rng.choice(BAD) if rng.random() < .8 else chr(rng.choice((rng.randint(0, 0x1f), rng.randint(0x7f, 0xd7ff), rng.randint(0x10000, 0x10ffff))))
        at = rng.choice((0, len(s), rng.randint(0, len(s))))
        s.insert(at, c)
    return ''.join(s)


def deliver(rng, cls, d):
    via = rng.choice(('kw', 'json', 'dict', 'setitem', 'url', 'later'))
    if via == 'url' and all(isinstance(v, str) for v in d.values()):
        return via, cls().from_urlencoded(urlencode(d))
    if via == 'later':
        x = dict(d)
        e = x.pop('error_description')
        m = cls(**x)
        try:
            m.verify()
        except Exception:
            pass
        m['error_description'] = e
        return via, m
    return c14.build(rng, cls, d)


def charset(run, rng):
    name = rng.choice(NAMES)
    cls = gen.cls_of(name)
    bad = rng.random() < .5
    e = description(rng, bad)
    d, kw = samples.valid(rng, name, p=rng.choice((0, .2, .6)))
    d['error_description'] = e
    al = gen.SCHEMA[name]['allowed'].get('error')
    if rng.random() < .6:
        d['error'] = rng.choice(al or CODES)
    via, m = deliver(rng, cls, d)
    run.note(cls=name, description=e, via=via)
    ok = all(c in CHSET for c in e)
    if ok:
        r = run.must('%s with description %r' % (name, e), m.verify, **kw)
        run.expect(r is not False, '%s with description %r not accepted', name, e)
        run.expect(m['error_description'] == e, 'description changed')
        run.obs('clean', (name, via, len(e) > 30))
    else:
        run.refuses('%s with description %r' % (name, e), m.verify, **kw)
        run.obs('dirty', (name, via, [c for c in e if c not in CHSET][0]))


def one_char(run, rng):
    c = chr(rng.choice((rng.randint(0, 0x7f), rng.randint(0, 0x7f), rng.randint(0x80, 0x17f), rng.randint(0x180, 0xd7ff))))
    name = rng.choice(('oidcmsg.oauth2:ResponseMessage', 'oidcmsg.oauth2:TokenErrorResponse', 'oidcmsg.oauth2:AuthorizationErrorResponse',
                       'oidcmsg.oidc:AuthorizationErrorResponse', 'oidcmsg.oidc:UserInfoErrorResponse'))
    m = gen.cls_of(name)(error='invalid_request', error_description=rng.choice(('%s', 'a%s', '%sb', 'a%sb', '%s' * 2 % ('%s', 'x'))) % c)
    run.note(cls=name, char=c)
    if c in CHSET:
        run.must('description with %r' % c, m.verify)
    else:
        run.refuses('description with %r' % c, m.verify)
    run.obs('char', c)


def codes(run, rng):
    """An endpoint's error class takes that endpoint's codes and no others, whatever was verified before."""
    for name in rng.sample(ERRCLS, len(ERRCLS)):
        cls = gen.cls_of(name)
        for c in rng.sample(CODES, 8) + [gen.near(rng, rng.choice(CODES)), *rng.sample(FOREIGN, min(6, len(FOREIGN)))]:
            if not c:
                continue
            d = {'error': c}
            if rng.random() < .3:
                d['error_description'] = description(rng, False)
            if rng.random() < .3:
                d['error_uri'] = 'https://op.example.org/err'
            if rng.random() < .3:
                d['state'] = gen.word(rng)
            if rng.random() < .5:
                m = cls().from_urlencoded(urlencode(d))
            else:
                m = cls().from_json(json.dumps(d))
            run.note(cls=name, content=d)
            if c in gen.SCHEMA[name]['allowed']['error']:
                run.must('%s with error %r' % (name, c), m.verify)
            else:
                run.refuses('%s with error %r' % (name, c), m.verify)
            run.expect(oauth2.is_error_message(m), 'a response with error=%r is not recognised as an error', c)
            for k, v in d.items():
                run.expect(m[k] == v, '%s changed: %r', k, m[k])
            run.obs('code', (name, c))


def recognise(run, rng):
    name = rng.choice(NAMES + samples.NAMES)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name, p=rng.choice((0, .2, .6)))
    d.pop('error', None)
    err = rng.random() < .5
    if not err and rng.random() < .4 and 'error_description' in gen.SCHEMA[name]['params']:
        d['error_description'] = 'x'
    if not err and rng.random() < .3:
        d['x_err'] = 'error'
    via, m = c14.build(rng, cls, d)
    run.note(cls=name, content=d, via=via, err=err)
    run.expect(not oauth2.is_error_message(m), '%s without error recognised as an error', name)
    if err:
        m['error'] = rng.choice(CODES)
        run.expect(oauth2.is_error_message(m) is True, '%s with error not recognised', name)
        run.expect(oauth2.is_error_message(cls().from_json(m.to_json())) is True, 'not recognised after the wire')
        del m['error']
        run.expect(not oauth2.is_error_message(m), 'still an error when the error is gone')
        v = rng.choice(('', None, ' ', '0', 'x' * 300, gen.text(rng)))
        how = rng.choice(('item', 'update', 'kw'))
        if how == 'item':
            m['error'] = v
        elif how == 'update':
            m.update({'error': v})
        else:
            m = cls(error=v, **d)
        if 'error' in m.keys():
            run.expect(oauth2.is_error_message(m) is True, '%s with the error %r (%s) not recognised', name, v, how)
            run.obs('odd_error', (repr(v)[:5], how))
    run.obs('recognised', (name, err, via))


TOGETHER = ('charset', 'one_char', 'codes', 'recognise')


def scenarios(run):
    run.rules.append('every response class x description content x delivery; every error code x endpoint class; distinct = (class, '
                     'delivery, offending character) / (class, code)')
    run.require(clean=300, dirty=300, char=500, code=1500, recognised=300)
    return {'charset': (charset, 1200, 40000), 'one_char': (one_char, 800, 10000), 'codes': (codes, 60, 2000),
            'recognise': (recognise, 500, 10000)}
