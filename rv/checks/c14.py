"""C14 a message that lacks a required parameter never verifies; one that has them all does."""
import json

from oidcmsg.message import Message
from rv import gen, jose, samples


def req_of(name):
    return [k for k, (_, r) in gen.SCHEMA[name]['params'].items() if r]


WITH = [n for n in samples.NAMES if req_of(n)]
PAR = 'oidcmsg.oauth2:PushedAuthorizationRequest'
JAR = 'oidcmsg.oauth2:JWTSecuredAuthorizationRequest'


def build(rng, cls, d, dflt=False, item=True, alien=.15):
    d = gen.alien(rng, cls, d, alien)
    via = rng.choice(('kw', 'json', 'dict', 'setitem') if item else ('kw', 'json', 'dict'))
    if via == 'kw':
        return via, cls(set_defaults=dflt, **d)
    if via == 'json':
        return via, cls(set_defaults=dflt).from_json(json.dumps(d))
    if via == 'dict':
        return via, cls(set_defaults=dflt).from_dict(d)
    m = cls(set_defaults=dflt)
    for k, v in d.items():
        m[k] = v
    return via, m


def complete(run, rng, name=None):
    name = name or rng.choice(samples.NAMES)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name, p=rng.choice((0, 0, None)))
    dflt = rng.random() < .3
    via, m = build(rng, cls, d, dflt)
    run.note(cls=name, content=d, via=via)
    r = run.must('verify of a complete %s' % name, m.verify, **kw)
    run.expect(r is not False, 'complete %s not accepted', name)
    run.obs('complete', (name, via))
    if hasattr(m, 'required_parameters'):
        run.expect(sorted(m.required_parameters()) == sorted(req_of(name)), 'required parameters reported: %r instead of %r',
                   sorted(m.required_parameters()), sorted(req_of(name)))


BLANK = {'str': (None, ''), 'int': (None,), 'list': ([], [''], None, [None]), 'splist': ([], [''], None, '', [None]), 'rlist': ([], [''], None, [None]), 'json': (None, {}), 'bool': (None, ''),
         'idtoken': (None, ''), 'dict': (None,)}


def lacking(run, rng, name=None):
    name = name or rng.choice(WITH)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name, p=rng.choice((0, 0, None)))
    k = rng.choice(req_of(name))
    kind = gen.SCHEMA[name]['params'][k][0]
    how = rng.choice(('absent', 'absent', 'blank'))
    if name == PAR and rng.random() < .5:
        inner = {x: v for x, v in d.items() if x not in ('request', k) and rng.random() < .7}
        d['request'] = jose.sign(dict(inner, iss=jose.ISS1), rng.choice(jose.ALGS))
        kw = dict(kw, keyjar=jose.rp_jar())
        how = 'absent'
    if name == JAR:
        # what counts is the outcome of merging with the request object
        inner = {x: v for x, v in d.items() if x != 'request' and x != k}
        d['request'] = jose.sign(dict(inner, iss=jose.ISS1), 'ES256')
        how = 'absent'
    val = None
    full = dict(d)
    if how == 'blank' and kind in BLANK:
        val = rng.choice(BLANK[kind])
        d[k] = val
    else:
        v = d.pop(k, None)
        how = 'absent'
        if rng.random() < .25 and v is not None:        # another parameter is no substitute
            how = 'stand-in'
            d[rng.choice((k + '#en', k + '#', k.upper() if k.upper() != k else k + '_', k + ' ', '_' + k))] = v
    run.note(cls=name, lacking=k, how=how, value=val, content=d)
    try:
        # assigned to an item, '' in a list is a value like any other
        if how == 'blank' and rng.random() < .4:
            val = d[k] = rng.choice(('', [], None, {}, ()))
            via, m = 'update', cls(set_defaults=False)
            m.update(d)
        else:
            via, m = build(rng, cls, d, item=kind not in ('list', 'splist', 'rlist') or val not in ('', ['']))
    except Exception:           # refused on construction: fine too
        run.obs('refused_early', (name, k, repr(val)))
        return
    run.refuses('%s without %s (%s %r)' % (name, k, how, val), m.verify, **kw)
    run.obs('refused', (name, k, how, repr(val)))
    if rng.random() < .5:       # history: a verified message loses the parameter afterwards
        m = cls(set_defaults=False, **full)
        try:
            if m.verify(**kw) is False:
                return
        except Exception:
            return
        if name == JAR or k not in m:
            return
        way = rng.choice(('del', 'pop', 'clear', 'update', 'update', 'update-message', 'swap'))
        if way == 'del':
            del m[k]
        elif way == 'pop':
            m.pop(k)
        elif way == 'clear':
            m.clear()
        elif way == 'swap':     # as many parameters as before
            del m[k]
            m.update({'x_' + k: 'x'})
        else:
            b = {k: rng.choice(('', None, [], {}))}
            m.update(b if way == 'update' else Message(set_defaults=False, **b) if b[k] != '' else b)
        run.note(cls=name, lost=k, way=way, content=full)
        if name == PAR and k in m and m[k]:
            return
        run.refuses('verified %s that lost %s by %s' % (name, k, way), m.verify, **kw)
        run.obs('lost', (name, k, way))


def custom(run, rng):
    """Message classes of others."""
    with gen.custom(rng, gen.CUSTOM_KINDS + ('msg', 'ilist')) as name:
        (lacking if req_of(name) and rng.random() < .7 else complete)(run, rng, name)
        run.obs('custom', tuple(sorted(set(str(x) for x in gen.SCHEMA[name]['params'].values()))))


def device(run, rng):
    """What a device's token request needs (RFC 8628, 3.4), and what one without a device code does."""
    cls = gen.cls_of(samples.DEVICE)
    dev = rng.random() < .6
    need = ('device_code', 'grant_type', 'client_id') if dev else ('code', 'redirect_uri', 'grant_type')
    d = {k: gen.text(rng) for k in need}
    if dev and rng.random() < .6:
        d['grant_type'] = 'urn:ietf:params:oauth:grant-type:device_code'
    for k in ('code', 'redirect_uri', 'client_id', 'client_secret', 'state'):
        if rng.random() < .3:
            d.setdefault(k, gen.text(rng))
    if rng.random() < .3:
        d['client_assertion'] = '.'.join(gen.word(rng) for _ in '123')
        if rng.random() < .7:
            d['client_assertion_type'] = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
    if rng.random() < .3:
        d[gen.extra_key(rng)] = gen.text(rng)
    run.note(content=d, device=dev)
    via, m = build(rng, cls, d)
    run.expect(run.must('complete request', m.verify) is not False, 'complete request not accepted')
    run.obs('device_complete', (dev, via, len(d)))
    k = rng.choice(need if not dev else need[1:])
    b = {x: v for x, v in d.items() if x != k}
    via, m = build(rng, cls, b)
    if rng.random() < .5:
        m.update({k: rng.choice(('', None, [], {}))})
    run.note(lacking=k, via=via)
    run.refuses('request without %s' % k, m.verify)
    run.obs('device_refused', (dev, k, k in m))


def booleans(run, rng):
    """False is a value."""
    cls = gen.cls_of('oidcmsg.oauth2:TokenIntrospectionResponse')
    v = rng.random() < .5
    m = cls(active=v)
    run.expect(run.must('introspection response', m.verify) is True and m['active'] is v, 'active=%r not accepted', v)
    for blank in (None, '', [], {}):
        m = cls(active=v)
        m.update({'active': blank})
        run.refuses('introspection response with active=%r' % (blank,), m.verify)
    run.refuses('introspection response with active=null', cls().from_json('{"active": null}').verify)
    run.refuses('introspection response without active', cls(**{'scope': 'a'}).verify)
    run.obs('boolean', v)


TOGETHER = ('complete', 'lacking', 'booleans', 'device', 'custom')


def scenarios(run):
    run.rules.append('every message class x every required parameter x {absent, blank, lost after verification}; distinct = that')
    run.assumptions.append('a required number that is zero is not judged; identity assurance evidence and claims requests are '
                           'covered by C23')
    run.require(complete=400, refused=700, lost=30, device_refused=200, custom=1400)
    return {'complete': (complete, 1500, 60000), 'lacking': (lacking, 3000, 80000), 'booleans': (booleans, 20, 50), 'device': (device, 250, 5000), 'custom': (custom, 1500, 40000)}
