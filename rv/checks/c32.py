"""C32 language tagged parameters are independent values of the base parameter's type; defaults fill what is missing and nothing else; the
factories build exactly the named message."""
import copy
import importlib
import json
from urllib.parse import parse_qs, urlencode

from rv import gen, samples
from rv.checks.c12 import plain, same
from oidcmsg import oauth2, oidc

NAMES = sorted(n for n in gen.SCHEMA)
PARAM = {n: [k for k, (kind, _) in gen.SCHEMA[n]['params'].items() if kind in gen.SCALARS] for n in NAMES}
LANG = [n for n in NAMES if PARAM[n] and '*' not in gen.SCHEMA[n]['params']]
TAGS = gen.LANGS + ['fr', 'zh-Hant-TW', '', 'EN', 'en#en', 'i-klingon']
REQ = [n for n in samples.NAMES if [k for k, (kind, r) in gen.SCHEMA[n]['params'].items() if r] and n != 'oidcmsg.oauth2:JWTSecuredAuthorizationRequest']


def given(rng, kind):
    """(value given, value held)"""
    if kind == 'splist' and rng.random() < .5:
        v = [gen.token(rng) for _ in range(rng.randint(2, 4))]
        return ' '.join(v), v
    if kind == 'list':
        v = [gen.token(rng) for _ in range(rng.randint(2, 4))]
        return v, v
    if kind == 'splist':
        v = [gen.token(rng) for _ in range(rng.randint(2, 4))]
        return v, v
    if kind == 'int' and rng.random() < .5:
        v = gen.integer(rng)
        return str(v), v
    v = gen.scalar(rng, kind)
    return v, v


def lang(run, rng):
    name = rng.choice(LANG)
    cls = gen.cls_of(name)
    sch = gen.SCHEMA[name]['params']
    inp, exp = {}, {}
    base = []
    for k in rng.sample(PARAM[name], min(len(PARAM[name]), rng.randint(1, 3))):
        kind = sch[k][0]
        base.append((k, kind))
        ks = ['%s#%s' % (k, t) for t in rng.sample(TAGS, rng.randint(1, 3))]
        if rng.random() < .6:
            ks.append(k)
        for x in ks:
            inp[x], exp[x] = given(rng, kind)
        if rng.random() < .25:      # names are what they are: these are other parameters, and texts stay texts
            x = rng.choice((k.upper(), k.title(), k.swapcase(), k + 's', k + '_', ' ' + k)) + rng.choice(('#en', '#sv', '#'))
            if x.split('#')[0] not in gen.ALL_PARAMS:
                inp[x] = exp[x] = rng.choice(('12', 'a b', 'true', '{"a": 1}', gen.word(rng)))
    items = list(inp.items())
    rng.shuffle(items)
    inp = dict(items)
    via = rng.choice(('kwargs', 'dict', 'json', 'urlencoded'))
    if via == 'urlencoded':
        # numbers and booleans stay text, lists are blank separated
        def one(v):
            return ' '.join(v) if isinstance(v, list) else str(v)
        q = urlencode({k: one(v) for k, v in inp.items()})
        exp = {k: v if isinstance(v, (list, str)) else one(inp[k]) for k, v in exp.items()}
        if any(one(v) == '' for v in inp.values()):
            return
        m = run.must('from_urlencoded', cls(set_defaults=False).from_urlencoded, q)
    elif via == 'json':
        m = run.must('from_json', cls(set_defaults=False).from_json, json.dumps(inp))
    elif via == 'dict':
        m = run.must('from_dict', cls(set_defaults=False).from_dict, inp)
    else:
        m = run.must('construction', cls, set_defaults=False, **inp)
    run.note(cls=name, via=via, content=inp)
    run.expect(set(m.keys()) == set(exp), '%s: parameters %r, expected %r', via, sorted(m.keys()), sorted(exp))
    for k, v in exp.items():
        run.expect(same(plain(m[k]), v), '%s: %s is %r, expected %r', via, k, m[k], v)
        run.obs('tagged' if '#' in k else 'base', (name, k.split('#')[0], via))
    for k, kind in base:
        if k not in exp:
            run.expect(k not in m and m.get(k) is None, '%s appeared from nowhere', k)
    if via != 'urlencoded':
        back = cls(set_defaults=False).from_json(run.must('to_json', m.to_json))
        run.expect({k: plain(back[k]) for k in back} == {k: plain(m[k]) for k in m}, 'JSON round trip: %r became %r', dict(m.items()), dict(back.items()))
        run.expect(set(m.to_dict()) == set(exp), 'to_dict has %r', sorted(m.to_dict()))
    m.lax = True
    q = run.must('to_urlencoded', m.to_urlencoded)
    got = parse_qs(q, keep_blank_values=True)
    run.expect(set(got) == set(exp), 'urlencoded %r', q)
    for k, v in exp.items():
        want = ' '.join(v) if isinstance(v, list) else str(v)
        run.expect(got[k] == [want] or (isinstance(v, list) and got[k] == v), 'urlencoded %s is %r, expected %r', k, got[k], want)
    k = rng.choice(sorted(exp))
    del m[k]
    run.expect({x: plain(m[x]) for x in m} == {x: v for x, v in exp.items() if x != k}, 'removing %s changed the others', k)


def stand_in(run, rng):
    """A tagged value never stands in for a required parameter."""
    name = rng.choice(REQ)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name, p=0)
    k = rng.choice([x for x, (_, r) in gen.SCHEMA[name]['params'].items() if r])
    v = d.pop(k)
    d['%s#%s' % (k, rng.choice(TAGS))] = v
    run.note(cls=name, content=d)
    try:
        m = cls(set_defaults=False, **d)
    except Exception:
        run.obs('refused_early', name)
        return
    run.refuses('%s with only a tagged %s' % (name, k), m.verify, **kw)
    run.obs('stand_in', (name, k))


def defaults(run, rng):
    name = rng.choice(NAMES) if rng.random() < .2 else rng.choice([n for n in NAMES if gen.SCHEMA[n]['default']])
    cls = gen.cls_of(name)
    dflt = copy.deepcopy(gen.SCHEMA[name]['default'])
    sch = gen.SCHEMA[name]['params']
    ks = [k for k in dflt if sch.get(k, ['str'])[0] in gen.SCALARS]
    over = {k: gen.scalar(rng, sch.get(k, ['str'])[0]) for k in ks if rng.random() < .4}
    over = {k: v for k, v in over.items() if not (isinstance(v, list) and len(v) == 1)}
    for k in PARAM[name]:
        if k not in dflt and rng.random() < .1:
            over[k] = gen.scalar(rng, sch[k][0])
            if isinstance(over[k], list) and len(over[k]) == 1:
                over[k] = over[k] * 2
    for k in ks:
        if rng.random() < .2:       # a tagged sibling is not the parameter
            v = gen.scalar(rng, sch.get(k, ['str'])[0])
            over['%s#%s' % (k, rng.choice(TAGS))] = v * 2 if isinstance(v, list) and len(v) == 1 else v
    want = dict(dflt)
    want.update(over)
    via = rng.choice(('kwargs', 'dict', 'json', 'setitem', 'off', 'late', 'blank'))
    run.note(cls=name, given=over, via=via)
    if via == 'kwargs':
        m = run.must('construction', cls, **over)
    elif via == 'dict':
        m = run.must('from_dict', cls().from_dict, over)
    elif via == 'json':
        m = run.must('from_json', cls().from_json, json.dumps(over))
    elif via == 'setitem':
        m = cls()
        for k, v in over.items():
            m[k] = v
    elif via == 'blank':
        m = run.must('construction', cls, **dict({k: '' for k in ks}, **over))
    else:
        m = run.must('construction', cls, set_defaults=False, **over)
        run.expect({k: plain(m[k]) for k in m} == over, 'without defaults: %r, expected %r', dict(m.items()), over)
        if via == 'late':
            m.set_defaults()
            m.set_defaults()
        else:
            want = over
    run.expect({k: plain(m[k]) for k in m} == want, '%s: holds %r, expected %r', via, dict(m.items()), want)
    run.expect(same({k: plain(m[k]) for k in m}, want), '%s: holds %r, expected %r', via, dict(m.items()), want)
    run.obs('defaults', (name, via, tuple(sorted(over))))
    run.expect({k: plain(v) for k, v in cls().items()} == dflt, 'a new message holds %r, expected %r', dict(cls().items()), dflt)


def named(mod):
    return {n.split(':')[1]: n for n in NAMES if n.startswith(mod + ':')}


O2, OI = named('oidcmsg.oauth2'), named('oidcmsg.oidc')
BAD = ['', 'nosuch', 'message', 'idtoken', 'Idtoken', 'AuthorizationRequest ', 'oidcmsg.oidc.IdToken', 'KeyJar', 'JWT', 'sys', 'inspect', 'logging', 'factory',
       'oauth2', 'VerificationError', 'object', 'dict', '__name__', 'LogoutToken', 'EndSessionRequest', 'Evidence', 'SINGLE_REQUIRED_STRING', 'type']


def factory(run, rng):
    which = rng.choice(('oauth2', 'oidc', 'oidc'))
    fn = {'oauth2': oauth2.factory, 'oidc': oidc.factory}[which]
    table = dict(O2) if which == 'oauth2' else dict(O2, **OI)
    if rng.random() < .15:
        n = rng.choice(BAD + (sorted(set(OI) - set(O2)) if which == 'oauth2' else []))
        if n in table:
            return
        args = rng.choice(({}, {'client_id': 'x', 'scope': 'openid'}))
        r = run.must('%s factory of %r' % (which, n), fn, n, **args)
        run.expect(r is None, '%s factory of %r gives %r', which, n, r)
        run.obs('unknown', (which, n))
        return
    n = rng.choice(sorted(table))
    cls = gen.cls_of(table[n])
    d = gen.full(rng, table[n], 1)
    extra = gen.extra_key(rng)
    if extra not in ('msgtype', 'self', 'set_defaults', 'kwargs'):
        d[extra] = gen.text(rng)
    d = {k: v for k, v in d.items() if k not in ('msgtype', 'self')}
    if rng.random() < .3:
        d['set_defaults'] = rng.random() < .5
    if rng.random() < .25:
        k = rng.choice(sorted(gen.SCHEMA[table[n]]['params']) or ['x'])
        d[k] = rng.choice((5, True, 'x', ['x'], [5], {'a': 1}, {'a': {'b': []}}, [{'a': 1}], [None, 1], 1.5, object()))
    if rng.random() < .3:
        for k in rng.sample(sorted(gen.SCHEMA[table[n]]['params']), min(2, len(gen.SCHEMA[table[n]]['params']))) + [gen.extra_key(rng)]:
            if k not in ('msgtype', 'self', 'set_defaults'):
                d[k] = rng.choice((None, None, 0, False, '', []))
    run.note(kind=which, name=n, content=d)
    try:
        want = cls(**d)
    except Exception as e:
        run.raises('%s factory of %s with content its constructor refuses (%s)' % (which, n, type(e).__name__), fn, n, **d)
        run.obs('refused', (which, n))
        return
    got = run.must('%s factory of %s' % (which, n), fn, n, **d)
    run.expect(type(got) is cls, '%s factory of %s gives a %s', which, n, type(got))
    run.expect({k: plain(v) for k, v in got.items()} == {k: plain(v) for k, v in want.items()}, '%s factory of %s gives %r, expected %r', which, n, got, want)
    run.obs('built', (which, n))


TOGETHER = ('lang', 'stand_in', 'defaults', 'factory')


def scenarios(run):
    run.rules.append('tagged and untagged values of every scalar parameter through each way of entry, tagged values in place of required ones, defaults through '
                     'each way of entry, both factories over every message name and names that are none; distinct = (class, parameter, way in), (class, names)')
    run.assumptions.append('tags are judged where content is parsed; assigning an item with a tagged name stores the value as it is')
    run.require(tagged=1500, base=500, stand_in=250, defaults=400, built=400, unknown=60, refused=20)
    return {'lang': (lang, 1600, 60000), 'stand_in': (stand_in, 500, 15000), 'defaults': (defaults, 700, 25000), 'factory': (factory, 900, 30000)}
