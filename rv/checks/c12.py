"""C12 JSON and dict representations lose and change nothing, for every message class and every conforming content."""
import copy
import datetime
import json
import re

from rv import gen, samples
from oidcmsg.message import Message

NAMES = sorted(gen.SCHEMA)
FLAT = ('str', 'int', 'bool', 'list', 'splist', 'rlist', 'ilist', 'json', None)
OPEN = ('msg:AddressClaim', 'msg:Document', 'msg:Issuer', 'msg:Provider', 'msg:Verifier', 'msg')


def plain(x):
    """Content of a message (or a value in it) as plain Python data."""
    if isinstance(x, Message):
        return {k: plain(x[k]) for k in x}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def content(rng, name, nested=True):
    kinds = None if nested else ()
    p = gen.full(rng, name, 2 if nested else 0, kinds=kinds)
    sch = gen.SCHEMA[name]['params']
    for k in list(p):
        if sch[k][0] == 'dict' and isinstance(p[k], str):
            p[k] = json.loads(p[k])
        if sch[k][0] == 'timestamp' and p[k] == 0:
            p[k] = 1
    for k, v in p.items():
        if sch[k][0] in OPEN and isinstance(v, dict) and rng.random() < .5:
            for _ in range(rng.randint(1, 3)):
                x = rng.choice((0, False, None, True, 0.5, gen.text(rng), gen.json_value(rng, 1)))
                if x not in ('', ['']):
                    v[gen.extra_key(rng)] = x
    if rng.random() < .4:
        for _ in range(rng.randint(1, 4)):
            v = gen.json_value(rng, 2)
            if v in ('', ['']):
                continue
            p[gen.extra_key(rng)] = v
    if rng.random() < .3:
        strs = [k for k, (kind, _) in sch.items() if kind == 'str' and not k.startswith('_') and k != 'type']
        for k in rng.sample(strs, min(2, len(strs))):
            p['%s#%s' % (k, rng.choice(gen.LANGS))] = gen.text(rng)
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def defaults(name):
    return gen.SCHEMA[name]['default']


ISO = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d[+-]\d{4}$')


def canon(v):
    """A time stamp may be held as a number or as ISO 8601 text: same instant, same value."""
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, str) and ISO.match(v):
        return int(datetime.datetime.fromisoformat(v).timestamp())
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def wire_value(run, kind, v, w, where):
    if kind == 'splist':
        run.expect(w == ' '.join(v), '%s serialized as %r instead of %r', where, w, ' '.join(v))
    elif kind == 'json':
        w = json.loads(w) if isinstance(w, str) else w
        run.expect(w == v, '%s serialized as %r instead of %r', where, w, v)
    elif kind in ('str', 'int', 'bool', 'list', 'rlist', 'ilist', 'dict', 'idtoken', None):
        run.expect(same(w, v), '%s serialized as %r instead of %r', where, w, v)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b and isinstance(a, str) == isinstance(b, str)


def kind_of(name, k):
    sch = gen.SCHEMA[name]['params']
    return sch.get(k, sch.get(k.split('#')[0], [None]))[0]


def roundtrip(run, rng, name=None):
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    p = content(rng, name)
    dflt = rng.random() < .7
    run.note(cls=name, content=p, defaults=dflt)
    m = run.must('construction', cls, set_defaults=dflt, **p)
    exp = dict(defaults(name)) if dflt else {}
    exp.update(p)
    for k, v in exp.items():
        if kind_of(name, k) in FLAT:
            run.expect(k in m and same(plain(m[k]), v), '%s holds %r instead of %r', k, m.get(k), v)
    run.expect(set(m.keys()) == set(exp), 'message has parameters %r instead of %r', sorted(m.keys()), sorted(exp))
    before = plain(m)
    indent = rng.choice((None, None, 0, 2))
    txt = run.must('to_json', m.to_json, 0, indent)
    w = json.loads(txt)
    run.expect(same(plain(m), before), 'writing changed the message: %r instead of %r', plain(m), before)
    run.expect(set(w) == set(exp), 'JSON has members %r instead of %r', sorted(w), sorted(exp))
    for k, v in exp.items():
        wire_value(run, kind_of(name, k), v, w[k], k)
    how = rng.choice(('json', 'json', 'bytes', 'dict', 'serialize', 'dict-json'))
    fresh = cls(set_defaults=False)
    if how == 'json':
        m2 = run.must('from_json', fresh.from_json, txt)
    elif how == 'bytes':
        m2 = run.must('from_json of bytes', fresh.from_json, txt.encode())
    elif how == 'dict':
        m2 = run.must('from_dict', fresh.from_dict, m.to_dict())
    elif how == 'serialize':
        f = rng.choice(('json', 'dict'))
        m2 = run.must('serialize/deserialize', fresh.deserialize, run.must('serialize', m.serialize, f), f)
    else:
        m2 = run.must('from_dict of the JSON object', fresh.from_dict, w)
    run.expect(m2 is fresh, 'deserialization did not return the instance')
    run.expect(set(m2.keys()) == set(exp), '%s: parameters %r came back as %r', how, sorted(exp), sorted(m2.keys()))
    for k, v in exp.items():
        kind = kind_of(name, k)
        if kind in FLAT:
            run.expect(same(plain(m2[k]), plain(m[k])), '%s: %s came back as %r instead of %r', how, k, m2[k], m[k])
        else:
            a, b = canon(plain(m2[k])), canon(plain(m[k]))
            run.expect(a == b or json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True),
                       '%s: nested %s (%s) came back as %r instead of %r', how, k, kind, a, b)
    w2 = json.loads(run.must('second to_json', m2.to_json))
    run.expect(w2 == w, '%s: second serialization differs: %r instead of %r', how, w2, w)
    if all(kind_of(name, k) in FLAT for k in exp):
        run.expect(m2 == m, '%s: message not equal after the round trip', how)
    run.obs('roundtrip', (name, how, tuple(sorted({kind_of(name, k) for k in p} - {None}))))
    run.obs('class', name)


def held(rng, depth=2):
    """A message held by another, with its plain content."""
    cls = rng.choice([Message] + [gen.cls_of(n) for n in LOOSE])
    d = {} if rng.random() < .25 else {gen.extra_key(rng): rng.choice((0, False, None, gen.text(rng), [gen.text(rng)], {'a': 0})) for _ in range(rng.randint(1, 3))}
    m = cls(set_defaults=False, **d)
    if depth and rng.random() < .3:
        s, p = held(rng, depth - 1)
        k = gen.extra_key(rng)
        m[k], d[k] = s, p
    return m, d


LOOSE = ('oidcmsg.oidc:OpenIDSchema', 'oidcmsg.oidc:AddressClaim', 'oidcmsg.oauth2:ResponseMessage', 'oidcmsg.oidc.identity_assurance:Verifier')


def holding(run, rng):
    """Messages, and lists of messages, as values of parameters nobody declared."""
    m, exp = Message(), {}
    for _ in range(rng.randint(1, 4)):
        k = gen.extra_key(rng)
        if rng.random() < .5:
            items = [held(rng) for _ in range(rng.randint(1, 4))]
            m[k], exp[k] = [a for a, _ in items], [b for _, b in items]
        else:
            m[k], exp[k] = held(rng)
    run.note(content=exp)
    d = run.must('to_dict', m.to_dict)
    run.expect(same(plain(d), exp), 'written as %r instead of %r', plain(d), exp)
    run.expect(same(plain(m), exp), 'writing changed the message: %r instead of %r', plain(m), exp)
    txt = run.must('to_json', m.to_json)
    run.expect(same(json.loads(txt), exp), 'written as %r instead of %r', txt, exp)
    m2 = run.must('from_json', Message().from_json, txt)
    run.expect(same(plain(m2), exp), 'came back as %r instead of %r', plain(m2), exp)
    run.obs('holding', tuple(sorted(type(v).__name__ for v in exp.values())))


def custom(run, rng):
    with gen.custom(rng, gen.CUSTOM_KINDS + ('msg', 'ilist')) as name:
        (roundtrip if rng.random() < .7 else changed)(run, rng, name)
        run.obs('custom', tuple(sorted(set(str(x) for x in gen.SCHEMA[name]['params'].values()))))


def changed(run, rng, name=None):
    """What is written is what the message holds at that time, however it came to hold it."""
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    p = content(rng, name, nested=False)
    for k in [k for k in p if kind_of(name, k) not in ('str', 'int', 'bool', 'list', None)]:
        del p[k]
    box = {gen.extra_key(rng): [gen.text(rng)], gen.extra_key(rng): {'a': gen.text(rng)}}
    for k in box:
        p.setdefault(k, box[k])
    m = run.must('construction', cls, set_defaults=False, **copy.deepcopy(p))
    hist = []
    for _ in range(rng.randint(2, 6)):
        for way in rng.sample(('dict', 'json', 'urlencoded', 'keys'), 2):
            if way == 'dict':
                w = run.must('to_dict', m.to_dict)
            elif way == 'json':
                w = json.loads(run.must('to_json', m.to_json))
            elif way == 'keys':
                run.expect(sorted(m.keys()) == sorted(p), 'names are %r instead of %r', sorted(m.keys()), sorted(p))
                run.expect(len(m) == len(p), 'length is %r instead of %r', len(m), len(p))
                continue
            else:
                try:
                    m.to_urlencoded()
                except Exception:
                    pass        # not every content has this form; what matters here is what it leaves behind
                continue
            run.expect(same(plain(w), p), 'after %r written as %r instead of %r', hist, w, p)
        op = rng.choice(('replace', 'replace', 'update', 'del', 'pop', 'inlist', 'indict', 'swap', 'rename'))
        k = rng.choice(sorted(p)) if p else None
        texts = [x for x in sorted(p) if isinstance(p[x], str)]
        if op == 'replace' and texts:
            k = rng.choice(texts)
            m[k] = p[k] = gen.text(rng) or 'z'
        elif op == 'update' and texts:
            k = rng.choice(texts)
            p[k] = gen.text(rng) or 'z'
            m.update({k: p[k]})
        elif op == 'del' and k:
            del m[k]
            del p[k]
        elif op == 'pop' and k:
            run.expect(same(plain(m.pop(k)), p.pop(k)), 'pop returned another value')
        elif op == 'inlist':
            for k in box:
                if k in p and isinstance(p[k], list):
                    x = gen.text(rng) or 'z'
                    p[k].append(x)
                    m[k].append(x)
        elif op == 'indict':
            for k in box:
                if k in p and isinstance(p[k], dict):
                    x = gen.text(rng) or 'z'
                    p[k]['a'] = x
                    m[k]['a'] = x
        elif op == 'swap' and len(texts) > 1:
            a, b = rng.sample(texts, 2)
            p[a], p[b] = p[b], p[a]
            m[a], m[b] = m[b], m[a]
        elif op == 'rename' and texts:
            k = rng.choice(texts)
            n = gen.extra_key(rng)
            if n in p:
                continue
            p[n] = p.pop(k)
            m[n] = p[n]
            del m[k]
        hist.append(op)
    run.note(cls=name, hist=hist)
    w = run.must('to_dict', m.to_dict)
    run.expect(same(plain(w), p), 'after %r written as %r instead of %r', hist, w, p)
    w = json.loads(run.must('to_json', m.to_json))
    run.expect(same(w, p), 'after %r written as %r instead of %r', hist, w, p)
    run.obs('changed', tuple(sorted(set(hist))))


WORDS = ('self', 'cls', 'set_defaults', 'lev', 'args', 'kwargs', 'keys', 'items', 'get', 'copy', 'update', 'verify', 'type', '_dict', 'lax',
         'jwt', 'jws_header', 'jwe_header', 'verify_ssl', 'c_param', 'c_default', '__class__', '__init__', '__dict__', 'dictionary', 'val',
         'sformat', 'info', 'method', 'class', 'None', 'pop', 'txt', 'keyjar', 'key', 'location', 'item', 'urlencoded', 'indent')


def spots(v, path=()):
    """Where objects are inside a JSON value."""
    if isinstance(v, dict):
        yield path, v
        for k, x in v.items():
            yield from spots(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from spots(x, path + (i,))


NESTING = [n for n in NAMES if any(str(k[0]).startswith(('msg', 'list:')) for k in gen.SCHEMA[n]['params'].values())]


def names(run, rng):
    """Members called like something in a program, at any level of a message received."""
    name = rng.choice(NAMES if rng.random() < .7 else NESTING)
    cls = gen.cls_of(name)
    p = content(rng, name)
    sch = gen.SCHEMA[name]['params']
    # claims requests and dictionaries have a form of their own inside
    at = [(path, d) for path, d in spots(p) if not path or sch.get(path[0], [None])[0] not in ('msg:Claims', 'msg:ClaimsRequest', 'json', 'dict')]
    put = []
    for _ in range(rng.randint(1, 4)):
        path, d = rng.choice(at[1:] or at) if rng.random() < .8 else at[0]
        k = rng.choice(WORDS)
        if k in d or k in gen.ALL_PARAMS:
            continue
        d[k] = rng.choice(('x', 7, 'true', ['a', 'b'], {'a': 'b'}, True))
        put.append((path, k, d[k]))
    run.note(cls=name, content=p, put=put)
    how = rng.choice(('json', 'json', 'dict'))
    m = run.must('from_' + how, *((cls().from_json, json.dumps(p)) if how == 'json' else (cls().from_dict, copy.deepcopy(p))))
    texts = [plain(m), plain(run.must('to_dict', m.to_dict)), json.loads(run.must('to_json', m.to_json))]
    for path, k, v in put:
        for held in texts:
            x = held
            for step in path:
                if isinstance(x, str):                      # kept or written as JSON text
                    x = json.loads(x)
                if isinstance(step, int) and isinstance(x, dict):
                    x = [x]
                try:
                    x = x[step]
                except (KeyError, IndexError):
                    run.expect(False, 'nothing at %r in %r', path, held)
            run.expect(k in x, 'member %r at %r was lost: %r', k, path, held)
            run.expect(same(plain(x[k]), v), 'member %r at %r is %r instead of %r', k, path, x[k], v)
        run.obs('odd_name', (name, k, len(path)))


def shuffled(rng, v):
    """The same JSON value with the members of its objects in another order."""
    if isinstance(v, dict):
        items = [(k, shuffled(rng, x)) for k, x in v.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [shuffled(rng, x) for x in v]
    return v


def deviate(rng, name, d):
    """Content that may or may not be acceptable."""
    d = dict(d)
    sch = [k for k in gen.SCHEMA[name]['params'] if k != '*']
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        op = rng.choice(('drop', 'type', 'extra', 'empty', 'add'))
        if op == 'drop' and d:
            d.pop(rng.choice(sorted(d)))
        elif op == 'type' and d:
            d[rng.choice(sorted(d))] = rng.choice((1, 'x', ['x'], {'a': 'b'}, True, [1, 2], 'a b', None, ['openid', 'x'], -1))
        elif op == 'extra':
            d[gen.extra_key(rng)] = gen.json_value(rng, 2)
        elif op == 'empty' and d:
            d[rng.choice(sorted(d))] = rng.choice(('', [''], [], {}, 0, False))
        elif op == 'add' and sch:
            d[rng.choice(sch)] = rng.choice(('x', 'code', ['code', 'token'], 'openid offline_access', 7, {'x': {'y': None}}))
    return d


def judged(fn, *args, **kw):
    """('refused', None) or ('made', result)"""
    try:
        return 'made', fn(*args, **kw)
    except (MemoryError, OSError, ImportError, SyntaxError):
        raise
    except Exception:
        return 'refused', None


def order(run, rng):
    """Members in another order: the same message, and the same verdict about it."""
    name = rng.choice(samples.NAMES)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name)
    d = deviate(rng, name, d)
    e = shuffled(rng, d)
    run.note(cls=name, content=d, other_order=list(e))
    how = rng.choice(('json', 'dict', 'constructor'))
    one, two = [judged(lambda x=x: cls(**x) if how == 'constructor' else cls().from_dict(x) if how == 'dict' else
                       cls().from_json(json.dumps(x))) for x in (copy.deepcopy(d), copy.deepcopy(e))]
    run.expect(one[0] == two[0], '%s: %s in one order of the members, %s in another', how, one[0], two[0])
    if one[0] == 'made':
        a, b = one[1], two[1]
        run.expect(same(plain(a), plain(b)), '%s: members in another order make another message: %r and %r', how, a, b)
        run.expect(a == b, '%s: messages of the same members in another order are not equal', how)
        one, two = judged(a.verify, **kw), judged(b.verify, **kw)
        run.expect(one[0] == two[0], 'verification: %s in one order of the members, %s in another', one[0], two[0])
        if not name.endswith(':JWTSecuredAuthorizationRequest'):       # the object it came in is taken out of it
            held = plain(a)
            again = judged(a.verify, **kw)
            run.expect(again[0] == one[0], 'verification: %s, and when asked again %s', one[0], again[0])
            run.expect(same(plain(a), held), 'verified again the message is %r instead of %r', plain(a), held)
        if one[0] == 'made':
            run.obs('order_accepted', (name, how))
            j, k = judged(a.to_json), judged(b.to_json)
            run.expect(j[0] == k[0], 'writing: %s in one order of the members, %s in another', j[0], k[0])
            if j[0] == 'made':
                x, y = [judged(cls().from_json, t) for t in (j[1], k[1])]
                run.expect(x[0] == y[0] and (x[0] != 'made' or same(plain(x[1]), plain(y[1]))),
                           'members in another order are written differently: %r and %r', j, k)
        else:
            run.obs('order_refused', (name, how))
    else:
        run.obs('order_refused', (name, how))


TOGETHER = ('roundtrip', 'holding', 'changed', 'custom')


def scenarios(run):
    run.rules.append('schema conforming random content (hostile strings, unknown and language tagged parameters, nested '
                     'messages) per message class; distinct = (class, path, parameter kinds)')
    run.assumptions += ['lone surrogates, blank values and values outside the declared types are not part of the property',
                        'a time stamp of 0 means "now" in this library and is not used']
    run.require(roundtrip=2500, holding=200, changed=600, custom=1400, order_accepted=500, order_refused=500, odd_name=2000)
    return {'roundtrip': (roundtrip, 4000, 150000), 'holding': (holding, 500, 10000), 'changed': (changed, 1000, 30000), 'custom': (custom, 1500, 50000), 'order': (order, 1800, 50000), 'names': (names, 1500, 40000)}
