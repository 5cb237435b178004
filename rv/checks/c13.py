"""C13 application/x-www-form-urlencoded representation and request URLs."""
import json
import re
from urllib.parse import parse_qsl, quote, quote_plus, urlencode, urlsplit

from rv import gen, samples
from rv.checks import c12

OBJECTS = ('json', 'dict', 'msg', 'msg:AddressClaim', 'msg:Claims', 'msg:ClaimsRequest', 'msg:Document', 'msg:Issuer', 'msg:Provider', 'msg:Verifier')
KINDS = ('str', 'int', 'bool', 'list', 'splist', 'rlist') + OBJECTS
NAMES = [n for n in sorted(gen.SCHEMA) if all(k in KINDS for k, req in gen.SCHEMA[n]['params'].values() if req)]


def content(rng, name):
    p = {}
    for k, (kind, req) in gen.SCHEMA[name]['params'].items():
        if kind not in KINDS or not req and rng.random() < .6:
            continue
        if kind == 'list':
            p[k] = gen.strlist(rng, gen.token)
        elif kind in OBJECTS[1:]:
            # (time stamps are written as text: C23, C24)
            p[k] = {x: y for x, y in gen.nested(rng, kind).items() if not x.startswith('date_')} or {'number': gen.token(rng)}
        else:
            p[k] = gen.scalar(rng, kind)
    strs = [k for k in gen.SCHEMA[name]['params'] if gen.SCHEMA[name]['params'][k][0] == 'str']
    for _ in range(rng.choice((0, 0, 1, 3, 0, 2)) if rng.random() < .99 else rng.choice((70, 150, 150, 600))):
        r = rng.random()
        v = gen.text(rng) if r < .6 else rng.choice((gen.integer(rng), True, [gen.text(rng) for _ in range(rng.randint(2, 4))], [gen.word(rng)] * rng.randint(2, 3)))
        p[gen.extra_key(rng)] = v
    if strs and rng.random() < .3:
        p['%s#%s' % (rng.choice(strs), rng.choice(gen.LANGS))] = gen.text(rng)
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def pairs(name, exp):
    """The expected decoded (key, value) pairs, as key -> list of values."""
    out = {}
    for k, v in exp.items():
        kind = c12.kind_of(name, k)
        if kind in ('list', 'splist'):
            out[k] = [' '.join(v)]
        elif kind in OBJECTS:
            out[k] = v
        elif isinstance(v, list):
            out[k] = [str(x) for x in v]
        else:
            out[k] = [str(v)]
    return out


def check_wire(run, name, exp, q):
    run.expect(all(0x20 < ord(c) < 0x7f for c in q), 'not an urlencoded string: %r', q)
    got = {}
    for k, v in parse_qsl(q, keep_blank_values=True, strict_parsing=bool(q), encoding='utf-8', errors='strict', max_num_fields=None):
        got.setdefault(k, []).append(v)
    want = pairs(name, exp)
    run.expect(set(got) == set(want), 'parameters %r on the wire instead of %r', sorted(got), sorted(want))
    for k, v in want.items():
        if isinstance(v, dict):
            run.expect(len(got[k]) == 1 and json.loads(got[k][0]) == v, '%s is %r on the wire instead of %r', k, got[k], v)
        else:
            run.expect(got[k] == v, '%s is %r on the wire instead of %r', k, got[k], v)


def check_back(run, name, exp, m2):
    run.expect(set(m2.keys()) == set(exp), 'parameters %r received instead of %r', sorted(m2.keys()), sorted(exp))
    for k, v in exp.items():
        kind = c12.kind_of(name, k)
        got = c12.plain(m2[k])
        if kind in ('int', 'bool') or kind is None and not isinstance(v, (str, list)):
            run.expect(got in (v, str(v)), '%s received as %r instead of %r', k, got, v)
        elif kind is None and isinstance(v, list):
            run.expect(got == v, '%s received as %r instead of %r', k, got, v)
        else:
            run.expect(got == v, '%s received as %r instead of %r', k, got, v)


def roundtrip(run, rng, name=None):
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    p = content(rng, name)
    run.note(cls=name, content=p)
    m = run.must('construction', cls, set_defaults=True, **p)
    exp = dict(c12.defaults(name))
    exp.update(p)
    q = run.must('to_urlencoded', m.to_urlencoded)
    run.expect(run.must('serialize', m.serialize) == q, 'the default serialization is not urlencoded')
    check_wire(run, name, exp, q)
    if exp:
        m2 = run.must('from_urlencoded', cls(set_defaults=False).from_urlencoded, [q] if rng.random() < .1 else q)
        check_back(run, name, exp, m2)
        if all(isinstance(v, str) or c12.kind_of(name, k) in ('list', 'splist', 'rlist', 'json', 'dict') for k, v in exp.items()):
            run.expect(m2 == m, 'message not equal after the round trip')
            run.expect(m2.to_urlencoded() == q, 'second serialization differs')
    run.obs('roundtrip', (name, tuple(sorted({str(c12.kind_of(name, k)) for k in p}))))


def foreign(run, rng, name=None):
    """Query strings produced by other implementations: %20 or +, any percent-encoding, any order."""
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    p = content(rng, name)
    if not p:
        return
    out = []

    def enc(s):
        r = rng.random()
        if r < .4:
            return quote(s, safe='')
        if r < .6:
            return quote_plus(s)
        if r < .85:     # only what has to be escaped, by RFC 3986 and the form syntax
            t = quote(s, safe="/?;:@!$'()*,~-._")
            return t if rng.random() < .5 else re.sub('%..', lambda x: x.group().lower(), t)
        return ''.join('%%%0*X' % (2, b) if rng.random() < .7 else '%%%02x' % b for b in s.encode())
    for k, v in pairs(name, p).items():
        for x in (v if isinstance(v, list) else [json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice((None, None, 0, 1)))]):
            out.append((k, x))
    rng.shuffle(out)
    q = '&'.join('%s=%s' % (enc(k), enc(x)) for k, x in out)
    run.note(cls=name, query=q)
    m = run.must('from_urlencoded', cls(set_defaults=False).from_urlencoded, q)
    run.expect(set(m.keys()) == set(p), 'parameters %r received instead of %r', sorted(m.keys()), sorted(p))
    for k, v in p.items():
        got = m[k]
        if c12.kind_of(name, k) in (None, 'rlist') and isinstance(v, list):
            run.expect(sorted(got) == sorted(v), '%s received as %r instead of %r', k, got, v)
        elif c12.kind_of(name, k) in ('str', 'list', 'splist') + OBJECTS or isinstance(v, str):
            run.expect(c12.same(c12.plain(got), v), '%s received as %r instead of %r', k, got, v)
    run.obs('foreign', name)


def hostile(run, rng, name=None):
    """A repeated single valued parameter, or no parameter at all, is refused; so is sending without required ones."""
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    sch = gen.SCHEMA[name]['params']
    single = [k for k, (kind, _) in sch.items() if kind in ('str', 'int', 'bool') + OBJECTS]
    kind = rng.choice(('dup', 'dup', 'dup', 'format', 'missing', 'missing', 'many'))
    if kind == 'dup' and single:
        k = rng.choice(single)
        vals = [json.dumps({'a': i}) if sch[k][0] in OBJECTS else gen.word(rng) for i in range(rng.choice((2, 2, 3)))]
        if rng.random() < .3:
            vals = [vals[0]] * len(vals)
        parts = ['%s=%s' % (k, quote(v)) for v in vals] + ['x=y'] * rng.randint(0, 1)
        rng.shuffle(parts)
        run.note(cls=name, query='&'.join(parts))
        run.raises('repeated parameter %s' % k, cls().from_urlencoded, '&'.join(parts))
        run.obs('dup_refused', (name, sch[k][0]))
    elif kind == 'many':
        # a list parameter given more than once: no value may get lost on the way
        lists = [k for k, (kind, _) in sch.items() if kind in ('list', 'splist', 'rlist')]
        if not lists:
            return
        k = rng.choice(lists)
        vals = [gen.text(rng) if sch[k][0] == 'rlist' else ' '.join(gen.token(rng) for _ in range(rng.choice((1, 1, 2, 3))))
                for _ in range(rng.choice((2, 2, 3, 5, 40)))]
        want = [x for v in vals for x in ([v] if sch[k][0] == 'rlist' else v.split(' '))]
        key = k if rng.random() < .8 else '%s#%s' % (k, rng.choice(gen.LANGS))
        q = urlencode([(key, v) for v in vals])
        run.note(cls=name, query=q)
        try:
            m = cls(set_defaults=False).from_urlencoded(q)
        except Exception:
            run.obs('many_refused', (name, k))
            return
        run.expect(m[key] == want, '%s received as %r instead of %r', key, m.get(key), want)
        run.obs('many', (name, k))
    elif kind == 'format':
        q = rng.choice((gen.word(rng), '{"a": "b"}', 'a.b.c', '&', '&&&', ';', '{}'))
        if '=' in q:
            return
        run.note(cls=name, query=q)
        run.raises('a string without any parameter', cls().from_urlencoded, q)
        run.obs('format_refused', q)
    elif kind == 'missing':
        req = [k for k, (_, r) in sch.items() if r]
        if not req:
            return
        p = content(rng, name) if rng.random() < .8 else {}
        k = rng.choice(req)
        p.pop(k, None)
        m = cls(set_defaults=False, **p)
        run.note(cls=name, missing=k)
        run.raises('serialization without required %s' % k, m.to_urlencoded)
        run.raises('request URL without required %s' % k, m.request, 'https://a/')
        m.lax = True
        check_wire(run, name, p, run.must('lax serialization', m.to_urlencoded))
        run.obs('missing_refused', (name, k))


def custom(run, rng):
    with gen.custom(rng) as name:
        rng.choice((roundtrip, roundtrip, foreign, hostile, url))(run, rng, name)
        run.obs('custom', tuple(sorted(set(str(x) for x in gen.SCHEMA[name]['params'].values()))))


def url(run, rng, name=None):
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    p = content(rng, name)
    m = cls(**p)
    exp = dict(c12.defaults(name))
    exp.update(p)
    base = rng.choice(('https://op.example.org/authz', '/relative/path', 'authz', ' https://op.example.org/blank ', 'HTTPS://OP.example.org/X/../Y', 'https://op.example.org', 'http://localhost:8080/a/b/', 'com.app:/cb',
                       'https://x.org/%20a;b'))
    q = rng.choice(('', '', 'a=b', 'a=b&&', 'a=b#'[:3], 'foo=bar%26&c=d+e', 'x=', '?', 'a=b&', 'u=https://x/?y=z', 'flag', '?a=b', 'next=/a/b', 'u=https://x.org/y/', '/', 'a=/&b=?/c'))
    loc = base + ('?' + q.replace('?', '', 1) if q.startswith('?') else '?' + q if q else '')
    frag = rng.random() < .4
    run.note(cls=name, content=p, location=loc, fragment=frag)
    u = run.must('request', m.request, loc, frag) if rng.random() < .5 else run.must('request', m.request, location=loc, fragment_enc=frag)
    if frag:
        run.expect(u.startswith(loc + '#'), 'URL %r does not extend %r', u, loc)
        rest = u[len(loc) + 1:]
        run.expect(urlsplit(u).fragment == rest, 'parameters not in the fragment')
    else:
        run.expect(u.startswith(loc), 'URL %r does not extend %r', u, loc)
        rest = u[len(loc):].lstrip('?&')
        run.expect(u == loc + rest and loc[-1] in '?&' or u == loc + '&' + rest and q or u == loc + '?' + rest and not q,
                   'URL %r does not extend %r with parameters', u, loc)
        a, b = urlsplit(loc), urlsplit(u)
        run.expect(a[:3] == b[:3] and not b.fragment and b.query.startswith(a.query) and b.query.endswith(rest) and
                   parse_qsl(b.query, True) == parse_qsl(a.query, True) + parse_qsl(rest, True), 'parameters not in the query part of %r', u)
    check_wire(run, name, exp, rest)
    if rest:
        check_back(run, name, exp, run.must('from_urlencoded', cls(set_defaults=False).from_urlencoded, rest))
    run.obs('url', (name, frag, bool(q)))


def order(run, rng):
    """Parameters in another order: the same message, and the same verdict about it."""
    name = rng.choice(samples.NAMES)
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name)
    d = c12.deviate(rng, name, d)
    fields = []
    for k, v in d.items():
        if isinstance(v, (list, tuple)) and v and all(isinstance(x, str) for x in v):
            fields.append([(k, x) for x in v] if rng.random() < .3 else [(k, ' '.join(v))])
        else:
            fields.append([(k, v if isinstance(v, str) else json.dumps(v))])
    if fields and rng.random() < .3:
        fields.append([rng.choice(fields)[0]])              # sent twice
    other = list(fields)
    rng.shuffle(other)
    texts = [urlencode([p for f in o for p in f]) for o in (fields, other)]
    run.note(cls=name, one=texts[0], other=texts[1])
    one, two = [c12.judged(cls().from_urlencoded, t) for t in texts]
    run.expect(one[0] == two[0], 'reading: %s in one order of the parameters, %s in another', one[0], two[0])
    if one[0] == 'made':
        a, b = one[1], two[1]
        same = c12.same(ordered(a), ordered(b))
        run.expect(same, 'parameters in another order make another message: %r and %r', a, b)
        one, two = c12.judged(a.verify, **kw), c12.judged(b.verify, **kw)
        run.expect(one[0] == two[0], 'verification: %s in one order of the parameters, %s in another', one[0], two[0])
    run.obs('order_accepted' if one[0] == 'made' else 'order_refused', name)


def ordered(m):
    return {k: sorted(v, key=repr) if isinstance(v, list) else v for k, v in c12.plain(m).items()}


TOGETHER = ('roundtrip', 'foreign', 'hostile', 'url', 'custom')


def scenarios(run):
    run.rules.append('schema conforming content per class, wire form decoded by an independent parser; distinct = (class, '
                     'parameter kinds / refusal kind)')
    run.assumptions += ['items of list parameters contain no space (the wire format separates on it)',
                        'numbers and booleans are received as text; lists of objects have no faithful urlencoded form and are not judged']
    run.require(roundtrip=1500, foreign=500, dup_refused=150, missing_refused=80, url=500, custom=1400, order_accepted=300, order_refused=500, many=60)
    return {'roundtrip': (roundtrip, 2500, 100000), 'foreign': (foreign, 1000, 40000), 'hostile': (hostile, 800, 20000),
            'url': (url, 1000, 40000), 'custom': (custom, 1500, 50000), 'order': (order, 1500, 50000)}
