"""C15 a parameter never holds a value of the wrong type: it is converted as documented, or refused."""
import datetime
import decimal
import json
from urllib.parse import urlencode

from rv import gen
from rv.checks import c12

NAMES = [n for n in sorted(gen.SCHEMA) if gen.SCHEMA[n]['params']]
HOLDS = {'str': str, 'int': int, 'bool': bool}


def wrong(rng, kind):
    if not kind.startswith(('msg', 'idtoken', 'timestamp')) and rng.random() < .04:
        # (a list with nothing but one null is taken for no value at all)
        return [None] + [None, gen.token(rng), gen.integer(rng), {}, []][rng.randrange(5):]
    lst = lambda: [gen.integer(rng), {'a': 1}][:rng.randint(1, 2)]
    if kind == 'str':
        return rng.choice((True, False, gen.integer(rng), 1.5, {'a': gen.text(rng)}, [gen.text(rng)], [gen.text(rng), 'b'], [[]], [1], {}))
    if kind == 'int':
        return rng.choice((True, False, rng.choice(('abc', '1.5', 'ten', '0x10', '1 2', '--1', '1,000', 'NaN', 'inf', 'True', '{}', '1e3')),
                           {'a': 1}, {}, [1], ['1'], [[1]]))
    if kind == 'bool':
        return rng.choice((0, 1, 'true', 'True', 'false', 'yes', 'abc', 1.0, [True], {'a': True}, {}, 2))
    if kind in ('list', 'splist'):
        if rng.random() < .3:
            v = [gen.token(rng) for _ in range(rng.choice((2, 5, 9, 17, 33, 70, 130, 300)))]
            v[rng.choice((-1, -1, 0, rng.randrange(1, len(v))))] = rng.choice((1, 0, None, True, 1.5, ['b'], {'a': 'b'}, []))
            return v
        return rng.choice((5, 0, True, False, 1.5, {'a': 'b'}, {}, [1], ['a', 1], ['a', None], ['a', ['b']], ['a', {'b': 1}], [True],
                           [{'a': 'b'}], ['a', 2.5], [['a']]))
    if kind == 'rlist':
        return rng.choice((5, 0, True, 1.5, {'a': 'b'}, {}, [1], ['a', 1], ['a', None], ['a', ['b']], [True], [{'a': 'b'}], [['a']]))
    if kind == 'ilist':
        return rng.choice(('a', '1', 1.5, {'a': 1}, {}, ['1'], [1, '1'], [1, None], [1, [1]], [1.5], [{'a': 1}]))
    if kind in ('json', 'dict'):
        if rng.random() < .5:      # what the text says counts, not that it is JSON
            return rng.choice((lambda v: v, lambda v: ' %s\n' % v))(
                json.dumps(rng.choice((None, True, False, 0, gen.integer(rng), 1.5, '', gen.text(rng), '{}', json.dumps(gen.json_object(rng)),
                                       [], [gen.text(rng)], [gen.json_object(rng)], [[gen.text(rng), gen.text(rng)]]))))
        return rng.choice((True, False, 5, 1.5, 'not json', '{', "{'a': 1}", '{"a": }', ['a'], [{'a': 1}], '\ufeff{}', [['a', 'b']]))
    if kind == 'idtoken':
        return rng.choice((True, 5, 1.5, ['a'], False))
    if kind.startswith('msg:'):
        return rng.choice((True, False, 5, 1.5, '{', '[', [{'a': 'b'}]))
    return None


def right(rng, name, k, kind):
    """(given, expected held value)"""
    if kind == 'int':
        v = gen.integer(rng)
        return (v, v) if rng.random() < .5 else (str(v), v)
    if kind in ('list', 'splist'):
        if rng.random() < .3:
            v = [gen.token(rng) for _ in range(rng.randint(1, 4))]
            return ' '.join(v), v
        v = gen.strlist(rng, gen.token)
        return v, v
    if kind in ('rlist', 'ilist') and rng.random() < .4:       # one value makes a list
        v = gen.text(rng) if kind == 'rlist' else gen.integer(rng)
        return v, [v]
    if kind in ('json', 'dict'):
        v = gen.json_object(rng)
        return (v, v) if rng.random() < .5 else (json.dumps(v), v)
    v = gen.scalar(rng, kind)
    return v, v


def put(rng, cls, k, v):
    """Deliver one value; returns (how, callable giving the message)."""
    how = rng.choice(('kw', 'json', 'dict', 'setitem'))
    if how == 'kw':
        return how, lambda m: m.from_dict({k: v}) if rng.random() < .5 else cls(set_defaults=False, **{k: v})
    if how == 'json':
        return how, lambda m: m.from_json(json.dumps({k: v}))
    if how == 'dict':
        return how, lambda m: m.from_dict({k: v})

    def setitem(m):
        m[k] = v
        return m
    return how, setitem


def refused(run, rng, name=None):
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    params = gen.SCHEMA[name]['params']
    k = rng.choice(sorted(params))
    kind = params[k][0]
    v = wrong(rng, kind)
    if v is None:
        return
    if kind == 'msg:Claims' and not isinstance(v, (bool, int, float)) or kind.startswith('msg:') and isinstance(v, list):
        return
    key = k
    how, fn = put(rng, cls, k, v)
    if how != 'setitem' and rng.random() < .2:
        key = '%s#%s' % (k, rng.choice(gen.LANGS))
        how, fn = 'langtag', lambda m: m.from_dict({key: v})
    elif kind in ('json', 'dict') and isinstance(v, str) and rng.random() < .4:
        how, fn = 'form', lambda m: m.from_urlencoded(urlencode({k: v}))
    m = cls(set_defaults=False)
    old = None
    if kind in ('str', 'int', 'bool', 'list', 'splist', 'rlist', 'ilist', 'json', 'dict') and rng.random() < .5:
        g, old = right(rng, name, k, kind)
        m[key] = old if key == k else old
    run.note(cls=name, param=key, kind=kind, value=v, how=how, had=old)
    run.raises('%s with %s=%r (%s)' % (name, key, v, kind), fn, m)
    if old is None:
        run.expect(key not in m, '%s holds %r after it was refused', key, m.get(key))
    else:
        run.expect(m[key] == old, '%s holds %r instead of the old value %r', key, m.get(key), old)
    run.obs('refused', (name, key.split('#')[0], repr(v)[:40] if not isinstance(v, (int, float)) or isinstance(v, bool) else 'num'))
    run.obs('kind:' + kind)


def held(run, rng, name=None):
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    params = {k: v for k, v in gen.SCHEMA[name]['params'].items() if v[0] in ('str', 'int', 'bool', 'list', 'splist', 'rlist', 'ilist', 'json', 'dict')}
    if not params:
        return
    k = rng.choice(sorted(params))
    kind = params[k][0]
    g, v = right(rng, name, k, kind)
    how, fn = put(rng, cls, k, g)
    key = k
    if how != 'setitem' and rng.random() < .2:
        key = '%s#%s' % (k, rng.choice(gen.LANGS))
        how, fn = 'langtag', lambda m: m.from_dict({key: g})
    elif kind in ('json', 'dict') and isinstance(g, str) and rng.random() < .4:
        how, fn = 'form', lambda m: m.from_urlencoded(urlencode({k: g}))
    run.note(cls=name, param=key, kind=kind, value=g, how=how)
    m = run.must('%s with %s=%r' % (name, key, g), fn, cls(set_defaults=False))
    run.expect(c12.same(c12.plain(m[key]), v), '%s holds %r instead of %r', key, m.get(key), v)
    run.obs('held', (name, k, how))


def nested(run, rng):
    """Types are enforced inside nested messages too."""
    cases = [('oidcmsg.oidc:OpenIDSchema', 'address', 'country'), ('oidcmsg.oidc:IdToken', 'address', 'street_address'),
             ('oidcmsg.oidc.identity_assurance:Document', 'issuer', 'name'),
             ('oidcmsg.oidc.identity_assurance:IdDocument', 'verifier', 'txn'),
             ('oidcmsg.oidc.identity_assurance:UtilityBill', 'provider', 'name'),
             ('oidcmsg.oidc.identity_assurance:VerifiedClaims', 'verification', 'trust_framework'),
             ('oidcmsg.oidc.identity_assurance:IdDocument', 'document', 'number')]
    name, k, sub = rng.choice(cases)
    v = wrong(rng, 'str')
    if v == {} and False:
        return
    cls = gen.cls_of(name)
    m = cls(set_defaults=False)
    how, fn = put(rng, cls, k, {sub: v})
    run.note(cls=name, param=k, sub=sub, value=v, how=how)
    run.raises('%s with %s.%s=%r' % (name, k, sub, v), fn, m)
    run.expect(k not in m, '%s holds %r after it was refused', k, m.get(k))
    good = {sub: gen.text(rng)}
    m = run.must('%s with %s=%r' % (name, k, good), fn_of(cls, how, k, good))
    run.expect(c12.plain(m[k]) == good, '%s holds %r', k, m[k])
    run.obs('nested', (name, k, how, type(v).__name__))


def fn_of(cls, how, k, v):
    def f():
        if how == 'setitem':
            m = cls(set_defaults=False)
            m[k] = v
            return m
        return cls(set_defaults=False).from_json(json.dumps({k: v}))
    return f


class Odd:
    def __repr__(self):
        return '<odd>'


def custom(run, rng):
    with gen.custom(rng, gen.CUSTOM_KINDS + ('rlist', 'ilist'), blank=0) as name:
        for _ in range(3):
            rng.choice((refused, held, objects, null))(run, rng, name)
        run.obs('custom', tuple(sorted(set(str(x) for x in gen.SCHEMA[name]['params'].values()))))


def objects(run, rng, name=None):
    """Values that no JSON text gives but a program can: never another type than declared in the end."""
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    params = {k: v for k, v in gen.SCHEMA[name]['params'].items() if v[0] in ('str', 'int', 'bool', 'list', 'splist', 'rlist', 'ilist', 'json', 'dict')}
    if not params:
        return
    k = rng.choice(sorted(params))
    kind = params[k][0]
    v = rng.choice((b'abc', bytearray(b'a'), ('a', 'b'), {'a', 'b'}, frozenset('a'), decimal.Decimal('1.5'), Odd(), 5.0, 1e3, 1.5, -0.25, 2.0 ** 40, 3 + 1j,
                    [b'a'], ['a', b'b'], ['a', ('b',)], [Odd()], [5.0], ['a', 1e3], range(2), memoryview(b'x'), datetime.datetime(2020, 1, 1), Odd, len,
                    float(rng.randint(0, 10 ** 9))))
    if rng.random() < .3:
        how, fn = 'kw', lambda m: cls(set_defaults=False, **{k: v})
    elif rng.random() < .5:
        how, fn = 'dict', lambda m: m.from_dict({k: v})
    else:
        def fn(m):
            m[k] = v
            return m
        how = 'setitem'
    m = cls(set_defaults=False)
    run.note(cls=name, param=k, kind=kind, value=v, how=how)
    try:
        m = fn(m)
    except Exception:
        run.expect(k not in m, '%s holds %r after it was refused', k, m.get(k))
        run.obs('object_refused', (name, k, repr(v)[:30]))
        return
    if k not in m:
        run.obs('object_dropped', (name, k))
        return
    h = m[k]
    if kind == 'int':
        run.expect(type(h) is int, '%s holds %r, not a number', k, h)
        if isinstance(v, float):
            run.expect(abs(h - v) < 1, '%s holds %r instead of %r', k, h, v)
    elif kind == 'bool':
        run.expect(isinstance(h, bool), '%s holds %r, not a boolean', k, h)
    elif kind == 'str':
        run.expect(isinstance(h, str), '%s holds %r, not a string', k, h)
    elif kind == 'ilist':
        run.expect(isinstance(h, list) and all(isinstance(x, int) for x in h), '%s holds %r, not a list of numbers', k, h)
    elif kind in ('list', 'splist', 'rlist'):
        run.expect(isinstance(h, list) and all(isinstance(x, str) for x in h), '%s holds %r, not a list of strings', k, h)
    elif kind in ('json', 'dict'):
        run.expect(isinstance(h, dict), '%s holds %r, not an object', k, h)
    else:
        run.expect(isinstance(h, (dict, str)) or hasattr(h, 'to_dict'), '%s holds %r, not an object', k, h)
    run.obs('object_held', (name, k, repr(v)[:30]))


def null(run, rng, name=None):
    """null for a list parameter is refused; null for a single valued one is no value, not another value."""
    name = name or rng.choice(NAMES)
    cls = gen.cls_of(name)
    params = gen.SCHEMA[name]['params']
    k = rng.choice(sorted(params))
    kind = params[k][0]
    m = cls(set_defaults=False)
    if kind in ('list', 'splist', 'rlist', 'ilist'):
        run.raises('%s with %s=null' % (name, k), put(rng, cls, k, None)[1], m)
        run.expect(k not in m, '%s holds %r', k, m.get(k))
    elif kind in ('str', 'int', 'bool', 'json', 'dict'):
        m = run.must('null', put(rng, cls, k, None)[1], m)
        run.expect(m.get(k) is None, '%s=null became %r', k, m.get(k))
    else:
        return
    run.obs('null', (name, k))


TOGETHER = ('refused', 'held', 'nested', 'null', 'objects', 'custom')


def scenarios(run):
    run.rules.append('every class x parameter x wrong/right typed value x delivery; distinct = (class, parameter, value)')
    run.assumptions += ['decimal strings are numbers and space separated strings are lists (documented conversions); floats for '
                        'integer parameters are not judged; a list of nothing but one null is no value',
                        'urlencoded input is not typed beyond strings, lists and JSON objects']
    run.require(object_refused=1000, object_held=20, refused=2000, held=1500, nested=150, null=150, custom=1400)
    return {'refused': (refused, 6000, 150000), 'held': (held, 3000, 80000), 'nested': (nested, 400, 8000), 'null': (null, 500, 8000),
            'objects': (objects, 3000, 40000), 'custom': (custom, 1500, 40000)}
