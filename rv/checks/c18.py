"""C18 a message is a mapping: model-based histories against a plain dict, plus the set-like helpers."""
import json

from rv import gen
from rv.checks import c12
from oidcmsg.message import Message, add_non_standard, by_schema

NAMES = sorted(gen.SCHEMA)
OK = ('str', 'int', 'bool', 'list', 'splist', 'json')


def value(rng, name, k):
    kind = c12.kind_of(name, k)
    if kind in OK:
        return gen.conform(rng, name, k, kind) if rng.random() < .5 else gen.scalar(rng, kind)
    while True:
        v = gen.json_value(rng, 2)
        if v not in ('', [''], None):
            return v


def history(run, rng):
    name = rng.choice(NAMES)
    cls = gen.cls_of(name)
    sch = gen.SCHEMA[name]['params']
    ok = [k for k in sorted(sch) if sch[k][0] in OK]
    keys = rng.sample(ok, min(5, len(ok))) + [gen.extra_key(rng) for _ in range(4)]
    plain_kinds = [k for k in ok if sch[k][0] in ('str', 'int', 'bool')]
    if plain_kinds:
        keys += ['%s#%s' % (rng.choice(plain_kinds), rng.choice(gen.LANGS)) for _ in range(rng.randint(0, 2))]
    nullable = [k for k in keys if c12.kind_of(name, k) in ('str', 'int', 'bool', None)]
    null = lambda d: {x: (None if x in nullable and rng.random() < .1 else v) for x, v in d.items()}
    m = cls(set_defaults=False)
    model = {}
    if rng.random() < .5:
        for k in rng.sample(keys, 3):
            model[k] = value(rng, name, k)
        m = cls(set_defaults=False, **model)
    ops = []
    for _ in range(rng.choice((5, 15, 40))):
        op = rng.choice(('set', 'set', 'set', 'set', 'get', 'get', 'del', 'in', 'len', 'iter', 'items', 'update', 'updatemsg', 'pop',
                         'popmissing', 'setdefault', 'clear', 'popitem', 'eq', 'copy', 'extra', 'weed', 'blanks', 'only', 'type',
                         'fromdict', 'badupdate', 'defaults'))
        k = rng.choice(keys)
        ops.append((op, k))
        if op == 'set':
            model[k] = null({k: value(rng, name, k)})[k]
            m[k] = model[k]
        elif op == 'get':
            if k in model:
                run.expect(c12.same(m[k], model[k]) and c12.same(m.get(k), model[k]) and c12.same(m.get(k, 'd'), model[k]),
                           '%s: [%r] is %r instead of %r', name, k, m.get(k), model[k])
            else:
                e = run.raises('[%r] of a parameter without value' % k, lambda: m[k])
                run.expect(isinstance(e, KeyError), 'absent parameter raised %r', e)
                run.expect(m.get(k) is None and m.get(k, 'd') == 'd', 'get() of an absent parameter')
        elif op == 'del':
            if k in model:
                del model[k]
                del m[k]
            else:
                e = run.raises('deleting an absent parameter', m.__delitem__, k)
                run.expect(isinstance(e, KeyError), 'absent parameter raised %r', e)
        elif op == 'in':
            run.expect((k in m) == (k in model), '%r in message is %r', k, k in m)
        elif op == 'len':
            run.expect(len(m) == len(model), 'length %r instead of %r', len(m), len(model))
        elif op == 'iter':
            run.expect(sorted(m) == sorted(model) and list(m.keys()) == list(m), 'iteration gives %r instead of %r', list(m), list(model))
        elif op == 'items':
            run.expect(list(m.items()) == list(zip(m, m.values())) and dict(m.items()) == model, 'items() differ')
            run.expect(dict(m) == model, 'dict(message) differs')
        elif op == 'update':
            d = {x: value(rng, name, x) for x in rng.sample(keys, 2)}
            d = null(d)
            model.update(d)
            m.update(d)
        elif op == 'updatemsg':
            d = {x: value(rng, name, x) for x in rng.sample(keys, 2)}
            if rng.random() < .4:        # values that are the defaults too
                d = dict(c12.defaults(name), **d) if rng.random() < .5 else dict(d, **c12.defaults(name))
            src = cls(set_defaults=False, **d)
            if rng.random() < .4:
                d = null(d)
                src.update(d)
            model.update(d)
            m.update(src)
        elif op == 'badupdate':
            e = run.raises('update with something that is not a mapping', m.update, rng.choice(('abc', 5, [('a', 'b')], None)))
        elif op == 'pop':
            if k in model:
                run.expect(c12.same(m.pop(k), model.pop(k)), 'pop(%r) differs', k)
        elif op == 'popmissing':
            if k not in model:
                run.expect(m.pop(k, 'd') == 'd', 'pop with default')
        elif op == 'setdefault':
            v = value(rng, name, k)
            run.expect(c12.same(m.setdefault(k, v), model.setdefault(k, v)), 'setdefault differs')
        elif op == 'clear' and rng.random() < .2:
            m.clear()
            model.clear()
        elif op == 'popitem':
            if model:
                kk, v = m.popitem()
                run.expect(kk in model and c12.same(model.pop(kk), v), 'popitem() gave %r', (kk, v))
        elif op == 'eq':
            run.expect(m == cls(set_defaults=False).from_dict(dict(model)) or any(v in ('', [], None) for v in model.values()),
                       'not equal to a message with the same content')
            run.expect(not (m == model) and m != model, 'message equal to a dict')
            other = cls(set_defaults=False)
            other.update(model)
            run.expect(m == other and other == m and not m != other, 'not equal to a message with the same content')
            other[keys[-1]] = 'something-else-' + str(rng.random())
            run.expect(m != other and not m == other, 'equal to a message with other content')
            sub = type('Another', (cls,), {})(set_defaults=False)
            sub.update(model)
            run.expect(not m == sub, 'equal to a message of another type')
        elif op == 'copy':
            c = m.copy()
            run.expect(c == m and list(c.items()) == list(m.items()), 'copy differs')
            if rng.random() < .5:
                m = c
        elif op == 'extra':
            e = m.extra()
            run.expect(e == {x: v for x, v in model.items() if x not in sch}, 'extra() gave %r', e)
        elif op == 'only':
            run.expect(m.only_extras() == (not any(x in sch for x in model)), 'only_extras() gave %r for %r', m.only_extras(), sorted(model))
        elif op == 'weed' and rng.random() < .3:
            m.weed()
            model = {x: v for x, v in model.items() if x in sch}
        elif op == 'blanks' and rng.random() < .3:
            m.rm_blanks()
            for x in list(model):
                if model[x] in ('', [], {}, None) and not isinstance(model[x], (bool, int)):
                    del model[x]
                elif not model[x]:      # zero and False: whether they count as blank is not specified
                    if x not in m:
                        del model[x]
        elif op == 'type':
            run.expect(m.type() == name.split(':')[1], 'type() is %r', m.type())
        elif op == 'fromdict':
            d = {x: value(rng, name, x) for x in rng.sample(keys, 2)}
            d = {x: v for x, v in d.items()}
            model.update(d)
            m.from_dict(d)
        elif op == 'defaults':
            m.set_defaults()
            for x, v in gen.SCHEMA[name]['default'].items():
                model.setdefault(x, v)
        run.expect(set(m.keys()) == set(model), 'after %s: parameters %r instead of %r', op, sorted(m.keys()), sorted(model))
        run.obs('op', (op, name))
    run.note(cls=name, ops=ops)
    run.expect({k: c12.plain(m[k]) for k in m} == {k: c12.plain(v) for k, v in model.items()}, 'content %r instead of %r',
               c12.plain(m), model)
    run.expect(len(m.to_dict()) == len(model), 'to_dict() has another number of parameters')
    run.obs('history', (name, len(model)))


def helpers(run, rng):
    name, other = rng.choice(NAMES), rng.choice(NAMES)
    cls, ocls = gen.cls_of(name), gen.cls_of(other)
    sch, osch = gen.SCHEMA[name]['params'], gen.SCHEMA[other]['params']
    d = dict(gen.params(rng, other, ('str', 'int', 'bool'), p=.5), **{gen.extra_key(rng): gen.text(rng) for _ in range(3)})
    for k in rng.sample(sorted(sch), min(2, len(sch))):
        if k not in osch and sch[k][0] == 'str':
            d[k] = gen.text(rng)
    run.expect(sorted(cls().required_parameters()) == sorted(k for k, (_, r) in sch.items() if r), 'required parameters of %s are not %r', name,
               cls().required_parameters())
    run.expect(sorted(cls().parameters()) == sorted(sch), 'parameters of %s are not %r', name, cls().parameters())
    r = by_schema(cls, **d)
    run.expect(r == {k: v for k, v in d.items() if k in sch}, 'by_schema gave %r', r)
    m1, m2 = cls(set_defaults=False), ocls(set_defaults=False, **d)
    for k in rng.sample(sorted(d), 2):
        if k not in sch:
            m1[k] = 'mine'
    before, before2 = dict(m1.items()), dict(m2.items())
    add_non_standard(m1, m2)
    exp = dict(before)
    exp.update({k: v for k, v in before2.items() if k not in osch and k not in sch})
    run.note(cls=name, other=other, content=d)
    run.expect(dict(m1.items()) == exp, 'add_non_standard gave %r instead of %r', dict(m1.items()), exp)
    run.expect(dict(m2.items()) == before2, 'add_non_standard changed its source')
    run.obs('helpers', (name, other))


TOGETHER = ('history', 'helpers')


def scenarios(run):
    run.rules.append('operation histories per class compared step by step with a dict model; distinct = (operation, class)')
    run.assumptions.append('whether zero or False count as blank in rm_blanks is not judged; values set conform to their type')
    run.require(op=10000, history=900, helpers=500)
    return {'history': (history, 1500, 50000), 'helpers': (helpers, 800, 20000)}
