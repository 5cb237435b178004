"""C16 enumerated parameters: only the values the specification lists verify, per class."""
from rv import gen, samples
from rv.checks import c14

CASES = [(n, k) for n in sorted(gen.SCHEMA) for k in gen.SCHEMA[n]['allowed']]
ALLVALS = sorted({v for n in gen.SCHEMA for al in gen.SCHEMA[n]['allowed'].values() for v in al})


def enumerated(run, rng):
    name, k = rng.choice(CASES)
    al = gen.SCHEMA[name]['allowed'][k]
    kind = gen.SCHEMA[name]['params'][k][0]
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name)
    pick = lambda ok: rng.choice(al) if ok else rng.choice((gen.near(rng, rng.choice(al)), rng.choice(ALLVALS),
                                                             rng.choice(al) + ' ' + rng.choice(al), rng.choice(core_lits())))
    ok = rng.random() < .4
    if kind in ('list', 'splist'):
        v = rng.sample([a for a in al if a != 'none'], rng.randint(1, min(3, len(al) - 1))) if rng.random() < .8 else [rng.choice(al)]
        if rng.random() < .25 and v != ['none']:
            v = [rng.choice(v) for _ in range(rng.choice((2, 5, 9, 40)))]         # repeated ones
        if not ok:
            x = pick(False)
            while not x.strip() or ' ' in x or x in al:
                x = pick(False).replace(' ', '')
            if rng.random() < .1:
                x, v = '', v or [rng.choice(al)]
            for _ in range(rng.choice((1, 1, 2, 3))):
                v.insert(rng.choice((rng.randint(0, len(v)), len(v), 0)), x)
            if rng.random() < .2 and x:
                v = [x] * rng.randint(2, 3)
    else:
        v = pick(ok)
        while not ok and (v in al or not v):
            v = pick(False)
    d[k] = v
    m = None
    via, m = c14.build(rng, cls, d, item=True)
    side = rng.random()
    if side < .15:
        m.lax = True            # is about serialization
    elif side < .35:            # tagged parameters are others
        for t in rng.sample(gen.LANGS, rng.randint(1, 2)):
            m['%s#%s' % (k, t)] = rng.choice(([rng.choice(al)], al)) if kind in ('list', 'splist') else rng.choice(al)
    elif side < .5:
        m['x_' + gen.word(rng)] = rng.choice(al)
    run.note(cls=name, param=k, value=v, via=via, allowed=ok, side=side)
    if ok:
        r = run.must('%s with %s=%r' % (name, k, v), m.verify, **kw)
        run.expect(r is not False, '%s with %s=%r not accepted', name, k, v)
        run.obs('allowed', (name, k, str(v)))
    else:
        run.refuses('%s with %s=%r' % (name, k, v), m.verify, **kw)
        run.obs('not_allowed', (name, k, str(v)))
    if rng.random() < .3:       # history: the value changes after a successful verification
        good, kw = samples.valid(rng, name)
        m = cls(**good)
        m.verify(**kw)
        m[k] = v
        if ok:
            run.must('%s after setting %s=%r' % (name, k, v), m.verify, **kw)
        else:
            run.refuses('%s after setting %s=%r' % (name, k, v), m.verify, **kw)
        run.obs('changed', (name, k, ok))


OTHERS = ['service', 'browser', 'create', 'form_post', 'query.jwt', 'spa', 'hybrid', 'device', 'normal', 'aggregated', 'distributed', 'V', 'private',
          'implicit', 'urn:ietf:params:oauth:grant-type:device_code', 'invalid_dpop_proof', 'use_dpop_nonce', 'invalid_target', 'mobile']


def sweep(run, rng):
    """Every text in the sources, every value listed anywhere and some known from other specifications, for one parameter."""
    name, k = CASES[run.case['index'] % len(CASES)]
    al = gen.SCHEMA[name]['allowed'][k]
    kind = gen.SCHEMA[name]['params'][k][0]
    cls = gen.cls_of(name)
    d, kw = samples.valid(rng, name)
    run.note(cls=name, param=k)
    for x in sorted(set(core_lits()) | set(ALLVALS) | set(OTHERS)):
        if x in al or not x.strip() or kind in ('list', 'splist') and ' ' in x:
            continue
        v = x
        if kind in ('list', 'splist'):
            v = [x] if rng.random() < .5 else rng.choice(([rng.choice(al), x], [x, rng.choice(al)]))
        run.refuses('%s with %s=%r' % (name, k, v), cls(**dict(d, **{k: v})).verify, **kw)
        run.counts['swept'] += 1
    for x in al:
        run.must('%s with %s=%r' % (name, k, x), cls(**dict(d, **{k: [x] if kind in ('list', 'splist') else x})).verify, **kw)
    run.obs('sweep', (name, k))


PNAMES = sorted({k for _, k in CASES})


def custom(run, rng):
    """Classes outside the library: their lists, or having none, count for them alone."""
    from oidcmsg import message
    ks = rng.sample(PNAMES, rng.randint(1, 4))
    kinds = {k: rng.choice(('str', 'list', 'splist')) for k in ks}
    spec = {'str': message.SINGLE_OPTIONAL_STRING, 'list': message.OPTIONAL_LIST_OF_STRINGS, 'splist': message.OPTIONAL_LIST_OF_SP_SEP_STRINGS}
    lists = {k: [gen.word(rng) + str(i) for i in range(rng.randint(1, 4))] for k in ks if rng.random() < .5}
    body = {'c_param': {k: spec[kinds[k]] for k in ks}}
    if lists or rng.random() < .5:
        body['c_allowed_values'] = {k: list(v) for k, v in lists.items()}
    base = message.Message
    if rng.random() < .4:       # on top of a class of the library
        name = rng.choice(sorted(gen.SCHEMA))
        base = gen.cls_of(name)
        body['c_param'] = dict({k: (v[0], False) + tuple(v[2:]) for k, v in base.c_param.items()}, **body['c_param'])
        base = type('Base', (message.Message,), {})
    cls = type('Custom', (base,), body)
    run.note(lists=lists, kinds=kinds)
    for _ in range(4):
        good, bad, d = True, None, {}
        for k in rng.sample(ks, rng.randint(1, len(ks))):
            ok = rng.random() < .7
            pool = lists.get(k) or [gen.word(rng) or 'w', rng.choice(ALLVALS)]
            vals = [rng.choice(pool) for _ in range(rng.choice((1, 1, 2, 7)))]
            if not ok and k in lists:
                x = rng.choice((rng.choice(ALLVALS), rng.choice(lists[k]) + 'x', 'x'))
                if x not in lists[k]:
                    vals.insert(rng.choice((0, len(vals))), x)
                    good, bad = False, k
                    if kinds[k] == 'str':
                        vals = [x]
            d[k] = vals[0] if kinds[k] == 'str' else vals
        m = cls(**d)
        if good:
            run.must('%r of a class with the lists %r' % (d, lists), m.verify)
            run.obs('custom_allowed', (tuple(sorted(d)), tuple(sorted(lists))))
        else:
            run.refuses('%r of a class with the lists %r' % (d, lists), m.verify)
            run.obs('custom_refused', (bad, kinds[bad]))


def core_lits():
    from rv import core
    return core.LITS


TOGETHER = ('enumerated', 'custom')


def scenarios(run):
    run.rules.append('every enumerated parameter x listed / confusable / other class\' values x delivery; distinct = (class, '
                     'parameter, value)')
    run.require(allowed=700, not_allowed=1000, changed=300, custom_allowed=300, custom_refused=150)
    run.require(swept=3000)
    return {'enumerated': (enumerated, 3500, 120000), 'sweep': (sweep, len(CASES), 3 * len(CASES)), 'custom': (custom, 400, 12000)}
