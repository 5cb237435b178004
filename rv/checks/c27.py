"""C27 labelled stores over one directory are isolated from each other; issuers are kept apart; configuration selects the store."""
import copy
import json
import os
from urllib.parse import quote_plus

from rv import gen, store
from oidcmsg.storage import init, utils
from oidcmsg.storage.abfile import AbstractFileSystem, LabeledAbstractFileSystem
from oidcmsg.storage.extension import LabeledDict
from oidcmsg import context

JSONC = 'oidcmsg.storage.converter.JSON'
LAFS = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'
AFS = 'oidcmsg.storage.abfile.AbstractFileSystem'
LABELS = ['a', 'A', 'ab', 'b', 'default', 'foo', 'fo', 'oo', 'foo bar', 'a/b', 'k', '\u00e5', 'a-b', '1', 'client', 'session', 'x.y', '%41', '']


def teardown(run):
    store.drop_all()


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def compare(run, st, model, ks, what):
    got = list(st.keys())
    run.expect(sorted(got) == sorted(model), '%s: keys %r, expected %r', what, sorted(got), sorted(model))
    it = list(st)
    run.expect(len(it) == len(model) and same(dict(it), model), '%s: iterates %r, expected %r', what, it, model)
    if hasattr(st, 'items'):
        it = list(st.items())
        run.expect(len(it) == len(model) and same(dict(it), model), '%s: items %r, expected %r', what, it, model)
    if hasattr(st, '__len__'):
        run.expect(len(st) == len(model), '%s: len %r, expected %d', what, len(st), len(model))
    for k in ks:
        one(run, st, model, k, what)


def one(run, st, model, k, what):
    run.expect((k in st) is (k in model), '%s: %r in store is %r', what, k, k in st)
    if k in model:
        run.expect(same(st[k], model[k]) and same(st.get(k), model[k]) and same(st.get(k, 'dflt'), model[k]), '%s: %r reads as %r, expected %r', what,
                   k, st[k], model[k])
        run.obs('present')
    else:
        run.expect(st.get(k) is None and st.get(k, 'dflt') == 'dflt', '%s: missing %r reads as %r', what, k, st.get(k, 'dflt'))
        try:
            v = st[k]
        except KeyError:
            v = None
        run.expect(v is None, '%s: missing %r reads as %r', what, k, v)
        run.obs('absent')


def marked(rng, labs):
    """Keys that contain what the stores put in front of the keys of one of these labels."""
    mark = rng.choice(['__%s__' % lab for lab in labs if lab] or ['__a__'])
    return rng.sample(['x' + mark + 'y', 'y' + mark, mark, mark + 'x', mark + mark, mark[1:], mark[:-1], 'x' + mark + 'y' + mark + 'z'], rng.choice((0, 1, 2)))


def make(rng, d, label, how):
    conf = {'fdir': d, 'value_conv': JSONC}
    if how == 'conf':
        return LabeledAbstractFileSystem(dict(conf, label=label))
    if how == 'both' and label:
        return LabeledAbstractFileSystem(dict(conf, label=rng.choice(LABELS)), label=label)
    if how == 'arg':
        return LabeledAbstractFileSystem(conf, label=label)
    return init.storage_factory(dict(conf, label=label, handler=LAFS))


def labels(run, rng):
    d = store.scratch()
    try:
        labs = rng.sample(LABELS, rng.randint(2, 4))
        insts = [(lab, make(rng, d, lab, rng.choice(('conf', 'arg', 'factory', 'both')))) for lab in labs for _ in range(rng.choice((1, 1, 2)))]
        models = {lab: {} for lab in labs}
        ks = [k for k in store.keys(rng, rng.randint(1, 4)) + marked(rng, labs) if len(k) < 60 and not (k.startswith('_') and '' in labs)] or ['k']
        log = []

        def view(lab):
            if lab:
                return models[lab]
            out = dict(models[''])
            for x, m in models.items():
                if x:
                    out.update({'__%s__%s' % (x, k): v for k, v in m.items()})
            return out
        for _ in range(rng.choice((5, 10, 20))):
            lab, st = rng.choice(insts)
            k = rng.choice(ks)
            op = rng.choice(('set', 'set', 'del', 'read', 'update', 'full'))
            log.append((op, lab, k))
            if op == 'set':
                v = store.value(rng)
                run.must('storing', st.__setitem__, k, copy.deepcopy(v))
                models[lab][k] = v
            elif op == 'update':
                ava = {x: store.value(rng) for x in rng.sample(ks, rng.randint(1, len(ks)))}
                run.must('update', st.update, copy.deepcopy(ava))
                models[lab].update(ava)
            elif op == 'del':
                try:
                    del st[k]
                except KeyError:
                    run.expect(k not in models[lab], 'deleting %r from %r: KeyError', k, lab)
                models[lab].pop(k, None)
            elif op == 'read':
                pass
            elif op == 'full':
                compare(run, st, view(lab), ks, 'label %r after %r' % (lab, log[-5:]))
            one(run, st, view(lab), k, 'label %r after %r' % (lab, log[-5:]))
            store.settle()
        run.note(log=log, labels=labs)
        for lab, st in insts:
            compare(run, st, view(lab), ks, 'label %r at the end' % lab)
        for lab in labs:
            compare(run, make(rng, d, lab, 'conf'), view(lab), ks, 'label %r after reopening' % lab)
        run.obs('labels', tuple(sorted(labs)))
    finally:
        store.drop(d)


def memory(run, rng):
    """The in-memory store behind contexts and boxes without a database."""
    labs = rng.sample(LABELS, 3)
    ks = list(dict.fromkeys(store.keys(rng, 3) + [''] + marked(rng, labs)))
    st = [(lab, LabeledDict(lab), {}) for lab in labs] + [('dflt', init.init_storage(), {}), ('box', init.init_storage(None, 'box'), {})]
    for _ in range(20):
        lab, s, m = rng.choice(st)
        k = rng.choice(ks)
        op = rng.choice(('set', 'item', 'del', 'update', 'read'))
        v = gen.json_value(rng, 2)
        if op == 'set':
            s.set(k, v)
            m[k] = v
        elif op == 'item':
            s[k] = v
            m[k] = v
        elif op == 'update':
            s.update({k: v, 'other': 1})
            m.update({k: v, 'other': 1})
        elif op == 'del':
            if k in m:
                del s[k]
                del m[k]
        run.note(label=lab, op=op, key=k)
        one(run, s, m, k, 'label %r' % lab)
    for lab, s, m in st:
        compare(run, s, m, ks, 'label %r' % lab)
    run.obs('memory', tuple(sorted(labs)))


ISSUERS = ['https://op.example.org', 'https://op.example.org/', 'https://op.example.org/a', 'https://op.example.org/b', 'https://op.example.org:8443',
           'http://op.example.org', 'https://OP.example.org', 'https://op.example.org/a/b', 'https://op.example.org/?x', 'https://op.example.org/a%2Fb',
           'https://op.example.org/a b', 'https://op.example.org/a+b', 'urn:x:../y', '../../x', 'https://\u00e5.example.org', 'https://op.example.org/../a',
           'x', 'X', 'op.example.org'] + [
    'https://op.example.org/realms/' + 'long-tenant-name/' * 5 + x for x in ('a', 'b', '', 'a/', 'ab')] + ['https://op.example.org/' + 'y' * 170 + x for x in 'abc']


def issuers(run, rng):
    """Contexts of different issuers under one root never share anything; the same issuer finds its own things again."""
    d = store.scratch()
    try:
        root = os.path.join(d, 'root')
        conf = {'default': {'handler': AFS, 'fdir': root + '/{issuer}/db', 'value_conv': JSONC},
                'box': {'handler': LAFS, 'fdir': root + '/{issuer}/box', 'value_conv': JSONC, 'label': 'box'}}
        if rng.random() < .2:
            conf['abstract_storage_cls'] = 'oidcmsg.storage.extension.LabeledAbstractStorage'     # older configurations carry it along
        if rng.random() < .2:       # copied from another's effective configuration
            for part in ('default', 'box'):
                conf[part]['issuer'] = rng.choice(('x', quote_plus(rng.choice(ISSUERS))))
        orig = copy.deepcopy(conf)
        isss = rng.sample(ISSUERS, rng.randint(2, 4))
        if rng.random() < .6:       # one that is easily confused with another
            o = rng.choice(isss)
            c = rng.choice((o.replace('/', '_'), o.replace('/', '_').replace(':', '_'), o.replace(':', '_'), o.replace('/', '-'), o.replace('.', '_'), quote_plus(o),
                            o.replace('/', '%2F'), o.replace('+', ' '), o.replace(' ', '+'), o.replace('://', ':/'), o.replace('//', '/'), o.split('//')[-1],
                            o.replace('https', 'http'), o.upper(), o.replace('/', ''), o + '.', o + '#', o + '?', o + '?tenant=b', o + '#b', o + ';b', o + '&b', o + '@b', o + ':443', o + '/.', o + '_', o.strip('/'), o.replace('/', '\\')))
            if c and c not in isss and c not in ('.', '..') and len(quote_plus(c)) < 250:
                isss.insert(rng.randint(0, len(isss)), c)
        model = {i: ({}, {}) for i in isss}

        def ctx(i):
            c = context.OidcContext({'issuer': i, 'db_conf': conf})
            c.add_boxes({'box': 'box_store'}, c.db_conf)
            return c
        for _ in range(rng.choice((4, 8))):
            i = rng.choice(isss)
            c = ctx(i)
            k = rng.choice(('seed', 'k', 'https://rp.example.com'))
            v = gen.word(rng)
            if rng.random() < .5:
                c.set(k, v)
                model[i][0][k] = v
            else:
                c.box_store[k] = v
                model[i][1][k] = v
            store.settle()
        run.note(issuers=isss, model={i: m for i, m in model.items()})
        for i in isss:
            c = ctx(i)
            compare(run, c.db, model[i][0], ['seed', 'k'], 'context of %r' % i)
            compare(run, c.box_store, model[i][1], ['seed', 'k'], 'box of %r' % i)
        run.expect(conf == orig, 'the configuration was changed to %r', conf)
        out = [r for r, _, fs in os.walk(d) if fs and not os.path.realpath(r).startswith(os.path.realpath(root) + os.sep)]
        run.expect(not out, 'files outside the configured directory: %r', out)
        run.obs('issuers', tuple(sorted(isss)))
        run.raises('a store per issuer without an issuer', rng.choice((AbstractFileSystem, LabeledAbstractFileSystem)),
                   dict({'fdir': root + '/{issuer}/db', 'value_conv': JSONC}, **rng.choice(({}, {'issuer': ''}, {'issuer': None}))))
    finally:
        store.drop(d)


def select(run, rng):
    """init_storage: the named configuration, else the default one, else memory; two boxes are two stores."""
    d = store.scratch()
    try:
        names = rng.sample(['client', 'session', 'keys', 'x'], 3)
        have = rng.sample(names, rng.randint(0, 3))
        handler = rng.choice((AFS, 'oidcmsg.storage.abfile:AbstractFileSystem', utils.qualified_name(AbstractFileSystem)))
        conf = {n: {'handler': handler, 'fdir': os.path.join(d, n), 'value_conv': JSONC} for n in have}
        dflt = rng.random() < .5
        if dflt:
            conf['default'] = {'handler': AFS, 'fdir': os.path.join(d, 'default'), 'value_conv': JSONC}
        orig = copy.deepcopy(conf)
        got = {}
        for n in names:
            s = run.must('init_storage', init.init_storage, conf or None, n)
            got[n] = s
            s['name'] = n
            if n in have:
                want = os.path.join(d, n)
            elif dflt:
                want = os.path.join(d, 'default')
            else:
                want = None
            if want:
                run.expect(isinstance(s, AbstractFileSystem), '%s is a %s', n, type(s))
                run.expect(AbstractFileSystem({'fdir': want, 'value_conv': JSONC})['name'] == n, '%s is not kept in %s', n, want)
            else:
                run.expect(isinstance(s, LabeledDict), '%s is a %s', n, type(s))
            run.obs('selected', (n in have, dflt))
        for n in names:
            if n in have or not dflt:
                run.expect(got[n]['name'] == n and list(got[n].keys()) == ['name'], '%s holds %r', n, list(got[n].keys()))
        run.expect(conf == orig, 'the configuration was changed to %r', conf)
        bad = rng.choice(('AbstractFileSystem', 'oidcmsg.storage.abfile:AbstractFileSystem:x', 'oidcmsg.storage.abfile.Nothing', 'oidcmsg.nothing.X', ':x', 'x:'))
        run.raises('handler %r' % bad, init.storage_factory, {'handler': bad, 'fdir': d})
        run.raises('a configuration without handler', init.storage_factory, {'fdir': d})
        run.note(have=have, default=dflt)
    finally:
        store.drop(d)


def scenarios(run):
    run.rules.append('interleaved histories over labels (confusable ones included) of one directory, memory stores, issuer partitions and '
                     'storage selection, against one dict per label; distinct = label sets, issuer sets, selections')
    run.assumptions.append("labels that neither contain '__' nor end in '_'; keys of the unlabelled view that do not look labelled")
    run.require(labels=100, memory=100, issuers=40, selected=100, present=1000, absent=500)
    return {'labels': (labels, 250, 6000), 'memory': (memory, 200, 8000), 'issuers': (issuers, 80, 2000), 'select': (select, 100, 2000)}
