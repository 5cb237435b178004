"""C29 a context gives back what was put into it, keeps contexts apart and holds exactly the keys it was configured with."""
import copy
import json
import os

from cryptojwt import KeyJar
from cryptojwt.jws.jws import JWS, factory

from rv import gen, jose, samples, store
from oidcmsg.context import OidcContext
from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.extension import LabeledDict
from oidcmsg.storage.init import init_storage
from oidcmsg.message import Message

JSONC = 'oidcmsg.storage.converter.JSON'
LAFS = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'
AFS = 'oidcmsg.storage.abfile.AbstractFileSystem'
ISSUER = 'cryptojwt.serialize.item.KeyIssuer'
ENTITIES = ['https://op.example.org', 'https://op.example.org/', 'client_1', 'https://\u00e5.example.com/a b', 'x/../y', 'urn:x:y']


def teardown(run):
    store.drop_all()




def plain(m):
    """The reference rendering of the content the generator put in (text, numbers, lists and objects only)."""
    return json.loads(json.dumps(m))


def put(rng):
    """(what is stored, what has to be read back)"""
    kind = rng.choice(('text', 'json', 'msg', 'nested', 'any'))
    if kind == 'text':
        v = gen.text(rng).strip()
        return kind, v, v
    if kind == 'json':
        v = gen.json_value(rng, 3)
        return kind, v, plain(v)
    if kind == 'any':
        name = rng.choice(samples.NAMES)
        d, _ = samples.valid(rng, name, p=rng.choice((.2, .6)))
        m = gen.cls_of(name)(**d)
        return kind, m, plain(m.to_dict())
    from oidcmsg import oidc, oauth2
    if kind == 'msg':
        args = {'client_id': gen.word(rng), 'state': gen.word(rng), 'redirect_uri': 'https://rp.example.com/' + gen.word(rng),
                'response_type': 'code', 'scope': 'openid'}
        cls = rng.choice((oidc.AuthorizationRequest, oauth2.AuthorizationRequest))
        m = cls(**args)
        want = dict(args)
        if rng.random() < .5:
            m['x_extra'] = want['x_extra'] = [gen.word(rng), gen.word(rng)]
        for k, v in (('x_zero', 0), ('x_false', False), ('x_list', []), ('x_empty', ''), ('x_obj', {}), ('x_true', True), ('x_none', None)):
            if rng.random() < .25:
                m[k] = want[k] = v
        return kind, m, want
    inner = {'sub': gen.word(rng), 'iss': 'https://op.example.org', 'aud': ['a', 'b'], 'exp': rng.randint(1, 2 ** 32), 'iat': rng.randint(1, 2 ** 32)}
    m = oidc.AuthorizationResponse(state='s', code='c')
    m['inner'] = Message(**inner)
    m['list'] = [Message(a='b'), Message(c=1)]
    return kind, m, {'state': 's', 'code': 'c', 'inner': inner, 'list': [{'a': 'b'}, {'c': 1}]}


def context_conf(rng, d):
    how = rng.choice(('memory', 'none', 'afs', 'lafs', 'issuer', 'nodefault'))
    if how == 'memory':
        return how, {}, False
    if how == 'none':
        return how, None, False
    conf = {'db_conf': {'default': {'handler': AFS, 'fdir': os.path.join(d, 'db'), 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': JSONC}}}
    if how == 'lafs':
        conf['db_conf']['default'].update(handler=LAFS, label='ctx')
    if how == 'issuer':
        conf['issuer'] = rng.choice(ENTITIES)
        conf['db_conf']['default']['fdir'] = os.path.join(d, '{issuer}', 'db')
    if how == 'nodefault':
        conf['db_conf']['box'] = conf['db_conf'].pop('default')
        if rng.random() < .5:
            conf['db_conf']['other'] = dict(conf['db_conf']['box'], fdir=os.path.join(d, 'other'))
        return how, conf, False
    for n in rng.sample(('db', 'box', 'client', 'keyjar_', 'context', 'session', 'issuer'), rng.choice((0, 0, 1, 3))):
        conf['db_conf'][n] = {'handler': AFS, 'fdir': os.path.join(d, 'box-' + n), 'value_conv': JSONC}
    return how, conf, True


def setget(run, rng):
    d = store.scratch()
    try:
        how, conf, durable = context_conf(rng, d)
        orig = copy.deepcopy(conf)
        cs = [run.must('creating a context (%s)' % how, OidcContext, copy.deepcopy(conf) if rng.random() < .5 else conf) for _ in range(2)]
        models = [{}, {}] if not durable else [{}] * 2
        run.note(how=how, conf=conf)
        ks = ['seed'] + store.keys(rng, 3) + rng.sample(['my_seed', 'seeds', 'Seed', 'SEED', 'x/seed', '_seed', 'seed_', 'seed '], rng.choice((0, 1)))
        for _ in range(rng.choice((4, 10))):
            i = rng.randrange(2)
            c, m = cs[i], models[i]
            k = rng.choice(ks)
            if k == 'seed':
                v = want = rng.choice((gen.word(rng), gen.text(rng).strip(), 'sl\u00f6jd', ''))
                kind = 'seed'
            else:
                kind, v, want = put(rng)
            looks = repr(v) if not isinstance(v, Message) else repr(list(v.items()))
            run.must('setting %r' % (v,), c.set, k, v)
            run.expect((repr(v) if not isinstance(v, Message) else repr(list(v.items()))) == looks, 'setting %r changed the value to %r', looks, v)
            m[k] = want
            if isinstance(v, Message):
                run.expect(not isinstance(c.db[k], Message), 'a message is kept as a message')
                if rng.random() < .5:
                    v['state'] = 'changed later'
                    v['new'] = 'x'
            store.settle()
            for c2, m2 in zip(cs, models):
                if k not in m2:
                    continue
                shown = m2[k]
                got = run.must('getting %r' % k, c2.get, k)
                if k == 'seed':
                    run.expect(got == shown.encode('utf-8'), 'seed is %r, expected %r', got, shown)
                    run.obs('seed', how)
                else:
                    run.expect(json.dumps(got, sort_keys=True) == json.dumps(shown, sort_keys=True), '%s: %r reads as %r, expected %r', how, k, got, shown)
                    run.obs('item', (how, kind))
        for n in os.listdir(d) if durable else ():
            if n.startswith('box-'):
                run.expect(not os.listdir(os.path.join(d, n)), 'what the context holds is found in %s', n)
        for c, m in zip(cs, models):
            for k in ks:
                if k not in m and k != 'seed':
                    try:
                        v = c.get(k)
                    except KeyError:
                        v = None
                    run.expect(v is None, '%s: %r was never set here but reads as %r', how, k, v)
                    run.obs('apart')
            run.expect(sorted(c.db.keys()) == sorted(m), '%s: holds %r, expected %r', how, sorted(c.db.keys()), sorted(m))
        run.expect(conf == orig, 'the configuration was changed to %r', conf)
        if durable:
            c = OidcContext(conf)
            for k, v in models[0].items():
                got = c.get(k)
                want = v.encode() if k == 'seed' else v
                run.expect(got == want, '%s: after a restart %r reads as %r, expected %r', how, k, got, want)
                run.obs('restart')
    finally:
        store.drop(d)


def boxes(run, rng):
    d = store.scratch()
    try:
        c, c2 = OidcContext(), OidcContext()
        names = rng.sample(['client', 'session', 'state', 'keys', 'x'], rng.randint(1, 4))
        conf = {}
        have = [n for n in names if rng.random() < .6]
        for n in have:
            conf[n] = {'handler': rng.choice((AFS, LAFS)), 'fdir': os.path.join(d, n), 'value_conv': JSONC}
        orig = copy.deepcopy(conf)
        mapping = {n: n + '_box' for n in names}
        was = copy.deepcopy(mapping)
        for x in (c, c2):
            run.must('adding boxes', x.add_boxes, mapping, conf)
        run.expect(conf == orig and mapping == was, 'the arguments were changed to %r, %r', conf, mapping)
        models = {n: ({}, {}) if n not in have else ({},) * 2 for n in names}
        for _ in range(12):
            n, i = rng.choice(names), rng.randrange(2)
            k, v = rng.choice(('k', 'l', 'seed')), gen.word(rng)
            getattr((c, c2)[i], n + '_box')[k] = v
            models[n][i][k] = v
            store.settle()
        for n in names:
            for i, x in enumerate((c, c2)):
                box = getattr(x, n + '_box')
                run.expect({k: v for k, v in box} == models[n][i], 'box %s holds %r, expected %r', n, dict(box), models[n][i])
                run.obs('box', n in have)
        for x in (c, c2):
            run.expect(list(x.db.keys()) == [], 'boxes leak into the default storage: %r', list(x.db.keys()))
        # the boxes are set up again, some of them elsewhere
        moved = dict(conf)
        for n in rng.sample(have, rng.randint(0, len(have))):
            moved[n] = dict(conf[n], fdir=os.path.join(d, 'moved', n))
        run.must('adding boxes again', c.add_boxes, mapping, moved)
        for n in names:
            box = getattr(c, n + '_box')
            want = models[n][0] if n in have and moved[n] == conf[n] else {}
            run.expect({k: v for k, v in box} == want, 'box %s, set up again, holds %r, expected %r', n, dict(box), want)
        run.note(names=names, have=have)
    finally:
        store.drop(d)


DEFS = [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}, {'type': 'EC', 'crv': 'P-384', 'use': ['sig']}, {'type': 'EC', 'crv': 'P-256', 'use': ['enc']},
        {'type': 'OCT', 'bytes': 32, 'use': ['sig', 'enc']}, {'type': 'OCT', 'bytes': 48, 'use': ['sig']}]


def export(kj, owner):
    ks = kj.export_jwks(True, owner)['keys']
    return sorted(json.dumps({k: v for k, v in x.items()}, sort_keys=True) for x in ks)


def material(kj, owner):
    """The keys, not how they are labelled; one entry per key."""
    out = []
    for x in kj.export_jwks(True, owner)['keys']:
        out.append(json.dumps({k: v for k, v in x.items() if k in ('kty', 'crv', 'x', 'y', 'd', 'n', 'e', 'k', 'use')}, sort_keys=True))
    return sorted(out)


def works(run, kj, owner, public, theirs):
    """What is signed with the context's keys is verified with the keys it shows others."""
    for alg, kty in (('ES256', 'EC'), ('ES384', 'EC'), ('RS256', 'RSA')):
        crv = {'ES256': 'P-256', 'ES384': 'P-384'}.get(alg)
        ks = [k for k in kj.get_signing_key(kty, owner) if not crv or k.crv == crv]
        if not ks:
            continue
        other = KeyJar()
        other.import_jwks(public, 'them')
        tok = JWS('x', alg=alg).sign_compact(ks[:1])
        run.expect(factory(tok).verify_compact(tok, other.get_signing_key(kty, 'them')) == 'x', 'key of %r does not verify', owner)
        run.obs('signed', alg)


def keyjars(run, rng):
    d = store.scratch()
    try:
        eid = rng.choice([''] + ENTITIES)
        how = rng.choice(('given', 'keys', 'keys', 'files', 'jwks', 'jwks', 'nothing'))
        conf = {}
        if rng.random() < .5:
            conf['httpc_params'] = rng.choice(({'verify': False}, {'verify': '/etc/ca.pem', 'timeout': 3}, {'timeout': 10}))
        given = None
        want = None
        if how == 'given':
            given = KeyJar()
            if rng.random() < .7:
                given.import_jwks(jose.jwks(rng.choice(('rp', 'iss1')), True), rng.choice(('', 'x')))
            before = {o: export(given, o) for o in given.owners()}
            conf.update(rng.choice(({}, {'jwks': jose.jwks('iss2', True)}, {'keys': {'key_defs': DEFS[:1]}})))
        elif how == 'keys':
            defs = rng.sample(DEFS, rng.randint(1, 3))
            conf['keys'] = {'key_defs': defs, 'uri_path': 'static/jwks.json'}
            want = sum(len(x['use']) for x in defs)
        elif how == 'files':
            conf['keys'] = {'key_defs': DEFS[:2], 'private_path': os.path.join(d, 'priv.json'), 'public_path': os.path.join(d, 'pub.json'), 'read_only': False,
                            'uri_path': 'static/jwks.json'}
            want = 2
        elif how == 'jwks':
            conf['jwks'] = jose.jwks(rng.choice(('rp', 'iss1', 'iss2')), True)
            want = conf['jwks']
        orig = copy.deepcopy(conf)
        c = run.must('creating a context with keys (%s)' % how, OidcContext, conf, given, eid)
        kj = c.keyjar
        run.note(how=how, entity=eid, conf=conf, owners=kj.owners())
        run.expect(conf == orig, 'the configuration was changed to %r', conf)
        if how == 'given':
            run.expect(kj is given, 'the given key jar was not used')
            run.expect({o: export(kj, o) for o in kj.owners()} == before, 'the given key jar was changed')
            run.obs('given')
            return
        run.expect(kj.httpc_params == conf.get('httpc_params', KeyJar().httpc_params), 'the key jar fetches with %r, configured %r', kj.httpc_params,
                   conf.get('httpc_params'))
        if 'httpc_params' in conf:
            run.obs('httpc')
        if how == 'nothing':
            run.expect(kj.owners() == [], 'keys from nowhere: %r', kj.owners())
            run.obs('nothing')
            return
        run.expect(set(kj.owners()) == {'', eid}, 'keys of %r, expected those of "" and %r', kj.owners(), eid)
        mine = material(kj, '')
        if isinstance(want, int):
            run.expect(len(mine) == len(set(mine)) == want, '%d keys (%d distinct), %d configured', len(mine), len(set(mine)), want)
        else:
            ref = KeyJar()
            ref.import_jwks(copy.deepcopy(want), '')
            run.expect(mine == material(ref, ''), 'other keys than the configured ones')
        run.expect(material(kj, eid) == mine, 'the keys of %r differ from the own keys', eid)
        works(run, kj, '', kj.export_jwks(False, eid), eid)
        pub = json.dumps(kj.export_jwks(False, ''))
        run.expect('"d"' not in pub and '"p"' not in pub, 'the public key set holds private parts')
        if how == 'files':
            c2 = OidcContext(conf, entity_id=eid)
            run.expect(material(c2.keyjar, '') == mine, 'the keys written to file are not the ones found after a restart')
            run.obs('restart_files')
        c3 = OidcContext({}, entity_id=eid)
        run.expect(c3.keyjar.owners() == [], 'keys leak into another context')
        run.obs('keys', (how, eid))
    finally:
        store.drop(d)


def persistent(run, rng):
    """A stored key jar survives restarts, neither losing nor multiplying keys; added keys are picked up."""
    d = store.scratch()
    try:
        eid = rng.choice([''] + ENTITIES)
        own = rng.choice(('rp', 'iss1', 'iss2'))
        full = jose.jwks(own, True)['keys']
        n = rng.randint(1, len(full))
        some = rng.sample(full, n)
        box = rng.random() < .5
        kc = {'handler': LAFS, 'fdir': os.path.join(d, 'keyjar'), 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': ISSUER, 'label': rng.choice(('kj', 'foo'))}
        conf = {'db_conf': {'keyjar': kc, 'default': {'handler': AFS, 'fdir': os.path.join(d, 'db'), 'value_conv': JSONC}}, 'jwks': {'keys': some[:]}}
        orig = copy.deepcopy(conf)
        have = {}
        others = {}
        for start in range(rng.randint(2, 4)):
            c = run.must('start %d' % start, OidcContext, copy.deepcopy(conf), None, eid)
            for o in {'', eid}:
                ref = KeyJar()
                ref.import_jwks(copy.deepcopy({'keys': some}), o)
                run.expect(material(c.keyjar, o) == material(ref, o), 'start %d: %d keys of %r, expected %d', start, len(material(c.keyjar, o)), o, len(some))
                run.obs('kept', start)
            for o, ks in others.items():
                ref = KeyJar()
                ref.import_jwks(copy.deepcopy({'keys': ks}), o)
                run.expect(material(c.keyjar, o) == material(ref, o), 'start %d: the keys of %r were lost or changed', start, o)
                run.obs('theirs')
            run.expect(set(c.keyjar.owners()) == {'', eid} | set(others), 'start %d: owners %r', start, c.keyjar.owners())
            works(run, c.keyjar, '', c.keyjar.export_jwks(False, eid), eid)
            if rng.random() < .6:
                o = 'https://other%d.example.com' % start
                others[o] = jose.jwks(rng.choice(('iss1', 'iss2')))['keys']
                c.keyjar.import_jwks(copy.deepcopy({'keys': others[o]}), o)
            if rng.random() < .4 and len(some) < len(full):
                some = some + [k for k in full if k not in some][:1]
                conf['jwks'] = {'keys': some[:]}
                run.obs('rotated')
            c.set('k', 'v%d' % start)
            run.expect(sorted(c.db.keys()) == ['k'], 'keys leak into the default storage: %r', list(c.db.keys()))
            store.settle()
        if rng.random() < .5:
            # a key replaced by another one under the same name
            ec = [k for k in some if k['kty'] == 'EC']
            pool = [k for o in ('rp', 'iss1', 'iss2') if o != own for k in jose.jwks(o, True)['keys'] if k['kty'] == 'EC']
            if ec and pool:
                gone, came = rng.choice(ec), dict(rng.choice(pool))
                came.pop('kid', None)
                if 'kid' in gone:
                    came['kid'] = gone['kid']
                now = [k for k in some if k != gone] + [came]
                conf['jwks'] = {'keys': copy.deepcopy(now)}
                for again in range(2):
                    c = run.must('a start after a key was replaced', OidcContext, copy.deepcopy(conf), None, eid)
                    for o in {'', eid}:
                        ref = KeyJar()
                        ref.import_jwks(copy.deepcopy({'keys': now}), o)
                        got = material(c.keyjar, o)
                        run.expect(len(got) == len(set(got)), '%r has keys more than once', o)
                        run.expect(set(material(ref, o)) <= set(got), 'a configured key of %r is missing after its name was used for another', o)
                    store.settle()
                run.obs('replaced')
        run.note(entity=eid, keys=len(some), others=list(others))
        run.obs('persistent', (eid, own))
    finally:
        store.drop(d)


def stored(run, rng):
    """Generated keys kept in a file, in a stored key jar: the same keys after every restart, along with the imported ones."""
    d = store.scratch()
    try:
        eid = rng.choice([''] + ENTITIES)
        kc = {'handler': LAFS, 'fdir': os.path.join(d, 'keyjar'), 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': ISSUER, 'label': 'kj'}
        defs = rng.sample(DEFS[:3], rng.randint(1, 3))      # cryptojwt makes new symmetric keys at every start
        conf = {'db_conf': {'keyjar': kc}, 'keys': {'key_defs': defs, 'private_path': os.path.join(d, 'priv.json'), 'read_only': False, 'uri_path': 'x'}}
        if rng.random() < .5:
            conf['db_conf']['default'] = {'handler': AFS, 'fdir': os.path.join(d, 'db'), 'value_conv': JSONC}
        if rng.random() < .5:
            conf['httpc_params'] = {'verify': False}
        orig = copy.deepcopy(conf)
        mine, others = None, {}
        for start in range(3):
            kj = run.must('start %d' % start, OidcContext, conf, None, eid).keyjar
            if mine is None:
                mine = material(kj, '')
                run.expect(len(mine) == sum(len(x['use']) for x in defs), '%d keys, %r configured', len(mine), defs)
            run.expect(set(kj.owners()) == {'', eid} | set(others), 'start %d: owners %r', start, kj.owners())
            run.expect(material(kj, '') == mine and material(kj, eid) == mine, 'start %d: other own keys than before', start)
            for o, was in others.items():
                run.expect(material(kj, o) == was, 'start %d: the keys of %r were lost or changed', start, o)
                run.obs('stored_theirs')
            run.expect(kj.httpc_params == conf.get('httpc_params', KeyJar().httpc_params), 'the key jar fetches with %r', kj.httpc_params)
            o = 'https://other%d.example.com' % start
            kj.import_jwks(jose.jwks(rng.choice(('iss1', 'iss2'))), o)
            others[o] = material(kj, o)
            store.settle()
        run.expect(conf == orig, 'the configuration was changed to %r', conf)
        run.note(entity=eid, conf=conf)
        run.obs('stored', (eid, len(defs)))
    finally:
        store.drop(d)


def scenarios(run):
    run.rules.append('two contexts over each kind of storage, boxes, key configurations and restarts over a stored key jar against reference dicts and '
                     'key sets; distinct = (storage, kind of value), (key configuration, entity id), restarts')
    run.assumptions.append('a stored key jar uses the labelled file store (the own keys have the empty key)')
    run.require(seed=40, item=300, apart=100, restart=80, box=100, given=10, httpc=20, keys=80, persistent=30, stored=15, stored_theirs=40, kept=60, theirs=20, signed=50, replaced=8)
    return {'setget': (setget, 220, 5000), 'boxes': (boxes, 60, 1500), 'keyjars': (keyjars, 220, 4000), 'persistent': (persistent, 50, 1200), 'stored': (stored, 25, 600)}
