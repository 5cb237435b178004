"""C23 identity assurance: evidence dispatch, verified claims requests, claims construction."""
import copy
import json

from rv import gen
from rv.checks import c12, c14
from oidcmsg.message import Message
from oidcmsg.oidc import identity_assurance as ida

KIND = {'id_document': ida.IdDocument, 'utility_bill': ida.UtilityBill, 'qes': ida.QES}
NAME = {'id_document': 'IdDocument', 'utility_bill': 'UtilityBill', 'qes': 'QES'}
CH = {chr(c) for c in range(0x20, 0x7f)} - {'"', '\\'}


# what other versions of the specification, and people, call them
OTHER = ('document', 'electronic_signature', 'electronic_record', 'bill', 'idcard', 'id-document', 'id document', 'Id-Document', 'IdDocument', 'UtilityBill',
         'utilitybill', 'utility-bill', 'signature', 'eidas', 'QES', 'Qes', 'id', 'utility', 'none', 'vouch', 'idDocument')


def spec_of(t):
    return gen.SCHEMA[gen.IDA + NAME[t]]['params']


def content(rng, t, p):
    d = gen.full(rng, gen.IDA + NAME[t], 2, p=p)
    d.pop('type', None)
    return d


def evidence(run, rng):
    t = rng.choice(sorted(KIND))
    sp = spec_of(t)
    d = content(rng, t, rng.choice((0, .5, 1)))
    typed = rng.random() < .7
    if typed:
        d['type'] = t
    else:
        for k, (kind, _) in sp.items():
            if k not in d and k != 'type':
                d[k] = gen.nested(rng, kind) if kind not in gen.SCALARS else gen.scalar(rng, kind)
    for k in list(d):
        if gen.SCHEMA[gen.IDA + NAME[t]]['params'][k][0] == 'timestamp' and not d[k]:
            d[k] = 7
    if rng.random() < .3:
        d['x_' + gen.word(rng)] = gen.text(rng)
    req = [k for k, (_, r) in sp.items() if r]
    deviation = rng.choice((None, None, 'missing', 'type', 'type'))
    if deviation == 'missing':
        gone = rng.choice(req)
        d.pop(gone)
    elif deviation == 'type':
        d['type'] = rng.choice((gen.near(rng, t), rng.choice(OTHER), rng.choice(OTHER), rng.choice(OTHER), 'passport', 'Id_Document', t + 's'))
        if not d['type'] or d['type'] in KIND:
            d['type'] = 'vouch'
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    cls = rng.choice((ida.Evidence, ida.Evidence, KIND[t]))
    if rng.random() < .25 and cls is ida.Evidence:
        via = 'element'
        ve = ida.VerificationElement(trust_framework='de_aml', evidence=[d, gen.evidence(rng)])
        m = ve['evidence'][0]
    else:
        via, m = c14.build(rng, cls, d, alien=0)
    if rng.random() < .1:
        m[rng.choice([w for w in c12.WORDS if w not in gen.ALL_PARAMS])] = gen.text(rng)
    run.note(evidence=d, cls=cls.__name__, typed=typed, deviation=deviation, via=via)
    if deviation:
        run.refuses('%s evidence (%s)' % (t, deviation), m.verify)
        run.obs('evidence_refused', (t, deviation, typed, via, cls.__name__, gone if deviation == 'missing' else d['type'][:12]))
    else:
        r = run.must('%s evidence' % t, m.verify)
        run.expect(r is not False, '%s evidence not accepted', t)
        run.expect(m['type'] == t, 'evidence of type %r became %r', t, m['type'])
        for k, v in d.items():
            run.expect(k in m, '%s lost', k)
        run.obs('evidence', (t, typed, via, cls.__name__, tuple(sorted(k for k in d if k in sp))))


def wrong_kind(run, rng):
    """The content of one kind under the name of another does not pass."""
    t, u = rng.sample(sorted(KIND), 2)
    d = content(rng, t, 1)
    d['type'] = u
    m = ida.Evidence(**d)
    run.note(evidence=d, real=t)
    run.refuses('%s content called %s' % (t, u), m.verify)
    run.obs('wrong_kind', (t, u))


BOOLS = ['email_verified', 'phone_number_verified']
CLAIMS = {k: kind for k, (kind, _) in gen.SCHEMA[gen.IDA + 'IdentityAssuranceClaims']['params'].items()
          if kind in ('str', 'int', 'bool') and not k.startswith('error')}


def good_value(rng, kind):
    return {'str': lambda: gen.text(rng), 'int': lambda: gen.integer(rng, 1), 'bool': lambda: True}[kind]()


def bad_value(rng, kind):
    return rng.choice({'str': [5, 1.5, True, ['a'], {'a': 'b'}, 0, False, 0.0, [], {}],
                       'int': ['5', 'x', 1.5, [5], {'a': 1}, True, False, '', [], {}, 0.0],
                       'bool': ['true', 'yes', 1, [True], 2, 1.0, 0, '', [], {}]}[kind])


def purpose(rng, ok):
    if not ok and rng.random() < .2:
        return rng.choice(('', 5, 0, 400, True, False, ['a', 'b', 'c'], [], {}, {'a': 1, 'b': 2, 'c': 3}))
    if ok:
        n = rng.choice((3, 4, 20, 299, 300))
        return ''.join(rng.choice(sorted(CH)) for _ in range(n))
    if rng.random() < .5:
        return ''.join(rng.choice(sorted(CH)) for _ in range(rng.choice((1, 2, 301, 302, 1000))))
    s = purpose(rng, True)[:299]
    i = rng.randint(0, len(s))
    return s[:i] + rng.choice('"\\\n\t\x00\x7f\u00e5\u201c\U0001f600\x1f') + s[i:]


def claim(rng, kind):
    """(specification, deviation or None)"""
    r = rng.random()
    if r < .1:
        return None, None
    dev = rng.choice((None, None, None, 'essential', 'value', 'values', 'purpose'))
    d = {}
    if dev == 'essential':
        d['essential'] = rng.choice(('yes', 'true', 'True', 2, -1, 'x', [True], 0, 1, 0.0, 1.0, '', [], {}))
    elif rng.random() < .5:
        d['essential'] = rng.random() < .5
    if dev == 'value':
        d['value'] = bad_value(rng, kind)
    elif rng.random() < .4:
        d['value'] = good_value(rng, kind)
    if dev == 'values':
        d['values'] = [good_value(rng, kind) for _ in range(rng.choice((0, 1, 2, 3, 3, 8, 20, 70)))]
        d['values'].insert(rng.choice((rng.randint(0, len(d['values'])), len(d['values']))), bad_value(rng, kind))
        if rng.random() < .2:
            d['values'] = rng.choice(('ab', 'abc', {'a': 'b'}, {'x': 1}, 5, True, ''))
    elif rng.random() < .4:
        d['values'] = [good_value(rng, kind) for _ in range(rng.choice((0, 1, 2, 3, 3, 20)))]
    if dev == 'purpose':
        d['purpose'] = purpose(rng, False)
    elif rng.random() < .4:
        d['purpose'] = purpose(rng, True)
    if not d:
        d['essential'] = True
    if rng.random() < .2:
        d['max_age'] = 63113852
    items = list(d.items())
    rng.shuffle(items)
    return dict(items), dev


def request(run, rng):
    vc, devs = {}, []
    if rng.random() < .85:
        cl = {}
        many = rng.random() < .12
        for k in rng.sample(sorted(CLAIMS), rng.randint(len(CLAIMS) - 4, len(CLAIMS)) if many else rng.randint(1, 4)):
            if many and rng.random() < .93:
                cl[k] = rng.choice((None, {'essential': True}, {'purpose': 'to know you'}))
                continue
            cl[k], dev = claim(rng, CLAIMS[k])
            if dev:
                devs.append((dev, 'claims', CLAIMS[k]))
        for _ in range(rng.choice((0, 0, 1, 1, 40 if many else 0))):
            cl['x_' + gen.word(rng)] = claim(rng, 'str')[0]
        vc['claims'] = cl
    elif rng.random() < .5:
        vc['claims'] = None
    if rng.random() < .5:
        ver = {}
        for k in ('trust_framework', 'time', 'verification_process'):
            if rng.random() < .6:
                ver[k], dev = claim(rng, 'str')
                if dev:
                    devs.append((dev, k))
        if rng.random() < .6:
            ev = []
            for _ in range(rng.randint(1, 3)):
                e, dev = claim(rng, 'str')
                if dev:
                    devs.append((dev, 'evidence'))
                ev.append({'type': e, 'method': None} if rng.random() < .5 else {'type': e})
                if rng.random() < .25:
                    ev.insert(rng.randint(0, len(ev)), None)
            ver['evidence'] = ev
        elif rng.random() < .3:
            ver['evidence'] = None
        if not ver:
            ver['time'] = None
        vc['verification'] = ver
    if not vc:
        vc['claims'] = {'given_name': None}
    # keep the majority at one deviation at most
    way = rng.choice(('icr', 'icr', 'vcr'))
    how = rng.choice(('kw', 'json', 'dict'))
    body = {'verified_claims': vc} if way == 'icr' else vc
    if way == 'icr' and rng.random() < .3:      # in the company of ordinary claims requests
        for x in rng.sample(('userinfo', 'id_token', gen.extra_key(rng)), rng.randint(1, 3)):
            body[x] = {'given_name': None, 'acr': {'essential': True}}
        body = dict(rng.sample(list(body.items()), len(body)))
    cls = ida.IDAClaimsRequest if way == 'icr' else ida.VerifiedClaimsRequest
    run.note(request=body, deviations=devs, how=how)

    def go():
        m = cls(**body) if how == 'kw' else cls().from_json(json.dumps(body)) if how == 'json' else cls().from_dict(body)
        return m, m.verify()
    if devs:
        run.refuses('verified claims request (%s)' % devs, lambda: go()[1])
        run.obs('request_refused', (tuple(sorted(devs)), way, how))
    else:
        m, r = run.must('verified claims request', go)
        run.expect(r is not False, 'not accepted')
        if way == 'icr':
            run.expect(isinstance(m['verified_claims'], ida.VerifiedClaimsRequest), 'verified_claims is a %s', type(m['verified_claims']))
        run.obs('request', (way, how, tuple(vc), len(vc.get('claims') or ())))
    # the requested claims as an ordinary claims request in a userinfo member are left alone
    if rng.random() < .1:
        m = ida.IDAClaimsRequest(userinfo={'given_name': None, 'email': {'essential': True}})
        run.must('plain claims request', m.verify)


BASES = {'IdentityAssuranceClaims': ida.IdentityAssuranceClaims, 'VerificationElement': ida.VerificationElement,
         'VerifiedClaims': ida.VerifiedClaims, 'Document': ida.Document, 'QES': ida.QES, 'Verifier': ida.Verifier}
PY = {'str': str, 'int': int, 'bool': bool}


def construct(run, rng):
    name = rng.choice(sorted(BASES))
    base = BASES[name]
    way = rng.choice(('class', 'instance', 'path'))
    c = ida.ClaimsConstructor(base if way == 'class' else base() if way == 'instance' else 'oidcmsg.oidc.identity_assurance.' + name)
    model = {}
    sch = gen.SCHEMA[gen.IDA + name]['params']
    for _ in range(rng.randint(1, 8)):
        simple = sorted(k for k, (kind, _) in sch.items() if kind in PY)
        r = rng.random()
        if r < .2 or not simple:
            k = rng.choice(sorted(sch) + ['x_' + gen.word(rng)])
            c[k] = None
            model[k] = None
        elif r < .3:
            k = 'x_' + gen.word(rng)
            v = gen.json_value(rng, 2)
            c[k] = v
            model[k] = v
        else:
            k = rng.choice(simple)
            kind = sch[k][0]
            form = rng.choice(('plain', 'dict'))
            if form == 'plain':
                ok = rng.random() < .6
                v = good_value(rng, kind) if ok else bad_value(rng, kind)
                while not ok and isinstance(v, dict):
                    v = bad_value(rng, kind)
            else:
                v, dev = claim(rng, kind)
                ok = dev is None
            if ok:
                snap = copy.deepcopy(v)
                run.must('constructing %s=%r' % (k, v), c.__setitem__, k, v)
                run.expect(v == snap, 'constructing changed the given %r to %r', snap, v)
                model[k] = snap
                run.obs('construct', (name, k, form))
            else:
                run.raises('constructing %s=%r' % (k, v), c.__setitem__, k, v)
                run.obs('construct_refused', (name, k, form, repr(v)[:30]))
    run.note(base=name, content=model, way=way)
    got = c.to_dict()
    run.expect(got == model and list(got) == list(model), 'constructed %r, expected %r', got, model)
    run.expect(json.loads(c.to_json()) == model, 'JSON %r, expected %r', c.to_json(), model)


def compose(run, rng):
    """Nested construction: constructors of the right kind fit, others do not; what comes out is a request that verifies."""
    claims = ida.ClaimsConstructor(ida.IdentityAssuranceClaims)
    cl = {}
    for k in rng.sample(sorted(CLAIMS), rng.randint(1, 4)):
        v, dev = claim(rng, CLAIMS[k])
        if dev:
            v = None
        claims[k] = v
        cl[k] = v
    ver = ida.ClaimsConstructor(ida.VerificationElement)
    vd = {}
    for k in rng.sample(['trust_framework', 'verification_process'], rng.randint(0, 2)):
        v, dev = claim(rng, 'str')
        if dev:
            v = None
        ver[k] = v
        vd[k] = v
    if rng.random() < .6:
        evs, ed = [], []
        for _ in range(rng.randint(1, 3)):
            e = ida.ClaimsConstructor(rng.choice((ida.Evidence, ida.IdDocument, ida.QES)))
            v, dev = claim(rng, 'str')
            if dev:
                v = None
            e['type'] = v
            evs.append(e)
            ed.append({'type': v})
        ver['evidence'] = evs
        vd['evidence'] = ed
    top = ida.ClaimsConstructor(ida.VerifiedClaims)
    if rng.random() < .4:
        run.raises('claims constructor of the wrong kind', top.__setitem__, 'claims', ver)
        run.raises('verification constructor of the wrong kind', top.__setitem__, 'verification', claims)
        k, b = rng.choice((('claims', Message), ('verification', Message), ('claims', ida.VerifiedClaims), ('verification', ida.Evidence)))
        run.raises('%s constructor of %s' % (k, b.__name__), top.__setitem__, k, ida.ClaimsConstructor(b))
        run.obs('wrong_constructor')
    top['verification'] = ver
    top['claims'] = claims
    want = {'verification': vd, 'claims': cl}
    run.note(request=want)
    run.expect(top.to_dict() == want, 'constructed %r', top.to_dict())
    run.expect(json.loads(top.to_json()) == want, 'JSON %r', top.to_json())
    outer = ida.ClaimsConstructor(rng.choice((ida.IDAClaimsRequest, Message)))
    outer['verified_claims'] = top
    run.must('verifying the constructed request', ida.IDAClaimsRequest().from_json(outer.to_json()).verify)
    # independent of later changes to another constructor
    other = ida.ClaimsConstructor(ida.VerifiedClaims)
    run.expect(other.to_dict() == {}, 'a new constructor starts with %r', other.to_dict())
    run.obs('compose', (tuple(cl), tuple(vd)))


def nested(run, rng):
    """Verified claims arrive as typed objects all the way down and leave as they came."""
    d = {'verification': gen.full(rng, gen.IDA + 'VerificationElement', 2, p=.8),
         'claims': {k: v for k, v in gen.full(rng, gen.IDA + 'IdentityAssuranceClaims', 1, p=.3).items() if not k.startswith(('error', '_claim'))}}
    d['verification']['evidence'] = [gen.evidence(rng) for _ in range(rng.randint(1, 3))]
    how = rng.choice(('kw', 'json'))
    m = ida.VerifiedClaims(**d) if how == 'kw' else ida.VerifiedClaims().from_json(json.dumps(d))
    run.note(content=d, how=how)
    run.must('verifying verified claims', m.verify)
    run.expect(isinstance(m['verification'], ida.VerificationElement), 'verification is a %s', type(m['verification']))
    run.expect(isinstance(m['claims'], Message), 'claims is a %s', type(m['claims']))
    ev = m['verification']['evidence']
    run.expect(len(ev) == len(d['verification']['evidence']), '%d pieces of evidence of %d', len(ev), len(d['verification']['evidence']))
    for e, f in zip(ev, d['verification']['evidence']):
        run.expect(isinstance(e, ida.Evidence) and e['type'] == f['type'], 'evidence %r came out as %r', f, e)
        run.must('verifying the evidence', e.verify)
    for k, v in d['claims'].items():
        if gen.SCHEMA[gen.IDA + 'IdentityAssuranceClaims']['params'][k][0] in ('str', 'int', 'bool'):
            run.expect(m['claims'][k] == v, 'claim %s is %r, sent %r', k, m['claims'][k], v)
    run.obs('nested', (how, tuple(e['type'] for e in ev)))


TOGETHER = ('evidence', 'wrong_kind', 'request', 'construct', 'compose', 'nested')


def scenarios(run):
    run.rules.append('evidence content x kind x type label; verified-claims requests with independently drawn specification errors at '
                     'each position; constructor histories against a dict model')
    run.require(evidence=300, evidence_refused=300, wrong_kind=100, request=200, request_refused=400, construct=600,
                construct_refused=300, compose=100, nested=100)
    return {'evidence': (evidence, 1800, 50000), 'wrong_kind': (wrong_kind, 200, 4000), 'request': (request, 1200, 50000),
            'construct': (construct, 800, 30000), 'compose': (compose, 300, 10000), 'nested': (nested, 300, 8000)}
