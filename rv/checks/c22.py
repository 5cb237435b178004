"""C22 userinfo claims: birthdate formats, null values, claims request matching (OIDC Core 5.1, 5.5.1)."""
import calendar
import json
import re
import time

from rv import gen, jose, samples
from rv.checks import c14
from oidcmsg import oidc

UI = ['oidcmsg.oidc:OpenIDSchema', 'oidcmsg.oidc.identity_assurance:IdentityAssuranceClaims']


def good_date(s):
    if re.match(r'[0-9]{4}\Z', s):
        return None if s == '0000' else True
    m = re.match(r'([0-9]{4})-([0-9]{2})-([0-9]{2})\Z', s)
    if not m:
        return False
    y, mo, d = (int(x) for x in m.groups())
    if not 1 <= mo <= 12:
        return False
    if y == 0:
        last = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    else:
        last = calendar.monthrange(y, mo)[1]
    return 1 <= d <= last


def date(rng):
    y = rng.choice((0, 0, 1, 4, 100, 400, 1900, 1999, 2000, 2023, 2024, 9999, rng.randint(1, 9999)))
    mo = rng.choice((1, 2, 2, 4, 6, 9, 11, 12, rng.randint(0, 13)))
    d = rng.choice((1, 28, 29, 29, 30, 31, rng.randint(0, 32)))
    r = rng.random()
    if r < .5:
        s = '%04d-%02d-%02d' % (y, mo, d)
        if rng.random() < .12:
            i = rng.randrange(len(s))
            s = rng.choice((s[:i] + rng.choice(' \t\n0') + s[i:], '%d-%d-%d' % (y, mo, d), '%04d-%2d-%2d' % (y, mo, d), s + '\n', ' ' + s, s.replace('0', '\u0660'),
                            s.translate({48 + j: 0xff10 + j for j in range(10)})))
    elif r < .65:
        s = '%04d' % (y or 1)
    else:
        s = rng.choice(('%04d%02d%02d', '%04d/%02d/%02d', '%04d-%02d-%02dT00:00:00', '%04d-%02d-%02d ', '%04d-%02d-%02d-01', '%04d-%02d-%02dZ',
                        'x%04d-%02d-%02d', '%04d.%02d.%02d', '+%04d-%02d-%02d', '--%04d-%02d-%02d')) % (y, mo, d)
        s = rng.choice((s, '%02d-%02d-%04d' % (d, mo, y), '%04d-%02d' % (y or 1, mo), '--%02d-%02d' % (mo, d), '%04d-' % y, '-%04d' % y, '1%04d' % y,
                        '0000-%02d' % mo, '0000-', 'yyyy-mm-dd', 'n/a', '?', '0', '19x0', '%Y', '%Y-%m-%d', '0000-%m-%d', '1956-Jan-28',
                        '1956-01-28 or so', '1956-W04-6', '1956-028', '00001-01-01', 'unknown', '-', '- -', '0000-00-00', '01-28',
                        '1980-01-01\x00', 'None', '1,980', '1956--01-28'))
    return s


def birthdate(run, rng):
    s = date(rng)
    ok = good_date(s)
    if ok is None:
        run.obs('unspecified')
        return
    idt = rng.random() < .15
    if idt:
        now = int(time.time())
        d = {'iss': jose.ISS1, 'sub': 's', 'aud': [jose.RP], 'exp': now + 600, 'iat': now - 5, 'birthdate': s}
        name, kw = 'oidcmsg.oidc:IdToken', {'iss': jose.ISS1, 'client_id': jose.RP}
    else:
        name = rng.choice(UI)
        d, kw = samples.valid(rng, name, p=rng.choice((0, .3)))
        d['birthdate'] = s
    via, m = c14.build(rng, gen.cls_of(name), d)
    run.note(cls=name, birthdate=s, via=via)
    if ok:
        r = run.must('birthdate %r' % s, m.verify, **kw)
        run.expect(r is not False, 'birthdate %r not accepted', s)
        run.expect(m['birthdate'] == s, 'changed')
        run.obs('date_ok', (len(s), s[:4] == '0000', s[5:7], name, s[8:]))
    else:
        run.refuses('birthdate %r' % s, m.verify, **kw)
        run.obs('date_bad', (s if len(s) != 10 else s[4:], name))


def nulls(run, rng):
    name = rng.choice(UI)
    d, kw = samples.valid(rng, name, p=rng.choice((0, .3, .8)))
    m = gen.cls_of(name)(**d)
    run.expect(run.must('userinfo', m.verify) is True, 'good userinfo not accepted')
    # the value disappears later, or arrives as a null extra claim
    keys = [k for k, (kind, req) in gen.SCHEMA[name]['params'].items() if not req and kind == 'str' and k != 'birthdate' and not k.startswith('error')]
    k = rng.choice(keys + ['x_' + gen.word(rng)] * 8 + [x + '#' + rng.choice(gen.LANGS) for x in rng.sample(keys, 2) + ['x_a', 'x_b']])
    how = rng.choice(('set', 'json', 'dict', 'kw'))
    if how == 'set':
        m[k] = None
    else:
        d[k] = None
        if how == 'json':
            m = gen.cls_of(name)().from_json(json.dumps(d))
        elif how == 'dict':
            m = gen.cls_of(name)().from_dict(d)
        else:
            m = gen.cls_of(name)(**d)
    run.note(cls=name, null=k, how=how)
    if k in m.keys() and m[k] is None:
        run.refuses('userinfo with a null %s' % k, m.verify)
        run.obs('null_refused', (k if not k.startswith('x_') else 'x', how))
    else:
        run.expect(run.must('userinfo', m.verify) is True, 'dropped null not accepted')
        run.obs('null_dropped', (k if not k.startswith('x_') else 'x', how))


def val(rng):
    return rng.choice((lambda: gen.word(rng), lambda: gen.text(rng), lambda: gen.integer(rng), lambda: '', lambda: 0, lambda: rng.choice(('1', '0', 'True', 'true', 'None', 'null', '[]', True, False)),
                       lambda: rng.choice(('a', 'b', 'A', 'ab', 'urn:mace:incommon:iap:silver', 'urn:mace:incommon:iap:bronze', 'urn:mace:incommon:iap')),
                       lambda: rng.choice((['a', 'b'], ['b', 'a'], ['a'], [], ['a', 'b', 'c'], ['a', 'a', 'b'])),
                       lambda: rng.choice(({'country': 'DE'}, {'country': 'DE', 'x': 1}, {})), lambda: None))()


def match(run, rng):
    spec = None
    value = val(rng)
    other = lambda: rng.choice((val, lambda r: str(value),  lambda r: gen.near(r, value) if isinstance(value, str) and value else val(r),
                               lambda r: r.choice(value) if isinstance(value, list) and value else [value]))(rng)
    if rng.random() < .93:
        items = []
        if rng.random() < .5:
            items.append(('essential', rng.random() < .5))
        r = rng.random()
        if r < .45:
            items.append(('value', value if rng.random() < .5 else other()))
        if r > .35:
            vs = [other() for _ in range(rng.choice((0, 1, 2, 5)))]
            if isinstance(value, list) and rng.random() < .5:
                vs += value                             # its items, not the list
            elif isinstance(value, str) and len(value) > 1 and rng.random() < .2:
                vs += [value[:1], value[1:], value + 'x', [value]]
            if rng.random() < .5:
                vs.insert(rng.randint(0, len(vs)), value)
            items.append(('values', vs))
        if rng.random() < .1:
            items.append(('purpose', 'for the record'))
        rng.shuffle(items)
        spec = dict(items)
    if spec is None or not set(spec) & {'value', 'values'}:
        want = True
    else:
        want = ('value' in spec and same(spec['value'], value)) or ('values' in spec and any(same(v, value) for v in spec['values']))
    if spec and any(mixed(x, value) for x in [spec.get('value'), *spec.get('values', ())]):
        return
    run.note(value=value, spec=spec, want=want)
    before = json.dumps(spec, sort_keys=True)
    got = run.must('claims_match', oidc.claims_match, value, spec)
    run.expect(bool(got) == want, 'claims_match(%r, %r) = %r', value, spec, got)
    run.expect(json.dumps(spec, sort_keys=True) == before, 'the claim specification was changed')
    run.obs('match' if want else 'no_match', (tuple(spec) if spec is not None else None, type(value).__name__))


def same(a, b):
    return type(a) is type(b) and a == b


def mixed(a, b):
    """1 is true for the language, not for JSON: not judged."""
    return {type(a), type(b)} == {int, bool} and a == b


TOGETHER = ('birthdate', 'nulls', 'match')


def scenarios(run):
    run.rules.append('dates over every month/day/leap boundary and malformed shapes against a calendar model; null claims by delivery; '
                     'claim value x specification against a reference matcher')
    run.require(date_ok=200, date_bad=400, null_refused=100, match=600, no_match=600)
    return {'birthdate': (birthdate, 2000, 60000), 'nulls': (nulls, 500, 10000), 'match': (match, 2500, 80000)}
