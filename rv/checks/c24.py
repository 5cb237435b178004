"""C24 identity assurance time stamps: the instant survives, whatever the time zone of the process or of the text."""
import datetime
import json
import re
import time

from rv import gen
from oidcmsg.oidc import identity_assurance as ida

ISO = re.compile(r'[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}[+-][0-9]{4}([0-9]{2})?\Z')
STAMPED = [(n, k) for n in sorted(gen.SCHEMA) for k, (kind, _) in gen.SCHEMA[n]['params'].items() if kind == 'timestamp']
SLOT = [(n, k) for n, k in STAMPED if not n.endswith(('VerificationElementRequest',))]


def stamp(rng):
    r = rng.random()
    if r < .3:      # around daylight saving changes and year ends
        base = rng.choice((1711846800, 1729990800, 1710054000, 1730613600, 1704067200, 1709164800, 951782400, 1335177000, 1679184000, 1696082400))
        return base + rng.randint(-7300, 7300)
    if r < .4:
        return rng.choice((0, 1, 59, 60, 3600, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 4102444800))
    if r < .5:      # before the epoch, when zones had odd offsets, and far ahead
        return rng.choice((-1, -60, -86400, rng.randint(-4 * 10 ** 9, 0), rng.randint(-4 * 10 ** 9, 0), rng.randint(4 * 10 ** 9, 2 * 10 ** 11)))
    return rng.randint(1, 4 * 10 ** 9)


def parse(s):
    """Independent reading of an ISO 8601 time with a numeric offset."""
    m = re.match(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)([+-])(\d\d):?(\d\d):?(\d\d)?\Z', s)
    y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
    off = (int(m.group(8)) * 3600 + int(m.group(9)) * 60 + int(m.group(10) or 0)) * (1 if m.group(7) == '+' else -1)
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + sec - off


def days(y, m, d):
    """Days since 1970-01-01, proleptic Gregorian (no library calls)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def out(run, rng):
    """A number becomes a text that denotes that instant."""
    z = rng.choice(gen.ZONES)
    gen.set_zone(z)
    t = stamp(rng)
    form = rng.choice(('int', 'float', 'str', 'datetime', 'aware'))
    fn = ida.to_iso8601_2004_time
    if form in ('int', 'float', 'str') and rng.random() < .6:
        fn = ida.time_stamp_ser
    if form == 'str' and fn is not ida.time_stamp_ser:
        form = 'int'
    v = {'int': t, 'float': float(t), 'str': str(t), 'datetime': datetime.datetime.fromtimestamp(t),
         'aware': datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=rng.choice((0, 60, -210, 345, 840)))))}[form]
    if form in ('datetime', 'aware'):
        fn = ida.to_iso8601_2004_time
    run.note(zone=z, value=v, t=t, fn=fn.__name__)
    s = run.must('serializing %r' % (v,), fn, v)
    run.expect(isinstance(s, str) and ISO.match(s) and (t < -10 ** 9 or len(s) == 24), 'time stamp %r is not of the form YYYY-MM-DDThh:mm:ss+hhmm', s)
    run.expect(parse(s) == t, '%r became %r, which is %d seconds off', v, s, parse(s) - t)
    b = run.must('reading %r' % s, ida.from_iso8601_2004_time, s)
    run.expect(b == t, 'read back as %r', b)
    run.obs('written', (z, form, fn.__name__, s[19:]))


def zoned(t, off):
    return datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=off)))


def inn(run, rng):
    """A text denotes one instant, whatever the zone of the reader."""
    z = rng.choice(gen.ZONES)
    t = stamp(rng)
    off = rng.choice((0, 0, 60, 120, -300, -210, 345, 330, 840, -720, 1, -1))
    s = zoned(t, off).strftime('%Y-%m-%dT%H:%M:%S%z')
    form = rng.choice(('+hhmm', '+hhmm', 'Z', '+hh:mm'))
    if form == 'Z':
        s = zoned(t, 0).strftime('%Y-%m-%dT%H:%M:%SZ')
    elif form == '+hh:mm':
        s = s[:-2] + ':' + s[-2:]
    run.note(text=s, zone=z, t=t)
    gen.set_zone(z)
    fn = rng.choice((ida.from_iso8601_2004_time, ida.time_stamp_deser))
    b = run.must('reading %r' % s, fn, s)
    run.expect(b == t, '%r in %s was read as %r, it is %d', s, z, b, t)
    run.obs('read', (z, off, form, fn.__name__))


def message(run, rng):
    """Through a message on the wire: receiver in another zone sees the same instant and forwards the same instant."""
    name, k = rng.choice(SLOT)
    cls = gen.cls_of(name)
    t = stamp(rng)
    off = rng.choice((0, 60, -300, 345))
    v = rng.choice((t, zoned(t, off).strftime('%Y-%m-%dT%H:%M:%S%z')))
    d = gen.full(rng, name, 1, p=rng.choice((0, .4)))
    d[k] = v
    zs = [rng.choice(gen.ZONES) for _ in range(3)]
    run.note(cls=name, param=k, value=v, zones=zs)
    gen.set_zone(zs[0])
    m = cls(**d)
    w1 = m.to_json()
    gen.set_zone(zs[1])
    m2 = cls().from_json(w1)
    run.expect(instant(m2[k]) == t, '%s: %r arrived as %r', k, v, m2[k])
    w2 = run.must('forwarding', m2.to_json)
    gen.set_zone(zs[2])
    m3 = cls().from_json(w2)
    run.expect(instant(m3[k]) == t, '%s: %r forwarded as %r', k, v, m3[k])
    run.expect(parse(json.loads(w1)[k]) == t if isinstance(json.loads(w1)[k], str) else json.loads(w1)[k] == t, 'on the wire: %s', w1)
    run.obs('relayed', (name, k, type(v).__name__, tuple(zs)))


def instant(v):
    return parse(v) if isinstance(v, str) else v


def deep(run, rng):
    """Time stamps inside nested elements (verification element, documents in evidence)."""
    t = stamp(rng)
    iss = {'name': 'n', 'country': 'DE'}
    t1, t2 = stamp(rng), stamp(rng)
    d = {'verification': {'trust_framework': 'de_aml', 'time': t}, 'claims': {'given_name': 'x'}}
    zs = [rng.choice(gen.ZONES) for _ in range(2)]
    gen.set_zone(zs[0])
    w = ida.VerifiedClaims(**d).to_json()
    doc = ida.IdDocument(type='id_document', method='pipp', verifier={'organization': 'o', 'txn': 't'}, time=t,
                         document={'type': 'x', 'number': '1', 'issuer': iss, 'date_of_issuance': t1, 'date_of_expiry': t2}).to_json()
    gen.set_zone(zs[1])
    m = ida.VerifiedClaims().from_json(w)
    run.note(wire=w, doc=doc, zones=zs)
    run.expect(instant(m['verification']['time']) == t, 'verification time %r, sent %r', m['verification']['time'], t)
    e = ida.IdDocument().from_json(doc)
    run.expect(instant(e['time']) == t, 'evidence time %r, sent %r', e['time'], t)
    run.expect(instant(e['document']['date_of_issuance']) == t1, 'date of issuance %r, sent %r', e['document']['date_of_issuance'], t1)
    run.expect(instant(e['document']['date_of_expiry']) == t2, 'date of expiry %r, sent %r', e['document']['date_of_expiry'], t2)
    run.obs('deep', tuple(zs))


def dates(run, rng):
    """Dates: a date text survives; the date of an instant is the local calendar date."""
    z = rng.choice(gen.ZONES)
    gen.set_zone(z)
    t = stamp(rng)
    lt = time.localtime(t)
    v = rng.choice((t, float(t), str(t)))
    run.note(zone=z, value=v)
    s = run.must('date of %r' % (v,), ida.date_ser, v)
    run.expect(s == '%04d-%02d-%02d' % lt[:3], 'date of %r in %s is %r', v, z, s)
    b = run.must('reading %r' % s, ida.date_deser, s)
    run.expect(isinstance(b, (int, float)) and time.localtime(b)[:3] == lt[:3], 'date %r read as %r', s, b)
    run.expect(run.must('writing', ida.date_ser, b) == s, 'date %r became %r', s, ida.date_ser(b))
    run.expect(ida.date_ser(s) == s, 'date text changed')
    off = rng.choice((0, 60, -300, 345, 840, -720))
    a = zoned(t, off)
    s2 = run.must('date of %r' % a, ida.to_iso8601_2004_date, a)
    run.expect(s2 == '%04d-%02d-%02d' % (a.year, a.month, a.day), 'date of %s is %r', a, s2)
    run.obs('date', (z, lt[7]))


def wrong(run, rng):
    v = rng.choice(([1], {'a': 1}, b'2020-01-01', None, object(), (1,)))
    fn = rng.choice((ida.time_stamp_ser, ida.date_ser))
    run.raises('%s(%r)' % (fn.__name__, v), fn, v)
    s = rng.choice(('2012-04-23', '2012-04-23T18:25:43', '2012-13-23T18:25:43+0100', '2012-04-31T18:25:43+0100', '2012-04-23T24:25:43+0100',
                    '2012-04-23 18:25:43+0100', 'yesterday', '', '2012-04-23T18:25:43+9900', '12-04-23T18:25:43+0100', '2012-04-23T18:60:43+0100',
                    ' 2012-04-23T18:25:43+0100', '2012-04-23T18:25:43+0100 ', '2012-04-23T18:25:43+0100\n', '2012-04-23T18:25:43 +0100', '2012-04-23T18:25:43'))
    run.raises('reading %r' % s, ida.from_iso8601_2004_time, s)
    run.obs('wrong', (repr(v)[:10], s))


def teardown(run):
    gen.set_zone('UTC')


def scenarios(run):
    run.rules.append('instants (DST edges, epoch and 32-bit edges, leap days) x process time zones x offsets in the text x entry point; '
                     'distinct = (zone, form, offset)')
    run.assumptions.append('time stamps of whole seconds; zones without sub-minute offsets')
    run.require(written=300, read=300, relayed=200, deep=100, date=200)
    return {'out': (out, 800, 30000), 'inn': (inn, 800, 30000), 'message': (message, 500, 15000), 'deep': (deep, 200, 5000),
            'dates': (dates, 500, 15000), 'wrong': (wrong, 100, 1000)}
