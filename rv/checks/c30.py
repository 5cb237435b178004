"""C30 before/after/valid/later_than and the 'in a while' family agree with UTC epoch time, whatever the zone and the notation."""
import calendar
import time
from datetime import datetime, timedelta, timezone

from rv import gen
from oidcmsg import time_util as tu

ZONES = ['UTC', 'Europe/Stockholm', 'America/New_York', 'Asia/Kolkata', 'Pacific/Chatham', 'Pacific/Kiritimati', 'Etc/GMT+12', 'Australia/Lord_Howe',
         'EST5EDT', 'ABC-14']
FMT = '%Y-%m-%dT%H:%M:%SZ'
EPOCH = datetime(1970, 1, 1)


def teardown(run):
    gen.set_zone('UTC')



def iso(sec):
    d = EPOCH + timedelta(seconds=sec)
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)


def notation(rng, sec):
    """(kind, a way of writing the point)"""
    how = rng.choice(('int', 'str', 'frac', 'struct'))
    if how == 'int' and sec != 0:
        return how, sec
    if how == 'str':
        return how, iso(sec)
    if how == 'frac':
        return how, iso(sec)[:-1] + '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice((1, 3, 6, 9)))) + 'Z'
    return 'struct', time.gmtime(sec)


def point(rng):
    now = int(time.time())
    return rng.choice((lambda: now, lambda: now, lambda: now + rng.choice((-1, 0, 1, 2, -2)), lambda: now + rng.randint(-100, 100), lambda: now + rng.randint(-90000, 90000),
                       lambda: now + rng.choice((-1, 1)) * rng.choice((3600, 7200, 5 * 3600, 19800, 14 * 3600, 12 * 3600, 86400)) + rng.randint(-2, 2),
                       lambda: rng.randint(1, 4102444800), lambda: rng.randint(-2 ** 32, 2 ** 35), lambda: rng.choice((1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 951782400, 951868799, 253402300799))))()


def compare(run, rng):
    zone = rng.choice(ZONES)
    gen.set_zone(zone)
    sec = point(rng)
    kind, p = notation(rng, sec)
    run.note(zone=zone, point=p)
    for name, when in (('before', True), ('not_on_or_after', True), ('valid', True), ('after', False), ('not_before', False)):
        fn = getattr(tu, name)
        t0 = gen.now()
        got = run.must('%s(%r)' % (name, p), fn, p)
        t1 = int(time.time())
        # `before`: now < point
        lo, hi = t1 < sec, t0 < sec
        if lo != hi:
            continue
        want = lo if when else not lo
        run.expect(got is want, '%s(%r) is %r at %d..%d in %s', name, p, got, t0, t1, zone)
        run.obs('compared', (name, kind, 'now' if t0 == sec == t1 else 'past' if sec < t0 else 'future', zone))
        if t0 == sec == t1:
            run.obs('boundary')
    for empty in ('', 0, None):
        for name in ('before', 'valid', 'not_on_or_after', 'after', 'not_before'):
            run.expect(getattr(tu, name)(empty) is True, 'no point in time: %s(%r)', name, empty)


def order(run, rng):
    gen.set_zone(rng.choice(ZONES))
    a = point(rng)
    b = rng.choice((lambda: a, lambda: a + rng.choice((-1, 1)), lambda: a + rng.choice((-3600, 3600, 86400, -86400, 60, -60)), lambda: point(rng)))()
    b = max(1, min(b, 253402300799))
    ka, x = notation(rng, a)
    kb, y = notation(rng, b)
    run.note(a=x, b=y)
    got = run.must('later_than', tu.later_than, x, y)
    run.expect(got is (a >= b), 'later_than(%r, %r) is %r', x, y, got)
    run.obs('ordered', (ka, kb, (a > b) - (a < b)))


FORMATS = ['%Y-%m-%dT%H:%M:%SZ', '%Y-%m-%dT%H:%M:%S', '%Y%m%d%H%M%S', '%d %b %Y %H:%M:%S', '%a, %d %b %Y %H:%M:%S GMT', '%Y/%m/%d %H:%M:%S', '%c']


def parse(run, rng):
    gen.set_zone(rng.choice(ZONES))
    sec = rng.choice((lambda: point(rng), lambda: rng.randint(-2208988800, 4102444800)))()
    d = EPOCH + timedelta(seconds=sec)
    f = rng.choice(FORMATS)
    s = d.strftime(f) if d.year >= 1000 else iso(sec)
    run.note(text=s, format=f)
    if rng.random() < .5 and f != FORMATS[0]:
        got = run.must('parsing', tu.str_to_time, s, f)
    else:
        s = iso(sec)
        if rng.random() < .4:
            s = s[:-1] + '.%dZ' % rng.randint(0, 999999)
        got = run.must('parsing', tu.str_to_time, s)
    run.expect(calendar.timegm(got) == sec and got == time.gmtime(sec), '%r read as %r, expected second %d', s, got, sec)
    run.obs('parsed', f)
    bad = rng.choice((s[:-1], s[1:], s + 'x', s + ' ', ' ' + s, s + '\n', s + s, s.replace('T', ' '), '2021-13-01T00:00:00Z', '2021-02-30T00:00:00Z', '2021-01-01T25:00:00Z', 'now',
                      '2021-01-01T00:00:00+01:00', '2021-01-01', gen.word(rng)))
    if len(bad) == 20 and bad[-1] == 'Z':
        try:
            datetime.strptime(bad, FMT)
            return
        except ValueError:
            pass
    if tu.TIME_FORMAT_WITH_FRAGMENT.match(bad) if hasattr(tu, 'TIME_FORMAT_WITH_FRAGMENT') else False:
        return
    if bad.endswith('Z') and bad.startswith('2') and '.' in bad:
        return
    run.raises('the time %r' % bad, tu.str_to_time, bad)
    run.obs('bad_time')


def amounts(rng):
    out = {}
    for k, top in (('days', 500), ('seconds', 10 ** 6), ('microseconds', 10 ** 7), ('milliseconds', 10 ** 5), ('minutes', 10 ** 4), ('hours', 1000), ('weeks', 60)):
        if rng.random() < .3:
            out[k] = rng.choice((0, 1, rng.randint(0, top), -rng.randint(0, top), rng.randint(0, 40 * top if k != 'days' else 30000)))
    return out


ORDER = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']


def whiles(run, rng):
    zone = rng.choice(ZONES)
    gen.set_zone(zone)
    am = amounts(rng)
    delta = timedelta(**am)
    pos = rng.random() < .3
    args = [am.get(k, 0) for k in ORDER] if pos else []
    kw = {} if pos else am
    run.note(zone=zone, amounts=am, positional=pos)

    def call(name, **extra):
        k = dict(kw, **extra)
        t0 = datetime.now(timezone.utc).replace(tzinfo=None)
        got = run.must(name, getattr(tu, name), *args, **k)
        t1 = datetime.now(timezone.utc).replace(tzinfo=None)
        return t0, got, t1
    for name, sign in (('time_in_a_while', 1), ('time_a_while_ago', -1)):
        t0, got, t1 = call(name)
        run.expect(t0 + sign * delta <= got <= t1 + sign * delta, '%s: %r, expected %r to %r', name, got, t0 + sign * delta, t1 + sign * delta)
        run.obs('time', name)
    for name, sign in (('in_a_while', 1), ('a_while_ago', -1)):
        for f in (None, '%d/%m/%Y %H-%M-%S') + (('',) if sign > 0 else ()):
            t0, got, t1 = call(name, **({} if f is None else {'time_format': f}))
            back = datetime.strptime(got, f or FMT)
            run.expect((t0 + sign * delta).replace(microsecond=0) <= back <= t1 + sign * delta, '%s: %r, expected %r to %r', name, got, t0 + sign * delta,
                       t1 + sign * delta)
            run.obs('text', (name, f))
    t0, got, t1 = call('epoch_in_a_while')
    lo = int(((t0 + delta) - EPOCH).total_seconds())
    hi = int(((t1 + delta) - EPOCH).total_seconds())
    run.expect(type(got) is int and lo <= got <= hi, 'epoch_in_a_while: %r, expected %d to %d', got, lo, hi)
    for name in ('utc_time_sans_frac', 'time_sans_frac'):
        a = gen.now()
        got = getattr(tu, name)()
        b = int(time.time())
        run.expect(type(got) is int and a <= got <= b, '%s: %r, expected %d to %d (zone %s)', name, got, a, b, zone)
    a = gen.now()
    got = tu.instant()
    b = int(time.time())
    run.expect(iso(a) <= got <= iso(b) and len(got) == 20, 'instant: %r', got)
    run.obs('now', zone)
    # the pieces fit together
    if delta > timedelta(seconds=3):
        run.expect(tu.valid(tu.in_a_while(*args, **kw)) and not tu.after(tu.epoch_in_a_while(*args, **kw)), '%r ahead is not in the future', am)
        run.expect(tu.after(tu.a_while_ago(*args, **kw)) and not tu.before(tu.a_while_ago(*args, **kw)), '%r ago is not in the past', am)
    base = datetime(2000 + rng.randint(0, 90), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    sh = rng.choice((0, 1, -1, rng.randint(-10 ** 8, 10 ** 8)))
    run.expect(tu.shift_time(base, sh) - base == timedelta(seconds=sh), 'shifting by %d', sh)
    run.obs('shifted')


def scenarios(run):
    run.rules.append('points around now (the very second included), zone-offset distances and far ones, as number, text, text with fractions and struct, in ten '
                     'local zones; distinct = (function, notation, relation, zone), formats')
    run.assumptions.append('a call whose second ticked over meanwhile is not judged at the boundary; points after 1970')
    run.require(compared=4000, boundary=300, ordered=400, parsed=300, bad_time=100, time=400, text=1000, now=200, shifted=200)
    return {'compare': (compare, 1500, 60000), 'order': (order, 800, 40000), 'parse': (parse, 600, 30000), 'whiles': (whiles, 400, 15000)}
