"""C31 xs:duration values are parsed and added to a point in time as XML Schema says."""
import calendar
import copy
import re
import time
from fractions import Fraction

from rv import core, gen
from rv.checks.c30 import ZONES
from oidcmsg import time_util as tu

FIELDS = [('Y', 'tm_year'), ('M', 'tm_mon'), ('D', 'tm_mday')], [('H', 'tm_hour'), ('M', 'tm_min'), ('S', 'tm_sec')]


# (?a) digits are those of ASCII
VALID = re.compile(r'(?a)-?P(?=.)(\d+Y)?(\d+M)?(\d+D)?(T(?=.)(\d+H)?(\d+M)?((\d+\.?\d*|\.\d+)S)?)?\Z')


def teardown(run):
    gen.set_zone('UTC')


def number(rng, top):
    if rng.random() < .06:
        return rng.randint(top, 40 * top)
    return rng.choice((0, 1, rng.randint(0, top), rng.randint(0, top), top))


TOP = {'tm_year': 300, 'tm_mon': 40, 'tm_mday': 400, 'tm_hour': 100, 'tm_min': 200, 'tm_sec': 200}


def duration(rng, sign=True, wide=False):
    """(text, sign, fields)"""
    dic = {t: 0 for part in FIELDS for _, t in part}
    parts = ['', '']
    p = rng.choice((.2, .5, .9))
    while not any(parts):
        for i, part in enumerate(FIELDS):
            parts[i] = ''
            for code, typ in part:
                dic[typ] = 0
                if rng.random() < p:
                    n = dic[typ] = number(rng, rng.choice((12, TOP[typ])))
                    if wide and rng.random() < .05:
                        n = dic[typ] = rng.randint(1, 10 ** rng.randint(9, 15))
                    s = str(n)
                    if rng.random() < .1:
                        s = '0' + s
                    if typ == 'tm_sec' and rng.random() < .3:
                        f = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 4)))
                        s += '.' + f
                        dic[typ] = float(s)
                    parts[i] += s + code
    neg = sign and rng.random() < .3
    text = ('-' if neg else '') + 'P' + parts[0] + ('T' + parts[1] if parts[1] else '')
    return text, '-' if neg else '+', dic


def parse(run, rng):
    text, sign, dic = duration(rng, wide=True)
    run.note(duration=text)
    got = run.must('parsing %r' % text, tu.parse_duration, text)
    run.expect(got[0] == sign and {k: got[1][k] for k in dic} == dic, '%r parsed as %r, expected %r %r', text, got, sign, dic)
    if rng.random() < .3:
        # the answer belongs to who asked
        was = copy.deepcopy(got)
        for k in list(got[1]):
            got[1][k] = got[1][k] + 1
        got[1].pop(rng.choice(list(got[1])))
        again = run.must('parsing %r again' % text, tu.parse_duration, text)
        run.expect(again == was, '%r parsed as %r the first time, as %r later', text, was, again)
    run.obs('parsed', ''.join(c for c in text if not c.isdigit()))
    body = text.lstrip('-')[1:]
    bad = rng.choice((text.replace('P', '', 1), text.replace('P', 'Q', 1), 'x' + text, text.replace('P', 'P-', 1), 'P' + (body.replace('T', '', 1) if 'T' in body else 'T'),
                      'P' + body.split('T')[0] + 'T', text.lower(), '+' + text, 'P1.5Y', 'P2.5D', 'PT1.5H', 'PT1.5M', 'P1YxD', 'PxY', 'P1Y-2D', 'PT-3S', 'P', '',
                      'P1H', 'P5', 'PT5', text + '1', text + 'x', text + ' ', text + '\n', text.replace('P', 'P ', 1), text.replace('P', 'P+', 1), text + text,
                      text + 'T', 'P1_0D', 'PT1_0S', 'P\uff11D', 'PT\u0661S', 'PTnanS', 'PTinfS', 'PT1e3S', 'PT1E3S', 'PT0x1S', 'PT5M3', 'PT1.5', 'P1D2Y', 'PT1S1M', 'PT1M2M', '-',
                      '--' + text.lstrip('-'), ' ' + text, 'PT1,5S', 'P1Y1T1H', 'P1W', 'P' + ''.join(reversed(body))))
    if rng.random() < .15:      # white space and the like within
        i = rng.randint(1, len(text))
        bad = text[:i] + rng.choice(('\n', '\n', ' ', '\t', '\r', '\x0b', '\u2028', '\x00', '_', '\xa0')) + text[i:]
    if VALID.match(bad):
        return
    run.raises('the duration %r' % bad, tu.parse_duration, bad)
    run.obs('bad', ''.join(c for c in bad if not c.isdigit()))


def maxday(y, m):
    y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
    return calendar.monthrange(y, m)[1]


def reference(start, dur, swapped=False):
    """XML Schema Part 2, appendix E.1, exactly (rational seconds).  With `swapped` the roles of the days of
    the start and of the duration are exchanged: the known finding."""
    fq = lambda a, lo, hi: int((a - lo) // (hi - lo))
    mod = lambda a, lo, hi: (a - lo) % (hi - lo) + lo
    t = start[1] + dur['tm_mon']
    month = mod(t, 1, 13)
    year = start[0] + dur['tm_year'] + fq(t, 1, 13)
    t = start[5] + Fraction(str(dur['tm_sec']))
    sec, carry = t % 60, int(t // 60)
    t = start[4] + dur['tm_min'] + carry
    minute, carry = t % 60, t // 60
    t = start[3] + dur['tm_hour'] + carry
    hour, carry = t % 24, t // 24
    a, b = (start[2], dur['tm_mday']) if not swapped else (dur['tm_mday'], start[2])
    day = max(1, min(a, maxday(year, month))) + b + carry
    while day > maxday(year, month):
        day -= maxday(year, month)
        t = month + 1
        month = mod(t, 1, 13)
        year += fq(t, 1, 13)
    return year, month, day, int(hour), int(minute), int(sec)


def far(run, start, text, dic):
    """Beyond the year 9999: said to be too far, or right, but not a wrong point."""
    want = reference(start[:6], dic)
    run.note(start=tuple(start[:6]), duration=text)
    try:
        got = tu.add_duration(start, text)
    except Exception as e:
        run.obs('far_refused', type(e).__name__)
        return
    got = tuple(got[:6]) if got is not None else None
    if got != want and got == reference(start[:6], dic, True):
        raise core.Known('add-duration-days', '%s plus %s gives %r, not %r' % (tuple(start[:6]), text, got, want))
    run.expect(got == want, '%r plus %s gives %r, expected %r', tuple(start[:6]), text, got, want)
    run.obs('far_right')


def add(run, rng):
    zone = rng.choice(ZONES)
    gen.set_zone(zone)
    sec = rng.choice((lambda: rng.randint(0, 4102444800), lambda: calendar.timegm((rng.randint(1970, 2090), rng.choice((1, 2, 3, 12)), rng.choice((1, 28, 28)), 23, 59, 59)),
                      lambda: calendar.timegm((rng.randint(1970, 2090), rng.choice((1, 3, 5, 12)), rng.choice((29, 30, 31)), rng.choice((0, 12)), 0, 0)),
                      lambda: int(time.time())))()
    start = time.gmtime(sec)
    text, _, dic = duration(rng, False)
    if rng.random() < .6 and 'D' in text:
        # mostly stay clear of the days of the month, to see the rest
        while dic['tm_mday'] == 0 or dic['tm_mday'] > 28 or 'D' not in text:
            text, _, dic = duration(rng, False)
    if rng.random() < .12:
        # into a February, at its last days
        mon = rng.choice((0, 1, 11, 12, 23, 24, 36, 48))
        y, mo = divmod(12 * rng.choice((2000, 2023, 2024, 2028, 2100, 2400, rng.randint(1980, 2400))) + 1 - mon, 12)
        start = time.gmtime(calendar.timegm((max(y, 1970), mo + 1, rng.choice((1, 28)), rng.choice((0, 23)), 0, 0)))
        dic = {'tm_year': rng.choice((0, 0, 1, 2, 3, 4)), 'tm_mon': mon, 'tm_mday': rng.choice((27, 28, 28, 29, 30, 31, 1)), 'tm_hour': rng.choice((0, 0, 1, 24)), 'tm_min': 0, 'tm_sec': 0}
        text = 'P' + ''.join('%d%s' % (dic[k], c) for c, k in FIELDS[0] if dic[k]) + ('T%dH' % dic['tm_hour'] if dic['tm_hour'] else '')
    if dic['tm_year'] + dic['tm_mon'] // 12 > 7800:
        return far(run, start, text, dic)
    want = reference(start[:6], dic)
    run.note(start=time.strftime('%Y-%m-%dT%H:%M:%SZ', start), duration=text, zone=zone)
    got = run.must('adding %s' % text, tu.add_duration, start, text)
    got = tuple(got[:6])
    if got != want and got == reference(start[:6], dic, True):
        raise core.Known('add-duration-days', '%s plus %s gives %r, not %r' % (tuple(start[:6]), text, got, want))
    run.expect(got == want, '%r plus %s gives %r, expected %r (zone %s)', tuple(start[:6]), text, got, want, zone)
    run.obs('added', (bool(dic['tm_year']), bool(dic['tm_mon']), bool(dic['tm_mday']), 'T' in text, zone))


TOGETHER = ('parse', 'add')


def scenarios(run):
    run.rules.append('durations over every subset of the fields, from points at and around ends of months and days, in ten local zones, against the algorithm '
                     'of XML Schema; distinct = shape of the text, fields used and zone')
    run.assumptions.append('years before 10000; a negative duration is not added (the tests want None)')
    run.require(parsed=500, bad=300, added=300)
    return {'parse': (parse, 900, 60000), 'add': (add, 1500, 80000)}
