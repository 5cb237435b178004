"""C33 configured paths: proper_path gives a "./.../" path naming the same place; add_base_path moves exactly the named relative paths."""
import collections
import copy
import os

from rv import gen
from oidcmsg import add_base_path, proper_path, verified_claim_name

SEG = ['a', 'b', 'keys', 'jwks.json', 'x.y', '...', 'a b', '.hidden', '\u00e5', '-', 'static', 'private', '~', 'A', '1', '%2e', 'a..b', 'tail.']


def seg(rng, hidden=True):
    while True:
        s = rng.choice((lambda: rng.choice(SEG), lambda: gen.word(rng), lambda: gen.text(rng)[:30].replace('/', '_')))()
        if s.strip('.') and (hidden or not s.startswith('.')) and '\x00' not in s:
            return s


def proper(run, rng):
    pre = rng.choice(('', '/', './', '', './', '../', '.', '...', '../../', '//', './/'))
    segs = [seg(rng, i > 0 or pre in ('/', './', '../')) for i in range(rng.randint(1, 4))]
    body = '/'.join(segs)
    p = pre + body + rng.choice(('', '/'))
    if rng.random() < .05:
        p, segs, pre = rng.choice((('', [], ''), ('/', [], '/'), ('./', [], './'), ('.', [], '.')))
    run.note(path=p)
    r = run.must('proper_path(%r)' % p, proper_path, p)
    run.expect(isinstance(r, str) and r.startswith('./') and r.endswith('/'), 'proper_path(%r) is %r', p, r)
    run.expect(pre == '../../' or [s for s in r.split('/')[1:] if s] == segs, 'proper_path(%r) is %r, other names than %r', p, r, segs)
    if pre in ('', './'):
        run.expect(os.path.normpath(r) == os.path.normpath(p), 'proper_path(%r) is %r, another place', p, r)
    if pre in ('', '/', './', '../', '.', '...'):
        run.expect(r == './' + ''.join(s + '/' for s in segs), 'proper_path(%r) is %r', p, r)
    run.expect(proper_path(r) == r, 'proper_path is not stable: %r, %r', r, proper_path(r))
    run.obs('proper', (pre, len(segs)))


def value(rng):
    """A configured path: relative, absolute, or not set."""
    r = rng.random()
    if r < .15:
        return rng.choice(('', None))
    s = '/'.join(seg(rng) for _ in range(rng.randint(1, 3)))
    if r < .45:
        return '/' + s
    return rng.choice(('', '', './', '../', 'rel', 'rel/', 'opt/op/')) + s


def config(rng, depth, spec, conf):
    for _ in range(rng.randint(1, 3)):
        sec = 's%d%s' % (len(conf) + len(spec), gen.word(rng))
        how = rng.choice(('list', 'list', 'none', 'dict', 'absent', 'other'))
        if how == 'list':
            names = list(dict.fromkeys(gen.word(rng) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 3)))))
            part = {n: value(rng) for n in names if rng.random() < .8}
            part[gen.word(rng) + '!'] = value(rng)
            conf[sec] = rng.choice((part, part, part, part, {}, None, collections.UserDict(part), collections.OrderedDict(part)))
            spec[sec] = names
        elif how == 'none':
            conf[sec] = value(rng)
            spec[sec] = None
        elif how == 'dict' and depth:
            conf[sec], spec[sec] = {}, {}
            config(rng, depth - 1, spec[sec], conf[sec])
        elif how == 'absent':
            spec[sec] = rng.choice((['x'], None, {'y': ['x']}))
        elif how == 'other':
            conf[sec] = rng.choice((lambda: value(rng), lambda: {gen.word(rng): value(rng)}, lambda: 5, lambda: ['a']))()
    if rng.random() < .5:
        names = ['t%d%s' % (i, gen.word(rng)) for i in range(2)]
        conf.update({n: value(rng) for n in names[:rng.randint(0, 2)] if n not in spec})
        spec[''] = [n for n in names if n not in spec]


def moved(v, base):
    if not v or not isinstance(v, str) or v.startswith('/'):
        return v
    return base + ('' if base.endswith('/') else '/') + v if base else v


def model(conf, spec, base):
    out = dict(conf)
    for sec, items in spec.items():
        if sec == '':
            for a in items:
                if a in out:
                    out[a] = moved(out[a], base)
        elif sec not in conf or not conf[sec]:
            continue
        elif isinstance(items, list):
            out[sec] = {k: moved(v, base) if k in items else v for k, v in conf[sec].items()}
        elif items is None:
            out[sec] = moved(conf[sec], base)
        else:
            out[sec] = model(conf[sec], items, base)
    return out


def based(run, rng):
    spec, conf = {}, {}
    config(rng, 2, spec, conf)
    base = rng.choice(('/', '/opt/op', '/opt/op/', '/a b', '/\u00e5', 'rel', 'rel/', '', '.', './', '..', '//', '/opt//', '/opt/op//'))
    before, sp = copy.deepcopy(conf), copy.deepcopy(spec)
    run.note(config=before, paths=spec, base=base)
    run.must('add_base_path', add_base_path, conf, spec, base)
    want = model(before, spec, base)
    run.expect(conf == want, 'the configuration became %r, expected %r', conf, want)
    run.expect(spec == sp, 'the specification was changed')
    n = str(conf) != str(before)
    run.obs('moved' if n else 'unmoved', (len(spec), base))
    if base.startswith('/'):
        add_base_path(conf, spec, base)
        run.expect(conf == want, 'applying it again gives %r, expected %r', conf, want)


def names(run, rng):
    """Names of verified slots are distinct for distinct claims and distinct from every claim name."""
    a, b = gen.text(rng), gen.text(rng)
    x, y = verified_claim_name(a), verified_claim_name(b)
    run.expect((x == y) == (a == b) and x != a and x != b, 'verified names %r, %r of %r, %r', x, y, a, b)
    run.expect(x.startswith('__verified'), 'verified name %r', x)
    run.obs('names')


TOGETHER = ('proper', 'based', 'names')


def scenarios(run):
    run.rules.append('paths with every kind of start, configurations nested up to three levels with relative, absolute, unset and unnamed paths, against a '
                     'reference; distinct = (start, depth), (sections, base)')
    run.assumptions.append('of paths climbing up ("../", "...") the leading part is dropped, as the code has it')
    run.require(proper=800, moved=300, names=100)
    return {'proper': (proper, 1500, 60000), 'based': (based, 800, 30000), 'names': (names, 200, 2000)}
