"""C37 the way the interpreter is run makes no difference: the cases of all other checks under other settings.

Each batch is a new interpreter.  A case whose own oracle objects there is done again in an interpreter with ordinary
settings; it counts only when it passes in that one."""
import json
import os
import subprocess
import sys
import tempfile

from rv import core, gen

CASES = 160
ORDINARY = {'flags': [], 'env': {'PYTHONHASHSEED': '0'}, 'log': False, 'gc': '', 'umask': 0o022, 'thread': False, 'cwd': core.ROOT}
LOCALES = ({}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C', 'PYTHONUTF8': '1'}, {'LC_ALL': 'C.utf8'}, {'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE': '0'})
NAMES = []


def interpreter(s, cases, **more):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
    env.update(PYTHONPATH=os.pathsep.join((core.ROOT, os.path.join(core.REPO, 'src'))), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', TZ='UTC')
    env.update(s['env'])
    job = dict({k: s[k] for k in ('log', 'gc', 'umask', 'thread')}, cases=cases, **more)
    p = subprocess.run([sys.executable, *s['flags'], '-W', 'ignore', '-m', 'rv.envrun'], input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=s['cwd'], env=env, timeout=400)
    if p.returncode:
        raise OSError('interpreter ended with %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-500:]))
    return json.loads(p.stdout.decode())


def settings(rng, scratch):
    return {'flags': rng.choice(([], ['-O'], ['-OO'], ['-O'], ['-X', 'dev'], ['-b'])),
            'env': dict(rng.choice(LOCALES), PYTHONHASHSEED=str(rng.randrange(1, 1 << 32))),
            'log': rng.random() < .5, 'gc': rng.choice(('', '', 'off', 'often')), 'umask': rng.choice((0o022, 0, 0o077)), 'thread': rng.random() < .4,
            'cwd': rng.choice((core.ROOT, scratch, '/'))}


def settled(run, rng):
    if not NAMES:
        NAMES.extend(interpreter(ORDINARY, [], list=True))
    with tempfile.TemporaryDirectory(prefix='rv-env-') as d:
        s = settings(rng, d)
        names = NAMES
        if s['env'].get('PYTHONUTF8') == '0':       # file names outside ASCII can not even be asked for there
            names = [k for k in NAMES if k[:3] not in ('c25', 'c27', 'c28', 'c29')]
        cases = [[rng.choice(names), rng.getrandbits(48), rng.choice(gen.ZONES)] for _ in range(CASES)]
        run.note(settings={k: v for k, v in s.items()})
        r = interpreter(s, cases)
    run.obs('cases_elsewhere', None, len(r['out']))
    run.obs('interpreters', (tuple(s['flags']), s['log'], s['gc'], s['thread'], s['umask'], tuple(r['state'][:3])))
    run.counts['classes_observed'] += sum(o[2] for o in r['out'])
    run.counts['log_records_formatted'] += r['state'][3]
    again = [(c, o) for c, o in zip(cases, r['out']) if o[0] == 'bad']
    for o in r['out']:
        if o[0] == 'harness':
            raise OSError(o[1])
    run.expect(len(r['out']) == len(cases), 'the interpreter stopped after %d cases', len(r['out']))
    if again:
        alone = interpreter(ORDINARY, [c for c, _ in again])
        for (c, o), a in zip(again, alone['out']):
            if a[0] != 'ok':
                run.obs('fails_everywhere', c[0])
                continue
            run.note(failing=c)
            raise core.Violation('a case of %s fails in an interpreter with %r, not in one with ordinary settings: %s' % (c[0], {k: v for k, v in s.items() if v != ORDINARY[k]}, o[1]))


CONV = 'oidcmsg.storage.converter.'


def passed_on(run, rng):
    """What one interpreter stores in files, an interpreter with another locale reads, whatever the encoding of either."""
    with tempfile.TemporaryDirectory(prefix='rv-env-') as d:
        conf = {'fdir': os.path.join(d, 'x')}
        if rng.random() < .5:
            conf['key_conv'] = CONV + 'QPKey'
        vc = rng.choice(('', '', 'PassThru', 'JSON'))
        if vc:
            conf['value_conv'] = CONV + vc
        model, out = {}, []
        for _ in range(rng.choice((2, 3))):
            do, want = [], []
            for _ in range(20):
                k = 'k%d' % rng.randrange(8) + ('' if 'key_conv' not in conf else rng.choice(('', '\u00e5', ' ')))
                r = rng.random()
                if r < .5:
                    v = gen.text(rng, rng.choice((1, 5, 40))).strip()
                    if vc == 'JSON' and rng.random() < .5:
                        v = {v: [v]}
                    elif not v or v.encode('utf-8', 'replace').decode() != v or v.strip() != v:
                        v = 'x'
                    do.append(['set', k, v])
                    model[k] = v
                    want.append(None)
                elif r < .6 and k in model:
                    do.append(['del', k])
                    del model[k]
                    want.append(None)
                elif r < .7:
                    do.append(['items'])
                    want.append(dict(model))
                elif k in model:
                    do.append(['get', k])
                    want.append(model[k])
            do.append(['items'])
            want.append(dict(model))
            s = dict(ORDINARY, env=dict(rng.choice(LOCALES), PYTHONHASHSEED='0'))
            got = interpreter(s, [], store=conf, do=do)
            for op, g, w in zip(do, got, want):
                run.obs('stored_elsewhere', (op[0], vc, 'key_conv' in conf, tuple(sorted(s['env']))))
                run.expect(g == ['ok', w], 'in an interpreter with %r, %r gives %r instead of %r', s['env'], op, g, w)


def scenarios(run):
    run.rules.append('interpreters with drawn settings (-O, hash seed, locale, logging, garbage collection, umask, thread, directory), each with %d random cases of the other '
                     'checks; distinct = settings' % CASES)
    run.assumptions += ['locales present here (C, C.utf8) only', 'a case that fails under ordinary settings as well is not judged here']
    run.require(cases_elsewhere=2000, interpreters=18, log_records_formatted=100, stored_elsewhere=400)
    return {'settled': (settled, 24, 240), 'passed_on': (passed_on, 30, 800)}
