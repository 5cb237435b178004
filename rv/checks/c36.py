"""C36 messages handled before or at the same time make no difference: the cases of all other checks, in company.

Each batch runs in a forked child that starts out with nothing done: rounds of 2-4 cases at once, one after the other.  A
case whose own oracle objects is done again alone in another fresh child; it counts only when it passes there."""
import importlib
import json
import os
import random
import select
import signal
import time
import traceback

from rv import core, gen, sched

OWN = {}
ROUNDS = 12
LIMIT = 240         # seconds for a child


def table():
    if not OWN:
        for n in range(1, 35):
            mod = importlib.import_module('rv.checks.c%02d' % n)
            names = getattr(mod, 'TOGETHER', ())
            if names:
                tab = mod.scenarios(core.Run('C%02d' % n, 'quick', 0))
                for k in names:
                    OWN['c%02d.%s' % (n, k)] = tab[k][0]
    return OWN


def child(fn, limit=LIMIT):
    """fn() in a child; its result (JSON) or None."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            out = fn()
            with os.fdopen(w, 'w') as fp:
                json.dump(out, fp, default=repr)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    buf, end = b'', time.time() + limit
    with os.fdopen(r, 'rb') as fp:
        while time.time() < end:
            if select.select([fp], [], [], 1)[0]:
                x = os.read(fp.fileno(), 1 << 16)
                if not x:
                    break
                buf += x
        else:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return {'died': st}
    return json.loads(buf)


def what(e):
    tb = traceback.extract_tb(e.__traceback__)
    lib = [(os.path.basename(f.filename), f.lineno, f.name) for f in tb if '/oidcmsg/' in f.filename]
    return '%s: %s %s' % (type(e).__name__, core.short(str(e)), lib[-2:])


def judged(e):
    return e is not None and not isinstance(e, (core.Known, core.Skip, MemoryError, OSError, ImportError, NameError))


def company(run, rng):
    tab = table()
    seed = rng.getrandbits(48)
    few = rng.sample(sorted(tab), rng.choice((1, 2, 3, 6))) if rng.random() < .6 else sorted(tab)
    zone = rng.choice(gen.ZONES)

    def batch():
        gen.set_zone(zone)
        rr, seen, keys = random.Random(seed), 0, []
        turns = 0
        for i in range(ROUNDS):
            sub = sched.sub(run, 'company', seed)
            picks, seeds, subs, errs, t = sched.play(sub, rr, {k: tab[k] for k in few})
            seen += len(picks)
            turns += t.switches
            keys.append(sorted(picks) + [core.hashlib.md5(repr(t.trail).encode()).hexdigest()[:8]])
            for p, s, e, x in zip(picks, seeds, errs, subs):
                if judged(e):
                    return {'seen': seen, 'turns': turns, 'keys': keys, 'bad': [p, s, what(e), dict(x.case), i]}
        return {'seen': seen, 'turns': turns, 'keys': keys}

    def alone(p, s):
        def f():
            gen.set_zone(zone)
            sub = sched.sub(run, p, s)
            try:
                with gen.frozen_zone():
                    tab[p](sub, random.Random(s))
            except Exception as e:
                if judged(e):
                    return {'bad': what(e)}
            return {'bad': None}
        return f
    run.note(few=few[:10], seed=seed)
    r = child(batch)
    if 'died' in r:
        raise OSError('child ended with %r' % r['died']) if not os.WIFSIGNALED(r['died']) else core.Violation('the process died (signal %d)' % os.WTERMSIG(r['died']))
    run.obs('cases_in_company', None, r['seen'])
    run.obs('turns_passed', None, r['turns'])
    for k in r['keys']:
        run.obs('rounds', tuple(k))
    if r.get('bad'):
        p, s, msg, case, i = r['bad']
        run.note(failing=p, seed=s, detail=case)
        a = child(alone(p, s))
        if a.get('bad') or 'died' in a:
            run.obs('fails_alone_too', p)       # some other property is broken
        else:
            raise core.Violation('a case of %s fails in company (round %d), not alone: %s' % (p, i, msg))


def scenarios(run):
    run.rules.append('random cases of the other checks in company; distinct = (cases, schedule)')
    run.assumptions += ['turns are passed at lines of the library only, not inside third-party code',
                        'a case that fails alone as well is not judged here']
    run.require(cases_in_company=600, turns_passed=3000)
    return {'company': (company, 110, 2000)}
