"""Several cases of a check at once, in threads that take turns at lines of the library: one schedule per case, repeatable.

Only one thread runs at a time.  At a line of the library the running thread may pass the turn on, so that schedules differ
from case to case but not from run to run, and nothing in third-party code is ever interrupted."""
import collections
import random
import sys
import threading

from . import core, gen

PATIENCE = 20       # seconds; a thread that waits longer (its predecessor is stuck in a lock) just goes on


class Turns:
    def __init__(self, rng, n):
        self.rng = rng
        self.p = rng.choice((.01, .03, .1, .3, 1))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.switches = 0
        self.free = False
        self.trail = []

    def go(self, me):
        """Give the turn to some thread (perhaps the same)."""
        nxt = self.rng.choice(sorted(self.alive)) if self.alive else None
        if nxt is None or nxt == me:
            return
        self.switches += 1
        self.sems[nxt].release()
        if me in self.alive:
            self.wait(me)

    def wait(self, me):
        if not self.sems[me].acquire(timeout=PATIENCE):
            self.free = True

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line' and not self.free and self.rng.random() < self.p:
                self.trail.append(frame.f_lineno)
                self.go(me)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            if code.co_name != '<module>' and code.co_filename.startswith(core.SRC):
                return local
            return None
        return glob

    def run(self, me, job):
        self.wait(me)
        try:
            sys.settrace(self.tracer(me))
            try:
                job()
            finally:
                sys.settrace(None)
        finally:
            self.alive.discard(me)
            self.go(me)


def sub(run, scenario, seed):
    r = object.__new__(core.Run)
    r.__dict__.update(run.__dict__)
    r.counts = collections.Counter()
    r.cur_keys, r.distinct = set(), set()
    r.case = {'scenario': scenario}
    r.noise_rng = random.Random('noise %s' % seed)
    return r


def play(run, rng, table):
    """Cases of the table (scenario name -> function) at once.  Returns (picks, seeds, what each run saw, errors, turns)."""
    names = sorted(table)
    n = rng.choice((2, 2, 2, 3, 4))
    picks = [rng.choice(names) for _ in range(n)]
    if rng.random() < .7:
        picks = [picks[0]] * n
    seeds = [rng.getrandbits(48) for _ in picks]
    turns = Turns(random.Random(rng.getrandbits(48)), n)
    subs = [sub(run, s, x) for s, x in zip(picks, seeds)]
    errs = [None] * n

    def job(i):
        try:
            table[picks[i]](subs[i], random.Random(seeds[i]))
        except BaseException as e:
            errs[i] = e
    threads = [threading.Thread(target=turns.run, args=(i, lambda i=i: job(i)), daemon=True) for i in range(n)]
    run.note(picks=picks, p=turns.p)
    with gen.frozen_zone():
        for t in threads:
            t.start()
        turns.sems[turns.rng.randrange(n)].release()
        try:
            for t in threads:
                while t.is_alive():
                    t.join(1)
        except core.Spinning:
            raise core.Violation('no result after %d s of processor time of %r at once' % (core.CPU_LIMIT, picks))
    run.obs('together', (tuple(sorted(picks)), tuple(turns.trail[:200])))
    run.counts['turns_passed'] += turns.switches
    if turns.free:
        run.counts['turns_given_up'] += 1
    return picks, seeds, subs, errs, turns


def together(run, rng, table):
    picks, seeds, subs, errs, turns = play(run, rng, table)
    for s in subs:
        run.counts.update(s.counts)
        run.distinct |= s.distinct
    for kind in (core.Violation, Exception, BaseException):
        for e, s in zip(errs, subs):
            if isinstance(e, kind) and not isinstance(e, (core.Known, core.Skip)):
                run.case.update(failing={k: v for k, v in s.case.items()})
                raise e
    for e in errs:
        if isinstance(e, core.Known):
            raise e
