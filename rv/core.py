"""Run-time monitoring core: cases, observations, verdicts, evidence, replay.

A check is a list of *scenarios*.  A scenario drives the real oidcmsg code with one generated case; monitors
(oracles) look at what the real code did and call `run.expect` / `run.violation`.  Verdicts are three-valued:
  0  held on everything observed      1  violated (VIOLATION line)      2  inconclusive (monitor starved / harness error)
"""
import ast
import collections
import glob
import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'oidcmsg')
EVID = os.path.join(ROOT, 'evidence')


RULE = ('A case is made from (VERIF_SEED, property, scenario, index).  It is non-trivial when a monitor observed at least one '
        'classified event in it, and distinct when no earlier case of the scenario produced the same set of '
        '(event, class) observations.')


class Violation(Exception):
    """Raised by a monitor: the observed execution refutes the property."""


class Known(Exception):
    """The observed execution matches a listed finding (by mechanism); the case ends here."""
    def __init__(self, ident, what=''):
        self.ident = ident
        super().__init__(what or ident)


class Spinning(BaseException):
    """A case used up its processor time (not wall-clock) budget: the library does not come back."""


CPU_LIMIT = 90      # seconds of processor time per case; the most expensive cases use about two


def _spin(signum, frame):
    raise Spinning()


class Skip(Exception):
    """Case is outside the property's quantifier."""


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:      # repr of a library object may run library code
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def harvest():
    """String and int literals of the tree under test: seeds for the generators (an AFL-style dictionary).
    Never used to judge anything."""
    strs, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(SRC, '**', '*.py'), recursive=True)):
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except Exception:
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, str) and 0 < len(v) < 120:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) < 120:
                    try:
                        strs.add(v.decode())
                    except UnicodeDecodeError:
                        pass
                elif isinstance(v, int) and not isinstance(v, bool):
                    ints.add(v)
    return sorted(strs), sorted(ints)


LITS, INTS = harvest()


def fmt(msg, args):
    if not args:
        return msg
    try:
        return re.sub('%[a-z]', '%s', msg) % tuple(a if isinstance(a, int) else short(a) for a in args)
    except TypeError:
        return msg + ' ' + short(args)


NOISE = (('opponent_id', 'x'), ('sender', 'x'), ('allow_missing_kid', True), ('foo', 1), ('redirect_uri', 'https://rp.example.com/cb'), ('state', 'x'),
         ('scope', ['openid']), ('response_args', {}), ('client_secret', 'hemlig'), ('allow', {}), ('strict', False), ('debug', True), ('lax', True),
         ('allow_none', True), ('insecure', True), ('trusted', True))


class Run:
    def __init__(self, pid, tier, seed, level='exploration'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.evaluations = 0
        self.counts = collections.Counter()
        self.distinct = set()           # (event, class) pairs seen anywhere
        self.seen_cases = set()         # distinct sets of such pairs, one set per case
        self.cur_keys = set()
        self.samples = []
        self.violations = []
        self.known = collections.OrderedDict()
        self.rules = []
        self.assumptions = []
        self.need = {}
        self.errors = []
        self.case = None
        self.listed = load_known(pid)
        self.thorough = tier == 'thorough'

    # ---- monitors -------------------------------------------------------------------------------------
    def obs(self, event, key=None, n=1):
        """One observation by a monitor; `key` identifies a distinct non-trivial state/input class."""
        self.counts[event] += n
        if key is not None:
            h = hashlib.md5(repr((event, key)).encode('utf-8', 'surrogatepass')).digest()[:8]
            self.distinct.add(h)
            self.cur_keys.add(h)

    def note(self, **kw):
        """Describe the current case (goes into the replay and the samples)."""
        if self.case is not None:
            for k, v in kw.items():
                self.case[k] = short(v, 1500)

    def expect(self, cond, msg, *args):
        self.counts['assertions'] += 1
        if not cond:
            raise Violation(fmt(msg, args))

    def noise(self):
        """Keyword arguments to verify() that state no expectation, and must not matter."""
        r, out = self.noise_rng, {}
        if r.random() < .3:
            for k, v in NOISE:
                if r.random() < .25:
                    out[k] = v
            self.counts['noisy_verifications'] += 1
        return out

    def noisy(self, fn, k):
        if getattr(fn, '__name__', '') == 'verify' and type(getattr(fn, '__self__', None)).__module__.startswith('oidcmsg'):
            k = dict(self.noise(), **k)
        return k

    def must(self, what, fn, /, *a, **k):
        """Call into the library; any exception refutes the property."""
        k = self.noisy(fn, k)
        try:
            return fn(*a, **k)
        except (Violation, Known, Skip):
            raise
        except Exception as e:
            raise Violation('%s raised %s: %s' % (what, type(e).__name__, short(str(e))))

    def refuses(self, what, fn, /, *a, **k):
        """Call into the library; it must raise or return False.  Returns the exception or False."""
        k = self.noisy(fn, k)
        try:
            r = fn(*a, **k)
        except (Violation, Known, Skip):
            raise
        except Exception as e:
            self.counts['refusals'] += 1
            self.obs('refusal_kind', type(e).__name__)
            return e
        if r is False:
            self.counts['refusals'] += 1
            return r
        raise Violation('%s was accepted (returned %s)' % (what, short(r)))

    def raises(self, what, fn, /, *a, **k):
        """As refuses, but only an exception counts."""
        try:
            r = fn(*a, **k)
        except (Violation, Known, Skip):
            raise
        except Exception as e:
            self.counts['refusals'] += 1
            self.obs('refusal_kind', type(e).__name__)
            return e
        raise Violation('%s was accepted (returned %s)' % (what, short(r)))

    # ---- driving --------------------------------------------------------------------------------------
    def rng(self, scenario, idx):
        return random.Random('%s|%s|%s|%s' % (self.seed, self.pid, scenario, idx))

    def drive(self, table, seconds):
        """Run the cases of every scenario {name: (function, how many)}.  Should the time not suffice, everyone gets a share of it."""
        end = time.time() + seconds
        at = {name: 0 for name in table}
        todo = list(table)
        while todo and time.time() < end:
            for k, name in enumerate(todo):
                fn, n = table[name]
                until = time.time() + (end - time.time()) / (len(todo) - k)
                while at[name] < n and time.time() < until:
                    self.one(name, fn, at[name])
                    at[name] += 1
                    if len(self.violations) >= 5:
                        return
            todo = [name for name in todo if at[name] < table[name][1]]
        if todo:
            self.counts['deadline_cut'] += len(todo)

    def one(self, scenario, fn, i):
        rng = self.rng(scenario, i)
        self.noise_rng = self.rng('noise ' + scenario, i)
        self.case = {'scenario': scenario, 'index': i}
        self.cur_keys = set()
        self.evaluations += 1
        self.counts['cases:' + scenario] += 1
        signal.signal(signal.SIGVTALRM, _spin)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            try:
                fn(self, rng)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Spinning as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [(os.path.basename(f.filename), f.name) for f in tb if '/oidcmsg/' in f.filename]
            if where:
                self._viol(scenario, i, 'no result after %d s of processor time in %s' % (CPU_LIMIT, where[-3:]))
                self.violations += [self.violations[-1]] * 4        # do not wait for more of these
            else:
                self.errors.append('%s[%d]: %d s of processor time outside the library' % (scenario, i, CPU_LIMIT))
        except Skip:
            self.counts['skipped:' + scenario] += 1
        except Known as k:
            if k.ident in self.listed:
                self.known.setdefault(k.ident, str(k))
                self.counts['known:' + k.ident] += 1
            else:
                self._viol(scenario, i, 'unlisted deviation %s: %s' % (k.ident, k))
        except Violation as v:
            self._viol(scenario, i, str(v))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any('/oidcmsg/' in f.filename for f in tb):
                self._viol(scenario, i, 'unexpected %s from the library: %s at %s' % (
                    type(e).__name__, short(str(e)), [(os.path.basename(f.filename), f.lineno, f.name)
                                                      for f in tb][-4:]))
            elif isinstance(e, (MemoryError, OSError, ImportError, SyntaxError, NameError)):
                self.errors.append('%s[%d]: %s' % (scenario, i, ''.join(traceback.format_exception(e))[-1500:]))
            else:
                # what the library gave back is of no use to the case that asked for it
                self._viol(scenario, i, 'cannot go on: %s: %s at %s' % (type(e).__name__, short(str(e)),
                                                                       [(os.path.basename(f.filename), f.lineno, f.name) for f in tb][-3:]))
        if self.cur_keys:
            self.seen_cases.add((scenario, frozenset(self.cur_keys)))
        c = self.counts['cases:' + scenario]
        if len([s for s in self.samples if s.get('scenario') == scenario]) < 2 and len(self.case) > 2:
            self.samples.append(dict(self.case))
        return c

    def _viol(self, scenario, i, msg):
        self.violations.append({'scenario': scenario, 'index': i, 'message': msg, 'case': dict(self.case)})

    def require(self, **minimums):
        """Starvation guard: fewer observations than this make the run inconclusive."""
        self.need.update(minimums)

    # ---- verdict --------------------------------------------------------------------------------------
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        starved = {k: (self.counts[k], v) for k, v in self.need.items() if self.counts[k] < v}
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.seen_cases),
            'distinct_observations': len(self.distinct),
            'rule': ' '.join(self.rules) + ' ' + RULE,
            'samples': self.samples[:12],
            'observed': dict(sorted(self.counts.items())),
            'known_findings_seen': {k: self.counts['known:' + k] for k in self.known},
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3),
              'violations': len(self.violations)}
        tmp = os.path.join(EVID, '.%s.%d.tmp' % (self.pid, os.getpid()))
        with open(tmp, 'w') as fp:
            json.dump(ev, fp, indent=1, default=short, skipkeys=True)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for k, what in self.known.items():
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, self.listed[k].get('what', what)))
        if self.violations:
            rp = os.path.join(EVID, 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, '%s-seed%d.json' % (self.pid, self.seed))
            with open(path, 'w') as fp:
                json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed,
                           'violations': self.violations}, fp, indent=1, default=short, skipkeys=True)
            for v in [v for n, v in enumerate(self.violations[:5]) if v not in self.violations[:n]]:
                print('  %s[%d]: %s' % (v['scenario'], v['index'], v['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.errors:
            print('INCONCLUSIVE property=%s harness errors: %d' % (self.pid, len(self.errors)))
            print(self.errors[0])
            return 2
        if starved:
            print('INCONCLUSIVE property=%s starved monitors: %s' % (self.pid, starved))
            return 2
        print('OK property=%s tier=%s seed=%d cases=%d assertions=%d distinct=%d wall=%.1fs' % (
            self.pid, self.tier, self.seed, self.evaluations, self.counts['assertions'], len(self.seen_cases),
            time.time() - self.t0))
        return 0


def load_known(pid):
    out = {}
    try:
        data = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError:
        return out
    for e in data.get('findings', []):
        if e['property'] == pid:
            out[e['id']] = e
    return out
