"""C26 one directory, several processes: linearizable per key, crash tolerant.

 * paired: process A is stopped at an arbitrary point inside an operation of the store (a line of the storage code, chosen by
   a trace hook) while process B runs an operation; then A goes on.  The results, and what everybody reads afterwards, must
   agree with one of the orders.
 * crash: process A is killed (SIGKILL) at an arbitrary point inside an operation.  What others read is the state before or
   after it, other keys are untouched, no lock stays behind.
 * shared: the same with two threads of one process, most of the time with one store object.
 * threads: threads of one process, switched as often as possible; recorded histories, checked offline for linearizability.
 * stress: many processes, recorded histories with the system wide monotonic clock, checked offline for linearizability.
"""
import json
import multiprocessing
import os
import random
import select
import signal
import sys
import threading
import time

from rv import core, gen, lin, store
from oidcmsg.storage.abfile import AbstractFileSystem

CONF = {'value_conv': 'oidcmsg.storage.converter.JSON'}
WAIT = 40


def teardown(run):
    store.drop_all()


def open_store(d):
    return AbstractFileSystem(dict(CONF, fdir=d))


OPENED = []         # the instance this process opened


def do(st, op, key, arg):
    """Run one operation; the result in terms of the register model."""
    if op == 'set':
        st[key] = arg
        return None
    if op == 'update':
        st.update({key: arg})
        return None
    if op == 'del':
        try:
            del st[key]
        except KeyError:
            pass
        return None
    if op == 'read':
        try:
            return st[key]
        except KeyError:
            return None
    if op == 'get':
        return st.get(key)
    if op == 'has':
        return key in st
    if op == 'items':
        return dict(st.items()).get(key)
    if op == 'keys':
        return key in list(st.keys())
    if op == 'many':
        for i in range(48):
            st['other%d' % i] = 'o'
        st[key] = arg
        return None
    if op == 'clear':
        st.clear()
        return None
    if op == 'open':
        OPENED[:] = [AbstractFileSystem(st.config)]
        return dict(OPENED[0].items()).get(key)
    raise KeyError(op)


MODEL = {'set': 'set', 'update': 'set', 'many': 'set', 'del': 'del', 'read': 'read', 'get': 'read', 'has': 'has', 'items': 'read', 'keys': 'has',
         'clear': 'del', 'open': 'read'}


LIBS = tuple(os.path.dirname(os.__file__) + x for x in ('/shutil.py', '/os.py', '/tempfile.py', '/pathlib.py', '/fileinput.py', '/posixpath.py', '/genericpath.py'))


def tracer(n, act, deep=False):
    """Call act() at the n-th line executed in the storage code (deep: or in the library code for files that it uses)."""
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                act()
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        return local if '/oidcmsg/storage/' in f or deep and f.startswith(LIBS) else None
    return glob


def child(fn):
    """Fork; the child runs fn(write, read) and exits.  Returns (pid, file from the child, fd to the child)."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r1)
            os.close(w2)

            def say(*x):
                os.write(w1, (json.dumps(x) + '\n').encode())

            def wait():
                os.read(r2, 1)
            fn(say, wait)
            code = 0
        except BaseException as e:
            try:
                os.write(w1, (json.dumps(['error', '%s: %s' % (type(e).__name__, e)]) + '\n').encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w1)
    os.close(r2)
    return Child(pid, r1, w2)


class Child:
    def __init__(self, pid, r, w):
        self.pid, self.r, self.w, self.buf = pid, r, w, b''

    def hear(self, timeout):
        """Next message, None on time out, () on end of file."""
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                return None
            x = os.read(self.r, 65536)
            if not x:
                return ()
            self.buf += x
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def go(self):
        os.write(self.w, b'.')

    def end(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.r)
        os.close(self.w)


def disturbed(run, rng, stA, stB, key):
    """B removes the key while A reads it, and may then write it again; returns what is there in the end."""
    stB[key] = 'v2'
    do(stA, rng.choice(('read', 'items')), key, None)
    if rng.random() < .7:
        store.settle()
        stB[key] = 'v3'
    t = threading.Thread(target=do, args=(stB, 'del', key, None), daemon=True)

    def act():
        sys.settrace(None)
        t.start()
        t.join(.03)
    sys.settrace(tracer(rng.randint(1, 50), act))
    try:
        got = do(stA, rng.choice(('read', 'items')), key, None)
    finally:
        sys.settrace(None)
    run.expect(got in (None, 'v2', 'v3'), 'read %r, which was never there', got)
    if t.ident is None:
        t.start()
    t.join(WAIT)
    run.expect(not t.is_alive(), 'removing a key hangs')
    run.obs('disturbed')
    store.settle()
    if rng.random() < .6:
        stB[key] = 'v4'
        return 'v4'


def paired(run, rng):
    d = store.scratch()
    a = b = None
    try:
        key = rng.choice(('k', 'https://op.example.org/', 'a b'))
        before = rng.choice((None, 'v0', 'v0'))
        stA, stB = open_store(d), open_store(d)
        first = rng.choice((stA, stB))
        if before:
            first[key] = before
            if rng.random() < .3:
                store.settle()
                rng.choice((stA, stB))[key] = before = 'v1'
        if rng.random() < .5:
            first['other'] = 'o'
        for st in (stA, stB):
            if rng.random() < .5:
                do(st, rng.choice(('read', 'items')), key, None)
        past = rng.random()
        if past < .2:               # what A knows is outdated
            do(stA, rng.choice(('read', 'items')), key, None)
            do(stB, 'del', key, None)
            before = None
        elif past < .4:
            before = disturbed(run, rng, stA, stB, key)
        store.settle()
        opA = rng.choice(('set', 'set', 'read', 'read', 'get', 'del', 'items', 'keys', 'has', 'update', 'clear', 'open', 'open'))
        opB = rng.choice(('set', 'set', 'set', 'del', 'del', 'read', 'items', 'clear', 'get'))
        if opA not in ('set', 'del', 'update', 'clear') and opB not in ('set', 'del', 'update', 'clear'):
            opB = rng.choice(('set', 'del'))
        if past < .4 and rng.random() < .6:
            opA, opB = rng.choice(('items', 'items', 'keys')), 'set' if past < .2 else rng.choice(('del', 'clear'))
        elif opA in ('set', 'update') and rng.random() < .15 or rng.random() < .02:
            opB = 'many'
        big = rng.random() < .15
        argA, argB = ('A' * 20000 if big else 'A'), ('B' * 9000 if big else 'B')
        deep = rng.random() < .3
        n = rng.randint(1, 150 if deep else 60)
        twice = rng.random() < .3
        opB2 = rng.choice(('set', 'del')) if twice else None

        def bodyA(say, wait):
            def stop():
                sys.settrace(None)
                say('stopped')
                wait()
            OPENED.clear()
            s = time.monotonic_ns()
            sys.settrace(tracer(n, stop, deep))
            try:
                res = do(stA, opA, key, argA)
            finally:
                sys.settrace(None)
            say('done', res, s, time.monotonic_ns())
            wait()
            me = (OPENED or [stA])[0]
            say('after', do(me, 'read', key, None), do(me, 'items', key, None), do(me, 'has', key, None))

        def bodyB(say, wait):
            s = time.monotonic_ns()
            res = do(stB, opB, key, argB)
            say('done', res, s, time.monotonic_ns())
            s = time.monotonic_ns()
            if twice:
                do(stB, opB2, key, 'B2')
            say('done2', None, s, time.monotonic_ns())
            wait()
            say('after', do(stB, 'read', key, None), do(stB, 'items', key, None), do(stB, 'has', key, None))
        run.note(opA=opA, opB=opB, opB2=opB2, line=n, deep=deep, before=before)
        hist = []
        a = child(bodyA)
        x = a.hear(WAIT)
        run.expect(x is not None and x != (), 'process A hangs or died in %s', opA)
        stopped = x[0] == 'stopped'
        if x[0] == 'error':
            raise core.Violation('%s failed: %s' % (opA, x[1]))
        b = child(bodyB)
        if stopped:
            y = b.hear(0.03)
            y2 = b.hear(0.03) if y and y[0] == 'done' else None
            early, early2 = y is not None, y2 is not None
            blocked = not (early and early2)
            a.go()
            x = a.hear(WAIT)
            run.expect(x is not None and x != (), 'process A hangs or died in %s, stopped at line %d while B did %s', opA, n, opB)
            if x[0] == 'error':
                raise core.Violation('%s failed with %s: %s in another process' % (opA, x[1], opB))
            if not early:
                y = b.hear(WAIT)
            if not early2 and y and y[0] == 'done':
                y2 = b.hear(WAIT)
            run.obs('overlap', (opA, opB, opB2, n, blocked))
        else:
            y = b.hear(WAIT)
            y2 = b.hear(WAIT) if y and y[0] == 'done' else None
            run.obs('sequential', (opA, opB))
        for z, o in ((y, opB), (y2, opB2)):
            run.expect(z not in (None, ()) or (z is y2 and y[0] == 'error'), 'process B hangs or died in %s', o)
            if z and z[0] == 'error':
                raise core.Violation('%s failed with %s: %s in another process, stopped at line %d' % (o, z[1], opA, n))
        resA, resB = x[1], y[1]
        # the monotonic clock is the same for all processes
        hist.append((x[2], x[3], MODEL[opA], argA, resA))
        hist.append((y[2], y[3], MODEL[opB], argB, resB))
        if twice:
            hist.append((y2[2], y2[3], MODEL[opB2], 'B2', None))
        base = list(hist)
        t1 = max(e for _, e, _, _, _ in base) + 1
        # quiescence: everybody sees the same thing, and it is the outcome of one of the orders
        a.go()
        b.go()
        xa, ya = a.hear(WAIT), b.hear(WAIT)
        run.expect(xa not in (None, ()) and ya not in (None, ()), 'a process hangs when reading afterwards')
        for z, who in ((xa, opA), (ya, opB)):
            if z[0] == 'error':
                raise core.Violation('reading after %s failed: %s' % (who, z[1]))
        fresh = open_store(d)
        f = [do(fresh, 'read', key, None), do(fresh, 'items', key, None), do(fresh, 'has', key, None)]
        for t, (who, z) in enumerate((('process A', xa[1:]), ('process B', ya[1:]), ('a new instance', f))):
            run.expect(z[0] == z[1] and (z[0] is not None) == z[2], '%s sees %r directly, %r listed, in: %r', who, z[0], z[1], z[2])
            h = base + [(t1 + 2 * t, t1 + 2 * t + 1, 'read', None, z[0])]
            run.expect(lin.check(h, init=before), 'A: %s -> %r (stopped at line %d), B: %s -> %r %s; afterwards %s reads %r: no order explains it (before: %r)',
                       opA, short(resA), n, opB, short(resB), opB2, who, short(z[0]), before)
        run.expect(xa[1] == ya[1] == f[0], 'after A: %s (line %d) and B: %s %s: A reads %r, B reads %r, a new instance %r', opA, n, opB, opB2,
                   short(xa[1]), short(ya[1]), short(f[0]))
        h = base + [(t1, t1 + 1, 'read', None, f[0])]
        run.expect(lin.check(h, init=before), 'history %r is not linearizable', [(o, short(r)) for _, _, o, _, r in h])
    finally:
        for p in (a, b):
            if p:
                p.end()
        store.drop(d)


def short(x):
    return x if not isinstance(x, str) or len(x) < 9 else x[:3] + '..%d' % len(x)


def crash(run, rng):
    d = store.scratch()
    a = None
    try:
        keys = ['k1', 'https://op.example.org/', 'k3']
        before = {k: 'v-' + k for k in keys if rng.random() < .8}
        st, old = open_store(d), open_store(d)
        st.update(before)
        if rng.random() < .5:
            list(old.items())
        store.settle()
        k = rng.choice(keys)
        op = rng.choice(('set', 'set', 'set', 'update', 'del', 'clear', 'big'))
        deep = rng.random() < .4
        n = rng.randint(1, 250 if deep else 80)
        new = {'set': {k: 'new'}, 'big': {k: 'N' * 100000}, 'update': {x: 'new-' + x for x in keys}, 'del': {k: None},
               'clear': {x: None for x in before}}[op]

        def body(say, wait):
            def die():
                os.kill(os.getpid(), signal.SIGKILL)
            sys.settrace(tracer(n, die, deep))
            if op in ('set', 'big'):
                st[k] = new[k]
            elif op == 'update':
                st.update(new)
            elif op == 'del':
                do(st, 'del', k, None)
            else:
                st.clear()
            sys.settrace(None)
            say('done')
        a = child(body)
        x = a.hear(WAIT)
        run.expect(x is not None, '%s hangs', op)
        if x and x[0] == 'error':
            raise core.Violation('%s failed: %s' % (op, x[1]))
        died = x == ()
        run.note(op=op, key=k, line=n, deep=deep, before=before, died=died)
        run.obs('crashed' if died else 'completed', (op, n))
        # the survivor and a newcomer, in another process so that a lock left behind cannot hang the check

        def look(say, wait):
            fresh = open_store(d)
            res = {}
            for who, s in (('a survivor', old), ('a new instance', fresh)):
                res[who] = {'listed': dict(s.items()), 'read': {x: s.get(x) for x in keys}, 'len': len(s)}
            say('seen', res)
            for x in keys:
                fresh[x] = 'again'
            del old[keys[0]]
            say('written', {x: old.get(x) for x in keys}, {x: fresh.get(x) for x in keys})
        b = child(look)
        try:
            y = b.hear(WAIT)
            run.expect(y not in (None, ()), 'reading after the crash hangs')
            run.expect(y[0] == 'seen', 'reading after the crash failed: %s', y)
            for who, r in y[1].items():
                for key in keys:
                    got = r['read'][key]
                    ok = {before.get(key)} if key not in new else ({before.get(key), new[key]} if died else {new[key]})
                    run.expect(got in ok, 'after a crash in %s(%r) at line %d %s reads %r as %r, it was %r', op, k, n, who, key, short(got),
                               before.get(key))
                    run.expect(r['listed'].get(key) == got, '%s lists %r with %r, reads %r', who, key, short(r['listed'].get(key)), short(got))
                run.expect(set(r['listed']) <= set(keys), '%s lists %r', who, sorted(r['listed']))
                run.expect(r['len'] == len(r['listed']), '%s counts %d, lists %d', who, r['len'], len(r['listed']))
            z = b.hear(WAIT)
            run.expect(z not in (None, ()) and z[0] == 'written', 'writing after a crash in %s at line %d: %r', op, n, z)
            want = {x: 'again' for x in keys[1:]}
            want[keys[0]] = None
            run.expect(z[1] == want and z[2] == want, 'after the crash, what was written is read as %r, %r', z[1], z[2])
        finally:
            b.end()
    finally:
        if a:
            a.end()
        store.drop(d)


def worker(d, keys, seed, nops, ident, path, t_end):
    rng = random.Random(seed)
    insts = [open_store(d) for _ in range(rng.choice((1, 2)))]
    out = []
    for i in range(nops):
        st = rng.choice(insts)
        key = rng.choice(keys)
        op = rng.choice(('set', 'set', 'read', 'read', 'get', 'del', 'has', 'items', 'keys', 'open' if rng.random() < .2 else 'read'))
        arg = '%s-%d' % (ident, i) if op == 'set' else None
        if arg and rng.random() < .1:
            arg += 'x' * 10000
        r = rng.random()
        if r < .3:
            time.sleep(r / 300)
        s = time.monotonic_ns()
        try:
            res = do(st, op, key, arg)
        except BaseException as e:
            out.append([s, time.monotonic_ns(), op, key, arg, 'ERROR %s: %s' % (type(e).__name__, e)])
            break
        out.append([s, time.monotonic_ns(), op, key, arg, res])
        if time.time() > t_end:
            break
    # quiescent reads are made by the parent, after everybody is done
    with open(path, 'w') as fp:
        json.dump(out, fp)


def stress(run, rng):
    d, logs = store.scratch(), store.scratch()
    kids = []
    try:
        keys = ['k%d' % i for i in range(rng.choice((1, 2, 4)))]
        nproc = rng.choice((2, 3, 4, 6))
        nops = rng.choice((15, 25, 40)) * (2 if run.thorough else 1)
        old = open_store(d)
        for i in range(nproc):
            pid = os.fork()
            if pid == 0:
                try:
                    worker(d, keys, '%s-%d' % (rng.random(), i), nops, 'p%d' % i, os.path.join(logs, '%d' % i), time.time() + 20)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            rng.random()
            kids.append(pid)
        end = time.time() + 60
        for pid in list(kids):
            while True:
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    kids.remove(pid)
                    break
                if time.time() > end:
                    raise core.Violation('processes hang: %d of %d not done' % (len(kids), nproc))
                time.sleep(.002)
        hist = []
        for i in range(nproc):
            hist += json.load(open(os.path.join(logs, '%d' % i)))
        run.note(processes=nproc, keys=len(keys), operations=len(hist))
        fresh = open_store(d)
        for s, e, op, key, arg, res in hist:
            if isinstance(res, str) and res.startswith('ERROR'):
                raise core.Violation('%s with %d processes: %s' % (op, nproc, res))
        t = time.monotonic_ns()
        for key in keys:
            mine = [(s, e, MODEL[op], arg, res) for s, e, op, k, arg, res in hist if k == key]
            got = [do(old, 'read', key, None), do(fresh, 'read', key, None), do(fresh, 'items', key, None), do(old, 'items', key, None)]
            run.expect(len(set(got)) == 1, 'afterwards %r is read as %r', key, [short(x) for x in got])
            mine.append((t, t + 1, 'read', None, got[0]))
            over = sum(1 for i, a in enumerate(mine) for b in mine[i + 1:] if a[0] < b[1] and b[0] < a[1])
            run.obs('overlapping_pairs', None, over)
            run.obs('stress_ops', (nproc, len(keys), over // 5), len(mine))
            if not lin.check(mine):
                mine.sort()
                raise core.Violation('the history of %r is not linearizable: %r' % (key, lin.culprits(mine, short)))
        run.expect(sorted(x for x, _ in fresh.items()) == sorted(k for k in keys if do(fresh, 'has', k, None)), 'listed: %r', list(fresh.keys()))
    finally:
        for pid in kids:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        store.drop(d)
        store.drop(logs)


def threads(run, rng):
    """Threads of one process, most of the time with one store object, switched as often as possible."""
    d = store.scratch()
    every = sys.getswitchinterval()
    try:
        insts = [open_store(d) for _ in range(rng.choice((1, 1, 2)))]
        keys = ['k%d' % i for i in range(rng.choice((1, 2)))]
        nthr, nops = rng.choice((2, 3, 4)), rng.choice((8, 15, 25))
        hist, errs = [], []

        def work(i, r):
            for j in range(nops):
                st, key = r.choice(insts), r.choice(keys)
                op = r.choice(('set', 'set', 'read', 'read', 'get', 'del', 'has', 'items', 'keys'))
                arg = 't%d-%d' % (i, j) if op == 'set' else None
                if r.random() < .3:
                    time.sleep(r.random() / 3000)
                s = time.monotonic_ns()
                try:
                    res = do(st, op, key, arg)
                except BaseException as e:
                    errs.append((op, '%s: %s' % (type(e).__name__, e)))
                    return
                hist.append((s, time.monotonic_ns(), op, key, arg, res))
        run.note(threads=nthr, objects=len(insts), keys=len(keys), operations=nops)
        ts = [threading.Thread(target=work, args=(i, random.Random(rng.random())), daemon=True) for i in range(nthr)]
        sys.setswitchinterval(1e-6)
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            run.expect(not t.is_alive(), 'a thread hangs')
        sys.setswitchinterval(every)
        run.expect(not errs, 'with %d threads: %r', nthr, errs[:3])
        fresh = open_store(d)
        for key in keys:
            mine = [(s, e, MODEL[op], a, r) for s, e, op, k, a, r in hist if k == key]
            over = sum(1 for i, a in enumerate(mine) for b in mine[i + 1:] if a[0] < b[1] and b[0] < a[1])
            run.obs('overlapping_pairs', None, over)
            t = time.monotonic_ns()
            for st in insts + [fresh]:
                for op in ('read', 'items', 'has', 'keys'):
                    mine.append((t, t + 1, MODEL[op], None, do(st, op, key, None)))
                    t += 2
            run.obs('thread_ops', (nthr, len(insts), len(keys), over // 5), len(mine))
            if not lin.check(mine):
                raise core.Violation('the history of %r with %d threads is not linearizable: %r' % (key, nthr, lin.culprits(mine, short)))
    finally:
        sys.setswitchinterval(every)
        store.drop(d)


def shared(run, rng):
    """Threads of one process that share a store object: A is stopped somewhere in an operation while B does one, then A goes on."""
    d = store.scratch()
    go = threading.Event()
    ts = []
    try:
        key = rng.choice(('k', 'https://op.example.org/', 'a b'))
        stA = open_store(d)
        stB = stA if rng.random() < .75 else open_store(d)
        far = open_store(d)
        before = rng.choice((None, 'v0', 'v0'))
        if before:
            rng.choice((far, far, stA))[key] = before
            if rng.random() < .3:
                store.settle()
                do(stA, 'read', key, None)
                far[key] = before = 'v1'
        other = 'o' if rng.random() < .5 else None
        if other:
            far['other'] = other
        if rng.random() < .4:
            do(stA, rng.choice(('read', 'items')), key, None)
        store.settle()
        ops = ('set', 'read', 'read', 'get', 'del', 'items', 'keys', 'has', 'update', 'clear')
        opA, opB = rng.choice(ops), rng.choice(ops)
        keyB = key if rng.random() < .6 else 'other'
        n = rng.randint(1, rng.choice((10, 20, 40, 60)))
        res, stopped = {}, threading.Event()

        def body(name, st, op, key, arg):
            def stop():
                sys.settrace(None)
                stopped.set()
                go.wait(WAIT)
            try:
                if name == 'A':
                    sys.settrace(tracer(n, stop))
                try:
                    res[name] = ('done', do(st, op, key, arg))
                finally:
                    sys.settrace(None)
            except BaseException as e:
                res[name] = ('error', '%s: %s' % (type(e).__name__, e))
            finally:
                if name == 'A':
                    stopped.set()
        run.note(opA=opA, opB=opB, line=n, before=before, same_object=stA is stB, same_key=key == keyB)
        ts = [threading.Thread(target=body, args=x, daemon=True) for x in (('A', stA, opA, key, 'A'), ('B', stB, opB, keyB, 'B'))]
        ts[0].start()
        run.expect(stopped.wait(WAIT), 'thread A hangs in %s', opA)
        overlap = 'A' not in res
        ts[1].start()
        ts[1].join(.02 if overlap else WAIT)
        early = not ts[1].is_alive()
        go.set()
        for t, o in zip(ts, (opA, opB)):
            t.join(WAIT)
            run.expect(not t.is_alive(), 'a thread hangs in %s', o)
        for name, o in (('A', opA), ('B', opB)):
            if res[name][0] == 'error':
                raise core.Violation('%s failed with %s (thread A stopped at line %d of %s, B: %s)' % (o, res[name][1], n, opA, opB))
        a = (0, 10 if overlap else 1, MODEL[opA], 'A', res['A'][1])
        b = (3, 4 if early else 14, MODEL[opB], 'B', res['B'][1])
        # clearing is an operation on every key
        hists = [(key, before, [a] + [b] * (key == keyB or opB == 'clear')), ('other', other, [a] * (opA == 'clear') + [b] * (keyB == 'other' or opB == 'clear'))]
        for st in (stA, stB, far, open_store(d)):
            for op in ('read', 'items', 'has', 'keys'):
                for k, was, h in hists:
                    got = do(st, op, k, None)
                    run.expect(lin.check(h + [(20, 21, MODEL[op], None, got)], init=was), '%s -> %r stopped at line %d, %s (%s) -> %r, afterwards %s of %s gives %r (before: %r)',
                               opA, res['A'][1], n, opB, keyB, res['B'][1], op, k, got, was)
        run.obs('shared' if overlap else 'shared_sequential', (opA, opB, n, stA is stB, key == keyB))
    finally:
        go.set()
        for t in ts:
            if t.ident:
                t.join(WAIT)
        store.drop(d)


def scenarios(run):
    run.rules.append('paired: (operation A, stop line, operation(s) B); crash: (operation, line); stress: multi-process histories checked for '
                     'linearizability per key; distinct = those tuples')
    run.assumptions.append('local file system with working advisory locks; a store object is used by one process')
    run.require(overlap=300, crashed=100, completed=5, stress_ops=1000, overlapping_pairs=100, shared=90, thread_ops=1000, disturbed=100)
    return {'threads': (threads, 60, 900), 'shared': (shared, 400, 8000), 'paired': (paired, 900, 9000), 'crash': (crash, 400, 6000), 'stress': (stress, 40, 400)}
