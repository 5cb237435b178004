"""C28 the SQL store is a durable map, whatever the keys and values, over several connections, failed writes and crashes."""
import datetime
import json
import os
import signal
import sqlite3

from rv import core, gen, lin, store
from rv.checks.c26 import child, tracer, WAIT


def teardown(run):
    store.drop_all()


def url(d):
    return 'sqlite:///' + os.path.join(d, 'x.db')


def create(d):
    from oidcmsg.storage import db_setup
    db_setup.create_database({'url': url(d)})


def guard(d):
    """The database itself refuses some changes: deleting one key, storing one text."""
    c = sqlite3.connect(os.path.join(d, 'x.db'))
    c.executescript("""
        create trigger g1 before delete on thing when old.owner = 'fixed' begin select raise(abort, 'fixed'); end;
        create trigger g2 before insert on thing when new.data = 'refused' begin select raise(abort, 'refused'); end;
        create trigger g3 before update on thing when new.data = 'refused' begin select raise(abort, 'refused'); end;""")
    c.commit()
    c.close()


STAMP = datetime.datetime(2021, 3, 4, 5, 6, 7, 89)


def foreign(d):
    """Another program stores something, with the time."""
    from oidcmsg.storage.db_setup import Thing
    import sqlalchemy
    from sqlalchemy.orm import Session
    e = sqlalchemy.create_engine(url(d))
    with Session(e) as ses:
        ses.add(Thing(owner='foreign', data='thing', created=STAMP))
        ses.commit()
    e.dispose()


def open_store(d, how=''):
    from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
    return AbstractStorageSQLAlchemy({'url': url(d) + how, 'params': {'table': 'thing'}})


def shut(s):
    try:
        s.session.remove()
        s.connection.close()
        s.engine.dispose()
    except Exception:
        pass


def key(rng):
    return rng.choice((lambda: gen.word(rng), lambda: gen.text(rng)[:70], lambda: rng.choice(
        ("a'b", 'a"b', "'; DROP TABLE thing; --", '%', '_', 'a%', 'A', 'a', '', ' a', 'a ', 'a\\', '\u00e5', 'null', 'None', '1', '01', '1.0', '*', '?',
         ':x', '%(x)s', 'owner', "' OR '1'='1"))))()


def keys(rng, n):
    out = []
    while len(out) < n:
        k = key(rng)
        if out and rng.random() < .3:
            k = rng.choice((out[-1].upper(), out[-1].lower(), out[-1] + ' ', out[-1] + '%', out[-1][:1] + '%', '_' * len(out[-1])))
        if '\x00' not in k and k not in out:
            out.append(k)
    return out


def value(rng):
    while True:
        v = rng.choice((lambda: gen.text(rng), lambda: json.dumps(gen.json_value(rng, 2)), lambda: '', lambda: rng.choice(("'", "''", '%s', ' a ', 'null')),
                        lambda: gen.word(rng) * rng.choice((1, 60, 500, 5000))))()
        if '\x00' not in v:
            return v


def rows(s):
    return sorted((r[1], r[2]) for r in s)


def compare(run, s, model, ks, what):
    want = sorted(model.items())
    got = run.must('iterating ' + what, rows, s)
    run.expect(got == want, '%s: rows %r, expected %r', what, got, want)
    got = sorted((r[1], r[2]) for r in run.must('calling ' + what, s))
    run.expect(got == want, '%s: call gives %r, expected %r', what, got, want)
    shown = json.loads(run.must('str ' + what, str, s))
    for r in shown:
        run.expect(r[3] is None or datetime.datetime.fromisoformat(r[3]) == STAMP, '%s: printed %r', what, r)
    got = sorted((r[1], r[2]) for r in shown)
    run.expect(got == want, '%s: printed %r, expected %r', what, got, want)
    for k in ks:
        one(run, s, model, k, what)


def one(run, s, model, k, what):
    run.expect(s.get(k) == model.get(k), '%s: %r is %r, expected %r', what, k, s.get(k), model.get(k))
    run.expect((k in s) is (k in model), '%s: %r in store is %r', what, k, k in s)
    run.obs('present' if k in model else 'absent')


def history(run, rng):
    d = store.scratch()
    insts = []
    try:
        create(d)
        guarded = rng.random() < .4
        if guarded:
            guard(d)
        insts = [open_store(d) for _ in range(rng.choice((1, 2, 2)))]
        ks = keys(rng, rng.randint(2, 5))
        model, log = {}, []
        if rng.random() < .3:
            foreign(d)
            model['foreign'] = 'thing'
        if guarded:
            insts[0].set('fixed', 'x')
            model['fixed'] = 'x'
        if rng.random() < .08:      # a store that has been used for a while
            for j in range(rng.choice((130, 260))):
                insts[0].set('user%d' % j, 'd%d' % j)
                model['user%d' % j] = 'd%d' % j
            run.obs('large')
        for _ in range(rng.choice((8, 16, 30))):
            i = rng.randrange(len(insts))
            s = insts[i]
            k, v = rng.choice(ks), value(rng)
            op = rng.choice(('set', 'set', 'item', 'update', 'update', 'delete', 'delete', 'read', 'reopen', 'fail', 'failup', 'flush', 'full') + ('refused',) * guarded)
            log.append((op, i, k))
            if op == 'set':
                run.must('set', s.set, k, v)
                model[k] = v
            elif op == 'item':
                run.must('assigning', s.__setitem__, k, v)
                model[k] = v
            elif op == 'update':
                run.must('update', s.update, k, v)
                if k in model:
                    model[k] = v
            elif op == 'delete':
                n = run.must('delete', s.delete, k)
                run.expect(n == (1 if k in model else 0), 'deleting %r reports %r, present: %r', k, n, k in model)
                model.pop(k, None)
            elif op == 'reopen':
                shut(s)
                insts[i] = s = open_store(d)
            elif op in ('fail', 'failup'):
                bad = rng.choice((None, {'a': 1}, ['x'], {1}, object()))
                if op == 'fail':
                    run.raises('storing %r' % (bad,), s.set, k, bad)
                elif k in model:
                    run.raises('updating with %r' % (bad,), s.update, k, bad)
                run.obs('failed_write')
            elif op == 'refused':
                what = rng.choice(('delete', 'set', 'replace', 'update'))
                if what == 'delete':
                    run.raises('a deletion the database refuses', s.delete, 'fixed')
                elif what == 'replace':
                    run.raises('a replacement the database refuses', s.set, 'fixed', v)
                elif what == 'set' or k in model:
                    run.raises('a value the database refuses', getattr(s, what), k, 'refused')
                run.obs('refused', what)
            elif op == 'flush':
                run.must('flush', s.flush)
            elif op == 'full':
                compare(run, s, model, ks, 'after %r' % log[-5:])
            for t in insts:
                one(run, t, model, k, 'after %r' % log[-5:])
        run.note(log=log, model=model)
        for s in insts:
            compare(run, s, model, ks, 'at the end')
        for s in insts:
            shut(s)
        s = open_store(d)
        insts = [s]
        compare(run, s, model, ks, 'after reopening')
        run.obs('history', tuple(o for o, _, _ in log))
    finally:
        for s in insts:
            shut(s)
        store.drop(d)


def locked(run, rng):
    """Another program locks the database for a while: what fails changes nothing, and afterwards everything works."""
    d = store.scratch()
    insts, other = [], None
    try:
        create(d)
        insts = [open_store(d, '?timeout=0.01') for _ in range(rng.choice((1, 2)))]
        other = sqlite3.connect(os.path.join(d, 'x.db'), isolation_level=None, timeout=0.01)
        ks = keys(rng, 3)
        model, log = {}, []
        for k in ks:
            if rng.random() < .7:
                model[k] = v = value(rng)
                insts[0].set(k, v)
        for _ in range(rng.randint(2, 6)):
            how = rng.choice(('immediate', 'exclusive', 'reader'))
            if how == 'reader':
                other.execute('begin')
                other.execute('select * from thing').fetchall()
            else:
                other.execute('begin ' + how)
            for _ in range(rng.randint(1, 3)):
                s = rng.choice(insts)
                k, v = rng.choice(ks), value(rng)
                op = rng.choice(('set', 'item', 'update', 'delete', 'get', 'has', 'rows', 'flush'))
                log.append((how, op, k))
                try:
                    {'set': lambda: s.set(k, v), 'item': lambda: s.__setitem__(k, v), 'update': lambda: s.update(k, v), 'delete': lambda: s.delete(k),
                     'get': lambda: run.expect(s.get(k) == model.get(k), '%r is %r while the database is locked', k, s.get(k)),
                     'has': lambda: run.expect((k in s) is (k in model), '%r in store while the database is locked', k),
                     'rows': lambda: run.expect(rows(s) == sorted(model.items()), 'rows %r while the database is locked', rows(s)),
                     'flush': s.flush}[op]()
                except core.Violation:
                    raise
                except Exception as e:
                    run.expect('locked' in str(e), '%s of %r failed with %r', op, k, e)
                    run.obs('locked_out', (how, op))
                else:
                    run.expect(op not in ('set', 'item', 'update', 'delete') or op == 'update' and k not in model or how == 'reader' or op == 'delete' and k not in model,
                               '%s of %r reports success while another program has locked the database', op, k)
                    if op in ('set', 'item') or op == 'update' and k in model:
                        model[k] = v
                    elif op == 'delete':
                        model.pop(k, None)
                    run.obs('not_locked_out', (how, op))
            other.execute('rollback')
            for s in insts:
                compare(run, s, model, ks, 'when the lock is gone, after %r' % log[-4:])
            other.execute('begin exclusive')        # nobody else holds a lock any more
            other.execute('rollback')
            k, v = rng.choice(ks), value(rng)
            s = rng.choice(insts)
            run.must('storing when the lock is gone', s.set, k, v)
            model[k] = v
            for s in insts:
                one(run, s, model, k, 'when the lock is gone')
        run.note(log=log)
    finally:
        if other:
            other.close()
        for s in insts:
            shut(s)
        store.drop(d)


def crash(run, rng):
    d = store.scratch()
    a = None
    s = None
    try:
        create(d)
        ks = ['k1', 'k2', "k'3"]
        before = {k: 'v-' + k for k in ks if rng.random() < .8}
        s = open_store(d)
        for k, v in before.items():
            s.set(k, v)
        shut(s)
        s = None
        k = rng.choice(ks)
        op = rng.choice(('set', 'set', 'update', 'delete'))
        n = rng.randint(1, 14)

        def body(say, wait):
            st = open_store(d)
            import sys

            def die():
                os.kill(os.getpid(), signal.SIGKILL)
            sys.settrace(tracer(n, die))
            if op == 'delete':
                st.delete(k)
            else:
                getattr(st, op)(k, 'new')
            sys.settrace(None)
            say('done')
        a = child(body)
        x = a.hear(WAIT)
        run.expect(x is not None, '%s hangs', op)
        if x and x[0] == 'error':
            raise core.Violation('%s failed: %s' % (op, x[1]))
        died = x == ()
        after = dict(before)
        if op == 'set' or (op == 'update' and k in before):
            after[k] = 'new'
        elif op == 'delete':
            after.pop(k, None)
        s = open_store(d)
        run.note(op=op, key=k, line=n, died=died, before=before)
        got = dict(rows(s))
        run.expect(len(rows(s)) == len(got), 'two rows for one key: %r', rows(s))
        ok = [after] if not died else [before, after]
        run.expect(got in ok, 'after a crash in %s(%r) at line %d the store holds %r; before it %r', op, k, n, got, before)
        s.set(k, 'again')
        run.expect(s.get(k) == 'again', 'writing after the crash')
        run.obs('crashed' if died else 'completed', (op, n))
    finally:
        if a:
            a.end()
        if s:
            shut(s)
        store.drop(d)


SQL_MODEL = {'set': 'set', 'item': 'set', 'delete': 'del', 'get': 'read', 'has': 'has', 'rows': 'read'}


def sql_do(st, op, k, v):
    if op == 'set':
        st.set(k, v)
    elif op == 'item':
        st[k] = v
    elif op == 'delete':
        st.delete(k)
    elif op == 'get':
        return st.get(k)
    elif op == 'has':
        return k in st
    else:
        got = [b for a, b in rows(st) if a == k]
        assert len(got) < 2, 'two rows for one key: %r' % got
        return got[0] if got else None


def paired(run, rng):
    for attempt in (1, 2, 3):
        try:
            return pair(run, rng)
        except core.Violation as e:
            # waiting for the lock takes 5 seconds at most: on a machine that stands still that is nobody's fault, once
            if 'database is locked' not in str(e) or attempt == 3:
                raise


def pair(run, rng):
    """Process A is stopped somewhere in an operation, process B works on the same database, A goes on."""
    d = store.scratch()
    a = b = s = None
    try:
        create(d)
        before = rng.choice((None, 'v0', 'v0'))
        s = open_store(d)
        s.set('other', 'o')
        if before:
            s.set('k', before)
        shut(s)
        s = None
        opA = rng.choice(('set', 'set', 'item', 'delete', 'get', 'rows'))
        opB = rng.choice(('set', 'set', 'delete', 'get', 'rows'))
        n = rng.randint(1, 8)

        def bodyA(say, wait):
            import sys
            st = open_store(d)

            def stop():
                sys.settrace(None)
                say('stopped')
                wait()
            sys.settrace(tracer(n, stop))
            try:
                res = sql_do(st, opA, 'k', 'A')
            finally:
                sys.settrace(None)
            say('done', res)
            wait()
            say('after', sql_do(st, 'get', 'k', None), sql_do(st, 'rows', 'k', None))

        def bodyB(say, wait):
            st = open_store(d)
            say('done', sql_do(st, opB, 'k', 'B'))
            wait()
            say('after', sql_do(st, 'get', 'k', None), sql_do(st, 'rows', 'k', None))
        run.note(opA=opA, opB=opB, line=n, before=before)
        a = child(bodyA)
        x = a.hear(WAIT)
        stopped = bool(x) and x[0] == 'stopped'
        b = child(bodyB)
        y, early = None, True
        if stopped:
            y = b.hear(.05)
            early = y is not None
            a.go()
            x = a.hear(WAIT)
            run.obs('overlap', (opA, opB, n, early))
        y = y or b.hear(WAIT)
        for z, o in ((x, opA), (y, opB)):
            run.expect(z not in (None, ()), '%s: a process hangs or died', o)
            if z[0] == 'error':
                raise core.Violation('%s failed with %s (%s stopped at line %d, %s)' % (o, z[1], opA, n, opB))
        h = [(0, 10, SQL_MODEL[opA], 'A', x[1]), (1, 2 if early else 12, SQL_MODEL[opB], 'B', y[1])]
        if not stopped:
            h = [(0, 1) + h[0][2:], (2, 3) + h[1][2:]]
        a.go()
        b.go()
        za, zb = a.hear(WAIT), b.hear(WAIT)
        for z in (za, zb):
            run.expect(z not in (None, ()) and z[0] == 'after', 'reading afterwards: %r', z)
            for v in z[1:]:
                run.expect(lin.check(h + [(20, 21, 'read', None, v)], init=before), '%s -> %r stopped at line %d, %s -> %r, afterwards %r is read (before: %r)',
                           opA, x[1], n, opB, y[1], v, before)
        run.expect(za == zb, 'afterwards the processes read %r and %r', za, zb)
        s = open_store(d)
        run.expect([r for r in rows(s) if r[0] == 'other'] == [('other', 'o')] and len(rows(s)) < 3, 'rows: %r', rows(s))
    finally:
        for p in (a, b):
            if p:
                p.end()
        if s:
            shut(s)
        store.drop(d)


def threads(run, rng):
    """Threads of one process, some sharing a store object; the recorded history of each key is linearizable."""
    import random
    import threading
    import time
    d = store.scratch()
    insts = []
    try:
        create(d)
        insts = [open_store(d) for _ in range(rng.choice((1, 2)))]
        nthr = rng.choice((2, 3))
        hist = []

        def work(i, seed):
            r = random.Random(seed)
            st = insts[i % len(insts)]
            try:
                for j in range(8):
                    op, k = r.choice(('set', 'set', 'delete', 'get', 'rows', 'has')), r.choice(('k', 'l'))
                    v = 't%d-%d' % (i, j)
                    t = time.monotonic_ns()
                    try:
                        res = sql_do(st, op, k, v)
                    except Exception as e:
                        hist.append((t, time.monotonic_ns(), op, k, v, 'ERROR %s: %s' % (type(e).__name__, e)))
                        return
                    hist.append((t, time.monotonic_ns(), op, k, v, res))
            finally:
                st.session.remove()
        ts = [threading.Thread(target=work, args=(i, rng.random())) for i in range(nthr)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(WAIT)
        run.expect(not any(t.is_alive() for t in ts), 'threads hang')
        run.note(history=sorted(hist))
        locked = [x for x in hist if isinstance(x[5], str) and 'database is locked' in x[5]]
        run.expect(len(locked) < nthr, 'each of %d threads waits for the database in vain: %r', nthr, locked)
        hist = [x for x in hist if x not in locked]
        for s_, e, op, k, v, res in hist:
            run.expect(not (isinstance(res, str) and res.startswith('ERROR')), '%s in one of %d threads: %s', op, nthr, res)
        t = time.monotonic_ns()
        final = dict(rows(insts[0]))
        run.expect(len(final) == len(rows(insts[0])), 'two rows for one key: %r', rows(insts[0]))
        for k in ('k', 'l'):
            h = [(a, b, SQL_MODEL[op], v, res) for a, b, op, kk, v, res in hist if kk == k]
            run.expect(lin.check(h + [(t, t + 1, 'read', None, final.get(k))]), 'the history of %r is not linearizable: %r, at the end %r', k,
                       [(a - t, b - t, o, v, r) for a, b, o, v, r in sorted(h)], final.get(k))
            run.obs('thread_ops', (nthr, len(insts)), len(h))
    finally:
        for s in insts:
            shut(s)
        store.drop(d)


def scenarios(run):
    run.rules.append('histories over one or two connections with hostile keys and values and failing writes against a dict; SIGKILL at '
                     'lines of the store code during writes; pairs of processes, one stopped at a line; threads with recorded histories; '
                     'distinct = operation sequences, (operation, line), (operation, operation, line)')
    run.assumptions.append('SQLite as the database; texts without NUL')
    run.require(large=3, history=50, present=800, absent=300, failed_write=50, refused=40, crashed=40, overlap=40, thread_ops=200, locked_out=150)
    return {'history': (history, 150, 4000), 'crash': (crash, 120, 2500), 'paired': (paired, 80, 2500), 'threads': (threads, 25, 400), 'locked': (locked, 60, 1500)}
