"""python -m rv.envrun: runs the cases named on standard input in this interpreter, as it was started; outcomes to standard output."""
import gc
import importlib
import json
import logging
import os
import random
import sys
import threading
import traceback

SCEN = {'c24': None, 'c25': ('history', 'lifetime', 'long_keys', 'surrogates'), 'c27': None, 'c28': ('history',), 'c29': ('setget', 'boxes', 'keyjars', 'stored'), 'c30': None}


class Formatting(logging.Handler):
    """Formats what is logged, as any handler does, and keeps nothing."""
    n = 0

    def emit(self, record):
        try:
            self.format(record)
            Formatting.n += 1
        except Exception:       # as logging does
            pass


def table(core):
    out = {}
    for n in range(1, 35):
        key = 'c%02d' % n
        mod = importlib.import_module('rv.checks.' + key)
        names = getattr(mod, 'TOGETHER', ())
        run = core.Run(key.upper(), 'quick', 0)
        if key not in SCEN and not names:
            continue
        tab = mod.scenarios(run)
        for k in names or SCEN[key] or sorted(tab):
            out[key + '.' + k] = (run, tab[k][0])
    return out


def stored(job, real):
    """Operations on a file store; the results, errors by name."""
    from oidcmsg.storage.abfile import AbstractFileSystem
    st, out = AbstractFileSystem(job['store']), []
    for op, *args in job['do']:
        try:
            r = {'set': st.__setitem__, 'get': st.__getitem__, 'items': lambda: dict(st.items()), 'del': st.__delitem__}[op](*args)
            out.append(['ok', r])
        except Exception as e:
            out.append(['error', repr(e)[:300]])
    real.buffer.write(json.dumps(out).encode())
    real.flush()


def main():
    job = json.loads(sys.stdin.buffer.read().decode())
    real, sys.stdout = sys.stdout, sys.stderr
    if job['log']:
        logging.root.addHandler(Formatting())
        logging.root.setLevel(logging.DEBUG)
    else:
        logging.disable(logging.CRITICAL)
    if job['gc'] == 'off':
        gc.disable()
    elif job['gc'] == 'often':
        gc.set_threshold(50, 2, 2)
    os.umask(job['umask'])
    if 'store' in job:
        return stored(job, real)
    from rv import core, gen, sched, store
    tab = table(core)
    if job.get('list'):
        json.dump(sorted(tab), real)
        return
    out = []

    def go():
        for key, seed, zone in job['cases']:
            run, fn = tab[key]
            gen.set_zone(zone)
            s = sched.sub(run, key, seed)
            try:
                fn(s, random.Random(seed))
                out.append(['ok', '', len(s.cur_keys)])
            except (core.Known, core.Skip):
                out.append(['ok', '', 0])
            except (MemoryError, OSError, ImportError, NameError) as e:
                out.append(['harness', repr(e)[:300], 0])
            except Exception as e:
                lib = [(os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__) if '/oidcmsg/' in f.filename]
                out.append(['bad', '%s: %s %s' % (type(e).__name__, core.short(str(e)), lib[-2:]), 0])
    if job['thread']:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    store.drop_all()
    import locale
    real.write(json.dumps({'out': out, 'state': [sys.flags.optimize, locale.getpreferredencoding(False), sys.flags.utf8_mode, Formatting.n, os.getcwd()]}))
    real.flush()


if __name__ == '__main__':
    main()
