"""Helpers for the storage checks: scratch directories, key and value generators, capability probes."""
import json
import os
import shutil
import tempfile
import time
from urllib.parse import quote_plus

from . import gen

SCRATCH = []


def scratch():
    d = tempfile.mkdtemp(prefix='rv-store-')
    SCRATCH.append(d)
    return d


def drop(d):
    assert os.path.isabs(d) and os.path.basename(d).startswith('rv-store-')
    shutil.rmtree(d, ignore_errors=True)
    if d in SCRATCH:
        SCRATCH.remove(d)


def drop_all():
    for d in list(SCRATCH):
        drop(d)


def fine_mtime():
    """Does the file system tell two changes in quick succession apart?"""
    d = scratch()
    try:
        f = os.path.join(d, 'x')
        same = 0
        for i in range(40):
            with open(f, 'w') as fp:
                fp.write('a')
            a = os.stat(f).st_mtime_ns
            with open(f, 'w') as fp:
                fp.write('b')
            same += os.stat(f).st_mtime_ns == a
        return same == 0
    finally:
        drop(d)


FINE = fine_mtime()


def settle():
    """On file systems with coarse time stamps two changes within one tick cannot be told apart."""
    if not FINE:
        time.sleep(0.02)


def key(rng):
    while True:
        k = rng.choice((lambda: gen.word(rng), lambda: gen.text(rng), lambda: gen.text(rng),
                        lambda: rng.choice(('https://op.example.org/', 'https://op.example.org', 'a/b', '../x', '..', './a', '/etc/passwd', 'a b', 'a+b',
                                            'a%20b', 'a%2Fb', 'A', 'a', 'x.lock.y', 'lock', '__default__k', '.hidden', '~', 'k', 'K', '%2e%2e',
                                            'key.tmp', 'key~', '#k#', 'client_id=1&x=2', 'C:\\x', 'con', '-rf', '*', '?', 'new\nline', 'k.lock.old', 'a.lock%', 'a.locked', '.lock.', 'LOCK', 'k.LOCK', 'lock.'))))()
        if k in ('', '.', '..') or k.endswith('.lock') or len(quote_plus(k)) > 200:
            continue
        return k


def keys(rng, n):
    """A small set of keys, some easily confused with each other."""
    out = []
    while len(out) < n:
        k = key(rng)
        if out and rng.random() < .4:
            o = out[-1]
            k = rng.choice((quote_plus(o), o.upper(), o + '_', o.replace(' ', '+'), o + '/', '.' + o, o + '.tmp', o + '~', o + '.new', o + '.bak', '.' + o + '.tmp',
                            o + '.old', 'tmp' + o, '.' + o + '.swp', '#' + o + '#', o + '.1', o + '-tmp', 'tmp', '.tmp', 'new'))
            if k in ('', '.', '..') or k.endswith('.lock') or len(quote_plus(k)) > 200:
                continue
        if k not in out:
            out.append(k)
    return out


def value(rng):
    return gen.json_value(rng, 3)


class Flaky:
    """JSON, except while it fails."""
    failing = None

    def serialize(self, v):
        return json.dumps(v)

    def deserialize(self, txt):
        if Flaky.failing:
            raise Flaky.failing('reading does not work at the moment')
        return json.loads(txt)


class HexKey:
    """A key conversion of our own, named in configurations."""
    def serialize(self, k):
        return k.encode('utf-8', 'surrogatepass').hex()

    def deserialize(self, s):
        return bytes.fromhex(s).decode('utf-8', 'surrogatepass')
