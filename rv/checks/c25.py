"""C25 the file store is a durable map: any history over several instances of one directory agrees with a dict."""
import copy
import json
import os
import resource
import shutil
import time
from urllib.parse import quote_plus

from rv import core, gen, jose, store
from oidcmsg.storage.abfile import AbstractFileSystem

JSONC = 'oidcmsg.storage.converter.JSON'
MISSING = object()


def setup(run):
    run.counts['fine_mtime'] = int(store.FINE)


def teardown(run):
    store.drop_all()


class Hist:
    def __init__(self, run, rng, conv):
        self.run, self.rng, self.conv = run, rng, conv
        self.dir = store.scratch()
        self.fdir = os.path.join(self.dir, rng.choice(('db', 'a/b/c', 'with space', '\u00e5')))
        self.model = {}
        self.log = []
        self.kconv = rng.choice((None, None, None, 'rv.store.HexKey'))
        self.inst = [self.open()]

    def name(self, k):
        return k.encode('utf-8', 'surrogatepass').hex() if self.kconv else quote_plus(k)

    def open(self):
        conf = {'fdir': self.fdir}
        if self.conv:
            conf['value_conv'] = self.conv
        if self.kconv:
            conf['key_conv'] = self.kconv
        elif self.rng.random() < .3:
            conf['key_conv'] = 'oidcmsg.storage.converter.QPKey'
        return self.run.must('opening the store', AbstractFileSystem, conf)

    def value(self):
        if self.conv:
            return store.value(self.rng)
        while True:
            v = self.rng.choice((gen.text(self.rng), '', 'line1\nline2', 'cr\r\nlf', 'a\rb', 'tab\tx', '\ufeff' + gen.word(self.rng), '\u200bz', '\ufffe', gen.word(self.rng) + '\x00', '\x00' + gen.word(self.rng), '\x00', gen.word(self.rng) + '\x1a', gen.word(self.rng) + '\x7f\x08'))
            if v == v.strip():
                return v

    def check_all(self, st, what):
        run = self.run
        ks = list(run.must('keys() ' + what, lambda: list(st.keys())))
        run.expect(sorted(ks) == sorted(self.model), 'keys %s: %r, expected %r after %r', what, sorted(ks), sorted(self.model), self.log[-6:])
        it = run.must('items() ' + what, lambda: list(st.items()))
        run.expect(len(it) == len(self.model) and dict(it) == self.model, 'items %s: %r, expected %r after %r', what, it, self.model, self.log[-6:])
        run.expect(len(st) == len(self.model), 'len %s: %r, expected %d', what, len(st), len(self.model))
        for k, v in self.model.items():
            self.read(st, k, what)
        run.obs('full_comparison', what)

    def read(self, st, k, what=''):
        run = self.run
        want = self.model.get(k, MISSING)
        run.expect((k in st) is (want is not MISSING), '%r in store %s is %r after %r', k, what, k in st, self.log[-6:])
        if want is MISSING:
            e = run.raises('reading missing %r' % k, st.__getitem__, k)
            run.expect(isinstance(e, KeyError), 'reading missing %r raised %r', k, e)
            run.expect(st.get(k) is None, 'get of missing %r', k)
            run.expect(st.get(k, 'dflt') == 'dflt', 'get of missing %r with default', k)
            run.obs('absent')
        else:
            got = run.must('reading %r' % k, st.__getitem__, k)
            run.expect(same(got, want), '%r reads %s as %r, expected %r after %r', k, what, got, want, self.log[-6:])
            got = run.must('get %r' % k, st.get, k, 'dflt')
            run.expect(same(got, want), 'get(%r) %s is %r, expected %r', k, what, got, want)
            run.obs('present', type(want).__name__)


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def history(run, rng):
    h = Hist(run, rng, rng.choice((JSONC, JSONC, None)))
    try:
        ks = [k for k in store.keys(rng, rng.randint(1, 5)) if not h.kconv or len(h.name(k)) < 200] or ['k']
        shape = []
        for _ in range(rng.choice((5, 10, 20))):
            i = rng.randrange(len(h.inst))
            st = h.inst[i]
            k = rng.choice(ks)
            op = rng.choice(('set', 'set', 'set', 'read', 'read', 'del', 'del', 'update', 'reopen', 'list', 'fail', 'clear', 'iter', 'hand', 'full', 'rmdir', 'restore', 'call', 'walk', 'away'))
            shape.append(op)
            h.log.append((op, i, k))
            if op in ('set', 'update', 'del', 'clear', 'hand', 'restore', 'away'):
                store.settle()
            if op == 'set':
                v = h.value()
                run.must('storing', st.__setitem__, k, copy.deepcopy(v))
                h.model[k] = v
                h.read(st, k)
            elif op == 'update':
                ava = {x: h.value() for x in rng.sample(ks, rng.randint(1, len(ks)))}
                if h.conv and rng.random() < .25:
                    part_update(run, rng, h, st, ava)
                    continue
                run.must('update', st.update, copy.deepcopy(ava))
                h.model.update(ava)
            elif op == 'read':
                h.read(st, k)
            elif op == 'del':
                if k in h.model:
                    run.must('deleting', st.__delitem__, k)
                    del h.model[k]
                else:
                    try:
                        del st[k]
                    except KeyError:
                        pass
                h.read(st, k)
            elif op == 'clear' and rng.random() < (.4 if len(h.inst) == 1 else .9):
                run.must('clear', st.clear)
                h.model.clear()
            elif op == 'reopen':
                if len(h.inst) < 4 and rng.random() < .6:
                    h.inst.append(h.open())
                else:
                    h.inst[i] = h.open()
            elif op == 'list':
                run.expect(sorted(st.keys()) == sorted(h.model), 'keys: %r, expected %r after %r', sorted(st.keys()), sorted(h.model), h.log[-6:])
                run.expect(len(st) == len(h.model), 'len: %r, expected %d', len(st), len(h.model))
            elif op == 'call':
                got = run.must('listing by call', st)
                run.expect(sorted(got) == sorted(h.model), 'call gives %r, expected %r after %r', sorted(got), sorted(h.model), h.log[-6:])
            elif op == 'walk':
                walk(run, rng, h, st)
            elif op == 'iter':
                run.expect(sorted(x for x, _ in st) == sorted(h.model), 'iteration gives %r', [x for x, _ in st])
            elif op == 'fail':
                fail(run, rng, h, st, k)
                h.read(st, k, 'after a failed write')
            elif op == 'hand' and h.conv and k in h.model:
                # an administrator, or a program without this library, changes the file
                hand(run, rng, h, k)
                h.read(st, k, 'after the file was changed by hand')
            elif op == 'restore' and k in h.model:
                # deleted by mistake, and the backup brought back as it was
                f, keep = os.path.join(h.fdir, h.name(k)), os.path.join(h.dir, 'backup')
                shutil.copy2(f, keep)
                os.utime(keep, ns=(os.stat(f).st_atime_ns, os.stat(f).st_mtime_ns))
                run.must('deleting', rng.choice(h.inst).__delitem__, k)
                if rng.random() < .3:
                    run.expect(k not in st, '%r in store although deleted', k)
                os.replace(keep, f)
                h.read(st, k, 'after a backup was restored')
                run.obs('by_hand', 'restore')
            elif op == 'away' and k in h.model:
                away(run, rng, h, k)
            elif op == 'rmdir' and rng.random() < .3:
                # an administrator removes everything
                if os.path.isdir(h.fdir):
                    shutil.rmtree(h.fdir)
                h.model.clear()
                if rng.random() < .4:
                    run.expect(len(st) == 0, 'len after the directory was removed: %r', len(st))
                    run.expect(not any(x in st for x in ks), 'keys in a removed directory')
                    run.expect(list(st.items()) == [], 'items in a removed directory')
                elif rng.random() < .4:
                    h.check_all(st, 'after the directory was removed')
                else:
                    h.read(st, k, 'after the directory was removed')
                run.obs('by_hand', 'rmdir')
            elif op == 'full':
                h.check_all(st, 'in an instance')
        for j, st in enumerate(h.inst):
            h.check_all(st, 'in an instance at the end')
        h.check_all(h.open(), 'after reopening')
        run.note(log=h.log, model=h.model)
        run.obs('history', tuple(shape))
        got = sorted(f for f in os.listdir(h.fdir) if not f.endswith('.lock')) if os.path.isdir(h.fdir) else []
        run.expect(got == sorted(h.name(k) for k in h.model), 'the files are %r, the keys %r', got, sorted(h.model))
        left = [f for _, _, fs in os.walk(h.dir) for f in fs]
        run.expect(all(os.path.realpath(os.path.join(r, f)).startswith(os.path.realpath(h.fdir) + os.sep) for r, _, fs in os.walk(h.dir) for f in fs),
                   'files outside the store directory: %r', left)
    finally:
        store.drop(h.dir)


def walk(run, rng, h, st):
    """Going through the store while it is read, and while others add to it or remove from it."""
    start = dict(h.model)
    seen = []
    how = rng.choice(('keys', 'items', 'iter'))

    def go():
        for x in st.keys() if how == 'keys' else st.items() if how == 'items' else st:
            k = x if how == 'keys' else x[0]
            if how != 'keys':
                run.expect(k in h.model and same(x[1], h.model[k]) or k in start and same(x[1], start[k]), '%s gives %r: %r', how, k, x[1])
            seen.append(k)
            r = rng.random()
            other = rng.choice(h.inst)
            if r < .3:
                new = store.keys(rng, 1)[0]
                if len(h.name(new)) < 200 and new not in start:
                    h.model[new] = h.value()
                    store.settle()
                    other[new] = copy.deepcopy(h.model[new])
                    h.read(st, new, 'while going through the store')
            elif r < .5:
                store.settle()
                del other[k]
                del h.model[k]
                h.read(st, k, 'while going through the store')
            elif k in h.model:
                h.read(st, k, 'while going through the store')
    run.must('going through the store', go)
    kept = [k for k in start if k in h.model]
    run.expect(len(set(seen)) == len(seen) and set(kept) <= set(seen) <= set(start) | set(h.model), 'going through %s gives %r, there are %r', how, sorted(seen), sorted(start))
    run.obs('walked', (how, len(start)))


def away(run, rng, h, k):
    """A file is moved away for a while, perhaps with a directory in its place, and comes back as it was; or does not."""
    f, keep = os.path.join(h.fdir, h.name(k)), os.path.join(h.dir, 'aside')
    os.rename(f, keep)
    was = h.model.pop(k)
    place = rng.random() < .3
    if place:
        os.mkdir(f)
    for st in h.inst:
        how = rng.choice(('read', 'list', 'items', 'len', 'no', 'no'))
        if how == 'read':
            h.read(st, k, 'while its file is away')
        elif how == 'list':
            run.expect(sorted(st.keys()) == sorted(h.model), 'keys while %r is away: %r, expected %r', k, sorted(st.keys()), sorted(h.model))
        elif how == 'items':
            run.expect(sorted(x for x, _ in st.items()) == sorted(h.model), 'items while %r is away: %r', k, list(st.items()))
        elif how == 'len':
            run.expect(len(st) == len(h.model), 'len while %r is away: %r', k, len(st))
    if place:
        os.rmdir(f)
    if rng.random() < .7:
        os.rename(keep, f)
        h.model[k] = was
    else:
        os.unlink(keep)
    h.read(rng.choice(h.inst), k, 'after its file was away')
    run.obs('by_hand', ('away', place, k in h.model))


def part_update(run, rng, h, st, ava):
    """An update with one value that can not be stored says so, and leaves each key with its old or its new value."""
    bad = rng.choice(sorted(ava))
    ava[bad] = rng.choice(({1}, b'x', {'a': {1}}, object()))
    run.raises('an update with a value that can not be stored', st.update, dict(ava))
    for k, v in ava.items():
        if k != bad and k in st and same(st[k], v):
            h.model[k] = v
    for k in ava:
        h.read(st, k, 'after a failed update')
    run.obs('failed_write', 'update')


def long_keys(run, rng):
    """Keys around and beyond what a file name can hold: refused or kept apart, never mixed up."""
    d = store.scratch()
    try:
        a, b = (AbstractFileSystem({'fdir': d, 'value_conv': JSONC}) for _ in range(2))
        base = rng.choice(('https://op.example.org/', '', 'a b/')) + gen.word(rng, 'abcdef0123456789') * 40
        base = base[:rng.choice((100, 150, 200, 230, 240, 245, 250, 255, 260, 400))]
        model = {}
        for k in {base, base + 'x', base + 'y', base[:-1], base[:-1] + 'z', base + '/' + gen.word(rng), 'x' + base}:
            v = gen.word(rng)
            try:
                a[k] = v
            except (OSError, ValueError):
                run.expect(len(quote_plus(k)) > 200, 'a key of %d characters was refused', len(k))
                run.obs('long_refused')
            else:
                model[k] = v
                run.obs('long_kept', len(quote_plus(k)))
        for st in (a, b, AbstractFileSystem({'fdir': d, 'value_conv': JSONC})):
            run.expect(sorted(st.keys()) == sorted(model), 'keys %r, expected %r', sorted(st.keys()), sorted(model))
            for k, v in model.items():
                run.expect(st[k] == v, '%r reads as %r, expected %r', k, st[k], v)
        run.note(keys=sorted(model))
    finally:
        store.drop(d)


def fail(run, rng, h, st, k):
    how = rng.choice(('type', 'full', 'descriptors')) if h.conv else rng.choice(('full', 'descriptors'))
    if how == 'type':
        run.raises('storing a set', st.__setitem__, k, rng.choice(({1}, object(), b'x', {'a': {1}}, [object()], {(1, 2): 'x'}, {'a': {('b', 'c'): 1}}, [{b'x': 1}], {'a': 1, b'b': 2},
                                                                   {frozenset(): 1}, 1j, {'a': range(3)})))
        run.obs('failed_write', how)
        return
    if how == 'descriptors':
        v = h.value()
        gone = rng.random() < .5
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        free = os.dup(0)
        os.close(free)
        resource.setrlimit(resource.RLIMIT_NOFILE, (free, hard))
        try:
            if gone:
                del st[k]
            else:
                st[k] = v
        except OSError:
            run.obs('failed_write', how)
        else:
            h.model.pop(k, None)
            if not gone:
                h.model[k] = v
            run.obs('unfailed_write')
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        return
    big = 'x' * rng.choice((5000, 20000, 100000))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (4096, hard))
    try:
        st[k] = big
    except OSError:
        run.obs('failed_write', how)
    else:
        h.model[k] = big
        run.obs('unfailed_write')
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def hand(run, rng, h, k):
    f = os.path.join(h.fdir, h.name(k))
    run.expect(os.path.isfile(f), 'no file for %r: %r', k, os.listdir(h.fdir))
    v = h.value()
    how = rng.choice(('write', 'replace', 'older', 'remove'))
    if how == 'remove':
        os.unlink(f)
        h.model.pop(k)
        run.obs('by_hand', how)
        return
    tmp = os.path.join(h.dir, 'new')
    with open(tmp, 'w') as fp:
        json.dump(v, fp)
        if rng.random() < .5:
            fp.write('\n')
    if how == 'older':
        t = os.stat(f).st_mtime_ns - rng.randint(1, 10 ** 12)
        os.utime(tmp, ns=(t, t))
        os.replace(tmp, f)
    elif how == 'replace':
        os.replace(tmp, f)
    else:
        with open(f, 'w') as fp:
            fp.write(open(tmp).read())
        os.unlink(tmp)
    h.model[k] = v
    run.obs('by_hand', how)


def lifetime(run, rng):
    """Every key and every value, one at a time, across instances."""
    h = Hist(run, rng, rng.choice((JSONC, None)))
    try:
        other = h.open()
        for k in store.keys(rng, 4):
            if h.kconv and len(h.name(k)) > 200:
                continue
            v = h.value()
            h.inst[0][k] = v
            h.model[k] = v
            h.read(h.inst[0], k, 'in the writer')
            h.read(other, k, 'in another instance')
            store.settle()
            if rng.random() < .4:
                v = h.value()
                other[k] = v
                h.model[k] = v
                h.read(h.inst[0], k, 'in the first writer')
            if rng.random() < .3:
                del other[k]
                del h.model[k]
                h.read(h.inst[0], k, 'deleted by another instance')
        h.check_all(h.open(), 'after reopening')
        run.note(model=h.model)
        run.obs('lifetime', tuple(type(v).__name__ for v in h.model.values()))
    finally:
        store.drop(h.dir)


def keyissuer(run, rng):
    """Key material: what another instance loads signs and verifies like the original."""
    from cryptojwt.key_issuer import KeyIssuer
    from cryptojwt.jws.jws import JWS, factory
    d = store.scratch()
    try:
        conf = {'fdir': d, 'value_conv': 'cryptojwt.serialize.item.KeyIssuer'}
        a, b = AbstractFileSystem(conf), AbstractFileSystem(conf)
        alg = rng.choice(('ES256', 'RS256'))
        iss = rng.choice((jose.ISS1, 'https://op.example.org/tenant?a=b'))
        ki = jose.key_issuer(alg, iss) if hasattr(jose, 'key_issuer') else KeyIssuer(iss)
        if not len(ki):
            from cryptojwt.key_bundle import keybundle_from_local_file, KeyBundle
            from cryptojwt.jwk.ec import new_ec_key
            kb = KeyBundle()
            kb.append(new_ec_key('P-256', kid='k1'))
            ki.add_kb(kb)
            alg = 'ES256'
        a[iss] = ki
        got = b[iss]
        run.expect(isinstance(got, KeyIssuer) and got.name == ki.name, 'loaded %r', got)
        keys = lambda x: sorted((k.kid, k.kty, json.dumps(k.serialize(private=True), sort_keys=True)) for k in x.all_keys())
        run.expect(keys(got) == keys(ki), 'loaded other keys')
        payload = {'iss': iss, 'n': gen.word(rng)}
        tok = JWS(json.dumps(payload), alg=alg).sign_compact(got.all_keys())
        run.expect(factory(tok, alg=alg).verify_compact(tok, AbstractFileSystem(conf)[iss].all_keys()) == payload, 'signature with the stored key')
        run.obs('keyissuer', alg)
    finally:
        store.drop(d)


def lock_suffix(run, rng):
    """Keys that look like the store's own lock files (known finding)."""
    d = store.scratch()
    try:
        conf = {'fdir': d, 'value_conv': JSONC}
        a = AbstractFileSystem(conf)
        k = gen.word(rng)
        lk = k + '.lock'
        if rng.random() < .5:
            a[k] = 1
            run.obs('lock_suffix', 'absent')
            if lk in a or sorted(a.keys()) != [k]:
                raise core.Known('file-store-lock-suffix', '%r in store although only %r was stored' % (lk, k))
        else:
            a[lk] = 1
            run.obs('lock_suffix', 'present')
            run.expect(a[lk] == 1, 'the stored value')
            if sorted(AbstractFileSystem(conf).keys()) != [lk]:
                raise core.Known('file-store-lock-suffix', '%r is not listed although stored' % lk)
    finally:
        store.drop(d)


def whitespace(run, rng):
    """Texts with white space at the ends, stored as they are (known finding)."""
    d = store.scratch()
    try:
        conf = {'fdir': d}
        a = AbstractFileSystem(conf)
        t = gen.word(rng)
        v = rng.choice((' ', '', '\n', '\t', '\u00a0')) + t + rng.choice((' ', '\n', '\r\n', ''))
        a['k'] = v
        run.expect(a['k'] == v, 'the writer reads %r', a['k'])
        got = AbstractFileSystem(conf)['k']
        run.note(value=v, got=got)
        run.obs('whitespace', v[:1] + v[-1:])
        if got != v:
            run.expect(got == v.strip(), 'another instance reads %r as %r', v, got)
            raise core.Known('file-store-strips-text', 'stored %r, another instance reads %r' % (v, got))
    finally:
        store.drop(d)


def burst(run, rng):
    """Changes by one instance, listings by another, as fast as they come: new and deleted keys show at once."""
    h = Hist(run, rng, JSONC)
    try:
        st = [h.inst[0], h.open()]
        pool = [gen.word(rng) + str(i) for i in range(40)]
        gone = set()
        for i in range(60):
            a, b = rng.sample(st, 2)
            if pool and (not h.model or rng.random() < .6):
                k = pool.pop()
                h.model[k] = i
                a[k] = i
            elif h.model:
                k = rng.choice(sorted(h.model))
                h.model.pop(k)
                gone.add(k)
                del a[k]
            r = rng.random()
            if r < .5:
                got = sorted(b.keys())
                run.expect(got == sorted(h.model), 'keys: %r, expected %r', got, sorted(h.model))
            elif r < .6:
                run.expect(len(b) == len(h.model), 'len: %r, expected %d', len(b), len(h.model))
            elif r < .8:
                got = dict(b.items())
                run.expect(got == h.model, 'items: %r, expected %r', got, h.model)
            elif k in h.model:
                run.expect(b.get(k) == i, 'get gives %r, expected %r', b.get(k), i)
            else:
                run.expect(k not in b and b.get(k) is None, '%r in store after it was deleted', k)
            if r > .95:
                run.expect(not any(x in b for x in gone), 'deleted keys in store')
            run.obs('burst')
    finally:
        store.drop(h.dir)


def failing_reads(run, rng):
    """Reads that fail for a while (no file descriptors left, a converter that can not) never leave outdated values behind."""
    h = Hist(run, rng, 'rv.store.Flaky')
    try:
        st = [h.inst[0], h.open()]
        ks = [k for k in store.keys(rng, rng.randint(1, 4)) if not h.kconv or len(h.name(k)) < 200] or ['k']
        for _ in range(rng.randint(4, 12)):
            a, b = rng.sample(st, 2)
            k = rng.choice(ks)
            store.settle()
            if rng.random() < .8 or k not in h.model:
                h.model[k] = v = h.value()
                run.must('storing', a.__setitem__, k, v)
                h.log.append(('set', st.index(a), k))
            else:
                del h.model[k]
                run.must('deleting', a.__delitem__, k)
                h.log.append(('del', st.index(a), k))
            if rng.random() < .3:
                st[rng.randrange(2)] = h.open() if rng.random() < .5 else b
                continue
            how = rng.choice(('descriptors', 'converter'))
            what = rng.sample(('get', 'get', 'item', 'item', 'keys', 'items', 'len', 'in', 'call'), rng.randint(1, 3))
            h.log.append(('failing', how, what, st.index(b), k))
            soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
            if how == 'converter':
                store.Flaky.failing = rng.choice((ValueError, OSError, RuntimeError, PermissionError))
            else:
                free = os.dup(0)
                os.close(free)
                resource.setrlimit(resource.RLIMIT_NOFILE, (free, hard))
            try:
                seen = []
                for w in what:
                    try:
                        seen.append((w, {'get': lambda: b.get(k), 'item': lambda: b[k], 'keys': lambda: sorted(b.keys()), 'items': lambda: dict(b.items()),
                                         'len': lambda: len(b), 'in': lambda: k in b, 'call': lambda: sorted(b())}[w]()))
                    except Exception as e:
                        seen.append((w, e))
            finally:
                store.Flaky.failing = None
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            for w, got in seen:
                if isinstance(got, Exception):
                    run.obs('failed_read', (how, w, type(got).__name__))
                    if w in ('get', 'item') and k in h.model:
                        run.expect(not isinstance(got, KeyError), '%r taken for missing because reading failed', k)
                    continue
                run.obs('unfailed_read', (how, w))
                if w in ('get', 'item'):
                    run.expect(same(got, h.model.get(k)), '%s gives %r while reading fails, the value is %r (%r)', w, got, h.model.get(k), h.log[-6:])
                elif w == 'items':
                    for x, y in got.items():
                        run.expect(x in h.model and same(y, h.model[x]), 'items give %r for %r while reading fails (%r)', y, x, h.log[-6:])
            if rng.random() < .7:
                h.read(b, k, 'after reads that failed')
            else:
                h.check_all(b, 'after reads that failed')
            run.obs('read_again')
        for x in st + [h.open()]:
            h.check_all(x, 'at last')
    finally:
        store.drop(h.dir)


def surrogates(run, rng):
    """Text that has no UTF-8 form: refused, with the old value kept, or kept as it is."""
    conv = rng.choice((JSONC, None))
    h = Hist(run, rng, conv)
    try:
        a, b = h.inst[0], h.open()
        k = gen.word(rng)
        old = rng.choice((None, gen.word(rng)))
        if old:
            a[k] = old
            h.model[k] = old
            if rng.random() < .5:
                h.read(b, k)
        v = gen.word(rng) + rng.choice(('\ud800', '\udfff', '\udc80', '\udcff\ud83d')) + gen.word(rng)
        if conv and rng.random() < .5:
            v = rng.choice(({'a': v}, [v], {v: 1}))
        try:
            a[k] = v
        except (ValueError, OSError):
            run.obs('surrogate_refused')
        else:
            h.model[k] = v
            run.obs('surrogate_kept')
        run.note(value=v, had=old)
        for st, what in ((a, 'in the writer'), (b, 'in another instance'), (h.open(), 'after reopening')):
            h.read(st, k, what)
            run.expect(list(st.keys()) == list(h.model), 'keys %r', list(st.keys()))
    finally:
        store.drop(h.dir)


def scenarios(run):
    run.rules.append('histories over up to 4 instances of one directory against a dict, with hostile keys and values, failing writes (type, '
                     'file size limit), changes by hand, removed directories, an own key conversion; distinct = operation sequence shapes, value types')
    run.assumptions.append('keys other than the empty string, "." and "..", whose encoded form fits in a file name')
    run.require(walked=50, history=200, present=2000, absent=500, failed_write=50, by_hand=50, full_comparison=500, lifetime=100, keyissuer=10, long_kept=100, long_refused=50, burst=1000, failed_read=500, read_again=600)
    return {'history': (history, 500, 12000), 'lifetime': (lifetime, 200, 5000), 'keyissuer': (keyissuer, 15, 150),
            'long_keys': (long_keys, 60, 1500), 'burst': (burst, 25, 600), 'failing_reads': (failing_reads, 150, 4000), 'surrogates': (surrogates, 60, 1500), 'lock_suffix': (lock_suffix, 20, 60), 'whitespace': (whitespace, 20, 60)}
