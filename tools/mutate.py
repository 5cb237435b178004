#!/usr/bin/env python3
"""Development aid (not a check): mutants of the library that survive its tests, and which checks see them.

tools/mutate.py list FILE...            number the mutants
tools/mutate.py run OUT.jsonl N FILE... run them with N workers, in scratch copies; appends one line per mutant
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/oidcmsg/'
REPO = os.environ.get('MUT_REPO', '/repo')
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
NAMES = {'SINGLE_REQUIRED_STRING': 'SINGLE_OPTIONAL_STRING', 'SINGLE_OPTIONAL_STRING': 'SINGLE_REQUIRED_STRING',
         'SINGLE_OPTIONAL_INT': 'SINGLE_OPTIONAL_STRING', 'SINGLE_REQUIRED_INT': 'SINGLE_OPTIONAL_INT',
         'SINGLE_OPTIONAL_BOOLEAN': 'SINGLE_OPTIONAL_STRING', 'SINGLE_REQUIRED_BOOLEAN': 'SINGLE_OPTIONAL_BOOLEAN',
         'OPTIONAL_LIST_OF_STRINGS': 'OPTIONAL_LIST_OF_SP_SEP_STRINGS', 'REQUIRED_LIST_OF_STRINGS': 'OPTIONAL_LIST_OF_STRINGS',
         'OPTIONAL_LIST_OF_SP_SEP_STRINGS': 'OPTIONAL_LIST_OF_STRINGS', 'REQUIRED_LIST_OF_SP_SEP_STRINGS': 'OPTIONAL_LIST_OF_SP_SEP_STRINGS',
         'SINGLE_OPTIONAL_JSON': 'SINGLE_OPTIONAL_STRING', 'OPTIONAL_ADDRESS': 'OPTIONAL_MESSAGE', 'OPTIONAL_MESSAGE': 'SINGLE_OPTIONAL_STRING',
         'SINGLE_OPTIONAL_IDTOKEN': 'SINGLE_OPTIONAL_STRING'}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith('logger.')


class Finder(ast.NodeVisitor):
    """Calls `emit(node, desc, apply)`; with target number k applies the k-th."""
    def __init__(self, k=None):
        self.k, self.n, self.desc = k, 0, []
        self.infunc = 0

    def mut(self, node, desc, apply):
        if self.k is None:
            self.desc.append((getattr(node, 'lineno', 0), desc))
        elif self.n == self.k:
            apply()
        self.n += 1

    def visit(self, node):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                self.block(node, name, val)
        self.expr(node)
        f = isinstance(node, (ast.FunctionDef, ast.Lambda))
        self.infunc += f
        for c in list(ast.iter_child_nodes(node)):
            if is_log(c) or isinstance(c, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(node, ast.Raise):
                continue
            self.visit(c)
        self.infunc -= f

    def block(self, node, name, body):
        for i, s in enumerate(body):
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass)) or is_log(s):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if not self.infunc and not isinstance(node, ast.FunctionDef):
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Return)):
                self.mut(s, 'delete: ' + ast.unparse(s)[:80], lambda i=i, body=body: body.__setitem__(i, ast.Pass()))

    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def ap():
                n.ops[0] = CMP[type(n.ops[0])]()
            self.mut(n, 'cmp: ' + ast.unparse(n)[:80], ap)
            if isinstance(n.ops[0], ast.Eq):
                def ap2():
                    n.ops[0] = ast.GtE()
                self.mut(n, 'eq->ge: ' + ast.unparse(n)[:80], ap2)
                def ap3():
                    n.ops[0] = ast.In()
                self.mut(n, 'eq->in: ' + ast.unparse(n)[:80], ap3)
        if isinstance(n, ast.BoolOp):
            def ap():
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            self.mut(n, 'bool: ' + ast.unparse(n)[:80], ap)
            for i in range(len(n.values)):
                self.mut(n, 'drop operand %d: %s' % (i, ast.unparse(n)[:80]), lambda i=i: n.values.pop(i))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                def ap(v=v):
                    n.test = ast.Constant(v)
                self.mut(n, 'cond=%s: %s' % (v, ast.unparse(n.test)[:80]), ap)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def ap():
                n.op = ast.UAdd()
            pass
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and self.infunc:
            def ap():
                n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            self.mut(n, 'arith: ' + ast.unparse(n)[:80], ap)
        if isinstance(n, ast.Constant) and self.infunc:
            if isinstance(n.value, bool):
                def ap():
                    n.value = not n.value
                self.mut(n, 'bool const %s' % n.value, ap)
            elif isinstance(n.value, int):
                def ap():
                    n.value += 1
                self.mut(n, 'int const %s' % n.value, ap)
            elif isinstance(n.value, str) and n.value:
                def ap():
                    n.value = n.value + 'x'
                self.mut(n, 'str const %r' % n.value[:40], ap)
        if isinstance(n, ast.Dict) and not self.infunc:
            for i in range(len(n.keys)):
                def ap(i=i):
                    del n.keys[i], n.values[i]
                self.mut(n.keys[i] or n, 'drop entry %s' % (ast.unparse(n.keys[i]) if n.keys[i] else '**'), ap)
                v = n.values[i]
                if isinstance(v, ast.Name) and v.id in NAMES:
                    def ap2(v=v):
                        v.id = NAMES[v.id]
                    self.mut(v, 'spec %s: %s -> %s' % (ast.unparse(n.keys[i]), v.id, NAMES[v.id]), ap2)
        if isinstance(n, ast.List) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                self.mut(n, 'drop item %s' % ast.unparse(n.elts[i])[:50], lambda i=i: n.elts.pop(i))
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and not self.infunc:
            for i, e in enumerate(n.elts):
                if isinstance(e, ast.Constant) and isinstance(e.value, bool):
                    def ap(e=e):
                        e.value = not e.value
                    self.mut(n, 'spec flag %d of %s' % (i, ast.unparse(n)[:60]), ap)
        if isinstance(n, ast.Call) and self.infunc:
            for i, kw in enumerate(n.keywords):
                self.mut(n, 'drop kw %s of %s' % (kw.arg, ast.unparse(n)[:60]), lambda i=i: n.keywords.pop(i))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            def ap():
                n.value = ast.Constant(None)
            self.mut(n, 'return None for %s' % ast.unparse(n.value)[:60], ap)
        if isinstance(n, ast.Try):
            for i, h in enumerate(n.handlers):
                if len(n.handlers) > 1 or n.finalbody:
                    self.mut(h, 'drop handler %s' % (ast.unparse(h.type) if h.type else ''), lambda i=i: n.handlers.pop(i))
            if n.finalbody:
                def ap():
                    n.finalbody = [ast.Pass()]
                self.mut(n, 'drop finally', ap)
        if isinstance(n, ast.With):
            def ap():
                n.items = [ast.withitem(ast.parse('__import__("contextlib").nullcontext()', mode='eval').body, n.items[0].optional_vars)]
            if 'lock' in ast.unparse(n.items[0]).lower():
                self.mut(n, 'drop with %s' % ast.unparse(n.items[0])[:50], ap)


def mutants(f):
    t = ast.parse(open(os.path.join(REPO, SRC, f)).read())
    v = Finder()
    v.visit(t)
    return v.desc


def source(f, k):
    t = ast.parse(open(os.path.join(REPO, SRC, f)).read())
    v = Finder(k)
    v.visit(t)
    return ast.unparse(ast.fix_missing_locations(t)) + '\n'


ALL = ['C%02d' % i for i in range(1, 35)]
FIRST = {
    'message.py': 'C12 C13 C15 C18 C14 C16 C32 C17 C02 C01 C34 C04 C21 C06 C07 C22 C23 C19 C20 C10',
    'time_util.py': 'C30 C31 C24 C11 C03 C10', '__init__.py': 'C33 C06', 'context.py': 'C29 C27', 'exception.py': '',
    'oauth2/__init__.py': 'C14 C16 C21 C07 C09 C32 C15 C12 C13 C06 C05 C08 C17 C18 C01',
    'oauth2/device_authorization.py': 'C14 C15 C12 C32 C16',
    'oidc/__init__.py': 'C03 C08 C05 C06 C04 C01 C07 C09 C10 C11 C15 C14 C16 C19 C20 C21 C22 C12 C13 C32 C34 C23 C17 C02 C18',
    'oidc/identity_assurance.py': 'C23 C24 C12 C15 C14 C13', 'oidc/session.py': 'C10 C06 C01 C04 C14 C15 C12 C13',
    'storage/abfile.py': 'C25 C27 C29 C26', 'storage/absqlalchemy.py': 'C28', 'storage/__init__.py': 'C27 C29 C25',
    'storage/converter.py': 'C25 C27 C29', 'storage/init.py': 'C27 C29', 'storage/utils.py': 'C25 C27', 'storage/extension.py': 'C27 C29',
    'storage/db_setup.py': 'C28 C27'}
STORAGE = {'C25', 'C26', 'C27', 'C28', 'C29'}


def one(job):
    f, k, line, desc, w = job
    d = tempfile.mkdtemp(prefix='mut')
    res = dict(file=f, k=k, line=line, desc=desc)
    try:
        shutil.copytree(REPO + '/src', d + '/src')
        shutil.copytree(REPO + '/tests', d + '/tests')
        try:
            src = source(f, k)
        except Exception as e:
            res['tests'] = 'nomutant %r' % e
            return res
        with open(os.path.join(d, SRC, f), 'w') as fp:
            fp.write(src)
        env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', RV_REPO=d, RV_EVID=d + '/ev')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if r.returncode:
                res['tests'] = 'killed'
                return res
        except subprocess.TimeoutExpired:
            res['tests'] = 'killed'
            return res
        res['tests'] = 'pass'
        order = FIRST[f].split()
        rest = [c for c in ALL if c not in order and (c not in STORAGE or f.startswith('storage') or f in ('message.py', 'context.py') and c == 'C29')]
        if f.startswith('storage'):
            rest = [c for c in rest if c in STORAGE]
        if os.environ.get('MUT_FIRST'):
            rest = []
        res['by'] = None
        res['odd'] = []
        for c in order + rest:
            try:
                r = subprocess.run([ROOT + '/check', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            except subprocess.TimeoutExpired:
                res['odd'].append(c + ':timeout')
                continue
            if r.returncode == 1:
                res['by'] = c
                res['msg'] = r.stdout.decode(errors='replace')[:300]
                break
            if r.returncode:
                res['odd'].append('%s:%d %s' % (c, r.returncode, r.stdout.decode(errors='replace')[-200:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        for f in sys.argv[2:]:
            for k, (line, desc) in enumerate(mutants(f)):
                print(f, k, line, desc)
    elif cmd == 'show':
        import difflib
        a = ast.unparse(ast.parse(open(os.path.join(REPO, SRC, sys.argv[2])).read())).split('\n')
        print('\n'.join(difflib.unified_diff(a, source(sys.argv[2], int(sys.argv[3])).split('\n'), lineterm='')))
    else:
        out, n = sys.argv[2], int(sys.argv[3])
        done = set()
        if os.path.exists(out):
            done = {(x['file'], x['k']) for x in map(json.loads, open(out))}
        jobs = [(f, k, line, desc, 0) for f in sys.argv[4:] for k, (line, desc) in enumerate(mutants(f)) if (f, k) not in done]
        random.Random(1).shuffle(jobs)
        lim = int(os.environ.get('MUT_MAX', '0')) or len(jobs)
        with concurrent.futures.ThreadPoolExecutor(n) as ex, open(out, 'a') as fp:
            for fut in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs[:lim]]):
                try:
                    res = fut.result()
                except Exception as e:
                    print(repr(e), flush=True)
                    continue
                fp.write(json.dumps(res) + '\n')
                fp.flush()


if __name__ == '__main__':
    main()
