"""Measure the sensitivity of the checks with small changes of the code.

  mutate.py FILE[:FUNCTION,..] CHECK,.. [NUM] [SEED] [LOG]

Makes NUM random changes of FILE (in a scratch copy of /repo), drops the ones
the stable tests notice, and runs the checks until one reports a violation.
Changes that survive are printed: they break no property, or a check misses
something.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed

SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '+', ast.Pow: '*'}


class Mutants(ast.NodeVisitor):
    def __init__(self, text, functions):
        self.text, self.functions = text, functions
        self.lines = [0]
        for x in text.encode().splitlines(True):
            self.lines.append(self.lines[-1] + len(x))
        self.out, self.inside = [], []
        self.quiet = 0

    def pos(self, n, end=False):
        if end:
            return self.lines[n.end_lineno - 1] + n.end_col_offset
        return self.lines[n.lineno - 1] + n.col_offset

    def src(self, n):
        return self.text.encode()[self.pos(n):self.pos(n, True)].decode()

    def add(self, n, new):
        if self.functions and not set(self.inside) & set(self.functions):
            return
        if not self.inside or self.quiet:
            return
        self.out.append((self.pos(n), self.pos(n, True), new, n.lineno,
                         self.inside[-1]))

    def visit_FunctionDef(self, n):
        self.inside.append(n.name)
        for x in n.body:
            self.visit(x)
        self.inside.pop()

    def visit_Raise(self, n):
        self.add(n, 'pass')

    def visit_Assert(self, n):
        self.quiet += 1
        self.generic_visit(n)
        self.quiet -= 1

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        s = self.src(n)
        if 'logg' in s.split('(')[0] or s.startswith('print'):
            return
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'pass')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'pass')

    def visit_Break(self, n):
        self.add(n, 'pass')

    def visit_If(self, n):
        self.add(n.test, 'not (%s)' % self.src(n.test))
        self.add(n.test, 'False')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            self.add(n, '%s %s %s' % (self.src(n.left), SWAP[type(n.ops[0])],
                                      self.src(n.comparators[0])))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            rest = [x for x in n.values if x is not v]
            self.add(n, '(%s)' % (
                ' and ' if isinstance(n.op, ast.And) else ' or ').join(
                    '(%s)' % self.src(x) for x in rest))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, '(%s)' % self.src(n.operand))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and \
                isinstance(getattr(n.left, 'value', ''), str):
            return
        if type(n.op) in BIN:
            self.add(n, '(%s) %s (%s)' % (self.src(n.left),
                                          BIN[type(n.op)],
                                          self.src(n.right)))
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value))
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1))
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 1.5 + 1))

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg and len(n.keywords) > 1:
                pass
        if len(n.args) == 2 and not n.keywords:
            self.add(n, '%s(%s, %s)' % (self.src(n.func), self.src(n.args[1]),
                                        self.src(n.args[0])))
        f = self.src(n.func)
        if len(n.args) == 1 and not n.keywords and f.split('.')[-1] in (
                'deepcopy', 'copy', 'sorted', 'abs', 'list', 'tuple', 'sum'):
            self.add(n, self.src(n.args[0]))
        self.generic_visit(n)

    def visit_For(self, n):
        self.add(n.iter, 'list(%s)[1:]' % self.src(n.iter))
        self.add(n.iter, 'list(%s)[:-1]' % self.src(n.iter))
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass


def main():
    spec, checks = sys.argv[1:3]
    num = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    log = open(sys.argv[5], 'a') if len(sys.argv) > 5 else sys.stdout
    name, _, fns = spec.partition(':')
    d = mkseed.copy()
    repo = os.path.join(d, 'repo')
    path = os.path.join(repo, name)
    text = open(path).read()
    m = Mutants(text, [x for x in fns.split(',') if x])
    m.visit(ast.parse(text))
    todo = m.out
    rng.shuffle(todo)
    raw = text.encode()
    count = {}
    try:
        for a, b, new, line, fn in todo[:num]:
            mut = (raw[:a] + new.encode() + raw[b:]).decode()
            what = '%s:%d %s: %s -> %s' % (
                name, line, fn, ' '.join(raw[a:b].decode().split())[:110],
                ' '.join(new.split())[:110])
            try:
                compile(mut, name, 'exec')
            except SyntaxError:
                continue
            open(path, 'w').write(mut)
            res = outcome(repo, d, checks)
            count[res.split()[0]] = count.get(res.split()[0], 0) + 1
            print(res, '|', what, file=log, flush=True)
    finally:
        shutil.rmtree(d)
    print('TOTAL', name, checks, json.dumps(count), file=log, flush=True)


def outcome(repo, d, checks):
    rc, _ = mkseed.sh(['/opt/venv/bin/python', '-W', 'ignore', '-c',
                       'import importlib\nfor m in %r: importlib.import_module'
                       '("egenerator."+m)' % mkseed.MODS], repo,
                      {'PYTHONPATH': repo})
    if rc:
        return 'BUILD'
    cmd = ['timeout', '300', '/opt/venv/bin/python', '-m', 'pytest', '-q',
           '-x', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
           'test'] + ['--ignore=test/' + x for x in mkseed.IGN]
    rc, out = mkseed.sh(cmd, repo, {'PYTHONPATH': repo})
    if '21 passed' not in out:
        return 'TESTS'
    odd = []
    for c in checks.split(','):
        try:
            rc, out = mkseed.sh(
                ['timeout', '-k', '5', '600', mkseed.VERIF + '/bin/check', c],
                mkseed.VERIF,
                {'VERIF_REPO': repo, 'VERIF_SEED': '1',
                 'VERIF_EVIDENCE': d + '/ev'}, timeout=700)
        except subprocess.TimeoutExpired:
            rc, out = 124, ''
        if rc == 1 and 'VIOLATION property=' + c in out:
            return 'CAUGHT ' + c
        if rc:
            odd.append('%s:%d:%s' % (c, rc, ' '.join(out.split())[-150:]))
    return ('NOANSWER ' + ' '.join(odd)) if odd else 'SURVIVED'


if __name__ == '__main__':
    main()
