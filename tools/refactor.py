"""
Behaviour-preserving rewrites of the code under test, on which every check must stay quiet.

    python3 tools/refactor.py [--jobs N] [--seed S] [--checks "C01 C02"]     (works in scratch copies)

Every function gets some of: local variables renamed, returned values named first, a statement which does nothing,
branches exchanged under the negated condition, comparisons turned round, augmented assignments of names spelt out (numbers
only), comprehensions of lists written as list(generator), f-strings left alone; methods of each class in reverse order.
"""
import argparse
import ast
import concurrent.futures
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile

REPO, VERIF = pathlib.Path('/repo'), pathlib.Path(__file__).resolve().parent.parent


class Rewrite(ast.NodeTransformer):
    def __init__(self, rand):
        self.rand = rand
        self.n = 0

    def visit_FunctionDef(self, node):
        node = self.generic_visit(node)
        inner = [x for x in ast.walk(node) if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        banned = {y for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        args |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        if not inner:
            local = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - banned
            local -= {'_'}
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and x.id in local:
                    x.id = x.id + '_new'
                # match patterns bind names as plain strings
            if any(isinstance(x, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)) for x in ast.walk(node)):
                for x in ast.walk(node):
                    if isinstance(x, ast.Name) and x.id.endswith('_new'):
                        x.id = x.id[:-4]
        doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        if self.rand.random() < 0.5:
            node.body.insert(doc, ast.parse('_unused = None').body[0])
        return node

    def visit_Return(self, node):
        if node.value is None or self.rand.random() < 0.4:
            return node
        return [ast.Assign([ast.Name('answer_', ast.Store())], node.value), ast.Return(ast.Name('answer_', ast.Load()))]

    def visit_If(self, node):
        node = self.generic_visit(node)
        if node.orelse and self.rand.random() < 0.6:
            node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        node = self.generic_visit(node)
        if self.rand.random() < 0.5:
            node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        turned = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(node.ops) == 1 and type(node.ops[0]) in turned and self.rand.random() < 0.6:
            return ast.Compare(node.comparators[0], [turned[type(node.ops[0])]()], [node.left])
        return node

    def visit_ListComp(self, node):
        node = self.generic_visit(node)
        if self.rand.random() < 0.5:
            return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])
        return node

    def visit_ClassDef(self, node):
        node = self.generic_visit(node)
        runs, out = [], []
        for x in node.body + [None]:
            if isinstance(x, ast.FunctionDef) and not x.decorator_list:
                runs.append(x)
            else:
                out += reversed(runs)
                runs = []
                if x is not None:
                    out.append(x)
        node.body = out
        return node


def rewrite(path, rand):
    tree = Rewrite(rand).visit(ast.parse(path.read_text()))
    path.write_text(ast.unparse(ast.fix_missing_locations(tree)) + '\n')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--jobs', type=int, default=4)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--checks', default=' '.join(f'C{i:02}' for i in range(1, 29)))
    a = p.parse_args()
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='refactor-'))
    shutil.copytree(REPO, tmp / 'repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    shutil.copytree(VERIF, tmp / 'verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays'))
    rand = random.Random(a.seed)
    for f in [*sorted((tmp / 'repo' / 'peyl').glob('*.py')), tmp / 'repo' / 'search.py']:
        rewrite(f, rand)
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PBT_REPO': str(tmp / 'repo')}
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=tmp / 'repo', env=env, capture_output=True, text=True)
    print(r.stdout.splitlines()[-1] if r.stdout else r.stderr[-500:], flush=True)

    def one(c):
        r = subprocess.run(['./check', c], cwd=tmp / 'verif', env=env, capture_output=True, text=True)
        return c, r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-3000:]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for c, rc, out in ex.map(one, a.checks.split()):
            print(c, rc, out, flush=True)
            bad += rc != 0
    shutil.rmtree(tmp)
    sys.exit(bad != 0)


main()
