"""
Mutation testing of the checks: small mechanical changes to the code under test, in scratch copies, which the
existing tests do not notice; which of them do the checks notice?

    python3 tools/mutate.py SCRATCH list
    python3 tools/mutate.py SCRATCH tests  [--jobs N]      which mutants pass the existing tests
    python3 tools/mutate.py SCRATCH checks [--jobs N] [--only FILE] [--ids a,b,c]
    python3 tools/mutate.py SCRATCH show ID

SCRATCH is a directory outside /repo and /verif; results are lines of SCRATCH/*.jsonl, and a rerun continues.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import pathlib
import random
import resource
import shutil
import subprocess
import threading
import time

REPO = pathlib.Path('/repo')
VERIF = pathlib.Path(__file__).resolve().parent.parent
CHECKS = {
    'peyl/permutations.py': 'C19 C02 C04 C24 C28 C03 C25 C26',
    'peyl/noncrossing.py': 'C20 C02 C04 C24 C28 C06',
    'peyl/braid.py': 'C02 C04 C05 C24 C03 C25 C28 C01 C26 C07',
    'peyl/lpoly.py': 'C16 C28 C24 C22 C26',
    'peyl/poly.py': 'C17 C28 C24 C26',
    'peyl/matrix.py': 'C18 C28 C24 C27 C26',
    'peyl/polymat.py': 'C09 C10 C24 C07 C08 C13',
    'peyl/jonesrep.py': 'C06 C07 C27 C24 C23 C26 C28',
    'peyl/tl.py': 'C21 C22 C28 C24 C06',
    'peyl/braidsearch.py': 'C13 C14 C08 C24 C28 C26',
    'peyl/bucketing.py': 'C11 C12 C14 C24 C28 C26',
    'peyl/show.py': 'C28',
    'search.py': 'C15 C24',
}


def offsets(src):
    out, n = [0], 0
    for line in src.splitlines(keepends=True):
        n += len(line.encode())
        out.append(n)
    return out


def mutants_of(path):
    src = (REPO / path).read_text()
    data = src.encode()
    off = offsets(src)
    span = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: data[slice(*span(n))].decode()
    tree = ast.parse(src)
    edits = []

    def edit(node, new, kind):
        a, b = span(node)
        if data[a:b].decode() != new:
            edits.append((a, b, new, kind, node.lineno))

    def between(left, right, node, old, new, kind):
        a, b = span(left)[1], span(right)[0]
        s = data[a:b].decode()
        if s.count(old) >= 1:
            i = s.index(old)
            edits.append((a + len(s[:i].encode()), a + len(s[:i].encode()) + len(old), new, kind, node.lineno))

    cmp = {ast.Lt: ('<', ['<=']), ast.LtE: ('<=', ['<']), ast.Gt: ('>', ['>=']), ast.GtE: ('>=', ['>']),
           ast.Eq: ('==', ['!=']), ast.NotEq: ('!=', ['=='])}
    bins = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['+']), ast.FloorDiv: ('//', ['*']), ast.Mod: ('%', ['+']),
            ast.Pow: ('**', ['*']), ast.LShift: ('<<', ['>>']), ast.BitAnd: ('&', ['|']), ast.BitOr: ('|', ['&'])}
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                skip.add(node.body[0])
                skip.add(node.body[0].value)
        if isinstance(node, ast.FunctionDef):
            for a in [*node.args.args, *node.args.kwonlyargs]:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
            if node.returns:
                skip.update(ast.walk(node.returns))
        if isinstance(node, ast.AnnAssign):
            skip.update(ast.walk(node.annotation))
        if isinstance(node, ast.Raise):
            skip.update(ast.walk(node))
            skip.discard(node)
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) >= 1:
            items = [node.left, *node.comparators]
            for k, op in enumerate(node.ops):
                if type(op) in cmp:
                    old, news = cmp[type(op)]
                    for new in news:
                        between(items[k], items[k + 1], node, old, new, 'compare')
        elif isinstance(node, ast.BinOp) and type(node.op) in bins:
            old, news = bins[type(node.op)]
            for new in news:
                between(node.left, node.right, node, old, new, 'binop')
        elif isinstance(node, ast.AugAssign) and type(node.op) in bins:
            old, news = bins[type(node.op)]
            for new in news:
                between(node.target, node.value, node, old + '=', new + '=', 'augassign')
        elif isinstance(node, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
            between(node.values[0], node.values[1], node, old, new, 'boolop')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            edit(node, '(' + text(node.operand) + ')', 'unary')
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                edit(node, str(not node.value), 'constant')
            elif isinstance(node.value, int):
                edit(node, str(node.value + 1), 'constant')
                if node.value != 0:
                    edit(node, str(node.value - 1), 'constant')
        elif isinstance(node, (ast.If, ast.IfExp)):
            edit(node.test, 'not (' + text(node.test) + ')', 'negate')
            if isinstance(node, ast.If):
                edit(node.test, 'False', 'never')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('min', 'max', 'any', 'all'):
            edit(node.func, dict(min='max', max='min', any='all', all='any')[node.func.id], 'function')
        elif isinstance(node, ast.Slice):
            pass
        if isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords:
            a, b = node.args
            if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred):
                edits.append((span(a)[0], span(b)[1], text(b) + ', ' + text(a), 'swap', node.lineno))
        if isinstance(node, ast.Call) and node.keywords:
            for k in node.keywords:
                if k.arg and (node.args or len(node.keywords) > 1):
                    a, b = span(k)
                    while data[a - 1:a] in (b' ', b',', b'\n'):
                        a -= 1
                    if data[a - 1:a] == b'(':
                        while data[b:b + 1] in (b' ', b','):
                            b += 1
                    edits.append((a, b, '', 'keyword', k.lineno))
        if isinstance(node, (ast.Assign, ast.AugAssign)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            edit(node, 'pass', 'delete')
        if isinstance(node, (ast.Continue, ast.Break)):
            edit(node, 'pass', 'delete')
        if isinstance(node, ast.Assert):
            edit(node, 'pass', 'delete')
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            for part in ('lower', 'upper'):
                p = getattr(node.slice, part)
                if p is not None:
                    edit(p, '', 'slice')
    out, seen = [], set()
    for a, b, new, kind, line in sorted(edits):
        res = data[:a] + new.encode() + data[b:]
        if res in seen or res == data:
            continue
        seen.add(res)
        try:
            compile(res, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        out.append(dict(file=path, a=a, b=b, new=new, old=data[a:b].decode(), kind=kind, line=line))
    return out


def all_mutants():
    out = []
    for path in CHECKS:
        for i, m in enumerate(mutants_of(path)):
            m['id'] = f"{pathlib.Path(path).stem}-{m['line']}-{m['kind']}-{i}"
            out.append(m)
    return out


local = threading.local()
counter = iter(range(10**6))


def workspace(scratch):
    if not hasattr(local, 'dir'):
        d = scratch / f'w{os.getpid()}-{next(counter)}'
        d.mkdir(parents=True)
        shutil.copytree(REPO, d / 'repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(VERIF, d / 'verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays'))
        local.dir = d
    return local.dir


ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent-pycache', 'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1'}


def run(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 'timeout', ''


def put(d, m):
    data = (REPO / m['file']).read_bytes()
    (d / 'repo' / m['file']).write_bytes(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(d, m):
    shutil.copyfile(REPO / m['file'], d / 'repo' / m['file'])


def test_one(scratch, m):
    d = workspace(scratch)
    put(d, m)
    try:
        rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], 15, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)), cwd=d / 'repo', env=ENV)
    finally:
        restore(d, m)
    return dict(id=m['id'], passes=rc == 0 and '68 passed' in out, rc=rc)


def check_one(scratch, m, checks):
    d = workspace(scratch)
    put(d, m)
    t0 = time.time()
    runs = []
    try:
        for c in checks:
            rc, out = run(['./check', c, '--jobs', '1'], 1500, cwd=d / 'verif', env={**ENV, 'PBT_REPO': str(d / 'repo'), 'PBT_CASE_SECONDS': '25', 'VERIF_SEED': '1'})
            runs.append([c, rc])
            if rc != 0:
                return dict(id=m['id'], killed=c if rc == 1 and f'VIOLATION property={c}' in out else None, odd=None if rc == 1 else out[-1500:], runs=runs,
                            secs=round(time.time() - t0, 1), message=out[-400:])
        return dict(id=m['id'], killed=None, runs=runs, secs=round(time.time() - t0, 1))
    finally:
        restore(d, m)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('scratch', type=pathlib.Path)
    ap.add_argument('cmd')
    ap.add_argument('id', nargs='?')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--only')
    ap.add_argument('--ids')
    ap.add_argument('--checks')
    ap.add_argument('--out')
    ap.add_argument('--first', type=int, default=99, help='only the first so many checks of a file')
    args = ap.parse_args()
    scratch = args.scratch.resolve()
    scratch.mkdir(parents=True, exist_ok=True)
    ms = all_mutants()
    by_id = {m['id']: m for m in ms}
    assert len(by_id) == len(ms)
    if args.cmd == 'list':
        for path in CHECKS:
            print(path, sum(m['file'] == path for m in ms))
        return
    if args.cmd == 'show':
        m = by_id[args.id]
        lines = (REPO / m['file']).read_text().splitlines()
        print(m)
        print('\n'.join(lines[m['line'] - 3:m['line'] + 2]))
        return
    def load(name):
        f = scratch / name
        return {r['id']: r for r in map(json.loads, f.read_text().splitlines())} if f.exists() else {}
    if args.cmd == 'tests':
        done, name = load('tests.jsonl'), 'tests.jsonl'
        todo = [m for m in ms if m['id'] not in done]
        job = lambda m: test_one(scratch, m)
    else:
        name = args.out or 'checks.jsonl'
        done = load(name)
        passing = load('tests.jsonl')
        todo = [m for m in ms if m['id'] not in done and passing.get(m['id'], {}).get('passes')]
        if args.ids:
            todo = [by_id[i] for i in args.ids.split(',')]
        job = lambda m: check_one(scratch, m, (args.checks or CHECKS[m['file']]).split()[:args.first])
    if args.only:
        todo = [m for m in todo if m['file'] == args.only]
    if args.cmd == 'checks':
        random.Random(1).shuffle(todo)
    print(len(todo), 'to do', flush=True)
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex, open(scratch / name, 'a') as f:
        for fut in concurrent.futures.as_completed([ex.submit(job, m) for m in todo]):
            r = fut.result()
            f.write(json.dumps(r) + '\n')
            f.flush()
    for d in scratch.glob(f'w{os.getpid()}-*'):
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
