"""
Makes and validates planted bugs in scratch copies of /repo.

    plant.py make SPEC.py [ID...]   SPEC.py defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)
    plant.py run [ID...] [--all] [--seed N]    run the check of its property (or all checks) against each planted bug
"""
import argparse
import concurrent.futures
import json
import os
import pathlib
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / 'seeded'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent-pycache'}


def sh(cmd, cwd, timeout=320, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def copy(d):
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__'))


def make(b):
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='plant-'))
    try:
        repo = tmp / 'repo'
        copy(repo)
        for f, old, new in b['edits']:
            s = (repo / f).read_text()
            if s.count(old) != 1:
                return f'edit of {f}: {s.count(old)} occurrences of {old!r}'
            (repo / f).write_text(s.replace(old, new))
        diff = sh(['git', 'diff'], repo)[1]
        out = tmp / 'demo'
        out.mkdir()
        (out / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (out / 'demo.py').write_text(b['demo'].strip() + '\n')
        rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], repo)
        if rc != 0 or '68 passed' not in o:
            return 'tests notice: ' + o[-600:]
        rc, o1 = sh(['bash', str(out / 'demo.sh')], repo)
        if rc == 0:
            return 'demo passes with the change'
        sh(['git', 'checkout', '--', '.'], repo)
        rc, o = sh(['bash', str(out / 'demo.sh')], repo)
        if rc != 0:
            return 'demo fails on the unchanged tree: ' + o[-800:]
        dest = SEEDED / b['id']
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        (dest / 'patch.diff').write_text(diff)
        (dest / 'meta.json').write_text(json.dumps(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1, ensure_ascii=False) + '\n')
        return 'ok; demo with the change ends: ' + (o1.strip().splitlines() or ['(no message)'])[-1][:200]
    finally:
        shutil.rmtree(tmp)


def run_one(args):
    id, checks, seed = args
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='plant-'))
    out = []
    try:
        copy(tmp / 'repo')
        shutil.copytree(VERIF, tmp / 'verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays'))
        rc, o = sh(['git', 'apply', str(SEEDED / id / 'patch.diff')], tmp / 'repo')
        if rc:
            return id, [('apply', rc, o)]
        for c in checks or [json.loads((SEEDED / id / 'meta.json').read_text())['property']]:
            rc, o = sh(['./check', c], tmp / 'verif', timeout=900, env={**ENV, 'PBT_REPO': str(tmp / 'repo'), 'VERIF_SEED': str(seed)})
            caught = rc == 1 and f'VIOLATION property={c} ' in o
            out.append((c, 'caught' if caught else rc, re.findall(r'(\S+: \d+ cases.*)', o)[-1:], o[-1500:] if not caught else o[-900:]))
        return id, out
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--checks')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'make':
        bugs = runpy.run_path(a.args[0])['BUGS']
        bugs = [b for b in bugs if len(a.args) == 1 or b['id'] in a.args[1:]]
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            for b, r in zip(bugs, ex.map(make, bugs)):
                print(b['id'], r, flush=True)
    else:
        ids = a.args or sorted(p.name for p in SEEDED.iterdir())
        checks = [f'C{i:02}' for i in range(1, 100) if (VERIF / f'pbt/props/c{i:02}.py').exists()] if a.all else a.checks.split() if a.checks else None
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            for id, res in ex.map(run_one, [(i, checks, a.seed) for i in ids]):
                for c, r, n, o in [(x + ('', ''))[:4] for x in res]:
                    print(id, c, r, *n, flush=True)
                    if a.v or r != 'caught' and not a.all:
                        print(o)


main()
