"""C15: the search script, end to end: what it prints and saves is true, complete, reproducible, and survives being stopped."""
import ast
import os
import re
import runpy
import shutil
import sqlite3
import sys
import tempfile
import time
import traceback

from hypothesis import strategies as st

from .. import env
from ..engine import CheckFailed, HarnessError, Test, expect, expect_eq
from ..trackers import extensions, image_of, key_of
from peyl import GNF

PROPERTY = 'C15'
RULE = ('runs of search.py in a child process with a scratch database, for n = 3 to 5, all r, p = 2 to 7, all limits and step sizes; '
        'every printed element and saved row is recomputed independently; when no bucket overflows, the whole search is compared with '
        'a model of it; runs are repeated and stopped at arbitrary points. Non-trivial: the run saved rows for two lengths or printed a '
        'near-kernel element')
ASSUMPTIONS = ['a run is ended from its output stream once it has processed the wanted number of lengths, as a user would with Ctrl-C or kill',
               'the pause before the search starts is skipped']

NEAR = re.compile(r'\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form \((-?\d+), (\[.*\])\)')

SAVING = re.compile(r'Saving \d+ braids of length (\d+) to the database')


class Stop(BaseException):
    pass


class Out:
    """Standard output for the script: ends the run after some number of lengths or writes."""

    def __init__(self, path, lengths, writes, how):
        self.f = open(path, 'w')
        self.lengths, self.writes, self.how = lengths, writes, how
        self.seen = 0

    def write(self, text):
        if self.writes is not None:
            if self.writes == 0:
                self.end()
            self.writes -= 1
        self.seen += text.count('------- Length')
        if self.seen > self.lengths:
            self.end()
        self.f.write(text)

    def end(self):
        self.f.flush()
        if self.how == 'kill':
            os._exit(0)
        raise KeyboardInterrupt if self.how == 'interrupt' else Stop

    def flush(self):
        self.f.flush()


def run(args, scratch, lengths, writes=None, how='stop', name='db'):
    """Run the script in a child; gives (output, ended by itself?, rows)."""
    out, db = os.path.join(scratch, 'out'), os.path.join(scratch, name or 'none')
    err = os.path.join(scratch, 'err')
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.chdir(scratch)
            sys.argv = ['search.py', *args] + (['--database', db] if name else [])
            sys.stdout = Out(out, lengths, writes, how)
            time.sleep = lambda s: None
            try:
                runpy.run_path(env.REPO + '/search.py', run_name='__main__')
                code = 0
            except (Stop, KeyboardInterrupt):
                code = 3
            sys.stdout.flush()
        except BaseException:
            with open(err, 'w') as f:
                traceback.print_exc(file=f)
        finally:
            os._exit(code)
    try:
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    if status == 9 << 8 or os.WIFSIGNALED(status):
        text = open(err).read() if os.path.exists(err) else f'status {status}'
        if env.REPO + '/' in text:
            raise CheckFailed(f'search.py {" ".join(args)} failed: {text[-1500:]}')
        raise HarnessError(text)
    rows = []
    if os.path.exists(db):
        conn = sqlite3.connect(db)
        try:
            if conn.execute("SELECT count(*) FROM sqlite_master WHERE name = 'good_braids'").fetchone()[0]:
                rows = conn.execute('SELECT n, r, p, length, projlen, gnf FROM good_braids ORDER BY rowid').fetchall()
            expect_eq(conn.execute('PRAGMA integrity_check').fetchone()[0], 'ok', 'integrity of the database')
        finally:
            conn.close()
    return open(out).read() if os.path.exists(out) else '', os.WEXITSTATUS(status) == 0 and how != 'kill', rows


OPTIONS = dict(bootstrap='--bootstrap-length', bucket='--bucket-size', use='--use-best', save='--save-best', step='--step-size', seed='--seed')
DEFAULTS = dict(bootstrap=6, bucket=3000, use=50000, save=500, step=1, seed=1)


def arguments(case):
    args = [case['n'], case['r'], case['p']]
    for key, option in OPTIONS.items():
        if key not in case.get('omit', []):
            args += [option, case[key]]
    if case['stop']:
        args.append('--stop-at-projlen-1')
    return [str(x) for x in args]


def near_kernel(output, case):
    """The printed elements, as sequences, once checked to be what the output says."""
    n, r, p = case['n'], case['r'], case['p']
    out = []
    for line in output.splitlines():
        if 'near-kernel element' not in line:
            continue
        m = NEAR.fullmatch(line.strip())
        expect(m, f'line not understood: {line}')
        expect_eq([int(x) for x in m.group(1, 2, 3)], [n, r, p], 'representation printed')
        seq = tuple(tuple(x) for x in ast.literal_eval(m.group(6)))
        expect_eq((int(m.group(4)), int(m.group(5))), (len(seq), 0), f'length and infimum printed in {line}')
        b = GNF.from_word_seq(n, seq) if hasattr(GNF, 'from_word_seq') else None
        key = ('GNF', 0, seq)
        if b is not None:
            expect_eq(key_of(b, n), key, 'normal form printed')
        last = None
        for x in seq:
            expect(x in [tuple(y[0]) for y in extensions(n, 'GNF', last, 1)], lambda: f'{seq} is not a normal form')
            last = x
        expect_eq(image_of(n, r, p, key).shape[-1], 1, f'projective length of the printed near-kernel element {seq}')
        out.append(seq)
    return out


def read_rows(rows, case):
    """The rows saved, as (length, projlen, seq)."""
    n, r, p = case['n'], case['r'], case['p']
    out = []
    for row in rows:
        expect_eq(row[:3], (n, r, p), 'representation saved')
        b = GNF(*ast.literal_eval(row[5]))
        key = key_of(b, n)
        expect_eq(key[1], 0, 'power of a saved braid')
        expect_eq(row[3:5], (len(key[2]), image_of(n, r, p, key).shape[-1]), f'length and projlen of the saved braid {key}')
        out.append((row[3], row[4], key[2]))
    return out


def fitted(case):
    """The case, with limits which some of the buckets of the first lengths just fit."""
    if not case.get('fit'):
        return case
    totals: list[int] = []
    model(dict(case, lengths=min(case['lengths'], 2)), totals)
    if not totals:
        return case
    return dict(case, **{limit: totals[(case['which'] + i) % len(totals)] for i, limit in enumerate(case['fit'])})


def model(case, totals=None):
    """
    What the search does when no bucket overflows: (printed, saved) for each length processed, and whether it stops there.
    None if a bucket overflows, or if there is too much to do.
    """
    n, r, p = case['n'], case['r'], case['p']
    buckets: dict[tuple, set] = {}

    def offer(seqs):
        for s in seqs:
            buckets.setdefault((len(s), image_of(n, r, p, ('GNF', 0, s)).shape[-1]), set()).add(s)

    for L in range(1, case['bootstrap'] + 1):
        offer(extensions(n, 'GNF', None, L))
    steps = []
    k = case['bootstrap'] - case['step'] + 1
    for length in range(k, k + case['lengths']):
        if any(len(b) > case['bucket'] for b in buckets.values()) or sum(map(len, buckets.values())) > 6000:
            return None
        printed = {s for (_, pl), b in buckets.items() if pl == 1 for s in b}
        order = sorted(pl for (L, pl) in buckets if L == length)

        def upto(limit):
            out, total = [], 0
            for pl in order:
                total += len(buckets[length, pl])
                if totals is not None:
                    totals.append(total)
                if total > limit:
                    break
                out.append(pl)
            return out
        saved = {(length, pl, s) for pl in upto(case['save']) for s in buckets[length, pl]}
        stop = bool(printed) and case['stop']
        steps.append((printed, saved, stop))
        if stop:
            break
        selected = [s for pl in upto(case['use']) for s in buckets[length, pl]]
        if len(selected) * (8 if n <= 4 else 25) ** case['step'] > 8000:
            return None
        for s in selected:
            for L in range(1, case['step'] + 1):
                offer([s + t for t in extensions(n, 'GNF', s[-1] if s else None, L)])
        for tag in [t for t in buckets if t[0] <= length]:
            del buckets[tag]
    if any(len(b) > case['bucket'] for b in buckets.values()):
        return None
    return steps


def check(case, obs):
    case = fitted(case)
    scratch = tempfile.mkdtemp(prefix='search-')
    try:
        args = arguments(case)
        output, finished, rows = run(args, scratch, case['lengths'])
        printed = near_kernel(output, case)
        saved = read_rows(rows, case)
        steps = model(case)
        by_length: dict[int, list] = {}
        for L, pl, s in saved:
            by_length.setdefault(L, []).append((pl, s))
        for L, items in by_length.items():
            expect(len(items) <= case['save'], lambda: f'{len(items)} braids of length {L} were saved, against a limit of {case["save"]}')
            for q in {pl for pl, _ in items}:
                expect(sum(pl == q for pl, _ in items) <= case['bucket'], lambda: f'more braids saved from bucket {(L, q)} than it can hold')
        if case['stop'] and printed:
            expect(finished, 'the search went on after finding near-kernel elements')
        if steps is not None:
            expect_eq(finished, steps[-1][2], 'whether the search stopped by itself')
            want = sorted(s for st_ in steps for s in st_[0])
            if case['step'] == 1:
                expect_eq(sorted(printed), want, 'near-kernel elements printed')
            else:
                expect_eq(set(printed), set(want), 'near-kernel elements printed')
            expect_eq(sorted(saved), sorted(x for st_ in steps for x in st_[1]), 'braids saved')
        # Again, the same; on the database of the first run, whose rows stay.
        output2, finished2, rows2 = run(args, scratch, case['lengths'])
        expect_eq(near_kernel(output2, case), printed, 'near-kernel elements printed by a second run')
        expect(rows2 == rows + rows, lambda: f'a second run on the same database left {len(rows2)} rows after {len(rows)} in the first')
        expect_eq(finished2, finished, 'whether the second run stopped by itself')
        obs.label(f"n={case['n']} r={case['r']}", 'modelled' if steps is not None else 'not modelled', f"step={case['step']}",
                  'stopped' if finished else 'went on', 'limits which just fit' if case.get('fit') else 'any limits')
        obs.bucket('printed', len(printed))
        obs.bucket('saved', len(saved))
        obs.nontrivial(len(by_length) >= 2 or printed)
    finally:
        shutil.rmtree(scratch)


def check_plain(case, obs):
    """With options left out, and without a database."""
    scratch = tempfile.mkdtemp(prefix='search-')
    try:
        args = arguments(case)
        output, finished, _ = run(args, scratch, case['lengths'], name=None)
        expect(set(os.listdir(scratch)) <= {'out', 'err'}, lambda: f'without a database, a run leaves {os.listdir(scratch)}')
        expect('Saving' not in output and 'Saved' not in output, 'without a database, a run says it saves')
        output2, finished2, rows = run(args, scratch, case['lengths'])
        printed = near_kernel(output, case)
        expect_eq((near_kernel(output2, case), finished2), (printed, finished), 'the same run with a database')
        saved = read_rows(rows, case)
        steps = model(case)
        if steps is not None:
            expect_eq(set(printed), {s for st_ in steps for s in st_[0]}, 'near-kernel elements printed')
            expect_eq(sorted(saved), sorted(x for st_ in steps for x in st_[1]), 'braids saved')
        obs.label('modelled' if steps is not None else 'not modelled', *case['omit'])
        obs.nontrivial(len(case['omit']) >= 2 and (saved or printed))
    finally:
        shutil.rmtree(scratch)


def plain():
    return st.tuples(cases([(3, 0), (3, 1), (3, 1)])(), st.lists(st.sampled_from(sorted(OPTIONS)), unique=True)).map(
        lambda t: {**t[0], 'fit': [], 'omit': t[1], **{k: DEFAULTS[k] for k in t[1]}})


def check_crash(case, obs):
    """Stopped at any point, what is in the database is what a whole run saves for the lengths it had got to."""
    scratch = tempfile.mkdtemp(prefix='search-')
    try:
        args = arguments(case)
        output, _, rows = run(args, scratch, case['lengths'])
        point = int(case['point'] / 1000 * (2 * output.count('\n') + 2))
        said, _, partial = run(args, scratch, case['lengths'], point, case['how'], 'db2')
        expect(partial == rows[:len(partial)], lambda: f'stopped at write {point}, the database has rows that a whole run does not start with')
        if 0 < len(partial) < len(rows):
            expect(partial[-1][3] != rows[len(partial)][3], lambda: f'stopped at write {point}, the database has only some of the braids of length {partial[-1][3]}')
            obs.nontrivial()
        # What it said it had saved is there.
        length = None
        for line in said.splitlines():
            if m := SAVING.search(line):
                length = int(m[1])
            elif 'Saved in' in line and length is not None:
                there, whole = ([r for r in x if r[3] == length] for x in (partial, rows))
                expect_eq(there, whole, f'rows of length {length}, which were announced as saved before the run was stopped at write {point}')
                obs.label('announced')
        obs.label(case['how'], 'none' if not partial else 'all' if len(partial) == len(rows) else 'some')
    finally:
        shutil.rmtree(scratch)


def cases(nr_list, extra=None):
    def f(nr):
        n, r = nr
        boot = {3: st.integers(1, 4), 4: st.sampled_from([1, 2, 2]), 5: st.just(1)}[n]
        step = {3: st.sampled_from([1, 1, 2, 3]), 4: st.sampled_from([1, 1, 1, 2]), 5: st.just(1)}[n]
        lim = st.sampled_from([1, 3, 10, 40, 200, 100000])
        return st.fixed_dictionaries(dict(
            n=st.just(n), r=st.just(r), p=st.sampled_from([2, 2, 3, 5, 7]), bootstrap=boot, step=step, bucket=st.sampled_from([1, 4, 20, 300, 100000, 100000]),
            use=lim if n == 3 else st.sampled_from([1, 3, 10, 40, 150]), save=lim, seed=st.integers(0, 1000), stop=st.booleans(),
            lengths=st.integers(1, 6 if n == 3 else 4 if n == 4 else 2),
            fit=st.sampled_from([[], ['use'], ['save'], ['use', 'save']]), which=st.integers(0, 20), **(extra or {})))
    return lambda: st.sampled_from(nr_list).flatmap(f)


def big():
    """So much in the first buckets that a few hundred braids at a time would not do."""
    return st.sampled_from([(3, 8), (3, 9), (3, 10), (4, 3), (4, 3)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.integers(0, t[0] // 2), p=st.sampled_from([2, 3, 5]), bootstrap=st.just(t[1]), step=st.just(1),
        bucket=st.one_of(st.just(100000), st.integers(100, 3000)), use=st.sampled_from([1, 100, 1000]), save=st.one_of(st.just(100000), st.integers(100, 3000)),
        seed=st.integers(0, 1000), stop=st.just(False), lengths=st.integers(1, 2), fit=st.sampled_from([[], ['save'], ['bucket']]), which=st.integers(0, 20))))


def far():
    """Long enough for projective lengths of one and of two digits, with only some of the buckets carried forward and saved."""
    lim = st.one_of(st.integers(1, 120), st.integers(121, 500))
    return st.fixed_dictionaries(dict(
        n=st.just(4), r=st.sampled_from([1, 2]), p=st.sampled_from([2, 3, 5]), bootstrap=st.integers(2, 3), step=st.just(1), bucket=st.just(100000), use=lim, save=lim,
        seed=st.integers(0, 1000), stop=st.just(False), lengths=st.integers(1, 4), fit=st.sampled_from([[], [], ['use'], ['save'], ['use', 'save']]), which=st.integers(0, 40)))


RS = [(3, 1), (3, 1), (3, 0), (4, 1), (4, 1), (4, 2), (4, 2), (4, 0)]
# The example of the README, cut down to what it says must happen.
README = dict(n=4, r=1, p=2, bootstrap=3, step=1, bucket=10, use=100, save=500, seed=1, stop=True, lengths=12)
TESTS = [
    Test('runs', cases(RS), check, quick=30, thorough=500, shards=5),
    Test('big', big, check, quick=6, thorough=60, shards=2, corpus=[dict(n=4, r=0, p=2, bootstrap=3, step=1, bucket=100000, use=1, save=100000, seed=1, stop=False, lengths=1, fit=[], which=0)]),
    Test('plain', plain, check_plain, quick=25, thorough=300, shards=2),
    Test('far', far, check, quick=15, thorough=300, shards=3),
    Test('readme', lambda: st.integers(1, 50).map(lambda s: dict(README, seed=s)), check, quick=2, thorough=40, corpus=[README]),
    Test('runs5', cases([(5, 1), (5, 2)]), check, quick=4, thorough=60),
    Test('stopped', lambda: cases(RS, dict(point=st.integers(0, 1000), how=st.sampled_from(['kill', 'interrupt'])))().map(
        lambda c: dict(c, save=100000, stop=False, lengths=max(3, c['lengths']), point=1000 - c['point'])), check_crash, quick=40, thorough=600, shards=2),
]
