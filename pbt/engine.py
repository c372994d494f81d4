"""
The engine that runs one property's tests.

A property module `pbt.props.cNN` exposes

    PROPERTY = 'C01'
    RULE     = 'how cases are made, and what makes one non-trivial'
    TESTS    = [Test(...), ...]
    ASSUMPTIONS = [...]               (optional)

A Test couples a Hypothesis strategy producing *plain JSON data* (the case) with a function
`check(case, obs)` that raises CheckFailed when the property is violated by that case.  Because cases
are plain data, a shrunk failure is written out as a JSON replay file which is re-run without Hypothesis.

Every (test, shard) pair runs in its own forked worker, with its own seed derived from VERIF_SEED.

Exit status: 0 held on everything explored; 1 + "VIOLATION property=.. replay=.." broken;
2 the harness itself failed; 3 a time budget ran out without a verdict.
"""
from __future__ import annotations

import argparse
import dataclasses
import hashlib
import importlib
import json
import multiprocessing
import os
import pathlib
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from typing import Any, Callable

from . import env  # noqa: F401  (must come before hypothesis / peyl)

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO_PREFIX = env.REPO.rstrip('/') + '/'


class CheckFailed(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


def expect(cond: Any, msg: str | Callable[[], str] = ''):
    if not cond:
        raise CheckFailed(msg() if callable(msg) else msg)


def expect_eq(got: Any, want: Any, what: str = ''):
    try:
        same = bool(got == want)
    except Exception as e:  # comparison of odd types, e.g. arrays
        raise CheckFailed(f'{what}: got {got!r}, wanted {want!r} (comparison failed: {e})')
    if not same:
        raise CheckFailed(f'{what}: got {short(got)}, wanted {short(want)}')


def short(x: Any, n: int = 700) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + f'...[{len(s)} chars]'


def raises(f: Callable[[], Any], *excs: type[BaseException]):
    """Return the exception f raises if it is one of the given kinds, or None if it returned."""
    try:
        f()
    except excs as e:
        return e
    return None


class Obs:
    """What one case tells us: labels for the distribution, and whether it was non-trivial."""

    def __init__(self):
        self.labels: list[str] = []
        self.is_nontrivial = False

    def label(self, *names: str):
        self.labels += names

    def nontrivial(self, cond: Any = True):
        if cond:
            self.is_nontrivial = True

    def bucket(self, name: str, value: int, edges=(0, 1, 2, 5, 10, 20, 50, 100, 200)):
        lo = None
        for e in edges:
            if value >= e:
                lo = e
        self.labels.append(f'{name}>={lo}' if lo is not None else f'{name}<{edges[0]}')


@dataclasses.dataclass
class Test:
    name: str
    strategy: Callable[[], Any]          # () -> hypothesis strategy of plain data
    check: Callable[[Any, Obs], None]
    quick: int = 300                     # cases per shard
    thorough: int = 5000
    shards: int = 1
    thorough_shards: int = 8
    corpus: list = dataclasses.field(default_factory=list)   # extra fixed cases, always run


def classify(e: BaseException) -> BaseException:
    """
    An exception the check did not expect.  If it came up through the code under test, the code failed on an
    input of the property's domain: that is a violation.  So it is when the check function could not work with
    what the code gave it: an operator that is not supported, an attribute or an entry that is not there.
    Anything else (no memory, no file, a name that does not exist) is the harness's own trouble.
    """
    if isinstance(e, (CheckFailed, HarnessError)):
        return e
    tb = e.__traceback__
    in_repo = any(f.filename.startswith(REPO_PREFIX) for f in traceback.extract_tb(tb))
    text = ''.join(traceback.format_exception(type(e), e, tb))[-1800:]
    if in_repo:
        return CheckFailed(f'unexpected {type(e).__name__}: {e}\n{text}')
    if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError, StopIteration)):
        return CheckFailed(f'the answer could not be worked with: {type(e).__name__}: {e}\n{text}')
    return HarnessError(f'{type(e).__name__}: {e}\n{text}')


def canonical(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


CASE_SECONDS = int(os.environ.get('PBT_CASE_SECONDS', 150))           # a case takes a second or two at most: past this, the code under test is not terminating


def no_answer(signum, frame):
    raise CheckFailed(f'no answer after {CASE_SECONDS} seconds')


def run_case(test: Test, case: Any, obs: Obs):
    """Run one case, raising CheckFailed / HarnessError only."""
    # Check functions get the data in the form a replay file gives it.
    case = json.loads(canonical(case))
    state = random.getstate()
    signal.signal(signal.SIGALRM, no_answer)
    signal.alarm(CASE_SECONDS)
    try:
        test.check(case, obs)
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        c = classify(e)
        if c is e:
            raise
        raise c from None
    finally:
        signal.alarm(0)
        random.setstate(state)


def worker(test: Test, prop: str, seed: int, count: int, outfile: str):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as _ce
    if hasattr(_ce, 'MAX_SHRINKING_SECONDS'):
        _ce.MAX_SHRINKING_SECONDS = 45

    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    stats: dict[str, Any] = dict(
        name=test.name, evaluations=0, nontrivial=0, hashes=set(), labels={}, samples=[],
        failure=None, harness=None, done=False,
    )
    best: dict[str, Any] = {'size': None}

    def dump():
        tmp = outfile + '.tmp'
        with open(tmp, 'wb') as f:
            pickle.dump(stats, f)
        os.replace(tmp, outfile)

    def one(case):
        obs = Obs()
        stats['evaluations'] += 1
        try:
            run_case(test, case, obs)
        except CheckFailed as e:
            text = canonical(case)
            key = (len(text), text)
            if best['size'] is None or key <= best['size']:
                best['size'] = key
                stats['failure'] = dict(test=test.name, case=json.loads(text), message=str(e)[:3000])
                dump()
            raise
        for l in obs.labels:
            stats['labels'][l] = stats['labels'].get(l, 0) + 1
        if obs.is_nontrivial:
            text = canonical(case)
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in stats['hashes']:
                stats['hashes'].add(h)
                k = len(stats['hashes'])
                if k in (1, 20, 100) and len(stats['samples']) < 3:
                    stats['samples'].append(dict(test=test.name, case=text if len(text) <= 900 else text[:900] + '...'))

    try:
        for case in corpus_cases(prop, test):
            one(case)
        if count > 0:
            prop_fn = hypothesis.given(test.strategy())(one)
            prop_fn = settings(
                max_examples=count,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
            )(prop_fn)
            prop_fn = hypothesis.seed(seed)(prop_fn)
            prop_fn()
    except CheckFailed:
        pass
    except HarnessError as e:
        stats['harness'] = str(e)
    except hypothesis.errors.Flaky as e:
        # A failing case that passes when repeated.  Keep the failure if we have it: run_case is a function of the
        # case, so this says that the code under test depends on its history.
        if stats['failure'] is None:
            stats['harness'] = f'flaky: {e}'
        else:
            stats['failure']['message'] += '\n(note: did not fail on every repetition in the same process)'
    except BaseException as e:  # noqa: BLE001
        if stats['failure'] is None:
            stats['harness'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    stats['done'] = True
    dump()


def corpus_cases(prop: str, test: Test):
    yield from test.corpus
    d = VERIF / 'corpus' / prop
    if d.is_dir():
        for f in sorted(d.glob('*.json')):
            data = json.loads(f.read_text())
            if data['test'] == test.name:
                yield data['case']


def load(prop: str):
    mod = importlib.import_module(f'pbt.props.{prop.lower()}')
    assert mod.PROPERTY == prop
    return mod


def write_replay(prop: str, failure: dict) -> str:
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    h = hashlib.blake2b(canonical(failure['case']).encode(), digest_size=6).hexdigest()
    path = d / f"{prop}-{failure['test']}-{h}.json"
    path.write_text(json.dumps(dict(property=prop, **failure), indent=1, sort_keys=True) + '\n')
    return str(path)


def replay(prop: str, path: str) -> int:
    mod = load(prop)
    data = json.loads(pathlib.Path(path).read_text())
    test = next(t for t in mod.TESTS if t.name == data['test'])
    obs = Obs()
    try:
        run_case(test, data['case'], obs)
    except CheckFailed as e:
        print(e)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    except HarnessError as e:
        print(e, file=sys.stderr)
        return 2
    print(f'replay of {path}: the property holds on this case')
    return 0


def known_findings(prop: str) -> list[dict]:
    """Findings recorded in known_findings.txt as 'known: property=<id> test=<name> case=<json> <text>' lines."""
    out = []
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f'known: property={prop} '):
                head, text = line.split(' :: ', 1)
                fields = dict(x.split('=', 1) for x in head[len('known: '):].split(' ', 2))
                out.append(dict(test=fields['test'], case=json.loads(fields['case']), text=text))
    return out


def still_fails(test: Test, case: Any) -> bool:
    """Run the case of a listed finding, in a process of its own."""
    def target():
        try:
            run_case(test, case, Obs())
        except CheckFailed:
            os._exit(1)
        os._exit(0)
    p = multiprocessing.get_context('fork').Process(target=target)
    p.start()
    p.join(CASE_SECONDS + 10)
    if p.exitcode is None:
        p.kill()
    return p.exitcode == 1


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='run only tests with this name')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--labels', action='store_true')
    args = ap.parse_args(argv)
    if args.replay:
        return replay(args.prop, args.replay)

    start = time.time()
    mod = load(args.prop)
    budget = 600 if args.tier == 'quick' else 7200

    jobs = []
    for ti, test in enumerate(mod.TESTS):
        if args.only and test.name != args.only:
            continue
        shards = test.shards if args.tier == 'quick' else test.thorough_shards
        count = test.quick if args.tier == 'quick' else test.thorough
        for s in range(shards):
            seed = zlib.crc32(f'{args.prop}/{test.name}/{s}/{args.seed}'.encode())
            jobs.append((test, s, seed, int(count * args.scale)))

    tmp = tempfile.mkdtemp(prefix='pbt-')
    ctx = multiprocessing.get_context('fork')
    pending, running, finished = list(jobs), [], []
    failure = None
    timed_out = False
    try:
        while (pending or running) and failure is None:
            while pending and len(running) < args.jobs:
                test, s, seed, count = pending.pop(0)
                out = os.path.join(tmp, f'{test.name}.{s}')
                p = ctx.Process(target=worker, args=(test, args.prop, seed, count, out), daemon=False)
                p.start()
                running.append((p, out, test, s, time.time()))
            time.sleep(0.02)
            still = []
            for item in running:
                p, out, test, s, t0 = item
                if p.is_alive():
                    still.append(item)
                    continue
                p.join()
                if os.path.exists(out):
                    with open(out, 'rb') as f:
                        st = pickle.load(f)
                    st['exit'], st['secs'] = p.exitcode, time.time() - t0
                else:
                    st = dict(name=test.name, evaluations=0, hashes=set(), labels={}, samples=[], failure=None,
                              harness=f'worker died with exit code {p.exitcode}', done=False, secs=time.time() - t0)
                if not st['done'] and st['failure'] is None and st['harness'] is None:
                    st['harness'] = f'worker died with exit code {p.exitcode}'
                finished.append(st)
                if st['failure'] is not None and failure is None:
                    failure = st['failure']
            running = still
            if time.time() - start > budget:
                timed_out = True
                break
        # Stop whatever is left; a failure already found (but still being shrunk) elsewhere is kept.
        for p, out, test, s, t0 in running:
            p.terminate()
        for p, out, test, s, t0 in running:
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    st = pickle.load(f)
                st['secs'] = time.time() - t0
                st['killed'] = True
                finished.append(st)
                if st['failure'] is not None and failure is None:
                    failure = st['failure']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    finished.sort(key=lambda s: s['name'])
    per_test: dict[str, Any] = {}
    all_hashes, samples = 0, []
    for st in finished:
        t = per_test.setdefault(st['name'], dict(evaluations=0, distinct_nontrivial=0, labels={}, hashes=set(), secs=0.0))
        t['evaluations'] += st['evaluations']
        t['hashes'] |= st['hashes']
        t['secs'] = round(max(t['secs'], st['secs']), 2)
        for k, v in st['labels'].items():
            t['labels'][k] = t['labels'].get(k, 0) + v
        if len([x for x in samples if x['test'] == st['name']]) < 2:
            samples += st['samples'][:2]
    for t in per_test.values():
        t['distinct_nontrivial'] = len(t.pop('hashes'))
        t['labels'] = dict(sorted(t['labels'].items()))
        all_hashes += t['distinct_nontrivial']

    harness = [st for st in finished if st['harness']]
    evidence = dict(
        property=args.prop,
        tier=args.tier,
        seed=args.seed,
        level='exploration',
        coverage=dict(
            evaluations=sum(st['evaluations'] for st in finished),
            distinct_nontrivial=all_hashes,
            rule=mod.RULE,
            samples=samples[:12],
            per_test=per_test,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - start, 2),
        violations=1 if failure else 0,
    )
    evdir = VERIF / 'evidence'
    evdir.mkdir(exist_ok=True)
    (evdir / f'{args.prop}.json').write_text(json.dumps(evidence, indent=1) + '\n')

    for k in known_findings(args.prop):
        test = next(t for t in mod.TESTS if t.name == k['test'])
        if still_fails(test, k['case']):
            print(f"KNOWN-FINDING: property={args.prop} {k['text']}")
        else:
            print(f"{args.prop}: a listed finding no longer fails: {k['text']}")
    for name, t in per_test.items():
        print(f"{args.prop} {name}: {t['evaluations']} cases, {t['distinct_nontrivial']} distinct non-trivial, {t['secs']}s")
        if args.labels:
            for k, v in t['labels'].items():
                print(f'      {k}: {v}')
    print(f"{args.prop}: {evidence['coverage']['evaluations']} cases, {all_hashes} distinct non-trivial, {evidence['wall_s']}s, tier {args.tier}, seed {args.seed}")
    for st in harness:
        print(f"HARNESS ERROR in {st['name']}: {st['harness']}", file=sys.stderr)

    if failure is not None:
        path = write_replay(args.prop, failure)
        print(failure['message'])
        print('case: ' + short(failure['case'], 1500))
        print(f'VIOLATION property={args.prop} replay={path}')
        return 1
    if harness:
        return 2
    if timed_out:
        print('time budget exhausted: inconclusive', file=sys.stderr)
        return 3
    return 0


if __name__ == '__main__':
    # Run through the importable module so that classes are the same objects everywhere.
    from pbt.engine import main as _main
    sys.exit(_main())
