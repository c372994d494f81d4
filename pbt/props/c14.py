"""C14: what survives in a full bucket is a fair sample of everything the bucket was offered."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from ..engine import Test, expect, expect_eq
from ..trackers import key_of
from peyl import DGNF, GNF, JonesCellRep, bucketing
from peyl import braidsearch as bs

PROPERTY = 'C14'
RULE = ('streams of 2 to 12 distinct braids falling in one bucket of capacity 1 to 8 (and of hundreds, over up to three buckets of capacity up to 40), offered in any division into batches, with equal '
        'or unequal weights, in 1500 or more independent trials; the number of trials in which each braid (for equal weights, each '
        'pair of braids) is kept must be within 6.5 standard deviations of what fairness gives. Non-trivial: the stream is longer '
        'than the capacity')
ASSUMPTIONS = ['the trackers draw from the random.Random they are given, which is taken to be fair',
               'weighted streams start with as many equal weights as the capacity, and no weight exceeds its share: only then are '
               'inclusion probabilities in proportion to weights possible for a one-pass reservoir of this kind',
               'a deviation of 6.5 standard deviations has probability below 1e-10: with a fixed seed the run is deterministic']
SIGMAS = 6.5
REP3, REP4, SUMMAND = JonesCellRep(3, 0), JonesCellRep(4, 0), bs.JonesSummand(3, 0)


class Weights(bucketing.BraidStatBase):
    """The weight of Delta^k is the k-th of the stream's weights."""
    name = 'w'
    current: list = []

    @staticmethod
    def calculate(rep, braids, images):
        return [float(Weights.current[b.canonical_decomposition()[0]]) for b in braids]


def cut(items, cuts):
    marks = sorted({c % (len(items) + 1) for c in cuts} | {0, len(items)})
    return [items[a:b] for a, b in zip(marks, marks[1:])]


def kept_by(t):
    (tag,) = list(t.buckets)
    braids, _ = t.bucket_braids_images(tag)
    return [b.canonical_decomposition()[0] for b in braids]


def within(count, trials, prob, what):
    sd = math.sqrt(trials * prob * (1 - prob))
    expect(abs(count - trials * prob) <= SIGMAS * sd + 1e-9,
           lambda: f'{what}: kept {count} times in {trials}, expected {trials * prob:.1f} (standard deviation {sd:.1f})')


def trial_counts(case, one_trial, N, k):
    rand = random.Random(case['seed'])
    singles, pairs = [0] * N, {}
    for _ in range(case['trials']):
        got = one_trial(rand)
        expect(len(got) == k and len(set(got)) == k and all(0 <= x < N for x in got), lambda: f'kept {got} of {N} with room for {k}')
        for x in got:
            singles[x] += 1
        got = sorted(got)
        for i, x in enumerate(got):
            for y in got[i + 1:]:
                pairs[x, y] = pairs.get((x, y), 0) + 1
    return singles, pairs


def judge(case, one_trial, N, k, obs, weights=None):
    singles, pairs = trial_counts(case, one_trial, N, k)
    T = case['trials']
    W = sum(weights) if weights else None
    for i in range(N):
        within(singles[i], T, min(1.0, k * weights[i] / W) if weights else k / N, f'item {i} of {N} (capacity {k})')
    if not weights and N > 2:
        q = k * (k - 1) / (N * (N - 1))
        for i in range(N):
            for j in range(i + 1, N):
                within(pairs.get((i, j), 0), T, q, f'items {i} and {j} of {N} together (capacity {k})')
    obs.label(f'capacity={k}', f'stream={N}')
    obs.nontrivial(N > k)


def check_uniform(case, obs):
    N, k = case['N'], min(case['capacity'], case['N'])
    items = [GNF(3, i, ()) for i in range(N)]
    batches = cut(items, case['cuts'])
    ones = np.ones((N, 1, 1, 1), dtype=np.int64)
    # Uniform sampling takes no notice of the weights.
    uniform = case['method'] == 'Uniform'
    Weights.current = [case['unit'] * (1 + (i * i + 3 * i) % 7) if uniform else case['unit'] for i in range(N)]

    def one_trial(rand):
        t = bucketing.Tracker(REP3, k, [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength], [], reservoir_method=case['method'],
                              reservoir_weight=Weights if uniform or case['unit'] != 1 else None, rand=rand)
        for b in batches:
            t.add_braids_images(b, ones[:len(b)])
        return kept_by(t)
    judge(case, one_trial, N, k, obs)
    obs.label(case['method'], f'batches={len(batches)}')


def check_weighted(case, obs):
    """Capacity k, k equal weights first, then weights no larger than their share."""
    k, first = case['capacity'], case['first']
    ws = [first] * k
    for x in case['rest']:
        # k * w <= W + w  means  w <= W / (k - 1)
        top = x if k == 1 else min(x, sum(ws) // (k - 1))
        ws.append(top)
    if case['lead'] is not None and k == 1:
        ws[0] = case['lead']
    if not any(ws):
        return
    N = len(ws)
    Weights.current = [w * case['unit'] for w in ws]
    items = [GNF(3, i, ()) for i in range(N)]
    batches = cut(items, case['cuts'])
    ones = np.ones((N, 1, 1, 1), dtype=np.int64)

    def one_trial(rand):
        t = bucketing.Tracker(REP3, k, [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength], [], reservoir_method='AChao',
                              reservoir_weight=Weights, rand=rand)
        for b in batches:
            t.add_braids_images(b, ones[:len(b)])
        return kept_by(t)
    judge(case, one_trial, N, k, obs, ws)
    obs.label('has zero weight' if 0 in ws else 'all positive')
    obs.is_nontrivial = N > k and len(set(ws)) > 1


def check_long(case, obs):
    """Longer streams over two buckets, perhaps after a discard: how many are kept from each part of what a bucket was offered."""
    k, T = case['capacity'], case['trials']
    sizes = [k + x for x in case['more']]
    rand = random.Random(case['order'])
    # Braid number i of bucket j, in a generated order of arrival.
    where = [j for j, N in enumerate(sizes) for _ in range(N)]
    rand.shuffle(where)
    seen, items = [0] * len(sizes), []
    for j in where:
        items.append(GNF(3, seen[j], (FACTOR,) * j))
        seen[j] += 1
    batches = cut(items, [c * len(items) // 100 for c in case['cuts']])
    before = [GNF(3, i, (FACTOR,) * j) for j in range(len(sizes)) for i in range(-case['before'], 0)]
    ones = np.ones((max(len(items), len(before)), 1, 1, 1), dtype=np.int64)
    Weights.current = {i: case['unit'] * (1 + (i * i + 3 * i) % 7 if case['method'] == 'Uniform' else 1) for i in range(-case['before'], max(sizes))}
    stats = [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength]
    kept = [[0] * N for N in sizes]
    trials = random.Random(case['seed'])
    for _ in range(T):
        if case['method'] == 'search':
            t = bs.Tracker(SUMMAND, k, ('length', 'projlen'), lambda df: [True] * len(df), rand=trials)
        else:
            t = bucketing.Tracker(REP3, k, stats, [], reservoir_method=case['method'], reservoir_weight=Weights if case['method'] == 'Uniform' or case['unit'] != 1 else None, rand=trials)
        if before:
            t.add_braids_images(before, ones[:len(before)])
            for tag in list(t.buckets):
                t.discard_bucket(tag)
        for b in batches:
            t.add_braids_images(b, ones[:len(b)])
        expect_eq(sorted(int(tag[0]) for tag in t.buckets), list(range(len(sizes))), 'buckets')
        for tag in t.buckets:
            braids, _ = t.bucket_braids_images(tag)
            j = int(tag[0])
            got = [b.canonical_decomposition()[0] for b in braids]
            expect(len(got) == k == len(set(got)) and all(0 <= x < sizes[j] and b.canonical_length() == j for x, b in zip(got, braids)), lambda: f'kept {got} of {sizes[j]} with room for {k}')
            for x in got:
                kept[j][x] += 1
    for j, N in enumerate(sizes):
        parts = 5
        edges = sorted({0, k, N} | {i * N // parts for i in range(parts)})
        for a, b in list(zip(edges, edges[1:])) + [(0, b) for b in edges[2:-1]] + [(N - 1, N)]:
            m = b - a
            mean, var = k * m / N, k * (m / N) * (1 - m / N) * (N - k) / max(N - 1, 1)
            got, sd = sum(kept[j][a:b]), math.sqrt(T * var)
            expect(abs(got - T * mean) <= SIGMAS * sd + 1e-9,
                   lambda: f'items {a} to {b - 1} of {N} (capacity {k}): kept {got} times in {T}, expected {T * mean:.1f} (standard deviation {sd:.1f})')
    obs.label(case['method'], f'buckets={len(sizes)}', 'after a discard' if before else 'at first')
    obs.nontrivial(min(sizes) > k)


# The index of some factor on three strands which can be repeated.
FACTOR = next(b.factors[0] for b in GNF.all_of_length(3, 1) if len((b * b).factors) == 2)


def check_search(case, obs):
    N, k = case['N'], min(case['capacity'], case['N'])
    items = [GNF(3, i, ()) for i in range(N)]
    batches = cut(items, case['cuts'])
    ones = np.ones((N, 1, 1, 1), dtype=np.int64)

    def one_trial(rand):
        t = bs.Tracker(SUMMAND, k, ('length', 'projlen'), lambda df: [True] * len(df), rand=rand)
        for b in batches:
            t.add_braids_images(b, ones[:len(b)])
        return kept_by(t)
    judge(case, one_trial, N, k, obs)
    obs.label(f'batches={len(batches)}')


def check_descend(case, obs):
    """The descendants of a bucket are kept as fairly as anything else."""
    cls, rep = {'GNF': (GNF, REP3), 'DGNF': (DGNF, REP4)}[case['kind']]
    start = cls(rep.n, 0, ())
    N = {'GNF': 4, 'DGNF': 12}[case['kind']]
    k = min(case['capacity'], N)
    index = {}
    one = np.ones((1, 1, 1, 1), dtype=np.int64)

    def one_trial(rand):
        t = bucketing.Tracker(rep, k, [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength], [], reservoir_method=case['method'], rand=rand)
        t.add_braids_images([start], one)
        t.nf_descendants((0, 1))
        braids, _ = t.bucket_braids_images((1, 1))
        return [index.setdefault(key_of(b, rep.n), len(index)) for b in braids]
    judge(case, one_trial, N, k, obs)
    obs.label(case['kind'])


base = dict(seed=st.integers(0, 2**32), cuts=st.lists(st.integers(0, 12), max_size=4))
marks = st.lists(st.integers(0, 100), max_size=5)
TESTS = [
    Test('uniform', lambda: st.fixed_dictionaries(dict(
        base, N=st.integers(2, 12), capacity=st.integers(1, 8), trials=st.just(1500), unit=st.sampled_from([1, 1, 0.25, 3]), method=st.sampled_from(['Uniform', 'AChao']))),
        check_uniform, quick=20, thorough=400, shards=3),
    Test('weighted', lambda: st.fixed_dictionaries(dict(
        base, capacity=st.sampled_from([1, 1, 2, 3, 4]), first=st.integers(1, 8), rest=st.lists(st.integers(0, 12), min_size=1, max_size=6), trials=st.just(1500),
        lead=st.sampled_from([None, 0, 1, 5, 20]), unit=st.sampled_from([1, 1, 0.25, 2.0**-30, 2.0**40, 0.1]))), check_weighted, quick=20, thorough=400, shards=3),
    Test('search', lambda: st.fixed_dictionaries(dict(base, N=st.integers(2, 10), capacity=st.integers(1, 8), trials=st.just(800))),
         check_search, quick=15, thorough=200, shards=4),
    Test('long', lambda: st.fixed_dictionaries(dict(
        seed=st.integers(0, 2**32), cuts=marks, capacity=st.sampled_from([1, 2, 3, 5, 10, 40]), more=st.lists(st.sampled_from([1, 2, 5, 20, 60, 150, 300]), min_size=1, max_size=3), trials=st.just(250), order=st.integers(0, 100),
        before=st.sampled_from([0, 0, 0, 3, 60]), unit=st.sampled_from([1, 0.5, 2.0**20]), method=st.sampled_from(['Uniform', 'AChao', 'search']))), check_long, quick=20, thorough=100, shards=3),
    Test('descend', lambda: st.fixed_dictionaries(dict(
        base, kind=st.sampled_from(['GNF', 'DGNF']), capacity=st.integers(1, 8), trials=st.just(800), method=st.sampled_from(['Uniform', 'AChao']))),
        check_descend, quick=10, thorough=150, shards=3),
]
