"""C13: the exhaustive searcher: buckets are sound, first come first kept, and nothing the criterion lets through is lost."""
import contextlib
import functools
import io
import random
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..engine import Test, expect, expect_eq
from .c10 import rank
from .c12 import large
from ..trackers import build, check_bootstrap, check_crowd, crowd_case, extensions, image_of, key_of, longest_bootstrap, seq_key, spoil
from peyl import braidsearch as bs

PROPERTY = 'C13'
RULE = ('histories of up to 7 operations (offers of braids, descendants, products of buckets, substrings, exhaustive bootstraps, '
        'discards, validations) on the searcher of braidsearch, with and without a random reservoir, with criteria on the statistics, '
        'for n = 3, 4, 5; after each operation every entry is recomputed independently, and the contents and counts compared with a '
        'model of what was offered. Non-trivial: at least two buckets, and a descent, product or substring operation')


@functools.cache
def rep_of(n, r, p):
    return bs.JonesSummand(n, r, p)


CRITERIA = {
    'all': (lambda df: df['length'] >= 0, lambda s: True),
    'rhogap': (lambda df: df['rhogap/length'] < 1.0, lambda s: s['rhogap'] / max(1, s['length']) < 1.0),
    'projlen': (lambda df: df['projlen'] % 2 == 1, lambda s: s['projlen'] % 2 == 1),
    'terms': (lambda df: df['nz_terms'] <= 6 * (df['length'] + 1), lambda s: s['nz_terms'] <= 6 * (s['length'] + 1)),
    'none': (lambda df: df['length'] < 0, lambda s: False),
}


class Model:
    def __init__(self, case):
        self.case = case
        self.n, self.r, self.p, self.size = case['n'], case['r'], case['p'], case['size']
        self.rep = rep_of(self.n, self.r, self.p)
        self.keep = CRITERIA[case['criterion']][1]
        self.t = bs.Tracker(self.rep, self.size, ('length', 'projlen'), CRITERIA[case['criterion']][0],
                            rand=random.Random(case['seed']) if case['reservoir'] else None)
        self.offered: dict[tuple, Counter] = {}
        self.first: dict[tuple, list | None] = {}   # distinct braids in the order offered, when known
        self.counts: dict[tuple, int | None] = {}   # reservoir counts
        self.labels: list[str] = []
        self.most = case.get('most', 300)           # pairs of braids in a product of buckets
        self.large = False

    def image(self, key):
        return image_of(self.n, self.r, self.p, key)

    def stats(self, key):
        X = self.image(key)
        return dict(length=len(key[2]), projlen=X.shape[-1], degmax=X.shape[-1] - 1, valmin=0,
                    nz_terms=int(np.count_nonzero(X)), rhogap=(X.shape[-1] - 1) / 2, projrank2=sum(rank(X[..., d]) for d in range(min(2, X.shape[-1]))))

    def offer(self, keys, ordered=True, exact=True):
        for k in keys:
            s = self.stats(k)
            if not self.keep(s):
                continue
            tag = (s['length'], s['projlen'])
            if tag not in self.offered:
                self.offered[tag], self.first[tag], self.counts[tag] = Counter(), [], 0
            if not ordered:
                self.first[tag] = None
            elif self.first[tag] is not None and k not in self.offered[tag]:
                self.first[tag].append(k)
            if not exact:
                self.counts[tag] = None
            elif self.counts[tag] is not None:
                self.counts[tag] += 1
            self.offered[tag][k] += 1

    def tags(self):
        return sorted((int(a), int(b)) for a, b in self.t.buckets)

    def keys_in(self, tag):
        return [key_of(b, self.n) for b in self.t.bucket_braids_images(tag)[0]]

    def play(self, op):
        kind, a, b = op['op'], op['a'], op['b']
        tags = self.tags()
        n = self.n
        if kind == 'bootstrap':
            upto = 1 + a % longest_bootstrap(n, 'GNF', self.case.get('bootstrap', 500) if op['big'] else 130)
            self.t.bootstrap_exhaustive(upto)
            self.offer([('GNF', 0, s) for L in range(1, upto + 1) for s in extensions(n, 'GNF', None, L)], False)
        elif kind == 'add':
            keys = [seq_key('GNF', pw, s) for pw, s in op['batch']]
            if keys:
                images = np.zeros((len(keys), *self.image(keys[0]).shape[:2], max(self.image(k).shape[-1] for k in keys) + b % 3), dtype=self.rep.dtype())
                for i, k in enumerate(keys):
                    images[i, :, :, :self.image(k).shape[-1]] = self.image(k)
                self.t.add_braids_images([build(n, k) for k in keys], images)
                self.offer(keys)
        elif kind == 'descend' and tags:
            tag = tags[a % len(tags)]
            length = 1 + b % 2 if n == 3 else 1
            was = self.keys_in(tag)
            self.large |= sum(len(extensions(n, 'GNF', k[2][-1] if k[2] else None, length)) for k in was) > 1000
            self.t.nf_descendants(tag, length) if length > 1 or b % 4 else self.t.nf_descendants(tag)
            for L in range(1, length + 1):
                self.offer([(k[0], k[1], k[2] + s) for k in was for s in extensions(n, 'GNF', k[2][-1] if k[2] else None, L)], False, length == 1)
        elif kind == 'product' and tags:
            sizes = {t: len(self.t.bucket_braids_images(t)[0]) for t in tags}
            pairs = [(x, y) for x in tags for y in tags if sizes[x] * sizes[y] <= self.most and x[0] + y[0] <= 14]
            if self.most > 300:
                pairs = [(x, y) for x, y in pairs if sizes[x] * sizes[y] > 1000] or pairs
                if b % 3:
                    pairs = [(x, y) for x, y in pairs if min(sizes[x], sizes[y]) >= 40] or pairs
                if b % 3 == 2:
                    pairs = [(x, y) for x, y in pairs if sizes[y] >= 2 * sizes[x]] or pairs
                self.large = any(sizes[x] * sizes[y] > 1000 for x, y in pairs)
            if op['big']:
                pairs = [(x, y) for x, y in pairs if sizes[x] > 1 and sizes[y] > 1 and sizes[x] != sizes[y]] or pairs
            if not pairs:
                return
            t1, t2 = pairs[(a + 51 * b) % len(pairs)]
            b1, b2 = (list(self.t.bucket_braids_images(t)[0]) for t in (t1, t2))
            self.labels.append('product ' + ('1 x any' if len(b1) == 1 else 'any x 1' if len(b2) == 1 else 'a x a' if len(b1) == len(b2) else 'a < b' if len(b1) < len(b2) else 'a > b'))
            self.t.bucket_product(t1, t2)
            self.offer([key_of(x * y, n) for x in b1 for y in b2], False)
        elif kind == 'substrings' and tags:
            tag = tags[a % len(tags)]
            was = self.keys_in(tag)
            self.t.substrings(tag)
            self.offer([(k[0], k[1], k[2][i:j]) for k in was for i in range(tag[0]) for j in range(i + 2, tag[0] + 1) if j - i < tag[0]], False, False)
        elif kind == 'discard' and tags:
            tag = tags[a % len(tags)] if b % 4 else (99, 99)
            self.t.discard_bucket(tag)
            for d in (self.offered, self.first):
                d.pop(tag, None)
            expect(tag not in self.t.buckets, f'the bucket {tag} is still there after being discarded')
        elif kind == 'validate':
            with contextlib.redirect_stdout(io.StringIO()):
                got = self.t.valiate_buckets()
            expect_eq(got, 'All bucket entries are sound.', 'validation of sound buckets')
            if tags and op['big']:
                if spoil(self.t, tags[a % len(tags)], a, b):
                    self.labels.append('spoiled')

    def check(self):
        tags = self.tags()
        expect(set(tags) == set(self.offered), lambda: f'buckets {tags}, wanted {sorted(self.offered)}')
        for tag in tags:
            braids, images = self.t.bucket_braids_images(tag)
            keys = [key_of(b, self.n) for b in braids]
            expect_eq(len(images), len(keys), f'number of images in bucket {tag}')
            for k, A in zip(keys, images):
                X = self.image(k)
                expect(A.shape == X.shape and (A == X).all(), lambda: f'image of {k} in bucket {tag}: {A.tolist()}, wanted {X.tolist()}')
                expect_eq((len(k[2]), X.shape[-1]), tag, f'the bucket of {k}')
                expect(k in self.offered[tag], lambda: f'{k} in bucket {tag} was never offered')
            offered = self.offered[tag]
            expect(1 <= len(keys) <= self.size, lambda: f'bucket {tag} holds {len(keys)} braids of a capacity of {self.size}')
            if not self.case['reservoir'] or len(keys) < self.size:
                expect(len(set(keys)) == len(keys), lambda: f'bucket {tag} holds a braid twice')
            expect_eq(len(keys), min(self.size, len(offered)), f'size of bucket {tag} after {len(offered)} different braids')
            if not self.case['reservoir'] and self.first[tag] is not None:
                expect_eq(keys, self.first[tag][:self.size], f'contents of {tag}, first come first kept')
            df = self.t.bucket_stats(tag)
            expect_eq(len(df), len(keys), f'rows of bucket_stats({tag})')
            for i, k in enumerate(keys):
                want = self.stats(k)
                for name, value in want.items():
                    expect_eq(float(df.iloc[i][name]), float(value), f'{name} of {k} in bucket_stats')
                expect_eq(float(df.iloc[i]['rhogap/length']), want['rhogap'] / max(1, want['length']), 'rhogap/length')
        df = self.t.stats()
        expect_eq(sorted((int(a), int(b)) for a, b in df['bucket']), tags, 'buckets in stats()')
        for _, row in df.iterrows():
            tag = tuple(int(x) for x in row['bucket'])
            expect_eq((int(row['length']), int(row['projlen'])), tag, 'length and projlen in stats()')
            expect_eq(int(row['count']), len(self.t.bucket_braids_images(tag)[0]), f'count of {tag} in stats()')
            if tag[0]:
                expect(abs(float(row['rhogap/length']) - (tag[1] - 1) / 2 / tag[0]) < 1e-12, f'rhogap/length of {tag} in stats()')
            if self.case['reservoir'] and self.counts.get(tag) is not None:
                expect_eq(int(row['reservoir_count']), self.counts[tag], f'reservoir count of {tag}')
        df = self.t.stats_reservoir()
        got = {tuple(int(x) for x in row['bucket']): int(row['reservoir_count']) for _, row in df.iterrows()}
        for tag, c in self.counts.items():
            if c is not None:
                expect_eq(got.get(tag), c, f'reservoir count of {tag} in stats_reservoir')


def check(case, obs):
    m = Model(case)
    moved = False
    for op in case['ops']:
        moved |= op['op'] in ('descend', 'product', 'substrings') and len(m.t.buckets) > 0
        m.play(op)
        m.check()
        obs.label('op ' + op['op'])
    obs.label('reservoir' if case['reservoir'] else 'first', case['criterion'], f"n={case['n']}")
    obs.label(*m.labels)
    obs.bucket('buckets', len(m.t.buckets))
    obs.label('some full' if any(len(m.t.bucket_braids_images(t)[0]) == m.size for t in m.t.buckets) else 'none full')
    obs.nontrivial(moved and len(m.t.buckets) >= 2)


def check_large(case, obs):
    def make(rep):
        t = bs.Tracker(rep_of(case['n'], case['r'], case['p']), case['capacity'], ('length', 'projlen'), CRITERIA['all'][0],
                       rand=random.Random(case['seed']) if case['method'] == 'Uniform' else None)
        t.bootstrap_exhaustive(case['upto'] - case['down'])
        for tag in [tag for tag in t.buckets if case['down'] and tag[0] == case['upto'] - case['down']]:
            t.nf_descendants(tag, case['down'])
        return t

    def contents(t):
        return {(int(a), int(b)): (*t.bucket_braids_images((a, b)), None) for a, b in list(t.buckets)}
    check_bootstrap(case, obs, make, contents)


def histories(ns, max_ops=6, max_len=6):
    def f(nr):
        n, r = nr
        op = st.fixed_dictionaries(dict(
            op=st.sampled_from(['add', 'add', 'descend', 'descend', 'product', 'product', 'substrings', 'bootstrap', 'discard', 'validate']),
            a=st.integers(0, 50), b=st.integers(0, 7), big=st.booleans(),
            batch=gens.sized_lists(st.tuples(st.integers(-4, 4), gens.garside_seq(n, max_len)).map(list), 10, 1)))
        return st.fixed_dictionaries(dict(
            n=st.just(n), r=st.just(r), p=st.sampled_from([0, 2, 3, 5, 41, 131, 251, 257, 32771]), size=st.sampled_from([1, 2, 3, 5, 10, 50, 500]),
            criterion=st.sampled_from(['all'] * 6 + [*CRITERIA]), reservoir=st.booleans(), seed=st.integers(0, 10**6),
            ops=st.builds(lambda first, ops: [dict(ops[0], op=first), *ops[1:]], st.sampled_from(['add', 'bootstrap']),
                          gens.sized_lists(op, max_ops, 2))))
    return lambda: st.sampled_from([(n, r) for n in ns for r in [0, *range(1, n // 2 + 1), *range(1, n // 2 + 1)]]).flatmap(f)


def check_large_steps(case, obs):
    """One step from large buckets: a product of more than a thousand pairs, or that many descendants."""
    m = Model(case)
    for op in case['ops']:
        if op['op'] == 'descend':
            sizes = [len(m.t.bucket_braids_images(tag)[0]) for tag in m.tags()]
            op = {**op, 'a': sizes.index(max(sizes)) if sizes else 0}
        m.play(op)
    m.check()
    obs.label(case['ops'][-1]['op'], 'large' if m.large else 'not large')
    obs.nontrivial(m.large)


def large_steps():
    return st.sampled_from([(3, 1, 8), (4, 1, 3), (4, 2, 3)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.just(t[1]), p=st.sampled_from([0, 2, 3, 5]), size=st.sampled_from([40, 5000, 5000]), criterion=st.sampled_from(['all', 'all', 'rhogap']),
        reservoir=st.booleans(), seed=st.integers(0, 10**6), most=st.sampled_from([2500, 6000, 12000]), bootstrap=st.just(1300),
        ops=st.tuples(st.sampled_from(['product', 'product', 'descend']), st.integers(0, 50), st.integers(0, 7)).map(lambda x: [
            dict(op='bootstrap', a=t[2] - 1, b=0, big=True, batch=[]), dict(op=x[0], a=x[1], b=x[2], big=True, batch=[])]))))


def check_substrings(case, obs):
    """Substrings of long braids, one after the other."""
    m = Model(case)
    # Each with other powers of Delta before it.
    m.play(dict(op='add', a=0, b=case['pad'], batch=[[power + 2 * k, seq] for k in case['twists'] for power, seq in case['batch']]))
    tags = m.tags()
    for tag in [t for t in tags if t[0] > 2][:3]:
        m.play(dict(op='substrings', a=m.tags().index(tag), b=0))
    m.check()
    obs.bucket('longest', max(t[0] for t in tags))
    obs.nontrivial(any(t[0] > 8 for t in tags))


def long_substrings():
    return st.sampled_from([(3, 1), (4, 1), (4, 2)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.just(t[1]), p=st.sampled_from([0, 2, 3, 5]), size=st.sampled_from([2, 500, 500]), criterion=st.just('all'),
        reservoir=st.booleans(), seed=st.integers(0, 10**6), pad=st.integers(0, 3), twists=st.sampled_from([[0], [0, 1], [0, 3, -1], [0, 0, 2]]),
        batch=gens.sized_lists(st.tuples(st.integers(-4, 4), gens.garside_seq(t[0], 18, 3)).map(list), 3, 1))))


# Products of every kind, of the first two lengths of each.
fixed_steps = [
    dict(n=n, r=r, p=p, size=5000, criterion='all', reservoir=False, seed=a, most=6000, bootstrap=1300,
         ops=[dict(op='bootstrap', a=upto - 1, b=0, big=True, batch=[]), dict(op=op, a=a, b=b, big=True, batch=[])])
    for n, r, p, upto in ((3, 1, 5, 8), (4, 2, 2, 3), (4, 1, 3, 3)) for op, a, b in (('product', 3, 1), ('product', 5, 2), ('descend', 0, 1))]

TESTS = [
    Test('long_substrings', long_substrings, check_substrings, quick=20, thorough=300, thorough_shards=3),
    Test('large_steps', large_steps, check_large_steps, quick=12, shards=2, corpus=fixed_steps, thorough=60, thorough_shards=4),
    Test('large', large(['GNF'], ['Uniform', 'GreedyFirst']), check_large, quick=4, shards=2, thorough=25, thorough_shards=4),
    Test('crowd', crowd_case(['GNF']), lambda case, obs: check_crowd(case, obs, lambda rep: bs.Tracker(
        rep_of(case['n'], case['r'], case['p']), 1000, ('length', 'projlen'), CRITERIA['all'][0]), rep_of(case['n'], case['r'], case['p']).dtype()), quick=120, thorough=1500, shards=2, thorough_shards=3),
    Test('histories', histories([3, 3, 4, 4]), check, quick=120, thorough=3000, shards=6, thorough_shards=12),
    Test('tiny', histories([1, 2], 4, 2), check, quick=40, thorough=400, thorough_shards=1),
    Test('histories5', histories([5], 3, 2), check, quick=15, thorough=300, shards=2),
]
