"""
A reference model of the search trackers, and a runner that plays a history of operations against both.

A braid is known to the model by its key (kind, power, factors), its image by the independent link-state model.
The model knows the multiset of braids offered to each bucket since the bucket was last created.
"""
from __future__ import annotations

import contextlib
import functools
import io
import random
import zlib
from collections import Counter

import numpy as np

from . import env  # noqa: F401
from . import gens, ref_braid as rb, ref_poly as rp
from .common import KIND, basis_states, is_int, read_braid
from .engine import expect, expect_eq

from hypothesis import strategies as st
from peyl import DGNF, GNF, JonesCellRep, NPar, Permutation, bucketing, polymat


@functools.cache
def rep_and_states(n, r, p):
    rep = JonesCellRep(n, r, p)
    return rep, basis_states(n, r, rep.tl_basis())


def freeze(x):
    return tuple(sorted(tuple(sorted(b)) for b in x)) if isinstance(x, (set, frozenset)) else tuple(x)


def key_of(b, n):
    """The key of a braid of the code under test (which is checked to be in normal form)."""
    kind = 'GNF' if isinstance(b, GNF) else 'DGNF'
    power, factors = read_braid(b, n)
    return kind, power, tuple(freeze(x) for x in factors)


def seq_key(kind, power, seq):
    if kind == 'GNF':
        return kind, power, tuple(tuple(x) for x in seq)
    return kind, power, tuple(tuple(sorted(tuple(sorted(b)) for b in x)) for x in seq)


def word_of(n, key):
    kind, power, factors = key
    if kind == 'GNF':
        return rb.power_word(rb.delta_word(n), power) + [l for x in factors for l in rb.perm_word(x)]
    return rb.power_word(rb.dual_delta_word(n), power) + [l for x in factors for l in rb.partition_word(x)]


def build(n, key):
    kind, power, factors = key
    if kind == 'GNF':
        return GNF(n, power, ()) * GNF.from_perm_seq(n, [Permutation(x) for x in factors])
    return DGNF(n, power, ()) * DGNF.from_npar_seq(n, [NPar.from_components(n, x) for x in factors])


@functools.lru_cache(maxsize=200_000)
def image_of(n, r, p, key):
    """The projectivised image as an array [dim, dim, D] with no zero matrices at either end."""
    states = rep_and_states(n, r, p)[1]
    _, X = rp.cell_eval(states, word_of(n, key), p)
    X = rp.proj_array(X).astype(np.int64)        # raises OverflowError if too big
    X.setflags(write=False)
    return X


def weight_of(key):
    """An arbitrary weight (often equal, sometimes zero), a function of the braid."""
    return [0.0, 1.0, 1.0, 2.5, 7.0, 0.25][zlib.crc32(repr(key).encode()) % 6]


class WeightStat(bucketing.BraidStatBase):
    name = 'weight'

    @staticmethod
    def calculate(rep, braids, images):
        return [weight_of(key_of(b, rep.n)) for b in braids]


class TermsWeight(bucketing.BraidStatBase):
    name = 'termsweight'

    @staticmethod
    def calculate(rep, braids, images):
        return [float(x) for x in polymat.nz_terms(images)]


def spoil(tracker, tag, a, b):
    """Spoil one entry of a bucket, which the validation must notice, and mend it."""
    images = tracker.bucket_braids_images(tag)[1]
    i, j = (b if b % 2 else -1 - b) % len(images), a % images[0].size
    x = int(images[i].flat[j])
    images[i].flat[j] = x + 1
    if int(tracker.bucket_braids_images(tag)[1][i].flat[j]) != x + 1:
        return False                                # we were given a copy
    with contextlib.redirect_stdout(io.StringIO()):
        got = tracker.valiate_buckets()
    images[i].flat[j] = x
    expect(not isinstance(got, str), lambda: f'validation said {got!r} although image {i} of {len(images)} in the bucket {tag} was wrong')
    return True


S = bucketing.Stats
KEYS = {'length': S.CanonicalLength, 'projlen': S.ProjectiveLength, 'nz_terms': S.NonzeroTerms, 'nf': S.NFKind}


@functools.cache
def followers(kind, n):
    """key factor (or None at the start) -> list of key factors."""
    if kind == 'GNF':
        t = gens.garside_followers(n)
        return lambda x: t[x if x is not None else tuple(reversed(range(n)))]
    t, top = gens.dual_followers(n)
    return lambda x: t[x if x is not None else top]


def extensions(n, kind, last, length):
    out = [()]
    for _ in range(length):
        out = [s + (tuple(y),) for s in out for y in followers(kind, n)(s[-1] if s else last)]
    return out


@functools.cache
def longest_bootstrap(n, kind, most):
    """The greatest length such that there are at most so many braids of length up to that (at least 1)."""
    total, length, last = 0, 0, None
    if n < 3:
        return 2                                # there are none
    while True:
        count = len(extensions(n, kind, None, length + 1))
        if total + count > most:
            return max(1, length)
        total, length = total + count, length + 1


class Model:
    def __init__(self, case):
        self.case = case
        self.n, self.r, self.p = case['n'], case['r'], case['p']
        self.rep, self.states = rep_and_states(self.n, self.r, self.p)
        self.keys = case['keys']
        self.mixed = case.get('mixed', 'nf' in self.keys)              # both kinds of normal form, in the same buckets unless the kind is among the keys
        self.capacity, self.method, self.weighting = case['capacity'], case['method'], case['weight']
        stat = {None: None, 'hash': WeightStat, 'terms': TermsWeight}[self.weighting]
        self.t = bucketing.Tracker(
            self.rep, self.capacity, [KEYS[k] for k in self.keys], [S.NonzeroTerms] if case['other'] else [],
            reservoir_method=self.method, reservoir_weight=stat, rand=random.Random(case['seed']))
        self.offered: dict[tuple, Counter] = {}
        self.order: dict[tuple, list | None] = {}      # the order of what was offered, as long as the model knows it
        self.before: dict[tuple, list] = {}

    def weight(self, key):
        if self.weighting is None:
            return 1.0
        return weight_of(key) if self.weighting == 'hash' else float(np.count_nonzero(self.image(key)))

    def image(self, key):
        return image_of(self.n, self.r, self.p, key)

    def tag(self, key):
        X = self.image(key)
        f = dict(length=len(key[2]), projlen=X.shape[-1], nz_terms=int(np.count_nonzero(X)), nf=key[0])
        return tuple(f[k] for k in self.keys)

    def offer(self, keys, ordered):
        for k in keys:
            t = self.tag(k)
            if t not in self.offered:
                self.offered[t] = Counter()
                self.order[t] = []
            self.offered[t][k] += 1
            if not ordered:
                self.order[t] = None
            elif self.order[t] is not None:
                self.order[t].append(k)

    def contents(self):
        out = {}
        for tag in list(self.t.buckets):
            braids, images = self.t.bucket_braids_images(tag)
            expect_eq(len(images), len(braids), f'number of images in the bucket {tag}')
            out[tag] = [key_of(b, self.n) for b in braids], images
        return out

    # ---- operations

    def play(self, op):
        kind, a, b = op['op'], op['a'], op['b']
        nf = op['kind'] if self.mixed else self.case['kind']
        self.before = {t: ks for t, (ks, _) in self.contents().items()}
        tags = sorted(self.before, key=repr)
        if kind == 'bootstrap':
            upto = 1 + a % longest_bootstrap(self.n, nf, 500 if op['big'] else 130)
            self.t.bootstrap_exhaustive(KIND[nf], upto)
            self.offer([(nf, 0, s) for L in range(1, upto + 1) for s in extensions(self.n, nf, None, L)], False)
        elif kind == 'add':
            keys = [seq_key(k if self.mixed else nf, pw, s) for k, pw, gs, ds in op['batch']
                    for s in [gs if (k if self.mixed else nf) == 'GNF' else ds]]
            if keys:
                braids = [build(self.n, k) for k in keys]
                shifts = [(a + 3 * i) % 4 if op['big'] else 0 for i in range(len(keys))]
                imgs = [np.pad(self.image(k), ((0, 0), (0, 0), (s, 0))) for k, s in zip(keys, shifts)]
                images = np.zeros((len(keys), *imgs[0].shape[:2], max(x.shape[-1] for x in imgs) + b % 3), dtype=imgs[0].dtype)
                for i, x in enumerate(imgs):
                    images[i, :, :, :x.shape[-1]] = x
                copy = images.copy()
                self.t.add_braids_images(braids, images)
                expect((images == copy).all(), 'add_braids_images changed the images it was given')
                self.offer(keys, True)
        elif kind == 'descend' and tags:
            tag = tags[a % len(tags)]
            length = 1
            if op['big'] and self.n == 3 or nf == 'DGNF' and self.n == 4 and len(self.before[tag]) <= 2:
                length = 1 + b % 2
            self.t.nf_descendants(tag, length) if length > 1 or b % 4 else self.t.nf_descendants(tag)
            self.offer([(k[0], k[1], k[2] + s) for k in self.before[tag]
                        for s in extensions(self.n, k[0], k[2][-1] if k[2] else None, length)], False)
        elif kind == 'step' and tags:
            # As a search goes forward: from every bucket of one length (as long as there are few braids in them), then they are discarded.
            lengths = sorted({len(k[2]) for ks in self.before.values() for k in ks})
            here = [t for t in tags if len(self.before[t][0][2]) == lengths[a % len(lengths)]]
            while sum(len(self.before[t]) for t in here) > (250 if self.n < 5 else 25):
                here.pop()
            if b % 2:
                here.reverse()
            for tag in here:
                self.t.nf_descendants(tag, 1)
                self.offer([(k[0], k[1], k[2] + s) for k in self.before[tag]
                            for s in extensions(self.n, k[0], k[2][-1] if k[2] else None, 1)], False)
            for tag in here if op['big'] else []:
                self.t.discard_bucket(tag)
                self.offered.pop(self.clean(tag), None)
                self.order.pop(self.clean(tag), None)
                self.before.pop(tag, None)
        elif kind == 'discard' and tags:
            tag = tags[a % len(tags)] if b % 4 else ('no such bucket',)
            self.t.discard_bucket(tag)
            self.offered.pop(tag, None)
            self.order.pop(tag, None)
            self.before.pop(tag, None)
            expect(tag not in self.t.buckets, f'the bucket {tag} is still there after being discarded')
        elif kind == 'validate':
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = self.t.valiate_buckets()
            expect_eq(got, 'All bucket entries are sound.', 'validation of sound buckets')
            if tags and op['big']:
                spoil(self.t, tags[a % len(tags)], a, b)

    # ---- what must hold

    def check_sound(self):
        contents = self.contents()
        for tag, (keys, images) in contents.items():
            expect(1 <= len(keys) <= self.capacity, lambda: f'bucket {tag} holds {len(keys)} braids of a capacity of {self.capacity}')
            for k, A in zip(keys, images):
                expect_eq(self.tag(k), self.clean(tag), f'the bucket of {k}')
                X = self.image(k)
                expect(A.shape == X.shape and (A == X).all(), lambda: f'image of {k} in bucket {tag}: {A.tolist()}, wanted {X.tolist()}')
            expect(self.clean(tag) in self.offered, lambda: f'bucket {tag} holds braids that nobody offered')
            extra = set(keys) - set(self.offered[self.clean(tag)])
            expect(not extra, lambda: f'bucket {tag} holds braids that nobody offered to it: {extra}')
            groups = self.t.hash_bucket(tag)
            members = Counter(key_of(b, self.n) for bs in groups.values() for b in bs)
            expect_eq(members, Counter(keys), f'the braids of hash_bucket({tag})')
            by_group = [{self.image(key_of(b, self.n)).tobytes() for b in bs} for bs in groups.values()]
            expect(all(len(g) == 1 for g in by_group), 'hash_bucket puts different images in one group')
            expect(len(set().union(*by_group)) == len(by_group), 'hash_bucket puts equal images in different groups')
            df = self.t.bucket_stats(tag)
            expect_eq(len(df), len(keys), f'rows of bucket_stats({tag})')
            for name, want in zip(self.keys, self.clean(tag)):
                expect(all((x if isinstance(x, str) else int(x)) == want for x in df[name]), lambda: f'{name} in bucket_stats({tag}): {list(df[name])}')
            if self.case['other']:
                expect_eq([int(x) for x in df['nz_terms']], [int(np.count_nonzero(self.image(k))) for k in keys], 'nz_terms in bucket_stats')
        df = self.t.stats()
        expect_eq(sorted(map(repr, df['bucket'])), sorted(map(repr, self.t.buckets)), 'the buckets in stats()')
        for _, row in df.iterrows():
            keys = contents[row['bucket']][0]
            expect_eq(int(row['count']), len(keys), f'count of {row["bucket"]} in stats()')
            for name, want in zip(self.keys, self.clean(row['bucket'])):
                expect_eq(row[name] if isinstance(row[name], str) else int(row[name]), want, f'{name} of {row["bucket"]} in stats()')
            avg = sum(self.weight(k) for k in keys) / len(keys)
            expect(abs(float(row['reservoir_weight_avg']) - avg) < 1e-9 * max(1, avg), lambda: f'average weight {row["reservoir_weight_avg"]} of {row["bucket"]}, wanted {avg}')

    def check_complete(self):
        contents = {self.clean(t): v for t, v in self.contents().items()}
        expect(sorted(map(repr, contents)) == sorted(map(repr, self.offered)),
               lambda: f'buckets {sorted(contents, key=repr)}, wanted {sorted(self.offered, key=repr)}')
        counts = {self.clean(row['bucket']): row for _, row in self.t.stats().iterrows()}
        for tag, offered in self.offered.items():
            keys = contents[tag][0]
            total = sum(offered.values())
            expect_eq(len(keys), min(self.capacity, total), f'size of bucket {tag} after being offered {total} braids')
            expect_eq(int(counts[tag]['reservoir_count']), total, f'reservoir count of {tag}')
            seen = sum(self.weight(k) * c for k, c in offered.items()) / total
            expect(abs(float(counts[tag]['reservoir_weight_avg_seen']) - seen) < 1e-9 * max(1, seen), lambda: f'average weight seen by {tag}')
            avg = sum(self.weight(k) for k in keys) / len(keys)
            expect(abs(float(counts[tag]['reservoir_weight_avg']) - avg) < 1e-9 * max(1, avg), lambda: f'average weight in {tag}')
            if total <= self.capacity:
                expect_eq(Counter(keys), offered, f'contents of {tag}, which is not full')
            over = Counter(keys) - offered
            expect(not over, lambda: f'{tag} holds more copies than were offered: {over}')
            if self.method == 'GreedyFirst':
                was = self.before.get(tag, self.before.get(next((t for t in self.before if self.clean(t) == tag), None), []))
                expect_eq(keys[:len(was)], was, f'earlier contents of {tag}, filled greedily')
                if self.order[tag] is not None:
                    expect_eq(keys, self.order[tag][:self.capacity], f'contents of {tag}, filled greedily')
            if self.method == 'EvictMin':
                best = sorted((self.weight(k) for k in offered.elements()), reverse=True)[:self.capacity]
                expect_eq(sorted((self.weight(k) for k in keys), reverse=True), best, f'weights kept by {tag}')
        return contents

    @staticmethod
    def clean(tag):
        return tuple(x if isinstance(x, str) else int(x) for x in tag)


def reps(ns):
    return st.sampled_from([(n, r) for n in ns for r in range(1 if n > 2 else 0, n // 2 + 1)])


def op_strategy(n, kinds, max_len):
    return st.fixed_dictionaries(dict(
        op=st.sampled_from(['add', 'add', 'descend', 'descend', 'step', 'step', 'bootstrap', 'discard', 'validate']),
        a=st.integers(0, 50), b=st.integers(0, 7), big=st.booleans(), kind=st.sampled_from(kinds),
        batch=gens.sized_lists(st.tuples(st.sampled_from(kinds), st.integers(-5, 5), gens.garside_seq(n, max_len), gens.dual_seq(n, max_len)).map(list), 8)))


def histories(ns, max_ops=6, max_len=4, methods=('Uniform', 'AChao', 'GreedyFirst', 'EvictMin')):
    """Histories of a tracker: plain data."""
    def f(nr):
        n, r = nr
        def g(t):
            mixed, apart = t
            kinds = ['GNF', 'DGNF']
            fixed = ['length', 'projlen'] + (['nf'] if apart else [])
            return st.fixed_dictionaries(dict(
                mixed=st.just(mixed),
                n=st.just(n), r=st.just(r), p=st.sampled_from([0, 2, 3, 5, 41, 131, 251, 257, 32771]), capacity=st.sampled_from([1, 2, 3, 5, 10, 50, 1000]),
                keys=st.one_of(st.just(fixed), st.permutations(fixed + ['nz_terms'])).map(list), other=st.booleans(), method=st.sampled_from(methods),
                weight=st.sampled_from([None, 'hash', 'terms']), seed=st.integers(0, 10**6), kind=st.sampled_from(kinds),
                ops=st.builds(lambda first, ops: [dict(ops[0], op=first), *ops[1:]], st.sampled_from(['add', 'bootstrap']),
                              gens.sized_lists(op_strategy(n, kinds, max_len), max_ops, 2))))
        return st.sampled_from([(False, False), (True, True), (True, True), (True, False), (False, False)]).flatmap(g)
    return lambda: reps(ns).flatmap(f)


def all_images(n, r, p, kind, upto):
    """(key, image) of every braid of power 0 and length 1 to upto, worked out level by level; p is a prime."""
    def times(A, F):
        out = np.zeros((*A.shape[:2], A.shape[2] + F.shape[2] - 1), dtype=np.int64)
        for k in range(F.shape[2]):
            out[:, :, k:k + A.shape[2]] += np.einsum('ijd,jk->ikd', A, F[:, :, k])
        out %= p
        nz = np.flatnonzero(out.any(axis=(0, 1)))
        return out[:, :, nz[0]:nz[-1] + 1]
    factor = functools.cache(lambda x: image_of(n, r, p, (kind, 0, (x,))))
    level = [((), np.eye(len(rep_and_states(n, r, p)[1]), dtype=np.int64)[:, :, None])]
    for _ in range(upto):
        level = [(s + (y,), times(A, factor(y))) for s, A in level for y in (tuple(y) for y in followers(kind, n)(s[-1] if s else None))]
        yield from (((kind, 0, s), A) for s, A in level)


def check_bootstrap(case, obs, make_tracker, contents):
    """An exhaustive enumeration of more braids than the search handles at once."""
    n, r, p, kind, upto, capacity = (case[k] for k in ('n', 'r', 'p', 'kind', 'upto', 'capacity'))
    want, total = {}, 0
    for key, A in all_images(n, r, p, kind, upto):
        want.setdefault((len(key[2]), A.shape[-1]), {})[key] = A
        total += 1
    t = make_tracker(rep_and_states(n, r, p)[0])
    got = contents(t)
    expect_eq(sorted(got), sorted(want), 'buckets of an exhaustive enumeration')
    for tag, (braids, images, count) in got.items():
        keys = [key_of(b, n) for b in braids]
        expect_eq(len(keys), min(capacity, len(want[tag])), f'size of bucket {tag}, of {len(want[tag])} braids')
        expect_eq(len(set(keys)), len(keys), f'different braids in bucket {tag}')
        expect_eq(len(images), len(keys), f'number of images in bucket {tag}')
        if count is not None:
            expect_eq(count, len(want[tag]), f'reservoir count of {tag}')
        for k, A in zip(keys, images):
            expect(k in want[tag], lambda: f'{k} is in bucket {tag}')
            X = want[tag][k]
            expect(A.shape == X.shape and (A == X).all(), lambda: f'image of {k} in bucket {tag}: {A.tolist()}, wanted {X.tolist()}')
    obs.bucket('braids', total, edges=(0, 1000, 5000, 10000, 20000, 50000))
    obs.nontrivial(total > 10000)


@functools.cache
def crowds(n, r, p, kind, upto):
    """The buckets of many braids, of everything of length up to so much: (length, projlen) -> [(key, image)]."""
    out = {}
    for key, A in all_images(n, r, p, kind, upto):
        out.setdefault((len(key[2]), A.shape[-1]), []).append((key, A))
    return sorted((out[t] for t in sorted(out) if len(out[t]) >= 20), key=len, reverse=True)


def check_crowd(case, obs, make_tracker, dtype):
    """The validation of a bucket of many braids notices any wrong image, and only those."""
    n, r, p = case['n'], case['r'], case['p']
    all_crowds = crowds(n, r, p, case['kind'], case['upto'])
    pool = all_crowds[case['which'] % len(all_crowds)]
    size = min(case['size'], len(pool))
    pool = random.Random(case['seed']).sample(pool, size)
    keys = [k for k, _ in pool]
    images = np.array([A for _, A in pool], dtype=dtype)
    spoilt = set()
    i, j = (size - 1 - x % size if case['end'] else x % size for x in case['at'])
    if case['how'] == 'swap':
        j = next((k % size for k in range(j, j + size) if (images[k % size] != images[i]).any()), None)
        if j is not None:
            images[[i, j]] = images[[j, i]]
            spoilt = {i, j}
    elif case['how'] == 'copy':
        if (images[i] != images[j]).any():
            images[i] = images[j]
            spoilt = {i}
    elif case['how'] == 'bump':
        images[i].flat[case['entry'] % images[i].size] += 1
        spoilt = {i}
    t = make_tracker(rep_and_states(n, r, p)[0])
    t.add_braids_images([build(n, k) for k in keys], images)
    with contextlib.redirect_stdout(io.StringIO()):
        got = t.valiate_buckets()
    if spoilt:
        expect(not isinstance(got, str), lambda: f'validation said {got!r} although the images at {spoilt} of {size} are wrong ({case["how"]})')
        expect(key_of(got[0], n) in [keys[k] for k in spoilt], lambda: f'validation reported {got[0]}, which is right')
    else:
        expect_eq(got, 'All bucket entries are sound.', 'validation of sound buckets')
    obs.label(case['how'] if spoilt else 'sound', case['kind'])
    obs.bucket('size', size, edges=(0, 20, 65, 130, 260, 520))
    obs.nontrivial(bool(spoilt) and size > 64)


def crowd_case(kinds):
    return lambda: st.sampled_from([(3, 1, 8), (4, 1, 3), (4, 2, 3), (5, 2, 2)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.just(t[1]), upto=st.just(t[2]), p=st.sampled_from([2, 5, 257]), kind=st.sampled_from(kinds), which=st.one_of(st.integers(0, 3), st.integers(0, 30)),
        size=st.one_of(st.integers(1, 40), st.integers(41, 200), st.integers(201, 600)), seed=st.integers(0, 10**6), how=st.sampled_from(['bump', 'bump', 'swap', 'swap', 'copy', 'none']),
        at=st.tuples(st.integers(0, 700), st.integers(0, 700)).map(list), end=st.booleans(), entry=st.integers(0, 10**4))))
