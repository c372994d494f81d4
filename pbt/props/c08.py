"""C08: the batch evaluators of the search code agree with exact evaluation, in order, whatever the batch."""
import functools
import random

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import KIND, basis_states, make, read_gnf, read_polymat, to_lpoly, tup
from ..engine import Test, expect, expect_eq
from peyl import GNF, JonesCellRep, Permutation
from peyl import braidsearch as bs
from .c07 import build, exact, kind_word, powers, tall_case, tallest

PROPERTY = 'C08'
RULE = ('batches of up to 10 braids in normal form, of one or of mixed canonical lengths, in every two-row representation '
        'for n from 2 to 6 mod 0 or a prime up to 8191, given to each of the batch evaluation functions of the search '
        'module, and batches of up to 12300 braids with few different ones; each image must be the exact matrix (independent link-state model) divided by its lowest power of v, at '
        'the position of its braid. Non-trivial: at least two different images')
ASSUMPTIONS = ['primes up to 8191: the code documents 32-bit coefficients mod p and primes of at most 2^13 or so',
               'p = 0 cases with coefficients beyond 2^62 are left out: the code documents int64 coefficients']
PRIMES = [0, 2, 2, 3, 5, 7, 41, 1009, 8191]


@functools.cache
def rep_and_states(n, r, p):
    rep = bs.JonesSummand(n, r, p)
    # The order of the basis is that of the module's own list, which JonesCellRep exposes.
    return rep, basis_states(n, r, JonesCellRep(n, r, p).tl_basis())


def reps(ns):
    return st.sampled_from([(n, r) for n in ns for r in range(n // 2 + 1)])


def wanted(states, n, p, pw, seq):
    return exact(states, kind_word('GNF', n, pw, seq), p)


def same(A, want, what):
    if want is None:
        return False
    got = read_polymat(np.asarray(A))
    expect(got == want, lambda: f'{what}: got {got}, wanted {want}')
    return True


def batch(ns, maxlen, maxbatch, mixed, primes=PRIMES):
    def f(nr):
        n, r = nr
        top = maxlen if n >= 3 else 0

        def g(L):
            one = gens.garside_seq(n, top) if mixed else gens.garside_seq(n, L, L)
            return st.fixed_dictionaries(dict(
                n=st.just(n), r=st.just(r), p=st.sampled_from(primes),
                batch=st.lists(st.tuples(powers, one).map(list), min_size=1, max_size=maxbatch)))
        return st.integers(0, top).flatmap(g)
    return lambda: reps(ns).flatmap(f)


def check_same_length(case, obs):
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    expect_eq(rep.dimension(), len(states), 'dimension')
    braids = [build('GNF', n, pw, seq) for pw, seq in case['batch']]
    L = len(case['batch'][0][1])
    images = bs.evaluate_braids_of_same_length(rep, braids)
    expect_eq(images.shape[:3], (len(braids), len(states), len(states)), 'shape of the images')
    if p:
        expect(images.min() >= 0 and images.max() < p, lambda: f'entries between {images.min()} and {images.max()} mod {p}')
    mats = [wanted(states, n, p, pw, seq) for pw, seq in case['batch']]
    for k in range(len(braids)):
        same(images[k], mats[k], f'image {k} of the batch')
    prefixes = bs.evaluate_prefixes_of_same_length(rep, braids)
    expect_eq(len(prefixes), L + 1, 'number of prefix batches')
    for i in range(L + 1):
        expect_eq(len(prefixes[i]), len(braids), f'number of images of prefixes of length {i}')
        for k, (pw, seq) in enumerate(case['batch']):
            same(prefixes[i][k], wanted(states, n, p, pw, seq[:i]), f'prefix {i} of braid {k}')
    k = len(braids) // 2
    same(bs.evaluate_braid_factors(rep, braids[k]), mats[k], f'evaluate_braid_factors of braid {k}')
    obs.label(f'n={n} r={r}', 'p=0' if p == 0 else 'p>0', 'skipped' if None in mats else 'compared')
    obs.nontrivial(any(m != mats[0] for m in mats))


def longer():
    """A few braids of many factors."""
    return st.tuples(st.sampled_from([(3, 1), (3, 1), (4, 1), (4, 2)]), st.integers(30, 90)).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0][0]), r=st.just(t[0][1]), p=st.sampled_from([2, 3, 5, 8191]),
        batch=st.lists(st.tuples(st.integers(-7, 7), gens.garside_seq(t[0][0], t[1], t[1])).map(list), min_size=2, max_size=2))))


def check_tall(case, obs):
    """Braids whose matrices have integer coefficients of up to 62 bits."""
    n, r = case['n'], case['r']
    rep, states = rep_and_states(n, r, 0)
    w, want = tallest(states, case['piece'], min(case['times'], 100 // len(case['piece'])))
    b = make('GNF', n, w)
    half = len(w) // 2
    X, Y = (bs.evaluate_braids_of_same_length(rep, [make('GNF', n, x)]) for x in (w[:half], w[half:]))
    other = GNF(n, 1, ()) * b
    for what, A in [('evaluate_braid_factors', bs.evaluate_braid_factors(rep, b)), ('evaluate_braids_of_same_length', bs.evaluate_braids_of_same_length(rep, [other, b])[-1]),
                    ('evaluate_prefixes_of_same_length', bs.evaluate_prefixes_of_same_length(rep, [b, other])[-1][0]), ('evaluate_braids', bs.evaluate_braids(rep, [GNF(n, 0, ()), b, other])[1]),
                    ('mul', rep.mul(X, Y)[0])]:
        expect(read_polymat(np.asarray(A)) == want, lambda: f'{what} of {case["piece"]} repeated {len(w) // len(case["piece"])} times: got {read_polymat(np.asarray(A))}, wanted {want}')
    most = max(abs(c) for row in want for x in row for c in x.values())
    obs.bucket('bits', most.bit_length(), edges=(0, 8, 16, 31, 32, 48, 53, 60))
    obs.nontrivial(most.bit_length() > 31)


def check_products(case, obs):
    """The products of two batches of images are the images of the products of the braids."""
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    left, right = case['left'], case['right']
    A, B = (bs.evaluate_braids_of_same_length(rep, [build('GNF', n, pw, seq) for pw, seq in xs]) for xs in (left, right))
    P = rep.mul(A[:, None, ...], B[None, ...])
    expect_eq(P.shape[:4], (len(left), len(right), len(states), len(states)), 'shape of a batch of products')
    if p:
        expect(P.min() >= 0 and P.max() < p, lambda: f'entries between {P.min()} and {P.max()} mod {p}')
    for i, x in enumerate(left):
        for j, y in enumerate(right):
            m = exact(states, kind_word('GNF', n, *x) + kind_word('GNF', n, *y), p)
            same(P[i, j], m, f'product ({i}, {j}) of images of braids of lengths {case["lens"]}')
    obs.bucket('length', sum(case['lens']), edges=(0, 5, 10, 20, 40, 80))
    obs.nontrivial(len(states) > 1 and min(case['lens']) >= 2)


def products(ns, maxlen, primes, minlen=0):
    def f(t):
        (n, r), L, M = t
        side = lambda k: st.lists(st.tuples(st.integers(-7, 7), gens.garside_seq(n, k, k)).map(list), min_size=1, max_size=2 if minlen == 0 else 1)
        return st.fixed_dictionaries(dict(n=st.just(n), r=st.just(r), p=st.sampled_from(primes), lens=st.just([L, M]), left=side(L), right=side(M)))
    return lambda: st.tuples(reps(ns), st.integers(minlen, maxlen), st.integers(minlen, maxlen)).flatmap(f)


def spread(case):
    """The positions of a large batch: each braid repeated, together or dealt out."""
    order = [k for k, (_, _, count) in enumerate(case['runs']) for _ in range(count)]
    if case['shuffle']:
        random.Random(case['shuffle']).shuffle(order)
    return np.array(order)


def check_large(case, obs):
    """Thousands of braids at once, each one many times over."""
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    distinct = [build('GNF', n, pw, seq) for pw, seq, _ in case['runs']]
    mats = [wanted(states, n, p, pw, seq) for pw, seq, _ in case['runs']]
    order = spread(case)
    braids = [distinct[k] for k in order]

    def compare(images, mats, what):
        expect_eq(images.shape[:3], (len(braids), len(states), len(states)), 'shape of ' + what)
        for k, m in enumerate(mats):
            X = images[order == k]
            expect((X == X[:1]).all(), lambda: f'{what} differ for the same braid {distinct[k]!r}, in a batch of {len(braids)}')
            same(X[0], m, f'{what} in a batch of {len(braids)}')
    compare(bs.evaluate_braids_of_same_length(rep, braids), mats, 'images')
    L = len(case['runs'][0][1])
    prefixes = bs.evaluate_prefixes_of_same_length(rep, braids)
    expect_eq(len(prefixes), L + 1, 'number of prefix batches')
    for i in {L // 2, L}:
        compare(prefixes[i], [wanted(states, n, p, pw, seq[:i]) for pw, seq, _ in case['runs']], f'images of prefixes of length {i}')
    images = bs.evaluate_braids(rep, braids)
    expect_eq(len(images), len(braids), 'number of images')
    for k in {0, len(braids) // 2, len(braids) - 1}:
        same(images[k], mats[order[k]], f'image {k} by evaluate_braids in a batch of {len(braids)}')
    obs.bucket('batch', len(braids), edges=(0, 100, 500, 1000, 2000, 4000, 8000))
    obs.nontrivial(len(braids) > 500 and any(m != mats[0] for m in mats))


SIZES = [1, 60, 257, 600, 600, 1100, 2100, 4200]


def large(nr, primes, seqs, powers=st.integers(-7, 7), extra={}):
    """Runs of the same braid; the sequences have one length."""
    return st.sampled_from([0, 1, 2, 3, 3, 4, 5, 6]).flatmap(lambda L: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(primes), shuffle=st.sampled_from([0, 0, 0, 1]), **extra,
        runs=st.lists(st.tuples(powers, seqs(nr[0], L), st.sampled_from(SIZES)).map(list), min_size=2, max_size=3))))


def stats_of(mat, length):
    s = rp.mspan(mat)
    terms = sum(len(x) for row in mat for x in row)
    return dict(length=length, nz_terms=terms, valmin=s[0], degmax=s[1], rhogap=(s[1] - s[0]) / 2)


def check_mixed(case, obs):
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    braids = [build('GNF', n, pw, seq) for pw, seq in case['batch']]
    images = bs.evaluate_braids(rep, braids)
    expect_eq(len(images), len(braids), 'number of images')
    mats = [wanted(states, n, p, pw, seq) for pw, seq in case['batch']]
    ok = all([same(images[k], mats[k], f'image {k} of the batch of mixed lengths') for k in range(len(braids))])
    df = bs.braids_images_to_dataframe(braids, list(images))
    expect_eq(len(df), len(braids), 'rows of the dataframe')
    if ok:
        for k, (pw, seq) in enumerate(case['batch']):
            row = df.iloc[k]
            expect(row['braid'] == braids[k], lambda: f'row {k} has the braid {row["braid"]!r}')
            for name, value in stats_of(mats[k], len(seq)).items():
                expect_eq(float(row[name]), float(value), f'{name} of row {k}')
            if seq:
                expect_eq(float(row['rhogap/length']), stats_of(mats[k], 1)['rhogap'] / len(seq), f'rhogap/length of row {k}')
            same(row['image'], mats[k], f'image of row {k}')
    lens = {len(seq) for _, seq in case['batch']}
    obs.label(f'n={n} r={r}', f'lengths={len(lens)}')
    obs.nontrivial(len(lens) > 1 and any(m != mats[0] for m in mats))


def check_rep(case, obs):
    """Generators, the permutation table, identity and products."""
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    gs, invs = rep.artin_gens_invs()
    expect_eq((len(gs), len(invs)), (n - 1, n - 1), 'number of generators')
    for i in range(n - 1):
        for A, e in ((gs[i], 1), (invs[i], -1)):
            got = read_polymat(A)
            expect(rp.mproj(rp.mmod(got, p)) == exact(states, [[i, e]], p), lambda: f'generator {i} to the {e}: {got}')
    one = rep.id()
    same(one, exact(states, [], p), 'identity')
    table = bs.symmetric_table(rep)
    xs = [tuple(x) for x in case['perms']]
    imgs = [table[Permutation(x)] for x in xs]
    for x, A in zip(xs, imgs):
        same(A, exact(states, rb.perm_word(x), p), f'table entry of {x}')
    word = [l for x in xs for l in rb.perm_word(x)]
    prod = functools.reduce(rep.mul, imgs, one)
    m = exact(states, word, p)
    same(prod, m, f'product of the images of {xs}')
    same(rep.mul(prod, one), m, 'product with the identity on the right')
    obs.label(f'n={n} r={r}')
    obs.nontrivial(len(xs) >= 2 and len(states) > 1)


def check_sampled(case, obs):
    """Sampled pairs of braid and image belong together, have the length asked for and no power of the Garside element."""
    n, r, p, lo, hi, count = (case[k] for k in ('n', 'r', 'p', 'lo', 'hi', 'count'))
    rep, states = rep_and_states(n, r, p)
    braids, images = bs.sample_braids_images_upto_length(rep, lo, hi, count, rand=random.Random(case['seed']))
    expect_eq((len(braids), len(images)), (count * (hi - lo + 1),) * 2, 'number of samples')
    lens = []
    seen = set()
    for b, A in zip(braids, images):
        power, perms = read_gnf(b, n)
        expect_eq(power, 0, f'power of the sample {b!r}')
        lens.append(len(perms))
        seen.add(tuple(perms))
        same(A, wanted(states, n, p, 0, perms), f'image of the sample {b!r}')
    expect_eq(lens, [L for L in range(lo, hi + 1) for _ in range(count)], 'lengths of the samples')
    again, _ = bs.sample_braids_images_upto_length(rep, lo, hi, count, rand=random.Random(case['seed']))
    expect(again == braids, 'sampling twice with the same random state gave different braids')
    one, img = bs.sample_braids_images(rep, hi, count, rand=random.Random(case['seed']))
    for b, A in zip(one, img):
        power, perms = read_gnf(b, n)
        expect_eq((power, len(perms)), (0, hi), f'power and length of the sample {b!r}')
        same(A, wanted(states, n, p, 0, perms), f'image of the sample {b!r}')
    obs.nontrivial(len(seen) > 1)


@functools.cache
def all_seqs(n, length):
    table = gens.garside_followers(n)
    out = [()]
    for _ in range(length):
        out = [s + (y,) for s in out for y in table[s[-1] if s else tuple(reversed(range(n)))]]
    return out


def check_below_one(case, obs):
    n, r, p, length = case['n'], case['r'], case['p'], case['length']
    rep, states = rep_and_states(n, r, p)
    braids, images = bs.all_of_length_below_1(rep, length)
    want = {}
    for s in all_seqs(n, length):
        m = wanted(states, n, p, 0, s)
        lo, hi = rp.mspan(m)
        if (hi - lo) / 2 / length < 1:
            want[s] = m
    expect_eq(len(images), len(braids), 'number of images')
    got = []
    for b, A in zip(braids, images):
        power, perms = read_gnf(b, n)
        got.append(tuple(perms))
        expect_eq(power, 0, 'power')
        same(A, want.get(tuple(perms), []), f'image of {b!r}')
    expect(sorted(got) == sorted(want), lambda: f'found {len(got)} braids, there are {len(want)}')
    obs.label(f'n={n} r={r} length={length}', f'found={min(len(got), 50) // 10 * 10}')
    obs.nontrivial(0 < len(want) < len(all_seqs(n, length)))


def check_batched(case, obs):
    k, m = case['size'], case['chunk']
    chunks = [list(c) for c in bs.batched(iter(range(k)), m)]
    expect_eq([x for c in chunks for x in c], list(range(k)), 'the chunks, put together')
    expect(all(len(c) == m for c in chunks[:-1]) and all(0 < len(c) <= m for c in chunks), lambda: f'chunks of lengths {[len(c) for c in chunks]}')
    obs.nontrivial(k > m > 1)


TESTS = [
    Test('same_length', batch([2, 3, 3, 4, 4, 4, 5], 9, 10, False), check_same_length, quick=120, thorough=3000, shards=2),
    Test('same_length_long', batch([3, 4, 5], 30, 5, False, [2, 3, 5, 41, 1009, 8191]), check_same_length, quick=30, thorough=600),
    Test('same_length_longer', longer, check_same_length, quick=20, thorough=300),
    Test('tall', tall_case([(3, 1), (3, 1), (4, 1), (4, 2), (5, 1)]), check_tall, quick=30, thorough=600, shards=2),
    Test('products', products([3, 4, 4, 5], 12, PRIMES), check_products, quick=60, thorough=1500),
    Test('products_long', products([4, 5], 45, [2, 3, 5, 1009, 8191, 8191], 20), check_products, quick=50, thorough=500),
    Test('same_length6', batch([6], 4, 4, False), check_same_length, quick=15, thorough=300, thorough_shards=4),
    Test('large', lambda: st.sampled_from([(3, 1), (4, 1), (4, 2)]).flatmap(lambda nr: large(nr, [0, 2, 5, 8191], lambda n, L: gens.garside_seq(n, L, L))), check_large, quick=50, thorough=400, thorough_shards=4),
    Test('tiny', batch([1, 1, 2], 3, 5, False), check_same_length, quick=20, thorough=100, thorough_shards=1),
    Test('tiny_mixed', batch([1, 1, 2], 3, 5, True), check_mixed, quick=20, thorough=100, thorough_shards=1),
    Test('mixed', batch([2, 3, 4, 4, 5], 6, 10, True), check_mixed, quick=120, thorough=3000),
    Test('rep', lambda: reps([2, 3, 4, 5]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), perms=st.lists(gens.perm(nr[0]), max_size=5)))), check_rep, quick=150, thorough=3000),
    Test('sampled', lambda: reps([3, 4, 5]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), lo=st.integers(0, 3), hi=st.integers(3, 6), count=st.integers(1, 4),
        seed=st.integers(0, 10**6)))), check_sampled, quick=60, thorough=1500),
    Test('below_one', lambda: st.sampled_from([(3, r, L) for r in (0, 1) for L in (1, 2, 3, 4, 5)] + [(4, r, L) for r in (0, 1, 2) for L in (1, 2)]).flatmap(
        lambda t: st.fixed_dictionaries(dict(n=st.just(t[0]), r=st.just(t[1]), length=st.just(t[2]), p=st.sampled_from([0, 2, 3, 5])))),
        check_below_one, quick=40, thorough=64, thorough_shards=1),
    # More than a thousand braids, which is as many as are looked at together.
    Test('below_one_large', lambda: st.sampled_from([(3, 0, 9), (3, 1, 9), (3, 1, 10), (4, 1, 4), (4, 2, 4)]).flatmap(
        lambda t: st.fixed_dictionaries(dict(n=st.just(t[0]), r=st.just(t[1]), length=st.just(t[2]), p=st.sampled_from([0, 2, 3, 5])))),
        check_below_one, quick=4, thorough=20, thorough_shards=2),
    Test('batched', lambda: st.fixed_dictionaries(dict(size=st.integers(0, 60), chunk=st.integers(1, 20))), check_batched, quick=100, thorough=1000, thorough_shards=1),
]
