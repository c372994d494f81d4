"""C07: fast (tensor) evaluation agrees with exact evaluation up to a power of v, whatever the batch."""
import functools
import random

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import KIND, basis_states, make, read_polymat, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, JonesCellRep, NPar, Permutation

PROPERTY = 'C07'
RULE = ('batches of up to 12 braids of one canonical length with varying Garside powers, batches of factor sequences, '
        'single words, permutations and partitions, in every two-row representation for n from 1 to 6 and p = 0 or '
        'prime; each image must be the exact matrix (independent link-state model) divided by its lowest power of v, '
        'with entries reduced mod p. Non-trivial: at least two different images in the batch, or a word of length 2')
ASSUMPTIONS = ['p = 0 cases with coefficients beyond 2^62 are left out: the code documents int64 coefficients',
               'primes up to 8191: the code documents 32-bit coefficients mod p and primes of at most 2^13 or so']
PRIMES = [0, 0, 2, 2, 3, 5, 7, 41, 1009, 8191]


@functools.cache
def rep_and_states(n, r, p):
    rep = JonesCellRep(n, r, p)
    return rep, basis_states(n, r, rep.tl_basis())


def reps(ns):
    return st.sampled_from([(n, r) for n in ns for r in range(n // 2 + 1)])


def exact(states, word, p):
    """The projectivised exact matrix as a dict matrix, or None if too big for int64."""
    shift, X = rp.cell_eval(states, word, p)
    if X.dtype == object and max((abs(int(c)) for c in X.flat), default=0) >= 2**62:
        return None
    return rp.mproj(rp.arr_to_mat(shift, X))


def same_image(A, states, word, p, what):
    want = exact(states, word, p)
    if want is None:
        return None
    got = read_polymat(A)
    expect(got == want, lambda: f'{what}: got {got}, wanted {want}')
    return want


def kind_word(kind, n, power, seq):
    power %= 2 if kind == 'GNF' else n          # the full twist is a power of v, in these representations
    if kind == 'GNF':
        return rb.power_word(rb.delta_word(n), power) + [l for x in seq for l in rb.perm_word(tuple(x))]
    return rb.power_word(rb.dual_delta_word(n), power) + [l for x in seq for l in rb.partition_word(x)]


def build(kind, n, power, seq):
    cls = KIND[kind]
    b = (GNF.from_perm_seq(n, [Permutation(tuple(x)) for x in seq]) if kind == 'GNF'
         else DGNF.from_npar_seq(n, [NPar.from_components(n, x) for x in seq]))
    return cls(n, power, ()) * b


powers = st.one_of(st.integers(-7, 7), st.integers(-7, 7), gens.any_size(100))


def batch_case(ns, maxlen, maxbatch, primes=PRIMES, kinds=('GNF', 'DGNF')):
    def f(nr):
        n, r = nr
        def g(t):
            kind, L = t
            one = gens.garside_seq(n, L, L) if kind == 'GNF' else gens.dual_seq(n, L, L)
            return st.fixed_dictionaries(dict(
                n=st.just(n), r=st.just(r), p=st.sampled_from(primes), kind=st.just(kind),
                batch=st.lists(st.tuples(powers, one).map(list), min_size=1, max_size=maxbatch)))
        # There are no normal forms of positive length on fewer than three strands.
        return st.tuples(st.sampled_from(kinds), st.integers(0, maxlen if n >= 3 else 0)).flatmap(g)
    return lambda: reps(ns).flatmap(f)


def check_batch(case, obs):
    n, r, p, kind = case['n'], case['r'], case['p'], case['kind']
    rep, states = rep_and_states(n, r, p)
    braids = [build(kind, n, pw, seq) for pw, seq in case['batch']]
    images = rep.polymat_evaluate_braids_of_same_length(braids)
    expect(isinstance(images, np.ndarray) and images.ndim == 4 and images.shape[:3] == (len(braids), len(states), len(states)),
           lambda: f'shape {getattr(images, "shape", None)} of the images of {len(braids)} braids')
    if p:
        expect(images.min() >= 0 and images.max() < p, lambda: f'entries between {images.min()} and {images.max()} mod {p}')
    mats = []
    for k, (pw, seq) in enumerate(case['batch']):
        mats.append(same_image(images[k], states, kind_word(kind, n, pw, seq), p, f'image {k} of the batch'))
    k = len(braids) // 2
    if mats[k] is not None:
        expect(read_polymat(rep.polymat_evaluate_braid(braids[k])) == mats[k], lambda: f'polymat_evaluate_braid({braids[k]!r})')
    obs.label(kind, f'n={n} r={r}', 'p=0' if p == 0 else 'p>0', f'batch={len(braids)}')
    obs.label('skipped' if None in mats else 'compared')
    obs.nontrivial(any(m != mats[0] for m in mats))


def check_mul(case, obs):
    """polymat_mul of two batches, with broadcasting, gives the images of the products."""
    n, r, p, kind = case['n'], case['r'], case['p'], case['kind']
    rep, states = rep_and_states(n, r, p)
    L = len(case['batch'])
    half = (L + 1) // 2
    left, right = case['batch'][:half], case['batch'][half:] or case['batch'][:1]
    if any(len(s) != len(left[0][1]) for _, s in left) or any(len(s) != len(right[0][1]) for _, s in right):
        return
    A = rep.polymat_evaluate_braids_of_same_length([build(kind, n, *x) for x in left])
    B = rep.polymat_evaluate_braids_of_same_length([build(kind, n, *x) for x in right])
    P = rep.polymat_mul(A[:, None, ...], B[None, :, ...])
    expect_eq(P.shape[:4], (len(left), len(right), len(states), len(states)), 'shape of a batch of products')
    for i, x in enumerate(left):
        for j, y in enumerate(right):
            same_image(P[i, j], states, kind_word(kind, n, *x) + kind_word(kind, n, *y), p, f'product ({i}, {j})')
    one = rep.polymat_id()
    expect(read_polymat(rep.polymat_mul(A, one)[0]) == read_polymat(A[0]), 'A * id')
    expect(read_polymat(rep.polymat_mul(one, A)[0]) == read_polymat(A[0]), 'id * A')
    obs.nontrivial(len(left) > 1 and len(states) > 1)


def check_word(case, obs):
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    m = same_image(rep.polymat_evaluate_artin_word(tup(w)), states, w, p, f'polymat_evaluate_artin_word({w})')
    for kind in ('GNF', 'DGNF'):
        b = make(kind, n, w)
        same_image(rep.polymat_evaluate_braid(b), states, w, p, f'polymat_evaluate_braid({b!r})')
        same_image(rep.polymat_evaluate(b), states, w, p, f'polymat_evaluate({b!r})')
    x = tuple(case['perm'])
    same_image(rep.polymat_evaluate(Permutation(x)), states, rb.perm_word(x), p, f'polymat_evaluate(Permutation({x}))')
    q = NPar.from_components(n, case['part'])
    same_image(rep.polymat_evaluate(q), states, rb.partition_word(case['part']), p, f'polymat_evaluate({q!r})')
    gs, invs = rep.polymat_artin_gens_invs()
    expect_eq((len(gs), len(invs)), (n - 1, n - 1), 'number of generators')
    for i in range(n - 1):
        same_image(gs[i], states, [[i, 1]], p, f'generator {i}')
        same_image(invs[i], states, [[i, -1]], p, f'inverse generator {i}')
    obs.label(f'n={n} r={r}', 'p=0' if p == 0 else 'p>0', 'skipped' if m is None else 'compared')
    obs.nontrivial(sum(abs(e) for _, e in w) >= 2 and len(states) > 1)


def tallest(states, piece, times):
    """A word of as many repetitions as leave the coefficients within 64 bits, and its image."""
    while True:
        want = exact(states, piece * times, 0)
        if want is not None:
            return piece * times, want
        times -= 1 + times // 4


def check_tall(case, obs):
    """Words whose matrices have integer coefficients of up to 62 bits."""
    n, r = case['n'], case['r']
    rep, states = rep_and_states(n, r, 0)
    w, want = tallest(states, case['piece'], min(case['times'], 100 // len(case['piece'])))
    b = make(case['kind'], n, w)
    half = len(w) // 2
    X, Y = (rep.polymat_evaluate_artin_word(tup(x)) for x in (w[:half], w[half:]))
    for what, A in [('polymat_evaluate_artin_word', rep.polymat_evaluate_artin_word(tup(w))), ('polymat_evaluate', rep.polymat_evaluate(b)),
                    ('polymat_evaluate_braid', rep.polymat_evaluate_braid(b)), ('the last of a batch', rep.polymat_evaluate_braids_of_same_length([KIND[case['kind']](n, 1, ()) * b, b])[-1]),
                    ('polymat_mul', rep.polymat_mul(X, Y)), ('polymat_mul by the identity', rep.polymat_mul(rep.polymat_id(), rep.polymat_mul(X, Y)))]:
        expect(read_polymat(A) == want, lambda: f'{what} of {case["piece"]} repeated {len(w) // len(case["piece"])} times: got {read_polymat(A)}, wanted {want}')
    most = max(abs(c) for row in want for x in row for c in x.values())
    obs.bucket('bits', most.bit_length(), edges=(0, 8, 16, 31, 32, 48, 53, 60))
    obs.nontrivial(most.bit_length() > 31)


def tall_case(rs):
    return lambda: st.sampled_from(rs).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), kind=st.sampled_from(['GNF', 'DGNF']), times=st.integers(1, 60),
        piece=st.one_of(gens.letters(nr[0], 8, 2), st.lists(st.integers(0, nr[0] - 2), min_size=2, max_size=8).map(lambda xs: [[i, 1 - 2 * (i % 2)] for i in xs]),
                        st.just([[i, 1 - 2 * (i % 2)] for i in range(nr[0] - 1)])))))


def check_wide(case, obs):
    """Words, permutations and partitions on more strands than there are tables for."""
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    m = same_image(rep.polymat_evaluate_artin_word(tup(w)), states, w, p, f'polymat_evaluate_artin_word({w})')
    x = tuple(case['perm'])
    same_image(rep.polymat_evaluate(Permutation(x)), states, rb.perm_word(x), p, f'polymat_evaluate(Permutation({x}))')
    q = NPar.from_components(n, case['part'])
    same_image(rep.polymat_evaluate(q), states, rb.partition_word(case['part']), p, f'polymat_evaluate({q!r})')
    obs.label(f'n={n} r={r}', 'p=0' if p == 0 else 'p>0', 'skipped' if m is None else 'compared')
    obs.nontrivial(sum(abs(e) for _, e in w) >= 2 and len(states) > 1)


def check_large(case, obs):
    """Thousands of braids at once, each one many times over."""
    n, r, p, kind = case['n'], case['r'], case['p'], case['kind']
    rep, states = rep_and_states(n, r, p)
    order = [k for k, (_, _, count) in enumerate(case['runs']) for _ in range(count)]
    if case['shuffle']:
        random.Random(case['shuffle']).shuffle(order)
    order = np.array(order)
    distinct = [build(kind, n, pw, seq) for pw, seq, _ in case['runs']]
    images = rep.polymat_evaluate_braids_of_same_length([distinct[k] for k in order])
    expect_eq(images.shape[:3], (len(order), len(states), len(states)), f'shape of the images of {len(order)} braids')
    mats = []
    for k, (pw, seq, _) in enumerate(case['runs']):
        X = images[order == k]
        expect((X == X[:1]).all(), lambda: f'the images of {distinct[k]!r} differ from each other in a batch of {len(order)}')
        mats.append(same_image(X[0], states, kind_word(kind, n, pw, seq), p, f'image in a batch of {len(order)}'))
    obs.bucket('batch', len(order), edges=(0, 100, 500, 1000, 2000, 4000, 8000))
    obs.nontrivial(len(order) > 500 and any(m != mats[0] for m in mats))


def large(t):
    nr, kind = t
    return st.sampled_from([0, 1, 2, 3, 3, 4, 5, 6]).flatmap(lambda L: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from([0, 2, 5, 8191]), shuffle=st.sampled_from([0, 0, 0, 1]), kind=st.just(kind),
        runs=st.lists(st.tuples(powers, gens.garside_seq(nr[0], L, L) if kind == 'GNF' else gens.dual_seq(nr[0], L, L),
                                st.sampled_from([1, 60, 257, 600, 600, 1100, 2100, 4200])).map(list), min_size=2, max_size=3))))


def ints_case(ns, maxlen, maxbatch, kinds=('GNF', 'DGNF'), least=1):
    def f(nr):
        n, r = nr
        def g(t):
            kind, L = t
            order = len(gens.perms_list(n)) if kind == 'GNF' else len(gens.parts_list(n))
            return st.fixed_dictionaries(dict(
                n=st.just(n), r=st.just(r), p=st.sampled_from(PRIMES), kind=st.just(kind),
                seqs=st.lists(st.lists(st.integers(0, order - 1), min_size=L, max_size=L), min_size=least, max_size=maxbatch)))
        return st.tuples(st.sampled_from(kinds), st.integers(0, maxlen)).flatmap(g)
    return lambda: reps(ns).flatmap(f)


@functools.cache
def divisors(kind, n):
    """Words for the divisors of the Garside element in the table's order, learned through single-factor braids."""
    from peyl.braid import NParTable, PermTable
    if kind == 'GNF':
        return [rb.perm_word(tuple(x.word)) for x in PermTable.create(n).divs]
    return [rb.partition_word(x.components()) for x in NParTable.create(n).divs]


def check_ints(case, obs):
    n, r, p, kind, seqs = case['n'], case['r'], case['p'], case['kind'], case['seqs']
    rep, states = rep_and_states(n, r, p)
    images = rep.polymat_evaluate_braid_integers_of_same_length(KIND[kind], seqs)
    expect_eq(images.shape[:3], (len(seqs), len(states), len(states)), 'shape of the images of factor sequences')
    if p:
        expect(images.min() >= 0 and images.max() < p, lambda: f'entries between {images.min()} and {images.max()} mod {p}')
    ws = divisors(kind, n)
    mats = [same_image(images[k], states, [l for x in s for l in ws[x]], p, f'image of the factors {s}') for k, s in enumerate(seqs)]
    obs.label(kind, f'n={n} r={r}')
    obs.nontrivial(any(m != mats[0] for m in mats))


TESTS = [
    Test('batches', batch_case([3, 3, 4, 4, 4, 5, 5], 9, 12), check_batch, quick=250, thorough=5000, shards=2),
    Test('batches_long', batch_case([3, 4, 5], 40, 6, [2, 3, 5, 41, 8191]), check_batch, quick=60, thorough=1500),
    Test('batches6', batch_case([6], 5, 5), check_batch, quick=25, thorough=600, thorough_shards=4),
    Test('batches7', batch_case([7], 4, 4, kinds=('DGNF',)), check_batch, quick=25, thorough=400, thorough_shards=2),
    Test('batches12', batch_case([1, 2], 0, 6), check_batch, quick=40, thorough=400),
    Test('large', lambda: st.tuples(st.sampled_from([(3, 1), (4, 1), (4, 2)]), st.sampled_from(['GNF', 'DGNF'])).flatmap(large), check_large, quick=80, thorough=500, thorough_shards=4),
    Test('products', batch_case([3, 4, 4, 5], 5, 6), check_mul, quick=150, thorough=3000),
    Test('products_long', batch_case([3, 4, 4, 5], 50, 4, [2, 3, 5, 1009, 8191]), check_mul, quick=80, thorough=500),
    Test('words', lambda: reps([2, 3, 4, 4, 5]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), word=gens.word(nr[0], 30), perm=gens.perm(nr[0]), part=gens.ncpart(nr[0])))),
        check_word, quick=80, thorough=4000, shards=4),
    Test('words1', lambda: st.fixed_dictionaries(dict(n=st.just(1), r=st.just(0), p=st.sampled_from(PRIMES), word=st.just([]), perm=st.just([0]), part=st.just([[0]]))),
         check_word, quick=10, thorough=20, thorough_shards=1),
    Test('tall', tall_case([(3, 1), (3, 1), (4, 1), (4, 2), (5, 1)]), check_tall, quick=30, thorough=600, shards=2),
    Test('wide', lambda: reps([6, 7, 8]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), word=gens.word(nr[0], 24), perm=gens.perm(nr[0]), part=gens.ncpart(nr[0])))),
        check_wide, quick=60, thorough=1500),
    Test('integers', ints_case([3, 4, 4, 5], 8, 6), check_ints, quick=200, thorough=3000),
    # More than 128 divisors, and more than 256 and 512.
    Test('integers6', ints_case([6], 3, 12, ('DGNF',), 4), check_ints, quick=40, thorough=400, thorough_shards=2),
    Test('integers6_gnf', ints_case([6], 2, 12, ('GNF',), 4), check_ints, quick=25, thorough=400, thorough_shards=2),
]
