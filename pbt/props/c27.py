"""C27: the Lawrence-Krammer-Bigelow representation is Krammer's, exactly and as tensors, for all parameters."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import KIND, make, read_matrix, read_polymat, to_lpoly, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, NPar, Permutation
from peyl.jonesrep import LKBRep

PROPERTY = 'C27'
RULE = ('representations on 2 to 5 strands with parameters plus or minus powers of v, over the integers or mod a prime, and words, normal forms of '
        'both kinds, permutations, partitions, batches and sequences of factors; every image is compared with Krammer\'s published matrices, '
        'multiplied independently. Non-trivial: an image which is not diagonal, of a word with at least two different generators')
ASSUMPTIONS = ['p = 0 cases with coefficients beyond 2^62 are left out: the code documents int64 coefficients']
PRIMES = [0, 0, 2, 3, 5, 7, 101, 1009]


@functools.lru_cache(maxsize=2000)
def generators(n, q, t):
    """Krammer's matrices, by columns: (i, j) -> {(k, l): coefficient}; q and t are (sign, exponent)."""
    q, t = {q[1]: q[0]}, {t[1]: t[0]}
    one, qm1 = {0: 1}, rp.ladd(q, {0: -1})

    def mono(*xs):
        return functools.reduce(rp.lmul, xs, one)
    out = []
    pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    for k in range(1, n):
        cols = {}
        for i, j in pairs:
            if (i, j) == (k, k + 1):
                c = {(k, k + 1): mono(t, q, q)}
            elif j == k:
                c = {(i, k): rp.lneg(qm1), (i, k + 1): q}
            elif j == k + 1:
                c = {(i, k): one, (k, k + 1): mono(t, rp.lpow(q, k - i + 1), qm1)}
            elif i == k:
                c = {(k, k + 1): mono(t, q, qm1), (k + 1, j): q}
            elif i == k + 1:
                c = {(k, j): one, (k + 1, j): rp.lneg(qm1)}
            elif i < k and k + 1 < j:
                c = {(i, j): one, (k, k + 1): mono(t, rp.lpow(q, k - i), qm1, qm1)}
            else:
                c = {(i, j): one}
            cols[i, j] = c
        out.append([[cols[c].get(r, {}) for c in pairs] for r in pairs])
    return out


def inverse(A, q, t):
    """Each generator has eigenvalues 1, -q, tq^2: A^-1 from (A - 1)(A + q)(A - tq^2) = 0, verified."""
    q, t = {q[1]: q[0]}, {t[1]: t[0]}
    n = len(A)
    a, b = {0: 1}, rp.lneg(q)
    c = rp.lmul(t, rp.lmul(q, q))
    e1 = rp.ladd(a, rp.ladd(b, c))
    e2 = rp.ladd(rp.lmul(a, b), rp.ladd(rp.lmul(b, c), rp.lmul(a, c)))
    (d, s), = rp.lmul(a, rp.lmul(b, c)).items()
    AA = rp.mmul(A, A)
    X = [[rp.lmul({-d: s}, rp.ladd(AA[i][j], rp.ladd(rp.lneg(rp.lmul(e1, A[i][j])), e2 if i == j else {}))) for j in range(n)] for i in range(n)]
    assert rp.mmul(A, X) == rp.mid(n)
    return X


@functools.lru_cache(maxsize=2000)
def both(n, q, t):
    g = generators(n, q, t)
    return g, [inverse(A, q, t) for A in g]


def image(n, q, t, word, p):
    g, inv = both(n, q, t)
    out = rp.mid(n * (n - 1) // 2)
    for i, e in word:
        for _ in range(abs(e)):
            out = rp.mmod(rp.mmul(out, (g if e > 0 else inv)[i]), p)
    return out


def unit(x):
    return to_lpoly({x[1]: x[0]})


def setting(case):
    n, p, q, t = case['n'], case['p'], tuple(case['q']), tuple(case['t'])
    return n, p, q, t, LKBRep(n, p, unit(q), unit(t))


def fits(M, p):
    """The code says coefficients are int64: leave out what is not."""
    return p or all(abs(c) < 2**62 for row in M for x in row for c in x.values())


def interesting(n, word, M, obs):
    obs.nontrivial(len({i for i, _ in word}) >= min(2, n - 1) and any(M[i][j] for i in range(len(M)) for j in range(len(M)) if i != j))


def check_word(case, obs):
    n, p, q, t, rep = setting(case)
    w = case['word']
    expect_eq(rep.dimension(), n * (n - 1) // 2, 'dimension')
    g, inv = both(n, q, t)
    gs, invs = rep.artin_gens_invs()
    expect_eq((len(gs), len(invs)), (n - 1, n - 1), 'number of generators')
    for a, b, x, y in zip(gs, invs, g, inv):
        expect_eq(rp.mmod(read_matrix(a, len(x)), p), rp.mmod(x, p), 'a generator')
        expect_eq(rp.mmod(read_matrix(b, len(x)), p), rp.mmod(y, p), 'the inverse of a generator')
    want = image(n, q, t, w, p)
    expect_eq(read_matrix(rep.evaluate_artin_word(tup(w)), len(want)), want, f'the image of {w}')
    b = make(case['kind'], n, w)
    expect_eq(read_matrix(rep.evaluate(b), len(want)), want, f'the image of {b!r}')
    if fits(want, p):
        proj = rp.mproj(want)
        for what, X in [('word', rep.polymat_evaluate_artin_word(tup(w))), ('evaluate', rep.polymat_evaluate(b)), ('braid', rep.polymat_evaluate_braid(b))]:
            expect_eq(read_polymat(X), proj, f'the tensor ({what}) of {w}')
            obs.label(what)
    interesting(n, w, want, obs)


def check_tall(case, obs):
    """Words whose matrices have integer coefficients of up to 62 bits."""
    n, q, t = case['n'], tuple(case['q']), tuple(case['t'])
    rep = LKBRep(n, 0, unit(q), unit(t))
    times, want = case['times'], None
    while want is None:
        w = case['piece'] * times
        want = image(n, q, t, w, 0)
        if not fits(want, 0):
            want = None
            times -= 1 + times // 8
    proj = rp.mproj(want)
    b = make(case['kind'], n, w)
    expect_eq(read_matrix(rep.evaluate_artin_word(tup(w)), len(want)), want, f'the image of {w}')
    for what, X in [('word', rep.polymat_evaluate_artin_word(tup(w))), ('evaluate', rep.polymat_evaluate(b)), ('braid', rep.polymat_evaluate_braid(b))]:
        expect_eq(read_polymat(X), proj, f'the tensor ({what}) of {case["piece"]} repeated {times} times')
    most = max(abs(c) for row in want for x in row for c in x.values())
    obs.bucket('bits', most.bit_length(), edges=(0, 8, 16, 31, 32, 48, 53, 60))
    obs.nontrivial(most.bit_length() > 31)


def check_generators(case, obs):
    """On many strands, generators and words of two of them, applied to the vectors they move."""
    n, p, q, t, rep = setting(case)
    g, inv = both(n, q, t)
    gs, invs = rep.artin_gens_invs()
    expect_eq((len(gs), len(invs), rep.dimension()), (n - 1, n - 1, n * (n - 1) // 2), 'numbers of generators, and dimension')
    for k, (a, b, x, y) in enumerate(zip(gs, invs, g, inv)):
        expect_eq(rp.mmod(read_matrix(a, len(x)), p), rp.mmod(x, p), f'generator {k} on {n} strands')
        expect_eq(rp.mmod(read_matrix(b, len(x)), p), rp.mmod(y, p), f'the inverse of generator {k} on {n} strands')
    tensors = [read_polymat(X) for X in (*rep.polymat_artin_gens_invs()[0], *rep.polymat_artin_gens_invs()[1])]
    expect_eq(tensors, [rp.mproj(rp.mmod(x, p)) for x in (*g, *inv)], f'tensors of the generators on {n} strands')
    obs.bucket('n', n, edges=range(10))
    obs.nontrivial(n >= 4)


def check_objects(case, obs):
    n, p, q, t, rep = setting(case)
    perm, part = Permutation(tuple(case['perm'])), NPar.from_components(n, case['part'])
    for x, w in [(perm, rb.perm_word(tuple(case['perm']))), (part, rb.partition_word(case['part']))]:
        want = image(n, q, t, w, p)
        expect_eq(read_matrix(rep.evaluate(x), len(want)), want, f'the image of {x!r}')
        expect_eq(read_polymat(rep.polymat_evaluate(x)), rp.mproj(want), f'the tensor of {x!r}')
        interesting(n, w, want, obs)


def check_batch(case, obs):
    n, p, q, t, rep = setting(case)
    kind = case['kind']
    lift = (lambda x: rb.perm_word(tuple(x))) if kind == 'GNF' else rb.partition_word
    garside = rb.delta_word(n) if kind == 'GNF' else rb.dual_delta_word(n)
    length = min(len(s) for s in case['seqs'])
    braids, wants = [], []
    for k, s in zip(case['powers'], case['seqs']):
        w = [l for x in s[:length] for l in lift(x)]
        b = KIND[kind](n, k, ()) * make(kind, n, w)
        expect_eq(b.canonical_length(), length, f'canonical length of {w}')
        W = rb.power_word(garside, k) + w
        M = image(n, q, t, W, p)
        if fits(M, p):
            braids.append(b)
            wants.append(rp.mproj(M))
            interesting(n, W, M, obs)
    if braids:
        X = rep.polymat_evaluate_braids_of_same_length(braids)
        expect_eq(X.shape[0], len(braids), 'length of a batch')
        for i, want in enumerate(wants):
            expect_eq(read_polymat(X[i]), want, f'the image of {braids[i]!r} in a batch')
        obs.bucket('batch', len(braids))


def check_relations(case, obs):
    """Words for the same braid have the same image."""
    n, p, q, t, rep = setting(case)
    gs, invs = rep.artin_gens_invs()
    i, j = case['i'] % (n - 1), case['j'] % (n - 1)

    def ev(w):
        return read_matrix(rep.evaluate_artin_word(w))
    if abs(i - j) == 1:
        expect_eq(ev([(i, 1), (j, 1), (i, 1)]), ev([(j, 1), (i, 1), (j, 1)]), 'a braid relation')
        expect_eq(ev([(i, 1), (j, -1), (i, -1)]), ev([(j, -1), (i, -1), (j, 1)]), 'a braid relation')
    elif i != j:
        expect_eq(ev([(i, 1), (j, -1)]), ev([(j, -1), (i, 1)]), 'a commutation')
    else:
        expect_eq(ev([(i, case['e']), (i, -case['e'])]), rp.mid(n * (n - 1) // 2), 'an inverse')
    # the full twist is a scalar
    two = ev(tup(rb.power_word(rb.delta_word(n), 2)))
    k = 2 * (n * q[1] + t[1])
    expect_eq(two, rp.mshift(rp.mid(len(two)), k), 'the full twist')
    obs.nontrivial(n > 2)


def check_numpy_prime(case, obs):
    """A prime read from a table of results is a numpy integer."""
    n, p, q, t, w = case['n'], case['p'], tuple(case['q']), tuple(case['t']), case['word']
    P = getattr(np, case['dtype'])(p)
    want = image(n, q, t, w, p)
    rep = LKBRep(n, P, unit(q), unit(t))
    expect_eq(read_matrix(rep.evaluate_artin_word(tup(w)), len(want)), want, f'the image of {w} modulo {P!r}')
    expect_eq(read_polymat(rep.polymat_evaluate_artin_word(tup(w))), rp.mproj(want), f'the tensor of {w} modulo {P!r}')
    obs.label(case['dtype'])
    interesting(n, w, want, obs)


units = st.tuples(st.sampled_from([1, -1]), st.integers(-3, 3)).map(list)


def strat(ns, f):
    return lambda: gens.with_n(ns, lambda n: dict(p=st.sampled_from(PRIMES), q=units, t=units, kind=st.sampled_from(['GNF', 'DGNF']), **f(n)))


def batch_strat():
    def one(t):
        n, kind = t
        seq = gens.garside_seq(n, 4) if kind == 'GNF' else gens.dual_seq(n, 5)
        return st.fixed_dictionaries(dict(n=st.just(n), kind=st.just(kind), p=st.sampled_from(PRIMES), q=units, t=units, powers=st.lists(st.integers(-4, 4), min_size=5, max_size=5),
                                          seqs=st.lists(seq, min_size=1, max_size=5)))
    return st.tuples(st.sampled_from([3, 3, 4]), st.sampled_from(['GNF', 'DGNF'])).flatmap(one)


TESTS = [
    Test('words', strat([2, 3, 3, 4, 4], lambda n: dict(word=gens.word(n, 10, 3))), check_word, quick=120, thorough=2000, shards=3),
    Test('tall', lambda: st.sampled_from([3, 3, 4]).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), q=units, t=units, kind=st.sampled_from(['GNF', 'DGNF']), times=st.integers(4, 30 if n == 3 else 10),
        piece=st.one_of(gens.letters(n, 6, 2), st.just([[i, 1 - 2 * (i % 2)] for i in range(n - 1)]))))), check_tall, quick=12, thorough=150, shards=2),
    Test('words5', strat([5], lambda n: dict(word=gens.letters(n, 8).map(gens.compress))), check_word, quick=12, thorough=300),
    Test('generators', strat([3, 4, 5, 6, 6, 7, 8], lambda n: {}), check_generators, quick=20, thorough=300),
    Test('objects', strat([2, 3, 4, 4, 5], lambda n: dict(perm=gens.perm(n), part=gens.ncpart(n))), check_objects, quick=30, thorough=600),
    Test('objects6', strat([6, 6, 7], lambda n: dict(perm=gens.perm(n), part=gens.ncpart(n))), check_objects, quick=6, thorough=60, thorough_shards=2),
    Test('batches', batch_strat, check_batch, quick=50, thorough=1200, shards=2),
    Test('numpy-prime', lambda: st.sampled_from([3, 3, 4]).flatmap(lambda n: st.sampled_from([2, 101, 1009, 8191]).flatmap(lambda p: st.fixed_dictionaries(dict(
        n=st.just(n), p=st.just(p), q=units, t=units, dtype=st.sampled_from([d for d in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64') if p <= np.iinfo(d).max]),
        word=gens.word(n, 16, 3))))), check_numpy_prime, quick=40, thorough=800),
    Test('relations', strat([2, 3, 4, 5], lambda n: dict(i=st.integers(0, 9), j=st.integers(0, 9), e=st.integers(1, 4))), check_relations, quick=40, thorough=600),
]
