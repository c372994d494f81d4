"""C06: exact evaluation in the two-row representations."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import basis_states, is_int, make, read_matrix, tup
from ..engine import Test, expect, expect_eq
from peyl import JonesSummand, JonesCellRep, LPoly, NPar, Permutation

PROPERTY = 'C06'
RULE = ('representation (n, r, p) with n from 1 to 7, every r and p = 0 or prime, and a word, permutation, noncrossing '
        'partition or braid; the matrix must equal the action of 1 - v e_i on link states, computed independently '
        'and reduced mod p. Non-trivial: dimension at least 2 and a non-scalar matrix')
PRIMES = [0, 0, 2, 3, 5, 7, 11, 41, 101, 7919]


def reps(ns):
    return st.sampled_from([(n, r) for n in ns for r in range(n // 2 + 1)])


def with_rep(ns, f):
    return reps(ns).flatmap(lambda nr: st.fixed_dictionaries(dict(n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), **f(nr[0]))))


@functools.cache
def rep_and_states(n, r, p):
    rep = JonesCellRep(n, r, p)
    return rep, basis_states(n, r, rep.tl_basis())


def same_matrix(got, states, word, p, what):
    want = rp.cell_matrix_ref(states, word, p) if p < 2**28 else rp.mmod(rp.cell_matrix_ref(states, word, 0), p)
    m = read_matrix(got, len(states))
    expect(m == want, lambda: f'{what}: got {got!r}, wanted {want}')
    if p:
        expect(all(0 <= c < p for row in m for x in row for c in x.values()), f'{what}: coefficients are not reduced mod {p}')
    return want


def check_word(case, obs):
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    expect_eq(rep.dimension(), len(states), 'dimension')
    m = same_matrix(rep.evaluate_artin_word(tup(w)), states, w, p, f'evaluate_artin_word({w})')
    w2 = rb.scramble(n, w, case['ops']) if n > 1 else w
    if len(w2) <= 60:
        same_matrix(rep.evaluate_artin_word(tup(w2)), states, w, p, f'evaluate_artin_word({w2}), a word for the same braid')
    obs.label(f'n={n} r={r}', 'p=0' if p == 0 else 'p>0')
    obs.nontrivial(len(states) >= 2 and any(m[i][j] for i in range(len(m)) for j in range(len(m)) if i != j))


def check_obj(case, obs):
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    for kind in ('GNF', 'DGNF'):
        b = make(kind, n, w)
        m = same_matrix(rep.evaluate(b), states, w, p, f'evaluate({b!r})')
    x = tuple(case['perm'])
    same_matrix(rep.evaluate(Permutation(x)), states, rb.perm_word(x), p, f'evaluate(Permutation({x}))')
    q = NPar.from_components(n, case['part'])
    same_matrix(rep.evaluate(q), states, rb.partition_word(case['part']), p, f'evaluate({q!r})')
    obs.label(f'n={n} r={r}', 'p=0' if p == 0 else 'p>0')
    obs.nontrivial(len(states) >= 2 and any(m[i][j] for i in range(len(m)) for j in range(len(m)) if i != j))


def check_gens(case, obs):
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    gs, invs = rep.artin_gens_invs()
    expect_eq((len(gs), len(invs)), (n - 1, n - 1), 'number of generators')
    for i in range(n - 1):
        same_matrix(gs[i], states, [[i, 1]], p, f'generator {i}')
        same_matrix(invs[i], states, [[i, -1]], p, f'inverse generator {i}')
    same_matrix(rep.id(), states, [], p, 'id')
    if p == 0:
        # The integers are what you get without asking.
        for i, g in enumerate(JonesCellRep(n, r).artin_gens_invs()[0]):
            same_matrix(g, states, [[i, 1]], 0, f'generator {i} with no prime given')
    same_matrix(rep.evaluate_artin_word([]), states, [], p, 'the empty word')
    obs.nontrivial(len(states) >= 2)


def check_hom(case, obs):
    """Products of braids go to products of matrices (all computed by the code)."""
    n, r, p = case['n'], case['r'], case['p']
    rep, states = rep_and_states(n, r, p)
    a, b = make(case['kind'], n, case['a']), make(case['kind'], n, case['b'])
    A, B, AB = rep.evaluate(a), rep.evaluate(b), rep.evaluate(a * b)
    prod = rp.mmod(read_matrix(A * B), p)
    expect(read_matrix(AB) == prod, lambda: f'the matrix of {a!r} * {b!r} is not the product of the matrices')
    Ai = rep.evaluate(a.inv())
    expect(rp.mmod(read_matrix(A * Ai), p) == rp.mid(len(states)), lambda: f'the matrix of the inverse of {a!r}')
    obs.nontrivial(len(states) >= 2 and case['a'] and case['b'])


def check_powers(case, obs):
    """High powers of the generators."""
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    same_matrix(rep.evaluate_artin_word(tup(w)), states, w, p, f'evaluate_artin_word({w})')
    obs.bucket('exponent', max(abs(e) for _, e in w))
    obs.nontrivial(len(states) >= 2)


def check_long(case, obs):
    """Words of hundreds of letters."""
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    rep, states = rep_and_states(n, r, p)
    same_matrix(rep.evaluate_artin_word(tup(w)), states, w, p, f'evaluate_artin_word({w})')
    letters = [[i, 1 if e > 0 else -1] for i, e in w for _ in range(abs(e))]
    same_matrix(rep.evaluate_artin_word(iter(tup(letters))), states, w, p, f'evaluate_artin_word({letters}), letter by letter')
    if n <= 4:
        b = make(case['kind'], n, w)
        if len(b.artin_word()) < 700:
            same_matrix(rep.evaluate(b), states, w, p, f'evaluate({b!r})')
    obs.bucket('letters', len(letters), (0, 60, 100, 128, 200, 256, 300))
    obs.nontrivial(len(states) >= 2 and len(w) > 50)


def check_numpy_prime(case, obs):
    """A prime read from a table of results is a numpy integer."""
    n, r, p, w = case['n'], case['r'], case['p'], case['word']
    P = getattr(np, case['dtype'])(p)
    states = basis_states(n, r, rep_and_states(n, r, p)[0].tl_basis())
    same_matrix(JonesCellRep(n, r, P).evaluate_artin_word(tup(w)), states, w, p, f'evaluate_artin_word({w}) in JonesCellRep({n}, {r}, {P!r})')
    same_matrix(JonesCellRep(n, r, P).evaluate(make('GNF', n, w)), states, w, p, f'the braid {w} in JonesCellRep({n}, {r}, {P!r})')
    obs.label(case['dtype'], f'n={n} r={r}')
    obs.nontrivial(len(states) >= 2 and w)


def check_dimension(case, obs):
    """Dimensions are known for as many strands as you like."""
    n, r = case['n'], case['r'] % (case['n'] // 2 + 1)
    dim = [1] + [0] * r          # standard tableaux of two rows, by adding one box at a time
    for m in range(1, n + 1):
        dim = [(dim[k] if 2 * k <= m - 1 else 0) + (dim[k - 1] if k else 0) if 2 * k <= m else 0 for k in range(r + 1)]
    for rep in (JonesCellRep(n, r, 0), JonesCellRep(n, r, case['p']), JonesSummand(n, r, case['p'])):
        expect_eq(rep.dimension(), dim[r], f'dimension of {rep!r}')
    obs.bucket('bits', dim[r].bit_length(), (8, 16, 32, 53, 64))
    obs.nontrivial(r >= 1)


all_reps = [dict(n=n, r=r, p=p) for n in range(1, 7) for r in range(n // 2 + 1) for p in (0, 2, 5)]
TESTS = [
    Test('words', lambda: with_rep([2, 3, 3, 4, 4, 4, 5], lambda n: dict(word=gens.word(n, 24, 4), ops=gens.ops)), check_word, quick=180, thorough=4000, shards=2),
    Test('numpy-prime', lambda: reps([3, 4, 4, 5]).flatmap(lambda nr: st.sampled_from([2, 101, 7919, 65521, 134217689]).flatmap(lambda p: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.just(p), dtype=st.sampled_from([d for d in ('int8', 'uint8', 'int16', 'int32', 'int64', 'uint64') if p <= np.iinfo(d).max]),
        word=gens.word(nr[0], 40, 4))))), check_numpy_prime, quick=80, thorough=1500),
    Test('powers', lambda: with_rep([2, 3, 3, 4], lambda n: dict(word=gens.sized_lists(st.tuples(st.integers(0, n - 2), st.one_of(st.integers(-20, 20), st.integers(-130, 130))).map(list), 3, 1))), check_powers, quick=60, thorough=1500),
    Test('long', lambda: st.sampled_from([(3, 1), (3, 1), (4, 1), (4, 2), (5, 2)]).flatmap(lambda nr: st.fixed_dictionaries(dict(n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from([0, 2, 5, 2**61 - 1]),
        kind=st.sampled_from(['GNF', 'DGNF']), word=st.one_of(gens.long_word(nr[0], 60, 320 if nr[0] < 5 else 140), gens.random_word(nr[0], 320 if nr[0] < 5 else 140))))), check_long, quick=24, thorough=500),
    Test('objects', lambda: with_rep([3, 4, 4, 5], lambda n: dict(word=gens.word(n, 14, 3), perm=gens.perm(n), part=gens.ncpart(n))), check_obj, quick=100, thorough=2500, shards=2),
    Test('hom', lambda: with_rep([3, 4, 4], lambda n: dict(kind=st.sampled_from(['GNF', 'DGNF']), a=gens.word(n, 10, 2), b=gens.word(n, 10, 2))), check_hom, quick=100, thorough=2500),
    Test('words6', lambda: with_rep([5, 6, 6, 7], lambda n: dict(word=gens.letters(n, 9).map(gens.compress), ops=st.just([]))), check_word, quick=12, thorough=400),
    Test('dimensions', lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 20), st.integers(1, 200)), r=st.integers(0, 100), p=st.sampled_from(PRIMES))), check_dimension, quick=150, thorough=2000),
    # Many strands, in the representations which stay small.
    Test('many', lambda: st.sampled_from([(8, 1), (9, 1), (10, 1), (12, 1), (16, 1), (16, 0), (8, 2), (9, 2)]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from(PRIMES), word=gens.letters(nr[0], 9).map(gens.compress), ops=st.just([])))), check_word, quick=20, thorough=400),
    Test('gens', lambda: st.sampled_from(all_reps), check_gens, quick=30, thorough=200, corpus=[d for d in all_reps if d['n'] <= 5]),
]
