"""C02: every braid value is a well-formed normal form and denotes what it was built from."""
import itertools
import random

from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import KIND, denoted_word, denotes, make, read_braid, read_dgnf, read_gnf, read_npar, tup
from ..engine import Test, expect, expect_eq
from peyl import BraidGroup, DGNF, GNF, NPar, Permutation

PROPERTY = 'C02'
RULE = ('words (with zero exponents and large powers), sequences of permutations or noncrossing partitions including '
        'trivial and longest ones, canonical decompositions and single generators are turned into braids; the value '
        'read from canonical_decomposition must be left-weighted with no trivial factor and have the same Dynnikov '
        'image as the source. Non-trivial: the braid has canonical length at least 2')


def word_case(ns, size):
    return lambda: gens.with_n(ns, lambda n: dict(
        kind=st.sampled_from(['GNF', 'DGNF']),
        word=st.builds(gens.zeros_inserted, gens.word(n, size), st.lists(st.tuples(st.integers(0, 99), st.integers(0, n - 2)), max_size=2)),
    ))


def check_word(case, obs):
    n, kind, w = case['n'], case['kind'], case['word']
    b = make(kind, n, w)
    denotes(b, n, w, f'{kind}.from_artin_word')
    expect(b.canonical_length() <= sum(abs(e) for _, e in w) * (1 if all(e >= 0 for _, e in w) else n),
           lambda: f'{b!r} is longer than the word {w} allows')
    # from_artin_word takes any iterable
    expect_eq(KIND[kind].from_artin_word(n, iter(tup(w))), b, 'from_artin_word of an iterator')
    obs.label(kind, f'n={n}')
    obs.bucket('length', b.canonical_length())
    obs.bucket('inf', b.inf(), (-50, -5, -1, 0, 1, 5))
    obs.nontrivial(b.canonical_length() >= 2)


def check_length(case, obs):
    """Words of a given number of letters, however many."""
    n, kind, m = case['n'], case['kind'], case['m']
    rand = random.Random(case['seed'])
    w = [[rand.randrange(n - 1), rand.choice(case['signs'])] for _ in range(m)]
    b = make(kind, n, w)
    denotes(b, n, w, f'{kind}.from_artin_word of {m} letters')
    if m > 1:
        k = 1 + case['cut'] % (m - 1)
        expect(make(kind, n, w[:k]) * make(kind, n, w[k:]) == b, lambda: f'the product of the first {k} letters and the others, of {m}, is another braid')
    vals = b.canonical_factors()
    again = (GNF.from_perm_seq if kind == 'GNF' else DGNF.from_npar_seq)(n, list(vals))
    expect(KIND[kind](n, b.inf(), ()) * again == b, lambda: f'the product of the {len(vals)} factors of a braid is another braid')
    obs.label(kind, f'n={n}')
    obs.bucket('letters', m, (1, 32, 64, 128, 256))
    obs.nontrivial(b.canonical_length() >= 16)


def lengths():
    edges = sorted({base * k + d for base in (8, 16, 25, 32, 50) for k in range(1, 41) for d in (-1, 0, 1, 2) if 1 <= base * k + d <= 321})
    return st.one_of(st.sampled_from(edges), st.integers(1, 320))


def seq_case(ns, m):
    return lambda: st.one_of(
        gens.with_n(ns, lambda n: dict(kind=st.just('GNF'), seq=gens.sized_lists(gens.perm(n), m))),
        gens.with_n(ns, lambda n: dict(kind=st.just('DGNF'), seq=gens.sized_lists(gens.ncpart(n), m))),
        gens.with_n(ns, lambda n: dict(kind=st.just('GNF'), seq=mixed(n, gens.perm(n), list(range(n)), list(range(n))[::-1], m))),
        gens.with_n(ns, lambda n: dict(kind=st.just('DGNF'), seq=mixed(n, gens.ncpart(n), [[i] for i in range(n)], [list(range(n))], m))),
        gens.with_n(ns, lambda n: dict(kind=st.just('GNF'), seq=gens.garside_seq(n, 3 * m))),
        gens.with_n(ns, lambda n: dict(kind=st.just('DGNF'), seq=gens.dual_seq(n, 3 * m))),
    )


def mixed(n, one, triv, full, m):
    return gens.sized_lists(st.one_of(one, st.just(triv), st.just(full)), m)


def check_seq(case, obs):
    n, kind, seq = case['n'], case['kind'], case['seq']
    if kind == 'GNF':
        vals = [Permutation(tuple(x)) for x in seq]
        b = GNF.from_perm_seq(n, vals)
        w = [l for x in seq for l in rb.perm_word(tuple(x))]
        lift = BraidGroup(n).positive_lift
        one = GNF.from_perm
    else:
        vals = [NPar.from_components(n, x) for x in seq]
        b = DGNF.from_npar_seq(n, vals)
        w = [l for x in seq for l in rb.partition_word(x)]
        lift = BraidGroup(n).from_npar
        one = DGNF.from_npar
    denotes(b, n, w, f'{kind} of the sequence {seq}')
    expect(b.canonical_length() <= len(seq), lambda: f'{b!r} is longer than the sequence {seq}')
    # an equal product in two halves
    k = len(seq) // 2
    f = GNF.from_perm_seq if kind == 'GNF' else DGNF.from_npar_seq
    expect_eq(f(n, vals[:k]) * f(n, vals[k:]), b, f'the product of the two halves of {seq}')
    for v, x in itertools.islice(zip(vals, seq), 4):
        wx = rb.perm_word(tuple(x)) if kind == 'GNF' else rb.partition_word(x)
        denotes(lift(v), n, wx, f'the lift of {x}')
        expect_eq(one(v), lift(v), f'the two ways of lifting {x}')
    obs.label(kind, f'n={n}')
    obs.nontrivial(b.canonical_length() >= 2)


def check_pair(case, obs):
    n, inf, seq = case['n'], case['inf'], case['seq']
    b = BraidGroup(n).from_gnf_pair((inf, tuple(tuple(x) for x in seq)))
    w = rb.power_word(rb.delta_word(n), inf) + [l for x in seq for l in rb.perm_word(tuple(x))]
    denotes(b, n, w, 'from_gnf_pair')
    power, factors = b.canonical_decomposition()
    again = BraidGroup(n).from_gnf_pair((power, tuple(p.word for p in factors)))
    expect_eq(again, b, 'from_gnf_pair of the canonical decomposition')
    for i in (0, -1):
        if factors:
            expect_eq(b.canonical_factor(i), factors[i], f'canonical_factor({i})')
    expect_eq(tuple(b.canonical_factors()), tuple(factors), 'canonical_factors')
    expect_eq(b.garside_length(), b.canonical_length(), 'garside_length')
    obs.label(f'n={n}')
    obs.nontrivial(b.canonical_length() >= 2)


def check_substring(case, obs):
    n, kind, w = case['n'], case['kind'], case['word']
    b = make(kind, n, w)
    power, factors = read_braid(b, n)
    L = len(factors)
    i, j = sorted((case['i'] % (L + 1), case['j'] % (L + 1)))
    s = b.substring(i, j)
    p2, f2 = read_braid(s, n)
    expect_eq((p2, f2), (power, factors[i:j]), f'substring({i}, {j}) of {b!r}')
    # The braid is the product of its pieces.
    cls = KIND[kind]
    expect_eq(b.substring(0, i) * cls(n, 0, b.factors[i:]), b, f'splitting {b!r} at {i}')
    obs.label(kind)
    obs.nontrivial(L >= 2 and 0 < i < j)


def check_seven(case, obs):
    """Dual normal forms go one number of strands further."""
    if 'seq' in case:
        check_seq(case, obs)
    elif 'length' in case:
        check_sample(case, obs)
    else:
        check_word(case, obs)


def check_sample(case, obs):
    n, L = case['n'], case['length']
    b = DGNF.sample(n, L, rand=random.Random(case['seed']))
    expect_eq((b.inf(), b.canonical_length()), (0, L), 'power and length of a sample')
    denotes(b, n, [l for f in b.canonical_factors() for l in rb.partition_word([sorted(x) for x in read_npar(f)])], 'a sample')
    obs.nontrivial(L >= 2)


def check_gens(case, obs):
    n = case['n']
    B = BraidGroup(n)
    if n == 7:          # too large for Garside normal forms
        for i, g in enumerate(DGNF.artin_gens(n)):
            denotes(g, n, [[i, 1]], f'DGNF.artin_gens[{i}]')
        for what, gs in (('bkl_gens', B.bkl_gens()), ('DGNF.bkl_gens', DGNF.bkl_gens(n))):
            expect_eq(set(gs), {(i, j) for i in range(n) for j in range(n)}, f'keys of {what}')
            for (i, j), g in gs.items():
                denotes(g, n, rb.bkl_word(i, j), f'{what}[{i}, {j}]')
        obs.nontrivial(True)
        return
    for what, gs in (('gens', B.gens()), ('GNF.artin_gens', GNF.artin_gens(n)), ('DGNF.artin_gens', DGNF.artin_gens(n))):
        expect_eq(len(gs), n - 1, f'number of {what}')
        for i, g in enumerate(gs):
            denotes(g, n, [[i, 1]], f'{what}[{i}]')
    for i, g in enumerate(B.invs()):
        denotes(g, n, [[i, -1]], f'invs[{i}]')
    for what, gs in (('bkl_gens', B.bkl_gens()), ('DGNF.bkl_gens', DGNF.bkl_gens(n))):
        expect_eq(set(gs), {(i, j) for i in range(n) for j in range(n)}, f'keys of {what}')
        for (i, j), g in gs.items():
            denotes(g, n, rb.bkl_word(i, j), f'{what}[{i}, {j}]')
    denotes(B.id(), n, [], 'id')
    denotes(GNF.identity(n), n, [], 'GNF.identity')
    denotes(DGNF.identity(n), n, [], 'DGNF.identity')
    obs.nontrivial(n >= 3)


TESTS = [
    Test('words', word_case(gens.NS, 36), check_word, quick=400, thorough=8000, shards=2),
    Test('long_words', lambda: gens.with_n([3, 4, 5], lambda n: dict(kind=st.sampled_from(['GNF', 'DGNF']), word=gens.long_word(n, 60, 220))),
         check_word, quick=80, thorough=1500),
    Test('lengths', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([3, 3, 4, 5]), kind=st.sampled_from(['GNF', 'DGNF']), m=lengths(), seed=st.integers(0, 10**6), cut=st.integers(0, 400),
         signs=st.sampled_from([[1, -1], [1], [-1], [1, 1, 1, -1], [1, 2, -1], [1, 0, -3]]))), check_length, quick=250, thorough=4000, shards=2),
    Test('words6', word_case([6], 40), check_word, quick=200, thorough=5000, thorough_shards=4),
    Test('sequences', seq_case(gens.NS, 10), check_seq, quick=400, thorough=8000),
    Test('sequences6', lambda: st.one_of(
        gens.with_n([6], lambda n: dict(kind=st.just('DGNF'), seq=gens.sized_lists(gens.ncpart(n), 9))),
        gens.with_n([6], lambda n: dict(kind=st.just('GNF'), seq=gens.sized_lists(gens.perm(n), 7)))), check_seq, quick=150, thorough=3000, thorough_shards=4),
    Test('gnf_pair', lambda: gens.with_n(gens.NS, lambda n: dict(inf=st.integers(-50, 50), seq=gens.sized_lists(gens.perm(n), 8))),
         check_pair, quick=300, thorough=5000),
    Test('substring', lambda: gens.with_n([3, 4, 5], lambda n: dict(kind=st.sampled_from(['GNF', 'DGNF']), word=gens.word(n, 40),
         i=st.integers(0, 99), j=st.integers(0, 99))), check_substring, quick=300, thorough=5000),
    Test('generators', lambda: gens.with_n([2, 3, 4, 5, 6], lambda n: {}), check_gens, quick=6, thorough=6, thorough_shards=1),
    Test('dual7', lambda: st.one_of(
        gens.with_n([7], lambda n: dict(kind=st.just('DGNF'), seq=gens.sized_lists(gens.ncpart(n), 9))),
        gens.with_n([7], lambda n: dict(kind=st.just('DGNF'), seq=gens.dual_seq(n, 20))),
        gens.with_n([7], lambda n: dict(kind=st.just('DGNF'), word=gens.word(n, 40))),
        gens.with_n([7], lambda n: dict(length=st.integers(0, 12), seed=st.integers(0, 10**6)))), check_seven, quick=150, thorough=3000, thorough_shards=4),
    Test('generators7', lambda: gens.with_n([7], lambda n: {}), check_gens, quick=1, thorough=1, thorough_shards=1),
]
