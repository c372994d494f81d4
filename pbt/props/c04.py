"""C04: conversions between normal forms and words lose nothing."""
from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import KIND, denoted_word, denotes, is_int, make, read_word, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, NPar, Permutation

PROPERTY = 'C04'
RULE = ('braids given by a word or a left-weighted sequence, with a Garside power up to +-30, are converted between '
        'the two normal forms, to Artin words and to Magma words and back; each must denote the same braid (same '
        'Dynnikov image) and come back equal. Non-trivial: canonical length at least 2')


def case_st(ns, size, m, pmax=30):
    return lambda: gens.with_n(ns, lambda n: dict(
        kind=st.sampled_from(['GNF', 'DGNF']),
        power=st.one_of(st.integers(-3, 3), st.integers(-pmax, pmax)),
        word=st.one_of(
            gens.word(n, size),
            gens.garside_seq(n, m).map(lambda s: [l for x in s for l in rb.perm_word(tuple(x))]),
            gens.dual_seq(n, m).map(lambda s: [l for x in s for l in rb.partition_word(x)]),
        )))


def check(case, obs):
    n, kind = case['n'], case['kind']
    cls = KIND[kind]
    a = cls(n, case['power'], ()) * make(kind, n, case['word'])
    truth = rb.power_word(rb.delta_word(n) if kind == 'GNF' else rb.dual_delta_word(n), case['power']) + case['word']
    denotes(a, n, truth, 'the braid')

    b = a.to_DGNF() if kind == 'GNF' else a.to_GNF()
    denotes(b, n, truth, f'conversion of {a!r}')
    back = b.to_GNF() if kind == 'GNF' else b.to_DGNF()
    expect_eq(back, a, f'{a!r} converted forth and back')

    for x in (a, b):
        w = read_word(n, x.artin_word(), 'artin_word')
        expect(rb.dynnikov(n, w) == rb.dynnikov(n, truth), lambda: f'artin_word of {x!r} is {w}, another braid')
        expect_eq(type(x).from_artin_word(n, tup(w)), x, 'from_artin_word(artin_word)')
        m = list(x.magma_artin_word())
        expect(all(is_int(t) and 1 <= abs(t) <= n - 1 for t in m), lambda: f'magma_artin_word {m}')
        mw = [[abs(t) - 1, 1 if t > 0 else -1] for t in m]
        expect(rb.dynnikov(n, mw) == rb.dynnikov(n, truth), lambda: f'magma_artin_word of {x!r} is {m}, another braid')
    # The other normal form of the word agrees with the conversion.
    expect_eq(type(b).from_artin_word(n, tup(truth)), b, 'the other normal form of the word')
    obs.label(kind, f'n={n}')
    obs.bucket('power', case['power'], (-30, -10, -3, 0, 1, 4, 10))
    obs.nontrivial(a.canonical_length() >= 2)


def check_words(case, obs):
    """Dual normal forms of one strand more than Garside normal forms: to words and back."""
    n = case['n']
    truth = rb.power_word(rb.dual_delta_word(n), case['power']) + case['word']
    a = DGNF(n, case['power'], ()) * make('DGNF', n, case['word'])
    denotes(a, n, truth, 'the braid')
    w = read_word(n, a.artin_word(), 'artin_word')
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, truth), lambda: f'artin_word of {a!r} is {w}, another braid')
    expect_eq(DGNF.from_artin_word(n, tup(w)), a, 'from_artin_word(artin_word)')
    m = list(a.magma_artin_word())
    expect(all(is_int(t) and 1 <= abs(t) <= n - 1 for t in m), lambda: f'magma_artin_word {m}')
    expect(rb.dynnikov(n, [[abs(t) - 1, 1 if t > 0 else -1] for t in m]) == rb.dynnikov(n, truth), lambda: f'magma_artin_word of {a!r} is {m}, another braid')
    obs.bucket('power', case['power'], (-30, -10, -3, 0, 1, 4, 10))
    obs.nontrivial(a.canonical_length() >= 2)


def check_factor(case, obs):
    n = case['n']
    x = tuple(case['perm'])
    w = read_word(n, Permutation(x).artin_word(), 'Permutation.artin_word')
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.perm_word(x)), lambda: f'artin word {w} of the permutation {x}')
    expect(all(e == 1 for _, e in w) and len(w) == rb.plen(x), lambda: f'artin word {w} of {x} is not positive and reduced')
    p = NPar.from_components(n, case['part'])
    w = read_word(n, p.artin_word(), 'NPar.artin_word')
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.partition_word(case['part'])), lambda: f'artin word {w} of {p!r}')
    expect(all(abs(e) == 1 for _, e in w), lambda: f'artin word {w} of {p!r} has other exponents')
    obs.nontrivial(rb.plen(x) > 1 and len(case['part']) < n - 1)


def check_powers(case, obs):
    """Garside powers of any size: the full twist is Δ² = δ^n, and passes through conversions."""
    n, kind, power = case['n'], case['kind'], case['power']
    cls, other = (GNF, DGNF) if kind == 'GNF' else (DGNF, GNF)
    convert = (lambda x: x.to_DGNF()) if kind == 'GNF' else (lambda x: x.to_GNF())
    order = {GNF: 2, DGNF: n}
    turns, rest = divmod(power, order[cls])
    a = make(kind, n, case['word'])
    big, small = cls(n, power, ()) * a, cls(n, rest, ()) * a
    c, d = convert(big), convert(small)
    denotes(d, n, rb.power_word(rb.delta_word(n) if kind == 'GNF' else rb.dual_delta_word(n), rest) + case['word'], f'conversion of {small!r}')
    expect_eq((c.inf(), list(c.canonical_factors())), (d.inf() + turns * order[other], list(d.canonical_factors())), f'conversion of {big!r}')
    back = c.to_DGNF() if kind == 'DGNF' else c.to_GNF()
    expect_eq(back, big, f'{big!r} converted forth and back')
    obs.label(kind, f'n={n}')
    obs.bucket('bits of the power', power.bit_length(), (0, 8, 16, 32, 53, 64, 128))
    obs.nontrivial(a.canonical_length() >= 1 and abs(power) > 100)


huge = gens.any_size(140)
TESTS = [
    Test('powers', lambda: gens.with_n(gens.NS, lambda n: dict(kind=st.sampled_from(['GNF', 'DGNF']), power=huge, word=gens.word(n, 16))), check_powers, quick=200, thorough=3000),
    Test('convert', case_st(gens.NS, 30, 10), check, quick=400, thorough=6000, shards=2),
    Test('convert_long', case_st([3, 4], 120, 40, 50), check, quick=60, thorough=1000),
    Test('convert5', case_st([5], 24, 8, 15), check, quick=120, thorough=3000),
    Test('convert6', case_st([6], 20, 5, 8), check, quick=60, thorough=2000, thorough_shards=4),
    Test('factors', lambda: gens.with_n([2, 3, 4, 5, 5, 6, 7], lambda n: dict(perm=gens.perm(n), part=gens.ncpart(n))), check_factor,
         quick=400, thorough=5000),
    Test('dual7', case_st([7], 40, 10), check_words, quick=80, thorough=2000, thorough_shards=2),
]
