"""C03: group operations on normal forms."""
from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import KIND, denotes, make, read_braid
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, NPar, Permutation

PROPERTY = 'C03'
RULE = ('products, inverses and powers (-12..12, and larger for periodic braids) of braids given by words, by Garside '
        'powers and by left-weighted sequences; every result must be a well-formed normal form with the Dynnikov image '
        'of the concatenated, reversed or repeated word. Non-trivial: every operand has canonical length at least 1')


def braid(n, kind, size, m):
    """[power, word]: Garside element^power times the word."""
    seq = (gens.garside_seq(n, m).map(lambda s: [l for x in s for l in rb.perm_word(tuple(x))]) if kind == 'GNF'
           else gens.dual_seq(n, m).map(lambda s: [l for x in s for l in rb.partition_word(x)]))
    return st.tuples(st.one_of(st.integers(-3, 3), st.integers(-30, 30)), st.one_of(gens.word(n, size), seq)).map(list)


def kinds(ns, f):
    return st.one_of(*[gens.with_n(ns, lambda n, k=k: dict(kind=st.just(k), **f(n, k))) for k in ('GNF', 'DGNF')])


def build(kind, n, pw):
    power, w = pw
    return KIND[kind](n, power, ()) * make(kind, n, w), rb.power_word(
        rb.delta_word(n) if kind == 'GNF' else rb.dual_delta_word(n), power) + w


def check_mul(case, obs):
    n, kind = case['n'], case['kind']
    (a, wa), (b, wb) = build(kind, n, case['a']), build(kind, n, case['b'])
    denotes(a, n, wa, 'a')
    ab = a * b
    denotes(ab, n, wa + wb, f'{a!r} * {b!r}')
    expect(ab.inf() >= a.inf() + b.inf() and ab.sup() <= a.sup() + b.sup(), lambda: f'inf/sup of the product {ab!r}')
    if 'c' in case:
        c, wc = build(kind, n, case['c'])
        expect_eq((a * b) * c, a * (b * c), 'associativity')
        expect_eq((a * b).inv(), b.inv() * a.inv(), 'inverse of a product')
    one = KIND[kind].identity(n)
    expect_eq(a * one, a, 'a * 1')
    expect_eq(one * a, a, '1 * a')
    obs.label(kind, f'n={n}')
    obs.bucket('length', ab.canonical_length())
    obs.label('cancels' if ab.canonical_length() < a.canonical_length() + b.canonical_length() else 'concatenates')
    obs.nontrivial(a.canonical_length() >= 1 and b.canonical_length() >= 1)


def check_inv(case, obs):
    n, kind = case['n'], case['kind']
    a, wa = build(kind, n, case['a'])
    b = a.inv()
    denotes(b, n, rb.inverse_word(wa), f'the inverse of {a!r}')
    expect_eq((b.inf(), b.sup()), (-a.sup(), -a.inf()), f'inf and sup of the inverse of {a!r}')
    expect_eq(b.inv(), a, 'the inverse of the inverse')
    one = KIND[kind].identity(n)
    expect_eq(a * b, one, f'{a!r} times its inverse')
    expect_eq(b * a, one, f'the inverse times {a!r}')
    # The same factors after other powers of the Garside element, all in one process.
    D = rb.delta_word(n) if kind == 'GNF' else rb.dual_delta_word(n)
    for i, e in enumerate(case.get('shifts', [1])):
        x, shift = KIND[kind](n, e, ()) * a, KIND[kind](n, -e, ())
        y = x.inv()
        if i == 0:
            denotes(y, n, rb.inverse_word(rb.power_word(D, e) + wa), f'the inverse of {x!r}')
        expect_eq(y, b * shift, f'the inverse of {x!r}')
        expect_eq(y * x, one, f'the inverse of {x!r} times it')
        expect_eq(x * b, KIND[kind](n, e, ()), f'{x!r} times the inverse of what follows the power')
    obs.label(kind, f'n={n}')
    obs.nontrivial(a.canonical_length() >= 1)


def check_pow(case, obs):
    n, kind, k = case['n'], case['kind'], case['k']
    a, wa = build(kind, n, case['a'])
    b = a ** k
    denotes(b, n, rb.power_word(wa, k), f'{a!r} ** {k}')
    j = case['j']
    expect_eq(a ** j * b, a ** (j + k), f'{a!r} ** ({j} + {k})')
    obs.label(kind, f'n={n}')
    obs.bucket('k', k, (-12, -5, -2, -1, 0, 1, 2, 3, 6))
    obs.nontrivial(a.canonical_length() >= 1 and abs(k) >= 2)


def check_periodic(case, obs):
    """Roots of the full twist, conjugated: their powers are powers of the Garside element."""
    n, kind, k = case['n'], case['kind'], case['k']
    root = {
        'delta': rb.dual_delta_word(n),
        'eps': rb.dual_delta_word(n) + [[n - 2, 1]] if n == 2 else rb.dual_delta_word(n) + [[0, 1]],
        'Delta': rb.delta_word(n),
    }[case['root']]
    w = case['c'] + root + rb.inverse_word(case['c'])
    a = make(kind, n, w)
    b = a ** k
    denotes(b, n, rb.power_word(w, k), f'{a!r} ** {k}')
    obs.label(kind, case['root'])
    obs.nontrivial(a.canonical_length() >= 1 and abs(k) >= 2)


def check_huge(case, obs):
    """Garside powers and exponents of any size."""
    n, kind = case['n'], case['kind']
    cls = KIND[kind]
    (p, q), (a, b) = case['powers'], (make(kind, n, w) for w in case['words'])
    order = 2 if kind == 'GNF' else n
    one = cls.identity(n)
    x, y = cls(n, p, ()), cls(n, q, ())
    expect_eq((x * y, x.inv(), x * a * x.inv()), (cls(n, p + q, ()), cls(n, -p, ()), cls(n, p % order, ()) * a * cls(n, -(p % order), ())), f'Garside powers {p} and {q} with {a!r}')
    # Only the power modulo the order of the conjugation matters to the factors.
    z, small = (a * x) * (b * y), (a * cls(n, p % order, ())) * (b * cls(n, q % order, ()))
    shift = p - p % order + q - q % order
    expect_eq((z.inf(), z.canonical_factors()), (small.inf() + shift, small.canonical_factors()), f'{a * x!r} * {b * y!r}')
    zi, si = z.inv(), small.inv()
    expect_eq((zi.inf(), zi.canonical_factors()), (si.inf() - shift, si.canonical_factors()), f'the inverse of {z!r}')
    expect_eq((z * zi, zi * z), (one, one), f'{z!r} and its inverse')
    # A power of the Garside element to a power.
    e = case['e']
    expect_eq(x ** e, cls(n, p * e, ()), f'{x!r} ** {e}')
    # Conjugates of periodic braids have small powers of all orders.
    g = make(kind, n, case['words'][0])
    full = cls(n, 2 if kind == 'GNF' else n, ())
    r = g * make(kind, n, rb.dual_delta_word(n)) * g.inv()
    k, rest = divmod(e, n)
    expect_eq(r ** e, full ** k * r ** rest, f'{r!r} ** {e}')
    obs.label(kind, f'n={n}')
    obs.nontrivial(a.canonical_length() >= 1 and b.canonical_length() >= 1 and max(abs(p), abs(q)) > 100)


def check_both(case, obs):
    check_huge(case, obs)
    check_mul(case, obs)
    check_inv(case, obs)


sizes = st.one_of(st.integers(-20, 20), gens.any_size(140))
small = gens.NS
TESTS = [
    Test('mul', lambda: kinds(small, lambda n, k: dict(a=braid(n, k, 24, 8), b=braid(n, k, 24, 8), c=braid(n, k, 12, 4))),
         check_mul, quick=400, thorough=8000, shards=2),
    Test('mul6', lambda: st.one_of(
        gens.with_n([6], lambda n: dict(kind=st.just('DGNF'), a=braid(n, 'DGNF', 24, 6), b=braid(n, 'DGNF', 24, 6))),
        gens.with_n([6], lambda n: dict(kind=st.just('GNF'), a=st.tuples(st.integers(-3, 3), gens.word(n, 30)), b=st.tuples(st.integers(-3, 3), gens.word(n, 30))))),
        check_mul, quick=150, thorough=4000, thorough_shards=4),
    # Seven strands: building the table takes twenty seconds.
    Test('dual7', lambda: gens.with_n([7], lambda n: dict(kind=st.just('DGNF'), powers=st.tuples(sizes, sizes).map(list), e=sizes, words=st.tuples(gens.word(n, 16), gens.word(n, 16)).map(list),
                                                         a=braid(n, 'DGNF', 24, 6), b=braid(n, 'DGNF', 24, 6))), check_both, quick=60, thorough=1500),
    Test('mul_long', lambda: st.sampled_from(['GNF', 'DGNF']).flatmap(lambda k: gens.with_n([3, 4, 5], lambda n: dict(
        kind=st.just(k), a=braid(n, k, 160, 45), b=braid(n, k, 160, 45)))), check_mul, quick=80, thorough=1500),
    Test('inv', lambda: kinds(small, lambda n, k: dict(a=braid(n, k, 36, 14), shifts=st.lists(st.integers(-9, 9), max_size=4))), check_inv, quick=400, thorough=8000),
    Test('pow', lambda: kinds(small, lambda n, k: dict(a=braid(n, k, 8, 3), k=st.integers(-12, 12), j=st.integers(-5, 5))),
         check_pow, quick=500, thorough=6000),
    Test('pow_high', lambda: kinds([3, 3, 4], lambda n, k: dict(a=braid(n, k, 4, 2), k=st.one_of(st.integers(-140, 140), st.sampled_from([63, 64, 65, 127, 128, 129, -64, -128])), j=st.integers(-3, 3))),
         check_pow, quick=60, thorough=800),
    Test('periodic', lambda: kinds(small, lambda n, k: dict(root=st.sampled_from(['delta', 'eps', 'Delta']), c=gens.letters(n, 8), k=st.integers(-15, 15))),
         check_periodic, quick=150, thorough=3000),
    Test('huge', lambda: kinds(small, lambda n, k: dict(powers=st.tuples(sizes, sizes).map(list), e=sizes, words=st.tuples(gens.word(n, 12), gens.word(n, 12)).map(list))),
         check_huge, quick=200, thorough=3000),
]
