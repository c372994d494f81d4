"""C16: LPoly is the ring of Laurent polynomials over the integers."""
from fractions import Fraction

from hypothesis import strategies as st

from .. import gens, ref_poly as rp
from ..engine import Test, expect, expect_eq, raises
from peyl import LPoly

PROPERTY = 'C16'
RULE = ('straight-line programs of up to 12 ring operations (also with integers on either side) on Laurent polynomials with '
        'coefficients up to 2^80 and exponents up to 10^6, each value compared with a dictionary model; exact division, evaluation '
        'at fractions, integers and polynomials, equality and hashing, quantum integers. Non-trivial: a value with three terms arose')

coef = st.one_of(st.integers(-3, 3), st.integers(-3, 3), st.integers(-100, 100), st.sampled_from([2**31, -2**63, 2**64 + 1, 2**80]), gens.any_size(100))


def poly(max_terms=5, val=st.one_of(st.integers(-4, 4), st.integers(-60, 60))):
    """[val, coeffs], possibly with zeros at either end."""
    return st.tuples(val, st.lists(coef, max_size=max_terms)).map(list)


def lp(case):
    return LPoly(case[0], tuple(case[1])), rp.lp(*((case[0] + i, c) for i, c in enumerate(case[1])))


def same(got, want, what):
    """got is an LPoly in its canonical form, equal to the dictionary."""
    expect(isinstance(got, LPoly), lambda: f'{what}: {got!r} is not an LPoly')
    cs = got.coeffs
    expect(type(cs) is tuple and all(type(c) is int for c in cs), lambda: f'{what}: coefficients {cs!r}')
    if not want:
        expect((got.val, cs) == (0, ()), lambda: f'{what}: got ({got.val}, {cs}), wanted zero')
    else:
        expect(cs and cs[0] and cs[-1], lambda: f'{what}: coefficients {cs} are not trimmed')
        expect({got.val + i: c for i, c in enumerate(cs) if c} == want, lambda: f'{what}: got ({got.val}, {cs}), wanted {want}')
    expect_eq(got.is_zero(), not want, f'{what}: is_zero')
    expect_eq(got.is_unit(), len(want) == 1 and abs(next(iter(want.values()))) == 1, f'{what}: is_unit')
    expect_eq((got.valuation(), got.degree()), (min(want), max(want)) if want else (0, -1), f'{what}: valuation and degree')
    # Built afresh from redundant data it is equal, and hashes the same.
    if want:
        lo, hi = min(want), max(want)
        again = LPoly(lo - 2, [0, 0, *(want.get(d, 0) for d in range(lo, hi + 1)), 0])
        expect(again == got and hash(again) == hash(got), lambda: f'{what}: {got!r} is not equal to itself built afresh')


def check_program(case, obs):
    vals = [lp(x) for x in case['start']]
    for x, (a, d) in zip(case['start'], vals):
        same(a, d, f'LPoly{tuple(x)}')
    for op, i, j, k in case['ops']:
        (a, x), (b, y) = vals[i % len(vals)], vals[j % len(vals)]
        # Keep the sizes sensible.
        big = len(x) > 60 or len(y) > 60 or any(abs(d) > 10**6 for d in [*x, *y])
        if op == 'add':
            r, w = a + b, rp.ladd(x, y)
        elif op == 'sub':
            r, w = a - b, rp.ladd(x, rp.lneg(y))
        elif op == 'mul' and not big:
            r, w = a * b, rp.lmul(x, y)
        elif op == 'neg':
            r, w = -a, rp.lneg(x)
        elif op == 'addint':
            r, w = a + k, rp.ladd(x, rp.lp((0, k)))
        elif op == 'radd':
            r, w = k + a, rp.ladd(x, rp.lp((0, k)))
        elif op == 'subint':
            r, w = a - k, rp.ladd(x, rp.lp((0, -k)))
        elif op == 'rsub':
            r, w = k - a, rp.ladd(rp.lneg(x), rp.lp((0, k)))
        elif op == 'mulint':
            r, w = a * k, rp.lscale(x, k)
        elif op == 'rmul':
            r, w = k * a, rp.lscale(x, k)
        elif op == 'pow' and len(x) <= 6 and not big:
            r, w = a ** (k % 8), rp.lpow(x, k % 8)
        elif op == 'coerce':
            r, w = LPoly.coerce(k), rp.lp((0, k))
            expect(LPoly.coerce(a) == a, 'coerce of an LPoly')
        elif op == 'map':
            r, w = a.map(lambda c: c % 5), rp.lmod(x, 5)
        elif op == 'qint':
            r, w = LPoly.quantum_integer(k), rp.qint(k)
        else:
            continue
        same(r, w, f'{op} of {a!r}, {b!r}, {k}')
        expect((a == b) == (x == y), lambda: f'{a!r} == {b!r} gave {a == b}')
        if x == y:
            expect(hash(a) == hash(b), lambda: f'equal polynomials {a!r} hash differently')
        vals.append((r, w))
        obs.label(op)
    for a, x in vals:
        same(a, x, 'an operand, at the end of the program')
    obs.bucket('terms', max(len(x) for _, x in vals))
    obs.nontrivial(max(len(x) for _, x in vals) >= 3 and case['ops'])


def check_unit(case, obs):
    """Powers of units, negative ones too; and only units have those."""
    s, v, n = case['sign'], case['val'], case['n']
    u = LPoly(v, (s,))
    same(u ** n, {v * n: s ** abs(n)}, f'{u!r}**{n}')
    same((u ** n) * (u ** -n), {0: 1}, f'{u!r}**{n} times its inverse')
    a, x = lp(case['other'])
    if n < 0 and not (len(x) == 1 and abs(next(iter(x.values()))) == 1):
        expect(raises(lambda: a ** n, ValueError), lambda: f'{a!r}**{n} did not raise')
    obs.nontrivial(n < -1 or n > 1)


def divide(x, y):
    """x / y in the ring, or None."""
    if not x:
        return {}
    q, r = {}, dict(x)
    top, least = max(y), min(x) - min(y)
    while r:
        d = max(r) - top
        c, rem = divmod(r[max(r)], y[top])
        if rem or d < least:
            return None
        q[d] = c
        r = rp.ladd(r, rp.lmul({d: -c}, y))
    return q


def check_division(case, obs):
    (a, x), (b, y), (c, z) = lp(case['a']), lp(case['b']), lp(case['c'])
    if 'root' in case:              # a remainder which vanishes there
        c, z = c * LPoly(0, (0, 1)) - case['root'] * c, rp.lmul(z, {1: 1, 0: -case['root']} if case['root'] else {1: 1})
    if not y:
        return
    same((a * b) / b, x, f'({a!r} * {b!r}) / {b!r}')
    num, nx = a * b + c, rp.ladd(rp.lmul(x, y), z)
    want = divide(nx, y)
    if want is None:
        expect(raises(lambda: num / b, ValueError), lambda: f'{num!r} / {b!r} did not raise')
    else:
        same(num / b, want, f'{num!r} / {b!r}')
    obs.label('divisible' if want is not None else 'not divisible')
    obs.nontrivial(len(y) >= 2)


def check_evaluate(case, obs):
    a, x = lp(case['a'])
    b, y = lp(case['b'])
    at = Fraction(case['num'], case['den'])
    if at != 0:
        expect_eq(Fraction(a.evaluate(at)), sum((c * at ** d for d, c in x.items()), Fraction(0)), f'{a!r} at {at}')
    if not x or min(x) >= 0:
        k = case['num']
        expect_eq(a.evaluate(k), sum(c * k ** d for d, c in x.items()), f'{a!r} at {k}')
    # At another polynomial: composition.
    if not x or min(x) >= 0 or b.is_unit():
        want = {}
        for d, c in x.items():
            want = rp.ladd(want, rp.lscale(rp.lpow(y, d) if d >= 0 else {-e * -d: k ** -d for e, k in y.items()}, c))
        same(LPoly.coerce(a.evaluate(b)), want, f'{a!r} at {b!r}')
    obs.label('unit' if b.is_unit() else 'not unit')
    obs.nontrivial(len(x) >= 2)


def check_powers(case, obs):
    """High powers of polynomials of a few terms, one multiplication at a time."""
    a, x = lp(case['a'])
    want = {0: 1}
    for _ in range(case['n']):
        want = rp.lmul(want, x)
    same(a ** case['n'], want, f'{a!r}**{case["n"]}')
    same(a ** (case['n'] + 1), rp.lmul(want, x), f'{a!r}**{case["n"] + 1}')
    obs.bucket('terms', len(x))
    obs.nontrivial(len(x) >= 2)


OPS = ['add', 'sub', 'mul', 'mul', 'neg', 'addint', 'radd', 'subint', 'rsub', 'mulint', 'rmul', 'pow', 'coerce', 'map', 'qint']
def check_long(case, obs):
    """Hundreds of terms."""
    (a, x), (b, y) = [lp([val, gens.coefficients(*how)]) for val, how in case['pair']]
    k, at = case['int'], case['at']
    if len(x) * len(y) < 60000:
        prod = rp.lmul(x, y)
        same(a * b, prod, f'product of polynomials of {len(x)} and {len(y)} terms')
        expect(a * b == b * a and hash(a * b) == hash(b * a), 'a * b == b * a')
        if y:
            same((a * b) / b, x, f'exact quotient of {len(x)} terms by {len(y)}')
            near = a * b + LPoly(b.val + at, (1,))
            want = divide(rp.ladd(prod, {b.val + at: 1}), y) if len(prod) < 150 else None
            if len(prod) < 150:
                if want is None:
                    expect(raises(lambda: near / b, ValueError), lambda: f'{near!r} / {b!r} did not raise')
                else:
                    same(near / b, want, 'quotient')
    same(a + b, rp.ladd(x, y), 'sum')
    same(a - b, rp.ladd(x, rp.lneg(y)), 'difference')
    same(k - a, rp.ladd(rp.lneg(x), rp.lp((0, k))), 'difference with an integer')
    same(a * k, rp.lscale(x, k), 'multiple')
    same(a - a, {}, 'difference with itself')
    if x and min(x) >= 0:
        for z in (1, -1, 2, -3, k):
            expect_eq(a.evaluate(z), sum(c * z ** d for d, c in x.items()), f'the value at {z}')
    # All but one coefficient the same.
    c = a + LPoly(at, (1,))
    expect(c != a and not c == a, lambda: f'{a!r} is equal to {c!r}')
    expect(c - LPoly(at, (1,)) == a and hash(c - LPoly(at, (1,))) == hash(a), 'what was added and taken away')
    if len(x) < 40:
        same(a * a * a, rp.lpow(x, 3), 'cube')
        same(a ** 3, rp.lpow(x, 3), 'cube')
    obs.bucket('terms', max(len(x), len(y)), (0, 16, 32, 64, 100, 128, 200, 256, 500))
    obs.nontrivial(min(len(x), len(y)) >= 3)


small = st.integers(-4, 4)
TESTS = [
    Test('long', lambda: st.fixed_dictionaries(dict(pair=st.lists(st.tuples(st.integers(-40, 40), gens.coefficients_case()).map(list), min_size=2, max_size=2), int=coef, at=st.integers(-10, 300))), check_long, quick=100, thorough=2000),
    Test('program', lambda: st.fixed_dictionaries(dict(
        start=st.lists(poly(), min_size=2, max_size=4),
        ops=gens.sized_lists(st.tuples(st.sampled_from(OPS), st.integers(0, 30), st.integers(0, 30), st.one_of(st.integers(-6, 6), st.integers(-60, 60))).map(list), 12))),
        check_program, quick=500, thorough=15000, shards=3),
    Test('unit', lambda: st.fixed_dictionaries(dict(sign=st.sampled_from([1, -1]), val=st.integers(-50, 50), n=st.integers(-30, 30), other=poly())), check_unit, quick=300, thorough=3000, thorough_shards=1),
    Test('powers', lambda: st.fixed_dictionaries(dict(
        a=st.tuples(small, st.one_of(st.lists(small, max_size=4), st.sampled_from([[1, 1], [1, -1], [2, 3], [1, 0, 1]]))).map(list), n=st.integers(0, 100))), check_powers, quick=200, thorough=4000),
    Test('division', lambda: st.fixed_dictionaries(dict(a=poly(), b=poly(), c=st.one_of(st.just([0, []]), poly(2))), optional=dict(root=st.integers(-1, 1))), check_division, quick=600, thorough=15000, thorough_shards=4),
    Test('evaluate', lambda: st.fixed_dictionaries(dict(
        a=poly(5, small), b=st.one_of(poly(3, small), st.tuples(small, st.sampled_from([[1], [-1]])).map(list)), num=st.one_of(st.integers(-9, 9), st.integers(-9, 9), st.sampled_from([10, -10, 100, -100, 1000, -1000, 5000, 2**31, -2**31, 2**63, -2**63, 2**64, 10**30])), den=st.integers(1, 7))), check_evaluate, quick=500, thorough=10000, thorough_shards=4),
]
