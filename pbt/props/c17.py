"""C17: Poly is the ring of integer polynomials, with cyclotomic, Chebyshev and minimal polynomials of cosines."""
from fractions import Fraction
import functools
import math

from hypothesis import strategies as st

from .. import gens, ref_poly as rp
from ..engine import Test, expect, expect_eq, raises
from peyl.poly import Poly

PROPERTY = 'C17'
RULE = ('straight-line programs of ring operations against a dictionary model, division with remainder (the identity n = dq + r with '
        'deg r < deg d), exact division, evaluation; cyclotomic polynomials against the Moebius formula, Chebyshev polynomials '
        'against the closed formula, and minimal polynomials of 2cos(2 pi/n) against the cyclotomic ones, in any order of requests. '
        'Non-trivial: a polynomial of at least three terms, or n >= 3')

coef = st.one_of(st.integers(-3, 3), st.integers(-100, 100), st.sampled_from([2**31, -2**63, 2**64 + 1]), gens.any_size(100))


def poly(k=6):
    return st.lists(coef, max_size=k)


@st.composite
def sparse(draw, top=90):
    """A few terms with long gaps between them."""
    out = [0] * (top + 1)
    for _ in range(draw(st.integers(1, 4))):
        out[draw(st.one_of(st.integers(0, top), st.sampled_from([d for d in (0, 1, 8, 16, 17, 32, 33, 40, 64, 65) if d <= top])))] = draw(st.one_of(st.integers(-3, 3), coef))
    while out and not out[-1]:
        out.pop()
    return out


def pl(cs):
    return Poly(*cs), rp.lp(*enumerate(cs))


def same(got, want, what):
    expect(isinstance(got, Poly), lambda: f'{what}: {got!r} is not a Poly')
    cs = got.coeffs
    expect(type(cs) is tuple and all(type(c) is int for c in cs), lambda: f'{what}: coefficients {cs!r}')
    expect(not cs or cs[-1], lambda: f'{what}: coefficients {cs} are not trimmed')
    expect(rp.lp(*enumerate(cs)) == want, lambda: f'{what}: got {cs}, wanted {want}')
    expect_eq((got.is_zero(), got.deg()), (not want, max(want, default=-1)), f'{what}: is_zero and degree')
    again = Poly(*(want.get(d, 0) for d in range(max(want, default=-1) + 3)))
    expect(again == got, lambda: f'{what}: {got!r} is not equal to itself built afresh')


def check_program(case, obs):
    vals = [pl(x) for x in case['start']]
    for op, i, j, k in case['ops']:
        (a, x), (b, y) = vals[i % len(vals)], vals[j % len(vals)]
        if op == 'add':
            r, w = a + b, rp.ladd(x, y)
        elif op == 'sub':
            r, w = a - b, rp.ladd(x, rp.lneg(y))
        elif op == 'mul' and len(x) * len(y) < 2000:
            r, w = a * b, rp.lmul(x, y)
        elif op == 'neg':
            r, w = -a, rp.lneg(x)
        elif op == 'addint':
            r, w = a + k, rp.ladd(x, rp.lp((0, k)))
        elif op == 'radd':
            r, w = k + a, rp.ladd(x, rp.lp((0, k)))
        elif op == 'subint':
            r, w = a - k, rp.ladd(x, rp.lp((0, -k)))
        elif op == 'mulint':
            r, w = a * k, rp.lscale(x, k)
        elif op == 'rmul':
            r, w = k * a, rp.lscale(x, k)
        elif op == 'pow' and len(x) <= 6:
            r, w = a ** (abs(k) % 8), rp.lpow(x, abs(k) % 8)
        else:
            continue
        same(r, w, f'{op} of {a!r}, {b!r}, {k}')
        expect((a == b) == (x == y), lambda: f'{a!r} == {b!r} gave {a == b}')
        vals.append((r, w))
        obs.label(op)
    for a, x in vals:
        same(a, x, 'an operand, at the end of the program')
    obs.nontrivial(max(len(x) for _, x in vals) >= 3 and case['ops'])


def long_divide(x, y):
    """(q, r) with x = qy + r, deg r < deg y; or None if a quotient coefficient is not an integer."""
    q, r, top = {}, dict(x), max(y)
    while r and max(r) >= top:
        d = max(r) - top
        c, rem = divmod(r[max(r)], y[top])
        if rem:
            return None
        q[d] = c
        r = rp.ladd(r, rp.lmul({d: -c}, y))
    return q, r


def check_division(case, obs):
    (a, x), (b, y), (c, z) = pl(case['a']), pl(case['b']), pl(case['c'])
    if 'root' in case:              # a remainder which vanishes there
        c, z = c * Poly(0, 1) - case['root'] * c, rp.lmul(z, {1: 1, 0: -case['root']} if case['root'] else {1: 1})
    if case['monic']:
        b, y = pl([*case['b'], case['monic']])
    if not y:
        return
    same((a * b) / b, x, f'({a!r} * {b!r}) / {b!r}')
    n, nx = a * b + c, rp.ladd(rp.lmul(x, y), z)
    want = long_divide(nx, y)
    if want is None:
        expect(raises(lambda: divmod(n, b), ValueError), lambda: f'divmod({n!r}, {b!r}) did not raise')
    else:
        q, r = divmod(n, b)
        same(q, want[0], f'quotient of {n!r} by {b!r}')
        same(r, want[1], f'remainder of {n!r} by {b!r}')
        same(b * q + r, nx, f'dq + r for {n!r} by {b!r}')
        if want[1]:
            expect(raises(lambda: n / b, ValueError), lambda: f'{n!r} / {b!r} did not raise')
        else:
            same(n / b, want[0], f'{n!r} / {b!r}')
    obs.label('not integral' if want is None else 'remainder' if want[1] else 'exact')
    obs.nontrivial(len(y) >= 2 and len(nx) >= 2)


def check_long(case, obs):
    """Hundreds of coefficients."""
    (a, x), (b, y) = [pl(gens.coefficients(*how)) for how in case['pair']]
    k, at = case['int'], case['at']
    same(a + b, rp.ladd(x, y), 'sum')
    same(a - b, rp.ladd(x, rp.lneg(y)), 'difference')
    same(a * k, rp.lscale(x, k), 'multiple')
    same(a - a, {}, 'difference with itself')
    c = a + Poly(*[0] * at, 1)
    expect(c != a and not c == a, lambda: f'{a!r} is equal to {c!r}')
    expect(c - Poly(*[0] * at, 1) == a, 'what was added and taken away')
    for z in (1, -1, 2, -3, k):
        expect_eq(a.evaluate(z), sum(c * z ** d for d, c in x.items()), f'the value at {z}')
    if len(x) * len(y) < 60000:
        prod = rp.lmul(x, y)
        same(a * b, prod, f'product of polynomials of {len(x)} and {len(y)} terms')
        expect(a * b == b * a, 'a * b == b * a')
        if y:
            same((a * b) / b, x, f'exact quotient of {len(x)} terms by {len(y)}')
    # By a monic polynomial, any can be divided.
    m, mm = pl([*gens.coefficients(*case['pair'][1])[:60], case['monic']])
    if len(x) <= 300:
        want = long_divide(x, mm)
        q, r = divmod(a, m)
        same(q, want[0], f'quotient of {len(x)} terms by {len(mm)}')
        same(r, want[1], f'remainder of {len(x)} terms by {len(mm)}')
    obs.bucket('terms', max(len(x), len(y)), (0, 16, 32, 64, 100, 128, 200, 256, 500))
    obs.nontrivial(min(len(x), len(y)) >= 3)


def check_evaluate(case, obs):
    (a, x), (b, y) = pl(case['a']), pl(case['b'])
    at = Fraction(case['num'], case['den'])
    expect_eq(Fraction(a.evaluate(at)), sum((c * at ** d for d, c in x.items()), Fraction(0)), f'{a!r} at {at}')
    expect_eq(a.evaluate(case['num']), sum(c * case['num'] ** d for d, c in x.items()), f'{a!r} at {case["num"]}')
    if max(x, default=0) > 20 and (len(y) > 2 or max(y, default=0) > 1):
        b, y = pl([3, -1])
    want = functools.reduce(rp.ladd, (rp.lscale(rp.lpow(y, d), c) for d, c in x.items()), {})
    got = a.evaluate(b)
    obs.bucket('degree', max(x, default=-1), (0, 5, 16, 32, 64))
    same(got if isinstance(got, Poly) else Poly(got), want, f'{a!r} at {b!r}')
    obs.nontrivial(len(x) >= 2)


def mobius(n):
    out = 1
    for p in range(2, n + 1):
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            out = -out
    return out


@functools.cache
def cyclotomic(n):
    """prod over d | n of (1 - x^d)^mu(n/d) as a power series; up to sign for n = 1."""
    if n == 1:
        return {0: -1, 1: 1}
    phi = sum(math.gcd(k, n) == 1 for k in range(1, n + 1))
    s = [1] + [0] * phi
    for d in range(1, n + 1):
        if n % d:
            continue
        m = mobius(n // d)
        if m == 1:
            for i in range(phi, d - 1, -1):
                s[i] -= s[i - d]
        elif m == -1:
            for i in range(d, phi + 1):
                s[i] += s[i - d]
    return rp.lp(*enumerate(s))


def chebyshev(n):
    if n == 0:
        return {0: 1}
    out = {}
    for k in range(n // 2 + 1):
        num = n * math.factorial(n - k - 1) * 2 ** (n - 2 * k)
        den = 2 * math.factorial(k) * math.factorial(n - 2 * k)
        assert num % den == 0
        out[n - 2 * k] = (-1) ** k * (num // den)
    return out


def check_special(case, obs):
    for name, n in case['requests']:
        if name == 'cyclotomic':
            same(Poly.cyclotomic(n), cyclotomic(n), f'cyclotomic({n})')
        elif name == 'chebyshevT':
            same(Poly.chebyshevT(n), chebyshev(n), f'chebyshevT({n})')
        else:
            m = Poly.minpolycos(n)
            x = rp.lp(*enumerate(m.coeffs))
            expect(m.coeffs and m.coeffs[-1] == 1, lambda: f'minpolycos({n}) = {m!r} is not monic')
            # x^deg m(x + 1/x) is the cyclotomic polynomial, or its square when n <= 2.
            comp = {}
            for d, c in x.items():
                for k in range(d + 1):
                    e = d - 2 * k + m.deg()
                    comp[e] = comp.get(e, 0) + c * math.comb(d, k)
            comp = {e: c for e, c in comp.items() if c}
            want = cyclotomic(n) if n >= 3 else rp.lmul(cyclotomic(n), cyclotomic(n))
            expect(comp == want, lambda: f'minpolycos({n}) = {m!r}')
        obs.label(name)
        obs.nontrivial(n >= 3)


OPS = ['add', 'sub', 'mul', 'mul', 'neg', 'addint', 'radd', 'subint', 'mulint', 'rmul', 'pow']
TESTS = [
    Test('program', lambda: st.fixed_dictionaries(dict(
        start=st.lists(st.one_of(poly(), poly(), poly(), sparse()), min_size=2, max_size=4),
        ops=gens.sized_lists(st.tuples(st.sampled_from(OPS), st.integers(0, 30), st.integers(0, 30), st.integers(-60, 60)).map(list), 12))),
        check_program, quick=500, thorough=15000, shards=2),
    Test('division', lambda: st.fixed_dictionaries(dict(a=st.one_of(poly(), poly(), sparse()), b=st.one_of(poly(4), poly(4), sparse(40)), c=st.one_of(st.just([]), poly(5), poly(5), sparse()), monic=st.sampled_from([0, 1, -1, 1])), optional=dict(root=st.integers(-1, 1))), check_division, quick=600, thorough=15000, thorough_shards=4),
    Test('long', lambda: st.fixed_dictionaries(dict(pair=st.lists(gens.coefficients_case(), min_size=2, max_size=2), int=coef, at=st.integers(0, 300), monic=st.sampled_from([1, -1]))), check_long, quick=80, thorough=1500),
    Test('evaluate', lambda: st.fixed_dictionaries(dict(a=st.one_of(poly(5), sparse()), b=st.one_of(poly(3), st.lists(st.integers(-3, 3), max_size=2)), num=st.one_of(st.integers(-9, 9), st.integers(-9, 9), st.sampled_from([10, -10, 100, -100, 1000, -1000, 5000, 2**31, -2**31, 2**63, -2**63, 2**64, 10**30])), den=st.integers(1, 7))), check_evaluate, quick=400, thorough=5000, thorough_shards=2),
    Test('special', lambda: st.fixed_dictionaries(dict(requests=gens.sized_lists(st.one_of(
        st.tuples(st.just('cyclotomic'), st.one_of(st.integers(1, 130), st.sampled_from([105, 165, 195, 210, 255, 273, 315, 385]), st.integers(100, 420))), st.tuples(st.just('chebyshevT'), st.integers(0, 220)), st.tuples(st.just('minpolycos'), st.one_of(st.integers(1, 110), st.integers(100, 330)))).map(list), 8, 1))),
        check_special, quick=200, thorough=1500, thorough_shards=4),
    Test('large-special', lambda: st.fixed_dictionaries(dict(requests=st.tuples(st.one_of(
        st.tuples(st.just('chebyshevT'), st.integers(900, 1250)), st.tuples(st.just('minpolycos'), st.sampled_from([2 * q for q in (1009, 1013, 1019, 1021, 1031)]))).map(list)).map(list))),
        check_special, quick=3, thorough=8, corpus=[dict(requests=[['chebyshevT', 1200]])]),
]
