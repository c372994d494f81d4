"""C18: Matrix is the algebra of immutable matrices over the integers or Laurent polynomials."""
import random
from math import comb

from hypothesis import strategies as st

from .. import gens, ref_poly as rp
from ..common import read_lpoly, to_lpoly
from ..engine import Test, expect, expect_eq, raises
from peyl import LPoly, Matrix

PROPERTY = 'C18'
RULE = ('matrices of every shape from 0x0 to 5x5 with entries integers up to 2^80 or Laurent polynomials: products, powers, differences, '
        'scalar multiples, transposes, traces, rows, columns, indexing, predicates and constructors against a model of lists of lists, '
        'with operands unchanged and equal matrices hashing the same. Non-trivial: a product with inner dimension at least two')

ints = st.one_of(st.integers(-3, 3), st.integers(-50, 50), st.sampled_from([2**31, -2**63, 2**80]))
polys = st.dictionaries(st.integers(-3, 3), st.integers(-4, 4), max_size=3).map(lambda d: [[k, v] for k, v in sorted(d.items()) if v])


def shaped(rows, cols, entry):
    return st.lists(st.lists(entry, min_size=cols, max_size=cols), min_size=rows, max_size=rows)


def read_entry(x):
    return read_lpoly(x)


def make(rows, cols, data, mixed):
    """The Matrix, and its model."""
    entries, model = [], []
    for i in range(rows):
        model.append([])
        for j in range(cols):
            x = data[i][j]
            d = rp.lp(*x) if isinstance(x, list) else rp.lp((0, x))
            model[-1].append(d)
            entries.append(to_lpoly(d) if isinstance(x, list) else x)
    return Matrix(rows, cols, tuple(entries)), model


def same(m, rows, cols, model, what):
    expect(isinstance(m, Matrix), lambda: f'{what}: {m!r} is not a Matrix')
    expect_eq((m.nrows, m.ncols), (rows, cols), f'{what}: shape')
    expect(isinstance(m.data, tuple), f'{what}: data is not a tuple')
    got = [[read_entry(m[i, j]) for j in range(cols)] for i in range(rows)]
    expect(got == model, lambda: f'{what}: got {got}, wanted {model}')


def mmul(A, B, I, K, J):
    out = [[{} for _ in range(J)] for _ in range(I)]
    for i in range(I):
        for j in range(J):
            for k in range(K):
                out[i][j] = rp.ladd(out[i][j], rp.lmul(A[i][k], B[k][j]))
    return out


def whole(m, model, polynomial, what):
    """The product of matrices of polynomials is a matrix of polynomials, and is equal to the one written down."""
    want = Matrix(m.nrows, m.ncols, tuple(to_lpoly(x) if polynomial else x.get(0, 0) for row in model for x in row))
    expect(m == want and want == m and not m != want and hash(m) == hash(want), lambda: f'{what}: {m!r} is not equal to {want!r}')


def all_of(kind, *matrices):
    return all(isinstance(x, kind) for m in matrices for x in m.data)


def check_ops(case, obs):
    I, K, J = case['I'], case['K'], case['J']
    A, a = make(I, K, case['A'], True)
    B, b = make(K, J, case['B'], True)
    C, c = make(I, K, case['C'], True)
    S, s = make(K, K, case['S'], True)
    k, e = case['k'], case['e']
    same(A * B, I, J, mmul(a, b, I, K, J), f'product {A!r} * {B!r}')
    for kind in (int, LPoly):
        if K and I and J and all_of(kind, A, B, S, C):
            whole(A * B, mmul(a, b, I, K, J), kind is LPoly, 'product')
            whole(A * S, mmul(a, s, I, K, K), kind is LPoly, 'product')
            whole(S * S, mmul(s, s, K, K, K), kind is LPoly, 'square')
            whole(S ** 2, mmul(s, s, K, K, K), kind is LPoly, 'power 2')
            whole(A - C, [[rp.ladd(x, rp.lneg(y)) for x, y in zip(p, q)] for p, q in zip(a, c)], kind is LPoly, 'difference')
            whole(A - A, [[{}] * K for _ in range(I)], kind is LPoly, 'A - A')
            whole(A * k, [[rp.lscale(x, k) for x in row] for row in a], kind is LPoly, f'{k} times a matrix')
    same(A * S * B, I, J, mmul(mmul(a, s, I, K, K), b, I, K, J), 'product of three')
    same(A * (S * B), I, J, mmul(mmul(a, s, I, K, K), b, I, K, J), 'product of three, associated otherwise')
    same(A - C, I, K, [[rp.ladd(x, rp.lneg(y)) for x, y in zip(p, q)] for p, q in zip(a, c)], 'difference')
    same(A * k, I, K, [[rp.lscale(x, k) for x in row] for row in a], f'{k} times a matrix on the left')
    same(k * A, I, K, [[rp.lscale(x, k) for x in row] for row in a], f'{k} times a matrix on the right')
    T = A.transpose()
    same(T, K, I, [[a[i][j] for i in range(I)] for j in range(K)], 'transpose')
    same(T.transpose(), I, K, a, 'transpose of the transpose')
    power = [[{0: 1} if i == j else {} for j in range(K)] for i in range(K)]
    for _ in range(e):
        power = mmul(power, s, K, K, K)
    same(S ** e, K, K, power, f'power {e}')
    tr = {}
    for i in range(K):
        tr = rp.ladd(tr, s[i][i])
    expect_eq(read_entry(S.trace()), tr, 'trace')
    same(A.map(lambda x: x + x), I, K, [[rp.lscale(x, 2) for x in row] for row in a], 'map')
    same(A.map(lambda x: x + k), I, K, [[rp.ladd(x, rp.lp((0, k))) for x in row] for row in a], 'map adding a constant')
    rows = A.rows()
    expect_eq([[read_entry(x) for x in row] for row in rows], a, 'rows()')
    expect_eq(sorted(repr(read_entry(x)) for x in A.entries()), sorted(repr(x) for row in a for x in row), 'entries()')
    expect_eq(sorted(A.indices()), [(i, j) for i in range(I) for j in range(K)], 'indices()')
    if I:
        same(Matrix.from_rows(rows), I, K, a, 'from_rows of rows()')
        if rows[0]:
            rows[0][0] = 12345                  # the rows are a copy
        rows[-1].append(54321)
        rows.append(rows[0])
        expect_eq([[read_entry(x) for x in row] for row in A.rows()], a, 'rows() again, after the rows given were changed')
        expect(str(A) == str(Matrix(I, K, tuple(A.data))), 'str() after the rows given were changed')
    for i in range(-2, I + 2):
        if 0 <= i < I:
            same(A.row(i), 1, K, [a[i]], f'row {i}')
        else:
            expect(raises(lambda: A.row(i), IndexError), lambda: f'row({i}) of a matrix with {I} rows did not raise')
    for j in range(-2, K + 2):
        if 0 <= j < K:
            same(A.column(j), I, 1, [[a[i][j]] for i in range(I)], f'column {j}')
        else:
            expect(raises(lambda: A.column(j), IndexError), lambda: f'column({j}) of a matrix with {K} columns did not raise')
    for i, j in [(-1, 0), (0, -1), (I, 0), (0, K), (I, K)]:
        expect(raises(lambda: A[i, j], IndexError), lambda: f'entry {(i, j)} of a {I} x {K} matrix did not raise')
    expect_eq(A.is_square(), I == K, 'is_square')
    flat = [x for row in case['A'] for x in row]
    expect_eq(A.is_integral(), all(isinstance(x, int) for x in flat), 'is_integral')
    expect_eq(S.is_symmetric(), all(case['S'][i][j] == case['S'][j][i] for i in range(K) for j in range(K)), 'is_symmetric')
    Y, y = make(K, K, [[case['S'][min(i, j)][max(i, j)] for j in range(K)] for i in range(K)], True)
    expect(Y.is_symmetric(), lambda: f'{Y!r} is not symmetric')
    if I != K:
        expect(not A.is_symmetric(), 'a matrix which is not square is symmetric')
        expect(raises(A.trace, ValueError), 'the trace of a matrix which is not square')
        expect(raises(lambda: A ** 2, ValueError), 'the square of a matrix which is not square')
        expect(raises(lambda: A * A, ValueError), 'the product of a matrix which is not square with itself')
        expect(raises(lambda: A - T, ValueError), 'the difference of matrices of different shapes')
    again = Matrix(I, K, tuple(A.data))
    expect(again == A and hash(again) == hash(A), 'equal matrices hash differently')
    expect((A == C) == (case['A'] == case['C']), lambda: f'{A!r} == {C!r}')
    for p in range(I * K + 2):
        for q in range(I * K + 2):
            if p * q == I * K and (p, q) != (I, K):
                other = Matrix(p, q, tuple(A.data))
                expect(not other == A and other != A and len({A, other}) == 2, lambda: f'{other!r} == {A!r}, with other numbers of rows and columns')
    expect(not A != again and (A == T) == ((I, K, a) == (K, I, [[a[i][j] for i in range(I)] for j in range(K)])), lambda: f'{A!r} == {T!r}')
    expect(raises(lambda: setattr(A, 'nrows', 7), AttributeError), 'matrices can be changed')
    for M, (p, q), m in ((A, (I, K), a), (B, (K, J), b), (C, (I, K), c), (S, (K, K), s)):
        same(M, p, q, m, 'an operand, afterwards')
    obs.label(f'K={K}', 'integral' if A.is_integral() and S.is_integral() else 'polynomial')
    obs.nontrivial(K >= 2 and I and J)


def check_large(case, obs):
    """Shapes beyond those one writes down: long inner dimensions, long rows and columns, high degrees."""
    I, K, J = case['shape']
    rand = random.Random(case['seed'])

    def entry():
        if case['entries'] == 'int' or case['entries'] == 'mixed' and rand.random() < .5:
            return rand.choice([0, 1, -1, rand.randrange(-10**6, 10**6), rand.randrange(-2**70, 2**70)])
        return [[rand.randrange(-50, 50), rand.choice([1, -1, 5])] for _ in range(rand.randrange(3)) if rand.random() < case['density']]

    def data(rows, cols):
        rows = [[entry() for _ in range(cols)] for _ in range(rows)]
        return rows
    A, a = make(I, K, data(I, K), True)
    B, b = make(K, J, data(K, J), True)
    C, c = make(I, K, data(I, K), True)
    same(A * B, I, J, mmul(a, b, I, K, J), f'product of a {I} x {K} by a {K} x {J} matrix')
    same(A - C, I, K, [[rp.ladd(x, rp.lneg(y)) for x, y in zip(p, q)] for p, q in zip(a, c)], 'difference')
    for kind in (int, LPoly):
        if all_of(kind, A, B, C):
            whole(A * B, mmul(a, b, I, K, J), kind is LPoly, f'product of a {I} x {K} by a {K} x {J} matrix')
            whole(A - C, [[rp.ladd(x, rp.lneg(y)) for x, y in zip(p, q)] for p, q in zip(a, c)], kind is LPoly, 'difference')
            whole(A.transpose(), [[a[i][j] for i in range(I)] for j in range(K)], kind is LPoly, 'transpose')
            zero = Matrix(K, J, tuple(b - b for b in B.data))
            whole(A * zero, [[{}] * J for _ in range(I)], kind is LPoly, f'product of a {I} x {K} by the {K} x {J} zero matrix')
    same(A.transpose(), K, I, [[a[i][j] for i in range(I)] for j in range(K)], 'transpose')
    same(A * 3, I, K, [[rp.lscale(x, 3) for x in row] for row in a], 'three times a matrix')
    same(Matrix.from_rows(A.rows()), I, K, a, 'from_rows of rows()')
    for i in {0, I // 2, I - 1}:
        same(A.row(i), 1, K, [a[i]], f'row {i}')
    for j in {0, K // 2, K - 1}:
        same(A.column(j), I, 1, [[a[i][j]] for i in range(I)], f'column {j}')
    same(Matrix.identity(K) * B, K, J, b, 'the identity times a matrix')
    tr = {}
    G, g = A * B, mmul(a, b, I, K, J)
    if I == J:
        for i in range(I):
            tr = rp.ladd(tr, g[i][i])
        expect_eq(read_entry(G.trace()), tr, 'trace')
    if K <= 12:
        S, s = make(K, K, data(K, K), True)
        same(S * S, K, K, mmul(s, s, K, K, K), 'square')
        Y = S - S.transpose()
        expect_eq((Y * Y).is_symmetric(), True, 'the square of an antisymmetric matrix is symmetric')
    R = A.map(lambda x: x)
    expect(R == A and hash(R) == hash(A), 'equal matrices')
    k = rand.randrange(I * K)
    R = Matrix(I, K, tuple(x + (1 if i == k else 0) for i, x in enumerate(A.data)))
    expect(R != A and not R == A, lambda: f'matrices which differ in entry {divmod(k, K)} are equal')
    square = [[rand.randrange(3) for _ in range(I)] for _ in range(I)]
    square = [[square[min(i, j)][max(i, j)] for j in range(I)] for i in range(I)]
    expect_eq(Matrix.from_rows(square).is_symmetric(), True, f'is_symmetric of a symmetric {I} x {I} matrix')
    i, j = rand.randrange(I), rand.randrange(I)
    if i != j:
        square[i][j] += 1
        expect_eq(Matrix.from_rows(square).is_symmetric(), False, f'is_symmetric of an {I} x {I} matrix, not symmetric at {(i, j)}')
    # All entries but one whole numbers.
    spot = rand.randrange(I * K)
    T = Matrix(I, K, tuple(LPoly(1, (1,)) if i == spot else i for i in range(I * K)))
    expect_eq((T.is_integral(), Matrix(I, K, tuple(range(I * K))).is_integral()), (False, True), f'is_integral of a matrix with a polynomial at {divmod(spot, K)}')
    obs.label(case['entries'])
    obs.bucket('inner', K, (0, 5, 8, 12, 16, 24, 32, 48, 64))
    obs.nontrivial(K > 5)


def check_special(case, obs):
    n, m, i, k = case['n'], case['m'], case['i'], case['k']
    one = [[{0: 1} if x == y else {} for y in range(n)] for x in range(n)]
    same(Matrix.identity(n), n, n, one, 'identity')
    same(Matrix.zero(n, m), n, m, [[{}] * m for _ in range(n)], 'zero')
    same(Matrix.scalar(n, k), n, n, [[rp.lscale(x, k) for x in row] for row in one], 'scalar')
    d = rp.lp(*case['poly'])
    same(Matrix.scalar(n, to_lpoly(d)), n, n, [[rp.lmul(x, d) for x in row] for row in one], 'scalar polynomial')
    v = case['vector']
    same(Matrix.row_vector(v), 1, len(v), [[rp.lp((0, x)) for x in v]], 'row_vector')
    same(Matrix.col_vector(v), len(v), 1, [[rp.lp((0, x))] for x in v], 'col_vector')
    if n:
        same(Matrix.col_coord_vector(n, i % n), n, 1, [[{0: 1} if x == i % n else {}] for x in range(n)], 'col_coord_vector')
    expect_eq(Matrix.identity(n).is_symmetric(), True, 'is_symmetric of an identity')
    # Symmetric but for one entry.
    size = case['size']
    for p in range(size):
        for q in range(size):
            rows = [[case['tri'][min(i, j)][max(i, j)] for j in range(size)] for i in range(size)]
            rows[p][q] = rows[p][q] + k
            expect_eq(Matrix.from_rows(rows).is_symmetric() if rows else True, all(rows[i][j] == rows[j][i] for i in range(size) for j in range(size)), f'is_symmetric of {rows}')
    obs.nontrivial(n >= 2 and len(v) >= 2)


def check_sparse(case, obs):
    """Powers of matrices with few entries: signed permutations, idempotents, nilpotents, and their sums of blocks."""
    n = case['n']
    model = [[{} for _ in range(n)] for _ in range(n)]
    for i, (j, sign) in enumerate(zip(case['to'], case['signs'])):
        if sign and j is not None:
            model[i][j] = {case['degree'] if case['monomial'] else 0: sign}
    M = Matrix.from_rows([[to_lpoly(x) if case['monomial'] else x.get(0, 0) for x in row] for row in model])
    power = [[{0: 1} if i == j else {} for j in range(n)] for i in range(n)]
    for e in range(case['e'] + 1):
        if e in (case['e'], 0, 1, 2, 3, 4) or e % 5 == 0:
            same(M ** e, n, n, power, f'{M!r} to the power {e}')
        power = mmul(power, model, n, n, n)
    # A large exponent: by squaring, in the model.
    big = case['big']
    power, square, left = [[{0: 1} if i == j else {} for j in range(n)] for i in range(n)], model, big
    while left:
        if left % 2:
            power = mmul(power, square, n, n, n)
        square, left = mmul(square, square, n, n, n), left // 2
    same(M ** big, n, n, power, f'{M!r} to the power {big}')
    if n:
        # 1 + N has powers 1 + e N + ..., for N strictly upper triangular with one entry in each row.
        U = Matrix.from_rows([[1 if i == j else case['signs'][i] if j == i + 1 else 0 for j in range(n)] for i in range(n)])
        want = [[{} for _ in range(n)] for _ in range(n)]
        for i in range(n):
            x = 1
            for j in range(i, n):
                want[i][j] = {0: x * comb(big, j - i)} if x * comb(big, j - i) else {}
                x *= case['signs'][j]
        same(U ** big, n, n, want, f'{U!r} to the power {big}')
    obs.label('permutation' if len(set(case['to'])) == n and all(case['signs']) else 'singular')
    obs.nontrivial(n >= 2 and case['e'] >= 2)


PATTERNS = {
    'lower': lambda i, j, n: i >= j, 'upper': lambda i, j, n: i <= j, 'strictly lower': lambda i, j, n: i > j, 'diagonal': lambda i, j, n: i == j,
    'bidiagonal': lambda i, j, n: i == j or j == i + 1, 'tridiagonal': lambda i, j, n: abs(i - j) <= 1, 'halves': lambda i, j, n: (i < n // 2) == (j < n // 2),
    'checks': lambda i, j, n: (i + j) % 2 == 0, 'first row': lambda i, j, n: i == 0 or i == j, 'last column': lambda i, j, n: j == n - 1 or i == j,
    'antidiagonal': lambda i, j, n: i + j == n - 1, 'cyclic': lambda i, j, n: (j - i) % n <= 1, 'all': lambda i, j, n: True,
}


def check_patterns(case, obs):
    """Square matrices with zeros in a pattern, or equal entries, but perhaps for a few places."""
    n, rand = case['n'], random.Random(case['seed'])
    polynomial = case['polynomial']

    def entry():
        return rp.lp((rand.randrange(-2, 3), rand.choice([1, -1, 2])), (rand.randrange(3, 5), rand.choice([0, 0, 1]))) if polynomial else rp.lp((0, rand.choice([1, 1, -1, 2, -3])))

    def pattern(name):
        f = PATTERNS[name]
        constant = entry()
        # The first few rows and columns may be set apart, with nothing but the diagonal.
        cut = min(case['cut'], n - 1)
        inside = lambda i, j: f(i - cut, j - cut, n - cut) if min(i, j) >= cut else i == j
        rows = [[(constant if case['constant'] else entry()) if inside(i, j) else {} for j in range(n)] for i in range(n)]
        if case['symmetric']:
            rows = [[rows[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        for a, b, clear in case['spots']:
            rows[a % n][b % n] = {} if clear else entry()
        return rows

    def matrix(model):
        return Matrix(n, n, tuple(to_lpoly(x) if polynomial else x.get(0, 0) for row in model for x in row))
    s, t = pattern(case['names'][0]), pattern(case['names'][1])
    S, T = matrix(s), matrix(t)
    power = [[{0: 1} if i == j else {} for j in range(n)] for i in range(n)]
    for e in range(case['e'] + 1):
        same(S ** e, n, n, power, f'{S!r} to the power {e}')
        power = mmul(power, s, n, n, n)
    same(S * T, n, n, mmul(s, t, n, n, n), f'{S!r} * {T!r}')
    same(T * S, n, n, mmul(t, s, n, n, n), f'{T!r} * {S!r}')
    same(S - T, n, n, [[rp.ladd(x, rp.lneg(y)) for x, y in zip(p, q)] for p, q in zip(s, t)], f'{S!r} - {T!r}')
    flip = [list(c) for c in zip(*s)]
    same(S.transpose(), n, n, flip, f'transpose of {S!r}')
    expect_eq(S.is_symmetric(), flip == s, f'is_symmetric of {S!r}')
    expect_eq(S == T, s == t, f'{S!r} == {T!r}')
    tr = {}
    for i in range(n):
        tr = rp.ladd(tr, s[i][i])
    expect_eq(read_entry(S.trace()), tr, f'trace of {S!r}')
    expect_eq(S.is_integral(), not polynomial, f'is_integral of {S!r}')
    obs.label(case['names'][0], 'polynomial' if polynomial else 'integers')
    obs.nontrivial(n >= 3 and case['e'] >= 2)


def patterns_case():
    spot = st.tuples(st.integers(0, 6), st.integers(0, 6), st.booleans()).map(list)
    names = st.sampled_from(['diagonal', 'lower', 'upper', *sorted(PATTERNS)])
    return st.fixed_dictionaries(dict(n=st.sampled_from([2, 3, 3, 4, 4, 5, 6]), names=st.tuples(names, names).map(list), seed=st.integers(0, 10**9), polynomial=st.booleans(), cut=st.sampled_from([0, 0, 1, 1, 2]), constant=st.booleans(),
                                      symmetric=st.sampled_from([False, False, False, True]), spots=st.lists(spot, max_size=2), e=st.integers(0, 5)))


def sparse_case():
    return st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), to=st.one_of(st.permutations(list(range(n))).map(list), st.just(list(range(n))), st.lists(st.integers(0, n - 1), min_size=n, max_size=n)),
        signs=st.one_of(st.just([1] * n), st.just([-1] * n), st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n), st.lists(st.sampled_from([1, -1, 0, 2]), min_size=n, max_size=n)),
        monomial=st.booleans(), degree=st.integers(-2, 2), e=st.integers(0, 33),
        big=st.one_of(st.integers(0, 300), st.sampled_from([63, 64, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 4096, 5000])))))


def ops_case():
    def f(d):
        I, K, J, e = d
        ent = {'int': ints, 'poly': polys, 'mixed': st.one_of(ints, polys)}[e]
        return st.fixed_dictionaries(dict(
            I=st.just(I), K=st.just(K), J=st.just(J), A=shaped(I, K, ent), B=shaped(K, J, ent), C=shaped(I, K, ent), S=shaped(K, K, ent),
            k=st.one_of(st.integers(-5, 5), st.just(2**70)), e=st.integers(0, 7)))
    dim = st.sampled_from([0, 1, 2, 2, 3, 3, 4])
    return st.tuples(dim, dim, dim, st.sampled_from(['int', 'poly', 'mixed'])).flatmap(f)


def upto(n):
    return st.sampled_from(range(1, n + 1))


TESTS = [
    Test('ops', ops_case, check_ops, quick=250, thorough=6000, shards=4),
    Test('large', lambda: st.fixed_dictionaries(dict(shape=st.one_of(st.tuples(*[upto(12)] * 3), st.tuples(upto(4), upto(80), upto(4)), st.tuples(upto(40), upto(5), upto(40))).map(list),
                                                     entries=st.sampled_from(['int', 'poly', 'mixed']), density=st.sampled_from([0, .2, 1, 1]), seed=st.integers(0, 10**9))), check_large, quick=120, thorough=3000),
    Test('sparse', sparse_case, check_sparse, quick=300, thorough=6000),
    Test('patterns', patterns_case, check_patterns, quick=500, thorough=6000),
    Test('special', lambda: st.fixed_dictionaries(dict(n=st.integers(0, 6), m=st.integers(0, 6), i=st.integers(0, 5), k=ints, poly=polys, vector=st.lists(ints, max_size=6), size=st.integers(0, 8), tri=shaped(8, 8, st.integers(-2, 2)))),
         check_special, quick=200, thorough=3000, thorough_shards=1),
]
