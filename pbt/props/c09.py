"""C09: polynomial-matrix tensors multiply, pack, pad, trim and convert exactly."""
import itertools
import random

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_poly as rp
from ..common import read_lpoly, read_matrix, read_polymat, to_lpoly
from ..engine import Test, expect, expect_eq, raises
from peyl import LPoly, Matrix, polymat

PROPERTY = 'C09'
RULE = ('tensors of polynomial matrices of all shapes up to 4 x 4 x degree 5, with leading and trailing zero degrees, in up to two batch axes '
        'with broadcasting, as int64 or int32: products (also truncated) against a model of lists of polynomials, '
        'the same for matrices without rows, columns or coefficients and for empty batches, packing and concatenation of unequal degree bounds, padding, trimming, conversion to and from exact matrices. '
        'Non-trivial: two factors with at least two nonzero degrees each')
DTYPES = {'i64': np.int64, 'i32': np.int32}


def tensor(shape, big=False):
    """Plain data for a tensor: its shape, and its flat list of entries, with some degrees blank."""
    *alpha, I, J, D = shape
    size = int(np.prod(shape, dtype=int))
    # Sums of products of two such stay in range: four terms of at most five degrees each, below 2^63.
    entry = st.integers(-9, 9)
    if big:
        entry = st.one_of(st.integers(-3, 3), st.integers(-2**29, 2**29), st.integers(2**28, 2**29))
    if big == 'whole':
        # For operations which do no arithmetic: all 64 bits, and multiples of what narrower types drop.
        entry = st.one_of(st.integers(-3, 3), st.sampled_from([2**8, 2**16, 2**31, 2**32, -2**31, 2**53 + 1, -2**62, 2**63 - 1, 3 * 2**32]), st.integers(-2**63, 2**63 - 1))
    if big == 'half':
        entry = st.one_of(st.integers(-3, 3), st.sampled_from([2**8, 2**16, 2**24 + 1, -2**31, 2**31 - 1, 3 * 2**16]), st.integers(-2**31, 2**31 - 1))
    sparse = st.one_of(st.just(0), st.just(0), entry)
    flat = st.one_of(st.lists(entry, min_size=size, max_size=size), st.lists(sparse, min_size=size, max_size=size))
    return st.fixed_dictionaries(dict(shape=st.just(list(shape)), flat=flat, blank=st.lists(st.integers(-1, D), max_size=D)))


def arr(t, dtype):
    A = np.array(t['flat'], dtype=dtype).reshape(t['shape']).copy()
    for k in t['blank']:
        if 0 <= k < A.shape[-1]:
            A[..., k] = 0
    return A


def model(A):
    """A single tensor as a matrix of {degree: coefficient}."""
    I, J, D = A.shape
    return [[{d: int(A[i, j, d]) for d in range(D) if A[i, j, d]} for j in range(J)] for i in range(I)]


def mmul(A, B, I, J, K):
    out = [[{} for _ in range(K)] for _ in range(I)]
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        out[i][k] = rp.ladd(out[i][k], rp.lmul(A[i][j], B[j][k]))
    return out


def read(A, I, J):
    expect(isinstance(A, np.ndarray) and A.ndim == 3 and A.shape[:2] == (I, J), lambda: f'{A!r} is not a tensor of {I} x {J} matrices')
    return model(A)


def unchanged(*pairs):
    for X, Y in pairs:
        expect(X.shape == Y.shape and bool(np.all(X == Y)), 'an operand was changed')


def check_mul(case, obs):
    dt = DTYPES[case['dtype']]
    A, B = arr(case['A'], dt), arr(case['B'], dt)
    A0, B0 = A.copy(), B.copy()
    *alpha, I, J, D = A.shape
    *beta, _, K, E = B.shape
    gamma = np.broadcast_shapes(tuple(alpha), tuple(beta))
    q = case['quot']
    P = polymat.mul(A, B)
    Q = polymat.mul(A, B, quotdeg=q)
    for X, what in ((P, 'mul'), (Q, 'mul with quotdeg')):
        expect(isinstance(X, np.ndarray) and X.shape[:-1] == (*gamma, I, K), lambda: f'{what}: shape {X.shape} from {A.shape} and {B.shape}')
        expect_eq(X.dtype, A.dtype, f'{what}: dtype')
    expect(Q.shape[-1] == q, lambda: f'quotdeg {q} gave degree bound {Q.shape[-1]}')
    AA, BB = np.broadcast_to(A, (*gamma, I, J, D)), np.broadcast_to(B, (*gamma, J, K, E))
    nt = False
    for ix in np.ndindex(gamma):
        a, b = model(AA[ix]), model(BB[ix])
        want = mmul(a, b, I, J, K)
        got = read(P[ix], I, K)
        expect(got == want, lambda: f'mul at {ix}: got {got}, wanted {want}')
        want = [[{d: c for d, c in x.items() if d < q} for x in row] for row in want]
        got = read(Q[ix], I, K)
        expect(got == want, lambda: f'mul with quotdeg={q} at {ix}: got {got}, wanted {want}')
        nt = nt or all(len({d for row in m for x in row for d in x}) > 1 for m in (a, b))
    unchanged((A, A0), (B, B0))
    # Factors of different types, the wider one on either side.
    small, other = [((X % 5) - 2).astype(np.int32) for X in (A, B)], [(X % 2**30) * 2**16 for X in (A.astype(np.int64), B.astype(np.int64))]
    for X, Y in ((small[0], other[1]), (other[0], small[1])):
        P = polymat.mul(X, Y)
        XX, YY = np.broadcast_to(X, (*gamma, I, J, D)), np.broadcast_to(Y, (*gamma, J, K, E))
        for ix in itertools.islice(np.ndindex(gamma), 2):
            want, got = mmul(model(XX[ix]), model(YY[ix]), I, J, K), read(P[ix], I, K)
            expect(got == want, lambda: f'mul of {X.dtype} and {Y.dtype}: got {got}, wanted {want}')
    one = polymat.eye(I).astype(dt)
    expect_eq(one.shape, (I, I, 1), 'shape of eye')
    X = polymat.mul(one, A)
    expect(all(model(X[ix]) == model(A[ix]) for ix in np.ndindex(tuple(alpha))), 'eye * A')
    obs.label(case['dtype'], f'batch axes {len(alpha)} {len(beta)}')
    obs.nontrivial(nt)


def check_batch(case, obs):
    """pack, concatenate, zeropad, trim and trim_left."""
    dt = DTYPES[case['dtype']]
    As = [arr(t, dt) for t in case['As']]
    copies = [A.copy() for A in As]
    I, J = As[0].shape[:2]
    packed = polymat.pack(As)
    expect_eq(packed.shape[:3], (len(As), I, J), 'shape of pack')
    expect_eq(packed.dtype, As[0].dtype, 'dtype of pack')
    for k, A in enumerate(As):
        expect(read(packed[k], I, J) == model(A), lambda: f'pack: entry {k} is {read(packed[k], I, J)}, wanted {model(A)}')
    top = max([d for A in As for d in range(A.shape[2]) if A[..., d].any()], default=-1)
    expect_eq(packed.shape[3], top + 1, 'degree bound of pack')
    # Batches, cut from the list, joined again.
    cuts = sorted({c % (len(As) + 1) for c in case['cuts']} | {0, len(As)})
    batches = [polymat.pack(As[a:b]) for a, b in zip(cuts, cuts[1:])]
    pads = [polymat.zeropad(b, b.shape[-1] + extra) for b, extra in zip(batches, itertools.cycle(case['pad']))]
    for b, p, extra in zip(batches, pads, itertools.cycle(case['pad'])):
        expect_eq(p.shape, (*b.shape[:-1], b.shape[-1] + extra), 'shape of zeropad')
        expect(bool(np.all(p[..., :b.shape[-1]] == b)) and not p[..., b.shape[-1]:].any(), 'zeropad changed the entries')
    joined = polymat.concatenate(pads)
    expect_eq(joined.shape[:3], (len(As), I, J), 'shape of concatenate')
    expect_eq(joined.dtype, As[0].dtype, 'dtype of concatenate')
    for k, A in enumerate(As):
        expect(read(joined[k], I, J) == model(A), lambda: f'concatenate: entry {k} is {read(joined[k], I, J)}, wanted {model(A)}')
    # Batches of different types, in either order: nothing is lost.
    wide = case['wide']
    mixed = [X for k, A in enumerate(As) for X in ((A % 1000).astype(np.int32), np.full((I, J, 1), wide[k % len(wide)], dtype=np.int64))]
    some = [mixed[i % len(mixed)] for i in case['order']]
    for parts in (mixed, mixed[::-1], some):
        joined = polymat.pack(parts)
        for k, A in enumerate(parts):
            expect(read(joined[k], I, J) == model(A), lambda: f'pack of {[x.dtype for x in parts]}: entry {k} is {read(joined[k], I, J)}, wanted {model(A)}')
    X = polymat.pack([(A % 1000).astype(np.int32) for A in As])
    Y = np.zeros((len(wide), I, J, 2), dtype=np.int64)
    for k, c in enumerate(wide):
        Y[k, :, :, k % 2] = c
    for parts in ([X, Y], [Y, X], [X, Y, X], [[X, Y][i % 2] for i in case['order']]):
        joined = polymat.concatenate(parts)
        at = 0
        for part in parts:
            for k in range(len(part)):
                expect(read(joined[at], I, J) == model(part[k]), lambda: f'concatenate of {[x.dtype for x in parts]}: entry {at} is {read(joined[at], I, J)}, wanted {model(part[k])}')
                at += 1
        expect_eq(len(joined), at, 'length of concatenate')
    for A in As:
        T = polymat.trim(A)
        expect(read(T, I, J) == model(A), lambda: f'trim: {read(T, I, J)} from {model(A)}')
        expect(T.shape[-1] == 0 or T[..., -1].any(), lambda: f'trim left trailing zeros in {T!r}')
        d, L = polymat.trim_left(A)
        low = [k for k in range(A.shape[2]) if A[..., k].any()]
        expect_eq(int(d), low[0] if low else A.shape[2], 'lowest degree from trim_left')
        expect([[rp.lscale(x, 1, int(d)) for x in row] for row in read(L, I, J)] == model(A), 'trim_left changed the matrix')
    T = polymat.trim(pads[0])
    expect(all(model(T[k]) == model(pads[0][k]) for k in range(len(T))) and (T.shape[-1] == 0 or T[..., -1].any()), 'trim of a batch')
    unchanged(*zip(As, copies))
    obs.label(case['dtype'], f'{len(batches)} batches')
    obs.nontrivial(len({A.shape[2] for A in As}) > 1)


def check_large(case, obs):
    """Many degrees, many matrices: a product, and packing them."""
    rng = np.random.default_rng(case['seed'])
    (I, J, K), (D, E) = case['dims'], case['degrees']
    dt, N = DTYPES[case['dtype']], case['batch']
    A, B = (rng.integers(-5, 6, (*N, *shape)).astype(dt) * (rng.random((*N, *shape)) < case['density']) for shape in ((I, J, D), (J, K, E)))
    A, B = A.astype(dt), B.astype(dt)
    P, Q = polymat.mul(A, B), polymat.mul(A, B, case['quot'])
    expect_eq((P.shape[:-1], Q.shape), ((*N, I, K), (*N, I, K, case['quot'])), 'shapes of products')
    ixs = list(np.ndindex(*N))
    for ix in ixs if len(ixs) < 40 else ixs[::11] + ixs[-1:]:
        for i, k in itertools.product(range(I), range(K)):
            want = sum(np.convolve(A[ix][i, j].astype(np.int64), B[ix][j, k].astype(np.int64)) for j in range(J))
            got = P[ix][i, k]
            m = max(len(want), len(got), case['quot'])
            full, got, cut = (np.concatenate([x, np.zeros(m - len(x), dtype=np.int64)]) for x in (want, got, Q[ix][i, k]))
            expect((got == full).all(), lambda: f'entry {i}, {k} of product {ix} of {N}, of degree bounds {D} and {E}')
            expect((cut == np.where(np.arange(m) < case['quot'], full, 0)).all(), lambda: f'entry {i}, {k} of product {ix} of {N} with quotdeg={case["quot"]}')
    flat = list(A.reshape(-1, I, J, D))
    flat = [X[..., :1 + (7 * k) % D] for k, X in enumerate(flat)]
    packed = polymat.pack(flat)
    joined = polymat.concatenate([polymat.pack(flat[k:k + case['piece']]) for k in range(0, len(flat), case['piece'])])
    for what, X in (('pack', packed), ('concatenate', joined)):
        expect_eq((X.shape[:3], X.dtype), ((len(flat), I, J), np.dtype(dt)), f'shape and type of {what}')
        for k, Y in enumerate(flat):
            d = min(X.shape[-1], Y.shape[-1])
            expect((X[k][..., :d] == Y[..., :d]).all() and not X[k][..., d:].any() and not Y[..., d:].any(), lambda: f'{what} of {len(flat)} matrices: entry {k}')
    obs.nontrivial(P.any())


def large_case():
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 10**6), dims=st.sampled_from([[1, 1, 1], [2, 2, 2], [3, 3, 3], [2, 3, 1], [9, 9, 9], [1, 12, 1]]), degrees=st.sampled_from([[1, 40], [40, 1], [33, 65], [130, 20], [20, 130], [300, 300], [257, 2]]),
        batch=st.sampled_from([[], [3], [70], [600], [1100], [9, 31]]), dtype=st.sampled_from(sorted(DTYPES)), density=st.sampled_from([1, 0.3, 0.02]), quot=st.sampled_from([0, 1, 30, 64, 128, 400]),
        piece=st.sampled_from([1, 7, 100, 512]))).map(lambda c: {**c, 'dims': [min(x, 2) for x in c['dims']], 'degrees': [min(x, 40) for x in c['degrees']]} if np.prod(c['batch'], dtype=int) > 10 else c)


def check_convert(case, obs):
    A = arr(case['A'], np.int64)
    I, J, D = A.shape
    m = model(A)
    X = polymat.to_matrix(A)
    expect(read_matrix(X, I, J) == m, lambda: f'to_matrix gave {X!r} from {m}')
    B = polymat.from_matrix(X)
    expect(read_polymat(B) == m, lambda: f'from_matrix(to_matrix(A)) = {B!r}, wanted {m}')
    # Laurent matrices: refused if there are negative powers, or shifted up by the least power which works.
    s = case['shift']
    M = Matrix(I, J, tuple(to_lpoly(rp.lscale(x, 1, s)) for row in m for x in row))
    sp = rp.mspan(m)
    lowest = None if sp is None else sp[0] + s
    if lowest is not None and lowest < 0:
        expect(raises(lambda: polymat.from_matrix(M), ValueError), lambda: f'from_matrix accepted {M!r}')
        C = polymat.from_matrix(M, proj=True)
        expect(read_polymat(C) == rp.mproj(m), lambda: f'from_matrix(proj=True) gave {C!r} from {M!r}')
    else:
        want = [[rp.lscale(x, 1, s) for x in row] for row in m]
        for proj in (False, True):
            C = polymat.from_matrix(M, proj=proj)
            expect(read_polymat(C) == want, lambda: f'from_matrix(proj={proj}) gave {C!r} from {M!r}')
    for name in sorted(DTYPES):
        if lowest is not None:
            C = polymat.from_matrix(M, proj=True, dtype=DTYPES[name])
            expect_eq(C.dtype, np.dtype(DTYPES[name]), 'dtype of from_matrix')
    Z = Matrix(I, J, tuple(int(x) for x in A[..., 0].flat))
    C = polymat.from_matrix(Z)
    expect_eq(C.shape, (I, J, 1), 'shape of from_matrix of an integer matrix')
    expect(read_polymat(C) == model(A[..., :1]), lambda: f'from_matrix gave {C!r} from {Z!r}')
    for name, dt in sorted(DTYPES.items()):
        if all(abs(x) < 2**31 for x in Z.data):
            C = polymat.from_matrix(Z, dtype=dt)
            expect_eq(C.dtype, np.dtype(dt), 'dtype of from_matrix of an integer matrix')
    # Integers of any size are converted exactly, or not at all.
    big = Matrix(I, J, tuple(x * 2**case['shift'] ** 2 for x in Z.data))
    try:
        C = polymat.from_matrix(big)
    except OverflowError:
        C = None
    expect(C is not None and read_polymat(C) == [[{0: x} if x else {} for x in row] for row in big.rows()] or C is None and any(not -2**63 <= x < 2**63 for x in big.data), lambda: f'from_matrix gave {C!r} from {big!r}')
    # What was converted computes as exactly as any other matrix.
    Y, y = X, m
    flip = lambda w: [list(c) for c in zip(*w)]
    for _ in range(4):
        Y, y = Y * (Y.transpose() * Y), rp.mmul(y, rp.mmul(flip(y), y))
        if sum(len(x) for row in y for x in row) > 60:
            break
    expect(read_matrix(Y, I, J) == y, lambda: f'a product of to_matrix of {m} gave {Y!r}')
    # Integers among Laurent polynomials are constants.
    mixed = Matrix(I, J, tuple(int(x.coeffs[0]) if len(x.coeffs) == 1 and x.val == 0 else 0 if x.is_zero() else x for x in M.data))
    C = polymat.from_matrix(mixed, proj=True)
    expect(isinstance(C, np.ndarray), lambda: f'from_matrix gave {C!r} from {mixed!r}')
    ints = all(isinstance(x, int) for x in mixed.data)
    expect(read_polymat(C) == (rp.mproj(m) if sp is not None and lowest < 0 else [[rp.lscale(x, 1, s) for x in row] for row in m]), lambda: f'from_matrix gave {C!r} from {mixed!r}')
    obs.label('only integers' if ints else 'mixed' if any(isinstance(x, int) for x in mixed.data) else 'only polynomials')
    obs.label('zero' if sp is None else 'negative' if lowest < 0 else 'nonnegative')
    obs.nontrivial(sp is not None and sp[0] < sp[1])


def check_convert_large(case, obs):
    """Matrices larger than those one writes down, all of whose entries are alike but for a few."""
    I, J = case['shape']
    rand = random.Random(case['seed'])
    usual = [rp.lp(*x) for x in case['usual']]
    m = [[usual[rand.randrange(len(usual))] for _ in range(J)] for _ in range(I)]
    for a, b, poly in case['spots']:
        m[a % I][b % J] = rp.lp(*poly)
    M = Matrix(I, J, tuple(to_lpoly(x) for row in m for x in row))
    sp = rp.mspan(m)
    if sp is not None and sp[0] < 0:
        expect(raises(lambda: polymat.from_matrix(M), ValueError), lambda: f'from_matrix accepted a {I} x {J} matrix with entries of valuation {sp[0]}')
        want = rp.mproj(m)
    else:
        want = m
        expect(read_polymat(polymat.from_matrix(M)) == m, lambda: f'from_matrix of {M!r}')
    C = polymat.from_matrix(M, proj=True)
    expect_eq(C.shape[:2], (I, J), 'shape of from_matrix')
    expect(read_polymat(C) == want, lambda: f'from_matrix(proj=True) of {M!r}')
    X = polymat.to_matrix(C)
    expect(read_matrix(X, I, J) == want, lambda: f'to_matrix of from_matrix of {M!r}')
    # Integers with a few polynomials among them.
    mixed = Matrix(I, J, tuple(x.get(0, 0) if set(x) <= {0} else to_lpoly(x) for row in want for x in row))
    D = polymat.from_matrix(mixed)
    expect(read_polymat(D) == want, lambda: f'from_matrix of {mixed!r}')
    obs.label('negative' if sp is not None and sp[0] < 0 else 'nonnegative')
    obs.bucket('entries', I * J, (0, 16, 64, 256, 512))
    obs.nontrivial(I * J >= 64 and sp is not None)


def convert_large_case():
    poly = st.lists(st.tuples(st.integers(-4, 6), st.sampled_from([1, -1, 3, 2**40])).map(list), max_size=2, unique_by=lambda t: t[0])
    positive = st.lists(st.tuples(st.integers(0, 4), st.sampled_from([1, -1, 3])).map(list), max_size=2, unique_by=lambda t: t[0])
    return st.fixed_dictionaries(dict(shape=st.one_of(st.tuples(st.integers(4, 24), st.integers(4, 24)), st.sampled_from([(1, 70), (70, 1), (2, 130), (16, 16), (33, 8)])).map(list), seed=st.integers(0, 10**9),
                                      usual=st.lists(st.one_of(positive, st.just([[0, 1]])), min_size=1, max_size=2), spots=st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200), poly).map(list), max_size=3)))


def check_burau(case, obs):
    n = case['n']
    gs = [model(polymat.burau_generator_v2(n, s)) for s in range(n - 1)]
    one = rp.mid(n - 1)
    for s, g in enumerate(gs):
        for i in range(n - 1):
            for j in range(n - 1):
                if i != s:
                    expect_eq(g[i][j], one[i][j], f'generator {s} outside its row')
                elif abs(i - j) > 1:
                    expect_eq(g[i][j], {}, f'generator {s} far from its diagonal entry')
        expect_eq(g[s][s], {2: -1}, f'generator {s}: its determinant')
    for s, t in itertools.combinations(range(n - 1), 2):
        a, b = gs[s], gs[t]
        if t - s == 1:
            expect(rp.mmul(rp.mmul(a, b), a) == rp.mmul(rp.mmul(b, a), b), lambda: f'braid relation {s}, {t} on {n} strands')
            expect(rp.mmul(a, b) != rp.mmul(b, a), lambda: f'generators {s}, {t} commute')
        else:
            expect(rp.mmul(a, b) == rp.mmul(b, a), lambda: f'commutation {s}, {t}')
    for s in (-1, n - 1):
        expect(raises(lambda: polymat.burau_generator_v2(n, s), Exception), lambda: f'generator {s} on {n} strands')
    obs.nontrivial(n >= 3)


def check_edges(case, obs):
    """Matrices without rows or columns, batches of nothing, and polynomials without coefficients."""
    dt = DTYPES[case['dtype']]
    (alpha, beta), (I, J, K), (D, E) = case['axes'], case['dims'], case['degs']
    rng = np.random.default_rng(case['seed'])
    A = rng.integers(-3, 4, size=(*alpha, I, J, D)).astype(dt)
    B = rng.integers(-3, 4, size=(*beta, J, K, E)).astype(dt)
    if case['blank']:
        A[:] = 0
        A, B = polymat.trim(A), polymat.trim(B)
        expect_eq(A.shape, (*alpha, I, J, 0), 'shape of trimmed zeros')
    gamma = np.broadcast_shapes(tuple(alpha), tuple(beta))
    D, E = A.shape[-1], B.shape[-1]
    for q in (None, 0, case['quot']):
        P = polymat.mul(A, B) if q is None else polymat.mul(A, B, quotdeg=q)
        expect_eq((P.shape[:-1], P.dtype), ((*gamma, I, K), np.dtype(dt)), f'shape and type of mul of {A.shape} and {B.shape}')
        expect(q is None or P.shape[-1] == q, lambda: f'quotdeg {q} gave degree bound {P.shape[-1]}')
        AA, BB = np.broadcast_to(A, (*gamma, I, J, D)), np.broadcast_to(B, (*gamma, J, K, E))
        for ix in np.ndindex(gamma):
            want = [[{d: c for d, c in x.items() if q is None or d < q} for x in row] for row in mmul(model(AA[ix]), model(BB[ix]), I, J, K)]
            expect_eq(model(P[ix]), want, f'mul of {A.shape} and {B.shape} at {ix}, quotdeg {q}')
    Z = polymat.zeropad(A, D + case['more'])
    expect(Z.shape == (*alpha, I, J, D + case['more']) and (Z[..., :D] == A).all() and not Z[..., D:].any(), 'zeropad')
    T = polymat.trim(Z)
    expect(T.shape[-1] <= D and (T == A[..., :T.shape[-1]]).all() and not A[..., T.shape[-1]:].any() and (T.shape[-1] == 0 or T[..., -1].any()), 'trim of zeropad')
    if not alpha:
        M = polymat.to_matrix(A)
        expect_eq((M.nrows, M.ncols, len(M.data)), (I, J, I * J), 'shape of to_matrix')
        expect_eq([read_lpoly(LPoly.coerce(x)) for x in M.data], [x for row in model(A) for x in row], 'entries of to_matrix')
        back = polymat.from_matrix(M, dtype=dt)
        expect_eq((back.shape[:2], back.dtype, model(back)), ((I, J), np.dtype(dt), model(A)), 'from_matrix of to_matrix')
        packed = polymat.pack([A, Z, T])
        expect_eq((packed.shape[:-1], packed.dtype), ((3, I, J), np.dtype(dt)), 'shape and type of pack')
        expect(all(model(X) == model(A) for X in packed), 'pack')
    if len(alpha) == 1:
        many = polymat.concatenate([A, Z, T])
        expect_eq((many.shape[:-1], many.dtype), ((3 * alpha[0], I, J), np.dtype(dt)), 'shape and type of concatenate')
        expect(all(model(many[k]) == model(A[k % alpha[0]]) for k in range(len(many))), 'concatenate')
    obs.label('batch of nothing' if 0 in gamma else 'no entries' if 0 in (I, J, K) else 'no coefficients' if 0 in (D, E) else 'usual')
    obs.nontrivial(0 in (*gamma, I, J, K, D, E))


def edges_case():
    few, some = st.integers(0, 3), st.sampled_from([1, 2, 3, 1, 2, 3, 0])
    axes = st.sampled_from([([], []), ([], []), ([2], [2]), ([0], [1]), ([0], []), ([1, 3], [3]), ([0, 2], [2]), ([1], [1]), ([3], [1])])
    return st.fixed_dictionaries(dict(
        axes=axes, dims=st.tuples(some, some, some).map(list), degs=st.tuples(few, few).map(list), dtype=st.sampled_from(sorted(DTYPES)),
        blank=st.booleans(), quot=st.integers(1, 4), more=st.integers(0, 2), seed=st.integers(0, 10**6)))


dims = st.integers(1, 4)


def mul_case():
    axes = st.sampled_from([([], []), ([], []), ([3], [3]), ([3], [1]), ([1], [2]), ([], [2]), ([2], []), ([2, 1], [1, 3]), ([2, 2], [2]), ([0], [1])])
    return st.tuples(axes, dims, dims, dims, st.integers(1, 5), st.integers(1, 5), st.sampled_from(sorted(DTYPES))).flatmap(
        lambda t: st.fixed_dictionaries(dict(
            A=tensor([*t[0][0], t[1], t[2], t[4]], t[6] == 'i64'), B=tensor([*t[0][1], t[2], t[3], t[5]], t[6] == 'i64'), dtype=st.just(t[6]), quot=st.integers(0, 11))))


def batch_case():
    return st.tuples(dims, dims, st.lists(st.integers(1, 5), min_size=1, max_size=6), st.sampled_from(sorted(DTYPES))).flatmap(
        lambda t: st.fixed_dictionaries(dict(
            As=st.tuples(*[tensor([t[0], t[1], D], {'i32': 'half', 'i64': 'whole'}[t[3]]) for D in t[2]]).map(list), dtype=st.just(t[3]), wide=st.lists(st.one_of(st.integers(-2**63, 2**63 - 1), st.integers(-5, 5)), min_size=1, max_size=3), cuts=st.lists(st.integers(0, 20), max_size=3), order=st.lists(st.integers(0, 20), min_size=3, max_size=7),
            pad=st.lists(st.integers(0, 3), min_size=1, max_size=3))))


TESTS = [
    Test('mul', mul_case, check_mul, quick=250, thorough=6000, shards=3),
    Test('batch', batch_case, check_batch, quick=300, thorough=6000, shards=2),
    Test('edges', edges_case, check_edges, quick=250, thorough=4000),
    Test('large', large_case, check_large, quick=60, thorough=1000),
    Test('convert', lambda: st.tuples(dims, dims, st.integers(1, 5)).flatmap(lambda s: st.fixed_dictionaries(dict(A=tensor(s, True), shift=st.integers(-7, 7)))),
         check_convert, quick=300, thorough=6000, shards=2),
    Test('convert_large', convert_large_case, check_convert_large, quick=150, thorough=2000),
    Test('burau', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 9))), check_burau, quick=20, thorough=20, thorough_shards=1),
    Test('empty', lambda: st.just({}), lambda case, obs: expect_eq(len(polymat.concatenate([])), 0, 'concatenate of nothing'), quick=1, thorough=1, thorough_shards=1),
]
