"""C10: projective statistics: each describes the matrix up to a power of v, for single matrices and in any batch."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import ref_poly as rp
from ..engine import Test, expect, expect_eq, raises
from peyl import polymat
from .c09 import DTYPES, arr, model, tensor

PROPERTY = 'C10'
RULE = ('tensors with up to two batch axes, with zero matrices where the statistic allows them, as int64 or int32, with blank '
        'leading and trailing degrees: projectivise divides each matrix by its lowest power of v, and the statistics are those of each '
        'single matrix; they do not change when matrices are multiplied by powers of v. Non-trivial: some matrix does not fill the degree range')


def rank(rows):
    rows = [[Fraction(int(x)) for x in r] for r in rows]
    k = 0
    for c in range(len(rows[0])):
        p = next((i for i in range(k, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(k + 1, len(rows)):
            f = rows[i][c] / rows[k][c]
            rows[i] = [x - f * y for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


def float_rank(A):
    """What floating point makes of the rank of a matrix whose entries are not small; the rank of others."""
    return int(np.linalg.matrix_rank(A)) if np.abs(A.astype(float)).max() >= 1000 else rank(A)


def check_known_rank(case, obs):
    A = np.array(case['rows'], dtype=np.int64)
    expect_eq(int(polymat.projrank(A[:, :, None], 1)), rank(A), f'projrank of {case["rows"]}')


def shape_of(x, alpha, what):
    expect_eq(np.shape(x), tuple(alpha), f'shape of {what}')


def check_stats(case, obs):
    A = arr(case['A'], DTYPES[case['dtype']])
    # Make each matrix nonzero, with its own support, by planting entries and shifting.
    *alpha, I, J, D = A.shape
    ixs = list(np.ndindex(tuple(alpha)))
    for k, ix in enumerate(ixs):
        lo, hi = sorted(x % D for x in case['spans'][k % len(case['spans'])])
        A[ix][..., :lo] = 0
        A[ix][..., hi + 1:] = 0
        if not A[ix].any():
            A[ix][k % I, k % J, lo] = 1
    for d in case['sumless']:
        # Entries of this degree which sum to zero, in every matrix, when that is possible.
        if case['dtype'] == 'i64' and I * J > 1 and np.abs(A[..., d % D].astype(float)).max() < 2**31:
            for ix in ixs:
                A[ix][-1, -1, d % D] -= A[ix][..., d % D].sum()
                if not A[ix].any():
                    A[ix][0, 0, d % D], A[ix][-1, -1, d % D] = 1, -1
    Z = A.copy()
    for k in case['zero']:
        if ixs:
            Z[ixs[k % len(ixs)]] = 0
    for X, zeros in ((A, False), (Z, True)):
        X0 = X.copy()
        mods = {ix: model(X[ix]) for ix in ixs}
        spans = {ix: rp.mspan(m) for ix, m in mods.items()}
        stats = dict(nz_terms=polymat.nz_terms(X), projlen=polymat.projlen(X), efflen=polymat.efflen(X))
        if not any(s is None for s in spans.values()):
            stats.update(degmax=polymat.degmax(X), valmin=polymat.valmin(X), rhogap=polymat.rhogap(X))
            if ixs:
                stats['starts'], stats['ends'] = polymat.proj_starts_ends(X)
                P = polymat.projectivise(X)
                expect_eq(P.shape[:-1], X.shape[:-1], 'shape of projectivise')
                expect_eq(P.dtype, X.dtype, 'dtype of projectivise')
                for ix in ixs:
                    got, want = model(P[ix]), rp.mproj(mods[ix])
                    expect(got == want, lambda: f'projectivise at {ix}: got {got}, wanted {want} from {mods[ix]}')
                expect_eq(P.shape[-1], max(hi - lo + 1 for lo, hi in spans.values()), 'degree bound of projectivise')
                again = polymat.projectivise(P)
                expect(again.shape == P.shape and bool(np.all(again == P)), 'projectivise twice')
                Y = np.concatenate([np.zeros((*X.shape[:-1], case['up']), dtype=X.dtype), X, np.zeros((*X.shape[:-1], case['more']), dtype=X.dtype)], axis=-1)
                for f in (polymat.projlen, polymat.efflen, polymat.rhogap, polymat.nz_terms):
                    expect(bool(np.all(f(Y) == f(X))), lambda: f'{f.__name__} changes when multiplied by v^{case["up"]}')
                # projrank is for matrices which have a constant term.
                t = case['terms']
                got = polymat.projrank(P, t)
                if t:
                    shape_of(got, alpha, 'projrank')
                for ix in ixs:
                    mats = [P[ix][..., d] for d in range(min(t, P.shape[-1]))]
                    want = sum(map(rank, mats))
                    g = got if np.ndim(got) == 0 else got[ix]
                    if g != want and g == sum(map(float_rank, mats)):
                        obs.label('known finding: rank by floating point')      # listed in known_findings.txt
                        continue
                    expect(g == want, lambda: f'projrank({t}) at {ix}: got {g}, wanted {want}')
        for name, got in stats.items():
            shape_of(got, alpha, name)
            for ix in ixs:
                m, s = mods[ix], spans[ix]
                want = dict(
                    nz_terms=sum(len(x) for row in m for x in row),
                    projlen=s[1] - s[0] + 1 if s else 0,
                    efflen=s[1] - s[0] if s else 0,
                    degmax=s and s[1], valmin=s and s[0], rhogap=s and Fraction(s[1] - s[0], 2),
                    starts=s and s[0], ends=s and s[1] + 1,
                )[name]
                g = got if np.ndim(got) == 0 else got[ix]
                expect(g == want, lambda: f'{name} at {ix} of {m}: got {g}, wanted {want}')
        if any(s is None for s in spans.values()):
            expect(raises(lambda: polymat.projectivise(X), AssertionError, ValueError), 'a zero matrix was projectivised')
        expect(bool(np.all(X == X0)), 'the tensor was changed')
    obs.label(case['dtype'], f'batch axes {len(alpha)}', 'constant terms' if all(A[ix][..., 0].any() for ix in ixs) else 'shifted')
    obs.nontrivial(any(rp.mspan(model(A[ix])) != (0, D - 1) for ix in ixs))


def check_large(case, obs):
    """Many degrees, many matrices."""
    rng = np.random.default_rng(case['seed'])
    dt, N, (I, J, D) = DTYPES[case['dtype']], tuple(case['batch']), case['shape']
    A = np.zeros((*N, I, J, D), dtype=dt)
    special = np.array([1, -1, 2, 256, 2**16, 2**31 - 1, -2**31] + ([2**32, 2**62, -2**63] if dt == np.int64 else []), dtype=dt)
    low = rng.integers(min(D, 3))
    for ix in np.ndindex(*N):
        for _ in range(rng.integers(0 if case['zeros'] else 1, 6)):
            A[ix][rng.integers(I), rng.integers(J), rng.integers(D)] = special[rng.integers(len(special))]
        if case['dense'] and rng.integers(2):
            # All the entries of the same low degree, in about half of the matrices, and nothing below in any.
            A[ix][..., low] = special[rng.integers(len(special))]
        if case['dense']:
            A[ix][..., :low] = 0
            if not A[ix].any() and not case['zeros']:
                A[ix][0, 0, -1] = 1
        if case['cancel'] and A[ix].any():
            # Entries of one degree which sum to zero.
            d = rng.integers(D)
            A[ix][0, 0, d], A[ix][-1, -1, d] = (1, -1) if (I, J) != (1, 1) else (1, 1)
    degrees = {ix: sorted(set(np.nonzero(A[ix])[2].tolist())) for ix in np.ndindex(*N)}
    got = dict(nz_terms=polymat.nz_terms(A), projlen=polymat.projlen(A), efflen=polymat.efflen(A))
    if all(degrees.values()):
        got.update(degmax=polymat.degmax(A), valmin=polymat.valmin(A), rhogap=polymat.rhogap(A))
        P = polymat.projectivise(A)
        top = max(d[-1] - d[0] + 1 for d in degrees.values())
        expect_eq((P.shape, P.dtype), ((*N, I, J, top), np.dtype(dt)), 'shape and type of projectivise')
        for ix, d in degrees.items():
            k = d[-1] - d[0] + 1
            expect((P[ix][..., :k] == A[ix][..., d[0]:d[-1] + 1]).all() and not P[ix][..., k:].any(), lambda: f'projectivise at {ix} of {N}')
    for name, X in got.items():
        shape_of(X, N, name)
        for ix, d in degrees.items():
            want = dict(nz_terms=int((A[ix] != 0).sum()), projlen=d[-1] - d[0] + 1 if d else 0, efflen=d[-1] - d[0] if d else 0,
                        degmax=d and d[-1], valmin=d and d[0], rhogap=d and (d[-1] - d[0]) / 2)[name]
            expect(X[ix] == want, lambda: f'{name} at {ix} of {N}: got {X[ix]}, wanted {want}')
    obs.label('zeros' if not all(degrees.values()) else 'no zeros')
    obs.nontrivial(len(set(map(tuple, degrees.values()))) > 1)


def check_edges(case, obs):
    """Zero matrices, however little room they have, and batches of nothing."""
    dt, alpha, (I, J, D) = DTYPES[case['dtype']], tuple(case['batch']), case['shape']
    A = np.zeros((*alpha, I, J, D), dtype=dt)
    for X in (A, polymat.trim(A), A[..., :0]):
        for f in (polymat.projlen, polymat.efflen, polymat.nz_terms):
            got = f(X)
            shape_of(got, alpha, f'{f.__name__} of {X.shape}')
            expect(bool(np.all(np.asarray(got) == 0)), lambda: f'{f.__name__} of zeros of shape {X.shape}: {got}')
    if A.size and not A.any():
        expect(raises(lambda: polymat.projectivise(A), AssertionError, ValueError), 'a zero matrix was projectivised')
    if 0 in alpha and D:
        P = polymat.projectivise(A)
        expect_eq((P.shape[:-1], P.dtype), ((*alpha, I, J), np.dtype(dt)), 'projectivise of a batch of nothing')
        for f in (polymat.degmax, polymat.valmin, polymat.rhogap):
            shape_of(f(A), alpha, f'{f.__name__} of a batch of nothing')
    obs.nontrivial(D == 0 or 0 in alpha or A.size > 1)


def edges_case():
    return st.fixed_dictionaries(dict(
        batch=st.sampled_from([[], [0], [1], [3], [0, 2], [2, 0], [2, 3]]), shape=st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(0, 4)).map(list), dtype=st.sampled_from(['i64', 'i32'])))


def large_case():
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 10**6), batch=st.sampled_from([[], [2], [300], [1030], [2100], [20, 33]]), shape=st.tuples(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 2, 7, 33, 130, 300])).map(list),
        dtype=st.sampled_from(['i64', 'i32']), zeros=st.booleans(), dense=st.booleans(), cancel=st.booleans()))


def stats_case(shapes):
    def f(t):
        alpha, I, J, D, dt, big = t
        big = big and {'i32': 'half', 'i64': 'whole'}[dt]
        return st.fixed_dictionaries(dict(
            A=tensor([*alpha, I, J, D], big), dtype=st.just(dt), up=st.integers(0, 3), more=st.integers(0, 3), terms=st.integers(0, 7),
            sumless=st.one_of(st.just([]), st.lists(st.integers(0, 6), min_size=1, max_size=6), st.just(list(range(1, 7)))),
            zero=st.lists(st.integers(0, 20), min_size=1, max_size=2),
            spans=st.lists(st.one_of(st.tuples(st.integers(0, 20), st.integers(0, 20)), st.tuples(st.just(0), st.integers(0, 20)), st.just((0, D - 1))).map(list), min_size=1, max_size=6)))
    dims = st.integers(1, 4)
    return lambda: st.tuples(st.sampled_from(shapes), dims, dims, st.integers(1, 6), st.sampled_from(['i64', 'i32']), st.booleans()).flatmap(f)


TESTS = [
    Test('single', stats_case([[]]), check_stats, quick=300, thorough=6000, thorough_shards=4),
    Test('batches', stats_case([[1], [2], [3], [6]]), check_stats, quick=250, thorough=6000, shards=3),
    Test('edges', edges_case, check_edges, quick=60, thorough=600, thorough_shards=1),
    Test('large', large_case, check_large, quick=150, thorough=3000, shards=2),
    Test('grids', stats_case([[2, 2], [1, 3], [3, 2]]), check_stats, quick=200, thorough=4000, shards=2),
    Test('known_rank', lambda: st.just({}), check_known_rank, quick=0, thorough=0, thorough_shards=1),
]
