"""C22: Temperley-Lieb morphisms, their cell modules and traces, and the generators of the braid group among them."""
import functools
import itertools
import math
import random

from hypothesis import strategies as st

from .. import gens, ref_poly as rp, ref_tl as rt
from ..common import read_lpoly, read_matrix, to_lpoly, tup
from ..engine import Test, expect, expect_eq, raises
from peyl import LPoly, tl
from peyl.jonesrep import JonesCellRep, cell_matrices, cell_matrix, tl_gens_invs
from peyl.tl import cell_dimension, JonesRep, TLCell, TLDiag, TLMor

PROPERTY = 'C22'
RULE = ('linear combinations of up to 5 diagrams with Laurent polynomial coefficients, of all types up to 6 points a side: sums, products, '
        'powers, scalar multiples, flips, quotients, Markov traces and cell module matrices, against a model of sets of arcs. '
        'Non-trivial: a product which has a closed loop, or a matrix which is not a multiple of the identity')
Q2 = {1: 1, -1: 1}


def read(m, top, bot):
    expect(isinstance(m, TLMor), lambda: f'{m!r} is not a TLMor')
    expect_eq((m.top, m.bot), (top, bot), 'type of a morphism')
    out = {}
    for d, c in m.pairs():
        expect(isinstance(d, TLDiag) and (d.top, d.bot) == (top, bot), lambda: f'{d!r} in a morphism of type ({top}, {bot})')
        key = rt.from_seq(top, bot, d.seq)
        expect(key not in out, lambda: f'{d!r} occurs twice')
        out[key] = read_lpoly(c)
        expect(out[key], lambda: f'{d!r} has coefficient zero')
        expect_eq(read_lpoly(m.coefficient(d)), out[key], 'coefficient')
    expect_eq({rt.from_seq(top, bot, d.seq) for d in m.support()}, set(out), 'support')
    expect_eq(m.is_zero(), not out, 'is_zero')
    return out


def madd(a, b):
    out = dict(a)
    for d, c in b.items():
        out[d] = rp.ladd(out.get(d, {}), c)
    return {d: c for d, c in out.items() if c}


def mscale(a, c):
    return {d: x for d, x in ((d, rp.lmul(x, c)) for d, x in a.items()) if x}


def mmul(a, b):
    out, loops = {}, 0
    for d, x in a.items():
        for e, y in b.items():
            f, k = rt.compose(d, e)
            loops += k
            out[f] = rp.ladd(out.get(f, {}), rp.lmul(rp.lmul(x, y), rp.lpow(Q2, k)))
    return {d: c for d, c in out.items() if c}, loops


def make(top, bot, terms):
    """A TLMor from plain data [[index of a diagram, polynomial], ...], and its model."""
    ms = rt.matchings(top + bot)
    model = {}
    for k, poly in terms:
        model = madd(model, {rt.from_seq(top, bot, ms[k % len(ms)]): rp.lp(*poly)})
    return TLMor(top, bot, {TLDiag(top, bot, rt.to_seq(top, bot, d)): to_lpoly(c) for d, c in model.items()}), {d: c for d, c in model.items() if c}


def trace_of(a, n):
    out = {}
    for d, c in a.items():
        out = rp.ladd(out, rp.lmul(c, rp.lpow(Q2, rt.closure_loops(d, n))))
    return out


def same(m, top, bot, want, what):
    got = read(m, top, bot)
    expect(got == want, lambda: f'{what}: got {got}, wanted {want}')


def check_algebra(case, obs):
    t, m, b = case['dims']
    A, a = make(t, m, case['A'])
    B, bb = make(m, b, case['B'])
    C, c = make(t, m, case['C'])
    poly = rp.lp(*case['poly'])
    k, P = case['int'], to_lpoly(poly)
    same(A, t, m, a, 'A')
    prod, loops = mmul(a, bb)
    same(A * B, t, b, prod, f'{A!r} * {B!r}')
    same(A + C, t, m, madd(a, c), 'sum')
    same(-A, t, m, mscale(a, {0: -1}), 'negative')
    same(A - C, t, m, madd(a, mscale(c, {0: -1})), 'difference')
    expect((A - A).is_zero(), 'A - A is not zero')
    for left, right, s in ((k * A, A * k, rp.lp((0, k))), (P * A, A * P, poly)):
        same(left, t, m, mscale(a, s), 'scalar multiple')
        same(right, t, m, mscale(a, s), 'scalar multiple on the right')
    ms = rt.matchings(m + b)
    d = rt.from_seq(m, b, ms[case['diag'] % len(ms)])
    D = TLDiag(m, b, rt.to_seq(m, b, d))
    same(A * D, t, b, mmul(a, {d: {0: 1}})[0], f'{A!r} * {D!r}')
    same(TLMor.from_tldiag(D), m, b, {d: {0: 1}}, 'from_tldiag')
    expect_eq(read_lpoly(B.coefficient(D)), bb.get(d, {}), f'coefficient of {D!r}')
    same(A.flip(), m, t, {rt.flip(d): rp.lsubst_power(x, -1) for d, x in a.items()}, 'flip')
    same(A.flip(twist_v=False), m, t, {rt.flip(d): x for d, x in a.items()}, 'flip without twisting v')
    for s in range(0, min(t, m) + 3):
        same(A.quotient(s), t, m, {d: x for d, x in a.items() if rt.through(d) >= s}, f'quotient({s})')
    same(TLMor.id(t) * A, t, m, a, 'identity * A')
    same(A * TLMor.id(m), t, m, a, 'A * identity')
    basis = [read(x, t, m) for x in TLMor.basis(t, m)]
    expect_eq(len(basis), len(rt.matchings(t + m)), 'size of the basis')
    expect_eq({next(iter(x)) for x in basis}, {rt.from_seq(t, m, s) for s in rt.matchings(t + m)}, 'basis')
    expect(all(list(x.values()) == [{0: 1}] for x in basis), 'coefficients of the basis')
    expect((A == C) == (a == c), lambda: f'{A!r} == {C!r}')
    again = TLMor(t, m, dict(reversed(list(A.terms.items()))))
    expect(again == A, 'equality depends on the order of the terms')
    if t != m:
        expect(raises(lambda: A + k, ValueError), 'a scalar added to a morphism which is not an endomorphism')
        expect(raises(lambda: A ** 2, ValueError), 'power of a morphism which is not an endomorphism')
        expect(raises(lambda: A * A, ValueError), 'incompatible morphisms were composed')
        if t != b or m != b:
            expect(raises(lambda: A + B if (t, m) != (m, b) else A * A, ValueError), 'morphisms of different types were added')
    for X, p, q, x in ((A, t, m, a), (B, m, b, bb), (C, t, m, c)):
        same(X, p, q, x, 'an operand, afterwards')
    obs.nontrivial(loops)


def check_wide(case, obs):
    """Many points, a few diagrams: with many loops."""
    t, m, b = case['dims']

    def diagram(top, bot, how):
        seq = gens.matching_from(top + bot, how)
        d = rt.from_seq(top, bot, seq)
        return TLDiag(top, bot, rt.to_seq(top, bot, d)), d
    def wide(top, bot, items):
        model = {}
        for how, poly in items:
            model = madd(model, {diagram(top, bot, how)[1]: rp.lp(*poly)})
        return TLMor(top, bot, {TLDiag(top, bot, rt.to_seq(top, bot, d)): to_lpoly(c) for d, c in model.items()}), model
    A, a = wide(t, m, case['A'])
    B, bb = wide(m, b, case['B'])
    prod, loops = mmul(a, bb)
    same(A * B, t, b, prod, f'{A!r} * {B!r}')
    # with its mirror image, which closes all its arcs
    want, loops = mmul(a, {rt.flip(d): x for d, x in a.items()})
    same(A * A.flip(twist_v=False), t, t, want, f'{A!r} times its flip')
    want2, loops2 = mmul({rt.flip(d): x for d, x in a.items()}, a)
    same(A.flip(twist_v=False) * A, m, m, want2, f'the flip of {A!r} times it')
    expect_eq(read_lpoly((A * A.flip(twist_v=False)).trace()), trace_of(want, t), 'Markov trace')
    expect_eq(read_lpoly((A.flip(twist_v=False) * A).trace()), trace_of(want2, m), 'Markov trace')
    expect_eq(trace_of(want, t), trace_of(want2, m), 'the model')
    expect_eq(read_lpoly(TLMor.id(m).trace()), rp.lpow(Q2, m), 'the trace of the identity')
    D, d = diagram(t, m, case['A'][0][0])
    for r in range(min(t, m) // 2 + 1):
        same(A.quotient(t - 2 * r), t, m, {x: c for x, c in a.items() if rt.through(x) >= t - 2 * r}, f'quotient({t - 2 * r})')
    obs.label(f'{max(t, m, b)} points')
    obs.nontrivial(loops + loops2 >= 4)


def check_endo(case, obs):
    n, e = case['n'], case['e']
    A, a = make(n, n, case['A'])
    B, b = make(n, n, case['B'])
    poly = rp.lp(*case['poly'])
    one = {rt.ident(n): {0: 1}}
    want = one
    for _ in range(e):
        want = mmul(want, a)[0]
    same(A ** e, n, n, want, f'power {e}')
    expect(raises(lambda: A ** -1, ValueError), 'negative power')
    same(A + case['int'], n, n, madd(a, mscale(one, rp.lp((0, case['int'])))), 'plus an integer')
    same(A + to_lpoly(poly), n, n, madd(a, mscale(one, poly)), 'plus a polynomial')
    same(A - to_lpoly(poly), n, n, madd(a, mscale(one, rp.lneg(poly))), 'minus a polynomial')
    same(TLMor.id(n), n, n, one, 'identity')
    for i in range(n - 1):
        same(TLMor.e(i, n), n, n, {rt.egen(i, n): {0: 1}}, f'e({i}, {n})')
    for i in (-1, n - 1):
        expect(raises(lambda: TLMor.e(i, n), AssertionError, ValueError, IndexError), lambda: f'e({i}, {n})')
    tr = trace_of(a, n)
    expect_eq(read_lpoly(A.trace()), tr, 'Markov trace')
    expect_eq(read_lpoly((A * B).trace()), read_lpoly((B * A).trace()), 'Markov traces of AB and BA')
    # The trace is the sum over all the cell modules of their traces.
    cells = JonesRep(n).cells
    expect_eq([(x.n, x.r) for x in cells], [(n, r) for r in range(n // 2 + 1)], 'cells of the Jones representation')
    total, interesting = {}, False
    for cell in cells:
        states = [rt.from_seq(n, n - 2 * cell.r, d.seq) for d in cell.basis_diagrams()]
        dim = len(states)
        expect_eq((cell.dim(), len(set(states))), (dim, dim), 'dimension of a cell module')
        M = [[{} for _ in states] for _ in states]
        for j, s in enumerate(states):
            for d, c in mmul(a, {s: {0: 1}})[0].items():
                if rt.through(d) == n - 2 * cell.r:
                    M[states.index(d)][j] = c
        got = read_matrix(cell.project_leftmult_matrix(A), dim)
        expect(got == M, lambda: f'matrix of {A!r} on the cell module {cell}: got {got}, wanted {M}')
        if dim:
            got = read_matrix(cell_matrix(A, cell.r), dim)
            expect(got == M, lambda: f'cell_matrix({A!r}, {cell.r}): got {got}, wanted {M}')
        diag = functools.reduce(rp.ladd, (M[i][i] for i in range(dim)), {})
        total = rp.ladd(total, rp.lmul(read_lpoly(cell.trace_scalar()), diag))
        for c in case['times']:
            # The same morphism but for the coefficients.
            p = rp.lp(*c)
            got = read_matrix(cell.project_leftmult_matrix(A * to_lpoly(p)), dim)
            expect(got == [[rp.lmul(x, p) for x in row] for row in M], lambda: f'matrix of {A!r} times {p} on {cell}: got {got}, where that of {A!r} is {M}')
        V, v = make(n, n - 2 * cell.r, case['V'])
        same(cell.project_vector(V), n, n - 2 * cell.r, {d: c for d, c in v.items() if rt.through(d) == n - 2 * cell.r}, 'project_vector')
        interesting = interesting or any(M[i][j] for i in range(dim) for j in range(dim) if i != j)
    expect_eq(total, tr, f'the Markov trace of {A!r}, through the cell modules')
    obs.label(f'n={n}')
    obs.nontrivial(interesting)


def check_cells(case, obs):
    """The cell modules for many strands."""
    n, r, seq = case['n'], case['r'] % (case['n'] // 2 + 1), [i % max(case['n'] - 1, 1) for i in case['seq']]
    cells = JonesRep(n).cells
    expect_eq([(x.n, x.r) for x in cells], [(n, k) for k in range(n // 2 + 1)], f'cells of JonesRep({n})')
    total = {}
    for k, cell in enumerate(cells):
        through = n - 2 * k
        dim = math.comb(n, k) - (math.comb(n, k - 1) if k else 0)
        expect_eq((cell.dim(), cell_dimension(n, k)), (dim, dim), f'dimension of {cell}')
        want = {e: 1 for e in range(-through, through + 1, 2)}
        got = read_lpoly(cell.trace_scalar())
        expect_eq(got, want, f'trace_scalar of {cell}')
        total = rp.ladd(total, {e: dim * c for e, c in got.items()})
    expect_eq(total, rp.lpow(Q2, n), 'the Markov trace of the identity, through the cell modules')
    # A product of generators, and its action on a small cell module.
    if n >= 2:
        x, d, loops = TLMor.id(n), rt.ident(n), 0
        for i in seq:
            x = x * TLMor.e(i, n)
            d, k = rt.compose(d, rt.egen(i, n))
            loops += k
        same(x, n, n, {d: rp.lpow(Q2, loops)}, f'the product of the generators {seq}')
        cell = TLCell(n, r)
        if cell.dim() <= 45:
            states = [rt.from_seq(n, n - 2 * r, s.seq) for s in cell.basis_diagrams()]
            expect_eq((len(states), len(set(states))), (cell.dim(), cell.dim()), f'basis of {cell}')
            M = [[{} for _ in states] for _ in states]
            for j, s in enumerate(states):
                t, k = rt.compose(d, s)
                if rt.through(t) == n - 2 * r:
                    M[states.index(t)][j] = rp.lpow(Q2, loops + k)
            got = read_matrix(cell.project_leftmult_matrix(x), len(states))
            expect(got == M, lambda: f'the product of the generators {seq} on {cell}')
            obs.nontrivial(seq and any(c for row in M for c in row))
            obs.label('acts')
    obs.bucket('n', n, (0, 5, 10, 20, 40))


def check_braid(case, obs):
    """The generators of the braid group in the Temperley-Lieb algebra."""
    n, w = case['n'], case['word']
    gs, invs = tl_gens_invs(n)
    expect_eq((len(gs), len(invs)), (n - 1, n - 1), 'number of generators')
    for i in range(n - 1):
        same(gs[i], n, n, {rt.ident(n): {0: 1}, rt.egen(i, n): {1: -1}}, f'generator {i}')
        same(invs[i], n, n, {rt.ident(n): {0: 1}, rt.egen(i, n): {-1: -1}}, f'inverse generator {i}')
    x, want = TLMor.id(n), {rt.ident(n): {0: 1}}
    for i, e in w:
        for _ in range(abs(e)):
            x = x * (gs[i] if e > 0 else invs[i])
            want = mmul(want, {rt.ident(n): {0: 1}, rt.egen(i, n): {1 if e > 0 else -1: -1}})[0]
    same(x, n, n, want, f'the word {w}')
    for r in range(n // 2 + 1):
        rep = JonesCellRep(n, r)
        dim = rep.dimension()
        got = read_matrix(cell_matrix(x, r), dim)
        expect(got == read_matrix(rep.evaluate_artin_word(tup(w)), dim), lambda: f'the word {w} on the cell module ({n}, {r})')
        mats, imats = cell_matrices(n, r)
        for i in range(n - 1):
            expect(read_matrix(mats[i], dim) == read_matrix(cell_matrix(gs[i], r), dim), f'cell_matrices({n}, {r})')
            expect(read_matrix(imats[i], dim) == read_matrix(cell_matrix(invs[i], r), dim), f'cell_matrices({n}, {r})')
    obs.nontrivial(len(w) >= 2 and n >= 3)


def check_shapes(case, obs):
    """The same sequences, read as diagrams of all the shapes they can have."""
    N, M = 2 * case['sizes'][0], 2 * case['sizes'][1]
    us, ls = rt.matchings(N), rt.matchings(M)
    upper, lower = us[case['k'][0] % len(us)], ls[case['k'][1] % len(ls)]
    mids = list(range(min(N, M) + 1))
    random.Random(case['seed']).shuffle(mids)
    loops = 0
    for mid in mids:
        top, bot = N - mid, M - mid
        u, l = rt.from_seq(top, mid, upper), rt.from_seq(mid, bot, lower)
        d, k = rt.compose(u, l)
        U, L = TLDiag(top, mid, tuple(upper)), TLDiag(mid, bot, tuple(lower))
        what = f'{U!r} times {L!r}'
        same(TLMor.from_tldiag(U) * TLMor.from_tldiag(L), top, bot, {d: rp.lpow(Q2, k)}, what)
        same(TLMor.from_tldiag(U).flip(), mid, top, {rt.flip(u): {0: 1}}, f'flip of {U!r}')
        x, bubbles = U * L
        expect_eq((rt.from_seq(x.top, x.bot, x.seq), (x.top, x.bot), bubbles), (d, (top, bot), k), what)
        if top == mid:
            expect_eq(read_lpoly(TLMor.from_tldiag(U).trace()), trace_of({u: {0: 1}}, top), f'Markov trace of {U!r}')
        loops += k
    obs.nontrivial(len(mids) >= 4)
    obs.label('with loops' if loops else 'no loops')


polys = st.lists(st.tuples(st.integers(-3, 3), st.integers(-4, 4)).map(list), max_size=3)
terms = st.lists(st.tuples(st.integers(0, 10**4), polys).map(list), max_size=5)


def algebra_case():
    def f(t):
        a, b, c = t
        b += (a + b) % 2
        c += (b + c) % 2
        return [a, b, c]
    return st.fixed_dictionaries(dict(dims=st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4)).map(f), A=terms, B=terms, C=terms, poly=polys,
                                      int=st.integers(-3, 3), diag=st.integers(0, 10**4)))


def wide_case():
    def f(t):
        a, b, c = t
        b += (a + b) % 2
        c += (b + c) % 2
        return [a, b, c]
    items = st.lists(st.tuples(st.one_of(st.lists(st.integers(0, 9), min_size=14, max_size=14), st.lists(st.integers(0, 9), min_size=45, max_size=45), st.integers(0, 3).map(lambda k: [k] * 45)), polys.filter(bool)).map(list), min_size=1, max_size=2)
    return st.fixed_dictionaries(dict(dims=st.one_of(st.tuples(st.integers(0, 13), st.integers(5, 13), st.integers(0, 9)), st.tuples(st.integers(0, 8), st.integers(16, 40), st.integers(0, 9))).map(f), A=items, B=items))


def check_diagram_powers(case, obs):
    """Powers of a multiple of a single diagram."""
    n = case['n']
    A, a = make(n, n, [[case['k'], case['poly']]])
    want = {rt.ident(n): {0: 1}}
    for e in range(8):
        same(A ** e, n, n, want, f'power {e} of {A!r}')
        want = mmul(want, a)[0]
    obs.nontrivial(n >= 3)


TESTS = [
    Test('powers', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([2, 3, 4, 4, 5]), k=st.integers(0, 10**4), poly=st.sampled_from([[[0, 1]], [[0, 1]], [[1, -1]], [[-1, 2], [1, 1]]]))),
         check_diagram_powers, quick=200, thorough=2000, thorough_shards=1),
    Test('shapes', lambda: st.fixed_dictionaries(dict(sizes=st.tuples(st.integers(0, 5), st.integers(1, 5)), k=st.tuples(st.integers(0, 10**4), st.integers(0, 10**4)), seed=st.integers(0, 99))), check_shapes, quick=500, thorough=6000),
    Test('wide', wide_case, check_wide, quick=150, thorough=3000),
    Test('cells', lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(2, 9), st.integers(2, 14), st.integers(0, 60)), r=st.sampled_from([0, 1, 1, 1, 2, 2, 3, 20]), seq=st.one_of(st.lists(st.integers(0, 60), max_size=3), st.tuples(st.integers(0, 40), st.lists(st.sampled_from([-1, 0, 1, 1, 2]), max_size=9)).map(lambda t: list(itertools.accumulate(t[1], initial=t[0])))))), check_cells, quick=100, thorough=1500),
    Test('algebra', algebra_case, check_algebra, quick=300, thorough=8000, shards=3),
    Test('endo', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([0, 1, 2, 2, 3, 3, 4, 4, 5]), A=st.one_of(terms, terms, st.lists(st.tuples(st.integers(0, 10**4), st.just([[0, 1]])).map(list), min_size=1, max_size=2)), B=terms, V=terms, poly=polys, int=st.integers(-3, 3), e=st.integers(0, 4),
                                                    times=st.one_of(st.sampled_from([[[[0, -1]], [[0, -2]]], [[[-1, 1]], [[-2, 1]]], [[[0, 1]], [[0, 0]], [[0, -1]]]]), st.lists(polys, max_size=3)))),
         check_endo, quick=200, thorough=4000, shards=3),
    Test('braids', lambda: st.sampled_from([1, 2, 3, 3, 4, 5]).flatmap(lambda n: st.fixed_dictionaries(dict(n=st.just(n), word=gens.letters(n, 8)))), check_braid, quick=60, thorough=1000, shards=2),
]
