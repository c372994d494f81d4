"""C24: input outside the domain of an operation is refused, not silently mis-evaluated."""
import functools
import itertools
import os
import random
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import env, gens, ref_braid as rb
from ..common import KIND, make, read_perm, read_npar, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, SymmetricGroup, polymat
from peyl import bucketing as bk, braidsearch as bs, jonesrep as jr, tl
from peyl.braid import convert_braid
from peyl.jonesrep import LKBRep
from peyl import permutations as ps
from peyl.noncrossing import npar_component_to_artin_word

PROPERTY = 'C24'
RULE = ('for about a hundred operations which state or enforce a domain (braids, groups, representations, tensors, matrices, polynomials, permutations, '
        'partitions, diagrams, search structures, the command line), generated arguments just outside and just inside it: the former '
        'raise an exception and leave the receiver as it was, the latter do not raise. Non-trivial: an operation with both')


def ones(*shape):
    return np.ones(shape, dtype=np.int64)


def factors_case(kind, n, seq):
    """Sequences of factor indices are accepted exactly when they are in normal form: both directions."""
    cls = KIND[kind]
    single = {}
    for i in range(order(kind, n)):
        try:
            b = cls(n, 0, (i,))
        except Exception:
            continue
        f = b.canonical_factors()[0]
        single[i] = read_perm(f, n) if kind == 'GNF' else rb.blocks_perm(n, read_npar(f, n))
    expect_eq(len(single), order(kind, n) - (2 if n > 1 else 1), f'number of proper simple {kind} factors on {n} strands')
    seq = [s % order(kind, n) for s in seq]
    ok = all(s in single for s in seq)
    if ok:
        for x, y in zip(seq, seq[1:]):
            a, b = single[x], single[y]
            ok = ok and (set(rb.left_descents(b)) <= set(rb.right_descents(a)) if kind == 'GNF' else rb.dual_pair_ok(a, b))
    return ok, (lambda: cls(n, 0, tuple(seq)))


def order(kind, n):
    return len(gens.perms_list(n)) if kind == 'GNF' else len(gens.parts_list(n))


def refusals(p):
    """(name, bad thunk or list, good thunk or list) made from the integers a, b, c and a word."""
    a, b, c, w = p['a'], p['b'], p['c'], p['word']
    n = 2 + a % 4                                   # 2..5
    m = n + 1 if b % 2 or n == 2 else n - 1         # some other number of strands
    k = 1 + c % 3
    G = make('GNF', n, [[i % (n - 1), e] for i, e in w])
    D = make('DGNF', n, [[i % (n - 1), e] for i, e in w])
    other = make('GNF', m, [[i % (m - 1), e] for i, e in w])
    odd = make('DGNF', m, [[i % (m - 1), e] for i, e in w])
    L = G.canonical_length()
    A, B = ones(k, k, 2), ones(k + 1, k, 2)
    lp, po = LPoly(a - 5, (1, c + 1)), Poly(1, c + 1)
    M = Matrix(k, k, tuple(range(k * k)))
    N = Matrix(k, k + 1, tuple(range(k * (k + 1))))
    perm_n, perm_m = Permutation(tuple(range(n))), Permutation(tuple(range(m)))
    S = SymmetricGroup(n)
    r = n // 2
    yield 'multiply braids on different numbers of strands', [lambda: G * other, lambda: other * G, lambda: D * odd, lambda: odd * D], [lambda: G * G, lambda: D * D]
    yield 'multiply braids in different normal forms', [lambda: G * D, lambda: D * G], None
    yield 'multiply a braid by something else', [lambda: G * 2, lambda: 2 * G, lambda: D * 'x', lambda: G * perm_n], None
    yield 'a generator of too high an index', [lambda: GNF.from_artin_word(n, [(n - 1 + b, 1 + c)]), lambda: DGNF.from_artin_word(n, [(0, 1), (n - 1 + b, -1 - c)])], [lambda: GNF.from_artin_word(n, [(n - 2, c)])]
    low = -1 - b
    yield 'a generator of negative index', [lambda: GNF.from_artin_word(n, [(low, 1 + c)]), lambda: GNF.from_artin_word(n, [(0, 1), (low, -1 - c)]), lambda: DGNF.from_artin_word(n, [(low, -1 - c), (0, 1)]), lambda: DGNF.from_artin_word(n, iter([(low, 1 + c)]))], \
        [lambda: GNF.from_artin_word(n, iter([(n - 2, c)])), lambda: DGNF.from_artin_word(n, iter([(0, c)]))]
    yield 'factors which index no divisor', [lambda: GNF(n, a, (low,)), lambda: DGNF(n, -a, (low,)), lambda: GNF(n, 0, (order('GNF', n) + b,)), lambda: DGNF(n, 0, (order('DGNF', n) + b,)), lambda: GNF(n, a, (*G.factors, low)), lambda: GNF(n, a, (low, *G.factors)),
                                             lambda: DGNF(n, a, (*D.factors, low)), lambda: DGNF(n, a, (low, *D.factors))], [lambda: GNF(n, a, G.factors), lambda: DGNF(n, a, D.factors)]
    yield 'powers which are not whole', [lambda: G ** 0.5, lambda: D ** -1.5, lambda: G ** (b + 0.5), lambda: D ** 'x', lambda: G ** None, lambda: M ** 0.5, lambda: M ** (b + 0.5), lambda: lp ** 0.5, lambda: lp ** (b + 0.5), lambda: LPoly(a, (-1,)) ** -0.5, lambda: po ** 0.5,
                                         lambda: po ** (b + 0.5), lambda: tl.TLMor.id(n) ** 0.5, lambda: tl.TLMor.e(0, n) ** (b + 0.5)], [lambda: G ** b, lambda: D ** -b, lambda: M ** b, lambda: lp ** b, lambda: po ** b, lambda: tl.TLMor.e(0, n) ** b]
    yield 'normal forms of negative length', [lambda: list(GNF.all_of_length(n, low)), lambda: list(DGNF.all_of_length(n, low)), lambda: GNF.count_all_of_length(n, low), lambda: DGNF.count_all_of_length(n, low), lambda: GNF.sample(n, low), lambda: DGNF.sample(n, low),
                                              lambda: BraidGroup(n).sample_braid_perm(low), lambda: BraidGroup(n).count_all_of_garside_length(low), lambda: list(BraidGroup(n).all_of_garside_length(low)), lambda: list(G.nf_suffixes(low)), lambda: list(D.nf_suffixes(low))], \
        [lambda: list(GNF.all_of_length(n, 0)), lambda: DGNF.count_all_of_length(n, b), lambda: GNF.sample(n, b if n > 2 else 0), lambda: list(D.nf_suffixes(0))]
    yield 'a substring which is not one', [lambda: G.substring(0, L + 1 + b), lambda: G.substring(1 + b, b), lambda: G.substring(-1 - b, L)], [lambda: G.substring(0, L), lambda: G.substring(L, L)]
    yield 'a factor which is not there', [lambda: G.canonical_factor(L + b), lambda: D.canonical_factor(D.canonical_length() + b)], [lambda: [G.canonical_factor(i) for i in range(L)]]
    yield 'braid groups on no strands', [lambda: BraidGroup(0), lambda: BraidGroup(-b)], [lambda: BraidGroup(n)]
    yield 'a lift of the wrong size', [lambda: BraidGroup(n).positive_lift(perm_m), lambda: BraidGroup(n).from_npar(NPar.finest(m)), lambda: BraidGroup(n).from_gnf_pair((0, [perm_m.word])),
                                       lambda: GNF.from_perm_seq(n, [perm_n, perm_m]), lambda: DGNF.from_npar_seq(n, [NPar.finest(n), NPar.finest(m)])], \
        [lambda: BraidGroup(n).positive_lift(perm_n), lambda: BraidGroup(n).from_npar(NPar.finest(n)), lambda: BraidGroup(n).from_gnf_pair((0, [perm_n.word]))]
    yield 'a pair whose words are not permutations', [lambda: BraidGroup(n).from_gnf_pair((0, [(0,) * n])), lambda: BraidGroup(n).from_gnf_pair((0, [tuple(range(1, n + 1))]))], None
    yield 'seven strands in Garside normal form', [lambda: GNF.from_artin_word(7 + c % 3, [(0, 1)])], None
    yield 'a representation which does not exist', [lambda: JonesCellRep(n, r + 1 + b), lambda: JonesSummand(n, r + 1 + b, 2), lambda: JonesCellRep(0, 0), lambda: JonesSummand(0, 0, 2), lambda: JonesCellRep(n, 0, -1 - b), lambda: JonesCellRep(n, -1 - b), lambda: JonesSummand(n, -1 - b, 2),
                                                    lambda: JonesSummand(n, 0, -1 - b)], [lambda: JonesCellRep(n, r), lambda: JonesSummand(n, r, 5)]
    q, t = LPoly(a, (1,)), LPoly(c, (-1,))
    yield 'a Lawrence-Krammer representation which does not exist', [
        lambda: LKBRep(0, 0, q, t), lambda: LKBRep(n, -1 - b, q, t), lambda: LKBRep(n, 0, LPoly(a, (2 + c,)), t), lambda: LKBRep(n, 0, q, LPoly(a, (1, 1))), lambda: LKBRep(n, 0, LPoly(0, ()), t)], [lambda: LKBRep(n, 0, q, t)]
    rep = JonesCellRep(n, r, 5)
    lkb = LKBRep(n, 0, q, t)
    yield 'evaluating a generator of negative index', [lambda: rep.evaluate_artin_word([(low, 1)]), lambda: rep.polymat_evaluate_artin_word([(0, 1), (low, -1)]), lambda: lkb.evaluate_artin_word([(0, 1), (low, -1)]), lambda: lkb.polymat_evaluate_artin_word([(low, 1)])], \
        [lambda: rep.evaluate_artin_word([(0, 1)]), lambda: rep.polymat_evaluate_artin_word([(n - 2, -1)])]
    wrong = [GNF(m, c, ()), DGNF(m, c, ()), other, odd, *GNF.artin_gens(m)[:1], *DGNF.artin_gens(m)[:1]]
    summand5 = JonesSummand(n, r, 5)
    yield 'evaluating braids on another number of strands', [(lambda f=f, x=x: f(x)) for x in wrong for f in (rep.polymat_evaluate_braid, lkb.polymat_evaluate_braid, lambda x: rep.polymat_evaluate_braids_of_same_length([x, x]), lambda x: rep.polymat_evaluate_braids_of_same_length([type(x)(n, x.power, x.factors[:0]), x]))] + \
        [(lambda f=f, x=x: f(summand5, x)) for x in wrong if isinstance(x, GNF) for f in (bs.evaluate_braid_factors, lambda s, x: bs.evaluate_braids(s, [x]), lambda s, x: bs.evaluate_braids_of_same_length(s, [x]), lambda s, x: bs.evaluate_prefixes_of_same_length(s, [x, x]))], \
        [lambda: rep.polymat_evaluate_braid(G), lambda: lkb.polymat_evaluate_braid(D), lambda: bs.evaluate_braid_factors(summand5, G), lambda: bs.evaluate_braids(summand5, [G])]
    yield 'searching with dual normal forms', [lambda: bs.evaluate_braid_factors(summand5, DGNF(n, c, ())), lambda: bs.evaluate_braids(summand5, [DGNF(n, c, ())]), lambda: bs.evaluate_braids_of_same_length(summand5, [D])], None
    yield 'evaluating a generator of too high an index', [lambda: rep.evaluate_artin_word([(n - 1 + b, 1)]), lambda: rep.polymat_evaluate_artin_word([(0, 1), (n - 1 + b, -1)])], [lambda: rep.evaluate_artin_word([(n - 2, 1)])]
    x, y = GNF(n, c, ()), (G if L else make('GNF', 3, [[0, 1]]))
    if y.n == n:
        yield 'evaluating braids of different lengths together', [lambda: rep.polymat_evaluate_braids_of_same_length([x, y]), lambda: rep.polymat_evaluate_braids_of_same_length([y, y, x])], [lambda: rep.polymat_evaluate_braids_of_same_length([y, y])]
        summand = JonesSummand(n, r, 5)
        yield 'searching with braids of different lengths together', [
            lambda: bs.evaluate_braids_of_same_length(summand, [x, y]), lambda: bs.evaluate_prefixes_of_same_length(summand, [y, x])], [lambda: bs.evaluate_braids_of_same_length(summand, [y, y])]
    yield 'evaluating braids of different kinds together', [lambda: rep.polymat_evaluate_braids_of_same_length([GNF(n, 0, ()), DGNF(n, 0, ())])], [lambda: rep.polymat_evaluate_braids_of_same_length([DGNF(n, 0, ()), DGNF(n, 1, ())])]
    o = order('GNF', n)
    yield 'evaluating factors out of range', [lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[0, o + b]]), lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[0], [-1 - b]]),
                                              lambda: rep.polymat_evaluate_braid_integers_of_same_length(DGNF, [[order('DGNF', n) + b]])], [lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[0, o - 1]])]
    yield 'evaluating factor sequences of different lengths together', [lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[0] * b, [0] * (b + k)])], [lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[0], [0]])]
    # tensors
    yield 'incompatible tensors', [lambda: polymat.mul(A, B), lambda: polymat.mul(ones(2, k, k, 1), ones(3, k, k, 1)), lambda: polymat.mul(ones(k, k), A), lambda: polymat.mul(A, A, -1 - b)], \
        [lambda: polymat.mul(B, A), lambda: polymat.mul(ones(2, k, k, 1), ones(1, k, k, 1))]
    flat = ones(k, 2)
    yield 'statistics of something flat', [lambda: polymat.degmax(flat), lambda: polymat.valmin(flat), lambda: polymat.nz_terms(flat), lambda: polymat.projectivise(flat), lambda: polymat.proj_starts_ends(flat), lambda: polymat.projrank(flat, b),
                                           lambda: polymat.rhogap(flat), lambda: polymat.efflen(flat), lambda: polymat.projlen(flat), lambda: polymat.zeropad(flat, 9), lambda: polymat.to_matrix(flat), lambda: polymat.mul(A, flat), lambda: polymat.mul(flat, flat)], \
        [lambda: polymat.degmax(A), lambda: polymat.valmin(A), lambda: polymat.nz_terms(A), lambda: polymat.proj_starts_ends(A), lambda: polymat.zeropad(A, 9)]
    yield 'tensors which numpy would stretch', [
        lambda: polymat.mul(ones(2, 1, 1), ones(2 + b, 2, 1)), lambda: polymat.mul(ones(2, 2 + b, 1), ones(1, 2, 1)), lambda: polymat.concatenate([ones(2, 2, 2, 1), ones(2, 1, 2, 1)]), lambda: polymat.concatenate([ones(2, 2, 2, 1), ones(1, 1, 1, 1)]),
        lambda: polymat.pack([ones(2, 2, 1), ones(1, 2, 1)]), lambda: polymat.pack([ones(2, 2, 1), ones(2, 1, 1)]), lambda: polymat.pack([ones(2, 2, 1), ones(1, 1, 1)])], [lambda: polymat.mul(ones(2, 1, 1), ones(1, 2, 1))]
    yield 'packing tensors of different shapes', [lambda: polymat.pack([A, B]), lambda: polymat.pack([]), lambda: polymat.pack([ones(1, k, k, 2)]), lambda: polymat.concatenate([ones(1, k, k, 1), ones(1, k + 1, k, 1)]),
                                                  lambda: polymat.concatenate([A])], [lambda: polymat.pack([A, ones(k, k, 5)])]
    yield 'padding to less', [lambda: polymat.zeropad(ones(k, k, 2 + b), 1 + b)], [lambda: polymat.zeropad(ones(k, k, 2 + b), 2 + b)]
    yield 'projectivising zero', [lambda: polymat.projectivise(0 * A), lambda: polymat.projectivise(np.stack([A, 0 * A])), lambda: polymat.proj_starts_ends(np.stack([0 * A, A]))], [lambda: polymat.projectivise(np.stack([A, 2 * A]))]
    yield 'projrank without constant terms', [lambda: polymat.projrank(A, -1 - b), lambda: polymat.projrank(np.concatenate([0 * A, A], axis=2), 1)], [lambda: polymat.projrank(A, b)]
    yield 'matrices of something else as tensors', [lambda: polymat.from_matrix(Matrix(1, 2, (po, 1))), lambda: polymat.from_matrix(Matrix(1, 2, (lp, 'x')))], [lambda: polymat.from_matrix(Matrix(1, 2, (LPoly(b, (1,)), 1))) + 0, lambda: polymat.from_matrix(Matrix(1, 2, (1, LPoly(-b, (1,)))), proj=True) + 0]
    yield 'negative powers in a tensor', [lambda: polymat.from_matrix(Matrix(1, 2, (LPoly(-1 - b, (1,)), LPoly(0, (1,)))))], [lambda: polymat.from_matrix(Matrix(1, 2, (LPoly(b, (1,)), LPoly(0, (1,)))))]
    yield 'Burau generators out of range', [lambda: polymat.burau_generator_v2(n, n - 1 + b), lambda: polymat.burau_generator_v2(n, -1 - b)], [lambda: polymat.burau_generator_v2(n, n - 2)]
    # matrices
    yield 'data of the wrong size', [lambda: Matrix(k, k, (0,) * (k * k + 1)), lambda: Matrix(k, k, (0,) * (k * k - 1)), lambda: Matrix(k, k, [0] * (k * k)), lambda: Matrix(-k, -k, (0,) * (k * k)), lambda: Matrix(0, -1, ()),
                                     lambda: Matrix.from_rows([[1] * k, [1] * (k + 1)]), lambda: Matrix.from_rows([[1] * k, [1] * (k - 1), [1] * (k + 1)]), lambda: Matrix.from_rows([[1] * k, [1] * (k + 1), [1] * (k - 1)]), lambda: Matrix.from_rows([[], [1] * k])], [lambda: Matrix(k, k, (0,) * (k * k)), lambda: Matrix.from_rows([[1] * k] * 3)]
    yield 'incompatible matrices', [lambda: N * N, lambda: N - M, lambda: M - N, lambda: N * M, lambda: M * 'x', lambda: 1.5 - M], [lambda: M * N, lambda: N - N]
    yield 'powers and traces of matrices', [lambda: N ** 2, lambda: N.trace(), lambda: M ** (-1 - b)], [lambda: M ** b, lambda: M.trace()]
    yield 'entries out of range', [lambda: M[k, 0], lambda: M[0, k + b], lambda: M[-1, 0], lambda: M[0, -1 - b], lambda: N.row(k), lambda: N.row(-1), lambda: N.column(k + 1), lambda: N.column(-1 - b),
                                   lambda: Matrix.col_coord_vector(k, k + b), lambda: Matrix.col_coord_vector(k, -1 - b)], \
        [lambda: M[k - 1, k - 1], lambda: N.row(k - 1), lambda: N.column(k), lambda: Matrix.col_coord_vector(k, k - 1)]
    # polynomials
    yield 'inverses of Laurent polynomials', [lambda: lp ** (-1 - b), lambda: LPoly(0, ()) ** -1, lambda: LPoly(a, (2 + c,)) ** -1], [lambda: LPoly(a, (-1,)) ** (-1 - b), lambda: lp ** b]
    yield 'inexact quotients', [lambda: LPoly(0, (1,)) / lp, lambda: lp / LPoly(b, ()), lambda: LPoly(b, (2 * c + 1,)) / LPoly(a, (2,)), lambda: Poly(1) / po, lambda: po / Poly(), lambda: (po * po + 1) / po,
                                 # remainders with roots at 1, -1 and 0
                                 *[lambda x=x, y=y: (x * Poly(b, c, -a, 1) + y * (b + 1)) / Poly(b, c, -a, 1) for x in (Poly(), po) for y in (Poly(-1, 1), Poly(1, 1), Poly(0, 1), Poly(-1, 0, 1), Poly(0, -1, 1), Poly(1, -2, 1))],
                                 *[lambda x=x, y=y: (x * LPoly(-b, (1, c, -a, 1)) + LPoly(x.val - b, y) * (b + 1)) / LPoly(-b, (1, c, -a, 1)) for x in (LPoly(a, (1,)), lp) for y in ((-1, 1), (1, 1), (-1, 0, 1), (1, -2, 1))]], \
        [lambda: lp / lp, lambda: (lp * lp) / lp, lambda: (po * po) / po]
    yield 'arithmetic with something else', [lambda: lp + 'x', lambda: lp - 'x', lambda: lp * 'x', lambda: lp * 0.5, lambda: lp + 0.5, lambda: 'x' + lp, lambda: po + 'x', lambda: po * 'x', lambda: po - 'x', lambda: po * None,
                                              lambda: po + lp, lambda: lp + po, lambda: po - lp, lambda: lp - po, lambda: po * lp, lambda: lp * po, lambda: lp / po, lambda: po / lp, lambda: po + 0.5, lambda: 0.5 - po, lambda: po + None, lambda: lp / 0.5], \
        [lambda: lp + 1, lambda: po * po]
    yield 'coercions', [lambda: LPoly.coerce('v'), lambda: LPoly.coerce(0.5), lambda: LPoly.coerce(po)], [lambda: LPoly.coerce(a), lambda: LPoly.coerce(lp)]
    yield 'families of polynomials', [lambda: Poly.cyclotomic(-b), lambda: Poly.chebyshevT(-1 - b)], [lambda: Poly.cyclotomic(1 + b), lambda: Poly.chebyshevT(b)]
    yield 'division with remainder', [lambda: divmod(po, Poly()), lambda: divmod(Poly(1, 1 + b), Poly(1, 2 + b))], [lambda: divmod(po, Poly(1 + b, 1))]
    yield 'inverses of polynomials', [lambda: po ** (-1 - b)], [lambda: po ** b]
    # permutations and partitions
    yield 'words which are not permutations', [lambda: Permutation((0,) * n), lambda: Permutation(tuple(range(1, n + 1))), lambda: Permutation(tuple(range(-1, n - 1)))], [lambda: perm_n]
    yield 'permutations of different sizes', [lambda: perm_n * perm_m], [lambda: perm_n * perm_n]
    wn, wm = list(perm_n.word), list(perm_m.word)
    short = list(range(1 + b))
    yield 'composing words of different sizes', [lambda: ps.compose(wn, wm), lambda: ps.compose(wm, wn), lambda: ps.compose(wn, short[:n - 1]), lambda: ps.compose(short[:n - 1], wn), lambda: ps.compose([], wn), lambda: ps.compose(wn, [])], \
        [lambda: ps.compose(wn, wn), lambda: ps.compose([], [])]
    yield 'transpositions out of range', [lambda: ps.transposition(n, 0, n + b), lambda: ps.transposition(n, n + b, 0), lambda: ps.transposition(n, -1 - b, 0), lambda: ps.transposition(n, 0, -1 - b), lambda: ps.transposition(0, 0, 0)], [lambda: ps.transposition(n, 0, n - 1)]
    yield 'descents out of range', [lambda: perm_n.is_right_descent(n - 1 + b), lambda: perm_n.is_left_descent(n - 1 + b), lambda: perm_n.is_right_descent(-1 - b), lambda: perm_n.is_left_descent(-1 - b)], \
        [lambda: perm_n.is_right_descent(n - 2), lambda: perm_n.is_left_descent(n - 2)]
    yield 'Coxeter words out of range', [lambda: ps.from_cox(n, [0, n - 1 + b]), lambda: ps.from_cox(n, [-1 - b]), lambda: S.from_cox([n - 1 + b, 0]), lambda: S.from_cox([0, -1 - b])], [lambda: ps.from_cox(n, [0, n - 2]), lambda: S.from_cox([n - 2])]
    yield 'shortlex words of words which are not permutations', [lambda: Permutation((0,) * n).shortlex()], None
    ascending = list(range(1, n)) + [0]
    yield 'permutations which are not parallel descending cycles', [lambda: NPar.from_permutation(Permutation((1, 2, 0))), lambda: NPar.from_permutation(Permutation((2, 3, 0, 1)))] + (
        [lambda: NPar.from_permutation(Permutation(tuple(ascending)))] if n > 2 else []), [lambda: NPar.from_permutation(Permutation((2, 0, 1))), lambda: NPar.from_permutation(Permutation((1, 0, 3, 2)))]
    yield 'components with repetitions', [lambda: npar_component_to_artin_word([0, 1, 1]), lambda: npar_component_to_artin_word([b, b])], [lambda: npar_component_to_artin_word([0, 2, 1])]
    yield 'cycles out of range', [lambda: S.from_cycle([0, n + b]), lambda: S.from_cycle([0, 0]), lambda: S.from_cycle([-1 - b, 0]), lambda: SymmetricGroup(-1 - b)], [lambda: S.from_cycle([0, n - 1])]
    yield 'partitions which are not', [lambda: NPar.from_components(n, [[0, n + b]]), lambda: NPar.from_components(n, [[0], [0, 1]]), lambda: NPar.from_components(4 + a, [[0, 2], [1, 3]]), lambda: NPar.finest(-1 - b),
                                       lambda: list(NPar.all_of_size(-1 - b)), lambda: NPar(n, (0,) * (2 * n)), lambda: NPar(n, (1, 0)), lambda: NPar(2, (2, 3, 0, 1))], [lambda: NPar.from_components(4, [[0, 1], [2, 3]])]
    # stored braids
    for text in (b'', b'BGNF(3, 0, ())', b'gnf(3, 0, ())', b'(3, 0, ())', b'GNF(3, 0, (', b'GNF(3, 0, (0,))', b'GNF(3, 0, (-1,))', b'GNF(3, 0, (-2,))', b'DGNF(3, 0, (-1,))', b'DGNF(3, 0, (99,))', b'GNF(4, 0, (24,))', b'DGNF(3, 1, (0,))', b'GNF(3, 0, ()) or 1', b'GNF(__import__("os").getpid(), 0, ())'):
        yield f'stored text {text!r}', [lambda: convert_braid(text)], [lambda: convert_braid(f'GNF({n}, {a}, ())'.encode())]
    # diagrams
    d2, d3 = tl.TLDiag.id(n), tl.TLDiag.id(m)
    m2, m3 = tl.TLMor.id(n), tl.TLMor.id(m)
    yield 'incompatible diagrams', [lambda: d2 * d3, lambda: m2 * m3, lambda: m2 + m3, lambda: m2 - m3, lambda: tl.TLExtDiag.id(n) * tl.TLExtDiag.id(m), lambda: m2 * d3, lambda: m2.coefficient(d3), lambda: d2 * 3, lambda: tl.TLExtDiag.id(n) * 3,
                                    lambda: m2 * 'x', lambda: m2 + 'x', lambda: m2 - 'x', lambda: d2 @ 3, lambda: tl.TLExtDiag.id(n) @ 3,
                                    lambda: d2 @ tl.TLExtDiag.id(n), lambda: tl.TLExtDiag.id(n) @ d2, lambda: d2 * tl.TLExtDiag.id(n), lambda: d2 @ m2, lambda: tl.TLExtDiag(n, n, d2.seq, -1 - b), lambda: tl.TLExtDiag.id(n).add_bubbles(-1 - b)], [lambda: d2 * d2, lambda: m2 * m2, lambda: m2 + m2, lambda: d2 @ d3]
    yield 'words which are not matchings', [lambda: tl.TLDiag(n, n, (0,) * (2 * n)), lambda: tl.TLDiag(2, 2, (2, 3, 0, 1)), lambda: tl.TLDiag(n, n + 2, d2.seq), lambda: tl.TLDiag(-1, 3, (1, 0)), lambda: tl.TLDiag(3, -1, (1, 0)),
                                             lambda: tl.TLExtDiag(2, 2, (2, 3, 0, 1), 0), lambda: tl.TLExtDiag(n, n + 2, d2.seq, 0), lambda: tl.TLExtDiag(-1, 3, (1, 0), 0), lambda: tl.TLDiag(2, 2, (1, 0, 3, 4)), lambda: tl.TLDiag(1, 1, (0, 1))], \
        [lambda: tl.TLDiag(2, 2, (1, 0, 3, 2)), lambda: tl.TLDiag(n, n, d2.seq), lambda: tl.TLExtDiag(n, n, d2.seq, 0)]
    cup = tl.TLMor(2, 0, {tl.TLDiag(2, 0, (1, 0)): lp})
    yield 'algebra outside algebras', [lambda: cup + 1, lambda: 1 + cup, lambda: cup - lp, lambda: cup ** 2, lambda: cup * cup, lambda: m2 + cup], [lambda: cup + cup, lambda: cup * 2, lambda: cup.flip() * cup, lambda: cup * cup.flip()]
    yield 'diagram generators out of range', [lambda: tl.TLExtDiag.e(n - 1 + b, n), lambda: tl.TLExtDiag.e(-1 - b, n), lambda: tl.TLMor.id(-1 - b), lambda: tl.TLExtDiag.id(-1 - b)], [lambda: tl.TLExtDiag.e(n - 2, n), lambda: tl.TLMor.id(0)]
    yield 'morphisms of the wrong type', [lambda: tl.TLMor(n, n, {d3: lp}), lambda: tl.TLCell(n, r).project_vector(m3), lambda: tl.TLMor.e(n - 1 + b, n), lambda: tl.TLMor.e(-1 - b, n), lambda: m2 ** (-1 - b)], [lambda: tl.TLMor(n, n, {d2: lp}), lambda: tl.TLMor.e(n - 2, n)]
    yield 'cell modules which do not exist', [lambda: tl.TLCell(n, r + 1 + b), lambda: tl.TLCell(n, -1 - b), lambda: tl.TLCell(-1 - b, 0), lambda: tl.cell_dimension(n, r + 1 + b), lambda: tl.cell_dimension(n, -1), lambda: tl.JonesRep(-1 - b)], [lambda: tl.TLCell(n, r)]
    yield 'diagrams with an odd number of points', [lambda: tl.tl_basis(n, n + 1), lambda: list(tl.generate_sequences(2 * b + 1)), lambda: list(tl.generate_sequences(-2 - b)), lambda: tl.tl_tableaux_basis(n, n + 1), lambda: tl.tl_tableaux_basis(n, n - 1), lambda: tl.tl_tableaux_basis(n, n + 2), lambda: tl.tl_tableaux_basis(n, -2), lambda: tl.tl_basis(-1, n), lambda: tl.tl_basis(n, -n)], [lambda: tl.tl_basis(n, n)]
    yield 'composing past the end', [lambda: tl.compose((1, 0), (1, 0), 3 + b), lambda: tl.compose((1, 0), (1, 0), -1 - b), lambda: tl.insert((1, 0), (1, 0), 3 + b), lambda: tl.insert((1, 0), (1, 0), -1 - b)], [lambda: tl.compose((1, 0), (1, 0), 1), lambda: tl.insert((1, 0), (1, 0), 2)]
    # search structures
    if n >= 3:
        crep = JonesCellRep(n, 1, 5)
        CL, PL, NZ = bk.Stats.CanonicalLength, bk.Stats.ProjectiveLength, bk.Stats.NonzeroTerms
        stats = [CL, PL]
        good = make('GNF', n, [[0, 1], [1, 1]])
        image = crep.polymat_evaluate_braids_of_same_length([good])
        yield 'trackers which are too coarse', [lambda: bk.Tracker(crep, 3, [CL], []), lambda: bk.Tracker(crep, 3, [PL], []), lambda: bk.Tracker(crep, 3, [NZ], [])], [lambda: bk.Tracker(crep, 3, stats, [])]
        yield 'reservoirs which do not exist', [lambda x=x: bk.Tracker(crep, 3, stats, [], reservoir_method=x) for x in ('', 'uniform', 'Reservoir', None)], [lambda x=x: bk.Tracker(crep, 3, stats, [], reservoir_method=x) for x in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin')]
        track = bk.Tracker(crep, 3, stats, [])
        yield 'braids without their images', [lambda: track.add_braids_images([good, good], image), lambda: track.add_braids_images([good], image[0]), lambda: track.braid_image_stats([good, good], image)], \
            [lambda: track.add_braids_images([good], image)]
        yield 'buckets which are not there', [lambda: track.bucket_stats((9, 9)), lambda: track.bucket_braids_images((9, 9)), lambda: track.hash_bucket((9, 9)), lambda: list(track.nf_descendants((9, 9)) or [])], [lambda: track.discard_bucket((9, 9))]
        full = bk.Bucket.create((1, 1), k, image.shape[1:], image.dtype)
        for _ in range(k):
            full.append_braid(good, image[0], 1.0)
        yield 'a bucket which is full', [lambda: full.append_braid(good, image[0], 1.0), lambda: full.replace_braid(k + b, good, image[0], 1.0), lambda: full.replace_braid(-1 - b, good, image[0], 1.0)], [lambda: full.replace_braid(k - 1, good, image[0], 1.0)]
        yield 'chunks of no length', [lambda: list(bk.batched([1, 2], -b)), lambda: list(bs.batched([1, 2], -b))], [lambda: list(bk.batched([1, 2], 1 + b))]
        srep = JonesSummand(n, 1, 5)
        simg = bs.evaluate_braids_of_same_length(srep, [good])
        yield 'search trackers which are too coarse', [lambda: bs.Tracker(srep, 3, ('length',), lambda x: x['length'] >= 0), lambda: bs.Tracker(srep, 3, ('projlen',), lambda x: x['length'] >= 0)], None
        strack = bs.Tracker(srep, 3, ('length', 'projlen'), lambda x: x['length'] >= 0)
        yield 'search trackers given braids without their images', [lambda: strack.add_braids_images([good, good], simg)], [lambda: strack.add_braids_images([good], simg)]
        yield 'search buckets which are not there', [lambda: strack.bucket_stats((9, 9)), lambda: strack.substrings((9, 9))], None


def many(x):
    return [] if x is None else x if isinstance(x, list) else [x]


@st.composite
def op_case(draw):
    return dict(a=draw(st.integers(0, 11)), b=draw(st.integers(0, 3)), c=draw(st.integers(0, 5)), word=draw(gens.letters(4, 6)))


def check_ops(case, obs):
    for name, bad, good in refusals(case):
        for f in many(good):
            try:
                f()
            except Exception as e:
                expect(False, f'{name}: an operation inside its domain raised {type(e).__name__}: {e} with {case}')
        for i, f in enumerate(many(bad)):
            try:
                got = f()
            except Exception:
                continue
            expect(False, f'{name}: number {i} was accepted, giving {got!r}, with {case}')
    obs.nontrivial()


def check_state(case, obs):
    """What refuses an operation is as it was before."""
    n, k, r, p = case['n'], case['k'], case['r'], case['p']
    crep, srep = JonesCellRep(n, r, p), JonesSummand(n, r, p)
    braids = [make('GNF', n, w) for w in case['words']]
    good, other = make('GNF', n, [[0, 1], [1, 1]]), make('GNF', n, [[0, 1]])
    b = bk.Bucket.create((1, 1), k, crep.polymat_evaluate_braid(good).shape, np.int64)
    image = crep.polymat_evaluate_braid(good)
    for i in range(case['fill'] % (k + 1)):
        b.append_braid(good, image * (i + 1), float(i))

    def state():
        bs_, images = b.braids_images()
        return b.size(), b.is_full(), list(bs_), images.tolist(), b.weights.tolist(), b.reservoir_count, b.reservoir_weight
    before = state()
    m = b.size()
    tries = [lambda: b.replace_braid(m, other, image, 7.0), lambda: b.replace_braid(-1, other, image, 7.0), lambda: b.replace_braid(k + 3, other, image, 7.0)] + [lambda: b.append_braid(other, image, 7.0)] * (m == k)
    for i, f in enumerate(tries):
        for _ in range(2):
            expect(refused(f), lambda: f'number {i} was accepted by a bucket of capacity {k} with {m} braids')
            expect(state() == before, lambda: f'number {i} was refused, and changed a bucket of capacity {k} with {m} braids')
    # trackers
    images = crep.polymat_evaluate_braids_of_same_length([good, other * other.inv() * good])
    stats = [bk.Stats.CanonicalLength, bk.Stats.ProjectiveLength]
    t = bk.Tracker(crep, k, stats, [], rand=random.Random(1))
    s = bs.Tracker(srep, k, ('length', 'projlen'), lambda x: x['length'] >= 0, rand=random.Random(1))
    for x in braids:
        t.add_braids_images([x], crep.polymat_evaluate_braids_of_same_length([x]))
        s.add_braids_images([x], bs.evaluate_braids_of_same_length(srep, [x]))

    def states():
        tags = sorted(t.stats()['bucket'])
        return [(tag, list(t.bucket_braids_images(tag)[0]), t.bucket_braids_images(tag)[1].tolist()) for tag in tags], t.rand.getstate(), \
            sorted((tag, list(x), s.bucket_images[tag].tolist()) for tag, x in s.bucket_braids.items()), s.rand.getstate()
    before = states()
    simages = bs.evaluate_braids_of_same_length(srep, [good, good])
    for i, f in enumerate([lambda: t.add_braids_images([good], images), lambda: t.add_braids_images([good, good, good], images), lambda: t.bucket_stats((99, 99)), lambda: t.bucket_braids_images((99, 99)),
                           lambda: t.hash_bucket((99, 99)), lambda: list(t.nf_descendants((99, 99)) or []), lambda: s.add_braids_images([good], simages), lambda: s.add_braids_images([good] * 3, simages),
                           lambda: s.bucket_stats((99, 99)), lambda: s.substrings((99, 99))]):
        expect(refused(f), lambda: f'number {i} was accepted by a tracker')
        expect(states() == before, lambda: f'number {i} was refused, and changed a tracker')
    obs.nontrivial(m and len(braids) > 1)


def broadcastable(s, t):
    return all(x == y or 1 in (x, y) for x, y in zip(reversed(s), reversed(t)))


def filled(how, *shape):
    x = ones(*shape)
    if how == 'zero':
        x[...] = 0
    elif how == 'eye':
        x[...] = 0
        for i in range(min(shape[-3:-1])):
            x[..., i, i, 0] = 1
    return x


def check_shapes(case, obs):
    """Operations on two things with sizes are accepted exactly when the sizes fit."""
    (i, j, d), (k, l, e) = case['dims']
    pre, pre2 = tuple(case['pre'][0]), tuple(case['pre'][1])
    f, g = case['fill']
    x, y = filled(f, *pre, i, j, d), filled(g, *pre2, k, l, e)
    M, N = (Matrix(a, b, tuple(filled(h, a, b, 1).flatten().tolist()) if h != 'ones' else tuple(range(a * b))) for a, b, h in ((i, j, f), (k, l, g)))
    MP, NP = M.map(lambda c: LPoly(0, (c + (f == 'ones'),))), N.map(lambda c: LPoly(1, (c + (g == 'ones'),)))
    td = lambda a, b: tl.TLDiag(a, b, gens.matching_from(a + b, case['how']))
    U, V = td(i, i + 2 * (j - 1)), td(k, k + 2 * (l - 1))
    eU, eV = tl.TLExtDiag(U.top, U.bot, U.seq, 1), tl.TLExtDiag(V.top, V.bot, V.seq, 0)
    mU, mV = (tl.TLMor.from_tldiag(X) if h != 'zero' else tl.TLMor(X.top, X.bot, {}) for X, h in ((U, f), (V, g)))
    if f == 'eye' and U.top == U.bot:
        mU = tl.TLMor.id(U.top)
    if g == 'eye' and V.top == V.bot:
        mV = tl.TLMor.id(V.top)
    same_matrix, same_type = (i, j) == (k, l), (U.top, U.bot) == (V.top, V.bot)
    p, q = (SymmetricGroup(a).id() if h != 'ones' else SymmetricGroup(a).longest_element() for a, h in ((i, f), (k, g)))
    G, H = (([GNF.identity(a), DGNF.identity(a)] if h == 'eye' else [GNF(a, 2, ()), DGNF(a, -a, ())] if h == 'zero' else [GNF.from_perm(Permutation((1, 0, *range(2, a)))), DGNF(a, 1, ())]) for a, h in ((i + 1, f), (k + 1, g)))
    tests = [
        ('polymat.mul', lambda: polymat.mul(x, y), j == k and broadcastable(pre, pre2)),
        ('polymat.mul mod 5', lambda: polymat.mul(x, y, 5), j == k and broadcastable(pre, pre2)),
        ('polymat.pack', lambda: polymat.pack([ones(i, j, d), ones(i, j, e), ones(k, l, e)]), same_matrix),
        ('polymat.pack the other way', lambda: polymat.pack([ones(k, l, e), ones(i, j, d)]), same_matrix),
        ('polymat.concatenate', lambda: polymat.concatenate([ones(2, i, j, d), ones(3, k, l, e)]), same_matrix),
        ('polymat.concatenate, batches of one', lambda: polymat.concatenate([ones(1, i, j, d), ones(1, i, j, 1), ones(1, k, l, e)]), same_matrix),
        ('polymat.zeropad', lambda: polymat.zeropad(x, e), d <= e),
        ('Matrix *', lambda: M * N, j == k), ('Matrix -', lambda: M - N, same_matrix), ('Matrix +', lambda: M + N, same_matrix),
        ('Matrix * over the Laurent polynomials', lambda: MP * NP, j == k), ('Matrix - over the Laurent polynomials', lambda: MP - NP, same_matrix),
        ('Matrix **', lambda: M ** 2, i == j), ('trace', lambda: M.trace(), i == j),
        ('TLDiag *', lambda: U * V, U.bot == V.top), ('TLExtDiag *', lambda: eU * eV, U.bot == V.top), ('TLMor *', lambda: mU * mV, U.bot == V.top), ('TLMor * TLDiag', lambda: mU * V, U.bot == V.top),
        ('TLMor +', lambda: mU + mV, same_type), ('TLMor -', lambda: mU - mV, same_type), ('coefficient', lambda: mU.coefficient(V), same_type), ('TLMor + 1', lambda: mU + 1, U.top == U.bot),
        ('TLMor **', lambda: mU ** 2, U.top == U.bot), ('trace of a TLMor', lambda: mU.trace(), U.top == U.bot),
        ('a vector of a cell module', lambda: tl.TLCell(k, k // 2).project_vector(mU), (U.top, U.bot) == (k, k % 2)), ('a vector of a cell module', lambda: tl.TLCell(k, 0).project_vector(mU), (U.top, U.bot) == (k, k)),
        ('action on a cell module', lambda: tl.TLCell(k, k // 2).project_leftmult_matrix(mU), U.top == U.bot == k), ('cell_matrix', lambda: jr.cell_matrix(mU, 0), U.top == U.bot), ('cell_matrix', lambda: bs.cell_matrix(mU, i // 2), U.top == U.bot),
        ('Permutation *', lambda: p * q, i == k), ('compose', lambda: ps.compose(p.word, q.word), i == k),
        ('GNF *', lambda: G[0] * H[0], i == k), ('DGNF *', lambda: G[1] * H[1], i == k),
        ('GNF.from_perm_seq', lambda: GNF.from_perm_seq(i, [p, q, q]), i == k), ('DGNF.from_npar_seq', lambda: DGNF.from_npar_seq(i, [NPar.finest(i), NPar.coarsest(k)]), i == k),
    ]
    if not hasattr(Matrix, '__add__'):
        tests = [t for t in tests if t[0] != 'Matrix +']
    accepted = 0
    for name, f, ok in tests:
        try:
            f()
        except Exception as ex:
            expect(not ok, lambda: f'{name} refused {case}: {type(ex).__name__}: {ex}')
        else:
            expect(ok, lambda: f'{name} accepted {case}')
            accepted += 1
    obs.nontrivial(accepted < len(tests))
    obs.bucket('accepted', accepted, (0, 5, 10, 15, 20, 30))


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def check_factors(case, obs):
    ok, f = factors_case(case['kind'], case['n'], case['seq'])
    try:
        f()
        got = True
    except Exception:
        got = False
    expect(got == ok, lambda: f'{case["kind"]} with the factors {case["seq"]} on {case["n"]} strands was {"accepted" if got else "refused"}')
    obs.label('in normal form' if ok else 'not in normal form')
    obs.nontrivial(len(case['seq']) >= 2)


def check_late(case, obs):
    """Long arguments, with at most one thing wrong, anywhere in them."""
    n, L, rand = case['n'], case['length'], random.Random(case['seed'])
    at = rand.randrange(L) if case['late'] is None else L - 1 - min(case['late'], L - 1)
    spoil = case['spoil']
    word = [(rand.randrange(n - 1), rand.choice([1, -1, 2])) for _ in range(L)]
    if spoil:
        word[at] = rand.choice([n - 1, n, -1, -2]), word[at][1]
    rep, lkb = JonesCellRep(n, n // 2, 5), LKBRep(n, 5, LPoly(1, (1,)), LPoly(0, (1,)))
    cox = [s for s, _ in word]
    same = [GNF(n, e, (1,)) for e in range(L)]
    if spoil:
        same[at] = rand.choice([GNF(n, 0, ()), DGNF(n, 0, (1,)), GNF(n + 1, 0, (1,)), GNF(n, 1, (1, 1))])
    ints = [[rand.randrange(order('GNF', n)) for _ in range(2)] for _ in range(L)]
    if spoil:
        ints[at] = rand.choice([[0], [0, -1], [order('GNF', n), 0], [0, 0, 0]])
    tensors, batches = [ones(2, 2, 1 + i % 3) for i in range(L)], [ones(1, 2, 2, 1 + i % 3) for i in range(L)]
    if spoil:
        tensors[at], batches[at] = ones(2, 3, 1), ones(1, 2, 1, 1)
    rows = [[1, 2, 3] for _ in range(L)]
    if spoil:
        rows[at] = rand.choice([[1, 2], [1, 2, 3, 4]])
        if at and L > 2 and case['seed'] % 2:                # as many entries as there should be, or the first row unlike the others
            other = rand.choice([i for i in range(L) if i != at])
            rows[other] = [1] * (6 - len(rows[at]))
    perms, parts = [Permutation(tuple(range(n)))] * L, [NPar.coarsest(n)] * L
    if spoil:
        perms[at], parts[at] = Permutation(tuple(range(n + 1))), NPar.finest(n - 1)
    # Nested and parallel arcs, two of which may be made to cross.
    size = 2 * L + 2
    seq = list(gens.matching_from(size, [rand.randrange(100) for _ in range(L)]))
    k = at % (size - 1)
    if spoil:
        a, b = seq[k], seq[k + 1]
        if a == k + 1:
            seq[k] = k
        else:
            seq[k], seq[k + 1], seq[a], seq[b] = b, a, k + 1, k
    arcs = sorted({frozenset([i, j]) for i, j in enumerate(seq)}, key=sorted)
    ok = all(len(x) == 2 for x in arcs) and rb.is_noncrossing([sorted(x) for x in arcs])
    blocks = [[2 * i, 2 * i + 1] for i in range(L)]
    if spoil:
        blocks[at] = rand.choice([[2 * at, 2 * L], [2 * at, 2 * at], [-1, 2 * at]] + [[2 * at, 0]] * (at > 0))
    letters = list(range(L + 1))
    rand.shuffle(letters)
    if spoil:
        letters[at] = rand.choice([letters[at + 1], L + 1, -1])
    tests = [
        ('GNF.from_artin_word', lambda: GNF.from_artin_word(n, word), not spoil), ('DGNF.from_artin_word', lambda: DGNF.from_artin_word(n, word), not spoil),
        ('evaluate_artin_word', lambda: rep.evaluate_artin_word(word), not spoil), ('polymat_evaluate_artin_word', lambda: rep.polymat_evaluate_artin_word(word), not spoil),
        ('evaluate_artin_word of LKBRep', lambda: lkb.polymat_evaluate_artin_word(word), not spoil),
        ('from_cox', lambda: ps.from_cox(n, cox), not spoil), ('SymmetricGroup.from_cox', lambda: SymmetricGroup(n).from_cox(cox), not spoil),
        ('polymat_evaluate_braids_of_same_length', lambda: rep.polymat_evaluate_braids_of_same_length(same), not spoil),
        ('polymat_evaluate_braid_integers_of_same_length', lambda: rep.polymat_evaluate_braid_integers_of_same_length(GNF, ints), not spoil),
        ('braidsearch.evaluate_braids_of_same_length', lambda: bs.evaluate_braids_of_same_length(JonesSummand(n, n // 2, 5), same), not spoil),
        ('braidsearch.evaluate_prefixes_of_same_length', lambda: bs.evaluate_prefixes_of_same_length(JonesSummand(n, n // 2, 5), same), not spoil),
        ('pack', lambda: polymat.pack(tensors), not spoil), ('concatenate', lambda: polymat.concatenate(batches), not spoil),
        ('Matrix.from_rows', lambda: Matrix.from_rows(rows), not spoil),
        ('from_perm_seq', lambda: GNF.from_perm_seq(n, perms), not spoil), ('from_npar_seq', lambda: DGNF.from_npar_seq(n, parts), not spoil),
        ('from_gnf_pair', lambda: BraidGroup(n).from_gnf_pair((0, [x.word for x in perms])), not spoil),
        ('TLDiag', lambda: tl.TLDiag(L, L + 2, tuple(seq)), ok), ('TLExtDiag', lambda: tl.TLExtDiag(size, 0, tuple(seq), 1), ok),
        ('NPar.from_components', lambda: NPar.from_components(2 * L, blocks), not spoil),
        ('Permutation', lambda: Permutation(tuple(letters)), not spoil), ('is_permutation', lambda: None if ps.is_permutation(letters) else 1 / 0, not spoil),
        ('NPar.from_components, one block', lambda: NPar.from_components(L + 1, [letters]), not spoil), ('from_cycle', lambda: SymmetricGroup(L + 1).from_cycle(letters), not spoil),
    ]
    for name, f, good in tests:
        try:
            f()
        except Exception as ex:
            expect(not good, lambda: f'{name} refused an argument of length {L}: {type(ex).__name__}: {ex}, with {case}')
        else:
            expect(good, lambda: f'{name} accepted an argument of length {L} which is wrong at {at}, with {case}')
    # Factors in normal form, but perhaps at one place.
    kind = case['kind']
    table, last, factors = factor_followers(kind, n), None, []
    for _ in range(L):
        last = rand.choice(table[last])
        factors.append(last)
    if spoil:
        factors[at] = rand.randrange(order(kind, n))
    good = all(y in table[x] for x, y in zip([None, *factors], factors))
    expect(refused(lambda: KIND[kind](n, case['seed'] % 7 - 3, tuple(factors))) == (not good), lambda: f'{kind} with {L} factors {factors} on {n} strands was {"refused" if good else "accepted"}')
    obs.label('wrong' if spoil else 'right', f'factors {"right" if good else "wrong"}')
    obs.bucket('length', L, (0, 10, 20, 30, 50, 80))
    obs.nontrivial(L > 20 and spoil)


@functools.cache
def factor_followers(kind, n):
    """Index of a factor (None at the start) -> indices of those which can come after it."""
    single = {}
    for i in range(order(kind, n)):
        b = try_(lambda: KIND[kind](n, 0, (i,)))
        if b is not None:
            f = b.canonical_factors()[0]
            single[i] = read_perm(f, n) if kind == 'GNF' else rb.blocks_perm(n, read_npar(f, n))
    def pair(a, b):
        return set(rb.left_descents(b)) <= set(rb.right_descents(a)) if kind == 'GNF' else rb.dual_pair_ok(a, b)
    out = {i: [j for j in single if pair(single[i], single[j])] for i in single}
    return {None: list(single), **{i: [] for i in range(order(kind, n))}, **out}


def try_(f):
    try:
        return f()
    except Exception:
        return None


def check_cli(case, obs):
    """search.py refuses parameters for which there is no search."""
    n, r, p = case['nrp']
    with tempfile.TemporaryDirectory(prefix='pbt-cli-') as d:
        done = subprocess.run([sys.executable, os.path.join(env.REPO, 'search.py'), str(n), str(r), str(p), '--bootstrap-length', '1', '--stop-at-projlen-1'],
                              cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, env={**os.environ, 'PYTHONPATH': env.REPO})
        expect(done.returncode != 0, lambda: f'search.py {n} {r} {p} was accepted')
        expect(not os.listdir(d), 'search.py left files behind')
    obs.nontrivial()


dims3 = st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 3))

TESTS = [
    Test('operations', op_case, check_ops, quick=60, thorough=1500, shards=3),
    Test('factors', lambda: st.tuples(st.sampled_from(['GNF', 'DGNF']), st.integers(1, 4)).flatmap(lambda t: st.fixed_dictionaries(dict(
        kind=st.just(t[0]), n=st.just(t[1]), seq=st.lists(st.integers(0, 200), max_size=4)))), check_factors, quick=400, thorough=8000, shards=2),
    Test('late', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([3, 4, 4]), length=st.sampled_from([2, 5, 12, 20, 30, 35, 45, 70, 110]), late=st.sampled_from([0, 1, 2, 5, None]), spoil=st.sampled_from([True, True, False]),
                                                    kind=st.sampled_from(['GNF', 'DGNF']), seed=st.integers(0, 10**9))), check_late, quick=150, thorough=3000),
    Test('shapes', lambda: st.fixed_dictionaries(dict(
        dims=st.one_of(st.tuples(dims3, dims3), dims3.flatmap(lambda t: st.tuples(st.just(t), dims3.map(lambda u: (t[1], *u[1:])))),
                       dims3.flatmap(lambda t: st.tuples(st.just(t), dims3.map(lambda u: (*t[:2], u[2]))))),
        pre=st.sampled_from([[[], []], [[2], [2]], [[2], [3]], [[1], [3]], [[2], []], [[2, 3], [3]], [[2, 3], [2]], [[3, 1], [1, 2]]]), fill=st.tuples(*[st.sampled_from(['ones', 'ones', 'zero', 'eye'])] * 2), how=st.lists(st.integers(0, 9), min_size=14, max_size=14))),
        check_shapes, quick=300, thorough=4000, thorough_shards=2),
    Test('state', lambda: st.integers(3, 4).flatmap(lambda n: st.fixed_dictionaries(dict(n=st.just(n), k=st.integers(1, 4), r=st.just(1), p=st.sampled_from([0, 2, 5]), fill=st.integers(0, 60),
         words=st.lists(gens.letters(n, 8), max_size=5)))), check_state, quick=40, thorough=800),
    Test('command_line', lambda: st.fixed_dictionaries(dict(nrp=st.sampled_from([[2, 1, 2], [8, 1, 2], [4, 3, 2], [4, -1, 2], [4, 1, 0], [4, 1, -5], [1, 0, 2], [5, 3, 3]]))), check_cli, quick=8, thorough=8, thorough_shards=1),
]
