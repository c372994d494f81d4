"""
Reading values of the code under test through its public interface, into plain data, with checks that they are what
they should be.  Anything unexpected is a CheckFailed.
"""
from __future__ import annotations

import functools
import itertools

import numpy as np

from . import env  # noqa: F401
from . import ref_braid as rb
from .engine import expect, expect_eq

import peyl
from peyl import DGNF, GNF, LPoly, Matrix, NPar, Permutation
from peyl.braid import BraidGroup

KIND = {'GNF': GNF, 'DGNF': DGNF}


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


# ---------------------------------------------------------------- words

def tup(word):
    """A word as the code takes it: a list of tuples."""
    return [(i, e) for i, e in word]


def read_word(n, word, what='word'):
    out = []
    for letter in word:
        expect(len(letter) == 2 and all(is_int(x) for x in letter), f'{what}: letter {letter!r} is not a pair of integers')
        i, e = int(letter[0]), int(letter[1])
        expect(0 <= i < n - 1, f'{what}: letter {letter!r} out of range for {n} strands')
        out.append([i, e])
    return out


# ---------------------------------------------------------------- cached reference facts

@functools.cache
def _ld(x):
    return frozenset(rb.left_descents(x))


@functools.cache
def _rd(x):
    return frozenset(rb.right_descents(x))


@functools.cache
def _dual_ok(x, y):
    return rb.dual_pair_ok(x, y)


@functools.cache
def _perm_word(x):
    return rb.perm_word(x)


# ---------------------------------------------------------------- permutations and partitions

def read_perm(x, n=None):
    expect(isinstance(x, Permutation), f'{x!r} is not a Permutation')
    w = tuple(int(i) for i in x.word)
    expect_eq(sorted(w), list(range(len(w))), 'a permutation word')
    if n is not None:
        expect_eq(len(w), n, 'size of a permutation')
    return w


def read_npar(x, n=None):
    """The blocks of an NPar, as a frozenset of frozensets."""
    expect(isinstance(x, NPar), f'{x!r} is not an NPar')
    blocks = [frozenset(int(i) for i in c) for c in x.components()]
    pts = sorted(i for b in blocks for i in b)
    expect_eq(pts, list(range(x.n)), f'points of the blocks of {x!r}')
    if n is not None:
        expect_eq(x.n, n, 'size of a partition')
    return frozenset(blocks)


# ---------------------------------------------------------------- braids

def read_gnf(b, n):
    """Check that b is a GNF on n strands in normal form, and return (power, [permutation words])."""
    expect(isinstance(b, GNF), f'{b!r} is not a GNF')
    expect_eq(b.n, n, 'strands of a braid')
    power, factors = b.canonical_decomposition()
    expect(is_int(power), f'the power {power!r} is not an integer')
    perms = [read_perm(x, n) for x in factors]
    idp, w0 = tuple(range(n)), tuple(reversed(range(n)))
    for x in perms:
        expect(x != idp and x != w0, lambda: f'{b!r} has a trivial canonical factor {x}')
    for x, y in zip(perms, perms[1:]):
        expect(_ld(y) <= _rd(x), lambda: f'{b!r} is not left-weighted at {x}, {y}')
    expect_eq(b.canonical_length(), len(perms), 'canonical length')
    expect_eq((b.inf(), b.sup()), (power, power + len(perms)), 'inf and sup')
    return int(power), perms


def read_dgnf(b, n):
    """Check that b is a DGNF on n strands in dual normal form, and return (power, [block sets])."""
    expect(isinstance(b, DGNF), f'{b!r} is not a DGNF')
    expect_eq(b.n, n, 'strands of a braid')
    power, factors = b.canonical_decomposition()
    expect(is_int(power), f'the power {power!r} is not an integer')
    parts = [read_npar(x, n) for x in factors]
    for p in parts:
        expect(rb.is_noncrossing(p), lambda: f'{b!r} has a crossing factor')
        expect(1 < len(p) < n, lambda: f'{b!r} has a trivial canonical factor')
    perms = [rb.blocks_perm(n, p) for p in parts]
    for x, y in zip(perms, perms[1:]):
        expect(_dual_ok(x, y), lambda: f'{b!r} is not left-weighted at {x}, {y}')
    expect_eq(b.canonical_length(), len(parts), 'canonical length')
    expect_eq((b.inf(), b.sup()), (power, power + len(parts)), 'inf and sup')
    return int(power), parts


def read_braid(b, n):
    return read_gnf(b, n) if isinstance(b, GNF) else read_dgnf(b, n)


def denoted_word(b, n):
    """A word for the braid that b says it is, worked out from its canonical decomposition by the reference model."""
    power, factors = read_braid(b, n)
    if isinstance(b, GNF):
        w = rb.power_word(rb.delta_word(n), power)
        for x in factors:
            w = w + _perm_word(x)
    else:
        w = rb.power_word(rb.dual_delta_word(n), power)
        for p in factors:
            w = w + rb.partition_word(p)
    return w


def denotes(b, n, word, what):
    """Check that b is a well-formed normal form for the braid given by the word."""
    w = denoted_word(b, n)
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, word),
           lambda: f'{what}: {b!r} does not denote the braid of the word {word}')


def make(kind, n, word):
    return KIND[kind].from_artin_word(n, tup(word))


# ---------------------------------------------------------------- polynomials and matrices

def read_lpoly(x):
    """An LPoly or integer, as a dict {degree: coefficient}."""
    if is_int(x):
        return {0: int(x)} if x else {}
    expect(isinstance(x, LPoly), f'{x!r} is neither an integer nor an LPoly')
    out = {}
    for i, c in enumerate(x.coeffs):
        expect(is_int(c), f'coefficient {c!r} is not an integer')
        if c:
            out[int(x.val) + i] = int(c)
    return out


def to_lpoly(d):
    if not d:
        return LPoly(0, ())
    lo, hi = min(d), max(d)
    return LPoly(lo, tuple(d.get(k, 0) for k in range(lo, hi + 1)))


def read_matrix(m, nrows=None, ncols=None):
    expect(isinstance(m, Matrix), f'{type(m).__name__} is not a Matrix')
    if nrows is not None:
        expect_eq((m.nrows, m.ncols), (nrows, nrows if ncols is None else ncols), 'shape of a matrix')
    return [[read_lpoly(m[i, j]) for j in range(m.ncols)] for i in range(m.nrows)]


def to_matrix(rows):
    return Matrix(len(rows), len(rows[0]), tuple(to_lpoly(x) for row in rows for x in row))


def read_polymat(A, dims=3):
    """A polymat as a matrix of dicts."""
    expect(isinstance(A, np.ndarray), f'{type(A).__name__} is not an array')
    expect_eq(A.ndim, dims, 'number of axes of a polymat')
    I, J, _ = A.shape
    out = [[{} for _ in range(J)] for _ in range(I)]
    for i, j, d in zip(*np.nonzero(A)):
        out[i][j][int(d)] = int(A[i, j, d])
    return out


def state_of(diag):
    """The link state of a basis diagram of a cell module."""
    from . import ref_tl
    return ref_tl.link_state(diag.top, diag.bot, ref_tl.from_seq(diag.top, diag.bot, diag.seq))


def basis_states(n, r, diags):
    """The link states of a list of diagrams, after checking they are all of those of the cell module, once each."""
    from . import ref_poly
    states = []
    for d in diags:
        expect_eq((d.top, d.bot), (n, n - 2 * r), 'type of a basis diagram')
        states.append(state_of(d))
    expect_eq(sorted(states), sorted(ref_poly.link_states(n, r)), f'the basis of the cell module ({n}, {r})')
    return tuple(states)


def check_interleaved(iterators, schedule, what, top=400):
    """
    Several iterators over the same or other things, advanced in turns as the schedule says and some of them given up,
    must give what each gives alone. The iterators are functions which make them.
    """
    alone = [[*itertools.islice(f(), top)] for f in iterators]
    its, got = [f() for f in iterators], [[] for _ in iterators]
    its = [iter(x) for x in its]
    for k, steps in schedule:
        k %= len(its)
        got[k] += itertools.islice(its[k], min(steps, top - len(got[k])))
    for k in range(len(its)):
        got[k] += itertools.islice(its[k], top - len(got[k]))
        expect(got[k] == alone[k], lambda: f'{what}: iterator {k} of {len(its)} advanced in turns {schedule} gives {got[k]}, alone {alone[k]}')
    return alone
