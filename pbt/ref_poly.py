"""
Reference models for Laurent polynomials and matrices over them, and for the representations of the braid group on
the cell modules of the Temperley-Lieb algebra.  Plain Python / numpy; nothing here calls the code under test.

A Laurent polynomial is a dict {degree: nonzero coefficient}.  A matrix is a list of rows of such dicts.
"""
from __future__ import annotations

import itertools
import functools

import numpy as np


# ---------------------------------------------------------------- Laurent polynomials

def lp(*pairs):
    out = {}
    for d, c in pairs:
        out[d] = out.get(d, 0) + c
    return {d: c for d, c in out.items() if c}


def ladd(a, b):
    return lp(*a.items(), *b.items())


def lneg(a):
    return {d: -c for d, c in a.items()}


def lmul(a, b):
    out = {}
    for (d, c), (e, k) in itertools.product(a.items(), b.items()):
        out[d + e] = out.get(d + e, 0) + c * k
    return {d: c for d, c in out.items() if c}


def lscale(a, c, shift=0):
    return {d + shift: k * c for d, k in a.items() if k * c}


def lmod(a, p):
    if not p:
        return dict(a)
    return {d: c % p for d, c in a.items() if c % p}


def lpow(a, k):
    out = {0: 1}
    for _ in range(k):
        out = lmul(out, a)
    return out


def lsubst_power(a, k):
    """a(v^k)"""
    return lp(*((d * k, c) for d, c in a.items()))


def qint(n):
    s = 1 if n >= 0 else -1
    return {d: s for d in range(-abs(n) + 1, abs(n), 2)} if n else {}


# ---------------------------------------------------------------- matrices

def mid(n):
    return [[{0: 1} if i == j else {} for j in range(n)] for i in range(n)]


def mmul(A, B):
    return [[functools.reduce(ladd, (lmul(A[i][k], B[k][j]) for k in range(len(B))), {}) for j in range(len(B[0]))]
            for i in range(len(A))]


def mmod(A, p):
    return [[lmod(x, p) for x in row] for row in A]


def mspan(A):
    """(lowest degree, highest degree) of a nonzero matrix, or None."""
    ds = [d for row in A for x in row for d in x]
    return (min(ds), max(ds)) if ds else None


def mshift(A, k):
    return [[{d + k: c for d, c in x.items()} for x in row] for row in A]


def mproj(A):
    """Divide by the lowest power of v."""
    s = mspan(A)
    return A if s is None else mshift(A, -s[0])


# ---------------------------------------------------------------- cell modules, on link states

def link_states(n, r):
    """
    All link states on n points with r cups: tuples giving each point's partner, or -1 for a defect (through-strand).
    No defect lies under a cup and cups do not cross.
    """
    out = []

    def go(i, stack, defects, acc):
        if i == n:
            if not stack and defects == n - 2 * r:
                out.append(tuple(acc))
            return
        # open
        if len(stack) < n - i:
            go(i + 1, stack + [i], defects, acc + [None])
        # close
        if stack:
            j = stack[-1]
            a = acc + [j]
            a[j] = i
            go(i + 1, stack[:-1], defects, a)
        # defect
        if not stack and defects < n - 2 * r:
            go(i + 1, stack, defects + 1, acc + [-1])
    go(0, [], 0, [])
    return out


def e_action(state, i):
    """e_i on a link state: (new state, loop?) or None if it is killed."""
    a, b = state[i], state[i + 1]
    if a == i + 1:
        return state, True
    if a == -1 and b == -1:
        return None
    s = list(state)
    s[i], s[i + 1] = i + 1, i
    if a == -1:
        s[b] = -1
    elif b == -1:
        s[a] = -1
    else:
        s[a], s[b] = b, a
    return tuple(s), False


@functools.cache
def _tables(states):
    n = len(states[0])
    index = {s: k for k, s in enumerate(states)}
    out = []
    for i in range(n - 1):
        col = []
        for s in states:
            t = e_action(s, i)
            col.append(None if t is None else (index[t[0]], t[1]))
        out.append(col)
    return out


def cell_eval(states, word, p=0):
    """
    The matrix of a braid word, on the cell module with the given ordered basis of link states, where
    sigma_i = 1 - v e_i and sigma_i^-1 = 1 - v^-1 e_i, bubbles being v + v^-1.
    Returns (shift, array[dim, dim, D]) meaning array * v^-shift.
    """
    states = tuple(states)
    dim = len(states)
    tables = _tables(states)
    letters = [(i, 1 if e > 0 else -1) for i, e in word for _ in range(abs(e))]

    # A bound for the coefficients, so that machine integers may be used when they suffice.
    bound = [1] * dim
    for i, s in reversed(letters):
        new = list(bound)
        for j, t in enumerate(tables[i]):
            if t is not None:
                new[t[0]] += (2 if t[1] else 1) * bound[j]
        bound = new
    if p:
        dtype = np.int64
        assert p * p * 8 * dim < 2**62
    else:
        dtype = np.int64 if max(bound) < 2**62 else object

    X = np.zeros((dim, dim, 2 * len(letters) + 1), dtype=dtype)
    for k in range(dim):
        X[k, k, 0] = 1
    shift = 0
    for step, (i, s) in enumerate(reversed(letters)):
        old = X
        X = old.copy()
        if s < 0:
            X[:] = 0
            X[:, :, 2:] = old[:, :, :-2]
            shift += 2
        for j, t in enumerate(tables[i]):
            if t is None:
                continue
            k, loop = t
            if loop:                       # v e = v^2 + 1    and    v^2 (v^-1 e) = v^2 + 1
                X[k, :, :] -= old[j]
                X[k, :, 2:] -= old[j][:, :-2]
            else:                          # v e = v          and    v^2 (v^-1 e) = v
                X[k, :, 1:] -= old[j][:, :-1]
        if p:
            X %= p
    return shift, X


def arr_to_mat(shift, X):
    """(shift, array) to a matrix of dicts."""
    I, J, _ = X.shape
    out = [[{} for _ in range(J)] for _ in range(I)]
    for i, j, d in zip(*np.nonzero(X)):
        out[i][j][int(d) - shift] = int(X[i, j, d])
    return out


def cell_matrix_ref(states, word, p=0):
    return arr_to_mat(*cell_eval(states, word, p))


def proj_array(X):
    """Cut leading and trailing zero degrees off an array [..., i, j, d] holding one nonzero matrix."""
    ds = np.nonzero(np.any(X != 0, axis=(0, 1)))[0]
    return X[:, :, ds[0]:ds[-1] + 1]


# ---------------------------------------------------------------- Magma's reduced Burau generators (README, MagmaCheck.m)

def burau_gen(n, i):
    """1 - v e_i on the module (n-1, 1) in the basis of cups (0,1), (1,2), ..."""
    m = mid(n - 1)
    for j in range(n - 1):
        if j == i:
            m[i][j] = {2: -1}
        elif abs(i - j) == 1:
            m[i][j] = {1: -1}
    return m


def selftest():
    import math
    import random
    rnd = random.Random(7)
    for n in range(1, 8):
        for r in range(n // 2 + 1):
            st = link_states(n, r)
            assert len(st) == len(set(st)) == math.comb(n, r) - (math.comb(n, r - 1) if r else 0)
    for n in range(2, 6):
        for r in range(n // 2 + 1):
            st = link_states(n, r)
            ev = lambda w: cell_matrix_ref(st, w)  # noqa: E731
            for i in range(n - 1):
                assert ev([[i, 1], [i, -1]]) == mid(len(st)) == ev([[i, -1], [i, 1]])
                for j in range(n - 1):
                    if abs(i - j) == 1:
                        assert ev([[i, 1], [j, 1], [i, 1]]) == ev([[j, 1], [i, 1], [j, 1]])
                    elif i != j:
                        assert ev([[i, 1], [j, 1]]) == ev([[j, 1], [i, 1]])
            for p in (0, 2, 5):
                w1 = [[rnd.randrange(n - 1), rnd.choice([-2, -1, 1, 3])] for _ in range(8)]
                w2 = [[rnd.randrange(n - 1), rnd.choice([-2, -1, 1, 3])] for _ in range(8)]
                A, B = cell_matrix_ref(st, w1, p), cell_matrix_ref(st, w2, p)
                assert mmod(mmul(A, B), p) == cell_matrix_ref(st, w1 + w2, p)
                assert mmod(cell_matrix_ref(st, w1), p) == A
            # big coefficients take the exact path
            w = [[0, 40], [1 % (n - 1), -40], [0, 60]] * 2
            A = cell_matrix_ref(st, w)
            assert mmod(A, 10007) == cell_matrix_ref(st, w, 10007)
        st = [tuple((k + 1 if x == k else k if x == k + 1 else -1) for x in range(n)) for k in range(n - 1)]
        for i in range(n - 1):
            assert cell_matrix_ref(st, [[i, 1]]) == burau_gen(n, i)
    return True
