"""
Reference models for braids, sharing no code and no algorithm with the code under test.

A braid is given by a word: a list of [i, e] pairs meaning sigma_i^e, 0 <= i < n-1.

- `dynnikov`: a faithful action of B_n on Z^(2n) (integral laminations of the punctured disc).  Two words denote the
  same braid iff they send the base lamination to the same coordinates.
- `artin_action`: the faithful Artin action on the free group, used for cross-checking `dynnikov` on short words.
- Permutations in word notation, the Garside order (weak Bruhat order) and the dual Garside order (absolute order)
  from first principles.
"""
from __future__ import annotations

import itertools


# ---------------------------------------------------------------- word problem

def letters(word):
    for i, e in word:
        s = 1 if e > 0 else -1
        for _ in range(abs(e)):
            yield i, s


def dynnikov(n, word):
    """Image of the base lamination (0,1,0,1,...) under the braid."""
    c = [0, 1] * n
    for i, s in letters(word):
        k = 2 * i
        x1, y1, x2, y2 = c[k:k + 4]
        y1p, y1m = (y1, 0) if y1 > 0 else (0, y1)
        y2p, y2m = (y2, 0) if y2 > 0 else (0, y2)
        if s > 0:
            z = x1 - y1m - x2 + y2p
            zp = z if z > 0 else 0
            c[k] = x1 + y1p + max(0, y2p - z)
            c[k + 1] = y2 - zp
            c[k + 2] = x2 + y2m + min(0, y1m + z)
            c[k + 3] = y1 + zp
        else:
            z = x1 + y1m - x2 - y2p
            zm = z if z < 0 else 0
            c[k] = x1 - y1p - max(0, y2p + z)
            c[k + 1] = y2 + zm
            c[k + 2] = x2 - y2m - min(0, y1m - z)
            c[k + 3] = y1 - zm
    return tuple(c)


def _free_reduce(w):
    out = []
    for x in w:
        if out and out[-1] == -x:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def artin_action(n, word):
    """The automorphism of the free group F_n given by the braid, as the images of the generators 1..n."""
    images = [(k + 1,) for k in range(n)]
    for i, s in letters(word):
        a, b = i + 1, i + 2
        if s > 0:
            sub = {a: (a, b, -a), b: (a,)}
        else:
            sub = {a: (b,), b: (-b, a, b)}

        def apply(w):
            out = []
            for x in w:
                y = sub.get(abs(x), (abs(x),))
                out += y if x > 0 else [-t for t in reversed(y)]
            return _free_reduce(out)
        images = [apply(w) for w in images]
    return tuple(images)


def inverse_word(word):
    return [[i, -e] for i, e in reversed(word)]


def power_word(word, k):
    return list(word) * k if k >= 0 else inverse_word(word) * (-k)


def exponent_sum(word):
    return sum(e for _, e in word)


def delta_word(n):
    """The half twist: a reduced word of the longest permutation."""
    return [[i, 1] for k in range(n - 1, 0, -1) for i in range(k)]


def dual_delta_word(n):
    """delta = sigma_{n-2} ... sigma_1 sigma_0."""
    return [[i, 1] for i in range(n - 2, -1, -1)]


def bkl_word(s, t):
    """a_{st} = sigma_{t-1} ... sigma_{s+1} sigma_s sigma_{s+1}^-1 ... sigma_{t-1}^-1 for s < t."""
    if s == t:
        return []
    if s > t:
        s, t = t, s
    down = [[i, 1] for i in range(t - 1, s, -1)]
    return down + [[s, 1]] + inverse_word(down)


def block_word(block):
    """The descending-cycle braid on a block of points: a_{c_k c_{k-1}} ... a_{c_1 c_0}."""
    b = sorted(block)
    return [l for k in range(len(b) - 1, 0, -1) for l in bkl_word(b[k - 1], b[k])]


def partition_word(blocks):
    return [l for block in sorted(sorted(b) for b in blocks) for l in block_word(block)]


# ---------------------------------------------------------------- permutations in word notation

def pid(n):
    return tuple(range(n))


def pmul(x, y):
    """(xy)(i) = x(y(i))"""
    return tuple(x[j] for j in y)


def pinv(x):
    out = [0] * len(x)
    for i, v in enumerate(x):
        out[v] = i
    return tuple(out)


def ptrans(n, i, j):
    w = list(range(n))
    w[i], w[j] = w[j], w[i]
    return tuple(w)


def plen(x):
    return sum(1 for i, j in itertools.combinations(range(len(x)), 2) if x[i] > x[j])


def right_descents(x):
    n = len(x)
    return {i for i in range(n - 1) if plen(pmul(x, ptrans(n, i, i + 1))) < plen(x)}


def left_descents(x):
    n = len(x)
    return {i for i in range(n - 1) if plen(pmul(ptrans(n, i, i + 1), x)) < plen(x)}


def reduced_word(x):
    """Some reduced Coxeter word for x (not necessarily the shortlex one)."""
    x = list(x)
    out = []
    # Selection sort by adjacent swaps from the right: x = s_{i1} ... s_{ik}.
    n = len(x)
    moved = True
    while moved:
        moved = False
        for i in range(n - 2, -1, -1):
            if x[i] > x[i + 1]:
                x[i], x[i + 1] = x[i + 1], x[i]
                out.append(i)
                moved = True
    return out[::-1]


def perm_word(x):
    """A braid word for the positive lift of the permutation."""
    return [[i, 1] for i in reduced_word(x)]


def perm_of_word(n, word):
    x = list(range(n))
    for i, s in letters(word):
        x[i], x[i + 1] = x[i + 1], x[i]
    return tuple(x)


def cycles_of(x):
    seen, out = set(), []
    for i in range(len(x)):
        if i in seen:
            continue
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = x[j]
        out.append(tuple(c))
    return out


def refl_len(x):
    return len(x) - len(cycles_of(x))


def garside_pair_ok(x, y):
    """(x, y) left-weighted in the classical Garside structure."""
    return left_descents(y) <= right_descents(x)


# ---------------------------------------------------------------- noncrossing partitions as tuples of blocks

def blocks_perm(n, blocks):
    """Descending cycles: the largest element of a block maps to the next lower, ..., the least to the largest."""
    x = list(range(n))
    for b in blocks:
        b = sorted(b)
        for k in range(len(b)):
            x[b[k]] = b[k - 1]
    return tuple(x)


def is_noncrossing(blocks):
    """No a < b < c < d with a, c in one block and b, d in another."""
    for A, B in itertools.combinations([sorted(b) for b in blocks], 2):
        for a, c in itertools.combinations(A, 2):
            inside = [x for x in B if a < x < c]
            if inside and len(inside) != len(B):
                return False
    return True


def dual_delta_perm(n):
    return tuple((i - 1) % n for i in range(n)) if n else ()


def below_delta(x):
    """x <= delta in the absolute order: x is the permutation of a noncrossing partition."""
    d = dual_delta_perm(len(x))
    return refl_len(x) + refl_len(pmul(pinv(x), d)) == refl_len(d)


def dual_pair_ok(x, y):
    """(x, y), permutations of noncrossing partitions, left-weighted in the dual Garside structure."""
    n = len(x)
    for i, j in itertools.combinations(range(n), 2):
        a = ptrans(n, i, j)
        if refl_len(pmul(a, y)) == refl_len(y) - 1:           # a is a left divisor of y
            xa = pmul(x, a)
            if refl_len(xa) == refl_len(x) + 1 and below_delta(xa):
                return False
    return True


def all_noncrossing(n):
    """All noncrossing partitions of range(n), as frozensets of frozensets, by brute force."""
    def parts(items):
        if not items:
            yield []
            return
        first, rest = items[0], items[1:]
        for p in parts(rest):
            yield [[first]] + p
            for k in range(len(p)):
                yield p[:k] + [[first] + p[k]] + p[k + 1:]
    for p in parts(list(range(n))):
        if is_noncrossing(p):
            yield frozenset(frozenset(b) for b in p)


# ---------------------------------------------------------------- relation moves, for metamorphic word pairs

def scramble(n, word, ops):
    """
    Rewrite a word by braid-group relations (so that it denotes the same braid), driven by a list of integer pairs.
    Works on unit letters.
    """
    w = [[i, s] for i, s in letters(word)]
    for kind, pos in ops:
        kind = kind % 6
        L = len(w)
        if kind == 0:                                   # insert sigma sigma^-1
            p = pos % (L + 1)
            g = (pos // (L + 1)) % (n - 1)
            s = 1 if (pos // 7) % 2 else -1
            w[p:p] = [[g, s], [g, -s]]
        elif kind == 1 and L >= 2:                      # commute / cancel
            for d in range(L - 1):
                p = (pos + d) % (L - 1)
                (a, s), (b, t) = w[p], w[p + 1]
                if abs(a - b) >= 2:
                    w[p], w[p + 1] = [b, t], [a, s]
                    break
        elif kind == 2 and L >= 2:                      # free reduction
            for d in range(L - 1):
                p = (pos + d) % (L - 1)
                if w[p][0] == w[p + 1][0] and w[p][1] == -w[p + 1][1]:
                    del w[p:p + 2]
                    break
        elif kind in (3, 4) and L >= 3:                 # aba = bab in its signed forms
            for d in range(L - 2):
                p = (pos + d) % (L - 2)
                (a, s), (b, t), (c, u) = w[p:p + 3]
                if a == c and abs(a - b) == 1:
                    if s == t == u:
                        w[p:p + 3] = [[b, s], [a, s], [b, s]]
                        break
                    # a b a^-1 = b^-1 a b   and   a^-1 b a = b a b^-1  (and the inverses of these)
                    if s == -u:
                        w[p:p + 3] = [[b, -s], [a, t], [b, s]]
                        break
        elif kind == 5 and n >= 3:                      # insert the relator a b a (b a b)^-1 at a random place
            p = pos % (L + 1)
            a = (pos // (L + 1)) % (n - 2)
            b = a + 1
            if pos % 2:
                a, b = b, a
            w[p:p] = [[a, 1], [b, 1], [a, 1], [b, -1], [a, -1], [b, -1]]
    return w


def selftest():
    import random
    rnd = random.Random(12345)
    for n in range(2, 7):
        for i in range(n - 1):
            for j in range(n - 1):
                if abs(i - j) == 1:
                    p, q = [[i, 1], [j, 1], [i, 1]], [[j, 1], [i, 1], [j, 1]]
                elif i != j:
                    p, q = [[i, 1], [j, 1]], [[j, 1], [i, 1]]
                else:
                    p, q = [[i, 1], [i, -1]], []
                pre = [[rnd.randrange(n - 1), rnd.choice([-1, 1])] for _ in range(10)]
                assert dynnikov(n, pre + p) == dynnikov(n, pre + q)
                assert artin_action(n, pre[:5] + p) == artin_action(n, pre[:5] + q)
        words = []
        for _ in range(60):
            w = [[rnd.randrange(n - 1), rnd.choice([-1, 1])] for _ in range(rnd.randrange(0, 10))]
            words.append(w)
            w2 = scramble(n, w, [(rnd.randrange(100), rnd.randrange(10000)) for _ in range(10)])
            assert dynnikov(n, w) == dynnikov(n, w2), (n, w, w2)
            assert artin_action(n, w) == artin_action(n, w2), (n, w, w2)
            words.append(w2)
        for a, b in itertools.combinations(words, 2):
            assert (dynnikov(n, a) == dynnikov(n, b)) == (artin_action(n, a) == artin_action(n, b))
        d = delta_word(n)
        for i in range(n - 1):
            assert dynnikov(n, d + [[i, 1]]) == dynnikov(n, [[n - 2 - i, 1]] + d)
        assert dynnikov(n, d + d) == dynnikov(n, dual_delta_word(n) * n)
        assert len(list(all_noncrossing(n))) == [1, 1, 2, 5, 14, 42, 132][n]
        assert perm_of_word(n, dual_delta_word(n)) == dual_delta_perm(n)
        for p in all_noncrossing(n):
            x = blocks_perm(n, p)
            assert below_delta(x)
            assert perm_of_word(n, partition_word(p)) == x
        for x in itertools.islice(itertools.permutations(range(n)), 200):
            assert perm_of_word(n, perm_word(x)) == x and len(perm_word(x)) == plen(x)
    return True
