"""Hypothesis strategies.  Everything they produce is plain JSON data (lists, ints, strings, dicts)."""
from __future__ import annotations

import functools
import itertools
import random

from . import env  # noqa: F401
from hypothesis import strategies as st

from . import ref_braid as rb


# ---------------------------------------------------------------- words

def letters(n, max_size, min_size=0, positive=False):
    """Unit letters, decoded from bytes (cheap to generate long, shrinks well)."""
    m = n - 1
    if m <= 0:
        return st.just([])

    def dec(bs):
        return [[b % m, 1 if positive or (b // m) % 2 == 0 else -1] for b in bs]
    return sized_binary(min_size, max_size).map(dec)


def sized_binary(lo, hi):
    """Hypothesis keeps unguided collections short; this spreads the lengths over the whole range."""
    if hi <= 6:
        return st.binary(min_size=lo, max_size=hi)
    return st.one_of(
        st.binary(min_size=lo, max_size=hi),
        st.integers(lo, hi).flatmap(lambda k: st.binary(min_size=k, max_size=hi if k > hi // 2 else max(lo, 2 * k))),
    )


def sized_lists(elem, hi, lo=0):
    if hi <= 4:
        return st.lists(elem, min_size=lo, max_size=hi)
    return st.one_of(
        st.lists(elem, min_size=lo, max_size=hi),
        st.integers(lo, hi).flatmap(lambda k: st.lists(elem, min_size=k, max_size=k)),
    )


def compress(word):
    """Merge neighbouring unit letters of the same generator and sign."""
    out = []
    for i, e in word:
        if out and out[-1][0] == i and (out[-1][1] > 0) == (e > 0):
            out[-1] = [i, out[-1][1] + e]
        else:
            out.append([i, e])
    return out


@functools.cache
def perms_list(n):
    return list(itertools.permutations(range(n)))


@functools.cache
def parts_list(n):
    out = [sorted(sorted(b) for b in p) for p in rb.all_noncrossing(n)]
    return sorted(out, key=lambda p: (-len(p), p))


def perm(n):
    """A permutation word; all of them for small n."""
    if n <= 5:
        return st.sampled_from(perms_list(n)).map(list)
    return st.permutations(list(range(n)))


def ncpart(n):
    """A noncrossing partition as a list of all its blocks."""
    if n <= 7:
        return st.sampled_from(parts_list(n)).map(lambda p: [list(b) for b in p])
    small = st.lists(st.integers(0, n - 1), min_size=2, max_size=4, unique=True)
    return st.one_of(st.lists(small, max_size=6), st.lists(st.one_of(small, st.sets(st.integers(0, n - 1), min_size=n // 2).map(sorted)), max_size=4)).map(
        lambda bs: complete(n, bs))


def complete(n, blocks):
    """Add the blocks one at a time, leaving out those which would overlap or cross; then add singletons."""
    out = []
    for b in blocks:
        b = sorted(b)
        if any(set(b) & set(c) for c in out):
            continue
        if rb.is_noncrossing(out + [b]):
            out.append(b)
    used = {x for b in out for x in b}
    return sorted(out + [[x] for x in range(n) if x not in used])


def zeros_inserted(word, where):
    """Insert letters with exponent zero."""
    w = [list(x) for x in word]
    for pos, i in where:
        w.insert(pos % (len(w) + 1), [i, 0])
    return w


def power_of(n, kmax):
    short = letters(n, 6, min_size=1)
    return st.builds(lambda w, k: rb.power_word(w, k), short, st.integers(-kmax, kmax))


def piece(n, size):
    m = n - 1
    return st.one_of(
        letters(n, size),
        letters(n, size, positive=True),
        st.builds(lambda i, e: [[i, e]], st.integers(0, m - 1), st.integers(-10, 10)),
        perm(n).map(lambda p: rb.perm_word(p)),
        perm(n).map(lambda p: rb.inverse_word(rb.perm_word(p))),
        st.integers(-4, 4).map(lambda k: rb.power_word(rb.delta_word(n), k)),
        st.integers(-6, 6).map(lambda k: rb.power_word(rb.dual_delta_word(n), k)),
        ncpart(n).map(rb.partition_word),
        power_of(n, 6),
    )


def word(n, size=30, pieces=5):
    """A braid word on n strands, of a mixture of shapes."""
    if n <= 1:
        return st.just([])
    flat = lambda ps: compress([x for p in ps for x in p])  # noqa: E731
    return st.one_of(
        letters(n, size).map(compress),
        letters(n, size, positive=True),
        sized_lists(piece(n, max(4, size // 3)), pieces).map(flat),
        sized_lists(perm(n).map(rb.perm_word), pieces + 3).map(flat),
        sized_lists(ncpart(n).map(rb.partition_word), pieces + 3).map(flat),
        st.builds(lambda a, b: compress(a + b + rb.inverse_word(a) + rb.inverse_word(b)), letters(n, size // 4), letters(n, size // 4)),
        st.builds(lambda a, b: compress(a + b + rb.inverse_word(a)), letters(n, size // 3), letters(n, size // 3)),
        st.builds(lambda w, k, j: compress(rb.power_word(rb.delta_word(n), k) + w + rb.power_word(rb.dual_delta_word(n), j)),
                  letters(n, size), st.integers(-5, 5), st.integers(-5, 5)),
    )


def long_word(n, lo, hi):
    return st.one_of(letters(n, hi, min_size=lo), letters(n, hi, min_size=lo, positive=True)).map(compress)


def with_n(ns, f):
    """{'n': n, **f(n)} where f gives a dict of strategies."""
    return st.sampled_from(ns).flatmap(lambda n: st.fixed_dictionaries(dict(n=st.just(n), **f(n))))


# ---------------------------------------------------------------- normal form sequences, from the reference automata

@functools.cache
def garside_followers(n):
    ps = perms_list(n)
    idp, w0 = tuple(range(n)), tuple(reversed(range(n)))
    proper = [p for p in ps if p not in (idp, w0)]
    desc = {p: (rb.left_descents(p), rb.right_descents(p)) for p in ps}
    return {
        x: [y for y in proper if desc[y][0] <= desc[x][1]] for x in [*proper, w0]
    }


@functools.cache
def dual_followers(n):
    parts = [tuple(tuple(b) for b in p) for p in parts_list(n)]
    perm_of = {p: rb.blocks_perm(n, p) for p in parts}
    top = max(parts, key=lambda p: -len(p))
    proper = [p for p in parts if len(p) not in (1, n)]
    assert len(top) == 1
    return {x: [y for y in proper if rb.dual_pair_ok(perm_of[x], perm_of[y])] for x in [*proper, top]}, top


def garside_seq(n, max_len, min_len=0):
    """A left-weighted sequence of permutations (neither trivial nor longest)."""
    def dec(ks):
        table = garside_followers(n)
        last, out = tuple(reversed(range(n))), []
        for k in ks:
            nxt = table[last]
            if not nxt:
                break
            last = nxt[k % len(nxt)]
            out.append(list(last))
        return out
    return sized_lists(st.integers(0, 2**16), max_len, min_len).map(dec)


def dual_seq(n, max_len, min_len=0):
    def dec(ks):
        table, last = dual_followers(n)
        out = []
        for k in ks:
            nxt = table[last]
            if not nxt:
                break
            last = nxt[k % len(nxt)]
            out.append([list(b) for b in last])
        return out
    return sized_lists(st.integers(0, 2**16), max_len, min_len).map(dec)


NS = [2] + [3] * 4 + [4] * 5 + [5] * 3          # strands, n = 2 being nearly trivial

ops = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 10_000)).map(list), max_size=25)


def matching_from(size, how):
    """A noncrossing matching of size points as a sequence of partners, from a list of choices, all of which can occur."""
    seq, at = [None] * size, 0
    todo = [(0, size)]
    while todo:
        a, b = todo.pop()
        if b - a < 2:
            continue
        k = a + 1 + 2 * (how[at % len(how)] % ((b - a) // 2))
        at += 1
        seq[a], seq[k] = k, a
        todo += [(a + 1, k), (k + 1, b)]
    return tuple(seq)


def any_size(bits):
    """Integers of any number of bits (of which there are as many of each), of both signs."""
    return st.builds(lambda k, seed, sign: sign * (random.Random(seed).getrandbits(k) | (1 << k) >> 1), st.sampled_from(range(bits + 1)), st.integers(0, 10**6), st.sampled_from([1, -1]))


def coefficients(size, kind, seed):
    """Many coefficients: of one kind, or mixed."""
    rand = random.Random(seed)
    kinds = {
        'ones': lambda: 1, 'signs': lambda: rand.choice([1, -1]), 'digits': lambda: rand.randrange(-9, 10), 'middle': lambda: rand.randrange(-10**6, 10**6),
        'word': lambda: rand.choice([2**31, 2**32, 2**63, -2**63, 2**53 + 1, rand.getrandbits(62)]), 'large': lambda: rand.getrandbits(90) - 2**89,
        'sparse': lambda: rand.randrange(-5, 6) if rand.random() < .05 else 0}
    if kind == 'mixed':
        return [kinds[rand.choice(sorted(kinds))]() for _ in range(size)]
    return [kinds[kind]() for _ in range(size)]


def coefficients_case():
    return st.tuples(st.one_of(st.integers(0, 60), st.integers(0, 300), st.sampled_from([64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 600, 1000])),
                     st.sampled_from(['ones', 'signs', 'digits', 'middle', 'word', 'large', 'sparse', 'mixed']), st.integers(0, 10**6)).map(list)


def random_word(n, most):
    """Of any length up to the most, each as likely, letter by letter."""
    def build(size, seed, signs):
        rand = random.Random(seed)
        return [[rand.randrange(n - 1), rand.choice(signs)] for _ in range(size)] if n > 1 else []
    return st.builds(build, st.sampled_from(range(most + 1)), st.integers(0, 10**6), st.sampled_from([[1, -1], [1, -1], [1], [-1], [1, 2, -3]]))
