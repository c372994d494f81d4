"""
Reference model of the Temperley-Lieb category: diagrams are perfect matchings of labelled points
('b', k) on the bottom and ('t', k) on the top, k counted from the left; composition follows paths in a graph.
"""
from __future__ import annotations

import functools
import itertools


def from_seq(top, bot, seq):
    """The code's encoding: bottom points 0..bot-1 left to right, then the top ones right to left."""
    def pt(i):
        return ('b', i) if i < bot else ('t', top + bot - 1 - i)
    return frozenset(frozenset((pt(i), pt(j))) for i, j in enumerate(seq))


def to_seq(top, bot, d):
    def ix(p):
        return p[1] if p[0] == 'b' else top + bot - 1 - p[1]
    seq = [None] * (top + bot)
    for pair in d:
        a, b = map(ix, pair)
        seq[a], seq[b] = b, a
    return tuple(seq)


def compose(upper, lower):
    """upper on top of lower: (diagram, number of closed loops)."""
    adj = {}

    def join(x, y):
        adj.setdefault(x, []).append(y)
        adj.setdefault(y, []).append(x)
    for pair in upper:
        a, b = [('m', k) if s == 'b' else ('t', k) for s, k in pair]
        join(a, b)
    for pair in lower:
        a, b = [('m', k) if s == 't' else ('b', k) for s, k in pair]
        join(a, b)
    ends = [v for v in adj if v[0] != 'm']
    seen, pairs = set(), set()
    for v in ends:
        if v in seen:
            continue
        prev, cur = None, v
        seen.add(v)
        while True:
            nxt = adj[cur][0] if prev is None else [y for y in _others(adj[cur], prev)][0]
            prev, cur = cur, nxt
            seen.add(cur)
            if cur[0] != 'm':
                break
        pairs.add(frozenset((v, cur)))
    loops = 0
    for v in adj:
        if v in seen:
            continue
        loops += 1
        stack = [v]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            stack += adj[x]
    return frozenset(pairs), loops


def _others(nbrs, prev):
    """The neighbours after removing one copy of prev (a middle point may be joined twice to the same point)."""
    nb = list(nbrs)
    nb.remove(prev)
    return nb


def tensor(left, right, ltop, lbot):
    return left | frozenset(
        frozenset((s, k + (lbot if s == 'b' else ltop)) for s, k in pair) for pair in right
    )


def flip(d):
    return frozenset(frozenset(('t' if s == 'b' else 'b', k) for s, k in pair) for pair in d)


def ident(n):
    return frozenset(frozenset((('b', k), ('t', k))) for k in range(n))


def egen(i, n):
    return frozenset(
        [frozenset((('b', k), ('t', k))) for k in range(n) if k not in (i, i + 1)]
        + [frozenset((('b', i), ('b', i + 1))), frozenset((('t', i), ('t', i + 1)))]
    )


def through(d):
    return sum(1 for pair in d if len({s for s, _ in pair}) == 2)


def closure_loops(d, n):
    """Join bottom k to top k and count the loops."""
    adj = {}
    for pair in d:
        a, b = pair
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    for k in range(n):
        adj.setdefault(('b', k), []).append(('t', k))
        adj.setdefault(('t', k), []).append(('b', k))
    seen, loops = set(), 0
    for v in adj:
        if v in seen:
            continue
        loops += 1
        stack = [v]
        while stack:
            x = stack.pop()
            if x not in seen:
                seen.add(x)
                stack += adj[x]
    return loops


@functools.cache
def matchings(points: int):
    """All noncrossing perfect matchings of points on a line, as partner tuples."""
    if points % 2:
        return []
    if points == 0:
        return [()]
    out = []
    for k in range(1, points, 2):
        for a in matchings(k - 1):
            for b in matchings(points - k - 1):
                out.append((k, *(x + 1 for x in a), 0, *(x + k + 1 for x in b)))
    return out


def is_noncrossing_matching(seq):
    n = len(seq)
    if any(not 0 <= seq[i] < n or seq[i] == i for i in range(n)):
        return False
    if any(seq[seq[i]] != i for i in range(n)):
        return False
    arcs = [(i, seq[i]) for i in range(n) if i < seq[i]]
    return not any(a < c < b < d for (a, b), (c, d) in itertools.permutations(arcs, 2))


def link_state(top, bot, d):
    """The upper half of a diagram with `bot` through strands, as a link state tuple (partner, or -1)."""
    out = [-1] * top
    for pair in d:
        (s, k), (t, l) = pair
        if s == t == 't':
            out[k], out[l] = l, k
    return tuple(out)


def selftest():
    assert [len(matchings(2 * k)) for k in range(6)] == [1, 1, 2, 5, 14, 42]
    for n in range(2, 5):
        for i in range(n - 1):
            e = egen(i, n)
            assert compose(e, e) == (e, 1)
            assert compose(ident(n), e) == (e, 0) == compose(e, ident(n))
            assert from_seq(n, n, to_seq(n, n, e)) == e
            if i + 1 < n - 1:
                f = egen(i + 1, n)
                assert compose(compose(e, f)[0], e) == (e, 0)
    assert closure_loops(ident(3), 3) == 3 and closure_loops(egen(0, 3), 3) == 2
    return True
