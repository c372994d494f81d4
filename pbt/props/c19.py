"""C19: permutations: the group, its Coxeter structure, and the sets read off from it."""
import itertools
import random
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import check_interleaved, read_perm, read_word
from ..engine import Test, expect, expect_eq, raises
from peyl import Permutation, permutations as ps
from peyl.permutations import SymmetricGroup

PROPERTY = 'C19'
RULE = ('pairs of permutations of up to 520 points: composition, inverses, lengths, descents (against multiplication by each generator and '
        'counting inversions), shortlex words (reduced, evaluating back, and least among all reduced words), cycles, parity, recognition of '
        'permutations and of parallel descending cycles, group constructors. Non-trivial: neither permutation is the identity')


def mul_gen_left(s, x):
    return rb.pmul(rb.ptrans(len(x), s, s + 1), x)


def check(case, obs):
    x, y = tuple(case['x']), tuple(case['y'])
    n = len(x)
    X, Y, S = Permutation(x), Permutation(y), SymmetricGroup(n)
    expect_eq(read_perm(X * Y, n), rb.pmul(x, y), f'{x} * {y}')
    expect_eq(ps.compose(list(x), y), rb.pmul(x, y), 'compose')
    expect_eq(read_perm(X.inv(), n), rb.pinv(x), 'inverse')
    expect_eq(ps.inverse(list(x)), rb.pinv(x), 'inverse')
    expect((X * X.inv()).word == rb.pid(n) == (X.inv() * X).word, 'inverse of a permutation')
    expect_eq((X * Y).inv(), Y.inv() * X.inv(), 'inverse of a product')
    expect((X == Y) == (x == y), 'equality')
    expect(hash(Permutation(tuple(list(x)))) == hash(X), 'hashes of equal permutations')
    expect_eq(X.length(), rb.plen(x), f'length of {x}')
    expect_eq((ps.parity(x), ps.parity(rb.pmul(x, y))), (rb.plen(x) % 2, (rb.plen(x) + rb.plen(y)) % 2), 'parity')
    right, left = rb.right_descents(x), rb.left_descents(x)
    expect_eq((set(X.right_descent_set()), set(X.left_descent_set())), (right, left), f'descent sets of {x}')
    for s in range(n - 1):
        expect_eq((bool(X.is_right_descent(s)), bool(X.is_left_descent(s))), (s in right, s in left), f'descent {s} of {x}')
    # Shortlex: greedily the smallest left descent.
    want, z, at = [], x, list(rb.pinv(x))
    if n > 12:
        while (s := next((s for s in range(n - 1) if at[s] > at[s + 1]), None)) is not None:
            want.append(s)
            at[s], at[s + 1] = at[s + 1], at[s]
        z = rb.pid(n)
    while z != rb.pid(n):
        s = next(s for s in range(n - 1) if rb.plen(mul_gen_left(s, z)) < rb.plen(z))
        want.append(s)
        z = mul_gen_left(s, z)
    expect_eq(tuple(X.shortlex()), tuple(want), f'shortlex of {x}')
    expect_eq(ps.from_cox(n, X.shortlex()), x, 'from_cox of the shortlex word')
    expect_eq(read_perm(S.from_cox(want), n), x, 'SymmetricGroup.from_cox')
    w = read_word(n, X.artin_word())
    expect(all(e == 1 for _, e in w) and len(w) == rb.plen(x) and rb.perm_of_word(n, w) == x, lambda: f'Artin word {w} of {x}')
    cycles = rb.cycles_of(x)
    expect_eq([tuple(c) for c in X.disjoint_cycles()], cycles, f'disjoint cycles of {x}')
    expect_eq(tuple(X.cycle_type()), tuple(sorted(map(len, cycles), reverse=True)), f'cycle type of {x}')
    expect_eq(ps.is_identity(x), x == rb.pid(n), f'is_identity({x})')
    expect_eq(ps.is_longest_element(x), rb.plen(x) == n * (n - 1) // 2, f'is_longest_element({x})')
    expect_eq(bool(ps.is_parallel_descending_cycles(x)), rb.below_delta(x), f'is_parallel_descending_cycles({x})')
    descending = all(list(c[1:]) == sorted(c[1:], reverse=True) for c in cycles)
    expect_eq(bool(ps.is_descending_cycles(x)), descending, f'is_descending_cycles({x})')
    expect_eq(read_perm(S.from_cycles(cycles), n), x, f'from_cycles({cycles})')
    expect_eq(X.group(), S, 'group()')
    expect((X.word, Y.word) == (x, y), 'an operand changed')
    obs.bucket('n', n, edges=range(10))
    obs.nontrivial(rb.plen(x) and rb.plen(y))


def check_huge(case, obs):
    """Permutations of hundreds of points."""
    n, rand = case['n'], random.Random(case['seed'])

    def some():
        out = list(range(n))
        kind = rand.randrange(4)
        if kind == 0:
            rand.shuffle(out)
        elif kind == 1:
            for _ in range(rand.randrange(1, 6)):
                i, j = rand.randrange(n), rand.randrange(n)
                out[i], out[j] = out[j], out[i]
        elif kind == 2:
            k = rand.randrange(n)
            out = out[k:] + out[:k]
        else:
            # Parallel descending cycles, and cycles which cross.
            for _ in range(rand.randrange(1, 5)):
                pts = sorted(rand.sample(range(n), rand.randrange(2, 7)))
                one = list(range(n))
                for a, b in zip(pts, pts[1:] + pts[:1]):
                    one[b] = a
                out = list(rb.pmul(tuple(out), tuple(one)))
        return tuple(out)
    x, y = some(), some()
    X, Y, S = Permutation(x), Permutation(y), SymmetricGroup(n)
    expect_eq(read_perm(X * Y, n), rb.pmul(x, y), f'product of permutations of {n} points')
    expect_eq(read_perm(X.inv(), n), rb.pinv(x), f'inverse of a permutation of {n} points')
    expect_eq((read_perm(X * X.inv(), n), X * Y == Y * X), (rb.pid(n), rb.pmul(x, y) == rb.pmul(y, x)), 'products')
    inversions = rb.plen(x)
    expect_eq((X.length(), ps.parity(x)), (inversions, inversions % 2), f'length and parity of a permutation of {n} points')
    expect_eq((set(X.right_descent_set()), set(X.left_descent_set())), tuple({s for s in range(n - 1) if z[s] > z[s + 1]} for z in (x, rb.pinv(x))), 'descent sets')
    cycles = rb.cycles_of(x)
    expect_eq([tuple(c) for c in X.disjoint_cycles()], cycles, 'disjoint cycles')
    expect_eq(tuple(X.cycle_type()), tuple(sorted(map(len, cycles), reverse=True)), 'cycle type')
    expect_eq(read_perm(S.from_cycles(cycles), n), x, 'from_cycles')
    expect_eq((ps.is_identity(x), ps.is_longest_element(x), ps.is_longest_element(tuple(reversed(range(n))))), (x == rb.pid(n), inversions == n * (n - 1) // 2, True), 'is_identity and is_longest_element')
    expect_eq(bool(ps.is_parallel_descending_cycles(x)), rb.below_delta(x), f'is_parallel_descending_cycles of {cycles}')
    if inversions < 1500:
        w = tuple(X.shortlex())
        expect_eq(len(w), inversions, 'length of the shortlex word')
        expect_eq(ps.from_cox(n, w), x, 'from_cox of the shortlex word')
    bad = list(x)
    i = rand.randrange(n)
    bad[i] = rand.choice([bad[i - 1], n, -1])
    expect(not ps.is_permutation(bad) and raises(lambda: Permutation(tuple(bad)), Exception), lambda: f'a word of {n} points with {bad[i]} at {i} is a permutation')
    obs.bucket('n', n, edges=(100, 200, 256, 300, 512))
    obs.nontrivial(inversions > 0 and x != y)


def check_cycles(case, obs):
    n, S = case['n'], SymmetricGroup(case['n'])
    cycles = [tuple(c) for c in case['cycles']]
    want = rb.pid(n)
    for c in cycles:
        one = list(range(n))
        for i, a in enumerate(c):
            one[a] = c[(i + 1) % len(c)]
        expect_eq(read_perm(S.from_cycle(c), n), tuple(one), f'from_cycle({c})')
        want = rb.pmul(want, tuple(one))
    expect_eq(read_perm(S.from_cycles(cycles), n), want, f'from_cycles({cycles})')
    seq = [s % (n - 1) for s in case['seq']] if n >= 2 else []
    x = rb.pid(n)
    for s in seq:
        x = rb.pmul(x, rb.ptrans(n, s, s + 1))
    expect_eq(ps.from_cox(n, seq), x, f'from_cox({n}, {seq})')
    word = case['word']
    good = sorted(word) == list(range(len(word)))
    expect_eq(bool(ps.is_permutation(word)), good, f'is_permutation({word})')
    if not good:
        expect(raises(lambda: Permutation(tuple(word)), Exception), lambda: f'Permutation({word}) was accepted')
    obs.nontrivial(len(cycles) >= 2 or len(word) >= 3)


def check_words(case, obs):
    """Recognising permutations of many points: words which are one, or nearly."""
    word, n = case['word'], len(case['word'])
    good = len(set(word)) == n and all(0 <= x < n for x in word)
    expect_eq(bool(ps.is_permutation(word)), good, f'is_permutation({word})')
    e = raises(lambda: Permutation(tuple(word)), Exception)
    expect((e is None) == good, lambda: f'Permutation({word}) was {"accepted" if e is None else "refused"}')
    for dtype in (np.int64, np.int32, np.int16, np.uint8):
        if all(np.iinfo(dtype).min <= x <= np.iinfo(dtype).max for x in word):
            array = np.array(word, dtype=dtype)
            expect_eq(bool(ps.is_permutation(array)), good, f'is_permutation of an array of {dtype.__name__} {word}')
            if good:
                expect_eq(Permutation(tuple(array)), Permutation(tuple(word)), f'the permutation of an array of {dtype.__name__} {word}')
    obs.label('good' if good else 'bad')
    obs.bucket('n', n, edges=(0, 5, 10, 20, 32, 64, 128))
    obs.nontrivial(n >= 10)


@st.composite
def near_words(draw):
    n = draw(st.sampled_from([2, 5, 9, 12, 17, 31, 32, 33, 40, 63, 64, 65, 66, 80, 128, 129, 150]))
    out = draw(st.randoms(use_true_random=False).map(lambda r: r.sample(range(n), n))) if draw(st.booleans()) else list(range(n))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 4]))):
        i = draw(st.integers(0, n - 1))
        # Sums and extremes are often kept.
        step = draw(st.sampled_from([1, -1, 2, -2, 64, -64, n, -n]))
        out[i] += step
        if draw(st.booleans()):
            out[draw(st.integers(0, n - 1))] -= step
    if draw(st.integers(0, 2)) == 0:
        # Replace some values by others with the same sums of powers: of coefficients of a product of some 1 - x^a.
        coeffs = {0: 1}
        for a in draw(st.lists(st.integers(1, max(1, n // 4)), min_size=2, max_size=6)):
            nxt = dict(coeffs)
            for d, c in coeffs.items():
                nxt[d + a] = nxt.get(d + a, 0) - c
            nxt = {d: c for d, c in nxt.items() if c}
            if max(nxt) < n:
                coeffs = nxt
        shift = draw(st.integers(0, n - 1 - max(coeffs)))
        gone = [d + shift for d, c in coeffs.items() for _ in range(-c)]
        came = [d + shift for d, c in coeffs.items() for _ in range(c)]
        for x, y in zip(gone, came):
            if x in out:
                out[out.index(x)] = y
    return dict(word=out)


def check_parallel(case, obs):
    """Descending cycles on the blocks of a partition, deeply nested, with at most one point moved to another block."""
    n, rand = case['n'], random.Random(case['seed'])
    # A random noncrossing partition into small blocks: split intervals.
    blocks, left = [], [list(range(n))]
    while left:
        pts = left.pop()
        if not pts:
            continue
        size = min(len(pts), rand.choice([1, 2, 2, 2, 3, 4]))
        if rand.random() < .6:
            mine = sorted({0, len(pts) - 1, *rand.sample(range(len(pts)), size)})[:max(2, size)] if len(pts) > 1 else [0]
        else:
            mine = sorted(rand.sample(range(len(pts)), size))
        blocks.append([pts[i] for i in mine])
        left += [pts[i + 1:j] for i, j in zip([-1, *mine], [*mine, len(pts)])]
    for _ in range(case['moves']):
        i, j = rand.randrange(len(blocks)), rand.randrange(len(blocks))
        if case['swap'] and blocks[i] and blocks[j]:
            k, l = rand.randrange(len(blocks[i])), rand.randrange(len(blocks[j]))
            blocks[i][k], blocks[j][l] = blocks[j][l], blocks[i][k]
        elif len(blocks[i]) > 1 and i != j:
            blocks[j].append(blocks[i].pop(rand.randrange(len(blocks[i]))))
    blocks = [sorted(b) for b in blocks]
    word = list(range(n))
    for b in blocks:
        for lo, hi in zip(b, b[1:] + b[:1]):
            word[hi] = lo
    if case['invert']:
        b = blocks[rand.randrange(len(blocks))]
        for lo, hi in zip(b, b[1:] + b[:1]):
            word[lo] = hi
    word = tuple(word)
    want = rb.below_delta(word)
    expect_eq(bool(ps.is_parallel_descending_cycles(word)), want, f'is_parallel_descending_cycles of {rb.cycles_of(word)}')
    expect_eq(bool(ps.is_descending_cycles(word)), all(list(c[1:]) == sorted(c[1:], reverse=True) for c in rb.cycles_of(word)), f'is_descending_cycles of {rb.cycles_of(word)}')
    obs.label('parallel' if want else 'not parallel')
    obs.bucket('n', n, (6, 8, 12, 20, 40))
    obs.nontrivial(sum(len(b) > 1 for b in blocks) >= 3)


def check_group(case, obs):
    n, S = case['n'], SymmetricGroup(case['n'])
    els = [read_perm(x, n) for x in S.elements()]
    expect_eq(sorted(els), sorted(itertools.permutations(range(n))), 'elements()')
    expect_eq(read_perm(S.id(), n), rb.pid(n), 'id')
    expect_eq(read_perm(S.longest_element(), n), max(els, key=rb.plen), 'longest element')
    expect_eq([read_perm(s, n) for s in S.cox_gens()], [rb.ptrans(n, i, i + 1) for i in range(n - 1)], 'Coxeter generators')
    expect_eq(Counter(read_perm(t, n) for t in S.reflections()), Counter(rb.ptrans(n, i, j) for i, j in itertools.combinations(range(n), 2)), 'reflections')
    i, j = case['i'] % n, case['j'] % n
    expect_eq(ps.transposition(n, i, j), rb.ptrans(n, i, j), 'transposition')
    obs.nontrivial(n >= 3)


def check_turns(case, obs):
    """Several enumerations at the same time."""
    check_interleaved([lambda n=n: SymmetricGroup(n).elements() for n in case['sizes']], case['schedule'], f'elements of the symmetric groups on {case["sizes"]}')
    obs.nontrivial(len(set(case['sizes'])) < len(case['sizes']) and max(case['sizes']) >= 3)


def pair(n):
    p = st.permutations(list(range(n))) if n > 5 else gens.perm(n)
    return st.fixed_dictionaries(dict(x=p, y=p))


def few_cycles(n):
    """Permutations of many points: any, or with few moved points, or with long cycles."""
    def parts(cuts):
        out, start = list(range(n)), 0
        for c in sorted(set(cuts)) + [n]:
            for i in range(start, c):
                out[i] = i + 1 if i + 1 < c else start
            start = c
        return out
    one = st.one_of(st.permutations(list(range(n))), st.lists(st.integers(1, n - 1), max_size=4).map(parts),
                    st.tuples(st.permutations(list(range(n))), st.lists(st.integers(1, n - 1), max_size=3).map(parts)).map(lambda t: list(rb.pmul(rb.pmul(tuple(t[0]), tuple(t[1])), rb.pinv(tuple(t[0]))))))
    return st.fixed_dictionaries(dict(x=one, y=one))


TESTS = [
    Test('pairs', lambda: st.sampled_from([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9]).flatmap(pair), check, quick=600, thorough=15000, shards=2),
    Test('pairs_large', lambda: st.sampled_from([10, 11, 12, 14, 18, 25]).flatmap(few_cycles), check, quick=120, thorough=2000),
    Test('pairs_larger', lambda: st.sampled_from([33, 40, 65, 70, 130]).flatmap(few_cycles), check, quick=30, thorough=400),
    Test('huge', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([100, 150, 200, 250, 255, 256, 257, 258, 280, 300, 301, 400, 520]), seed=st.integers(0, 10**9))), check_huge, quick=60, thorough=1000),
    Test('recognition', near_words, check_words, quick=400, thorough=5000, thorough_shards=2),
    Test('parallel', lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(6, 16), st.integers(6, 40)), seed=st.integers(0, 10**9), moves=st.sampled_from([0, 1, 1, 1, 2]), swap=st.booleans(), invert=st.sampled_from([False] * 5 + [True]))),
         check_parallel, quick=800, thorough=15000, thorough_shards=2),
    Test('all_small', lambda: st.sampled_from([list(x) for n in range(6) for x in itertools.permutations(range(n))]).map(lambda x: dict(x=x, y=x)), check, quick=200, thorough=200, thorough_shards=1),
    Test('cycles', lambda: st.integers(1, 8).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), cycles=st.lists(st.lists(st.integers(0, n - 1), unique=True, max_size=5), max_size=4), seq=st.lists(st.integers(0, 20), max_size=20),
        word=st.one_of(st.lists(st.integers(-1, 6), max_size=6), st.permutations(list(range(n))))))), check_cycles, quick=400, thorough=8000, thorough_shards=4),
    Test('turns', lambda: st.fixed_dictionaries(dict(sizes=st.lists(st.sampled_from([1, 2, 3, 3, 4, 4, 5]), min_size=2, max_size=4), schedule=st.lists(st.tuples(st.integers(0, 5), st.integers(1, 9)).map(list), min_size=2, max_size=12))), check_turns, quick=60, thorough=800),
    Test('group', lambda: st.fixed_dictionaries(dict(n=st.integers(1, 6), i=st.integers(0, 10), j=st.integers(0, 10))), check_group, quick=60, thorough=300, thorough_shards=1),
]
