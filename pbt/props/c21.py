"""C21: Temperley-Lieb diagrams: composition, juxtaposition, flipping and enumeration against a graph model."""
import math
import random

from hypothesis import strategies as st

from .. import ref_tl as rt
from ..common import check_interleaved
from ..engine import Test, expect, expect_eq, raises
from peyl import tl
from peyl.tl import TLDiag, TLExtDiag

PROPERTY = 'C21'
RULE = ('diagrams of all types with up to 12 points, and arbitrary sequences: composition (with its number of closed loops), tensor, flip, '
        'identities, generators and trace against paths in a graph; exactly the crossingless matchings are recognised and enumerated. '
        'Non-trivial: a composition which closes a loop or turns a path back')


def catalan(n):
    return math.comb(2 * n, n) // (n + 1)


def model(top, bot, k):
    ms = rt.matchings(top + bot)
    return tuple(ms[k % len(ms)])


def read(d, top, bot, cls=TLDiag):
    expect(isinstance(d, cls), lambda: f'{d!r} is not a {cls.__name__}')
    expect_eq((d.top, d.bot), (top, bot), 'type of a diagram')
    seq = tuple(int(x) for x in d.seq)
    expect(len(seq) == top + bot and rt.is_noncrossing_matching(seq), lambda: f'{d!r} is not a crossingless matching')
    return rt.from_seq(top, bot, seq)


def check_pair(case, obs):
    t, m, b, s = case['dims']
    upper, lower, third = model(t, m, case['k'][0]), model(m, b, case['k'][1]), model(s + s % 2, 0, case['k'][2])
    U, L = rt.from_seq(t, m, upper), rt.from_seq(m, b, lower)
    want, loops = rt.compose(U, L)
    for kind in (tuple, list):
        seq, bubbles = tl.compose(kind(upper), kind(lower), m)
        expect_eq(rt.from_seq(t, b, tuple(seq)), want, f'compose({upper}, {lower}, {m})')
        expect_eq(bubbles, loops, f'loops of compose({upper}, {lower}, {m})')
    du, dl = TLDiag(t, m, upper), TLDiag(m, b, list(lower))
    d, bubbles = du * dl
    expect_eq((read(d, t, b), bubbles), (want, loops), f'{du!r} * {dl!r}')
    eu, el = TLExtDiag(t, m, upper, case['bub'][0]), TLExtDiag(m, b, lower, case['bub'][1])
    e = eu * el
    expect_eq((read(e, t, b, TLExtDiag), e.bubbles), (want, loops + sum(case['bub'])), f'{eu!r} * {el!r}')
    pure, k = e.split_bubbles()
    expect_eq((read(pure, t, b, TLExtDiag), pure.bubbles, k), (want, 0, e.bubbles), 'split_bubbles')
    expect(pure.add_bubbles(k) == e, 'add_bubbles after split_bubbles')
    # Side by side
    for x, y in ((du, dl), (dl, du)):
        z = x @ y
        expect_eq(read(z, x.top + y.top, x.bot + y.bot), rt.tensor(read(x, x.top, x.bot), read(y, y.top, y.bot), x.top, x.bot), f'{x!r} @ {y!r}')
    expect_eq((TLExtDiag(t, m, upper).bubbles, TLExtDiag.id(t).bubbles), (0, 0), 'bubbles when none are asked for')
    z = eu @ el
    expect_eq((read(z, t + m, m + b, TLExtDiag), z.bubbles), (rt.tensor(U, L, t, m), sum(case['bub'])), f'{eu!r} @ {el!r}')
    # Upside down
    expect_eq(read(du.flip(), m, t), rt.flip(U), f'flip of {du!r}')
    expect(du.flip().flip() == du, 'flip twice')
    f, k = dl.flip() * du.flip()
    expect(f == d.flip() and k == bubbles, 'flip of a product')
    # Identities, and the number of strands which go through.
    expect_eq(du * TLDiag.id(m), (du, 0), 'times the identity')
    expect_eq(TLDiag.id(t) * du, (du, 0), 'identity times')
    expect(TLExtDiag.id(t) * eu == eu == eu * TLExtDiag.id(m), 'identity')
    for x, y in ((du, U), (dl, L), (d, want)):
        expect_eq(tl.through_strands(x), rt.through(y), f'through_strands({x!r})')
    # Loops when closed up
    sq = rt.matchings(2 * t)[case['k'][1] % len(rt.matchings(2 * t))]
    expect_eq(tl.trace_count(sq), rt.closure_loops(rt.from_seq(t, t, sq), t), f'trace_count({sq})')
    # Insertion of one matching in another
    i = case['at'] % (len(upper) + 1)
    got = tuple(tl.insert(upper, third, i))
    expect(rt.is_noncrossing_matching(got), lambda: f'insert({upper}, {third}, {i}) = {got}')
    inner = tuple(x - i for x in got[i:i + len(third)])
    outer = tuple(x if x < i else x - len(third) for x in got[:i] + got[i + len(third):])
    expect_eq((inner, outer), (third, upper), f'insert({upper}, {third}, {i}) taken apart')
    # Equality, order and hashing
    again = TLDiag(t, m, tuple(upper))
    expect(again == du and hash(again) == hash(du) and not again < du and not du < again, 'equal diagrams')
    other = TLDiag(t, m, model(t, m, case['k'][2]))
    expect((other == du) == (other.seq == du.seq) and (other < du or du < other or du == other), 'comparison of diagrams')
    if du.bot != du.top:
        expect(raises(lambda: du * du, ValueError), 'diagrams of incompatible shapes were composed')
        expect(raises(lambda: eu * eu, ValueError), 'diagrams of incompatible shapes were composed')
    expect_eq((read(du, t, m), read(dl, m, b), eu.bubbles, el.bubbles), (U, L, *case['bub']), 'the operands, afterwards')
    obs.bucket('loops', loops, (0, 1, 2, 3))
    obs.label(f'points={t + m},{m + b}')
    obs.nontrivial(loops or rt.through(want) < min(rt.through(U), rt.through(L)))


def check_assoc(case, obs):
    dims = case['dims'][:3]
    dims.append(case['dims'][3] + (case['dims'][3] + dims[2]) % 2)
    ds = [TLExtDiag(a, b, model(a, b, k)) for a, b, k in zip(dims, dims[1:], case['k'])]
    left, right = (ds[0] * ds[1]) * ds[2], ds[0] * (ds[1] * ds[2])
    expect(left == right, lambda: f'({ds[0]!r} * {ds[1]!r}) * {ds[2]!r} is {left!r}, not {right!r}')
    obs.nontrivial(left.bubbles)


def check_shapes(case, obs):
    """The same sequences, read as diagrams of all the shapes they can have."""
    N, M = 2 * case['sizes'][0], 2 * case['sizes'][1]
    upper, lower = model(N, 0, case['k'][0]), model(M, 0, case['k'][1])
    mids = list(range(min(N, M) + 1))
    random.Random(case['seed']).shuffle(mids)
    loops = 0
    for mid in mids:
        top, bot = N - mid, M - mid
        u, l = rt.from_seq(top, mid, upper), rt.from_seq(mid, bot, lower)
        want, k = rt.compose(u, l)
        for cls in (TLDiag, TLExtDiag):
            U, L = cls(top, mid, upper), cls(mid, bot, lower)
            what = f'{U!r} * {L!r}'
            if cls is TLDiag:
                d, bubbles = U * L
            else:
                d = U * L
                bubbles = d.bubbles
            expect_eq((read(d, top, bot, cls), bubbles), (want, k), what)
            if cls is TLDiag:
                expect_eq(read(U.flip(), mid, top), rt.flip(u), f'flip of {U!r}')
            z = U @ L
            expect_eq(read(z, top + mid, mid + bot, cls), rt.tensor(u, l, top, mid), f'{U!r} @ {L!r}')
            expect((U == cls(N - mids[0], mids[0], upper)) == (mid == mids[0]), lambda: f'{U!r} compared with the diagram of the same sequence with {mids[0]} points below')
        expect_eq(tl.through_strands(TLDiag(top, mid, upper)), rt.through(u), f'through_strands of {upper} with {mid} points below')
        loops += k
    obs.nontrivial(len(mids) >= 4)
    obs.label('with loops' if loops else 'no loops')


def nest(size):
    return [size - 1 - i for i in range(size)]


def random_matching(rng, points, how):
    """A crossingless matching of many points: nests side by side, short arcs, or anything, perhaps turned round."""
    seq, stack = [0] * points, []
    if how % 3 == 0:
        at = 0
        while at < points:
            size = min(points - at, 2 * rng.randint(1, max(1, rng.choice([2, points // 4, points // 2]))))
            seq[at:at + size] = [at + x for x in nest(size)]
            at += size
    else:
        for i in range(points):
            left = points - i
            # up, unless there is no room; how often is a matter of chance.
            if stack and (len(stack) >= left or rng.random() < (0.5 if how % 3 == 1 else 0.85 * (i % 2))):
                j = stack.pop()
                seq[i], seq[j] = j, i
            else:
                stack.append(i)
    k = rng.randrange(points) if points and rng.random() < 0.5 else 0
    out = [0] * points
    for i, j in enumerate(seq):
        out[(i + k) % points] = (j + k) % points
    return tuple(out)


def check_large(case, obs):
    """Diagrams of many points, whose paths go to and fro."""
    rng = random.Random(case['seed'])
    t, m, b = case['dims']
    t, b = t + (t + m) % 2, b + (b + m) % 2
    upper, lower = random_matching(rng, t + m, case['how'][0]), random_matching(rng, m + b, case['how'][1])
    expect(rt.is_noncrossing_matching(upper) and rt.is_noncrossing_matching(lower), 'the matchings made for the test')
    U, L = rt.from_seq(t, m, upper), rt.from_seq(m, b, lower)
    want, loops = rt.compose(U, L)
    seq, bubbles = tl.compose(upper, lower, m)
    expect_eq((rt.from_seq(t, b, tuple(seq)), bubbles), (want, loops), f'compose({upper}, {lower}, {m})')
    U, L = TLDiag(t, m, upper), TLDiag(m, b, lower)
    d, bubbles = U * L
    expect_eq((read(d, t, b), bubbles), (want, loops), f'{U!r} * {L!r}')
    e = TLExtDiag(t, m, upper, 2) * TLExtDiag(m, b, lower, 1)
    expect_eq((read(e, t, b, TLExtDiag), e.bubbles), (want, loops + 3), f'{U!r} * {L!r} with bubbles')
    f, k = L.flip() * U.flip()
    expect_eq((read(f, b, t), k), (rt.flip(want), loops), f'the flips of {U!r} and {L!r}')
    z = U @ L
    expect_eq(read(z, t + m, m + b), rt.tensor(rt.from_seq(t, m, upper), rt.from_seq(m, b, lower), t, m), f'{U!r} @ {L!r}')
    expect_eq(tl.through_strands(U), rt.through(rt.from_seq(t, m, upper)), f'through_strands({U!r})')
    sq = random_matching(rng, 2 * m, case['how'][2])
    expect_eq(tl.trace_count(sq), rt.closure_loops(rt.from_seq(m, m, sq), m), f'trace_count({sq})')
    for s in (upper, lower, sq):
        s = list(s)
        expect(tl.is_crossingless_matching(tuple(s)), lambda: f'is_crossingless_matching({s})')
        for _ in range(2):
            i, j = rng.randrange(max(1, len(s))), rng.randrange(max(1, len(s)))
            if len(s) >= 4 and len({i, j, s[i], s[j]}) == 4:
                # The partners of two points exchanged.
                x, y = s[i], s[j]
                s[i], s[y], s[j], s[x] = y, i, x, j
                expect_eq(tl.is_crossingless_matching(tuple(s)), rt.is_noncrossing_matching(s), f'is_crossingless_matching({s})')
    obs.bucket('middle', m, edges=(0, 10, 20, 40, 80, 160))
    obs.bucket('loops', loops, edges=(0, 1, 2, 5, 10))
    obs.nontrivial(m >= 20 and loops >= 1)


def large_case():
    size = st.one_of(st.integers(0, 12), st.integers(13, 60), st.integers(61, 150))
    return st.fixed_dictionaries(dict(dims=st.tuples(st.one_of(st.just(0), size), size, st.one_of(st.just(0), size)).map(list), seed=st.integers(0, 10**6), how=st.tuples(*[st.integers(0, 2)] * 3).map(list)))


def check_any(case, obs):
    seq = case['seq']
    want = rt.is_noncrossing_matching(seq)
    expect_eq(tl.is_crossingless_matching(seq), want, f'is_crossingless_matching({seq})')
    bot = case['bot'] % (len(seq) + 1)
    for cls in (TLDiag, TLExtDiag):
        if want:
            # A list, or a tuple: the same diagram, which is not changed when the list is.
            given = list(seq)
            d, e = cls(len(seq) - bot, bot, given), cls(len(seq) - bot, bot, tuple(seq))
            given.reverse()
            given += [0, 1]
            expect(d == e and tuple(d.seq) == tuple(seq), lambda: f'{cls.__name__} made from a list of {seq}')
        else:
            expect(raises(lambda: cls(len(seq) - bot, bot, seq), AssertionError, ValueError), lambda: f'{cls.__name__} accepted {seq}')
        expect(raises(lambda: cls(len(seq) - bot + 1, bot, seq), AssertionError, ValueError), lambda: f'{cls.__name__} accepted the wrong size')
    obs.label('matching' if want else 'not')
    obs.nontrivial(sorted(seq) == list(range(len(seq))) and len(seq) >= 4)


def check_all(case, obs):
    """Enumeration of the diagrams of a type, and of the bases of the cell modules."""
    top, bot = case['dims']
    if (top + bot) % 2:
        expect(raises(lambda: list(tl.generate_sequences(top + bot)), ValueError), 'matchings of an odd number of points')
        return
    points = top + bot
    got = list(tl.generate_sequences(points))
    expect(len(got) == catalan(points // 2) == len(set(got)) and set(got) == set(rt.matchings(points)), lambda: f'generate_sequences({points})')
    basis = tl.tl_basis(top, bot)
    expect_eq(list(tl.tl_basis(top, bot)), list(basis), f'tl_basis({top}, {bot}), asked for again')
    expect_eq(list(tl.generate_sequences(points)), got, f'generate_sequences({points}), asked for again')
    models = [read(d, top, bot) for d in basis]
    expect(len(set(models)) == len(models) == catalan(points // 2), lambda: f'tl_basis({top}, {bot})')
    r = (top - bot) // 2
    if top >= bot:
        cells = [read(d, top, bot) for d in tl.cell_basis(top, r)]
        want = {m for m in models if rt.through(m) == bot}
        expect(len(cells) == len(set(cells)) and set(cells) == want, lambda: f'cell_basis({top}, {r}) has {len(cells)} diagrams, not {len(want)}')
        expect_eq(tl.cell_dimension(top, r), len(want), f'cell_dimension({top}, {r})')
        expect_eq({read(d, top, bot) for d in tl.tl_tableaux_basis(top, bot)}, want, f'tl_tableaux_basis({top}, {bot})')
    expect_eq(sum(tl.cell_dimension(top, k) ** 2 for k in range(top // 2 + 1)), catalan(top), 'sum of the squares of the dimensions')
    n = top
    for i in range(n - 1):
        expect_eq(read(TLExtDiag.e(i, n), n, n, TLExtDiag), rt.egen(i, n), f'e({i}, {n})')
    for i in (-1, n - 1):
        expect(raises(lambda: TLExtDiag.e(i, n), AssertionError, ValueError, IndexError), lambda: f'e({i}, {n})')
    expect_eq(read(TLDiag.id(n), n, n), rt.ident(n), 'identity')
    obs.nontrivial(points >= 6)


def check_turns(case, obs):
    """Several enumerations at the same time."""
    alone = check_interleaved([lambda s=s: tl.generate_sequences(2 * s) for s in case['sizes']], case['schedule'], f'generate_sequences of {[2 * s for s in case["sizes"]]}')
    for s, got in zip(case['sizes'], alone):
        expect(len(set(got)) == len(got) and set(got) <= set(rt.matchings(2 * s)), lambda: f'generate_sequences({2 * s}): {got}')
    obs.nontrivial(len(set(case['sizes'])) < len(case['sizes']) and max(case['sizes']) >= 3)


def pair_case():
    def f(t):
        a, b, c, d = t
        # fix the parities, keeping the sizes
        b += (a + b) % 2
        c += (b + c) % 2
        return [a, b, c, d]
    dims = st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.integers(0, 5)).map(f)
    k = st.integers(0, 10**4)
    return st.fixed_dictionaries(dict(dims=dims, k=st.tuples(k, k, k).map(list), bub=st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), at=st.integers(0, 12)))


TESTS = [
    Test('shapes', lambda: st.fixed_dictionaries(dict(sizes=st.tuples(st.integers(0, 5), st.integers(1, 5)), k=st.tuples(st.integers(0, 10**4), st.integers(0, 10**4)), seed=st.integers(0, 99))), check_shapes, quick=600, thorough=6000),
    Test('pairs', pair_case, check_pair, quick=600, thorough=15000, shards=3),
    Test('large', large_case, check_large, quick=400, thorough=6000, thorough_shards=2),
    Test('associative', pair_case, check_assoc, quick=400, thorough=8000),
    Test('any', lambda: st.integers(0, 10).flatmap(lambda n: st.fixed_dictionaries(dict(
        bot=st.integers(0, 20), seq=st.one_of(
            st.lists(st.integers(-2, n), min_size=n, max_size=n),
            st.permutations(list(range(n))).map(lambda q: [q[q.index(i) ^ 1] if (q.index(i) ^ 1) < n else i for i in range(n)]),
            st.sampled_from([list(m) for m in rt.matchings(n - n % 2)]))))), check_any, quick=500, thorough=10000, thorough_shards=2),
    Test('turns', lambda: st.fixed_dictionaries(dict(sizes=st.lists(st.sampled_from([1, 2, 3, 3, 4, 4, 5]), min_size=2, max_size=4), schedule=st.lists(st.tuples(st.integers(0, 5), st.integers(1, 9)).map(list), min_size=2, max_size=12))), check_turns, quick=120, thorough=1500),
    Test('all', lambda: st.fixed_dictionaries(dict(dims=st.tuples(st.integers(0, 8), st.integers(0, 8)).map(list))), check_all, quick=100, thorough=160, thorough_shards=1),
]
