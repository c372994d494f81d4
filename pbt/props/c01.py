"""C01: normal forms decide the word problem."""
from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import KIND, make
from ..engine import Test, expect
from peyl import BraidGroup, DGNF, GNF

PROPERTY = 'C01'
RULE = ('pairs of braid words: the same word rewritten by random braid relations, a central full twist moved, a '
        'word with one letter changed, two unrelated words, commutators of squares; equality of the normal forms is '
        'compared with equality of the images under the faithful Dynnikov action. Non-trivial: both words are '
        'non-empty and different as words')
ASSUMPTIONS = ['the Dynnikov action on integral laminations is faithful (cross-checked with the Artin action on free groups by setup.sh)']


def pair(n, size):
    w = gens.word(n, size)
    same = st.builds(lambda w, ops: [w, rb.scramble(n, w, ops)], w, gens.ops)
    twist = st.builds(
        lambda w, k, pos, ops: [
            gens.compress(rb.power_word(rb.delta_word(n), 2 * k) + w),
            rb.scramble(n, w[:pos % (len(w) + 1)] + rb.power_word(rb.dual_delta_word(n), n * k) + w[pos % (len(w) + 1):], ops),
        ], w, st.integers(-4, 4), st.integers(0, 99), gens.ops)
    near = st.builds(
        lambda w, ops, pos, i, e: [w, rb.scramble(n, _edit(w, pos, i, e), ops)],
        w, gens.ops, st.integers(0, 999), st.integers(0, n - 2), st.sampled_from([-2, -1, 1, 2]))
    conj = st.builds(lambda a, b: [gens.compress(a + b), gens.compress(b + a)], gens.letters(n, size // 2), gens.letters(n, size // 2))
    comm = st.builds(
        lambda i, j, k, l, w: [w + _comm(rb.power_word([[i, 1]], k), rb.power_word([[j, 1]], l)), w],
        st.integers(0, n - 2), st.integers(0, n - 2), st.integers(-4, 4), st.integers(-4, 4), gens.letters(n, 8))
    two = st.tuples(w, w).map(list)
    return st.one_of(same, same, twist, near, near, conj, comm, two)


def _edit(w, pos, i, e):
    w = [list(x) for x in w]
    pos = pos % (len(w) + 1)
    if pos < len(w) and e % 2:
        w[pos] = [i, w[pos][1]] if w[pos][0] != i else [i, w[pos][1] + e]
    else:
        w.insert(pos, [i, e])
    return w


def _comm(a, b):
    return a + b + rb.inverse_word(a) + rb.inverse_word(b)


def check(case, obs):
    n, kind, (a, b) = case['n'], case['kind'], case['pair']
    same = rb.dynnikov(n, a) == rb.dynnikov(n, b)
    x, y = make(kind, n, a), make(kind, n, b)
    obs.label(f'n={n}', kind, 'equal' if same else 'different')
    obs.nontrivial(a and b and a != b)
    expect((x == y) == same, lambda: f'{kind}: words {a} and {b} are {"the same braid" if same else "different braids"}, '
           f'but their normal forms are {x!r} and {y!r}')
    expect((x != y) == (not same), lambda: f'{kind}: == and != disagree on {x!r} and {y!r}')
    if same:
        expect(hash(x) == hash(y), lambda: f'equal braids {x!r} with different hashes')
        expect(len({x, y}) == 1, lambda: f'a set holds {x!r} twice')
    # A word can be any iterable of pairs.
    for word, z in ((a, x), (b, y)):
        for form in (lambda: iter(word), lambda: tuple(map(tuple, word)), lambda: ((i, e) for i, e in word), lambda: map(tuple, word)):
            again = KIND[kind].from_artin_word(n, form())
            expect(again == z, lambda: f'{kind}: the word {word} given as {type(form()).__name__} is {again!r}, and as a list {z!r}')
    # x^-1 y is trivial exactly when they are the same, and so is the other quotient.
    for q, what in ((x.inv() * y, 'x^-1 y'), (x * y.inv(), 'x y^-1')):
        expect((q == KIND[kind].identity(n)) == same,
               lambda: f'{kind}: {what} = {q!r} for words {a} and {b}, which are {"the same" if same else "different"}')


def check_gens(case, obs):
    """The same through products of generators rather than word conversion."""
    n, (a, b) = case['n'], case['pair']
    same = rb.dynnikov(n, a) == rb.dynnikov(n, b)
    B = BraidGroup(n)
    dual = case['kind'] == 'DGNF'
    gs = [B.bkl_gens()[i, i + 1] for i in range(n - 1)] if dual else B.gens()
    one = DGNF.identity(n) if dual else GNF.identity(n)
    vals = []
    for w in (a, b):
        x = one
        for i, e in w:
            x = x * gs[i] ** e
        vals.append(x)
    obs.label(f'n={n}', 'equal' if same else 'different')
    obs.nontrivial(a and b and a != b)
    expect((vals[0] == vals[1]) == same, lambda: f'products of generators along {a} and {b} give {vals}')


def check_twists(case, obs):
    """The same braid with different powers of the twist in front (and of its own inverse): all different, whichever way one asks."""
    n, kind, w = case['n'], case['kind'], case['word']
    D = (rb.delta_word if kind == 'GNF' else rb.dual_delta_word)(n)
    ks = range(case['low'], case['low'] + 8)
    words = [gens.compress(rb.power_word(D, k) + w) for k in ks]
    xs, ys = [make(kind, n, u) for u in words], [make(kind, n, rb.scramble(n, u, case['ops'])) for u in words]
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            expect((x == y) == (i == j) and (x != y) == (i != j), lambda: f'{kind}: {x!r} == {y!r} is {x == y}, for the words {words[i]} and {words[j]}')
    found = {x: i for i, x in enumerate(xs)}
    expect(len(found) == len(xs) == len(set(xs + ys)), lambda: f'{len(set(xs + ys))} different elements among {xs} and {ys}')
    expect([found.get(y) for y in ys] == list(range(len(xs))), lambda: f'looking {ys} up among {xs} gives {[found.get(y) for y in ys]}')
    expect([xs.index(y) for y in ys] == list(range(len(xs))), lambda: f'{ys} are found in {xs} at {[xs.index(y) for y in ys]}')
    obs.label(kind, f'n={n}')
    obs.nontrivial(w)


def strat(kind, ns, size):
    return lambda: gens.with_n(ns, lambda n: dict(kind=st.just(kind), pair=pair(n, size)))


# The braid group on one strand.
trivial = [dict(n=1, kind=k, pair=[[], []]) for k in ('GNF', 'DGNF')]

TESTS = [
    Test('gnf', strat('GNF', gens.NS, 36), check, quick=500, thorough=8000, shards=2, corpus=trivial),
    Test('dgnf', strat('DGNF', gens.NS + [6], 36), check, quick=500, thorough=8000, shards=2),
    Test('gnf6', strat('GNF', [6], 40), check, quick=250, thorough=6000, thorough_shards=4),
    Test('dgnf7', strat('DGNF', [7], 40), check, quick=150, thorough=4000, thorough_shards=4),
    Test('twists', lambda: gens.with_n([2, 3, 3, 4, 5], lambda n: dict(kind=st.sampled_from(['GNF', 'DGNF']), word=gens.word(n, 12), low=st.one_of(st.integers(-6, -1), st.integers(-40, 40)), ops=gens.ops)),
         check_twists, quick=150, thorough=2500),
    Test('generators', lambda: st.one_of(strat('GNF', gens.NS, 24)(), strat('DGNF', gens.NS, 24)()), check_gens, quick=300, thorough=5000, corpus=trivial),
]
