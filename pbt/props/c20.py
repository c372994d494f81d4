"""C20: noncrossing partitions: recognised, counted, complemented, and lifted to braids correctly."""
import itertools
import random

from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import check_interleaved, read_npar, read_perm, read_word
from ..engine import Test, expect, expect_eq, raises
from peyl import NPar, Permutation
from peyl import noncrossing as nc, permutations

PROPERTY = 'C20'
RULE = ('noncrossing partitions of up to 10 points and arbitrary families of sets: constructors accept exactly noncrossing partitions; '
        'components, permutations, complements and braid words agree with first principles (complements by the braid identity with the '
        'dual Garside element, decided by the Dynnikov action). Non-trivial: neither finest nor coarsest, with two blocks of size over one')


def check(case, obs):
    n, blocks = case['n'], case['blocks']
    want = frozenset(frozenset(b) for b in blocks)
    given = [b[case['turn'] % len(b):] + b[:case['turn'] % len(b)] for b in blocks if len(b) > 1 or case['singles']]
    if case['reverse']:
        given = [b[::-1] for b in given[::-1]]
    p = NPar.from_components(n, given)
    expect_eq(read_npar(p, n), want, f'components of from_components({n}, {given})')
    comps = p.components()
    expect_eq([tuple(c) for c in comps], sorted(tuple(sorted(b)) for b in blocks), 'components() in order')
    expect_eq(NPar.from_components(n, iter([iter(b) for b in given])), p, 'from_components given iterators')
    x = rb.blocks_perm(n, blocks)
    expect_eq(read_perm(p.to_permutation(), n), x, f'permutation of {want}')
    expect_eq(NPar.from_permutation(Permutation(x)), p, 'from_permutation')
    expect(hash(NPar.from_permutation(Permutation(x))) == hash(p), 'equal partitions hash differently')
    expect_eq(sorted(map(tuple, p.edges())), sorted(e for b in blocks for e in itertools.combinations(sorted(b), 2)), 'edges()')
    # The braid of a partition, and its complements.
    delta = rb.dual_delta_word(n)
    w = read_word(n, p.artin_word())
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.partition_word(blocks)), lambda: f'Artin word {w} of {want}')
    left, right = p.left_complement(), p.right_complement()
    wl, wr = rb.partition_word(read_npar(left, n)), rb.partition_word(read_npar(right, n))
    expect(rb.dynnikov(n, wl + w) == rb.dynnikov(n, delta), lambda: f'left complement {left!r} of {p!r}')
    expect(rb.dynnikov(n, w + wr) == rb.dynnikov(n, delta), lambda: f'right complement {right!r} of {p!r}')
    expect_eq(left.right_complement(), p, 'right complement of the left complement')
    expect_eq(right.left_complement(), p, 'left complement of the right complement')
    twice = rb.partition_word(read_npar(left.left_complement(), n))
    expect(rb.dynnikov(n, twice) == rb.dynnikov(n, delta + w + rb.inverse_word(delta)), 'left complement twice')
    expect_eq(read_npar(p, n), want, 'the partition, afterwards')
    # repr names the blocks
    shown = eval(repr(p), {'NPar': lambda n, bs: (n, sorted(sorted(b) for b in bs))})
    expect_eq(shown, (n, sorted(sorted(b) for b in blocks if len(b) > 1)), f'repr {p!r}')
    obs.bucket('n', n, edges=range(11))
    obs.nontrivial(sum(len(b) > 1 for b in blocks) >= 2)


def check_large(case, obs):
    """Hundreds of points."""
    n = case['n']
    shift = case['shift']
    blocks = gens.complete(n, [[(x + shift) % n for x in b] for b in case['blocks'] if len({x % n for x in b}) == len(b)] + [[(x + shift) % n for x in range(lo % n, n, step)] for lo, step in case['runs']])
    want = frozenset(map(frozenset, blocks))
    given = [b for b in blocks if len(b) > 1]
    random.Random(case['seed']).shuffle(given)
    for b in given:
        random.Random(case['seed']).shuffle(b)
    p = NPar.from_components(n, given)
    expect_eq(read_npar(p, n), want, f'components of from_components({n}, {given})')
    expect_eq(NPar.from_components(n, [set(b) for b in given]), p, 'from_components given sets')
    expect_eq([tuple(c) for c in p.components()], sorted(tuple(sorted(b)) for b in blocks), 'components() in order')
    x = rb.blocks_perm(n, blocks)
    expect_eq(read_perm(p.to_permutation(), n), x, f'permutation of {want}')
    expect_eq(NPar.from_permutation(Permutation(x)), p, 'from_permutation')
    if sum(len(b) ** 2 for b in blocks) < 5000:
        expect_eq(sorted(map(tuple, p.edges())), sorted(e for b in blocks for e in itertools.combinations(sorted(b), 2)), 'edges()')
    left, right = p.left_complement(), p.right_complement()
    d, xi = rb.dual_delta_perm(n), rb.pinv(x)
    expect_eq(read_perm(left.to_permutation(), n), rb.pmul(d, xi), f'left complement of {want}')
    expect_eq(read_perm(right.to_permutation(), n), rb.pmul(xi, d), f'right complement of {want}')
    expect(left.right_complement() == p == right.left_complement(), lambda: f'complements of the complements of {p!r}')
    expect_eq(read_npar(p, n), want, 'the partition, afterwards')
    i, j = case['pair'][0] % n, case['pair'][1] % n
    part = {x: k for k, b in enumerate(blocks) for x in b}
    joined = [b for b in blocks if i not in b and j not in b] + [sorted({k for k in range(n) if part[k] in (part[i], part[j])})]
    if part[i] != part[j]:
        try:
            got = read_npar(NPar.from_components(n, joined), n)
        except ValueError:
            got = None
        expect_eq(got, frozenset(map(frozenset, joined)) if rb.is_noncrossing(joined) else None, f'the blocks of {i} and {j} joined in {want}')
    obs.bucket('n', n, (0, 10, 50, 100, 200))
    obs.nontrivial(len(given) >= 2)


def check_any(case, obs):
    """Families of sets are accepted exactly when they are disjoint, in range and noncrossing; permutations when below delta."""
    n, blocks = case['n'], case['blocks']
    flat = [x for b in blocks for x in b]
    ok = len(flat) == len(set(flat)) and all(0 <= x < n for x in flat) and rb.is_noncrossing(blocks)
    if ok:
        got = read_npar(NPar.from_components(n, blocks), n)
        expect_eq(got, frozenset(frozenset(b) for b in blocks if b) | frozenset(frozenset([x]) for x in range(n) if x not in flat), f'from_components({n}, {blocks})')
    else:
        expect(raises(lambda: NPar.from_components(n, blocks), ValueError), lambda: f'from_components({n}, {blocks}) was accepted')
    x = tuple(case['perm'])
    if rb.below_delta(x):
        expect_eq(read_perm(NPar.from_permutation(Permutation(x)).to_permutation(), len(x)), x, f'from_permutation({x}) and back')
    else:
        expect(raises(lambda: NPar.from_permutation(Permutation(x)), ValueError), lambda: f'from_permutation({x}) was accepted')
    inv = case['inv']
    m = len(inv) // 2
    match = all(0 <= j < len(inv) and j != i and inv[j] == i for i, j in enumerate(inv))
    good = len(inv) % 2 == 0 and match and not any(i < k < j < inv[k] for i, j in enumerate(inv) for k in range(i + 1, max(j, i + 1)))
    if good:
        read_npar(NPar(m, tuple(inv)), m)
    else:
        expect(raises(lambda: NPar(m, tuple(inv)), Exception), lambda: f'NPar({m}, {inv}) was accepted')
    obs.label('accepted' if ok else 'refused')
    obs.nontrivial(not ok)


def check_near(case, obs):
    """Permutations which differ a little from that of a noncrossing partition."""
    n = case['n']
    x = list(rb.blocks_perm(n, case['blocks']))
    for i, j, how in case['swaps']:
        i, j = i % n, j % n
        if how == 'near':
            j = (i + 1) % n
        if how != 'right':
            x = [j if y == i else i if y == j else y for y in x]
        if how != 'left':
            x[i], x[j] = x[j], x[i]
    ok = rb.below_delta(tuple(x))
    expect_eq(permutations.is_parallel_descending_cycles(tuple(x)), ok, f'is_parallel_descending_cycles({x})')
    if ok:
        got = NPar.from_permutation(Permutation(tuple(x)))
        expect_eq(read_perm(got.to_permutation(), n), tuple(x), f'from_permutation({x}) and back')
    else:
        expect(raises(lambda: NPar.from_permutation(Permutation(tuple(x))), ValueError), lambda: f'from_permutation({x}) was accepted')
    obs.label('accepted' if ok else 'refused')
    obs.nontrivial(len(case['swaps']) > 0 and any(len(b) > 2 for b in case['blocks']))


def check_all(case, obs):
    n = case['n']
    ps = [read_npar(p, n) for p in NPar.all_of_size(n)]
    expect(len(ps) == len(set(ps)) and set(ps) == set(rb.all_noncrossing(n)), lambda: f'all_of_size({n}) gave {len(ps)} partitions')
    expect_eq(nc.catalan(n), len(ps), f'catalan({n})')
    expect_eq(read_npar(NPar.finest(n), n), frozenset(frozenset([i]) for i in range(n)), 'finest')
    if n:
        expect_eq(read_npar(NPar.coarsest(n), n), frozenset([frozenset(range(n))]), 'coarsest')
    obs.nontrivial(n >= 3)


def check_turns(case, obs):
    """Several enumerations at the same time."""
    alone = check_interleaved([lambda n=n: NPar.all_of_size(n) for n in case['sizes']], case['schedule'], f'all_of_size of {case["sizes"]}')
    for n, got in zip(case['sizes'], alone):
        ps = {read_npar(p, n) for p in got}
        expect(len(ps) == len(got) and ps <= set(rb.all_noncrossing(n)), lambda: f'all_of_size({n}): {got}')
    obs.nontrivial(len(set(case['sizes'])) < len(case['sizes']) and max(case['sizes']) >= 3)


def check_gen(case, obs):
    n, s, t = case['n'], case['s'] % case['n'], case['t'] % case['n']
    w = read_word(n, nc.bkl_gen_to_artin_word(s, t))
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.bkl_word(min(s, t), max(s, t)) if s != t else []), lambda: f'bkl_gen_to_artin_word({s}, {t}) = {w}')
    expect_eq(len(w), 2 * abs(s - t) - 1 if s != t else 0, 'length of the word')
    b = sorted({x % n for x in case['block']})
    w = read_word(n, nc.npar_component_to_artin_word(set(b)))
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.block_word(b)), lambda: f'npar_component_to_artin_word({b}) = {w}')
    for given in (list(dict.fromkeys(x % n for x in case['block'])), tuple(b[::-1]), iter(b), frozenset(b), dict.fromkeys(b[1:] + b[:1])):
        shown = repr(given)
        w = read_word(n, nc.npar_component_to_artin_word(given))
        expect(rb.dynnikov(n, w) == rb.dynnikov(n, rb.block_word(b)), lambda: f'npar_component_to_artin_word({shown}) = {w}')
    k = case['cat']
    expect_eq(nc.catalan(k + 1) * (k + 2), nc.catalan(k) * 2 * (2 * k + 1), f'catalan({k + 1})')
    obs.nontrivial(abs(s - t) >= 2)


TESTS = [
    Test('partitions', lambda: st.sampled_from([1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10]).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), blocks=gens.ncpart(n), turn=st.integers(0, 5), reverse=st.booleans(), singles=st.booleans()))), check, quick=500, thorough=10000, shards=2),
    Test('large', lambda: st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(11, 60), st.sampled_from([99, 100, 101, 127, 128, 129, 150, 255, 256, 257])), shift=st.integers(0, 300), seed=st.integers(0, 99),
        blocks=st.lists(st.lists(st.integers(0, 300), min_size=2, max_size=5, unique=True), max_size=5), runs=st.lists(st.tuples(st.integers(0, 300), st.integers(1, 60)).map(list), max_size=2),
        pair=st.tuples(st.integers(0, 300), st.integers(0, 300)).map(list))), check_large, quick=120, thorough=2000),
    Test('any', lambda: st.integers(1, 7).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), blocks=st.lists(st.lists(st.integers(-1, n), max_size=4), max_size=4), perm=gens.perm(n),
        inv=st.one_of(st.lists(st.integers(0, 7), max_size=8), st.permutations(list(range(n + n % 2))), st.integers(0, 3).flatmap(
            lambda k: st.permutations(list(range(2 * k))).map(lambda q: [q[q.index(i) ^ 1] for i in range(2 * k)])))))), check_any, quick=600, thorough=10000, thorough_shards=4),
    Test('near', lambda: st.integers(3, 13).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), blocks=st.one_of(gens.ncpart(n), st.sets(st.integers(0, n - 1), max_size=2).map(lambda out: [[i for i in range(n) if i not in out]])), swaps=st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12), st.sampled_from(['left', 'right', 'both', 'near', 'near'])).map(list), max_size=2)))), check_near, quick=600, thorough=10000, thorough_shards=2),
    Test('all', lambda: st.fixed_dictionaries(dict(n=st.integers(0, 7))), check_all, quick=20, thorough=20, thorough_shards=1),
    Test('turns', lambda: st.fixed_dictionaries(dict(sizes=st.lists(st.sampled_from([1, 2, 3, 3, 4, 4, 5]), min_size=2, max_size=4), schedule=st.lists(st.tuples(st.integers(0, 5), st.integers(1, 9)).map(list), min_size=2, max_size=12))), check_turns, quick=60, thorough=800),
    Test('generators', lambda: st.fixed_dictionaries(dict(n=st.integers(1, 9), s=st.integers(0, 30), t=st.integers(0, 30), block=st.lists(st.integers(0, 30), max_size=7), cat=st.integers(0, 40))),
         check_gen, quick=300, thorough=4000, thorough_shards=2),
]
