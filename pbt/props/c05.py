"""C05: enumeration, counting, descendants, suffixes and sampling of normal forms."""
import functools
import math
import itertools
import random

from hypothesis import strategies as st

from .. import gens, ref_braid as rb
from ..common import KIND, check_interleaved, denotes, make, read_braid
from ..engine import Test, expect, expect_eq
from peyl import BraidGroup, DGNF, GNF

PROPERTY = 'C05'
RULE = ('all (n, length, power) with few enough normal forms are enumerated and compared with the left-weighted '
        'sequences found from first principles; for random braids their descendants, their suffixes and the braids '
        'enumerated are compared; counts are compared with an independent transfer-matrix count for lengths up to 40; '
        'sampled braids are checked and their support compared. Non-trivial: length at least 2 or a non-trivial braid')


@functools.cache
def followers(kind, n):
    """x -> list of y, factors being permutations, or frozensets of blocks; key None for the empty sequence."""
    if kind == 'GNF':
        t = dict(gens.garside_followers(n))
        t[None] = t[tuple(reversed(range(n)))]
        return t
    t, top = gens.dual_followers(n)
    fs = lambda p: frozenset(frozenset(b) for b in p)  # noqa: E731
    out = {fs(x): [fs(y) for y in ys] for x, ys in t.items()}
    out[None] = out[fs(top)]
    return out


def count(kind, n, length, last=None):
    t = followers(kind, n)
    c = {last: 1}
    for _ in range(length):
        new = {}
        for x, k in c.items():
            for y in t[x]:
                new[y] = new.get(y, 0) + k
        c = new
    return sum(c.values())


def sequences(kind, n, length, last=None):
    t = followers(kind, n)
    if length == 0:
        yield ()
        return
    for x in t[last]:
        for rest in sequences(kind, n, length - 1, x):
            yield (x, *rest)


def check_all(case, obs):
    n, kind, L, power = case['n'], case['kind'], case['length'], case['power']
    cls = KIND[kind]
    if count(kind, n, L) > 4000:
        L = 1
    want = set(sequences(kind, n, L))
    got = list(cls.all_of_length(n, L, power)) if power or case['explicit'] else list(cls.all_of_length(n, L))
    data = []
    for b in got:
        pw, factors = read_braid(b, n)
        expect_eq(pw, power, f'power of {b!r} from all_of_length')
        expect_eq(len(factors), L, f'length of {b!r} from all_of_length')
        data.append(tuple(factors))
    expect(len(set(data)) == len(data), lambda: f'{kind}.all_of_length({n}, {L}) repeats a braid')
    expect(set(data) == want, lambda: f'{kind}.all_of_length({n}, {L}) gives {len(data)} braids, wanted {len(want)}: '
           f'missing {list(want - set(data))[:2]}, extra {list(set(data) - want)[:2]}')
    expect_eq(cls.count_all_of_length(n, L), len(want), 'count_all_of_length')
    if kind == 'GNF':
        B = BraidGroup(n)
        expect_eq(sorted(B.all_of_garside_length(L, power)), sorted(got), 'all_of_garside_length')
        expect_eq(B.count_all_of_garside_length(L), len(want), 'count_all_of_garside_length')
    # Enumerations which are advanced in turn do not disturb each other.
    other, start = case['other'], next(iter(cls.all_of_length(n, 1)), cls.identity(n))
    streams = [cls.all_of_length(n, L, power), cls.all_of_length(n, other), start.nf_suffixes(other), start.nf_descendants(), cls.all_of_length(n, L, power)]
    taken = [[] for _ in streams]
    live = set(range(len(streams)))
    while live and len(taken[0]) <= 40:
        for i in sorted(live):
            x = next(streams[i], None)
            if x is None:
                live.discard(i)
            else:
                taken[i].append(x)
    again = [cls.all_of_length(n, L, power), cls.all_of_length(n, other), start.nf_suffixes(other), start.nf_descendants(), cls.all_of_length(n, L, power)]
    for t, s in zip(taken, again):
        expect_eq(t, list(itertools.islice(s, len(t))), f'an enumeration of {kind} on {n} strands advanced in turn with others')
    expect(list(itertools.islice(iter(got), len(taken[0]))) == taken[0] == taken[4], 'two enumerations advanced in turn')
    obs.label(kind, f'n={n} L={L}')
    obs.nontrivial(L >= 2)


def check_table(case, obs):
    """The tables themselves: what follows each simple element."""
    n, kind, L = case['n'], case['kind'], case['length']
    table = KIND[kind]._nf_table(n)
    factor = [tuple(d.word) if kind == 'GNF' else frozenset(frozenset(c) for c in d.components()) for d in table.divs]
    expect_eq(len(set(factor)), len(factor), f'the simple elements of {kind} on {n} strands')
    while L and count(kind, n, L) > 3000:
        L -= 1
    for f in [None, *range(table.order)]:
        last = None if f is None else factor[f]
        # Nothing comes after the identity: it is never before the end of a normal form.
        want = (not L) if f is not None and f == table.id else count(kind, n, L, last)
        expect_eq(table.count_normal_forms(L, following=f), want, f'count_normal_forms({L}) after {last} for {kind} on {n} strands')
        got = list(itertools.islice(table.normal_forms(L, following=f), 4000))
        words = [tuple(factor[i] for i in s) for s in got]
        expect_eq(len(words), want, f'the number of normal forms of length {L} after {last}')
        expect_eq(set(words), set(sequences(kind, n, L, last)) if f is None or f != table.id or not L else set(), f'the normal forms of length {L} after {last}')
    expect_eq(table.count_normal_forms(L), count(kind, n, L), f'count_normal_forms({L})')
    obs.label(kind, f'n={n} L={L}')
    obs.nontrivial(L >= 1)


def check_count(case, obs):
    n, kind, L = case['n'], case['kind'], case['length']
    expect_eq(KIND[kind].count_all_of_length(n, L), count(kind, n, L), f'{kind}.count_all_of_length({n}, {L})')
    table = KIND[kind]._nf_table(n)
    for f in {0, table.order - 1, L % table.order, 7 * L % table.order} - {table.id}:
        d = table.divs[f]
        last = tuple(d.word) if kind == 'GNF' else frozenset(frozenset(c) for c in d.components())
        expect_eq(table.count_normal_forms(L, following=f), count(kind, n, L, last), f'{kind}: count_normal_forms({L}) on {n} strands after {last}')
    obs.bucket('length', L, (0, 10, 20, 40, 80, 160))
    obs.nontrivial(L >= 2)


def check_next(case, obs):
    n, kind, L = case['n'], case['kind'], case['length']
    cls = KIND[kind]
    b = cls(n, case['power'], ()) * make(kind, n, case['word'])
    power, factors = read_braid(b, n)
    last = factors[-1] if factors else None
    want = followers(kind, n)[last]

    got = [read_braid(d, n) for d in b.nf_descendants()]
    expect(all(p == power and f[:-1] == factors for p, f in got), lambda: f'a descendant of {b!r} does not extend it')
    expect_eq(sorted(map(_key, (f[-1] for _, f in got))), sorted(map(_key, want)), f'last factors of the descendants of {b!r}')

    while count(kind, n, L, last) > 2000:
        L -= 1
    sufs = list(b.nf_suffixes(L))
    seen = set()
    for i, x in enumerate(sufs):
        p, f = read_braid(x, n)
        expect_eq(len(f), L, f'length of the suffix {x!r}')
        seen.add(tuple(f))
        if i % max(1, len(sufs) // 60) == 0:
            y = b * x
            p2, f2 = read_braid(y, n)
            expect_eq((p2, f2), (power, factors + f), f'{b!r} times its suffix {x!r}')
    expect(len(seen) == len(sufs), lambda: f'suffixes of {b!r} are repeated')
    expect_eq(seen, set(sequences(kind, n, L, last)), f'suffixes of length {L} of {b!r}')
    obs.label(kind, f'n={n} L={L}')
    obs.nontrivial(len(factors) >= 1 and L >= 1)


def check_long(case, obs):
    """The first of very many normal forms: distinct, well formed, of the length asked for."""
    n, kind, L, power, k = case['n'], case['kind'], case['length'], case['power'], case['take']
    cls = KIND[kind]
    b = cls(n, power, ()) * make(kind, n, case['word'])
    _, before = read_braid(b, n)
    for what, stream, pw, last in (('all_of_length', cls.all_of_length(n, L, power), power, None),
                                   (f'suffixes of {b!r}', b.nf_suffixes(L), 0, before[-1] if before else None)):
        want = min(k, count(kind, n, L, last))
        got = list(itertools.islice(stream, k))
        expect_eq(len(got), want, f'number of the {what} of length {L}, taking {k}')
        seen = set()
        for i, x in enumerate(got):
            p, f = read_braid(x, n)
            expect_eq((p, len(f)), (pw, L), f'power and length of {x!r}, one of the {what}')
            if f:
                expect(f[0] in followers(kind, n)[last], lambda: f'{x!r}, one of the {what}, does not follow {last}')
            seen.add((p, tuple(f)))
            if last is not None and i % 100 == 0:
                expect_eq(read_braid(b * x, n), (read_braid(b, n)[0], before + f), f'{b!r} times its suffix {x!r}')
        expect_eq(len(seen), len(got), f'number of distinct {what} among the first {k}')
    obs.label(kind, f'n={n}')
    obs.bucket('length', L)
    obs.nontrivial(L >= 6)


def _key(f):
    return repr(sorted(map(sorted, f))) if isinstance(f, frozenset) else repr(f)


def check_reach(case, obs):
    """Any braid of infimum 0 and small length is reached from the identity by descendants, and is enumerated."""
    n, kind = case['n'], case['kind']
    cls = KIND[kind]
    b = make(kind, n, case['word'])
    b = cls(n, -b.inf(), ()) * b
    power, factors = read_braid(b, n)
    if power != 0:
        expect(False, f'moving the Garside power of a braid out left {b!r}')
    x = cls.identity(n)
    for i in range(len(factors)):
        nxt = [y for y in x.nf_descendants() if list(y.canonical_factors())[-1] == b.canonical_factor(i)]
        expect(len(nxt) == 1, lambda: f'{b!r} is not reached once from its prefix {x!r}')
        x = nxt[0]
    expect_eq(x, b, 'the braid reached')
    if len(factors) <= 3 and count(kind, n, len(factors)) <= 2500:
        expect(sum(1 for y in cls.all_of_length(n, len(factors)) if y == b) == 1, lambda: f'{b!r} is not enumerated once')
    obs.nontrivial(len(factors) >= 2)


def check_sample(case, obs):
    n, kind, L, seed = case['n'], case['kind'], case['length'], case['seed']
    cls = KIND[kind]
    b = cls.sample(n, L, random.Random(seed))
    power, factors = read_braid(b, n)
    expect_eq((power, len(factors)), (0, L), f'power and length of the sample {b!r}')
    expect_eq(cls.sample(n, L, random.Random(seed)), b, 'sampling again with the same seed')
    if kind == 'GNF':
        expect_eq(BraidGroup(n).sample_braid_perm(L, random.Random(seed)), b, 'sample_braid_perm')
    p, f = read_braid(cls.sample(n, L), n)
    expect_eq((p, len(f)), (0, L), 'power and length of an unseeded sample')
    obs.label(kind, f'n={n}')
    obs.nontrivial(L >= 2)


def check_support(case, obs):
    """Everything of length 1 and 2 can be sampled (a miss has probability below 1e-9 each)."""
    n, kind, L = case['n'], case['kind'], case['length']
    cls = KIND[kind]
    rand = random.Random(case['seed'])
    t = followers(kind, n)
    # Smallest probability of a sequence, drawing each factor uniformly among those allowed.
    prob = min(functools.reduce(lambda a, b: a * b, [1 / len(t[x]) for x in (None, *s[:-1])]) for s in sequences(kind, n, L))
    draws = int(35 / prob)
    got = {tuple(read_braid(cls.sample(n, L, rand), n)[1]) for _ in range(draws)}
    want = set(sequences(kind, n, L))
    expect(got == want, lambda: f'{draws} samples of {kind} n={n} length {L} met {len(got)} of {len(want)} normal forms')
    obs.nontrivial()


def check_support_many(case, obs):
    """Every simple element of larger groups can be sampled, on its own and (rarely enough) after another."""
    for kind, n in (('GNF', 6), ('DGNF', 6), ('DGNF', 7)):
        cls = KIND[kind]
        rand = random.Random(case['seed'])
        size = {'GNF': math.factorial(n), 'DGNF': math.comb(2 * n, n) // (n + 1)}[kind] - 2
        got = {cls.sample(n, 1, rand).factors[0] for _ in range(35 * size)}
        expect_eq(len(got), size, f'number of braids of length 1 met by {35 * size} samples of {kind} n={n}')
        second = {cls.sample(n, 2, rand).factors[1] for _ in range(20 * size)}
        expect(len(second) > size // 3, lambda: f'{20 * size} samples of {kind} n={n} had {len(second)} second factors')
    obs.nontrivial()


def check_turns(case, obs):
    """Several enumerations at the same time, of all braids of a length or of the continuations of one."""
    def iterator(one):
        cls = KIND[one['kind']]
        if one['what'] == 'all':
            return lambda: cls.all_of_length(case['n'], one['length'], one['power'])
        b = make(one['kind'], case['n'], [tuple(x) for x in one['word']])
        if one['what'] == 'suffixes':
            return lambda: b.nf_suffixes(one['length'])
        if one['what'] == 'table':
            return lambda: cls._nf_table(case['n']).normal_forms(one['length'])
        return lambda: b.nf_descendants()
    ones = [case['ones'][k % len(case['ones'])] for k in case['picks']]
    alone = check_interleaved([iterator(one) for one in ones], case['schedule'], f'enumerations {ones} on {case["n"]} strands')
    for got in alone:
        expect(len(set(got)) == len(got), lambda: f'an enumeration repeats itself: {got}')
    obs.nontrivial(max(map(len, alone)) > 10)


both = st.sampled_from(['GNF', 'DGNF'])
TESTS = [
    Test('enumerate', lambda: st.sampled_from([(3, 5), (4, 2), (5, 1), (3, 3), (4, 1), (3, 0)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), kind=both, length=st.integers(0, t[1]), power=st.integers(-4, 4), explicit=st.booleans(), other=st.integers(0, 3)))),
        check_all, quick=100, thorough=600, corpus=[*[dict(n=3, kind=k, length=L, power=0, explicit=True, other=2) for k, L in (('GNF', 8), ('GNF', 9), ('GNF', 10), ('DGNF', 8), ('DGNF', 9), ('DGNF', 10))],
                                                     dict(n=5, kind='DGNF', length=2, power=0, explicit=False, other=2),
                                                     dict(n=2, kind='GNF', length=1, power=0, explicit=False, other=2),
                                                     dict(n=2, kind='DGNF', length=0, power=3, explicit=False, other=2),
                                                     dict(n=6, kind='DGNF', length=1, power=1, explicit=True, other=1)]),
    Test('long', lambda: gens.with_n([2, 3, 3, 4, 5], lambda n: dict(kind=both, word=gens.word(n, 24), power=st.integers(-6, 6), length=st.integers(0, 70),
                                                                  take=st.sampled_from([1, 50, 400]))), check_long, quick=60, thorough=800),
    Test('count', lambda: st.one_of(
        st.fixed_dictionaries(dict(n=st.sampled_from([2, 3, 4]), kind=both, length=st.one_of(st.integers(0, 40), st.integers(0, 250)))),
        st.fixed_dictionaries(dict(n=st.just(5), kind=both, length=st.one_of(st.integers(0, 8), st.integers(0, 60)))),
        st.fixed_dictionaries(dict(n=st.just(6), kind=st.just('DGNF'), length=st.integers(0, 9)))), check_count, quick=120, thorough=600),
    Test('tables', lambda: st.fixed_dictionaries(dict(n=st.sampled_from([2, 3, 4]), kind=both, length=st.integers(0, 3))), check_table, quick=24, thorough=24,
         corpus=[dict(n=5, kind=k, length=1) for k in ('GNF', 'DGNF')]),
    Test('successors', lambda: gens.with_n([3, 4, 5], lambda n: dict(kind=both, word=gens.word(n, 24), power=st.integers(-6, 6), length=st.integers(0, 3))),
         check_next, quick=120, thorough=2500, shards=2),
    Test('reach', lambda: gens.with_n([3, 4, 5], lambda n: dict(kind=both, word=gens.word(n, 20))), check_reach, quick=150, thorough=3000),
    Test('sample', lambda: gens.with_n([3, 4, 5], lambda n: dict(kind=both, length=st.integers(0, 40), seed=st.integers(0, 10**6))),
         check_sample, quick=200, thorough=3000),
    Test('support', lambda: st.one_of(
        st.fixed_dictionaries(dict(n=st.just(3), kind=both, length=st.integers(1, 3), seed=st.integers(0, 10**6))),
        st.fixed_dictionaries(dict(n=st.just(4), kind=both, length=st.just(1), seed=st.integers(0, 10**6)))),
        check_support, quick=15, thorough=300),
    Test('turns', lambda: gens.with_n([3, 3, 4, 5], lambda n: dict(
        ones=st.lists(st.fixed_dictionaries(dict(what=st.sampled_from(['all', 'all', 'suffixes', 'descendants', 'table']), kind=both, length=st.integers(0, 3), power=st.integers(-3, 3), word=gens.word(n, 12))), min_size=1, max_size=3),
        picks=st.lists(st.integers(0, 5), min_size=2, max_size=4), schedule=st.lists(st.tuples(st.integers(0, 5), st.integers(1, 9)).map(list), min_size=2, max_size=12))), check_turns, quick=120, thorough=1500),
    Test('support_many', lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 10**6))), check_support_many, quick=1, thorough=12),
]
