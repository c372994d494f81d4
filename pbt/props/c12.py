"""C12: nothing a search is offered is lost, but by the rule of its reservoir."""
import functools
import random

from hypothesis import strategies as st

from ..common import KIND
from ..engine import Test, expect, expect_eq
from ..trackers import KEYS, Model, check_bootstrap, extensions, followers, histories
from peyl import bucketing
from peyl.braid import PermTable

PROPERTY = 'C12'
RULE = ('the histories of C11, against a model which knows every braid offered to every bucket (descendants and exhaustive '
        'enumerations worked out by reference automata), and exhaustive enumerations of more than ten thousand braids; after every operation the buckets, their counts, and their contents are '
        'compared: everything when below capacity, the first offers (GreedyFirst), the heaviest (EvictMin). '
        'Non-trivial: a bucket was offered more than its capacity, or the descendants of two braids were all kept')


def check(case, obs):
    m = Model(case)
    descended = 0
    for op in case['ops']:
        m.play(op)
        m.check_complete()
        obs.label('op ' + op['op'])
        if op['op'] == 'descend':
            descended = max(descended, sum(len(ks) for ks in m.before.values()))
    over = any(sum(c.values()) > m.capacity for c in m.offered.values())
    obs.label(case['method'], f"n={case['n']}", 'overfull' if over else 'all kept')
    obs.bucket('offered', sum(sum(c.values()) for c in m.offered.values()))
    obs.nontrivial(over or descended >= 2)


def check_large(case, obs):
    def make(rep):
        t = bucketing.Tracker(rep, case['capacity'], [KEYS['length'], KEYS['projlen']], [], reservoir_method=case['method'], rand=random.Random(case['seed']))
        t.bootstrap_exhaustive(KIND[case['kind']], case['upto'] - case['down'])
        last = [tag for tag in t.buckets if tag[0] == case['upto'] - case['down']]
        for k in range(1, case['down'] + 1):
            for tag in last:
                t.nf_descendants(tag, k)
        return t

    def contents(t):
        counts = {Model.clean(row['bucket']): int(row['reservoir_count']) for _, row in t.stats().iterrows()}
        return {Model.clean(tag): (*t.bucket_braids_images(tag), counts[Model.clean(tag)]) for tag in list(t.buckets)}
    check_bootstrap(case, obs, make, contents)
    obs.label(case['method'], case['kind'], f"{case['down']} lengths by descent")


def check_many(case, obs):
    """The descendants of hundreds of braids with the same last factor."""
    n, kind, length, count = case['n'], case['kind'], case['length'], case['count']
    m = Model(dict(case, keys=['length', 'projlen'], other=False))
    seqs = extensions(n, kind, None, length)
    last = followers(kind, n)(None)[case['last'] % len(followers(kind, n)(None))]
    pool = [(kind, pw, s) for s in seqs if s[-1] == tuple(last) or case['any'] for pw in range(-8, 9)]
    random.Random(case['seed']).shuffle(pool)
    pool = pool[:count]
    for i in range(0, len(pool), 100):
        m.play(dict(op='add', a=0, b=0, big=False, batch=[(k, pw, s, s) for k, pw, s in pool[i:i + 100]], kind=kind))
    m.check_complete()
    tags = sorted(m.contents(), key=lambda t: -len(m.contents()[t][0]))[:2]
    most = 0
    for tag in tags:
        here = sorted(m.contents(), key=repr)
        m.play(dict(op='descend', a=here.index(tag), b=1 if n == 3 and case['two'] else 4, big=n == 3 and case['two'], kind=kind))
        most = max(most, len(m.before[tag]))
    m.check_complete()
    obs.bucket('braids of one bucket', most, (0, 50, 100, 200, 256, 300, 400, 600, 1000))
    obs.label(case['method'], kind)
    obs.nontrivial(most > 100)


@functools.cache
def grassmannian6():
    """The factors on six strands with one descent, with their number in the table and those which can follow."""
    t = PermTable.create(6)
    out = []
    for k, x in enumerate(t.divs):
        x = tuple(int(i) for i in x.word)
        if sum(a > b for a, b in zip(x, x[1:])) == 1:
            out.append((k, x))
    return out


def check_six(case, obs):
    """Six strands, where factors are numbered up to 720: braids whose last factors have numbers agreeing in their last byte, together in a bucket."""
    pool, rand = grassmannian6(), random.Random(case['seed'])
    alike = [(x, y) for k, x in pool for l, y in pool if k < l and (l - k) % 256 == 0]
    m = Model(dict(case, n=6, keys=['length', 'projlen'], other=False))
    keys = {('GNF', pw, (x,)) for pair in rand.sample(alike, min(case['pairs'], len(alike))) for x in pair for pw in range(case['powers'])}
    m.play(dict(op='add', a=0, b=0, big=False, batch=[(k, pw, s, s) for k, pw, s in sorted(keys)], kind='GNF'))
    m.check_complete()
    here = m.contents()
    tags = sorted(here, key=lambda t: (-len({k[2] for k in here[t][0]}), repr(t)))
    m.play(dict(op='descend', a=sorted(here, key=repr).index(tags[0]), b=4, big=False, kind='GNF'))
    m.check_complete()
    obs.bucket('last factors in a bucket', len({k[2] for k in here[tags[0]][0]}), (1, 2, 4, 8, 16))
    obs.nontrivial(len({k[2] for k in here[tags[0]][0]}) > 1)


def many_case():
    return st.sampled_from([(3, 1, 7), (3, 1, 6), (4, 1, 2), (4, 2, 3)]).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.just(t[1]), length=st.just(t[2]), kind=st.sampled_from(['GNF', 'DGNF']), count=st.integers(100, 1500), last=st.integers(0, 5),
        any=st.booleans(), two=st.booleans(), capacity=st.just(10**5), p=st.sampled_from([0, 2, 3]), seed=st.integers(0, 10**6),
        method=st.sampled_from(['GreedyFirst', 'Uniform', 'EvictMin', 'AChao']), weight=st.sampled_from([None, 'hash']))))


def check_batched(case, obs):
    k, m = case['size'], case['chunk']
    chunks = [list(c) for c in bucketing.batched(iter(range(k)), m)]
    expect_eq([x for c in chunks for x in c], list(range(k)), 'the chunks, put together')
    expect(all(len(c) == m for c in chunks[:-1]) and all(0 < len(c) <= m for c in chunks), lambda: f'chunks of lengths {[len(c) for c in chunks]}')
    obs.nontrivial(k > m > 1)


# More than ten thousand of the greatest length.
LARGE = [(3, 1, 'GNF', 13), (3, 1, 'DGNF', 13), (4, 1, 'GNF', 5), (4, 2, 'GNF', 5), (4, 1, 'DGNF', 6), (4, 0, 'GNF', 5), (4, 0, 'DGNF', 6)]


def large(kinds=('GNF', 'DGNF'), methods=('Uniform', 'AChao', 'GreedyFirst', 'EvictMin')):
    # All at once, or some of the lengths as descendants of the others (when those are all there).
    return lambda: st.tuples(st.sampled_from([x for x in LARGE if x[2] in kinds]), st.sampled_from([(c, 0) for c in (1, 100, 5000, 10**5)] + [(10**5, d) for d in (1, 2, 2, 3)])).map(lambda x: (*x[0], *x[1])).flatmap(lambda t: st.fixed_dictionaries(dict(
        n=st.just(t[0]), r=st.just(t[1]), kind=st.just(t[2]), upto=st.just(t[3]), p=st.sampled_from([2, 3, 5, 41, 131, 251]), capacity=st.just(t[4]), down=st.just(t[5]),
        method=st.sampled_from(methods), seed=st.integers(0, 10**6))))


TESTS = [
    Test('large', large(), check_large, quick=4, shards=3, thorough=25, thorough_shards=4),
    Test('histories', histories([3, 3, 4, 4]), check, quick=150, thorough=3000, shards=4, thorough_shards=12),
    Test('deterministic', histories([3, 4], 8, 3, ('GreedyFirst', 'EvictMin')), check, quick=150, thorough=3000, shards=2, thorough_shards=8),
    Test('tiny', histories([1, 2], 4, 2), check, quick=40, thorough=400, thorough_shards=1),
    Test('histories5', histories([5], 3, 2), check, quick=25, thorough=400, shards=2),
    Test('many', many_case, check_many, quick=12, thorough=100, shards=2, thorough_shards=6),
    Test('six', lambda: st.fixed_dictionaries(dict(r=st.sampled_from([0, 1, 1]), p=st.sampled_from([2, 3]), pairs=st.integers(2, 10), powers=st.integers(1, 2), capacity=st.just(10**5), kind=st.just('GNF'), seed=st.integers(0, 10**6),
         method=st.sampled_from(['GreedyFirst', 'Uniform', 'EvictMin', 'AChao']), weight=st.none())), check_six, quick=6, thorough=100, thorough_shards=2),
    Test('batched', lambda: st.fixed_dictionaries(dict(size=st.integers(0, 60), chunk=st.integers(1, 20))), check_batched, quick=100, thorough=1000, thorough_shards=1),
]
