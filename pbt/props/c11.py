"""C11: whatever the history of a search, every bucket entry is sound."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gens, trackers
from ..common import KIND
from ..engine import Test, expect, expect_eq
from ..trackers import KEYS, Model, build, histories, image_of, key_of, rep_and_states, seq_key
from peyl import bucketing

PROPERTY = 'C11'
RULE = ('histories of up to 8 operations (offers of batches of braids with shifted images, descendants of a bucket, exhaustive '
        'bootstraps, discards, validations) on trackers of every reservoir method, capacity 1 to 1000, bucket keys, for n = 3 '
        'to 5, mixing normal form kinds; after every operation every (braid, image) pair in every bucket is recomputed '
        'independently. Non-trivial: braids of at least two buckets were checked after a descent')


def check(case, obs):
    m = Model(case)
    descended = False
    for op in case['ops']:
        m.play(op)
        m.check_sound()
        obs.label('op ' + op['op'])
        descended |= op['op'] == 'descend' and len(m.before) > 0
    obs.label(case['method'], f"n={case['n']}", ('apart' if 'nf' in case['keys'] else 'together') if case['mixed'] else case['kind'])
    obs.bucket('buckets', len(m.t.buckets))
    full = any(len(ks) == m.capacity for ks, _ in m.contents().values())
    obs.label('some bucket full' if full else 'none full')
    obs.nontrivial(descended and len(m.t.buckets) >= 2)


def check_validation(case, obs):
    """An entry whose image is not that of its braid is reported as such."""
    n, r, p = case['n'], case['r'], case['p']
    rep, _ = rep_and_states(n, r, p)
    keys = list(dict.fromkeys(seq_key(case['kind'], pw, s) for pw, s in case['batch']))
    # Two braids whose images are different, and of the same width.
    pair = next(((a, b) for a in keys for b in keys
                 if image_of(n, r, p, a).shape == image_of(n, r, p, b).shape and (image_of(n, r, p, a) != image_of(n, r, p, b)).any()), None)
    if pair is None:
        obs.label('no such pair')
        return
    t = bucketing.Tracker(rep, 10, [KEYS['length'], KEYS['projlen']], [])
    good = [k for k in keys if k not in pair][:case['good']]
    for k in good:
        t.add_braids_images([build(n, k)], np.array(image_of(n, r, p, k))[None])
    bad, other = pair
    t.add_braids_images([build(n, bad)], np.array(image_of(n, r, p, other))[None])
    with contextlib.redirect_stdout(io.StringIO()):
        got = t.valiate_buckets()
    expect(not isinstance(got, str), lambda: f'validation said {got!r} although the image of {bad} is wrong')
    expect_eq(key_of(got[0], n), bad, 'the braid reported')
    obs.nontrivial(len(good) >= 1)


def check_deep(case, obs):
    """A search which goes a long way: forward from every bucket, length after length, with little kept of each."""
    n, kind, upto = case['n'], case['kind'], case['upto']
    m = Model(dict(case, keys=['length', 'projlen'], other=False))
    m.t.bootstrap_exhaustive(KIND[kind], 1)
    length, steps = 1, 0
    while length < upto:
        here = [t for t in m.t.buckets if t[0] == length]
        here = here[-case['width']:] if case['top'] else here[:case['width']]
        by = case['by'] if n == 3 else 1
        for t in here:
            m.t.nf_descendants(t, by)
        if case['discard']:
            for t in list(m.t.buckets):
                if t[0] == length:
                    m.t.discard_bucket(t)
        length += by
        steps += 1
        if steps % case['every'] and length < upto:
            continue
        found = 0
        for tag, (keys, images) in m.contents().items():
            for k, A in zip(keys, images):
                if tag[0] == length or length >= upto and not case['discard'] and tag[0] % 5 == 0:
                    X = m.image(k)
                    expect(A.shape == X.shape and (A == X).all(), lambda: f'image of {k} in bucket {tag}, wanted {X.tolist()}')
                    expect_eq((len(k[2]), X.shape[-1]), tag, f'the bucket of {k}')
                    found += tag[0] == length
            if tag[0] == length:
                groups = m.t.hash_bucket(tag)
                by_image = {}
                for k in keys:
                    by_image.setdefault(m.image(k).tobytes(), []).append(k)
                expect_eq(sorted(sorted(key_of(b, n) for b in g) for g in groups.values()), sorted(sorted(g) for g in by_image.values()), f'hash_bucket({tag})')
        expect(found > 0, f'no braid of length {length} is left')
    obs.label(case['method'], kind, f'n={n}')
    obs.bucket('length', length)
    obs.nontrivial(length >= 10)


def check_grouping(case, obs):
    """Matrices of any width, which differ in a few places: what goes in comes out, grouped by equality."""
    n, r, w = case['n'], case['r'], case['width']
    rep, states = rep_and_states(n, r, 0)
    d = len(states)
    rng = np.random.default_rng(case['seed'])
    base = rng.integers(-5, 6, size=(d, d, w))
    base[0, 0, [0, -1]] = 1
    images = []
    for spots in case['variants']:
        A = base.copy()
        for at in spots:
            A.flat[at % A.size if at >= 0 else at] ^= 3
        A[0, 0, [0, -1]] = 1
        images.append(A)
    braids = list(build(n, ('GNF', 0, s)) for s in trackers.extensions(n, 'GNF', None, 3)[:len(images)])
    images = images[:len(braids)]
    t = bucketing.Tracker(rep, 1000, [KEYS['length'], KEYS['projlen']], [])
    t.add_braids_images(braids, np.array(images))
    tag, = t.buckets
    got, kept = t.bucket_braids_images(tag)
    expect_eq(got, braids, 'the braids offered')
    expect(kept.shape == (len(images), d, d, w) and (kept == np.array(images)).all(), 'the images offered')
    groups = {}
    for b, A in zip(braids, images):
        groups.setdefault(A.tobytes(), []).append(b)
    expect_eq(sorted(t.hash_bucket(tag).values()), sorted(groups.values()), f'groups of equal images, of {w} degrees')
    obs.bucket('width', w)
    obs.nontrivial(len(groups) >= 2 and w > 20)


def grouping_case():
    return trackers.reps([3, 4, 5]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), width=st.one_of(st.integers(2, 40), st.integers(41, 1500)), seed=st.integers(0, 10**6),
        variants=st.lists(st.lists(st.one_of(st.integers(0, 10**5), st.integers(-5, -1)), max_size=2), min_size=1, max_size=8))))


def deep_case():
    return trackers.reps([3, 3, 4]).flatmap(lambda nr: st.fixed_dictionaries(dict(
        n=st.just(nr[0]), r=st.just(nr[1]), p=st.sampled_from([2, 3, 5, 41, 131, 251, 257, 32771]), kind=st.sampled_from(['GNF', 'DGNF']),
        upto=st.sampled_from([10, 20, 30, 45]), by=st.sampled_from([1, 1, 2, 3]), width=st.sampled_from([1, 2, 4]), top=st.booleans(),
        discard=st.booleans(), every=st.sampled_from([3, 9]), capacity=st.sampled_from([1, 2, 4]), seed=st.integers(0, 10**6),
        method=st.sampled_from(['Uniform', 'AChao', 'GreedyFirst', 'EvictMin']), weight=st.sampled_from([None, 'hash', 'terms']))))


def validation_case():
    def f(nr):
        n, r = nr
        def g(t):
            kind, L = t
            one = gens.garside_seq(n, L, L) if kind == 'GNF' else gens.dual_seq(n, L, L)
            return st.fixed_dictionaries(dict(
                n=st.just(n), r=st.just(r), p=st.sampled_from([0, 2, 5]), kind=st.just(kind), good=st.integers(0, 4),
                batch=st.lists(st.tuples(st.integers(0, 1), one).map(list), min_size=3, max_size=8)))
        return st.tuples(st.sampled_from(['GNF', 'DGNF']), st.integers(1, 4)).flatmap(g)
    return trackers.reps([3, 4]).flatmap(f)


TESTS = [
    Test('histories', histories([3, 3, 4, 4]), check, quick=150, thorough=3000, shards=6, thorough_shards=12),
    Test('tiny', histories([1, 2], 4, 2), check, quick=40, thorough=400, thorough_shards=1),
    Test('histories5', histories([5], 3, 2), check, quick=25, thorough=400, shards=2),
    Test('deep', deep_case, check_deep, quick=24, thorough=400, shards=2, thorough_shards=4),
    Test('grouping', grouping_case, check_grouping, quick=120, thorough=1500, thorough_shards=1),
    Test('crowd', trackers.crowd_case(['GNF', 'DGNF']), lambda case, obs: trackers.check_crowd(case, obs, lambda rep: bucketing.Tracker(
        rep, 1000, [KEYS['length'], KEYS['projlen']], []), np.int64), quick=120, thorough=1500, shards=2, thorough_shards=3),
    Test('validation', validation_case, check_validation, quick=150, thorough=2000, thorough_shards=2),
]
