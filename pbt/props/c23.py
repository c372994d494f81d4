"""C23: the published kernel elements, and all that is made of them, act trivially."""
import functools
import json
import pathlib

import numpy as np
from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import denotes, make, read_gnf, read_matrix, read_perm, read_polymat, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, Permutation, polymat
from peyl.braidsearch import evaluate_braid_factors, evaluate_braids_of_same_length, evaluate_prefixes_of_same_length

PROPERTY = 'C23'
RULE = ('the seven kernel elements published in the README, the notebook and MagmaCheck.m (4 strands mod 2 and 5, 6 strands over the integers), '
        'and products of conjugates of their powers by random braids: every way to evaluate them gives the identity, they are not '
        'trivial braids, and multiplying by one does not change the image of a braid. Non-trivial: a braid which is not a published one')
DATA = json.loads((pathlib.Path(__file__).parent.parent / 'data' / 'kernel.json').read_text())


@functools.cache
def setting(n, r, p):
    rep = JonesCellRep(n, r, p)
    return rep, JonesSummand(n, r, p), rp.mid(rep.dimension())


@functools.cache
def element(k):
    d = DATA[k]
    return BraidGroup(d['n']).from_gnf_pair((d['power'], [tuple(x) for x in d['perms']]))


@functools.cache
def word_of(k):
    d = DATA[k]
    return rb.power_word(rb.delta_word(d['n']), d['power']) + [l for x in d['perms'] for l in rb.perm_word(tuple(x))]


def acts_trivially(b, n, r, p, what, exact=True):
    rep, summand, one = setting(n, r, p)
    dim = len(one)
    if exact:
        got = read_matrix(rep.evaluate(b), dim)
        expect(got == one, lambda: f'{what} acts by {got}')
    A = rep.polymat_evaluate_braid(b)
    expect(read_polymat(A) == one, lambda: f'{what}: fast evaluation gives {read_polymat(A)}')
    expect_eq(int(polymat.projlen(A)), 1, f'{what}: projlen')
    if n <= 5:
        # The same braid in the other normal form, with the power of the Garside element moved about.
        d = b.to_DGNF()
        A = rep.polymat_evaluate_braid(d)
        expect(read_polymat(A) == one, lambda: f'{what}: fast evaluation of its dual normal form gives {read_polymat(A)}')
        for k in range(n):
            A = rep.polymat_evaluate_braids_of_same_length([DGNF(n, k, ()) * d])[0]
            full = rep.polymat_evaluate_braid(DGNF(n, k, ()))
            dual = rp.mproj(rp.mmod(read_matrix(rep.evaluate_artin_word(tup(rb.power_word(rb.dual_delta_word(n), k))), dim), p))
            expect(read_polymat(A) == read_polymat(full) == dual, lambda: f'{what}, times the dual Garside element to the power {k}, is not taken where that power is: {read_polymat(A)}, {read_polymat(full)} and {dual}')
    B = evaluate_braid_factors(summand, b)
    expect(read_polymat(np.asarray(B)) == one, lambda: f'{what}: the search evaluates it to {read_polymat(np.asarray(B))}')


def check_published(case, obs):
    k = case['k'] % len(DATA)
    d = DATA[k]
    n, r, p = d['n'], d['r'], d['p']
    b = element(k)
    power, perms = read_gnf(b, n)
    expect_eq((power, [list(x) for x in perms]), (d['power'], d['perms']), f'the normal form of {d["name"]}')
    expect_eq(b.canonical_length(), len(d['perms']), f'the length of {d["name"]}')
    denotes(b, n, word_of(k), d['name'])
    acts_trivially(b, n, r, p, d['name'])
    # The list of integers given to Magma is a word for it, and the unnormalised product of lifts gives the same.
    w = [[abs(x) - 1, 1 if x > 0 else -1] for x in b.magma_artin_word()]
    expect(rb.dynnikov(n, w) == rb.dynnikov(n, word_of(k)), lambda: f'the Magma word of {d["name"]}')
    G = BraidGroup(n)
    lifts = [G.positive_lift(Permutation(tuple(x))) for x in d['perms']]
    prod = functools.reduce(lambda x, y: x * y, lifts, G.id())
    delta = G.positive_lift(Permutation(tuple(reversed(range(n)))))
    expect(delta ** d['power'] * prod == b, lambda: f'the product of the positive lifts of {d["name"]}')
    if n == 4:
        prefixes = evaluate_prefixes_of_same_length(setting(n, r, p)[1], [prod])
        lens = [int(polymat.projlen(x)[0]) for x in prefixes]
        expect(len(lens) == len(perms) + 1 and lens[0] == 1 and lens[-1] == 1 and min(lens[1:-1]) > 1, lambda: f'projlens of the prefixes: {lens}')
    obs.nontrivial()


def check_made(case, obs):
    """Products of conjugates of powers of kernel elements."""
    b0 = [k for k, d in enumerate(DATA) if [d['n'], d['p']] == case['which']]
    n, p = case['which']
    r = 1
    b, w = GNF(n, 0, ()), []
    for k, e, c in case['pieces']:
        k = b0[k % len(b0)]
        g = make('GNF', n, c)
        b = b * (g * element(k) ** e * g.inv())
        w = w + c + rb.power_word(word_of(k), e) + rb.inverse_word(c)
    denotes(b, n, w, 'the product')
    acts_trivially(b, n, r, p, f'a product of {len(case["pieces"])} conjugates', exact=len(w) < 1200)
    y = make('GNF', n, case['word'])
    rep, summand, one = setting(n, r, p)
    image = read_matrix(rep.evaluate(y), len(one))
    fast = read_polymat(rep.polymat_evaluate_braid(y))
    for z in (b * y, y * b):
        if len(w) < 600:
            expect(read_matrix(rep.evaluate(z), len(one)) == image, lambda: f'multiplying {y!r} by a kernel element changes its image')
        A = read_polymat(rep.polymat_evaluate_braid(z))
        expect(A == fast, lambda: f'multiplying {y!r} by a kernel element changes its fast image to {A}')
    # Powers of the full twist make no difference to the fast image, which is up to a unit, however many there are.
    k = case['twists']
    mixed = [b * GNF(n, 2 * k, ()), GNF(n, -2 * k, ()) * b, b, y * GNF(n, 2 * k, ())]
    for z in mixed:
        want = fast if z is mixed[-1] else one
        A = read_polymat(rep.polymat_evaluate_braid(z))
        expect(A == want, lambda: f'fast image of {z!r}: {A}, not {want}')
    if n <= 5:
        # The full twist as a power of the dual Garside element.
        for d, want in [(DGNF(n, n * k, ()) * b.to_DGNF(), one), (y.to_DGNF() * DGNF(n, -n * k, ()), fast)]:
            A = read_polymat(rep.polymat_evaluate_braids_of_same_length([d])[0])
            expect(A == want, lambda: f'fast image of {d!r}: {A}, not {want}')
    same = [z for z in mixed[:3]]
    for A in rep.polymat_evaluate_braids_of_same_length(same):
        expect(read_polymat(polymat.projectivise(A)) == one, lambda: f'{same} are evaluated together to {A}')
    batch = evaluate_braids_of_same_length(summand, [b, b * GNF(n, 1, ()), b * GNF(n, -3, ())])
    expect_eq([int(x) for x in polymat.projlen(batch)], [1, 1, 1], 'projlens of a kernel element times powers of the Garside element')
    trivial = rb.dynnikov(n, w) == rb.dynnikov(n, [])
    expect((b == GNF(n, 0, ())) == trivial, 'a nontrivial kernel element became the identity')
    obs.label(f'n={n} p={p}', 'identity' if trivial else 'not the identity')
    obs.bucket('length', b.canonical_length(), (0, 10, 50, 100, 200))
    obs.nontrivial(not trivial)


def made_case(which, words, pieces):
    def f(wh):
        n = wh[0]
        return st.fixed_dictionaries(dict(which=st.just(wh), twists=st.one_of(st.integers(-20, 20), gens.any_size(80)), word=gens.letters(n, words), pieces=st.lists(
            st.tuples(st.integers(0, 9), st.sampled_from([1, 1, -1, 2, -2, 3] if n == 4 else [1, -1]), gens.letters(n, words)).map(list), min_size=1, max_size=pieces)))
    return lambda: st.sampled_from(which).flatmap(f)


TESTS = [
    Test('published', lambda: st.fixed_dictionaries(dict(k=st.sampled_from([0, 1, 2, 4, 5, 6]))), check_published, quick=6, thorough=6, thorough_shards=1),
    Test('published6', lambda: st.fixed_dictionaries(dict(k=st.just(3))), check_published, quick=1, thorough=1, thorough_shards=1),
    Test('made', made_case([[4, 2], [4, 2], [4, 5]], 12, 3), check_made, quick=22, thorough=400, shards=3),
    Test('made6', made_case([[6, 0]], 6, 2), check_made, quick=3, thorough=60, thorough_shards=4),
]
