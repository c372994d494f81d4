"""C26: results do not depend on what was computed before, and nothing changes its arguments or its earlier results."""
import copy
import itertools
import os
import pickle
import random
import signal
import traceback

import numpy as np
from hypothesis import strategies as st

from .. import env, gens, ref_braid as rb
from ..common import KIND, make, read_braid, to_lpoly, tup
from ..engine import CheckFailed, HarnessError, Test, expect, expect_eq
from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, SymmetricGroup, polymat
from peyl import bucketing as bk, braidsearch as bs, tl
from peyl.braid import NParTable, PermTable
from peyl.jonesrep import LKBRep

PROPERTY = 'C26'
RULE = ('sequences of up to 8 queries over all parts of the package (braids, their conversions, enumeration and seeded sampling, evaluation in '
        'shared representation objects of several parameters, tensors, diagrams, polynomials, trackers, seeded searches) are answered in '
        'fresh processes each alone, in sequence, and in reverse, with earlier results and arguments looked at again afterwards. '
        'Non-trivial: at least two queries of the sequence share a number of strands or a representation')


# ---------------------------------------------------------------- plain data for any value

def plain(x):
    if isinstance(x, np.ndarray):
        return ['array', list(x.shape), x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (GNF, DGNF)):
        return [type(x).__name__, x.n, x.inf(), [plain(f) for f in x.canonical_factors()]]
    if isinstance(x, Permutation):
        return ['perm', list(x.word)]
    if isinstance(x, NPar):
        return ['npar', sorted(sorted(c) for c in x.components())]
    if isinstance(x, LPoly):
        return ['lpoly', x.valuation() if not x.is_zero() else 0, [plain(c) for c in x.coeffs]]
    if isinstance(x, Poly):
        return ['poly', list(x.coeffs)]
    if isinstance(x, Matrix):
        return ['matrix', x.nrows, x.ncols, [plain(y) for y in x.entries()]]
    if isinstance(x, (tl.TLDiag, tl.TLExtDiag)):
        return [type(x).__name__, x.top, x.bot, list(x.seq)] + ([x.bubbles] if isinstance(x, tl.TLExtDiag) else [])
    if isinstance(x, tl.TLMor):
        return ['mor', x.top, x.bot, sorted(([plain(d), plain(c)] for d, c in x.pairs()), key=repr)]
    if isinstance(x, dict):
        return ['dict', sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted((plain(y) for y in x), key=repr)]
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    raise HarnessError(f'no plain form for {type(x)}')


# ---------------------------------------------------------------- queries

class World:
    """What one process has made so far: the representations and trackers the queries share."""

    def __init__(self):
        self.made = {}
        self.open = []              # (function, iterator it gave, what was taken from it)
        self.own = []               # arrays which belong to whoever asked for them
        self.watched = []           # (what, value, its plain form when it was made)
        self.asked = []             # (question, its answer in plain form)

    def get(self, key, f):
        if key not in self.made:
            self.made[key] = f()
        return self.made[key]

    def arg(self, x):
        self.watched.append(('an argument', x, plain(x)))
        return x

    def mine(self, x):
        if isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, (np.ndarray, list, dict, set)):
                    self.mine(y)
        if isinstance(x, (np.ndarray, list, dict, set)):
            self.own.append(x)
        return x

    def ask(self, f):
        """The answer to f(), which is ours to change, and to be asked for again after that."""
        x = f()
        self.asked.append((f, plain(x)))
        return self.mine(x)

    def rep(self, q, slot=0):
        n = q['n']
        r, p = q['r'] % (n // 2 + 1), q['p']
        kind = q['rep']
        if kind == 'lkb':
            d = q['e'] % 3
            return self.get(('lkb', n, p, d, slot), lambda: LKBRep(n, p, LPoly(1 + d, (1,)), LPoly(2 - d, (-1,))))
        if kind == 'summand':
            return self.get(('summand', n, r, p, slot), lambda: JonesSummand(n, r, p))
        return self.get(('cell', n, r, p, slot), lambda: JonesCellRep(n, r, p))


def cell(q):
    return {**q, 'rep': 'cell'} if q['rep'] == 'summand' else q


def q_arith(w, q):
    a, b = (make(q['kind'], q['n'], w.arg(x)) for x in (q['a'], q['b']))
    w.arg([a, b])
    table = KIND[q['kind']]._nf_table(q['n'])
    one = (table.divs[q['seed'] * 7 % table.order], KIND[q['kind']](q['n'], q['e'] - 3, ()), *[KIND[q['kind']](q['n'], 0, (f,)) for f in a.factors[:1]])
    w.arg(list(one))
    return [a * b, a.inv(), b ** (q['e'] - 3), w.ask(a.artin_word), w.ask(a.magma_artin_word), w.ask(a.canonical_factors), [w.ask(x.artin_word) for x in one]]


def q_convert(w, q):
    a = make(q['kind'], q['n'], q['a'])
    b = a.to_DGNF() if q['kind'] == 'GNF' else a.to_GNF()
    return [b, b.to_GNF() if q['kind'] == 'GNF' else b.to_DGNF()]


def q_lists(w, q):
    a = make(q['kind'], q['n'], q['a'])
    cls = KIND[q['kind']]
    n = min(q['n'], 4)
    for f in (lambda: cls.all_of_length(n, 1 + q['e'] % 3), lambda: a.nf_suffixes(1 + q['seed'] % 2), a.nf_descendants):
        it = f()
        w.open.append((f, it, list(itertools.islice(it, q['seed']))))
    return [sorted(plain(list(a.nf_descendants())), key=repr), sorted(plain(list(a.nf_suffixes(1))), key=repr), cls.count_all_of_length(q['n'], q['e']),
            list(cls.all_of_length(min(q['n'], 3), 1, q['e']))]


def q_group(w, q):
    B, S = BraidGroup(q['n']), SymmetricGroup(q['n'])
    return [[tables(c, q['n']) for c in (PermTable, NParTable)], B.id(), B.gens(), B.invs(), dict(B.bkl_gens()), S.id(), S.longest_element(), S.cox_gens(), cls_gens(q)]


def tables(cls, n):
    """The tables of simple elements, which everything shares."""
    t = cls.create(n)
    return [plain(getattr(t, k, None)) for k in ('divs', 'bkl_gens', 'artin_gens')]


def cls_gens(q):
    return KIND[q['kind']].artin_gens(q['n'])


def q_sample(w, q):
    cls = KIND[q['kind']]
    q = {**q, 'e': 0} if q['n'] == 2 else q         # on two strands there are none to sample
    state = random.getstate()
    out = [cls.sample(q['n'], q['e'], random.Random(q['seed'])) for _ in range(2)]
    rand = random.Random(q['seed'])
    out += [cls.sample(q['n'], q['e'], rand) for _ in range(3)]
    expect(random.getstate() == state, 'sampling with a given generator changed the state of the global one')
    expect(plain(out[0]) == plain(out[1]) == plain(out[2]), 'sampling again from the same seed gave something else')
    return out


def q_exact(w, q):
    rep = w.rep(cell(q))
    a = make(q['kind'], q['n'], q['a'])
    gens_, invs = rep.artin_gens_invs()
    return [rep.evaluate(a), rep.evaluate_artin_word(w.arg(tup(q['a']))), list(gens_), list(invs), rep.dimension(), rep.id()]


def q_tensor(w, q):
    rep = w.rep(cell(q))
    a, b = make(q['kind'], q['n'], q['a']), make(q['kind'], q['n'], q['b'])
    out = [w.mine(rep.polymat_evaluate_artin_word(w.arg(tup(q['a'] or [[0, 1]])))), rep.polymat_evaluate(b)]
    if cell(q)['rep'] in ('cell', 'lkb'):
        A, B = rep.polymat_evaluate_braid(a), rep.polymat_evaluate_braid(b)
        w.arg([A, B])
        same = w.arg([a, make(q['kind'], q['n'], [])*a, KIND[q['kind']](q['n'], q['e'], ()) * a])
        table = KIND[q['kind']]._nf_table(q['n'])
        out += [A, B, w.ask(lambda: rep.polymat_mul(A, B)), w.ask(lambda: rep.polymat_evaluate_braids_of_same_length(same)), w.ask(lambda: rep.polymat_evaluate_braids_of_same_length(same[:1])), w.ask(lambda: rep.polymat_evaluate_braid(same[2])),
                w.mine(rep.polymat_evaluate_braid_integers_of_same_length(KIND[q['kind']], [[q['seed'] % table.order]])),
                w.mine(rep.polymat_evaluate_braid_integers_of_same_length(KIND[q['kind']], [[q['e'] % table.order, 0], [0, q['seed'] % table.order]]))]
    return out + list(rep.polymat_artin_gens_invs()) if q['n'] > 1 else out


def q_summand(w, q):
    q = {**q, 'rep': 'summand'}
    rep = w.rep(q)
    a, b = make('GNF', q['n'], q['a']), make('GNF', q['n'], q['b'])
    braids = w.arg([a, b, a * b])
    same = w.arg([a, GNF(q['n'], q['e'], ()) * a])
    eye, (g, i) = rep.id(), rep.artin_gens_invs()
    X, Y = bs.evaluate_braid_factors(rep, a), bs.evaluate_braid_factors(rep, b)
    w.arg([X, Y])
    one = [GNF(q['n'], q['e'], ())]
    return [eye, g, i, X, Y, w.ask(lambda: rep.mul(X, Y)), [w.mine(x) for x in bs.evaluate_braids(rep, braids + one)], w.ask(lambda: bs.evaluate_braids_of_same_length(rep, same)), [w.mine(x) for x in bs.evaluate_prefixes_of_same_length(rep, same)],
            w.ask(lambda: bs.evaluate_braids_of_same_length(rep, one)), [w.mine(x) for x in bs.evaluate_prefixes_of_same_length(rep, one)], w.ask(lambda: bs.evaluate_braids_of_same_length(rep, same[:1]))]


def q_polymat(w, q):
    rng = np.random.default_rng(q['seed'])
    k, m = 1 + q['e'] % 3, 1 + q['r']
    dt = [np.int64, np.int32][q['p'] != 0]
    A, B = (rng.integers(-1, 2, (2, k, k, m + i)).astype(dt) for i in (1, 2))
    A[..., 0, 0, -1], B[..., 0, 0, m // 2] = 1, 2
    B[..., :m // 2] = 0
    w.arg([A, B])
    one = A[0]
    w.arg(one)
    out = [w.ask(lambda: polymat.mul(A, B)), w.ask(lambda: polymat.mul(A, B, 2)), polymat.projectivise(B), polymat.projlen(A), polymat.projlen(B), polymat.valmin(B), polymat.degmax(A), polymat.nz_terms(A), polymat.efflen(A),
           polymat.trim(B), list(polymat.trim_left(B)), polymat.pack(w.arg([one, B[1], A[1]])), polymat.concatenate(w.arg([A, B])), polymat.zeropad(A, m + 4), polymat.to_matrix(one),
           list(polymat.proj_starts_ends(B)), polymat.rhogap(A)]
    M = polymat.to_matrix(one)
    w.arg(M)
    return out + [polymat.from_matrix(M.map(lambda x: LPoly(x.val - 1, x.coeffs)), proj=True), polymat.eye(k)]


def q_poly(w, q):
    p = w.arg(to_lpoly({i: c for i, c in q['a'] if c}))
    r = w.arg(to_lpoly({i - 1: c for i, c in q['b'] if c}))
    x, y = Poly(*[c for _, c in q['a']]), Poly(*[c for _, c in q['b']])
    w.arg([x, y])
    coeffs = w.arg([0, 1, q['e'], 0])
    return [p + r, p * r, p - r, r ** (q['e'] % 4), -p, p + 1, x + y, x * y, x - y, Poly.cyclotomic(1 + q['seed'] % 30), Poly.minpolycos(3 + q['seed'] % 20), Poly.chebyshevT(q['seed'] % 12),
            LPoly(1, coeffs), LPoly.quantum_integer(q['e'] - 2), p.map(lambda c: 2 * c)]


def q_matrix(w, q):
    p, r = to_lpoly({i: c for i, c in q['a'] if c}), to_lpoly({i - 1: c for i, c in q['b'] if c})
    rows = w.arg([[p, 1], [r, q['e']]])
    A = w.arg(Matrix.from_rows(rows))
    B = w.arg(Matrix(2, 2, (1, 2, q['e'], r)))
    return [A * B, A - B, A ** 3, A.transpose(), A.trace(), w.ask(A.rows), A.map(lambda x: x * 2), A.row(0), A.column(1), Matrix.identity(2)]


def q_diagrams(w, q):
    n = min(q['n'], 4)
    r = q['r'] % (n // 2 + 1)
    a = w.arg(tl.TLMor.id(n))
    terms = w.arg({tl.TLDiag.id(n): LPoly(q['e'] - 2, (2,))})
    b = tl.TLMor(n, n, terms)
    for i, e in q['a'][:4]:
        if i < n - 1:
            x = tl.TLMor.e(i, n)
            a = w.arg(a * x + b)
    C = tl.TLCell(n, r)
    D, E = tl.TLDiag.id(n), tl.TLExtDiag.id(n)
    return [a, a * b, a + b, a.flip(), -a, a.trace(), C.project_leftmult_matrix(a), C.dim(), list(C.basis_diagrams()), list(tl.cell_basis(n, r)), tl.tl_basis(n, n % 2), C.trace_scalar(),
            list(D * D), D @ D, E.add_bubbles(2) * E, E, D.flip(), tl.cell_dimension(n, r)]


def q_perm(w, q):
    n = q['n']
    word = w.arg(tuple(random.Random(q['seed']).sample(range(n), n)))
    x = w.arg(Permutation(word))
    y = GNF.from_artin_word(n, tup(q['a'][:3]))
    parts = w.arg([[0, n - 1], [1]])[:2 if n > 2 else 1]
    P = w.arg(NPar.from_components(n, parts))
    S = SymmetricGroup(n)
    return [x.inv(), x * x, x.shortlex(), w.ask(x.right_descent_set), w.ask(x.left_descent_set), [w.ask(f) for f in (x.disjoint_cycles, x.artin_word, P.components, P.edges, P.artin_word, S.reflections)], x.length(), y, P.left_complement(), P.right_complement(), P.to_permutation(),
            list(P.artin_word()), GNF.from_perm(x), GNF.from_perm_seq(n, w.arg([x, x, x.inv()])), DGNF.from_npar_seq(n, w.arg([P, P])), S.from_cycle(w.arg([0, n - 1])), len(list(S.elements())),
            BraidGroup(n).from_gnf_pair(w.arg((q['e'], [word, word])))]


def bucketing_state(t):
    return sorted(([plain(tag), [[plain(b), plain(x)] for b, x in zip(*t.bucket_braids_images(tag))]] for tag in list(t.stats()['bucket'])), key=repr)


def q_tracker(w, q):
    """A search from scratch, with a seed: reproducible whatever happened before, even sharing its representation."""
    n = min(max(q['n'], 3), 4)
    rep = w.rep(cell({**q, 'n': n}))
    t = bk.Tracker(rep, 1 + q['e'], [bk.Stats.CanonicalLength, bk.Stats.ProjectiveLength] + [bk.Stats.NFKind] * (q['r'] % 2), [], reservoir_method=['Uniform', 'GreedyFirst', 'EvictMin', 'AChao'][q['seed'] % 4],
                   rand=random.Random(q['seed']))
    state = random.getstate()
    cls = KIND[q['kind']]
    t.bootstrap_exhaustive(cls, 1)
    a = make(q['kind'], n, [[i % (n - 1), e] for i, e in q['a']])
    braids = w.arg([a, KIND[q['kind']](n, 1, ()) * a])
    images = w.arg(rep.polymat_evaluate_braids_of_same_length(braids))
    t.add_braids_images(braids, images)
    for tag in sorted(t.stats()['bucket'], key=repr)[:3]:
        t.nf_descendants(tag)
    expect(random.getstate() == state, 'a search with a given generator changed the state of the global one')
    return bucketing_state(t)


def q_search(w, q):
    n = min(max(q['n'], 3), 4)
    rep = w.rep({**q, 'n': n, 'rep': 'summand'})
    t = bs.Tracker(rep, 1 + q['e'], ('length', 'projlen'), lambda x: x['length'] >= 1, rand=random.Random(q['seed']))
    state = random.getstate()
    t.bootstrap_exhaustive(upto_length=1)
    a = make('GNF', n, [[i % (n - 1), e] for i, e in q['a']])
    braids = w.arg([a, GNF(n, 1, ()) * a])
    t.add_braids_images(braids, w.arg(bs.evaluate_braids_of_same_length(rep, braids)))
    for tag in sorted(t.stats()['bucket'])[:3]:
        t.nf_descendants(tag)
    expect(random.getstate() == state, 'a search with a given generator changed the state of the global one')
    return sorted(([plain(list(tag)), plain(list(t.bucket_braids[tag]))] for tag in t.bucket_braids), key=repr) + [plain(bs.sample_braids_images(rep, q['e'] % 3, 2, random.Random(q['seed'])))]


def q_twisted(w, q):
    a, b = (make(q['kind'], q['n'], q[k]) for k in 'ab')
    x = KIND[q['kind']](q['n'], q['twist'], ()) * a
    return [x, x.inv(), x * b, b * x, x ** q['k'], x.to_DGNF() if q['kind'] == 'GNF' else x.to_GNF(), w.ask(x.artin_word), w.ask(x.magma_artin_word), sorted(plain(list(x.nf_suffixes(1))), key=repr)]


def q_twisted_images(w, q):
    x = KIND[q['kind']](q['n'], q['twist'], ()) * make(q['kind'], q['n'], q['a'][:3])
    rep = w.rep({**q, 'rep': 'cell', 'p': 2})
    return [w.ask(lambda: rep.polymat_evaluate_braid(x)), w.ask(lambda: rep.polymat_evaluate(x)), plain(rep.evaluate(x)) if q['n'] == 3 else None]


MORE = {f.__name__[2:]: f for f in (q_twisted, q_twisted_images)}
QUERIES = {f.__name__[2:]: f for f in (q_arith, q_convert, q_lists, q_group, q_sample, q_exact, q_tensor, q_summand, q_polymat, q_poly, q_matrix, q_diagrams, q_perm, q_tracker, q_search)}


def answer(queries, later):
    """Run in a fresh process: the answers, or the exception of each."""
    w = World()
    out = []
    queries = [{**q, 'a': [[i % (q['n'] - 1), e] for i, e in q['a']], 'b': [[i % (q['n'] - 1), e] for i, e in q['b']]} for q in queries]
    for q in queries:
        x = (QUERIES | MORE)[q['q']](w, q)
        y = plain(x)
        out.append(y)
        w.watched.append((f'the result of an earlier {q["q"]}', x, y))
    if later:
        for f, it, taken in w.open:
            taken = plain(taken + list(itertools.islice(it, 30)))
            expect(taken == plain(list(itertools.islice(f(), len(taken)))), lambda: f'an enumeration left suspended while other things were done went on to give {str(taken)[-300:]}')
        for what, x, y in w.watched:
            expect(plain(x) == y, lambda: f'{what} was changed: it was {str(y)[:300]} and is {str(plain(x))[:300]}')
        for x in w.own:                 # as someone might, who has finished with it
            if isinstance(x, np.ndarray):
                x[...] = 77
            elif isinstance(x, dict):
                x.clear()
            elif isinstance(x, set):
                x.add(77)
            else:
                x.reverse()
                x.append(77)
        for f, y in w.asked:
            again = plain(f())
            expect(again == y, lambda: f'the same question to the same object gave {differ(again, y)}, after its first answer was changed')
        for q, y in zip(queries, out):
            again = plain((QUERIES | MORE)[q['q']](w, q))
            expect(again == y, lambda: f'{q["q"]} asked again gave {differ(again, y)}')
    return out


def differ(x, y):
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                return f'[{i}] ' + differ(a, b)
    return f'{str(x)[:300]} and not {str(y)[:300]}'


def fresh(queries, later=False):
    """The answers in a forked process, which has computed nothing yet."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.alarm(120)
            try:
                res = ('ok', answer(queries, later))
            except CheckFailed as e:
                res = ('failed', str(e))
            except Exception as e:
                text = traceback.format_exc()
                in_repo = any(f.filename.startswith(env.REPO + '/') for f in traceback.extract_tb(e.__traceback__))
                res = ('failed' if in_repo else 'harness', text[-1500:])
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise CheckFailed(f'no answer to {[q["q"] for q in queries]}')
    kind, res = pickle.loads(data)
    if kind == 'failed':
        raise CheckFailed(res)
    if kind == 'harness':
        raise HarnessError(res)
    return res


def check(case, obs):
    queries = case['queries']
    alone = [fresh([q])[0] for q in queries]
    forward = fresh(queries, True)
    backward = fresh(queries[::-1], True)[::-1]
    for q, x, y, z in zip(queries, alone, forward, backward):
        expect(x == y, lambda: f'{q["q"]}, after {[a["q"] for a in queries[:queries.index(q)]]}, gave {differ(y, x)}, in {q}')
        expect(x == z, lambda: f'{q["q"]}, after others in reverse, gave {differ(z, x)}, in {q}')
        obs.label(q['q'])
    keys = [(q['n'], q['r'] % (q['n'] // 2 + 1)) for q in queries]
    obs.nontrivial(len(set(keys)) < len(keys))


def queries(ns, size):
    """Variations on one query: the same parameters but for a few."""
    fields = dict(q=st.sampled_from(sorted(QUERIES)), kind=st.sampled_from(['GNF', 'DGNF']), rep=st.sampled_from(['cell', 'cell', 'summand', 'lkb']),
                  r=st.integers(0, 2), p=st.sampled_from([0, 2, 5]), e=st.integers(0, 6), seed=st.integers(0, 5), a=gens.letters(5, 8), b=gens.letters(5, 8))
    change = st.one_of(*[st.tuples(st.just(k), v) for k, v in fields.items()], st.tuples(st.just('n'), st.sampled_from(ns)), st.tuples(st.just('kind'), fields['kind']), st.tuples(st.just('p'), fields['p']))

    def build(base, n, steps):
        out = [{**base, 'n': n}]
        for kind, changes in steps:
            out.append({**out[-1], **(dict(q=kind) if kind else {}), **dict(changes)})
        return dict(queries=out)
    step = st.tuples(st.one_of(st.none(), fields['q']), st.lists(change, max_size=2))
    return lambda: st.builds(build, st.fixed_dictionaries(fields), st.sampled_from(ns), st.lists(step, min_size=1, max_size=size - 1))


def siblings(ns, kinds=()):
    """The same question about objects which differ only in a parameter or two."""
    fields = dict(kind=['GNF', 'DGNF'], rep=['cell', 'summand', 'lkb'], r=[0, 1, 2], p=[0, 2, 5], e=list(range(7)), n=ns, seed=list(range(6)))

    def build(base, rep, names, values):
        out = [{**base, **rep, **dict(zip(names, v))} for v in itertools.product(*(fields[k] for k in names))]
        return dict(queries=[out[i % len(out)] for i in values])
    words = st.lists(st.tuples(st.integers(0, 4), st.sampled_from([-3, -2, -1, -1, 1, 2])).map(list), min_size=1, max_size=6)
    base = st.fixed_dictionaries(dict(q=st.sampled_from(kinds) if kinds else st.sampled_from(['tensor', 'tensor', 'exact', *sorted(QUERIES)]), a=words, b=words, **{k: st.sampled_from(v) for k, v in fields.items()}))
    return lambda: st.builds(build, base, st.sampled_from([{}, dict(rep='lkb')]), st.sampled_from([['e']] * (6 if kinds else 0) + [['e'], ['e'], ['p'], ['r'], ['kind'], ['rep'], ['n'], ['n', 'r'], ['kind', 'r'], ['seed'], ['e', 'p'], ['rep', 'p']]),
                             st.lists(st.integers(0, 30), min_size=2, max_size=4))


def twists():
    """The same factors after different powers of the Garside element."""
    words = st.lists(st.tuples(st.integers(0, 4), st.sampled_from([-3, -2, -1, 1, 1, 2])).map(list), min_size=1, max_size=10)
    return st.sampled_from([3, 3, 4, 5, 5]).flatmap(lambda n: st.builds(
        lambda base, q, es: dict(queries=[{**base, 'q': q, 'twist': e} for e in es]),
        st.fixed_dictionaries(dict(kind=st.sampled_from(['GNF', 'DGNF', 'DGNF']), n=st.just(n), r=st.integers(0, 2), a=words, b=words, k=st.integers(-4, 4))),
        st.sampled_from(['twisted', 'twisted', 'twisted', 'twisted_images']), st.lists(st.integers(-6, 6), min_size=2, max_size=5, unique=True)))


TESTS = [
    Test('siblings', siblings([2, 3, 4]), check, quick=60, thorough=1000, shards=4, thorough_shards=8),
    Test('searches', siblings([3, 4], ['tracker', 'tracker', 'search']), check, quick=25, thorough=400, shards=2, thorough_shards=6),
    Test('twists', twists, check, quick=40, thorough=600, shards=2, thorough_shards=6),
    Test('histories', queries([2, 3, 3, 4], 8), check, quick=60, thorough=1000, shards=6, thorough_shards=8),
    Test('histories5', queries([3, 4, 5, 5], 5), check, quick=10, thorough=150, shards=2, thorough_shards=8),
]
