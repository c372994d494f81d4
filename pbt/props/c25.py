"""C25: braids which are stored, copied or used as keys stay the same braids: in databases, as text, in other processes, in sets."""
import ast
import contextlib
import copy
import dataclasses
import json
import os
import pathlib
import pickle
import sqlite3
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import env, gens, ref_braid as rb
from ..common import KIND, make, read_braid, read_npar, read_perm, to_lpoly
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, BraidGroup, JonesCellRep, LPoly, Matrix, NPar, Permutation, Poly, tl
from peyl.braid import adapt_braid, convert_braid, register_sqlite3_adapters

PROPERTY = 'C25'
RULE = ('batches of braids of both kinds and several numbers of strands, with Garside powers up to 10^30, are written as text, to SQLite databases '
        'with the registered adapters and converter and in the form the search saves, and read back in this process and in fresh ones with '
        'another hash seed; braids written by the pinned version are read back; values are copied and pickled; equality, hashing and order are '
        'compared with the canonical decompositions. Non-trivial: at least two different braids of canonical length at least 2')
STOCK = json.loads((pathlib.Path(__file__).parent.parent / 'data' / 'stored.json').read_text())

register_sqlite3_adapters()

powers = st.one_of(st.just(0), st.integers(-5, 5), st.integers(-5, 5), gens.any_size(110))
item = st.sampled_from([2, 3, 3, 4, 4, 5]).flatmap(lambda n: st.fixed_dictionaries(dict(
    kind=st.sampled_from(['GNF', 'DGNF']), n=st.just(n), power=powers, word=st.one_of(gens.word(n, 24), gens.garside_seq(n, 6, 2).map(lambda s: [l for x in s for l in rb.perm_word(tuple(x))])))))


def build(c):
    return KIND[c['kind']](c['n'], c['power'], ()) * make(c['kind'], c['n'], c['word'])


def meaning(b):
    """What a braid is, as plain data, from its canonical decomposition."""
    power, factors = read_braid(b, b.n)
    if isinstance(b, GNF):
        return ['GNF', b.n, power, [list(x) for x in factors]]
    return ['DGNF', b.n, power, [sorted(sorted(x) for x in p) for p in factors]]


def interesting(braids):
    return len({repr(meaning(b)) for b in braids if b.canonical_length() >= 2}) >= 2


def check_text(case, obs):
    braids = [build(c) for c in case['items']]
    texts = []
    for b in braids:
        want = meaning(b)
        text = adapt_braid(b)
        expect(isinstance(text, str), lambda: f'the stored form {text!r} is not text')
        back = convert_braid(text.encode())
        expect(type(back) is type(b) and back == b and hash(back) == hash(b), lambda: f'{text!r} was read back as {back!r}')
        expect_eq(meaning(back), want, f'{text!r} read back')
        saved = str(dataclasses.astuple(b))
        back = type(b)(*ast.literal_eval(saved))
        expect(back == b and hash(back) == hash(b), lambda: f'{saved!r}, as the search saves it, was read back as {back!r}')
        expect_eq(meaning(back), want, f'{saved!r} read back')
        if isinstance(b, GNF):
            power, factors = b.canonical_decomposition()
            pair = ast.literal_eval(str((power, [list(x.word) for x in factors])))
            back = BraidGroup(b.n).from_gnf_pair((pair[0], [tuple(w) for w in pair[1]]))
            expect(back == b, lambda: f'the pair {pair} was read back as {back!r}')
        texts.append(text)
        obs.label(want[0])
    for x, s in zip(braids, texts):
        for y, t in zip(braids, texts):
            same = meaning(x) == meaning(y)
            expect_eq((x == y, x != y, s == t), (same, not same, same), f'equality of {s} and {t} and of their stored forms')
            if same:
                expect_eq(hash(x), hash(y), f'hashes of {s}')
    # as keys
    table = {}
    for i, b in enumerate(braids):
        table[b] = i
    for c, b in zip(case['items'], braids):
        last = max(i for i, x in enumerate(braids) if meaning(x) == meaning(b))
        expect_eq(table.get(build(c)), last, f'looking up {b!r} in a dictionary')
    expect_eq(len(set(braids)), len({repr(meaning(b)) for b in braids}), 'the number of braids in a set')
    # order
    for kind in (GNF, DGNF):
        some = [b for b in braids if type(b) is kind]
        for x in some:
            for y in some:
                expect_eq((x < y) + (x == y) + (x > y), 1, f'the number of x < y, x == y, x > y which hold for {x!r}, {y!r}')
                expect_eq((x <= y, x >= y), (not x > y, not x < y), f'the order of {x!r}, {y!r}')
        ordered = sorted(some)
        expect(all(x <= y for i, x in enumerate(ordered) for y in ordered[i:]), lambda: f'the order is not transitive on {some}')
        expect_eq([meaning(b) for b in sorted(reversed(some))], [meaning(b) for b in ordered], 'sorting in another order')
    obs.nontrivial(interesting(braids))


def check_sqlite(case, obs):
    braids = [build(c) for c in case['items']]
    register_sqlite3_adapters()
    with tempfile.TemporaryDirectory(prefix='pbt-db-') as d:
        path = os.path.join(d, 'braids.db')
        with contextlib.closing(sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)) as conn:
            conn.execute('CREATE TABLE t (i INT, braid BRAID, plain TEXT)')
            conn.executemany('INSERT INTO t VALUES (?, ?, ?)', [(i, b, b) for i, b in enumerate(braids)])
            conn.commit()
            for b in braids:
                got = [i for i, in conn.execute('SELECT i FROM t WHERE braid = ? ORDER BY i', (b,))]
                expect_eq(got, [i for i, x in enumerate(braids) if meaning(x) == meaning(b)], f'rows found with {b!r}')
        with contextlib.closing(sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)) as conn:
            rows = conn.execute('SELECT braid, plain AS "plain [BRAID]" FROM t ORDER BY i').fetchall()
            rows2 = conn.execute('SELECT plain FROM t ORDER BY i').fetchall()
    expect_eq(len(rows), len(braids), 'number of rows')
    for b, (x, y), (text,) in zip(braids, rows, rows2):
        for z in (x, y, convert_braid(text.encode())):
            expect(type(z) is type(b), lambda: f'{b!r} came back from a database as {z!r}')
            expect(z == b and hash(z) == hash(b), lambda: f'{b!r} came back from a database as {z!r}')
            expect_eq(meaning(z), meaning(b), 'a braid from a database')
    obs.nontrivial(interesting(braids))


CHILD = r'''
import ast, contextlib, json, pickle, sqlite3, sys
sys.path.insert(0, sys.argv[1])
from peyl import GNF, DGNF, NPar
from peyl.braid import register_sqlite3_adapters
register_sqlite3_adapters()
def meaning(b):
    power, factors = b.canonical_decomposition()
    if isinstance(b, GNF):
        return ['GNF', b.n, int(power), [[int(i) for i in x.word] for x in factors]]
    return ['DGNF', b.n, int(power), [sorted(sorted(map(int, c)) for c in x.components()) for x in factors]]
with contextlib.closing(sqlite3.connect(sys.argv[2], detect_types=sqlite3.PARSE_DECLTYPES)) as conn:
    words = json.loads(sys.stdin.read())
    if sys.argv[3] == 'words first':
        mine = [{'GNF': GNF, 'DGNF': DGNF}[k].from_artin_word(n, [tuple(l) for l in w]) for k, n, w in words]
    read = [b for b, in conn.execute('SELECT braid FROM t ORDER BY i')]
    saved = [cls(*ast.literal_eval(s)) for cls, s in [(type(b), s) for b, (s,) in zip(read, conn.execute('SELECT saved FROM t ORDER BY i'))]]
    if sys.argv[3] != 'words first':
        mine = [{'GNF': GNF, 'DGNF': DGNF}[k].from_artin_word(n, [tuple(l) for l in w]) for k, n, w in words]
    with open(sys.argv[2] + '.pickle', 'rb') as f:
        pickled = pickle.load(f)
    known, given = set(mine), set(pickled)
    agree = [[a == b, hash(a) == hash(b), a in known, b in given, [type(x) is type(y) and x == y and hash(x) == hash(y) for x, y in zip(a.canonical_factors(), b.canonical_factors())]] for a, b in zip(pickled, mine)]
    with open(sys.argv[2] + '.pickle', 'wb') as f:
        pickle.dump(mine, f)
    conn.execute('CREATE TABLE u (i INT, braid BRAID)')
    conn.executemany('INSERT INTO u VALUES (?, ?)', list(enumerate(mine)))
    conn.commit()
    print(json.dumps([[meaning(b) for b in read], [meaning(b) for b in saved], [[[int(i), int(e)] for i, e in b.artin_word()] if abs(b.inf()) <= 50 else None for b in read], [meaning(b) for b in pickled], agree]))
'''


def check_process(case, obs):
    """Another process reads what this one stored, and the other way round."""
    braids = [build(c) for c in case['items']]
    words = [[c['kind'], c['n'], c['word']] for c in case['items']]
    with tempfile.TemporaryDirectory(prefix='pbt-db-') as d:
        path = os.path.join(d, 'braids.db')
        with contextlib.closing(sqlite3.connect(path)) as conn:
            conn.execute('CREATE TABLE t (i INT, braid BRAID, saved TEXT)')
            conn.executemany('INSERT INTO t VALUES (?, ?, ?)', [(i, b, str(dataclasses.astuple(b))) for i, b in enumerate(braids)])
            conn.commit()
        words_made = [make(c['kind'], c['n'], c['word']) for c in case['items']]
        for b in words_made:
            # used as keys, in every way, before they are pickled
            expect(len({b, b * b, b}) >= 1 and {b: 1}[b] == 1 and all(x in {x} for x in b.canonical_factors()), 'a braid is not found in a set it is in')
        with open(path + '.pickle', 'wb') as f:
            pickle.dump(words_made, f)
        done = subprocess.run([sys.executable, '-c', CHILD, env.REPO, path, 'words first' if case['first'] else 'words last'], cwd=d, input=json.dumps(words),
                              capture_output=True, text=True, timeout=120, env={**os.environ, 'PYTHONHASHSEED': str(case['hashseed'])})
        expect_eq(done.returncode, 0, f'a process reading the database: {done.stderr[-1500:]}')
        read, saved, artin, pickled, agree = json.loads(done.stdout)
        want = [meaning(b) for b in braids]
        expect_eq(read, want, 'the braids another process read from the database')
        expect_eq(saved, want, 'the braids another process read from the form the search saves')
        expect_eq(pickled, [meaning(b) for b in words_made], 'the braids another process unpickled')
        for b, (eq, hashes, known, given, factors) in zip(words_made, agree):
            expect(eq and hashes and known and given and all(factors), lambda: f'{b!r}, pickled and read by another process, differs from the same braid made there (equal: {eq}, same hash: {hashes}, found in a set: {known}, {given}, factors: {factors})')
        with open(path + '.pickle', 'rb') as f:
            theirs = pickle.load(f)
        for x, y in zip(theirs, words_made):
            expect(x == y and hash(x) == hash(y) and x in set(words_made) and y in set(theirs), lambda: f'{y!r}, pickled by another process, is not the same here')
        for c, b, w in zip(case['items'], braids, artin):
            if w is not None:
                expect(type(b).from_artin_word(b.n, [tuple(l) for l in w]) == b, lambda: f'the word another process gave for {b!r} was {w}')
        with contextlib.closing(sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)) as conn:
            back = [b for b, in conn.execute('SELECT braid FROM u ORDER BY i')]
    for c, b in zip(case['items'], back):
        mine = make(c['kind'], c['n'], c['word'])
        expect(b == mine and hash(b) == hash(mine), lambda: f'another process stored {mine!r} as {b!r}')
    obs.nontrivial(interesting(braids))


six = st.fixed_dictionaries(dict(kind=st.sampled_from(['GNF', 'GNF', 'DGNF']), n=st.just(6), power=powers, word=st.one_of(gens.word(6, 24), gens.garside_seq(6, 4, 2).map(lambda s: [l for x in s for l in rb.perm_word(tuple(x))]))))


def check_six(case, obs):
    check_text(case, obs)
    check_sqlite(case, obs)
    braids = [build(c) for c in case['items']]
    for b in braids:
        for how, y in [('copy', copy.copy(b)), ('deepcopy', copy.deepcopy(b)), *[(f'pickle protocol {k}', pickle.loads(pickle.dumps(b, k))) for k in range(2, pickle.HIGHEST_PROTOCOL + 1)]]:
            expect(type(y) is type(b) and y == b and hash(y) == hash(b) and meaning(y) == meaning(b), lambda: f'{how} of {b!r} gave {y!r}')
    obs.nontrivial(interesting(braids) or any(max(b.factors, default=0) > 255 for b in braids))


def check_stock(case, obs):
    """Braids which the pinned version stored."""
    for text, want in STOCK[case['k'] * 40:case['k'] * 40 + 40]:
        b = convert_braid(text.encode())
        expect_eq(meaning(b), want, f'the braid {text}, stored earlier,')
        obs.nontrivial(b.canonical_length() >= 2)


def check_copies(case, obs):
    n = case['n']
    b, d = make('GNF', n, case['word']), make('DGNF', n, case['word'])
    d2 = {k: v for k, v in case['poly'] if v}
    m = Matrix(1, 2, (to_lpoly(d2), case['int']))
    diag = tl.TLDiag.id(n)
    values = [b, d, *b.canonical_factors(), *d.canonical_factors(), to_lpoly(d2), Poly(*[v for _, v in case['poly']]), m, diag, tl.TLMor.e(0, n), BraidGroup(n), tl.TLCell(n, n // 2)]
    for x in values:
        for how, y in [('copy', copy.copy(x)), ('deepcopy', copy.deepcopy(x)), ('pickle', pickle.loads(pickle.dumps(x))), ('oldest pickle', pickle.loads(pickle.dumps(x, 2)))]:
            expect(type(y) is type(x) and y == x, lambda: f'{how} of {x!r} gave {y!r}')
            expect_eq(repr(y), repr(x), f'{how} of a value')
    rep, other = JonesCellRep(n, n // 2, case['p']), JonesCellRep(n, n // 2, case['p'])
    expect((rep.polymat_evaluate(b) == other.polymat_evaluate(b)).all(), 'two representations with the same parameters differ')
    # equality between values of different kinds
    for i, x in enumerate(values):
        for y in values[i + 1:]:
            if type(x) is not type(y):
                expect(x != y and not x == y, lambda: f'{x!r} == {y!r}')
    for x, y in [(Permutation(tuple(case['perm'])), Permutation(tuple(case['perm']))), (NPar.from_components(n, case['part']), NPar.from_components(n, case['part'][::-1]))]:
        expect(x == y and hash(x) == hash(y), lambda: f'{x!r} and {y!r} are not equal, or hash differently')
    # Factors and diagrams of a hundred points and more.
    m = case['many']
    big = gens.complete(m, [[min(m - 1, x) for x in b] for b in case['blocks'] if len({min(m - 1, x) for x in b}) == len(b) > 1])
    p, x = NPar.from_components(m, big), Permutation(rb.blocks_perm(m, big))
    t = tl.TLDiag(m, m, p.inv)
    for v in (p, x, t):
        for how, y in [('copy', copy.copy(v)), ('deepcopy', copy.deepcopy(v)), ('pickle', pickle.loads(pickle.dumps(v))), ('oldest pickle', pickle.loads(pickle.dumps(v, 2)))]:
            expect(type(y) is type(v) and y == v and hash(y) == hash(v), lambda: f'{how} of {v!r} gave {y!r}')
    expect(read_npar(pickle.loads(pickle.dumps(p)), m) == frozenset(map(frozenset, big)), lambda: f'pickled {p!r}')
    expect(read_perm(pickle.loads(pickle.dumps(x)), m) == rb.blocks_perm(m, big), lambda: f'pickled {x!r}')
    for x, y in [(b.canonical_factors(), d.canonical_factors())]:
        for f in x:
            expect_eq(read_perm(pickle.loads(pickle.dumps(f)), n), read_perm(f, n), 'a pickled permutation')
        for f in y:
            expect_eq(read_npar(pickle.loads(pickle.dumps(f)), n), read_npar(f, n), 'a pickled partition')
    obs.nontrivial(b.canonical_length() >= 2)


def with_repeats(lo, hi):
    """Lists of items with some repetitions and some pairs differing in little."""
    def join(items, extra):
        out = list(items)
        for i, how, k in extra:
            c = dict(items[i % len(items)])
            if how == 'kind':
                c['kind'] = 'DGNF' if c['kind'] == 'GNF' else 'GNF'
            elif how == 'power':
                c['power'] += k
            elif how == 'strands' and c['n'] < 5:
                c['n'] += 1
            elif how == 'last':
                c['word'] = c['word'][:-1]
            out.append(c)
        return out
    return st.builds(join, st.lists(item, min_size=lo, max_size=hi),
                     st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['same', 'kind', 'power', 'strands', 'last']), st.integers(-1, 1)), max_size=3))


TESTS = [
    Test('text', lambda: st.fixed_dictionaries(dict(items=with_repeats(1, 6))), check_text, quick=150, thorough=3000, shards=2),
    Test('sqlite', lambda: st.fixed_dictionaries(dict(items=with_repeats(1, 8))), check_sqlite, quick=80, thorough=1500),
    Test('process', lambda: st.fixed_dictionaries(dict(items=with_repeats(3, 12), first=st.booleans(), hashseed=st.integers(1, 4 * 10**9))), check_process, quick=6, thorough=120, shards=2),
    # Factors numbered beyond 256 and 512.
    Test('six', lambda: st.fixed_dictionaries(dict(items=st.lists(six, min_size=1, max_size=3))), check_six, quick=20, thorough=400, thorough_shards=1),
    Test('stock', lambda: st.fixed_dictionaries(dict(k=st.integers(0, (len(STOCK) - 1) // 40))), check_stock, quick=12, thorough=12, thorough_shards=1),
    Test('copies', lambda: gens.with_n([2, 3, 4, 5], lambda n: dict(
        word=gens.word(n, 16), perm=gens.perm(n), part=gens.ncpart(n), int=gens.any_size(80), p=st.sampled_from([0, 2, 5]),
        poly=st.lists(st.tuples(st.integers(-4, 4), st.integers(-9, 9)).map(list), max_size=4),
        many=st.sampled_from([*range(20), 99, 100, 101, 127, 128, 129, 130, 150, 255, 256, 257, 300]), blocks=st.lists(st.lists(st.integers(0, 300), max_size=5, unique=True), max_size=4))), check_copies, quick=80, thorough=1500),
]
