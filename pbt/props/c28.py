"""C28: what is displayed says what the value is: text, LaTeX, HTML and pictures can be read back."""
import contextlib
import html
import importlib.util
import itertools
import random
import re
import sys
import types

from hypothesis import strategies as st

from .. import gens, ref_braid as rb, ref_poly as rp
from ..common import KIND, make, read_lpoly, read_npar, read_perm, to_lpoly, tup
from ..engine import Test, expect, expect_eq
from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, tl
from peyl.show import FramedMatrix, Latex, Row, html_repr

PROPERTY = 'C28'
RULE = ('polynomials with coefficients up to 2^70, matrices of every shape over them, braids, permutations, partitions, diagrams and morphisms are displayed as '
        'text, LaTeX, HTML and pictures, and a parser of the notation (not the code under test) reads the value back. '
        'Non-trivial: a polynomial of two terms, a matrix with two rows and columns, a braid of two factors, or a diagram with two arcs')

TERM = re.compile(r'([+-]?)(\d*)(?:([vx])(?:\^(?:\{(-?\d+)\}|(-?\d+)))?)?')


def parse(text, var, latex=False):
    """Read a polynomial from its usual notation."""
    expect(isinstance(text, str), lambda: f'{text!r} is not text')
    squeezed = re.sub(r'\s+([+-])\s+', r'\1', text.strip())
    out, pos, first = {}, 0, True
    while pos < len(squeezed):
        m = TERM.match(squeezed, pos)
        sign, num, v, brace, bare = m.groups()
        expect(m.end() > pos and (num or v) and (first or sign) and (v in (None, var)) and (bare is None or not latex or len(bare) == 1), lambda: f'{text!r} is not a polynomial in {var}')
        d = 0 if not v else int(brace or bare or 1)
        c = int(num or 1) * (-1 if sign == '-' else 1)
        expect(d not in out, lambda: f'degree {d} twice in {text!r}')
        out[d] = c
        pos, first = m.end(), False
    expect(squeezed, 'a polynomial displayed as nothing')
    return {d: c for d, c in out.items() if c}


def unlatex(text):
    return text.strip().strip('$').strip()


def read_text(text):
    """Read a value from its text form, given the names the package uses."""
    names = dict(LPoly=lambda s: ('lpoly', parse(s, 'v')), Poly=lambda s: ('poly', parse(s, 'x')), Permutation=lambda word: ('perm', tuple(word)),
                 NPar=lambda n, blocks: ('npar', n, blocks), GNF=lambda k, f: ('GNF', k, f), DGNF=lambda k, f: ('DGNF', k, f),
                 Matrix=lambda *a: ('matrix', *a), TLDiag=lambda top, bot, seq: ('diag', top, bot, tuple(seq)), TLMor=lambda top, bot, terms: ('mor', top, bot, terms),
                 TLExtDiag=lambda top, bot, seq, bubbles: ('ext', top, bot, tuple(seq), bubbles), M=None)
    try:
        return eval(text, {'__builtins__': {'set': set}}, names)          # noqa: S307: text of the code under test, no builtins
    except Exception as e:
        expect(False, f'{text!r} could not be read: {type(e).__name__}: {e}')


def full_blocks(n, blocks):
    used = {x for b in blocks for x in b}
    return frozenset([frozenset(b) for b in blocks] + [frozenset([x]) for x in range(n) if x not in used])


# ---------------------------------------------------------------- polynomials

def check_poly(case, obs):
    d = rp.lp(*case['poly'])
    f = to_lpoly(d)
    expect_eq(parse(f.fmt(), 'v'), d, 'fmt')
    expect_eq(parse(f.fmt('latex'), 'v', True), d, 'LaTeX')
    expect_eq(parse(f.fmt(mode='latex'), 'v', True), d, 'LaTeX')
    expect_eq(parse(unlatex(f._repr_latex_()), 'v', True), d, 'LaTeX')
    expect_eq(read_text(repr(f)), ('lpoly', d), 'text form')
    expect_eq(read_text(str(f)), ('lpoly', d), 'text form')
    lo = min(d, default=0)
    e = {k - min(lo, 0): c for k, c in d.items()}
    g = Poly(*[e.get(k, 0) for k in range(max(e, default=-1) + 1)])
    expect_eq(read_text(repr(g)), ('poly', e), 'text form')
    expect_eq(read_text(f'{g}'), ('poly', e), 'text form')
    obs.nontrivial(len(d) >= 2)


# ---------------------------------------------------------------- matrices

def entry_value(x):
    if isinstance(x, tuple):
        return x[1]
    return {0: x} if x else {}


def check_matrix(case, obs):
    I, J = case['shape']
    model = [[rp.lp(*x) if isinstance(x, list) else rp.lp((0, x)) for x in row[:J]] for row in case['data'][:I]]
    entries = [to_lpoly(rp.lp(*x)) if isinstance(x, list) else x for row in case['data'][:I] for x in row[:J]]
    A = Matrix(I, J, tuple(entries))
    got = read_text(repr(A))
    if I == 0 or J == 0:
        expect_eq(got, ('matrix', I, J, []), 'text form of an empty matrix')
        return
    expect(len(got) == 2 and got[0] == 'matrix', lambda: f'text form {repr(A)!r}')
    expect_eq([[entry_value(x) for x in row] for row in got[1]], model, 'text form of a matrix')
    text = str(A)
    m = re.fullmatch(r'M(\[.*\])', text, re.S)
    expect(m, lambda: f'text form {text!r}')
    expect_eq([[entry_value(x) for x in row] for row in read_text(m[1])], model, 'short text form of a matrix')
    tex = unlatex(A._repr_latex_())
    m = re.fullmatch(r'\\begin\{([a-z]?matrix)\}(.*)\\end\{\1\}', tex, re.S)
    expect(m, lambda: f'LaTeX {tex!r}')
    expect_eq([[parse(x, 'v', True) for x in row.split('&')] for row in m[2].split(r'\\')], model, 'LaTeX of a matrix')
    # with headings
    cols = [Heading(f'c{j}') for j in range(J)]
    heads = [Heading(f'c{i}') for i in range(I)]
    square = heads if I != J else cols
    for entries, rows, cols in itertools.product((A, A.rows()), ([f'r{i}' for i in range(I)], square, ['x'] * I), (cols, [f'k{j}' for j in range(J)], [-j for j in range(J)])):
        page = FramedMatrix(rows, cols, entries)._repr_html_()
        rows = [x.text if isinstance(x, Heading) else x for x in rows]
        table = [[html.unescape(re.sub(r'<[^>]*>', '', c)).strip() for c in re.findall(r'<td[^>]*>(.*?)</td>', r, re.S)] for r in re.findall(r'<tr[^>]*>(.*?)</tr>', page, re.S)]
        expect_eq([r[0] for r in table], ['', *rows], 'the row headings')
        expect_eq(table[0][1:], [c.text if isinstance(c, Heading) else str(c) for c in cols], 'the column headings')
        got = [[{} if c == '' else parse(unlatex(c), 'v', True) for c in r[1:]] for r in table[1:]]
        expect_eq(got, model, 'a matrix with headings')
    obs.nontrivial(I >= 2 and J >= 2)


class Heading:
    def __init__(self, text):
        self.text = text

    def _repr_html_(self):
        return self.text


def check_rows(case, obs):
    """Lists of things, shown in order, once each, with their captions."""
    items = [to_lpoly(rp.lp(*x)) if isinstance(x, list) else x for x in case['items']]
    names = [f'caption{i}z' for i in range(len(items))]
    for caption in (None, lambda i, x: names[i], lambda i, x: Heading(f'<b>{names[i]}</b>')):
        page = Row(iter(items), caption)._repr_html_() if case['lazy'] else Row(items, caption)._repr_html_()
        pos = 0
        for i, x in enumerate(items):
            for want in [html_repr(x)] + ([names[i]] if caption else []):
                k = page.find(want, pos)
                expect(k >= 0, lambda: f'{want!r} is missing from (or out of order in) {page!r}')
                pos = k + len(want)
        text = re.sub(r'<[^>]*>', ' ', page)
        expect_eq(sum(text.count(c) for c in names), len(items) if caption else 0, 'number of captions shown')
        for x in items:
            expect_eq(len(re.findall(re.escape('item' + x), text)) if isinstance(x, str) else 0, 0, 'an item shown as something else')
    for x in items:
        shown = html_repr(x)
        if isinstance(x, str):
            expect_eq(shown, x, 'text')
        elif isinstance(x, int):
            expect_eq(int(shown), x, 'an integer')
        else:
            expect_eq(parse(unlatex(shown), 'v', True), read_lpoly(x), 'a polynomial')
            expect_eq(parse(unlatex(html_repr(x, prefer_latex=True)), 'v', True), read_lpoly(x), 'a polynomial')
    expect_eq(unlatex(Latex('a_{1}')._repr_latex_()), 'a_{1}', 'LaTeX given')
    obs.nontrivial(len(items) >= 2)


# ---------------------------------------------------------------- braids

def check_braid(case, obs):
    n, word = case['n'], case['word']
    for kind in ('GNF', 'DGNF'):
        b = make(kind, n, word)
        power, factors = b.canonical_decomposition()
        for text in (repr(b), str(b), f'{b}'):
            got = read_text(text)
            expect_eq(got[:2], (kind, power), 'kind and power in the text form of a braid')
            expect(isinstance(got[2], tuple) and len(got[2]) == len(factors), lambda: f'factors in {text!r}')
            for g, f in zip(got[2], factors):
                if kind == 'GNF':
                    expect_eq(g, ('perm', read_perm(f)), 'a factor in the text form of a braid')
                else:
                    expect_eq((g[0], g[1], full_blocks(n, g[2])), ('npar', n, read_npar(f)), 'a factor in the text form of a braid')
        m = re.fullmatch(r'\((\\[dD]elta)\^\{(-?\d+)\};(.*)\)', unlatex(b._repr_latex_()), re.S)
        expect(m and m[1] == ('\\Delta' if kind == 'GNF' else '\\delta') and int(m[2]) == power, lambda: f'LaTeX {b._repr_latex_()!r}')
        if kind == 'GNF':
            parts = [x for x in m[3].split(',') if x.strip()]
            expect_eq(len(parts), len(factors), 'number of factors in the LaTeX of a braid')
            for part, f in zip(parts, factors):
                letters = re.findall(r's_\{?(\d+)\}?', part)
                expect(re.fullmatch(r'(\s*s_(\{\d+\}|\d(?!\d)))*\s*', part), lambda: f'LaTeX factor {part!r}')
                reduced(n, [int(x) for x in letters], read_perm(f))
        else:
            parts = re.findall(r'p\((.*?)\)', m[3])
            expect_eq(len(parts), len(factors), 'number of factors in the LaTeX of a braid')
            for part, f in zip(parts, factors):
                expect_eq(latex_blocks(n, part), read_npar(f), 'a factor in the LaTeX of a braid')
        magma = b.magma_artin_word()
        expect(all(x != 0 and abs(x) <= n - 1 for x in magma), lambda: f'Magma word {magma}')
        expect(rb.dynnikov(n, [(abs(x) - 1, 1 if x > 0 else -1) for x in magma]) == rb.dynnikov(n, word), lambda: f'the Magma word {magma} is not for {word}')
        obs.nontrivial(len(factors) >= 2)


def latex_blocks(n, text):
    return full_blocks(n, [[int(x) for x in re.split(r'[,\s]+', b.strip()) if x] for b in re.findall(r'\\\{(.*?)\\\}', text)])


def reduced(n, letters, want):
    expect(all(0 <= i < n - 1 for i in letters), lambda: f'generators {letters}')
    expect(rb.dynnikov(n, [(i, 1) for i in letters]) == rb.dynnikov(n, rb.perm_word(tuple(want))), lambda: f'the word {letters} is not a reduced word of {want}')


def check_factors(case, obs):
    n = case['n']
    x, P = Permutation(tuple(case['perm'])), NPar.from_components(n, case['part'])
    expect_eq(read_text(repr(x)), ('perm', tuple(case['perm'])), 'text form of a permutation')
    tex = unlatex(x._repr_latex_())
    if case['perm'] == sorted(case['perm']):
        expect(not re.search(r's_', tex) and tex, lambda: f'the identity is shown as {tex!r}')
    else:
        # A subscript of two digits has to be in braces.
        expect(re.fullmatch(r'(\s*s_(\{\d+\}|\d(?!\d)))*\s*', tex), lambda: f'LaTeX of a permutation {tex!r}')
        reduced(n, [int(i) for i in re.findall(r's_\{?(\d+)\}?', tex)], case['perm'])
    got = read_text(repr(P))
    blocks = frozenset(frozenset(b) for b in case['part'])
    expect_eq((got[0], got[1], full_blocks(n, got[2])), ('npar', n, blocks), 'text form of a partition')
    expect_eq(latex_blocks(n, P._repr_latex_()), blocks, 'LaTeX of a partition')
    for cls in (JonesCellRep, JonesSummand):
        r, p = case['r'] % (n // 2 + 1), case['p']
        nums = re.findall(r'\d+', repr(cls(n, r, p)))
        expect_eq([int(i) for i in nums], [n - r, r, n] + ([p] if p else []), 'the numbers in the text form of a representation')
    obs.nontrivial(n >= 3)


# ---------------------------------------------------------------- diagrams

class Shape:
    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw

    def as_str(self):
        return self

    def __str__(self):
        return '<svg/>'


@contextlib.contextmanager
def recorder():
    """Stands in for the svg package, which is not installed, and keeps what is drawn."""
    drawn = []
    if importlib.util.find_spec('svg') is not None:
        yield None
        return
    mod = types.ModuleType('svg')
    for name in ('M', 'C', 'L', 'Path'):
        setattr(mod, name, type(name, (Shape,), {}))

    class SVG(Shape):
        def as_str(self):
            drawn.append(self)
            return f'<svg{len(drawn) - 1}/>'
    mod.SVG = SVG
    sys.modules['svg'] = mod
    try:
        yield drawn
    finally:
        del sys.modules['svg']


def read_picture(svg, top, bot):
    """The arcs of a picture: pairs of ('t' or 'b', position from the left)."""
    arcs, at = [], None
    for path in svg.kw['elements']:
        for s in path.kw['d']:
            if type(s).__name__ == 'M':
                at = s.args[:2]
            else:
                arcs.append((at, s.args[-2:]))
                at = s.args[-2:]
    height = svg.kw['height']
    points = [p for a in arcs for p in a]
    expect(all(y in (0, height) for _, y in points), lambda: f'ends of arcs {points}')
    xs = {side: sorted({round(x, 6) for x, y in points if y == (0 if side == 't' else height)}) for side in 'tb'}
    expect_eq((len(xs['t']), len(xs['b']), len(points)), (top, bot, top + bot), 'points in a picture, at the top, at the bottom, ends of arcs')
    width = svg.kw['width']
    expect(all(0 <= x <= width for x, _ in points), lambda: f'points {points} outside of the picture')

    def name(p):
        side = 't' if p[1] == 0 else 'b'
        return side, xs[side].index(round(p[0], 6))
    return frozenset(frozenset(map(name, a)) for a in arcs)


def arcs_of(top, bot, seq):
    def name(i):
        return ('b', i) if i < bot else ('t', top + bot - 1 - i)
    return frozenset(frozenset([name(i), name(j)]) for i, j in enumerate(seq))


def check_diagram(case, obs):
    top, bot, seq = case['top'], case['bot'], case['seq']
    d = tl.TLDiag(top, bot, seq)
    expect_eq(read_text(repr(d)), ('diag', top, bot, tuple(seq)), 'text form of a diagram')
    e = tl.TLExtDiag(top, bot, seq, case['bubbles'])
    expect_eq(read_text(repr(e)), ('ext', top, bot, tuple(seq), case['bubbles']), 'text form of a diagram')
    others = tl.tl_basis(top, bot) if top + bot <= 12 else []
    terms = {tl.TLDiag(top, bot, seq): rp.lp(*case['coef'])}
    for k, c in case['terms']:
        other = others[k % len(others)] if others else tl.TLDiag(top, bot, gens.matching_from(top + bot, [k, len(c), k // 7, k // 3]))
        terms.setdefault(other, rp.lp(*c))
    terms = {x: c for x, c in terms.items() if c}
    m = tl.TLMor(top, bot, {x: to_lpoly(c) for x, c in terms.items()})
    got = read_text(repr(m))
    want = {('diag', x.top, x.bot, tuple(x.seq)): ('lpoly', c) for x, c in terms.items()}
    expect_eq(got, ('mor', top, bot, want), 'text form of a morphism')
    if top + bot:
        with recorder() as drawn:
            if drawn is not None:
                d._repr_html_()
                expect_eq(len(drawn), 1, 'number of pictures of a diagram')
                expect_eq(read_picture(drawn[0], top, bot), arcs_of(top, bot, seq), 'the picture of a diagram')
                page = m._repr_html_()
                pieces = re.findall(r'\$\(?([^$()]*?)\)?\$\s*(?:<[^>]*>)*?<svg(\d+)/>', page)
                expect_eq(len(pieces), len(terms), 'number of terms of a morphism shown')
                shown = {read_picture(drawn[int(k)], top, bot): parse(c, 'v', True) for c, k in pieces}
                expect_eq(shown, {arcs_of(x.top, x.bot, x.seq): c for x, c in terms.items()}, 'the terms of a morphism shown')
    obs.nontrivial(top + bot >= 4)


coef = st.one_of(st.sampled_from([1, -1, 1, -1, 2, -3]), st.integers(-12, 12), st.integers(-2**70, 2**70))
poly = st.lists(st.tuples(st.one_of(st.sampled_from([0, 1, -1]), st.integers(-12, 12)), coef).map(list), max_size=5)


@st.composite
def diagram_case(draw):
    n = 2 * draw(st.integers(0, 5))
    bot = draw(st.integers(0, n))
    bits, seq, stack = draw(st.integers(0, 2**40)), [None] * n, []
    for i in range(n):
        left = n - i
        if stack and (len(stack) == left or bits >> i & 1):
            j = stack.pop()
            seq[i], seq[j] = j, i
        else:
            stack.append(i)
    return dict(top=n - bot, bot=bot, seq=seq, bubbles=draw(st.integers(0, 3)), coef=draw(poly), terms=draw(st.lists(st.tuples(st.integers(0, 200), poly).map(list), max_size=3)))


# Large things, made from a seed.

def few_or_many(rand, most):
    return rand.randrange(int(most ** rand.random()) + 1)


def big_poly(rand, most=300):
    return [[rand.randrange(-most, most + 1), rand.choice([1, -1, 2, -7, 10**6, -10**25])] for _ in range(few_or_many(rand, most))]


def big(kind, seed):
    rand = random.Random(seed)
    if kind == 'poly':
        return dict(poly=big_poly(rand))
    if kind == 'rows':
        return dict(lazy=rand.random() < .5, items=[rand.choice([rand.randrange(-10**4, 10**4), 'alpha', 'beta', [[i, 1]]]) for i in range(rand.randrange(20, 400))])
    if kind == 'matrix':
        shape = [rand.randrange(1, 45), rand.randrange(1, 45)]
        if rand.random() < .5:
            shape[rand.randrange(2)] = rand.randrange(1, 4)
        return dict(shape=shape, data=[[rand.choice([0, 1, rand.randrange(-10**9, 10**9), big_poly(rand, 4)]) for _ in range(shape[1])] for _ in range(shape[0])])
    if kind == 'braid':
        n = rand.choice([3, 3, 4, 5])
        return dict(n=n, word=[[rand.randrange(n - 1), rand.choice([1, 1, 1, -1])] for _ in range(rand.randrange(30, 400))])
    if kind == 'factors':
        n = rand.randrange(7, 40)
        perm = list(range(n))
        rand.shuffle(perm)
        blocks, stack = [], []
        for i in range(n):                       # a noncrossing partition: open a block, or add to one which is still open
            while stack and rand.random() < .4:
                stack.pop()
            if stack and rand.random() < .5:
                stack[-1].append(i)
            else:
                stack.append([i])
                blocks.append(stack[-1])
        return dict(n=n, perm=perm, part=blocks, r=rand.randrange(n), p=rand.choice([0, 5]))
    size = 2 * rand.randrange(6, 40)
    bot = rand.randrange(size + 1)
    return dict(top=size - bot, bot=bot, seq=list(gens.matching_from(size, [rand.randrange(1000) for _ in range(size)])), bubbles=rand.randrange(500), coef=big_poly(rand, 20),
                terms=[[rand.randrange(10**6), big_poly(rand, 20)] for _ in range(rand.randrange(60))])


def check_big(case, obs):
    kind = case['kind']
    {'poly': check_poly, 'rows': check_rows, 'matrix': check_matrix, 'braid': check_braid, 'factors': check_factors, 'diagram': check_diagram}[kind](big(kind, case['seed']), obs)
    obs.label(kind)


TESTS = [
    Test('big', lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['poly', 'rows', 'matrix', 'braid', 'factors', 'diagram']), seed=st.integers(0, 10**9))), check_big, quick=600, thorough=8000, shards=2),
    Test('polynomials', lambda: st.fixed_dictionaries(dict(poly=poly)), check_poly, quick=500, thorough=10000, shards=2),
    Test('matrices', lambda: st.tuples(st.integers(0, 4), st.integers(0, 4)).flatmap(lambda s: st.fixed_dictionaries(dict(
        shape=st.just(list(s)), data=st.lists(st.lists(st.one_of(coef, st.just(0), poly), min_size=s[1], max_size=s[1]), min_size=s[0], max_size=s[0])))), check_matrix, quick=200, thorough=4000, shards=2),
    Test('rows', lambda: st.fixed_dictionaries(dict(items=st.lists(st.one_of(poly, st.integers(-99, 99), st.sampled_from(['alpha', 'beta', 'gamma'])), max_size=5), lazy=st.booleans())), check_rows, quick=150, thorough=2000),
    Test('braids', lambda: gens.with_n([2, 3, 4, 4, 5], lambda n: dict(word=gens.word(n, 20))), check_braid, quick=150, thorough=3000, shards=2),
    Test('braids6', lambda: gens.with_n([6], lambda n: dict(word=gens.word(n, 30))), check_braid, quick=60, thorough=1000),
    Test('factors', lambda: gens.with_n([2, 3, 4, 5, 6], lambda n: dict(perm=gens.perm(n), part=gens.ncpart(n), r=st.integers(0, 3), p=st.sampled_from([0, 2, 5, 101]))), check_factors, quick=150, thorough=3000),
    Test('diagrams', diagram_case, check_diagram, quick=200, thorough=4000, shards=2),
]
