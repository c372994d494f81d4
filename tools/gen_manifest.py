"""
Writes properties.jsonl and MANIFEST.json from the table below.   python3 tools/gen_manifest.py
"""
import ast
import json
import os
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('PBT_REPO', '/repo'))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, technique=technique, observe=list(observe)))


B, J, M = 'peyl/braid.py', 'peyl/jonesrep.py', 'peyl/polymat.py'

prop('C01', 'Normal forms decide the word problem',
     'Two words in the standard generators have equal normal forms, of either kind, exactly when they are the same braid. '
     'Equality, hashing and the trivial braid test all agree with this.',
     ['inputs'], 'all pairs of words in the braid group on n strands, for every n the tables can be built for (1 to 6 here, and larger n for dual normal forms)',
     'The tests compare a few fixed words and random products with a positive lift; the property is about all pairs of words, including '
     'long ones which are equal for non-obvious reasons and ones which differ by an element of a deep commutator subgroup.',
     [B], [('normal forms of a sequence of factors', f'{B}:NFTable.normalise_factors'), ('products of normal forms', f'{B}:NFTable.product_normalised_factors'), ('normal form of a word (Garside)', f'{B}:GNF.from_artin_word'),
           ('normal form of a word (dual Garside)', f'{B}:DGNF.from_artin_word')],
     'Generated pairs of words, equal by construction or not, against a faithful action on integral laminations, which is an implementation of a different theorem. Sampling: no claim beyond the sizes generated.',
     'property-based testing against a faithful independent action (Dynnikov coordinates)', ['equality and hash of braid values'])

prop('C02', 'Every braid value is a well-formed normal form of what it was built from',
     'However a braid value is made (from a word, from a sequence of simple factors, from one generator, or by random sampling) its decomposition is a power of the Garside element '
     'followed by non-trivial proper factors, each consecutive pair left-weighted, and it multiplies out to the braid it was made from.',
     ['inputs'], 'all n, all words with any integer exponents, and all sequences of simple elements, trivial and longest ones included',
     'Tests check a handful of sequences; left-weightedness must survive every cascade of factors combining, cancelling or turning into Garside elements.',
     [B, 'peyl/permutations.py', 'peyl/noncrossing.py'],
     [('table of left-weighted pairs and of their renormalisation', f'{B}:PermTable.create'), ('dual table', f'{B}:NParTable.create'), ('bubbling of factors', f'{B}:NFTable.normalise_factors'), ('generators', f'{B}:NFBase.artin_gens')],
     'The left-weighted condition and the value are both decided from first principles (descent sets, complements, lamination action). Sampling.',
     'property-based testing against first-principles left-weightedness and a faithful action', ['canonical decomposition of a braid'])

prop('C03', 'Products, inverses and powers of braids are the group operations',
     'The product, inverse and any integer power of normal forms are the normal forms of the product, inverse and power of the braids they denote. '
     'Group laws hold exactly for all operands, Garside powers of either sign included.',
     ['inputs'], 'all pairs of braids, both kinds of normal form, all integer exponents',
     'Tests multiply a few random braids; conjugation by the Garside element depends on the parity or residue of powers and products can cascade through every factor.',
     [B], [('product', f'{B}:NFBase.__mul__'), ('inverse', f'{B}:NFBase.inv'), ('power', f'{B}:NFBase.__pow__'), ('early exit of renormalisation', f'{B}:NFTable.product_normalised_factors')],
     'Every result is checked to be a normal form, with the lamination action of the concatenated word. Sampling over sizes up to 12 factors and powers to 12 (large powers for periodic braids).',
     'property-based testing: algebraic laws and a faithful action')

prop('C04', 'Conversions between normal forms and words lose nothing',
     'Converting a braid between Garside and dual Garside normal forms, to words in the generators, or to the words of another computer algebra system and back gives the same braid, with the same Garside power and factors.',
     ['inputs'], 'all braids of both kinds, Garside powers from -30 to 30 and more',
     'Tests convert a few positive braids; the two Garside elements have different orders of centrality, so that errors appear only for particular residues of the power.',
     [B], [('factors in terms of dual factors', f'{B}:GNF._factors_to_DGNF'), ('and back', f'{B}:DGNF._factors_to_GNF'), ('words', f'{B}:NFBase.artin_word'), ('Magma words', f'{B}:NFBase.magma_artin_word')],
     'Round trips and a faithful action. Sampling.', 'property-based testing: round trips and a faithful action')

prop('C05', 'Enumeration, counts, descendants, suffixes and samples of normal forms',
     'The enumeration of braids of a given canonical length gives every one exactly once and its count is the number given by the counting function; the descendants of a braid are exactly the braids extending its normal form by some factors, '
     'and its suffixes exactly the left-weighted sequences which may follow it. Random sampling returns only such braids and can return each of them.',
     ['inputs', 'configurations'], 'all n, lengths and Garside powers; counts for lengths far beyond what can be enumerated',
     'Tests compare a few counts; there is no check that enumeration, counting and extension agree with the definition for all n, lengths and powers.',
     [B], [('enumeration', f'{B}:NFTable.normal_forms'), ('counting', f'{B}:NFTable.count_normal_forms'), ('sampling', f'{B}:NFTable.sample'), ('descendants', f'{B}:NFBase.nf_descendants'), ('suffixes', f'{B}:NFBase.nf_suffixes')],
     'Exhaustive comparison with sets worked out from the definition where they are small, transfer-matrix counts beyond. The distribution of samples is only compared by its support.',
     'exhaustive and generated comparison with first-principles enumeration')

prop('C06', 'Exact evaluation is the two-row representation of the braid group',
     'The exact matrix of a braid, word, permutation or noncrossing partition in a two-row representation is the one of its action on link states with generators acting by 1 - v e, over the integers or mod a prime. '
     'It depends only on the braid, and is multiplicative.',
     ['inputs', 'configurations'], 'all (n, r, p), all braids given in all supported forms',
     'Tests check braid relations of the generators for a few parameters; agreement with the definition for every parameter and object is not tested.',
     [J, 'peyl/tl.py'], [('cell modules', f'{J}:cell_matrix'), ('evaluation', f'{J}:RepBase.evaluate_artin_word'), ('representation', f'{J}:JonesCellRep')],
     'Against an independent link-state model. Sampling.', 'property-based testing against a link-state reference model')

prop('C07', 'Fast evaluation agrees with exact evaluation, whatever the batch',
     'Evaluating braids as arrays of coefficients, alone or in a batch, gives the exact matrix of each up to a power of v, with entries reduced to the coefficient ring. The answer for one braid does not depend on the others in the batch.',
     ['inputs', 'configurations'], 'all batches of braids of one canonical length with any Garside powers, all representations',
     'Tests evaluate small random batches mod one or two primes; batching uses caches, common powers and shared paddings which matter only for particular mixtures.',
     [J, M], [('powers of the Garside element', f'{J}:RepBase._polymat_delta_power'), ('one braid', f'{J}:RepBase.polymat_evaluate_braid'), ('batches', f'{J}:RepBase.polymat_evaluate_braids_of_same_length'), ('factor indices', f'{J}:RepBase.polymat_evaluate_braid_integers_of_same_length')],
     'Against an independent link-state model divided by its lowest power. Sampling; p = 0 within 62-bit coefficients, primes up to 4001.',
     'property-based testing: differential against a link-state reference model')

prop('C08', 'The batch evaluators of the exhaustive search agree with exact evaluation',
     'Each batch evaluation routine used in searching returns, in the order of its arguments, the image of each braid up to a power of v, for batches of equal or of mixed lengths, and for all prefixes of braids.',
     ['inputs', 'configurations'], 'all batches of normal forms of any mixture of lengths and powers, all representations',
     'Tests use fixed sets of random braids; order and padding in mixed batches are not settled by them.',
     ['peyl/braidsearch.py'], [('tables of symmetric factors', 'peyl/braidsearch.py:symmetric_table'), ('same length', 'peyl/braidsearch.py:evaluate_braids_of_same_length'), ('prefixes', 'peyl/braidsearch.py:evaluate_prefixes_of_same_length'), ('mixed lengths', 'peyl/braidsearch.py:evaluate_braids')],
     'Against an independent link-state model. Sampling.', 'property-based testing: differential against a link-state reference model')

prop('C09', 'Arrays of polynomial matrices multiply, pack, pad, trim and convert exactly',
     'Arrays of polynomial matrices behave as the polynomial matrices they denote: products are exact, and changes of degree bounds, of shape of the batch, or conversion to and from exact matrices do not change the value.',
     ['inputs'], 'all shapes, batch shapes with broadcasting, degree bounds, integer types, moduli',
     'Tests multiply a few random arrays; strided convolution and degree bookkeeping fail only for particular shapes and zero patterns.',
     [M], [('products', f'{M}:mul'), ('packing', f'{M}:pack'), ('padding and trimming', f'{M}:trim')],
     'Against lists of polynomials. Sampling within the integer types.', 'property-based testing against a list-of-polynomials model')

prop('C10', 'Projective statistics depend on the matrix up to a power of v only',
     'Projective length, number of terms, valuations, ranks, first and last coefficients and the test of being a multiple of the identity are those of the matrix up to a power of v, for single matrices and each matrix of a batch alike.',
     ['inputs'], 'all arrays of polynomial matrices, zero matrices included where the statistic has a value',
     'Tests use a few matrices which fill their degree range, where most mistakes in offsets do not show.',
     [M], [('normalisation', f'{M}:projectivise'), ('projective length', f'{M}:projlen'), ('other statistics', f'{M}:degmax')],
     'Against direct computation from coefficients, and invariance under multiplication by powers of v. Sampling.', 'property-based testing: reference statistics and metamorphic shifts')

prop('C11', 'Whatever the history of a search, every entry in a bucket is sound',
     'After any sequence of offers, descents, bootstraps, discards and validations, every braid kept by a search is stored with its own image up to a power of v, in the bucket given by its statistics, and counts describe the contents.',
     ['histories', 'configurations'], 'all histories of operations on a tracker, all reservoir methods, capacities, bucket keys, representations',
     'Tests run one short search; a mismatch of braids and images appears only after particular sequences of replacements and offsets.',
     ['peyl/bucketing.py'], [('replacement in a bucket', 'peyl/bucketing.py:Bucket.replace_braid'), ('offers', 'peyl/bucketing.py:Tracker.add_braids_images'), ('descents', 'peyl/bucketing.py:Tracker.nf_descendants')],
     'Each entry is recomputed independently after each step of generated histories. Sampling.', 'model-based testing of operation histories, entries recomputed independently')

prop('C12', 'Nothing offered to a search is lost except by its reservoir rule',
     'Every braid offered to a search, directly, as a descendant, or by exhaustive enumeration, is counted in its bucket and kept if there is room; when a bucket overflows, exactly the rule of the chosen reservoir decides what is kept. '
     'A descent offers every descendant exactly once.',
     ['histories', 'configurations'], 'all histories, reservoir methods, capacities',
     'Tests check that a search finds a known element once; completeness over all histories is not tested.',
     ['peyl/bucketing.py'], [('reservoir rules', 'peyl/bucketing.py:Tracker.add_braids_images'), ('descents', 'peyl/bucketing.py:Tracker.nf_descendants'), ('exhaustive bootstrap', 'peyl/bucketing.py:Tracker.bootstrap_exhaustive')],
     'Against a model which knows everything offered, with descendants found by reference automata. For random reservoirs only membership and size here; fairness is C14.', 'model-based testing of operation histories')

prop('C13', 'The exhaustive searcher keeps sound buckets and loses nothing',
     'In the exhaustive searcher every bucket entry is a braid with its own image and statistics, entries which satisfy the criterion are all kept up to the capacity in order of arrival, and products, substrings and descents of buckets are what they are called.',
     ['histories', 'configurations'], 'all histories of operations, criteria, capacities, with and without random reservoirs',
     'Tests bootstrap one tracker; later operations over arbitrary histories are not tested.',
     ['peyl/braidsearch.py'], [('offers', 'peyl/braidsearch.py:Tracker.add_braids_images'), ('products', 'peyl/braidsearch.py:Tracker.bucket_product'), ('descents', 'peyl/braidsearch.py:Tracker.nf_descendants'), ('substrings', 'peyl/braidsearch.py:Tracker.substrings')],
     'Against a model, entries recomputed independently. Sampling.', 'model-based testing of operation histories')

prop('C14', 'What survives in a full bucket is a fair sample of what was offered',
     'With a random reservoir, each braid offered to a bucket is kept with the probability the method promises (equal, or in proportion to its weight), independently of how the offers were divided into batches and of the order of arrival.',
     ['inputs', 'histories'], 'all streams, divisions into batches, capacities and weights',
     'A deterministic test cannot see a bias; an off-by-one in a reservoir leaves every example looking plausible.',
     ['peyl/bucketing.py', 'peyl/braidsearch.py'], [('uniform and weighted reservoirs', 'peyl/bucketing.py:Tracker.add_braids_images'), ('reservoir of the exhaustive searcher', 'peyl/braidsearch.py:Tracker.add_braids_images')],
     'Statistical: 1500 or more trials per stream and bounds of 6.5 standard deviations, seeded. Small biases are not seen.', 'property-based statistical testing over generated streams')

prop('C15', 'The search script prints and saves the truth, all of it, reproducibly',
     'Every element the search script prints or saves is what it says, a search in which nothing overflows prints and saves everything there is to find, the same arguments give the same output, and a run stopped at any moment leaves a database with whole, true rows.',
     ['inputs', 'configurations', 'crash_points'], 'all command lines within the stated limits, and all moments of stopping',
     'No existing test runs the script.',
     ['search.py'], [('main loop and saving', 'search.py:main')],
     'Runs in child processes, against a model of the search. Stops are at output events and at random delays, with a kill signal. Sampling over small parameters.', 'property-based end-to-end testing with injected kills, against a reference search')

prop('C16', 'Laurent polynomials are a ring, exactly',
     'Laurent polynomials with integer coefficients add, subtract, multiply, raise to powers, divide exactly, evaluate, compare and hash as the ring they are, with integers of any size on either side of an operation.',
     ['inputs'], 'all polynomials, all sequences of operations', 'Tests use a few small polynomials; trimming of zero ends and offsets must hold for every cancellation.',
     ['peyl/lpoly.py'], [('addition', 'peyl/lpoly.py:LPoly.__add__'), ('product', 'peyl/lpoly.py:LPoly.__mul__'), ('division', 'peyl/lpoly.py:LPoly.__truediv__')],
     'Against dictionaries of exponents. Sampling.', 'property-based testing of operation sequences against a dictionary model')

prop('C17', 'Integer polynomials are a ring with correct division and special polynomials',
     'Polynomials with integer coefficients compute exactly, division with remainder satisfies its identity and degree bound, and cyclotomic, Chebyshev and minimal polynomials of cosines are the right ones, in whatever order asked for.',
     ['inputs', 'histories'], 'all polynomials; all indices of special polynomials, in every order of requests', 'Tests use a table of small cases.',
     ['peyl/poly.py'], [('division', 'peyl/poly.py:Poly.__divmod__'), ('special polynomials', 'peyl/poly.py:Poly.cyclotomic')],
     'Against a dictionary model, Moebius and closed formulas. Sampling and exhaustive small indices.', 'property-based testing against closed formulas and a dictionary model')

prop('C18', 'Matrices are immutable and compute as the matrix algebra',
     'Matrices over integers or Laurent polynomials multiply, transpose, take powers, traces, rows, columns and entries exactly, for every shape including empty ones; operations which do not make sense are refused, and no operation changes its operands.',
     ['inputs'], 'all shapes and entries', 'Tests use a few 2 by 2 examples.',
     ['peyl/matrix.py'], [('products', 'peyl/matrix.py:Matrix.__mul__'), ('powers', 'peyl/matrix.py:Matrix.__pow__'), ('bounds', 'peyl/matrix.py:Matrix._checkbounds')],
     'Against lists of lists. Sampling.', 'property-based testing against a list-of-lists model')

prop('C19', 'Permutations: group, Coxeter structure, words and cycles',
     'Composition, inverses, lengths, descent sets, least reduced words, cycles, parity and the recognition of permutations and of products of parallel descending cycles agree with their definitions.',
     ['inputs'], 'all permutations of any number of points', 'Tests check a few permutations or all of a small group for some of the functions.',
     ['peyl/permutations.py'], [('least reduced words', 'peyl/permutations.py:shortlex'), ('parallel descending cycles', 'peyl/permutations.py:is_parallel_descending_cycles'), ('cycles', 'peyl/permutations.py:disjoint_cycles')],
     'Against first principles, exhaustive for few points and sampled up to 9 and beyond.', 'property-based testing against first principles')

prop('C20', 'Noncrossing partitions: recognition, enumeration, complements and lifts',
     'Exactly the noncrossing partitions are accepted, all of them are listed once, their two complements complete them to the dual Garside element, and their braid words are the braids they stand for.',
     ['inputs'], 'all noncrossing partitions, all families of sets', 'Tests check counts and one complement.',
     ['peyl/noncrossing.py'], [('recognition', 'peyl/noncrossing.py:NPar.from_components'), ('complements', 'peyl/noncrossing.py:NPar.left_complement'), ('words', 'peyl/noncrossing.py:NPar.artin_word')],
     'Complements are decided by the braid identity under a faithful action. Exhaustive for few points, sampled beyond.', 'property-based testing against first principles and a faithful action')

prop('C21', 'Temperley-Lieb diagrams compose, juxtapose, flip and enumerate correctly',
     'Composition of crossingless matchings follows the strands and counts the loops it closes, juxtaposition and flipping are as pictured, and exactly the crossingless matchings are recognised and enumerated, each once.',
     ['inputs'], 'all diagrams of all types', 'Tests check a few compositions.',
     ['peyl/tl.py'], [('composition', 'peyl/tl.py:compose'), ('enumeration', 'peyl/tl.py:generate_sequences'), ('recognition', 'peyl/tl.py:is_crossingless_matching')],
     'Against paths in a graph. Exhaustive for few points, sampled up to 12.', 'property-based testing against a graph model')

prop('C22', 'Temperley-Lieb morphisms, cell modules and traces',
     'Linear combinations of diagrams form a category with the stated loop value, their actions on cell modules are representations, their Markov trace has the trace property, and braid generators satisfy the braid relations.',
     ['inputs'], 'all morphisms of all types, all cell modules', 'Tests check relations for a few generators.',
     ['peyl/tl.py'], [('products of morphisms', 'peyl/tl.py:TLMor.__mul__'), ('cell modules', 'peyl/tl.py:TLCell.project_leftmult_matrix'), ('Markov trace', 'peyl/tl.py:TLMor.trace')],
     'Against a model of sets of arcs. Sampling.', 'property-based testing against a model of sets of arcs')

prop('C23', 'Published kernel elements, and everything made from them, act trivially',
     'The published kernel elements are non-trivial braids which act as the identity up to a power of v, and so do products of conjugates of their powers; multiplying by one does not change the image of any braid, by any way of evaluating.',
     ['inputs'], 'the published elements and the normal closure they generate', 'Tests evaluate one or two of the elements.',
     [J, B, M], [('evaluation', f'{J}:RepBase.polymat_evaluate_braids_of_same_length'), ('normal forms', f'{B}:NFTable.normalise_factors')],
     'Pinned published data, with elements of their normal closure generated. Sampling; braids of length up to some hundreds of factors.', 'property-based metamorphic testing from published data')

prop('C24', 'Input outside the domain of an operation is refused',
     'Operations given values outside their domain (mixed numbers of strands, indices out of range, non-permutations, crossing partitions, mismatched shapes, inexact divisions, bad command lines) raise an error and change nothing, while values inside the domain are accepted.',
     ['inputs'], 'for each operation, values just outside and just inside its domain', 'A few of the guards are tested with one value.',
     [B, J, M, 'peyl/matrix.py', 'peyl/permutations.py', 'peyl/noncrossing.py', 'peyl/tl.py', 'search.py'],
     [('validation on construction', f'{B}:NFBase.__post_init__'), ('bounds', 'peyl/matrix.py:Matrix._checkbounds')],
     'Generated values on both sides of each boundary; the domain is the one stated or enforced by the code. Sampling.', 'property-based boundary and robustness testing')

prop('C25', 'Braids which are stored, copied or used as keys stay the same braids',
     'A braid written as text, saved in a database or pickled reads back as an equal braid of the same kind in this or any other process, also if it was saved by an earlier version; equality, hashing and order are consistent.',
     ['inputs', 'histories'], 'all braids, with Garside powers of any size', 'No test uses the database; one or two check text.',
     [B, 'search.py'], [('adapter', f'{B}:adapt_braid'), ('converter', f'{B}:convert_braid')],
     'Round trips within and across processes with different hash seeds, and a stock of pinned stored forms. Sampling.', 'property-based round trips across processes and a pinned stock')

prop('C26', 'Results do not depend on what was computed before',
     'The answer to any query is the same in a fresh process and after any other queries in any order, arguments and results given earlier do not change, and seeded randomness uses only the generator it is given.',
     ['histories'], 'all sequences of queries over the package', 'Tests run in one order in one process; many results are cached, and cached arrays are shared.',
     [B, J, 'peyl/tl.py', 'peyl/poly.py', 'peyl/braidsearch.py'], [('caches of suffixes and counts', f'{B}:NFTable.normal_forms'), ('caches of factors', f'{J}:RepBase._polymat_braid_factor'), ('tables', f'{B}:PermTable.create')],
     'Each query alone in a forked process with cold caches, against the same in sequence and in reverse. Sampling.', 'model-based differential testing of query histories across fresh processes')

prop('C27', 'The Lawrence-Krammer-Bigelow representation is the published one',
     'Words, normal forms, permutations and partitions evaluate in the Lawrence-Krammer-Bigelow representation to products of the published matrices and their inverses, exactly and as arrays up to a power of v, for all parameters.',
     ['inputs', 'configurations'], 'all n, parameters which are plus or minus powers of v, moduli, all braids', 'Tests check one relation.',
     [J], [('representation', f'{J}:LKBRep')],
     'Against an independent implementation of the published matrices. Sampling for n up to 5.', 'property-based testing against a reference implementation')

prop('C28', 'What is displayed says what the value is',
     'Text, LaTeX, HTML and pictures of polynomials, matrices, braids, permutations, partitions, diagrams and morphisms can be read back, by the conventions of their notation, to the value displayed.',
     ['inputs'], 'all values of these types', 'Tests compare a few strings.',
     ['peyl/lpoly.py', 'peyl/poly.py', 'peyl/matrix.py', 'peyl/tl.py', B, 'peyl/show.py'], [('polynomials', 'peyl/lpoly.py:LPoly.fmt'), ('matrices', 'peyl/matrix.py:Matrix.__repr__')],
     'Independent parsers of the notations. Pictures are observed through a recording stand-in for the missing svg library. Sampling.', 'property-based round trips through independent parsers')


def line_of(where):
    """The line on which something is defined now, from file:name or file:class.name."""
    file, name = where.split(':')
    body = ast.parse((REPO / file).read_text()).body
    for part in name.split('.'):
        node = next(x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part)
        body = node.body
    return f'{file}:{node.lineno}'


def main():
    lines, checks = [], []
    for p in P:
        assert len(p['title']) <= 80, p['title']
        lines.append(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=line_of(b)) for a, b in p['mechanism']],
                         **({'observe_at': p['observe']} if p['observe'] else {}), hook_needed=None))))
        checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                           technique=p['technique'], level='exploration', level_note=p['note']))
    (VERIF / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    (VERIF / 'MANIFEST.json').write_text(json.dumps(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[]), indent=1) + '\n')


main()
