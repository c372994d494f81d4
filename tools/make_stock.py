"""Write pbt/data/stored.json: braids as the pinned version stores them, with their canonical decompositions.  Run once."""
import json
import pathlib
import random
import sys

sys.path.insert(0, '/repo')
sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
from peyl import DGNF, GNF  # noqa: E402
from peyl.braid import adapt_braid  # noqa: E402

rand = random.Random(20)
out = []
for n, count in [(1, 2), (2, 8), (3, 60), (4, 120), (5, 160), (6, 50)]:
    for i in range(count):
        for cls in (GNF, DGNF):
            if n == 1:
                b = cls(1, i, ()) if cls is GNF else cls(1, 0, ())
            else:
                b = cls(n, rand.randint(-9, 9), ()) * cls.from_artin_word(n, [(rand.randrange(n - 1), rand.choice([1, 1, 1, -1])) for _ in range(rand.randint(0, 30))])
            power, factors = b.canonical_decomposition()
            out.append([adapt_braid(b), [cls.__name__, n, power, [list(x.word) if cls is GNF else sorted(sorted(c) for c in x.components()) for x in factors]]])
path = pathlib.Path(__file__).parent.parent / 'pbt' / 'data' / 'stored.json'
path.write_text('[\n' + ',\n'.join(json.dumps(x) for x in out) + '\n]\n')
