"""Writes the table of planted bugs at the end of DESIGN.md.   python3 tools/gen_design.py"""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
MARK = '## Planted bugs\n'
MISSED = {
    'c12-batch-edge': 'bootstraps to length four with a model of what they offer', 'c13-product-order': 'products of buckets of unequal sizes',
    'c05-shared-buffer': 'enumerations advanced in between each other', 'c09-mul-float': 'entries whose products exceed 2^53',
    'c17-cyclotomic-flat': 'the first cyclotomic polynomial with a coefficient -2', 'c18-map-zeros': 'functions which do not fix zero',
    'c20-component-unsorted': 'components given in any order and container', 'c26-cache-dimension': 'several representations of a dimension in one history',
    'c08-batch-chunks': 'batches of thousands', 'c13-validate-first': 'spoiling one image anywhere in a bucket', 'c19-cycle-type-sort': 'permutations of up to 25 points',
    'c19-mask-64': 'words of up to 150 letters', 'c24-compose-longer': 'guards of functions and not only of constructors', 'c26-bkl-mutated': 'tables looked at again after groups were used',
    'c27-far-crossing': 'generators for up to eight strands',
}
MISSED.update(json.loads((VERIF / 'tools' / 'missed.json').read_text()) if (VERIF / 'tools' / 'missed.json').exists() else {})


def main():
    text = (VERIF / 'DESIGN.md').read_text().split(MARK)[0]
    out = [MARK, '\n',
           'Each is caught by the check of its own property (quick tier, seed 1). "Strengthened" says what was added to the check when it first missed the bug.\n\n',
           '| bug | property | needs | first missed, strengthened by |\n|---|---|---|---|\n']
    for d in sorted((VERIF / 'seeded').iterdir()):
        m = json.loads((d / 'meta.json').read_text())
        out.append(f"| {d.name} | {m['property']} | {m['needs']} | {MISSED.get(d.name, '')} |\n")
    (VERIF / 'DESIGN.md').write_text(text + ''.join(out))


main()
