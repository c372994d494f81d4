"""Extract the published kernel elements from /repo's README.md and notebook into pbt/data/kernel.json (run once)."""
import ast, json, re, pathlib
out = []
nb = json.load(open('/repo/p=5 kernel elements.ipynb'))
src = '\n'.join(''.join(c['source']) for c in nb['cells'] if c['cell_type'] == 'code')
for name, n, p, k, r in (('a', 4, 5, -27, 1), ('b', 4, 5, -29, 1), ('c', 4, 5, -33, 1), ('d', 6, 0, -14, 1)):
    i = src.index(name + '_seq = ') + len(name + '_seq = ')
    text = src[i:].replace('Permutation(word=', '(')
    depth = 0
    for j, ch in enumerate(text):
        depth += ch in '(['
        depth -= ch in ')]'
        if depth == 0:
            break
    seq = ast.literal_eval(text[:j + 1])
    out.append(dict(name=f'notebook {name}', n=n, r=r, p=p, power=k, perms=[list(x) for x in seq]))
readme = open('/repo/README.md').read()
seen = set()
for m in re.finditer(r'\(n=(\d), r=(\d), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form (.*)\)\n', readme):
    n, r, p, L = map(int, m.groups()[:4])
    power, perms = ast.literal_eval(m.group(5) + ')')
    assert len(perms) == L
    out.append(dict(name=f'README p={p} length {L}', n=n, r=r, p=p, power=-4 if p == 2 else -33, perms=[list(x) for x in perms]))
pathlib.Path('/verif/pbt/data/kernel.json').write_text('[\n' + ',\n'.join(json.dumps(x) for x in out) + '\n]\n')
