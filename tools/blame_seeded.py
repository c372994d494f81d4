"""Lists planted bugs which remove or change lines that this project's own commits added to /repo."""
import pathlib
import re
import subprocess
import sys

base = sys.argv[1] if len(sys.argv) > 1 else '87a64a2'
for d in sorted((pathlib.Path(__file__).resolve().parent.parent / 'seeded').iterdir()):
    orig, new, f, ln = 0, 0, None, 0
    for l in (d / 'patch.diff').read_text().splitlines():
        if l.startswith('--- '):
            f = l[6:]
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=7', f'{base}..HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-'):
            if blame[ln - 1].startswith('^'):
                orig += 1
            else:
                new += 1
                print(d.name, 'own line:', l)
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if not orig:
        print(d.name, 'changes no original line' + (' (pure insertion)' if not new else ''))
