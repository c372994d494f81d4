#!/bin/bash
# Checks the reference models against each other (nothing needs building: the code under test is pure Python).
set -e
cd "$(dirname "$0")"
chmod +x check
mkdir -p evidence replays
PY=/opt/venv/bin/python
PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 $PY - <<'E'
import pbt.env
from pbt import ref_braid, ref_poly, ref_tl
for m in (ref_braid, ref_poly, ref_tl):
    m.selftest()
    print(m.__name__, 'ok')
import pbt.engine
for i in range(1, 60):
    try:
        pbt.engine.load(f'C{i:02}')
    except ModuleNotFoundError:
        break
print(i - 1, 'checks load')
E
