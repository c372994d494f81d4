"""
Import plumbing: the code under test comes from /repo's working tree, and the property-testing
library (hypothesis) from the sandbox's tooling venv, *without* exposing the rest of that venv
(it holds another numpy) to the interpreter the repository is pinned to.
"""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('PBT_REPO', '/repo')     # only tools/mutate.py and tools/try_bug.py set this, to work on scratch copies
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_ALLOWED = {
    'hypothesis', 'sortedcontainers', 'attr', 'attrs',
    '_hypothesis_globals', '_hypothesis_ftz_detector', '_hypothesis_pytestplugin',
}


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


def install():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if importlib.util.find_spec('hypothesis') is None:
        sys.meta_path.append(_ToolFinder)


install()
