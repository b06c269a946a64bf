"""Bootstrap: import the code under test from /repo and hypothesis from the tooling venv.

/opt/venv holds the runtime dependencies of rsm (tree_sitter 0.24 and its grammar); hypothesis
lives in /opt/veriftools/pyvenv.  Only hypothesis and what it needs are taken from there, so
that no other package of that venv can shadow a dependency of the code under test.
"""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("RSM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOW = {"hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
          "_hypothesis_globals", "sortedcontainers", "attr", "attrs"}

sys.dont_write_bytecode = True


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        top = name.partition(".")[0]
        if top in _ALLOW and path is None:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLVENV], target)
        return None


sys.meta_path.append(_ToolFinder)
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def check_repo():
    import rsm
    got = os.path.dirname(os.path.dirname(os.path.abspath(rsm.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise SystemExit(f"harness error: rsm imported from {got}, not {REPO}")
