"""Nothing to build: check that what the checks need is there."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import boot  # noqa: E402

boot.check_repo()
import rsm  # noqa: E402
import tree_sitter_rsm  # noqa: E402,F401

assert "<body>" in rsm.render(":rsm:\n\nHello.\n\n::\n")
os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
print("ready")
