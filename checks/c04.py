"""C04: the page has exactly the structure of the manuscript."""
import common  # noqa: F401
import harness
from suites import DocSuite


class Pages(DocSuite):
    name = "pages"
    quick, thorough = 5000, 400000
    rule = ("a generated manuscript (all block and inline constructs, random nesting and spelling); the page must equal "
            "the reference translation; non-trivial: at least 6 kinds of construct")
    vary = [dict(depth=5, blocks=3), dict(words=16), dict(blocks=9, sections=7), dict(p_nonum=50), dict(p_empty=40),
            dict(strong=9, emphas=9, span=9, construct=6), dict(proof=14), dict(list=14), dict(table=14), dict(p_pmath=60),
            dict(p_label=95), dict(p_types=70)]


if __name__ == "__main__":
    raise SystemExit(harness.main("C04", [Pages()]))
