"""C15: equivalent notations give the same page."""
import common  # noqa: F401
import random

import docgen
import harness
from c12 import Layout


class Notations(Layout):
    name = "notations"
    quick, thorough = 1400, 80000
    rule = ("a generated manuscript printed with the shorthands (# and ## headings, *strong*, /emphasis/, $math$, `code`, $$, ```, "
            ":tr: a : b ::, :prev2:, bare paragraphs) or with the tags that stand for them; same pages, same trees; "
            "non-trivial: the sources differ in 5 lines or more")
    vary = [dict(strong=9, emphas=9), dict(math=9, code=9, mathblock=8, codeblock=8), dict(table=14), dict(proof=14, p_prev=90), {}]

    def other(self, case):
        st = docgen.Style(random.Random(case["other"]), comments=False, indent=False, metaorder=False, layout=False)
        return docgen.to_source(case["doc"], st)


if __name__ == "__main__":
    raise SystemExit(harness.main("C15", [Notations()]))
