"""C12: layout and comments carry no meaning."""
import common  # noqa: F401
import random
import re

import docgen
import harness
import run
import suites
from harness import V
from suites import DocSuite


class Layout(DocSuite):
    name = "layout"
    quick, thorough = 1400, 80000
    rule = ("a generated manuscript printed twice, the second time with other line breaks, blank lines, indentation, order of "
            "metadata, and comments between blocks, at the end of lines and on lines of their own; both pages must be the same "
            "(plain and with handrails), and so must the trees; non-trivial: the sources differ in 5 lines or more")
    styled = 0
    vary = [dict(para=14), dict(proof=14, p_prev=50), dict(table=9, figure=7, list=9), dict(thm=12), dict(uni=5, escaped=5, markup=5)]

    def gen(self, rng):
        case = super().gen(rng)
        case["style"] = None
        case["other"] = rng.randrange(10 ** 6)
        case["ic"] = rng.choice([0, .05, .2])
        case["eol"] = rng.choice(["\n", "\n", "\n", "\r\n"])
        return case

    def other(self, case):
        st = docgen.Style(random.Random(case["other"]), shorthand=False, inline_comments=case["ic"])
        return docgen.to_source(case["doc"], st).replace("\n", case["eol"])

    def show(self, case):
        return self.source(case) + "\n--- the same as\n" + self.other(case)

    def run(self, case):
        a, b = self.source(case), self.other(case)
        if not docgen.valid(case["doc"]) or not run.cst_clean(a) or not run.cst_clean(b):
            return {"skipped"}
        self.same(a, b, case["other"] % 4 == 0)
        out = {"with comments" if "% " in b else "no comments"}
        if "\r" in b:
            out.add("other ends of lines")
        if len(set(a.split("\n")) ^ set(b.split("\n"))) >= 5:
            out.add("!nontrivial")
        return out

    def same(self, a, b, rails):
        ta, tb = run.tree(a), run.tree(b)
        # a space may or may not be a text of its own
        d = suites.first_diff(*[re.findall(r"\((?!Text)\w+|\)", t.sexp().replace("(Text)", "")) for t in (ta, tb)])
        if d:
            raise V("trees differ", d)
        for hr in (False, True)[:1 + rails]:
            ha, _ = run.render(a, handrails=hr)
            hb, _ = run.render(b, handrails=hr)
            d = suites.first_diff(suites.full(suites.canon_html(ha)), suites.full(suites.canon_html(hb)))
            if d:
                raise V("pages differ", d)

    def shrink(self, case, fails):
        import shrink
        if case["ic"] and fails(dict(case, ic=0)):
            case = dict(case, ic=0)
        return dict(case, doc=shrink.shrink(case["doc"], lambda d: fails(dict(case, doc=d)), max_s=45))


if __name__ == "__main__":
    raise SystemExit(harness.main("C12", [Layout()]))
