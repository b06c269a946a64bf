"""C10: the table of contents mirrors the sections."""
import common  # noqa: F401
import dom
import harness
import hr
import refmodel
import run
import suites
from harness import V
from suites import DocSuite


class Contents(DocSuite):
    name = "contents"
    quick, thorough = 5000, 150000
    rule = ("a manuscript with a table of contents and sections of three levels (numbered or not, in the appendix, titled with "
            "any text); the entries, their nesting, texts and links must be those of the model, and no second table is "
            "shown; non-trivial: subsections present")
    weights = dict(p_toc=100, sections=6, p_sections=97, blocks=2, words=3, p_label=60, p_nonum=20, p_appendix=30, p_tocin=4, depth=1)
    vary = [dict(p_toc=10, p_tocin=25), dict(p_label=0), dict(p_label=100), dict(p_nonum=60), dict(p_sections=0), dict(p_appendix=95), dict(markup=8, escaped=8)]
    proj = staticmethod(suites.subtree("toc", "contents"))
    kind = "contents differ"

    def check(self, case, src, ref):
        html, _ = run.render(src)
        exp = refmodel.expected(case["doc"], ref)
        self.compare(exp, html)
        full, _ = run.render(src, handrails=True)
        froot = run.parsed(full)
        d = suites.first_diff(self.proj(dom.canon(hr.strip(exp))), self.proj(dom.canon(hr.strip(froot))))
        if d:
            raise V(self.kind + " with handrails", d)
        if any(n["k"] == "toc" for n in ref.order):
            # one dot of the minimap per entry, leading to the same section
            secs = ["#" + ref.label.get(id(n), "") for n in ref.order if n["k"] == "section"]
            for m in froot.find(cls="float-minimap-wrapper"):
                got = [a.attrs.get("href", "") for a in m.find(tag="a")]
                if got != secs:
                    raise V("minimap differs", f"expected {secs}, found {got}")
            if len(froot.find(cls="float-minimap-wrapper")) != 1:
                raise V("minimap missing", "")

    def nontrivial(self, case, ref, c):
        return any(n["k"] == "section" and n["a"]["level"] > 2 for n in ref.order)


if __name__ == "__main__":
    raise SystemExit(harness.main("C10", [Contents()]))
