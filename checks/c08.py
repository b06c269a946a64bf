"""C08: citations, bibliography and back references agree."""
import common  # noqa: F401
import dom
import harness
import hr
import refmodel
import run
import suites
from harness import V
from suites import DocSuite


class Citations(DocSuite):
    name = "citations"
    quick, thorough = 1800, 120000
    rule = ("a manuscript with citations (one or several keys, repeated, unknown) in paragraphs, lists, captions, tables, notes "
            "and proofs, and a bibliography; the citations, the entries and the back references of the page must be those of "
            "the model, plain and with handrails; non-trivial: an entry cited more than once")
    weights = dict(cite=16, p_bib=95, p_unknown=8, p_manytargets=50)
    vary = [dict(p_unknown=40), dict(p_manytargets=0), dict(p_manytargets=100), dict(table=9, figure=9), dict(proof=12),
            dict(list=12, note=6), dict(p_bib=30), dict(p_dup=30), dict(thm=12), dict(span=7, strong=7, emphas=7)]
    proj = staticmethod(suites.citations)
    kind = "citations differ"

    def check(self, case, src, ref):
        html, _ = run.render(src)
        exp = refmodel.expected(case["doc"], ref)
        self.compare(exp, html)
        full, _ = run.render(src, handrails=True)
        d = suites.first_diff(self.proj(dom.canon(hr.strip(exp))), self.proj(dom.canon(hr.strip(run.parsed(full)))))
        if d:
            raise V(self.kind + " with handrails", d)
        # each back reference leads to a citation of that entry
        root = run.parsed(html)
        by = {e.id: e for e in root if e.id}
        for item in root.find(cls="bibitem"):
            for b in item.find(cls="backlink"):
                src_el = by.get(b.attrs["href"][1:])
                if src_el is None:
                    raise V("dead back reference", b)
                hrefs = [e.attrs.get("href") for e in src_el if e.tag == "a"]
                if "#" + item.id not in hrefs:
                    raise V("back reference to another citation", (item.id, hrefs))

    def nontrivial(self, case, ref, c):
        return any(len(v) > 1 for v in ref.backlinks.values())


if __name__ == "__main__":
    raise SystemExit(harness.main("C08", [Citations()]))
