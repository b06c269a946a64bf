"""C07: cross references say what they point to, and lead there."""
import common  # noqa: F401
import docgen
import harness
import hr
import refmodel
import run
import suites
import dom
from harness import V
from suites import DocSuite


class References(DocSuite):
    name = "references"
    quick, thorough = 1500, 120000
    rule = ("a manuscript full of references to labels before and after them, with and without a text of their own, to unknown "
            "labels, and links; link and text of each must be those of the model, in plain and handrails pages; non-trivial: "
            "a reference to a numbered node")
    weights = dict(ref=14, p_label=85, url=4, p_reftext=15, p_sections=90)
    vary = [dict(p_unknown=40), dict(p_overwrite=0), dict(p_dup=30), dict(proof=14, p_prev=70), dict(p_reftext=60),
            dict(p_appendix=90, sections=6), dict(p_nonum=40), dict(depth=5)]
    proj = staticmethod(suites.references)
    kind = "references differ"

    def gen(self, rng):
        case = super().gen(rng)
        if rng.random() < .3:
            add_refs(case["doc"], rng)
        return case

    def check(self, case, src, ref):
        html, _ = run.render(src)
        exp = refmodel.expected(case["doc"], ref)
        self.compare(exp, html)
        full, _ = run.render(src, handrails=True)
        d = suites.first_diff(self.proj(dom.canon(hr.strip(exp))), self.proj(dom.canon(hr.strip(run.parsed(full)))))
        if d:
            raise V(self.kind + " with handrails", d)

    def nontrivial(self, case, ref, c):
        return any(n["k"] == "ref" and id(ref.by_label.get(n["a"]["target"])) in ref.num for n in ref.order)


def add_refs(doc, rng=None, bare=True):
    """Append a paragraph with a reference to every label whose node has a number or needs none."""
    ref = refmodel.Ref(doc)
    nonum = {n["a"].get("label") for n in ref.order if n["k"] != "w" and n["a"].get("nonum")}
    toks = []
    for n in ref.order:
        lab = ref.label.get(id(n))
        if lab and lab not in nonum and n["k"] != "bibitem":
            toks.append(docgen.N("ref", {"target": lab}))
    if toks:
        if rng is not None:
            rng.shuffle(toks)
        p = docgen.N("para", {}, toks)
        i = next((i for i, x in enumerate(doc["c"]) if x["k"] in ("section", "appendix", "bibliography")), len(doc["c"]))
        doc["c"].insert(i, p)


if __name__ == "__main__":
    raise SystemExit(harness.main("C07", [References()]))
