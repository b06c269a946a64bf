"""C09: automatic numbers."""
import common  # noqa: F401
import docgen
import harness
import refmodel
import run
import suites
from c07 import add_refs
from harness import V
from suites import DocSuite


class Numbers(DocSuite):
    name = "numbers"
    quick, thorough = 1600, 100000
    rule = ("a manuscript with many numbered and unnumbered sections, theorems, figures, tables, equations, algorithms and "
            "steps, before and after the appendix, everything labeled and referenced once; headings, titles, captions and "
            "references must show the numbers of the model, and so must the tree; non-trivial: numbers of 4 kinds")
    weights = dict(p_label=90, thm=9, figure=4, table=4, mathblock=4, algorithm=3, sections=4, words=3, proof=2, p_title=50,
                   p_pmath=40, uni=0, markup=0, escaped=0, syms=0)
    vary = [dict(p_nonum=50), dict(p_appendix=95, sections=7), dict(p_sections=0), dict(depth=6), dict(sections=12, blocks=2),
            dict(proof=14, p_nonum=0), dict(p_appendix=95, p_nonum=40)]
    proj = staticmethod(suites.numbers)
    kind = "numbers differ"

    def gen(self, rng):
        case = super().gen(rng)
        if rng.random() < .04:     # past the end of the alphabet
            n = rng.randint(27, 60) if rng.random() < .9 else rng.randint(700, 710)    # ... and past ZZ
            c = [docgen.N("appendix")] + [docgen.N("section", {"level": 2, "title": f"s{i}", "label": f"apx{i}"}) for i in range(n)]
            bib = [x for x in case["doc"]["c"] if x["k"] == "bibliography"]
            case["doc"]["c"] = [x for x in case["doc"]["c"] if x["k"] not in ("bibliography", "appendix")] + c + bib
        add_refs(case["doc"])
        return case

    def check(self, case, src, ref):
        html, _ = run.render(src)
        self.compare(refmodel.expected(case["doc"], ref), html)
        # equations show their numbers with handrails
        full, _ = run.render(src, handrails=True)
        eqs = [e.text().strip() for e in run.parsed(full).find(cls="eqn-number")]
        want = [f"({ref.num[id(n)]})" for n in ref.order if n["k"] == "mathblock" and id(n) in ref.num]
        if eqs != want:
            raise V("equation numbers differ", f"expected {want}, found {eqs}")
        steps = [e.text().strip() for e in run.parsed(full).find(cls="step-number")]
        want = steps_postorder(case["doc"], ref)
        if sorted(steps) != sorted(want):
            raise V("step numbers differ", f"expected {want}, found {steps}")

    def nontrivial(self, case, ref, c):
        return len({n["k"] for n in ref.order if id(n) in ref.num}) >= 4


def steps_postorder(doc, ref):
    return [f"⟨{ref.num[id(n)]}⟩" for n in ref.order if n["k"] == "step"]


if __name__ == "__main__":
    raise SystemExit(harness.main("C09", [Numbers()]))
