"""C11: structured proofs."""
import common  # noqa: F401
import re

import dom
import harness
import hr
import refmodel
import run
import suites
from harness import V
from suites import DocSuite

proof = suites.subtree("proof", "sketch")


class Proofs(DocSuite):
    name = "proofs"
    quick, thorough = 900, 120000
    rule = ("a manuscript with nested proofs: steps with statements, explicit and implicit subproofs, references to previous "
            "steps; the proofs of the page and the texts and links of references to steps must be those of the model, plain "
            "and with handrails; non-trivial: a subproof, or a reference to a previous step")
    weights = dict(proof=16, sketch=3, depth=5, p_prev=45, p_label=60, p_sections=40, thm=2, figure=1, table=1, words=4)
    vary = [dict(p_label=100), dict(p_label=0), dict(depth=8, words=2, blocks=1), dict(construct=12), dict(p_prev=90), dict(p_types=60)]
    proj = staticmethod(lambda c: proof(c) + [r for r in suites.references(c) if "Step" in r])
    kind = "proofs differ"

    def check(self, case, src, ref):
        html, _ = run.render(src)
        exp = refmodel.expected(case["doc"], ref)
        self.compare(exp, html)
        full, _ = run.render(src, handrails=True)
        froot = run.parsed(full)
        d = suites.first_diff(self.proj(dom.canon(hr.strip(exp))), self.proj(dom.canon(hr.strip(froot))))
        if d:
            raise V(self.kind + " with handrails", d)
        # the number next to a step is the one references use
        for e in hr.rails(froot):
            if "step" in e.classes and e.id:
                n = ref.by_label[e.id]
                num = [x.text().strip() for z in hr.zone(e, "hr-info-zone") for x in z.find(cls="step-number")]
                if num != [f"⟨{ref.num[id(n)]}⟩"]:
                    raise V("step number differs", (e.id, num, ref.num[id(n)]))

    def nontrivial(self, case, ref, c):
        return c["subproof"] > 0 or c["prev"] > 0


class Loose(harness.Suite):
    """Steps whose parts come in any order."""
    name = "loose"
    quick, thorough = 1500, 90000
    rule = ("proofs whose steps hold paragraphs, lists, displays, steps and subproofs in any order and number, with a numbered word in "
            "each; refused with one of RSM's errors, or every word is shown once and in order, plain and with handrails; "
            "non-trivial: something after a subproof or between steps")

    def gen(self, rng):
        n = [0]

        def word():
            n[0] += 1
            return f"word{n[0]}x"

        def parts(depth, kinds):
            return [part(rng.choice(kinds), depth) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]

        def part(k, depth):
            if depth <= 0 and k in ("step", "sub"):
                k = "para"
            if k == "step":
                return ["step", word() if rng.random() < .8 else "", parts(depth - 1, ["para", "step", "step", "sub", "sub", "list", "math"])]
            if k == "sub":
                return ["sub", "", parts(depth - 1, ["para", "step", "step", "list", "sub"])]
            return [k, word(), []]
        return {"parts": parts(rng.randint(2, 4), ["step", "step", "step", "para"]), "where": rng.choice(["proof", "proof", "proof", "sketch"])}

    def source(self, case):
        def show(p, pad):
            k, w, c = p
            inner = "".join(show(x, pad + "  ") for x in c)
            if k == "step":
                return f"{pad}:step:{' ' + w if w else ''}\n\n{inner}{pad}::\n\n"
            if k == "sub":
                return f"{pad}:p:\n\n{inner}{pad}::\n\n"
            if k == "list":
                return f"{pad}:itemize:\n\n{pad}  :item: {w}\n\n{pad}::\n\n"
            if k == "math":
                return f"{pad}$$\n{pad}{w}\n{pad}$$\n\n"
            return f"{pad}{w}\n\n"
        return f":rsm:\n\n:{case['where']}:\n\n" + "".join(show(p, "  ") for p in case["parts"]) + "::\n\n::\n"

    show = source

    def run(self, case):
        src = self.source(case)
        if not run.cst_clean(src):
            return {"skipped"}
        want = re.findall(r"word\d+x", src)
        said = set()
        for rails in (False, True):
            try:
                page, _ = run.render(src, handrails=rails)
            except Exception as e:
                if not type(e).__module__.startswith("rsm"):
                    raise V("refused otherwise", f"{type(e).__name__}: {e}")
                said.add(type(e).__name__)
                continue
            said.add("shown" if page else "nothing")
            if page:
                root = run.parsed(page)
                got = re.findall(r"word\d+x", (hr.strip(root) if rails else root).text())
                if got != want:
                    raise V("lost, repeated or out of order", f"{got} instead of {want}, handrails={rails}")
        if len(said) != 1:
            raise V("plain and handrails disagree", said)
        kinds = [p[0] for p in self.walk(case["parts"])]
        return said | ({"!nontrivial"} if kinds.count("sub") and kinds.count("step") else {"other"})

    def walk(self, parts):
        for p in parts:
            yield p
            yield from self.walk(p[2])

    def shrink(self, case, fails):
        def smaller(parts):
            for i, p in enumerate(parts):
                yield parts[:i] + parts[i + 1:]
                yield parts[:i] + p[2] + parts[i + 1:]
                for c in smaller(p[2]):
                    yield parts[:i] + [[p[0], p[1], c]] + parts[i + 1:]
        again = True
        while again:
            again = False
            for c in smaller(case["parts"]):
                new = dict(case, parts=c)
                if len(str(c)) < len(str(case["parts"])) and fails(new):
                    case, again = new, True
                    break
        return case


if __name__ == "__main__":
    raise SystemExit(harness.main("C11", [Proofs(), Loose()]))
