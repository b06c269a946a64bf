"""C05: the author's text reaches the reader unchanged."""
import common  # noqa: F401
import html as htmllib
import os
import random
import shutil
import tempfile

import docgen
import dom
import harness
import refmodel
import run
import suites
from harness import V
from suites import DocSuite

HEAVY = dict(uni=6, markup=8, escaped=4, syms=4, p_title=98, p_reftext=30, p_overwrite=70, abstract=2, author=2)


class Text(DocSuite):
    name = "text"
    quick, thorough = 3500, 120000
    rule = ("a manuscript whose words are often HTML markup, character references, Unicode or delimiters; the sequence of "
            "texts of the page (as a browser decodes it) must be the one of the model; non-trivial: some word has & < or >")
    weights = HEAVY
    vary = [dict(blocks=7), dict(codeblock=8, code=8), dict(mathblock=8, math=9, algorithm=5), dict(table=9, figure=9, list=9),
            dict(thm=12), dict(p_bib=100, cite=9), dict(note=6, draft=6, url=8, ref=8)]
    proj = staticmethod(suites.texts)
    kind = "text differs"

    def nontrivial(self, case, ref, c):
        return any(x in n.get("s", "") for n in ref.order for x in "&<>")


class Words(harness.Suite):
    """Arbitrary characters in a paragraph."""
    name = "characters"
    quick, thorough = 6000, 200000
    rule = ("a paragraph, a title and a caption of arbitrary characters (every Unicode plane, ASCII punctuation), delimiters "
            "escaped; non-trivial: at least 5 characters that are not letters")

    def gen(self, rng):
        def ch():
            x = rng.random()
            if x < .45:
                return chr(rng.randrange(33, 127))
            if x < .6:
                return chr(rng.randrange(0xa1, 0x2000))
            if x < .75:
                return chr(rng.choice([rng.randrange(0x2010, 0x2028), rng.randrange(0x2030, 0x2fff), rng.randrange(0x3001, 0xd7ff)]))
            if x < .8:
                return chr(rng.randrange(0x10000, 0x2fa00))
            return rng.choice("aZ09 &<>\"'")
        n = rng.randint(1, 14)
        return [self.words("".join(ch() for _ in range(n))) for _ in range(rng.randint(1, 3))]

    @staticmethod
    def words(s):
        # a slash, a brace and a final backslash have a meaning that no escape takes away
        s = "".join(c for c in s if c.isprintable() or c == " ")
        s = s.replace("/", "").replace("}", "").replace("\\", "")
        return " ".join(s.split())

    def run(self, case):
        case = [self.words(w) for w in case]
        if not all(case) or len(case) > 3:
            return {"skipped"}
        a, b, c = (case * 3)[:3]
        src = (f":rsm:\n# {docgen.esc(a)}\n\n{docgen.esc(b)}\n\n## {docgen.esc(c)}\n\n"
               f":theorem:\n  :title: {docgen.esc(a)}\n\nz {docgen.esc(c)}\n\n::\n\n"
               f":figure:\n  :path: x.png\n\n:caption: {docgen.esc(b)}\n\n::\n\n::\n")
        if not run.cst_clean(src):
            return {"skipped"}
        html, _ = run.render(src)
        c1 = suites.canon_html(html)
        for what, pick, want in (
                ("title", lambda n: n[0] == "h1", a), ("section title", lambda n: n[0] == "h2", "1. " + c),
                ("paragraph", lambda n: n[0] == "p" and not n[4][0][0] == "span", b),
                ("theorem title", lambda n: "desc" in n[2], a),
                ("caption", lambda n: n[0] == "figcaption", "Figure 1.1. " + b)):
            got = next((suites.text_of(n) for n in suites.nodes_of(c1) if pick(n)), None)
            if got != want:
                raise V("text differs", f"{what}: expected {want!r}, found {got!r}")
        out = {"ok"}
        if sum(not x.isalpha() for w in case for x in w) >= 5:
            out.add("!punctuation")
        return out

    def shrink(self, case, fails):
        import shrink
        for i in range(len(case)):
            case[i] = shrink.shrink_text(case[i], lambda s: fails(case[:i] + [s] + case[i + 1:]), 15)
        return case


if __name__ == "__main__":
    raise SystemExit(harness.main("C05", [Text(), Words()]))
