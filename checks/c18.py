"""C18: the linter finds what it looks for, where it is, and nothing else."""
import common  # noqa: F401
import logging
import random
import re

import docgen
import harness
import rsm
import run
import shrink as shr
from harness import V
from suites import DocSuite


class Marked(docgen.Printer):
    """Leaves a mark in front of everything the linter may complain about."""

    def __init__(self, style=None):
        super().__init__(style)
        self.marked = []

    def mark(self, n, s):
        self.marked.append(n)
        return chr(0xe000 + len(self.marked) - 1) + s

    def b_section(self, n):
        self.marked.append(n)
        i = len(self.marked) - 1
        return chr(0xe000 + i) + super().b_section(n)

    def b_mathblock(self, n):
        return self.mark(n, super().b_mathblock(n))


def positions(doc, style):
    """(source, {id of model node: (row, column), 1-based})"""
    p = Marked(style)
    out, row, col, pos = "", 1, 1, {}
    for ch in p.doc(doc):
        if 0xe000 <= ord(ch) < 0xe000 + len(p.marked):
            pos[id(p.marked[ord(ch) - 0xe000])] = (row, col)
            continue
        out += ch
        # columns count bytes, as the grammar does
        row, col = (row + 1, 1) if ch == "\n" else (row, col + len(ch.encode("utf-8")))
    return out, pos


def expected(doc, pos):
    out = []
    if not doc["a"].get("title"):
        out.append((1, 1, "Manuscript with no title"))

    def go(n):
        for c in n.get("c", ()):
            if c["k"] == "section" and not c["a"].get("label"):
                out.append((*pos[id(c)], "Section with no label"))
            if c["k"] == "mathblock":
                inside = n["k"] == "para" and not c["a"].get("isclaim")
                if not inside:
                    out.append((*pos[id(c)], "MathBlock must be direct child of Paragraph"))
            go(c)
    go(doc)
    return sorted(out)


class Lint(DocSuite):
    name = "lint"
    quick, thorough = 2500, 150000
    rule = ("a generated manuscript: the linter's messages (at its own level) are exactly one for a missing title, one for each "
            "section without a label, one for each display outside a paragraph, each with the 1-based line and column where "
            "the construct starts in the source; the tree it returns is that of the manuscript; non-trivial: 4 messages or more")
    weights = dict(p_title=60, p_label=35, mathblock=4, p_pmath=30)
    vary = [dict(p_label=100), dict(sections=9, blocks=2), dict(mathblock=12, list=4, thm=8), dict(p_sections=0)]

    def source(self, case):
        st = case["style"]
        return positions(case["doc"], docgen.Style(random.Random(st)) if st is not None else None)[0]

    def run(self, case):
        st = case["style"]
        src, pos = positions(case["doc"], docgen.Style(random.Random(st)) if st is not None else None)
        if not self.ok(case, src):
            return {"skipped"}
        with run.logs() as recs:
            logging.getLogger("RSM").setLevel(10)
            tree = rsm.lint(src)
        got = []
        for r in recs:
            if r.levelno == 25:
                if r.levelname != "LINT":
                    raise V("level name", r.levelname)
                got.append((r.start_row, r.start_col, re.sub(r", not .*", "", r.getMessage())))
        want = expected(case["doc"], pos)
        if sorted(got) != want:
            raise V("lint differs", f"expected {want}\n found    {sorted(got)}")
        if tree.sexp() != run.tree(src).sexp():
            raise V("the tree changed")
        # linting twice finds the same
        from rsm import linter
        with run.logs() as recs:
            run.quiet()
            logging.getLogger("RSM").setLevel(25)
            linter.Linter().lint(tree)
        if len([r for r in recs if r.levelno == 25]) != len(want):
            raise V("second lint differs")
        out = {f"{min(len(want), 9)} messages"}
        if len(want) >= 4:
            out.add("!nontrivial")
        return out


if __name__ == "__main__":
    raise SystemExit(harness.main("C18", [Lint()]))
