"""C02: whatever the text, the answer is a page or a refusal, and errors are never silent."""
import common  # noqa: F401
import json
import random
import re

import docgen
import fuzz
import harness
import run
from harness import V
from suites import DocSuite

MARK = re.compile(r"\[CST error at \((\d+), (\d+)\) - \((\d+), (\d+)\)\]")
MSG = "The CST contains errors."
OUTER = {"source_file", "section", "subsection", "subsubsection", "paragraph"}


def outcome(src, **kw):
    """(what, html or exception, records)"""
    import rsm
    with run.logs() as recs:
        try:
            h = rsm.render(src, **kw)
        except Exception as e:
            if not fuzz.own(e):
                raise
            return "refused", e, recs
    return ("page", h, recs) if h else ("nothing", h, recs)


class Fuzz(harness.Suite):
    name = "fuzz"
    quick, thorough = 16000, 1500000
    rule = ("random edits of 214 seed manuscripts and of generated ones, and random token soup; rendered plain and with "
            "handrails: a page with balanced markup, or an error class of RSM, or nothing plus an ERROR record, the same for "
            "both renderers; every outermost syntax error is warned about with its position, and those in running text are "
            "marked on the page; non-trivial: the source has a syntax error or is refused")

    def gen(self, rng):
        return fuzz.text(rng)

    def run(self, src):
        if not src.strip() or any("\ud800" <= c <= "\udfff" for c in src):
            return {"skipped"}
        what, h, recs = outcome(src)
        what2, h2, _ = outcome(src, handrails=True)
        if what != what2 or what == "refused" and type(h) is not type(h2):
            raise V("renderers disagree", f"{what} {str(h)[:300]!r}, with handrails {what2} {str(h2)[:300]!r}")
        if what == "refused":
            return {"!refused", type(h).__name__}
        if what == "nothing":
            if not any(r.levelno >= 40 for r in recs):
                raise V("silent failure", run.warns(recs))
            return {"!nothing"}
        run.parsed(h)
        run.parsed(h2)
        errs = fuzz.errors(src)
        marks = {((int(a), int(b)), (int(c), int(d))) for a, b, c, d in MARK.findall(h)}
        told = {(getattr(r, "start_row", None), getattr(r, "start_col", None)) for r in recs if r.getMessage() == MSG}
        bib = [r.getMessage() for r in recs if r.getMessage().startswith("Bibitem at") and "error" in r.getMessage()]
        for path, rng in errs:
            if "ERROR" in path:
                continue
            if rng[0] not in told and not (path[-1] == "bibtex" and (bib or any("no bibliography" in m for m in run.warns(recs)))):
                raise V("silent syntax error", f"{rng} in {path}")
            if set(path) <= OUTER and rng not in marks:
                raise V("unmarked syntax error", f"{rng} in {path}")
        spurious = told - {g[0] for _, g in errs}
        if spurious:
            raise V("spurious syntax error", spurious)
        return {"!error"} if errs else {"clean"}

    def shrink(self, case, fails):
        return fuzz.shrink_text(case, fails)


AROUND = [":rsm:\n\na@b\n\n::\n", ":rsm:\n# a@b\n\nc\n\n::\n", "@", ":rsm:\n\n$$\na@b\n$$\n\n::\n", ":rsm:\n\nc $a@b$ d\n\n::\n",
          ":rsm:\n\n```\n:lang: python\na@b\n```\n\n::\n", ":rsm:\n\nc :ref:a@b,c@d:: d\n\n::\n",
          ":rsm:\n\n:theorem:\n:title: a@b\n\nx\n\n::\n\n::\n", ":rsm:\n\n:itemize:\n\n:item: a@b\n\n::\n\n::\n",
          ":rsm:\n\n:proof:\n\n:step: :let: a@b::\n\n::\n\n::\n\n::\n", ":rsm:\n\n:table:\n:tr: a@b::\n::\n\n::\n",
          ":rsm:\n\nc :cite:a@b:: d\n\n::\n", ":rsm:\n\n:abstract:\n:keywords: {a@b}\n\nx\n\n::\n\n::\n",
          ":rsm:\n\nc :url:a@b,c@d:: d\n\n::\n", ":rsm:\n\n%@\nx\n\n::\n", ":rsm:\n\nc `a@b` d\n\n::\n",
          ":rsm:\n\n:references:\n@article{a,\n  title={a@b}\n}\n::\n::\n"]
UNITS = [" ", "\t", "\u00a0", "\f", "\n", " \n", "\r\n", "\n\n", "a", "a ", "a\n", "a:", "a b ", "1", "-", "_", "(", "<", "&", "|", ",", ".", "  * ",
         "\\", "\\:", "\\\\ ", "$", "$$", "`", "```", "*", "**", "{", "}", "#", ":", "::", ":a:", "%", "% a\n", "$a$", "`a`", "**a**",
         "*a*", "a $$b$$ ", ":item: ", ":td: ", "::\n", ":span:", ":span: {:strong:} ", ":note:a::", ":ref:x::", ":cite:a,b:: ", ":prev:",
         ":claim: ", "  :label:\n", "{:label: x}", "\n\n:proof:\n\n:step: a\n\n", "\n\n:step: a\n\n", "\n\n:itemize:\n\n:item: ",
         "\n\n:theorem:\n\n", "\n\n# a\n\n", "\n\n## a\n\n:toc: ::\n\n", "\n\n$$\na\n$$\n\n", "\u0301", "\u200b", "\U0001f600", "<!-- "]


class Runs(Fuzz):
    """The same again and again."""
    name = "runs"
    quick, thorough = 700, 12000
    limit = 30
    rule = ("one or two pieces (of %d: blanks, letters, delimiters, tags, blocks) repeated up to 2500 characters within one of "
            "%d places of a manuscript or of a seed manuscript: as suite fuzz, and within 30 s of processor time; non-trivial: "
            "at least 300 characters" % (len(UNITS), len(AROUND)))

    def gen(self, rng):
        unit = rng.choice(UNITS) if rng.random() < .7 else rng.choice(UNITS) + rng.choice(UNITS)
        around = rng.choice(AROUND)
        if rng.random() < .15:
            s = fuzz.text(rng).replace("@", "")
            i = rng.randrange(len(s) + 1)
            around = s[:i] + "@" + s[i:]
        return {"around": around, "unit": unit, "n": max(1, rng.choice([30, 100, 300, 1000, 2500 if len(unit) == 1 else 1500]) // len(unit))}

    def show(self, case):
        return json.dumps(case, ensure_ascii=False)

    def run(self, case):
        got = super().run(case["around"].replace("@", case["unit"] * case["n"]))
        return {c.replace("!", "") for c in got} | ({"!long"} if len(case["unit"]) * case["n"] >= 300 else {"short"})

    def shrink(self, case, fails):
        for n in (1, 2, 10, 100, 1000, case["n"] // 2):
            if n < case["n"] and fails(dict(case, n=n)):
                return dict(case, n=n)
        return case


MIS = [":step:\n\nfoo\n\n::", ":item: foo", ":caption: foo", "foo :prev:", "foo :previous:2:: bar", ":prev3: foo"]
HOMES = {"doc", "section", "thm", "sketch", "abstract"}


class Misplaced(DocSuite):
    name = "misplaced"
    quick, thorough = 900, 60000
    styled = 0
    rule = ("a generated manuscript with a step, an item, a caption or a reference to a previous step inserted where none can "
            "be, or a reference to more previous steps than there are: refused with one of RSM's errors; non-trivial: all")

    def gen(self, rng):
        case = super().gen(rng)
        case["mis"] = rng.randrange(len(MIS) + 1)
        case["at"] = rng.randrange(1000)
        return case

    def source(self, case):
        doc = docgen.clone(case["doc"])
        mark = docgen.N("para", {}, [docgen.W("MISPLACED")])
        if case["mis"] < len(MIS):
            text = MIS[case["mis"]]
            spots = [(n, i) for n in docgen.walk(doc) if n["k"] in HOMES for i in range(len(n["c"]) + 1)
                     if self.flow_at(n, i)]
        else:
            # more steps back than there are
            spots, text = [], ""
            for n in docgen.walk(doc):
                if n["k"] in ("proof", "subproof"):
                    steps = [s for s in n["c"] if s["k"] == "step"]
                    for j, s in enumerate(steps):
                        spots.append((s, 1, j + 1))
        if not spots:
            return None
        s = spots[case["at"] % len(spots)]
        if case["mis"] == len(MIS):
            text = f"foo :previous:{s[2] + case['at'] % 3}::"
        s[0]["c"].insert(s[1], mark)
        src = docgen.to_source(doc)
        return src.replace("MISPLACED", text)

    @staticmethod
    def flow_at(n, i):
        """May a paragraph stand before child i?"""
        before = [x["k"] for x in n["c"][:i]]
        after = [x["k"] for x in n["c"][i:]]
        head = {"abstract", "author", "toc"}
        return not {"section", "appendix", "bibliography"} & set(before) and not (n["k"] == "doc" and head & set(after)) \
            and not after[:1] == ["bibliography"]

    def run(self, case):
        src = self.source(case)
        if src is None or not run.cst_clean(src) or not docgen.valid(case["doc"]):
            return {"skipped"}
        for hr in (False, True):
            what, h, _ = outcome(src, handrails=hr)
            if what != "refused":
                raise V("not refused", f"{what} handrails={hr}")
        return {"!refused", f"kind {case['mis']}", type(h).__name__}

    def show(self, case):
        return self.source(case) or "(no place for it)"


if __name__ == "__main__":
    raise SystemExit(harness.main("C02", [Fuzz(), Misplaced(), Runs()]))
