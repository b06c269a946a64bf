"""C14: mathematics, code and algorithms are verbatim."""
import common  # noqa: F401
import random

import docgen
import harness
import hr
import run
import suites
from harness import V
from suites import DocSuite

STOP = {"math": "$", "mathtag": "::", "mathblock": "$$", "mathblocktag": "::", "code": "`", "codetag": "::", "codeblock": "```",
        "codeblocktag": "::", "algorithm": "::"}
BLOCKS = {"mathblock", "mathblocktag", "codeblock", "codeblocktag", "algorithm"}
LANGS = ["python", "c", "html", "bash", "json", "latex", "rust", "haskell", "diff", "make", "text"]
TEX = [r"\alpha", r"\frac{a}{b}", "_{ij}", "^2", " & ", r" \\ ", r"\begin{x}", r"\end{x}", "<", ">", " < ", "&lt;", "%", "# x", "*",
       "/", "{", "}", r"\{", r"\}", "'", "\"", ":", ":let:", ":ref:x", "{:label: x}", "**x**", "/x/", "[", "]", "~", "x", "1", " ",
       "  ", "|", "\\", r"\:", r"\*", r"\%", r"\#", r"\{", r"\`", "é", "中", "😀", "\t", "a\u0301", "$", "`", "def f(x):", "\"s\"",
       "<b>", "</pre>", "-->", "# comment", "// c", "@x", "!", "?", "=", "->", "\u00a0"]
TAG = {"math": "$%s$", "mathtag": ":math: %s ::", "mathblock": "$$\n%s\n$$", "mathblocktag": ":mathblock:\n\n%s\n\n::",
       "code": "`%s`", "codetag": ":code: %s ::", "codeblock": "```%s\n```", "codeblocktag": ":codeblock:%s\n\n::",
       "algorithm": ":algorithm:\n\n%s\n\n::"}


def safe(kind, s):
    """The part of *s* that may stand in an environment of that kind."""
    for stop in (STOP[kind], STOP[kind][0]):
        s = s.replace(stop, "")
    if kind in ("math", "mathtag", "code", "codetag"):
        s = " ".join(s.split("\n"))
    lines = [l for l in s.split("\n")]
    s = "\n".join(lines).strip(" \n\t\f\v\r\u00a0\x1c\x1d\x1e\x1f\x85\u2028\u2029\u3000")
    while s[:1] in (":", "{", "@") or s[:2] in ("\\:", "\\{"):
        s = s[1:].strip()
    return s.rstrip("\\").strip()


class Verbatim(harness.Suite):
    name = "verbatim"
    quick, thorough = 12000, 800000
    rule = ("arbitrary text (TeX, code, markup, delimiters, Unicode, several lines) in each of the nine notations for math, code, "
            "and algorithms, between two words or paragraphs; plain and with handrails; the page shows the same text, what "
            "surrounds it is intact, and no element or warning appears because of it; non-trivial: at least 8 characters with "
            "one that is markup in RSM or HTML")

    def gen(self, rng):
        kind = rng.choice(sorted(STOP))
        n = rng.randint(1, 14)
        sep = "\n" if kind in BLOCKS else " "
        s = "".join(rng.choice(TEX) if rng.random() < .85 else chr(rng.randrange(33, 127)) if rng.random() < .8 else
                    rng.choice([sep, "\n  ", "\n\n"]) for _ in range(n))
        lang = rng.choice(LANGS) if "code" in kind and rng.random() < .4 else None
        return {"kind": kind, "s": s, "lang": lang}

    def source(self, case):
        k, s = case["kind"], safe(case["kind"], case["s"])
        if not s:
            return None, None
        body = s
        if k in ("code", "codetag") and case["lang"]:
            body = "{:lang: %s} %s" % (case["lang"], s)
        elif k in ("codeblock", "codeblocktag"):
            body = ("\n  :lang: %s" % case["lang"] if case["lang"] else "") + "\n\n" + s
        t = TAG[k].replace("%s", body)
        if k in BLOCKS:
            return f":rsm:\n\nfirst\n\n{t}\n\nlast\n\n::\n", s
        return f":rsm:\n\nfirst {t} last\n\n::\n", s

    def show(self, case):
        return self.source(case)[0] or ""

    def run(self, case):
        src, s = self.source(case)
        if src is None or not run.cst_clean(src):
            return {"skipped"}
        k = case["kind"]
        for rails in (False, True):
            html, recs = run.render(src, handrails=rails)
            w = [m for m in run.warns(recs) if not suites.NOISE.search(m)]
            if w:
                raise V("undeserved diagnostic", w)
            root = run.parsed(html)
            root = hr.strip(root)
            body = root.find(cls="manuscript")[0]
            ps = [e for e in body.find(tag="p")]
            name = k.replace("tag", "")
            here = [e for e in body if name in e.classes] if k != "algorithm" else body.find(cls="algorithm")
            here = [e for e in here if e.tag in ("div", "span")]
            if len(here) != 1:
                raise V("elements", f"{len(here)} elements of class {name}")
            e = here[0]
            inner = e.find(cls="pseudocode") if k == "algorithm" else e.find(tag="code") if "code" in k else [e]
            if len(inner) != 1:
                raise V("elements", f"{len(inner)} inner elements")
            e = inner[0]
            if "math" in k:
                if e.els():
                    raise V("elements", "markup within math")
                got = e.text()
                a, b = (("\\(", "\\)") if name == "math" else ("$$", "$$"))
                got = got.strip("\n ")
                if not got.startswith(a) or not got.endswith(b):
                    raise V("math delimiters", got)
                got = got[len(a):-len(b)]
                if name == "math" and got != s:
                    raise V("text differs", f"{got!r} for {s!r}")
            elif k == "algorithm":
                if e.els():
                    raise V("elements", "markup within an algorithm")
                got = e.text()
            else:
                got = e.text()
                for x in e:
                    if x is not e and (x.tag != "span" or set(x.attrs) - {"class"}):
                        raise V("elements", f"<{x.tag}> within code")
                if (case["lang"] is not None) != ("highlight" in e.classes) or case["lang"] and case["lang"] not in e.classes:
                    raise V("language", str(e.classes))
            if self.norm(got, case) != self.norm(s, case):
                raise V("text differs", f"{got!r} for {s!r}")
            words = " ".join(x for p in ps for x in p.text().split())
            outer = ["first", "last"]
            if [x for x in words.split() if x in outer][0:1] != ["first"] or words.split()[-1] != "last":
                raise V("surroundings", words)
            if len(ps) != (2 if k in BLOCKS else 1):
                raise V("surroundings", f"{len(ps)} paragraphs")
            extra = [e.tag for e in body if e.tag in ("a", "em", "strong", "b", "li", "img") and not
                     (rails and any(p.has("hr-menu") for p in self.up(e)))]
            if extra:
                raise V("elements", f"stray {extra}")
        out = {k, "highlighted" if case["lang"] else "plain"}
        if len(s) >= 8 and set(s) & set(":%$`*{#/<>&\\"):
            out.add("!markup")
        return out

    @staticmethod
    def up(e):
        while e is not None:
            yield e
            e = e.parent

    @staticmethod
    def norm(s, case):
        # the browser reads a carriage return as a line feed, the highlighter adds a final one
        s = s.replace("\r\n", "\n").replace("\r", "\n").strip("\n ")
        return s

    def shrink(self, case, fails):
        import shrink
        return dict(case, s=shrink.shrink_text(case["s"], lambda s: fails(dict(case, s=s)), 30))


class Context(DocSuite):
    """The same within whole manuscripts."""
    name = "manuscripts"
    quick, thorough = 900, 60000
    rule = ("generated manuscripts full of math, code and algorithms (in paragraphs, items, cells, captions, steps, constructs); "
            "these elements must be as the model says; non-trivial: at least 4 of them")
    weights = dict(math=12, code=8, mathblock=8, codeblock=5, algorithm=4, p_pmath=60)
    proj = staticmethod(suites.subtree("math", "mathblock", "code", "codeblock", "algorithm"))
    kind = "verbatim text differs"

    def nontrivial(self, case, ref, c):
        return sum(c[k] for k in ("math", "mathblock", "code", "codeblock", "algorithm")) >= 4


if __name__ == "__main__":
    raise SystemExit(harness.main("C14", [Verbatim(), Context()]))
