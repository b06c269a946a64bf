"""C13: a backslash takes the meaning from a delimiter, everywhere, and from nothing else."""
import common  # noqa: F401
import random

import docgen
import harness
import refmodel
import run
import suites
from docgen import N, W
from harness import V
from suites import DocSuite

PLACES = ["para", "strong", "emphas", "span", "title", "section", "sectiontag", "subsection", "thm", "item", "caption", "td",
          "tdshort", "note", "draft", "construct", "abstract", "reftext", "reftarget", "step", "sketch", "nested", "toc", "author"]
PIECES = [":", "$", "`", "*", "{", "#", "%", "::", "**", "$$", "```", "##", "{:", ":ref:", ":let:", "%%", "$x$", "*b*", "`c`",
          "{x", ":theorem:", ":label:", "# x", ":ref:l1::", "\\x", "\\alpha", "a", "b1", "é", "&lt;", "<", "\"", "-", "1", "中", "(",
          "[", "x:y", "50%", "{{"]


class Places(harness.Suite):
    name = "places"
    quick, thorough = 9000, 600000
    rule = ("a word of delimiters (escaped), tags (escaped), backslashes before other characters and letters, in each of 24 places "
            "where text can stand, also next to real markup; the page must equal the reference translation; non-trivial: at "
            "least 2 delimiters")

    def gen(self, rng):
        w = "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 4)))
        return {"place": rng.choice(PLACES), "w": w, "v": rng.choice(["x", "yz", rng.choice(PIECES) + "q"]),
                "side": rng.randrange(4)}

    def doc(self, case):
        p, w, v = case["place"], case["w"], case["v"]
        side = [N("strong", c=[W("s")]), N("math", s="x"), N("code", s="x"), W("plain")][case["side"]]
        txt = [W(v), W(w), side, W(w)]
        blk = [N("para", c=[W("z"), W("zz")])]
        doc = N("doc", {"title": "t"})
        c = doc["c"]
        if p == "para":
            blk = [N("para", c=txt)]
        elif p in ("strong", "emphas", "span", "note", "draft"):
            inner = [W(v), W(w)]
            blk = [N("para", c=[W("a"), N(p, c=inner), W("b")])]
        elif p == "construct":
            blk = [N("para", c=[N("construct", {"kind": "let"}, txt)])]
        elif p == "nested":
            blk = [N("para", c=[N("strong", c=[N("emphas", c=[W(w)]), W(v)])])]
        elif p == "title":
            doc["a"]["title"] = w + " " + v
        elif p in ("section", "sectiontag", "subsection", "toc"):
            if p == "toc":
                c.append(N("toc"))
            sec = N("section", {"level": 2, "title": v + " " + w}, [])
            if p == "subsection":
                sec["c"].append(N("section", {"level": 3, "title": w}, []))
            else:
                sec["c"] += blk
            blk = [sec]
        elif p == "thm":
            blk = [N("thm", {"kind": "lemma", "title": v + " " + w}, blk)]
        elif p == "item":
            blk = [N("list", {"kind": "itemize"}, [N("item", c=txt)])]
        elif p == "caption":
            blk = [N("figure", {"path": "x.png"}, [N("caption", c=txt)])]
        elif p in ("td", "tdshort"):
            blk = [N("table", {}, [N("tbody", {}, [N("tr", {"short": p == "tdshort"}, [N("td", c=txt), N("td", c=[W(w)])])])])]
        elif p == "abstract":
            c.append(N("abstract", {}, [N("para", c=txt)]))
        elif p == "reftext":
            blk = [N("thm", {"kind": "lemma", "label": "lem", "reftext": w + " q"}, blk), N("para", c=[N("ref", {"target": "lem"})])]
        elif p == "reftarget":
            blk = [N("thm", {"kind": "lemma", "label": "lem"}, blk), N("para", c=[N("ref", {"target": "lem", "text": v + " " + w})])]
        elif p == "step":
            blk = [N("proof", {}, [N("step", {}, [N("para", c=txt)])])]
        elif p == "sketch":
            blk = [N("sketch", {}, [N("para", c=txt)])]
        elif p == "author":
            c.append(N("author", {"name": "A B"}))
            blk = [N("para", c=txt)]
        c += blk
        return doc

    def source(self, case):
        st = docgen.Style(random.Random(1), layout=False, comments=False, indent=False, metaorder=False) \
            if case["place"] == "sectiontag" else None
        if st:
            st.alt = lambda p=.5: True
        return docgen.to_source(self.doc(case), st)

    def show(self, case):
        return self.source(case)

    def run(self, case):
        doc = self.doc(case)
        src = self.source(case)
        if not docgen.valid(doc) or not run.cst_clean(src) or "/" in case["w"]:
            return {"skipped"}
        html, recs = run.render(src)
        w = [m for m in run.warns(recs) if not suites.NOISE.search(m)]
        if w:
            raise V("undeserved diagnostic", w)
        import dom
        d = suites.first_diff(suites.full(dom.canon(refmodel.expected(doc))), suites.full(suites.canon_html(html)))
        if d:
            raise V("escaped text differs", d)
        out = {case["place"]}
        if sum(x in docgen.DELIMS for x in case["w"]) >= 2:
            out.add("!delims")
        return out

    def shrink(self, case, fails):
        import shrink
        for k in ("w", "v"):
            case = dict(case, **{k: shrink.shrink_text(case[k], lambda s: fails(dict(case, **{k: s})), 15)})
        return case


class Manuscripts(DocSuite):
    name = "manuscripts"
    quick, thorough = 900, 60000
    rule = ("generated manuscripts whose words are mostly escaped delimiters; the whole page must equal the reference "
            "translation; non-trivial: at least 8 escaped characters")
    weights = dict(escaped=14, syms=4, p_title=98, p_overwrite=60, p_reftext=30)

    def nontrivial(self, case, ref, c):
        return sum(x in docgen.DELIMS for n in ref.order for x in n.get("s", "")) >= 8


class Strings(harness.Suite):
    """The string type behind it."""
    name = "strings"
    quick, thorough = 60000, 5000000
    rule = ("find, index, split and unescaping of strings over delimiters, backslashes and letters, with start, end and maxsplit, "
            "against a character by character definition; non-trivial: the string has an escaped and a bare occurrence")

    def gen(self, rng):
        s = "".join(rng.choice(":$\\\\ab:") for _ in range(rng.randint(0, 12)))
        return {"s": s, "chars": rng.choice([":", ":$", "$", ":%$`*{#"]), "sub": rng.choice([":", "$", "a", "ab", ":a", "\\"]),
                "start": rng.choice([0, 0, rng.randint(0, 12)]), "end": rng.choice([None, None, rng.randint(0, 12)]),
                "max": rng.choice([-1, -1, 0, 1, 2])}

    def run(self, case):
        from rsm.util import EscapedString
        s, sub, chars = case["s"], case["sub"], case["chars"]
        e = EscapedString(s, chars)
        if str(e) != s or len(e) != len(s) or e != s or hash(e) != hash(s) or (sub in e) != (sub in s):
            raise V("not the same string", repr(e))
        want, i = "", 0
        while i < len(s):
            if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in chars:
                i += 1
            want += s[i]
            i += 1
        # a run of backslashes: the one next to the delimiter is the escape
        if "\\\\" not in s and e.escape() != want:
            raise V("unescaping", f"{e.escape()!r} for {want!r}")

        def bare(i):
            return sub not in chars or i == 0 or s[i - 1] != "\\"
        end = len(s) if case["end"] is None else min(len(s), case["end"])
        hits = [i for i in range(case["start"], end - len(sub) + 1) if s.startswith(sub, i)]
        want = next((i for i in hits if bare(i)), -1)
        got = e.find(sub, case["start"], case["end"])
        if got != want:
            raise V("find", f"{got} for {want}")
        try:
            got = e.index(sub, case["start"], case["end"])
        except ValueError:
            got = -1
        if got != want:
            raise V("index", f"{got} for {want}")
        raw = e.find(sub, case["start"], case["end"], skip_escaped=False)
        if raw != (hits[0] if hits else -1):
            raise V("find without regard to escapes", f"{raw} for {hits[:1]}")
        if sub in chars:
            parts, cur, n = [], "", 0
            for i, ch in enumerate(s):
                if ch == sub and bare(i) and n != case["max"]:
                    parts.append(cur)
                    cur = ""
                    n += 1
                else:
                    cur += ch
            parts.append(cur)
            if [str(x) for x in e.split(sub, case["max"])] != parts:
                raise V("split", f"{e.split(sub, case['max'])} for {parts}")
        elif [str(x) for x in e.split(sub, case["max"])] != s.split(sub, case["max"]):
            raise V("split", str(e.split(sub, case["max"])))
        # everything else is as for plain strings, and the pieces know what is escaped as the whole does
        a, b = case["start"], case["end"]
        for x, y in ((e.strip(), s.strip()), (e.strip(case["sub"]), s.strip(case["sub"])), (e.lstrip(sub), s.lstrip(sub)), (e.rstrip(sub), s.rstrip(sub)),
                     (e.lstrip(), s.lstrip()), (e.rstrip(), s.rstrip()), (e[a:b], s[a:b]), (e[::2], s[::2]),
                     (e.replace(sub, "x", skip_escaped=False), s.replace(sub, "x")), (e.replace("z", "y", 1), s)):
            if str(x) != str(y):
                raise V("a piece differs", f"{x!r} for {y!r}")
            if not isinstance(x, EscapedString) or set(x.escape_chars) != set(chars):
                raise V("a piece forgot what is escaped", repr(x))
        for x, y in ((e + "t", s + "t"), ("t" + e, "t" + s), (e.rfind(sub, a, b, skip_escaped=False), s.rfind(sub, a, b)),
                     (e.endswith(sub, a, b, skip_escaped=False), s.endswith(sub, a, b)),
                     (e.startswith(sub, a, b, skip_escaped=False), s.startswith(sub, a, b)),
                     ("zz" in e, False), (e == s + "x", False)):
            if x != y:
                raise V("differs from the plain string", f"{x!r} for {y!r}")
        if e and (str(e[0]) != s[0] or str(e[-1]) != s[-1]):
            raise V("characters", repr((e[0], e[-1])))
        return {"!both"} if any(bare(i) for i in hits) and not all(bare(i) for i in hits) else {"other"}


if __name__ == "__main__":
    raise SystemExit(harness.main("C13", [Places(), Manuscripts(), Strings()]))
