"""Model of an RSM manuscript, a generator of models and a printer to RSM source.

A model is a tree of plain dicts {"k": kind, "a": {attr: value}, "c": [children]}, so it can be
stored in a replay file and shrunk structurally.  Everything random comes from the
random.Random passed in.

Inline contents are lists of tokens; each token has "g": True when it is glued to the token
before it (no whitespace in between in the source).  Words are {"k": "w", "s": "text"}.
"""
import copy
import re

THEOREMS = ["theorem", "lemma", "corollary", "example", "exercise", "proposition",
            "problem", "porism", "remark", "definition"]
CONSTRUCTS = {"let": "LET", "define": "DEFINE", "write": "WRITE", "case": "CASE",
              "new": "NEW", "assume": "ASSUME", "then": "THEN", "claim": "⊢",
              "st": "SUCH THAT", "pick": "PICK", "prove": "PROVE", "suffices": "SUFFICES",
              "suppose": "SUPPOSE", "wlog": "WLOG"}
NOT_ASSUMPTION = {"then", "suffices", "claim", "claimblock", "qed", "prove"}
DELIMS = ":%$`*{#"


def N(k, a=None, c=None, **kw):
    return {"k": k, "a": dict(a or {}, **kw), "c": list(c or [])}


def W(s, g=False):
    return {"k": "w", "s": s, "g": g}


# ----------------------------------------------------------------------------- vocabulary
PLAIN = ("alpha beta gamma delta graph vertex edge matrix lemma proof hence thus every some "
         "non-empty well-known x y n k 1 2 42 3.14 A B II a.e. i.e. (see below) [sic] one, two; "
         "end. what? yes! so... e-mail self-adjoint it's don't \"quoted\" l'Hôpital").split()
UNI = "é naïve Erdős Gödel 中文 日本 λ Ω ∀x ℝ² ≤ “quoted” — … 😀 ﬁ ß İ ǅ".split() + ["a\u0301"]
MARKUP = ["a&b", "AT&T", "&amp;", "&lt;", "&#65;", "&", "x<y", "<b>", "<", ">", "<br",
          "a>b", "<!--", "&copy", "<script>", "<3", "-->", "&nbsp;", "<p", "R&D;", "\"", "'",
          "a=\"b\"", "id=\"x\"", "src=\"x\"", "<a", "<?"]
ESCAPED = [":", "a:b", "50%", "$5", "`", "*", "a*b", "{", "{x", "#", "#1", "::", "**", "$x$",
           "{:a", ":ref", "%%", "##", "x:y:z", ":let:"]
SYMS = ["@", "~", "^2", "_", "x_1", "a+b", "=", "|", "!", "a\\b", "\\alpha", "-", "--",
        "1-2", "(a,b)", "[1]", "(", ")", "…", "§3", "\\n"]
MATH = ["x", "x^2", "a_{ij}", r"\alpha", r"\frac{1}{2}", "a<b", "a<1", "p < q", "i>j", "a&b",
        "x & y", r"\left\{ x \right\}", "f: X", r"\{", "%", "::", "#", "*", "{", "}", "`",
        r"\&", "a'", "\"", "x:y", ":let:", "{:label: x}", "<b>", "&lt;", "中", "."]
CODE = ["def", "f(x)", "a<b", "a & b", "x['k']", "\"s\"", "*args", "%d", ":", "::", "$HOME",
        "{k: v}", "# hash", "/path/", "<br>", "&amp;", "\\n", "中", ":ref:x::", "*b*", "0x1F"]
LANGS = ["python", "c", "html", "bash", "json", "latex", "nosuchlang", "Python", "c++"]


class Gen:
    """Generator of manuscripts.  *w* overrides the weights of the features in DEFAULT."""

    DEFAULT = dict(
        # inline tokens
        strong=3, emphas=3, span=2, math=4, code=2, ref=4, cite=3, url=2, construct=2, note=1,
        draft=1, qed=.4,
        # blocks
        para=8, thm=5, proof=4, sketch=1, list=3, figure=2, table=2, mathblock=2, codeblock=1,
        algorithm=1, abstract=1, author=1,
        # vocabulary
        uni=1, markup=2, escaped=2, syms=2,
        # probabilities in percent
        p_label=45, p_title=85, p_nonum=12, p_types=12, p_sections=80, p_toc=35,
        p_appendix=15, p_bib=60, p_unknown=6, p_dup=0, p_overwrite=35, p_reftext=5,
        p_empty=3, p_manytargets=40, p_pgtitle=6, p_pmath=20, p_prev=25, p_icon=5, p_odd=8, p_extreme=2, p_tocin=1.5, p_headin=1.5, p_bibin=8,
        # sizes
        blocks=4, sections=4, depth=3, words=7, big=6,
    )

    def __init__(self, rng, **w):
        self.r = rng
        self.w = dict(self.DEFAULT, **w)
        self.n = 0
        self.labels = []
        self.titles = []

    # -- helpers
    def p(self, key):
        return self.r.random() * 100 < self.w[key]

    def pick(self, keys):
        ws = [self.w[k] for k in keys]
        if not sum(ws):
            return None
        return self.r.choices(keys, ws)[0]

    def size(self, key):
        n = self.w[key]
        if self.r.random() * 100 < self.w["big"]:
            n *= 4
        return self.r.randint(0, n)

    def label(self, a, force=False, pref="l"):
        if force or self.p("p_label"):
            self.n += 1
            lab = f"{pref}{self.r.choice(['-', '_', ''])}{self.n}"
            if pref != "b" and self.p("p_odd"):
                lab = self.r.choice(["{0}.{1}", "{0}+{1}", "{1}{0}", "{0}({1})", "{0}'{1}", "{0}&{1}", "{0}<{1}", "é{1}", "{0}\"{1}", "{0}={1}",
                                     "{0}&gt;{1}", "{0}{1}&lt", "{0}@{1}", "{0}[{1}]", "{0}~{1}", "_{0}{1}", "{0}!{1}", "A{0}{1}", "{1}"]).format(pref, self.n)
            if self.labels and self.p("p_dup"):
                lab = self.r.choice(self.labels)
            a["label"] = lab
            self.labels.append(lab)
        return a

    def types(self, a):
        if self.p("p_types"):
            a["types"] = [f"ty{self.r.randint(1, 3)}-{self.r.choice('abc')}"
                          for _ in range(self.r.randint(1, 3))]
            a["types"] = list(dict.fromkeys(a["types"]))
        return a

    def icon(self, a):
        """A mark that only handrails show."""
        if self.p("p_icon"):
            a["icon"] = self.r.choice(["heart", "star", "success", "alert", "question", "R&D", "a<b>", "x\"y", "star big"])
        return a

    def word(self):
        k = self.r.random() * 24
        for key, pool in (("uni", UNI), ("markup", MARKUP), ("escaped", ESCAPED), ("syms", SYMS)):
            if k < self.w[key]:
                return self.r.choice(pool)
            k -= self.w[key]
        if self.r.random() < .3:
            self.n += 1
            return f"w{self.n}"
        return self.r.choice(PLAIN)

    def safe_words(self, lo=1, hi=3):
        """Plain words, for places where RSM takes no escapes."""
        pool = PLAIN + UNI + ["a&b", "x<y", "<b>", "R&D", "&amp;", "'", "\""]
        return " ".join(self.r.choice([w for w in pool]) for _ in range(self.r.randint(lo, hi)))

    def title(self):
        if self.titles and self.r.random() < .08:      # titles need not be unique
            return self.r.choice(self.titles)
        s = " ".join(self.word() for _ in range(self.r.randint(1, 4)))
        self.titles.append(s)
        return s

    def verb(self, pool, n):
        sep = "\n" if self.r.random() < .1 else " "
        s = sep.join(self.r.choice(pool) for _ in range(self.r.randint(1, n)))
        return ("y " if s.startswith((":", "{")) else "") + s

    # -- inline
    def inline(self, depth=2, lo=1, kinds=None, n=None, mathblocks=False):
        kinds = kinds or ["strong", "emphas", "span", "math", "code", "ref", "cite", "url",
                          "construct", "note", "draft", "qed"]
        out = []
        n = max(lo, self.size("words")) if n is None else n
        total = self.r.randint(lo, max(lo, n))
        while len(out) < total:
            wt = 14
            x = self.r.random() * (wt + sum(self.w[k] for k in kinds))
            if x < wt or depth <= 0:
                out.append(W(self.word()))
            else:
                tok = self.token(self.pick(kinds), depth - 1, kinds)
                if tok is None:
                    out.append(W(self.word()))
                    continue
                # glue some punctuation to it
                if self.r.random() < .12 and not (tok["k"] == "url" and "text" in tok["a"]):
                    out.append(W(self.r.choice(["(", "[", "pre-", "un"])))
                    tok["g"] = True
                out.append(tok)
                if self.r.random() < .3:
                    out.append(W(self.r.choice([".", ",", ")", "s", ";", "-like", "!", ".x", "...", "..", ".)"]), g=True))
        return out

    def token(self, k, depth, kinds):
        r = self.r
        if k == "qed":
            return N("qed")
        if k in ("strong", "emphas"):
            # the delimiters do not nest within themselves
            sub = [x for x in kinds if x != k and x not in ("note", "draft")]
            return N(k, c=self.inline(depth, kinds=sub, n=3))
        if k == "span":
            a = self.types(self.label({}, pref="sp"))
            for s in ("strong", "emphas"):
                if r.random() < .3:
                    a[s] = True
            return N(k, a, self.inline(depth, kinds=kinds, n=3))
        if k == "math":
            a = self.label({}, pref="m") if r.random() < .2 else {}
            return N(k, dict(a, s=self.verb(MATH, 3)))
        if k == "code":
            a = {}
            if r.random() < .25:
                a = self.label({}, pref="c")
                if r.random() < .5:
                    a["lang"] = r.choice(LANGS)
            return N(k, dict(a, s=self.verb(CODE, 3)))
        if k == "ref":
            a = {"target": None}
            if self.p("p_overwrite"):
                a["text"] = self.safe_words() if r.random() < .7 else self.title()
            return N(k, a)
        if k == "cite":
            return N(k, {"targets": [None] * (r.randint(2, 4) if self.p("p_manytargets") else 1)})
        if k == "url":
            a = {"target": r.choice(["https://example.com/a?b=c&d=e", "https://x.org", "foo.html#bar",
                                     "https://a.b/?q=%7Ec", "mailto:a@b.c"][:3] +
                                    ["https://X.org/Path/", "../up.html", "#top", "a/b_c.html?x=*y*"][:3])}
            if self.p("p_overwrite"):
                a["text"] = self.safe_words()
            return N(k, a)
        if k == "construct":
            a = {"kind": r.choice(list(CONSTRUCTS))}
            if r.random() < .15:
                a = self.types(self.label(a, pref="k"))
            return N(k, a, self.inline(depth, kinds=kinds, n=4))
        if k == "note":
            a = self.label({}, pref="n")
            sub = [x for x in kinds if x not in ("note", "draft")]
            return N(k, a, self.inline(depth, kinds=sub, n=3))
        if k == "draft":
            a = self.label({}, pref="d") if r.random() < .2 else {}
            sub = [x for x in kinds if x not in ("note", "draft")]
            return N(k, a, self.inline(depth, kinds=sub, n=3))
        return None

    # -- blocks
    def para(self, **kw):
        a = {}
        if self.r.random() < .25:
            a = self.types(self.label(a, pref="p"))
            if self.p("p_pgtitle"):
                a["title"] = self.safe_words().replace(",", "").replace("\"", "") or "x"
        self.icon(a)
        c = self.inline(**kw)
        if self.p("p_pmath"):
            for _ in range(self.r.choice([1, 1, 2])):
                i = self.r.randint(1, len(c))
                if i < len(c) and c[i].get("g"):
                    continue
                c.insert(i, self.mathblock())
        return N("para", a, c)

    def mathblock(self):
        a = self.label({}, pref="eq")
        if self.p("p_nonum"):
            a["nonum"] = True
        if self.r.random() < .15:
            a["isclaim"] = True
        return N("mathblock", dict(a, s=self.verb(MATH, 4)))

    def block(self, depth):
        kinds = ["para", "thm", "proof", "sketch", "list", "figure", "table", "mathblock",
                 "codeblock", "algorithm"]
        if depth <= 0:
            kinds = ["para", "list", "figure", "table", "mathblock", "codeblock"]
        k = self.pick(kinds)
        return getattr(self, "b_" + k)(depth - 1)

    def b_para(self, depth):
        return self.para()

    def b_mathblock(self, depth):
        return self.mathblock()

    def b_thm(self, depth):
        a = self.types(self.label({"kind": self.r.choice(THEOREMS)}, pref="t"))
        if self.r.random() < .4:
            a["title"] = self.title()
        if self.p("p_nonum"):
            a["nonum"] = True
        if self.p("p_reftext"):
            a["reftext"] = self.r.choice(["Main result", "Thm: x", "the big result", "50% $x",
                                          "R&D <b>", "α *β*", "{x"])
        self.icon(a)
        return N("thm", a, self.blocks(depth, n=2, kinds=["para", "para", "list", "mathblock"]))

    def blocks(self, depth, n, kinds):
        out = [] if self.p("p_empty") else [self.para()]
        for _ in range(self.r.randint(0, max(0, n - 1))):
            k = self.r.choice(kinds)
            if self.w.get(k, 1):
                out.append(getattr(self, "b_" + k)(depth - 1))
        return out

    def b_sketch(self, depth):
        return N("sketch", self.icon(self.label({}, pref="sk")), self.blocks(depth, 2, ["para", "list"]))

    def b_proof(self, depth):
        a = self.icon(self.label({}, pref="pf"))
        c = []
        if self.r.random() < .25:
            c.append(self.para())
        c += self.steps(max(depth, 1), self.r.choice([0, 1, 1, 2, 3, 5]))
        if self.r.random() < .1:
            c.append(self.para())
        return N("proof", a, c)

    def steps(self, depth, n):
        return [self.step(depth, first=(i == 0)) for i in range(n)]

    def step(self, depth, first=False):
        a = self.types(self.label({}, pref="s"))
        c = [self.para()]
        if self.r.random() < .12:
            c = [getattr(self, "b_" + self.r.choice(["list", "mathblock", "codeblock", "figure"]))(0)]
        elif not first and self.p("p_prev"):
            c[0]["c"].append(N("prev", {"n": 1, "form": self.r.choice(["prev", "previous", "prevn"])}))
        for _ in range(self.r.choice([0, 0, 0, 1, 2])):
            c.append(getattr(self, "b_" + self.r.choice(["para", "list", "mathblock"]))(0))
        sub = None
        if depth > 0:
            x = self.r.random()
            if x < .25:
                sub = N("subproof", {"implicit": True}, self.steps(depth - 1, self.r.randint(1, 3)))
            elif x < .55:
                cc = self.steps(depth - 1, self.r.randint(0, 3))
                if self.r.random() < .3:
                    cc.insert(self.r.choice([0, len(cc)]), self.para())
                sub = N("subproof", self.icon(self.label({}, pref="sub")), cc)
            if sub and sub["a"].get("implicit") and self.r.random() < .15:
                c = []
        return N("step", a, c + ([sub] if sub else []))

    def b_list(self, depth):
        c = []
        for _ in range(self.r.randint(1, 4)):
            a = self.label({}, pref="i") if self.r.random() < .25 else {}
            c.append(N("item", a, self.inline()))
            if depth > 0 and self.r.random() < .2:
                c.append(self.b_list(depth - 1))
        a = {"kind": self.r.choice(["itemize", "enumerate"])}
        if self.r.random() < .2:
            self.types(self.label(a, pref="ls"))
        return N("list", a, c)

    def b_figure(self, depth):
        a = self.label({"path": self.r.choice(["assets/example.png", "fig.svg", "a&b.png", "x y.png", "x  y.png", "IMG_1.PNG", "a/b/../c.jpg", "./d.svg", "é.png"])}, pref="f")
        if self.r.random() < .3:
            a["scale"] = self.r.choice(["0.5", "2.0", "1.5"])
        if self.p("p_nonum"):
            a["nonum"] = True
        c = [N("caption", {}, self.inline(n=5))] if self.r.random() < .8 else []
        return N("figure", a, c)

    def b_table(self, depth):
        a = self.label({}, pref="tb")
        if self.p("p_nonum"):
            a["nonum"] = True
        cols = self.r.randint(1, 4)
        sub = ["strong", "emphas", "math", "ref", "cite", "code"]

        def row():
            return N("tr", {"short": self.r.random() < .5},
                     [N("td", {}, self.inline(1, kinds=sub, n=2)) for _ in range(cols)])
        c = []
        if self.r.random() < .8:
            c.append(N("thead", {}, [row() for _ in range(self.r.randint(1, 2))]))
        c.append(N("tbody", {}, [row() for _ in range(self.r.randint(1, 3))]))
        if self.r.random() < .7:
            c.append(N("caption", {}, self.inline(n=4)))
        return N("table", a, c)

    def b_codeblock(self, depth):
        a = self.label({}, pref="cb")
        if self.r.random() < .6:
            a["lang"] = self.r.choice(LANGS)
        lines = []
        for i in range(self.r.randint(1, 4)):
            s = " ".join(self.r.choice(CODE) for _ in range(self.r.randint(1, 4)))
            lines.append(("    " if i and self.r.random() < .4 else "") + s)
        if lines[0].startswith((":", "{")):
            lines[0] = "x " + lines[0]
        return N("codeblock", dict(a, s="\n".join(lines)))

    def b_algorithm(self, depth):
        a = self.label({}, pref="al")
        if self.p("p_nonum"):
            a["nonum"] = True
        lines = [r"\begin{algorithm}"]
        for _ in range(self.r.randint(1, 4)):
            lines.append("  " + self.r.choice([r"\STATE $x$", r"\IF{$p < r$}", r"\STATE a & b",
                                               r"\ENDIF", r"\STATE $i<n$ % c", r"\RETURN x"]))
        lines.append(r"\end{algorithm}")
        return N("algorithm", dict(a, s="\n".join(lines)))

    def abstract(self):
        a = {}
        if self.r.random() < .6:
            a["keywords"] = [self.r.choice(["graphs", "spectral theory", "a&b", "λ", "x-y", "Ends.", "3D", "<b>"])
                             for _ in range(self.r.randint(2, 3))]
        if self.r.random() < .5:
            a["msc"] = [self.r.choice(["05C50", "15A18", "30D", "03E", "11-XX"]) for _ in range(2)]
        if self.r.random() < .4:
            self.label(a, pref="ab")
        return N("abstract", a, [self.para()])

    def author(self):
        a = {}
        if self.r.random() < .9:
            a["name"] = self.safe_words(1, 2)
        if self.r.random() < .5:
            a["affiliation"] = self.safe_words(1, 3)
        if self.r.random() < .5:
            a["email"] = self.r.choice(["a@b.c", "x.y+z@example.com", "Ada.Byron@Example.ORG", "o'neil@x.ie", "a_b@x-y.z"])
        if not a:
            a["email"] = "a@b.c"
        if self.r.random() < .3:
            self.label(a, pref="au")
        self.icon(a)
        return N("author", a)

    def section(self, level):
        a = self.types(self.label({"level": level, "title": self.title()}, pref="sec"))
        if self.p("p_nonum"):
            a["nonum"] = True
        if self.p("p_reftext"):
            a["reftext"] = self.r.choice(["Part I", "the end", "{number", "see: this & that"])
        self.icon(a)
        c = [self.block(self.w["depth"] - 1) for _ in range(self.size("blocks"))]
        if self.p("p_tocin"):
            c.insert(self.r.randint(0, len(c)), N("toc"))
        if self.p("p_headin"):
            c.insert(self.r.randint(0, len(c)), self.abstract() if self.r.random() < .5 else self.author())
        if level < 4:
            for _ in range(self.r.choice([0, 0, 0, 1, 2, 3]) if level == 2 else self.r.choice([0, 0, 1, 2])):
                c.append(self.section(level + 1))
        return N("section", a, c)

    def bibitem(self):
        r = self.r
        kind = r.choice(["article", "book", "misc" if r.random() < .1 else "article"])
        kind = r.choice(["article", "book"])
        a = self.label({"kind": kind}, force=True, pref="b")
        a["author"] = r.choice(["Knuth, Donald E.", "A & B", "Erdős, P.", "X and Y", "<Z>", "O'Neil", "de la Vallée-Poussin", "A. B. C."])
        a["title"] = r.choice(["On things", "The <b> tag", "R&D", "Why not?", "Ende.", "λ-calculus", "A: B", "... and more", "1984", "x < y"])
        if r.random() < .8:
            a["year"] = str(r.randint(1900, 2024))
        if r.random() < .8:
            a["journal" if kind == "article" else "publisher"] = r.choice(
                ["J. Graphs", "Acta & Co.", "Press", "Ann. Math.", "Proc. A. 12.", "1999", "α"])
        if r.random() < .5:
            a["doi"] = "10.1000/" + r.choice(["xyz", "a.b-c", "x(1)2", "S0002-9947", "Abc.DEF", "a_b;c", "1/2"])
        if r.random() < .15:
            a["volume"] = str(r.randint(1, 40))
        if r.random() < .15:
            a["number"] = str(r.randint(1, 40))
        if r.random() < .1:
            a["url"] = "https://x.org/" + str(r.randint(1, 9))
        if r.random() < .2:
            # the same text in two fields
            ks = [k for k in ("author", "title", "journal", "publisher", "year") if k in a]
            a[r.choice(ks)] = a[r.choice(ks)]
            if not a.get("year", "1").isdigit():
                a["author"], a["year"] = a["year"], "1999"
        return N("bibitem", a)

    def doc(self):
        a = {}
        if self.p("p_title"):
            a["title"] = self.title()
        if self.r.random() < .2:
            self.label(a, pref="ms")
        if self.r.random() < .2:
            a["date"] = "2024-01-0%d" % self.r.randint(1, 9)
        c = []
        for _ in range(self.r.choice([0, 0, 1, 2]) if self.w["author"] else 0):
            c.append(self.author())
        if self.w["abstract"] and self.r.random() < .3:
            c.append(self.abstract())
        if self.p("p_toc"):
            c.append(N("toc"))
            if self.r.random() < .1:
                c.append(self.para())
                c.append(N("toc"))
        for _ in range(self.size("blocks")):
            c.append(self.block(self.w["depth"]))
        if self.p("p_sections"):
            n = self.size("sections")
            cut = self.r.randint(0, n) if self.p("p_appendix") else None
            for i in range(n + 1):
                if i == cut:
                    c.append(N("appendix"))
                if i < n:
                    c.append(self.section(2))
        if not c:
            c.append(self.para())
        doc = N("doc", a, c)
        if self.p("p_bib"):
            items = [self.bibitem() for _ in range(self.r.randint(1, 4))]
            at = len(doc["c"])
            if self.p("p_bibin"):
                at = self.r.randint(0, at)
            doc["c"].insert(at, N("bibliography", {}, items))
        if self.p("p_extreme"):
            self.extreme(doc)
        self.resolve(doc)
        return doc

    def extreme(self, doc):
        """Much more of something that is there already, side by side or within itself."""
        r = self.r
        wide = {"step": lambda n: self.step(0), "section": lambda n: self.section(4) if n["a"]["level"] == 4 else
                N("section", dict(self.label({"level": n["a"]["level"], "title": self.title()}, pref="sec")), [self.para(n=2)]),
                "thm": lambda n: N("thm", self.label({"kind": r.choice(THEOREMS)}, pref="t"), [self.para(n=2)]),
                "figure": lambda n: self.b_figure(0), "table": lambda n: self.b_table(0), "mathblock": lambda n: self.mathblock(),
                "algorithm": lambda n: self.b_algorithm(0), "item": lambda n: N("item", self.label({}, pref="i"), self.inline(1, n=2)),
                "bibitem": lambda n: self.bibitem(), "para": lambda n: self.para(n=2), "author": lambda n: self.author(),
                "proof": lambda n: N("proof", self.label({}, pref="pf"), self.steps(0, r.randint(0, 2))),
                "cite": lambda n: N("cite", {"targets": [None] * r.randint(1, 3)}), "ref": lambda n: N("ref", {"target": None}),
                "note": lambda n: N("note", {}, [W(self.word())]), "math": lambda n: N("math", {"s": self.verb(MATH, 1)}),
                "strong": lambda n: N("strong", {}, [W(self.word())]), "w": lambda n: W(self.word()),
                "td": None, "tr": None, "list": lambda n: self.b_list(0), "codeblock": lambda n: self.b_codeblock(0)}
        deep = {"proof": self.deep_proof, "list": self.deep_list, "para": self.deep_spans}
        spots = {}
        for n in walk(doc):
            for i, x in enumerate(n.get("c", ())):
                if x["k"] in wide and (x["k"] != "section" or x["a"]["level"] < 5):
                    spots.setdefault(x["k"], []).append((n, i))
                if x["k"] in deep:
                    spots.setdefault("deep " + x["k"], []).append((n, i))
        if not spots:
            return
        kind = r.choice(sorted(spots))
        n, i = r.choice(spots[kind])
        if kind.startswith("deep "):
            deep[kind[5:]](n["c"][i])
            return
        k = r.choice([8, 10, 12, 20, 30, 40])
        if kind == "td":
            for row in [x for m in walk(doc) if m["k"] == "table" and any(t is n for t in walk(m)) for x in walk(m) if x["k"] == "tr"]:
                row["c"] += [N("td", {}, [W(self.word())]) for _ in range(k)]
        elif kind == "tr":
            n["c"] += [N("tr", {"short": r.random() < .5}, [N("td", {}, [W(self.word())]) for _ in n["c"][0]["c"]]) for _ in range(k)]
        else:
            new = [wide[kind](n["c"][i]) for _ in range(k)]
            if n["c"][i].get("g"):
                i += 1
            while i < len(n["c"]) and n["c"][i].get("g"):
                i += 1
            if kind in ("list", "step"):
                i = min(i + 1, len(n["c"]))
            n["c"][i:i] = new
            new = [id(x) for x in new]
            if not _fits(doc):      # they may not stand there
                n["c"] = [x for x in n["c"] if id(x) not in new]

    def deep_proof(self, proof):
        steps = [self.step(0)]
        for _ in range(self.r.randint(3, 7)):
            sub = N("subproof", {"implicit": True} if self.r.random() < .5 else self.label({}, pref="sub"), steps)
            steps = [self.step(0) for _ in range(self.r.randint(0, 2))] + [N("step", self.label({}, pref="s"), [self.para(n=3), sub])]
            if self.r.random() < .4:
                steps.append(self.step(0))
        proof["c"] = [x for x in proof["c"] if x["k"] == "para"][:1] + steps

    def deep_list(self, lst):
        new = self.b_list(0)
        for _ in range(self.r.randint(3, 7)):
            outer = self.b_list(0)
            outer["c"].insert(self.r.randint(1, len(outer["c"])), new)
            new = outer
        lst["c"].append(new)

    def deep_spans(self, para):
        tok = W(self.word())
        for _ in range(self.r.randint(3, 7)):
            a = self.types(self.label({}, pref="sp")) if self.r.random() < .3 else {}
            for s in ("strong", "emphas"):
                if self.r.random() < .3:
                    a[s] = True
            tok = N("span", a, [W(self.word()), tok] + [W(self.word()) for _ in range(self.r.randint(0, 1))])
        para["c"].append(tok)

    def taken(self, doc):
        """A label that looks like those made for the page."""
        own = [n for n in walk(doc) if n["k"] not in ("w", "ref", "cite", "bibitem") and n["a"].get("label")]
        if own and self.r.random() < .12:
            dois = [f"{n['a']['label']}-doi" for n in walk(doc) if n["k"] == "bibitem" and n["a"].get("doi")]
            lab = self.r.choice([f"cite-{self.r.randint(0, 4)}", f"cite-{self.r.randint(0, 4)}-{self.r.randint(0, 2)}"] + dois)
            if lab not in self.labels:
                self.r.choice(own)["a"]["label"] = lab
                self.labels.append(lab)

    def resolve(self, doc):
        self.taken(doc)
        nonum = {n["a"].get("label") for n in walk(doc) if n["k"] != "w" and n["a"].get("nonum")}
        bibs = [n["a"]["label"] for n in walk(doc) if n["k"] == "bibitem" and n["a"]["label"] not in nonum]
        labels = [n["a"]["label"] for n in walk(doc)
                  if n["k"] not in ("w", "bibitem", "ref", "cite") and n["a"].get("label")]
        for n in walk(doc):
            if n["k"] == "ref":
                if not labels or self.p("p_unknown"):
                    n["a"]["target"] = f"nope-{self.r.randint(1, 9)}"
                else:
                    n["a"]["target"] = self.r.choice(labels)
                    if n["a"]["target"] in nonum and "text" not in n["a"]:
                        n["a"]["text"] = "here"
            elif n["k"] == "cite":
                n["a"]["targets"] = [f"unk-{self.r.randint(1, 9)}" if not bibs or self.p("p_unknown")
                                     else self.r.choice(bibs) for _ in n["a"]["targets"]]


def walk(n):
    yield n
    for c in n.get("c", ()):
        yield from walk(c)


def _fits(doc):
    doc = copy.deepcopy(doc)
    for n in walk(doc):     # targets are chosen later
        for k, v in (("target", "x"), ("targets", ["x"])):
            if k in n.get("a", {}):
                n["a"][k] = v
    return valid(doc)


# ----------------------------------------------------------------------------- validity
BADWORD = re.compile(r"[\s/}]|\\$|\\[:%$`*{#\\]")
INLINE = {"w", "strong", "emphas", "span", "math", "code", "ref", "prev", "cite", "url",
          "construct", "note", "draft", "qed"}
FLOW = {"para", "thm", "proof", "sketch", "list", "figure", "table", "mathblock", "codeblock",
        "algorithm"}


def _inline_ok(c, mb=False):
    if not c or c[0].get("g") or c[0]["k"] == "mathblock":
        return False
    return all(t["k"] in INLINE or (mb and t["k"] == "mathblock") for t in c)


def _prevs_ok(n, avail=None):
    """Every :prev: is within a step with that many steps before it."""
    seen = 0
    for c in n.get("c", ()):
        if c["k"] == "prev" and (avail is None or not 1 <= c["a"]["n"] <= avail):
            return False
        if not _prevs_ok(c, seen if c["k"] == "step" else avail):
            return False
        seen += c["k"] == "step"
    return True


def valid(n, where=None):
    """The model is in the language this harness makes promises about."""
    k, a, c = n["k"], n.get("a", {}), n.get("c", [])
    kids = [x["k"] for x in c]
    if any(isinstance(v, (str, list)) and not v for v in a.values()):
        return False
    if any(isinstance(v, str) and (v != v.strip() or v.endswith("\\")) for v in a.values()):
        return False
    if any(x in a and any(BADWORD.search(w) for w in a[x].split()) for x in ("title", "text", "reftext")):
        return False
    if k == "w":
        s = n["s"]
        return bool(s) and not BADWORD.search(s)
    if k in ("strong", "emphas", "span", "construct", "note", "draft", "item", "caption", "td"):
        if not _inline_ok(c):
            return False
    elif k == "para":
        if not _inline_ok(c, True) or "," in a.get("title", ""):
            return False
    elif k == "doc":
        if not _prevs_ok(n):
            return False
        if not c or not set(kids) <= FLOW | {"author", "abstract", "toc", "section", "appendix", "bibliography"}:
            return False
        seen = False
        for i, x in enumerate(kids):
            if x == "section":
                seen = True
                if c[i]["a"].get("level") != 2:
                    return False
            elif x == "bibliography":
                if kids.index(x) != i:
                    return False
            elif x != "appendix" and seen:
                return False
            elif x == "appendix" and i + 1 < len(c) and kids[i + 1] not in ("section", "bibliography"):
                return False
    elif k == "section":
        if not a.get("title"):
            return False
        seen = False
        for x in c:
            if x["k"] == "section":
                seen = True
                if x["a"].get("level") != a["level"] + 1:
                    return False
            elif seen or x["k"] not in FLOW | {"toc", "abstract", "author"}:
                return False
    elif k in ("math", "code", "mathblock", "codeblock"):
        if not a.get("s") or re.search(r"\\$", a["s"]) or a["s"].lstrip().startswith((":", "{")):
            return False
        if ("$" if k in ("math", "mathblock") else "`") in a["s"]:
            return False
    elif k == "algorithm":
        return bool(a.get("s"))
    elif k in ("ref", "url"):
        return bool(a.get("target"))
    elif k == "cite":
        return bool(a.get("targets"))
    elif k == "figure":
        if not a.get("path") or not set(kids) <= {"caption"} or len(kids) > 1:
            return False
    elif k == "table":
        if kids not in ([x for x in o] for o in (
                ("tbody",), ("thead", "tbody"), ("tbody", "caption"), ("thead", "tbody", "caption"))):
            return False
    elif k in ("thead", "tbody"):
        if not c or set(kids) != {"tr"}:
            return False
    elif k == "tr":
        if not c or set(kids) != {"td"}:
            return False
    elif k == "list":
        if a.get("kind") not in ("itemize", "enumerate"):
            return False
        if not c or kids[0] != "item" or not set(kids) <= {"item", "list"}:
            return False
    elif k == "proof":
        if not set(kids) <= {"para", "step"}:
            return False
    elif k == "subproof":
        if a.get("implicit") and (not c or set(kids) != {"step"}) or not set(kids) <= {"para", "step"}:
            return False
    elif k == "step":
        if not c or "subproof" in kids[:-1] or not set(kids) <= FLOW | {"subproof"}:
            return False
        if kids[0] == "subproof" and not c[0]["a"].get("implicit"):
            return False
    elif k in ("thm", "sketch", "abstract"):
        if not set(kids) <= FLOW:
            return False
        if k == "thm" and a.get("kind") not in THEOREMS:
            return False
    elif k == "bibliography":
        if not c or set(kids) != {"bibitem"}:
            return False
    elif k == "construct":
        if a.get("kind") not in CONSTRUCTS:
            return False
    elif k == "bibitem":
        return a.get("kind") in ("article", "book") and all(a.get(x) for x in ("kind", "label", "title", "author"))
    elif k == "author":
        return not c
    return all(valid(x, k) for x in c)


# ----------------------------------------------------------------------------- printer
class Style:
    """Choices that must not change the meaning of a manuscript.  rng=None: canonical."""

    def __init__(self, rng=None, comments=True, shorthand=True, indent=True, metaorder=True, inline_comments=0,
                 layout=True):
        self.r, self.ic, self.layout = rng, inline_comments, layout
        self.comments, self.short, self.ind, self.order = comments, shorthand, indent, metaorder

    def coin(self, p=.5):
        """Layout choices."""
        return self.r is not None and self.layout and self.r.random() < p

    def alt(self, p=.5):
        """Choices among equivalent notations."""
        return self.r is not None and self.short and self.r.random() < p

    def ws(self):
        if self.r is None or not self.layout:
            return " "
        x = self.r.random()
        if self.ic and self.r.random() < self.ic:
            c = "%" + self.r.choice([" note", " see :ref:x::", "", " *b* $", " {:label: q}", " ::", " :let:"])
            return self.r.choice([f" {c}\n", f"{c}\n", f"\n{c}\n", f"\n  {c}\n  "])
        return (" " if x < .6 else "\n" if x < .83 else "  " if x < .89 else "\n   " if x < .93 else "\t" if x < .97 else "\n\t")

    def sp(self, default=""):
        """White space where it carries no meaning at all."""
        if self.r is None or not self.layout:
            return default
        x = self.r.random()
        return default if x < .6 else "" if x < .7 else " " if x < .85 else "\n" if x < .93 else "\n  " if x < .97 else "  "

    def blank(self):
        return " " if self.coin(.15) else ""

    def gap(self):
        """Blank line(s) between blocks."""
        if self.r is None or not self.layout:
            return "\n\n"
        s = self.r.choice(["\n\n", "\n\n", "\n\n\n"])
        if self.comments and self.r.random() < .12:
            s += "% " + self.r.choice(["a comment", "with :tags: and $math$", "::", "x *y* {z}"]) + "\n\n"
        return s

    def pad(self):
        return self.r.choice(["", "", "  ", "    "]) if self.r and self.ind else ""


def esc(s):
    out = ""
    for ch in s:
        out += "\\" + ch if ch in DELIMS else ch
    return out


class Printer:
    def __init__(self, style=None):
        self.st = style or Style()

    def meta_items(self, a, keys):
        out = []
        for k in keys:
            if k not in a or a[k] is None or a[k] is False:
                continue
            v = a[k]
            if v is True:
                out.append(f":{k}:")
            elif isinstance(v, list):
                sp = self.st.sp
                out.append(f":{k}: " + (v[0] if len(v) == 1 else
                                        f"{{{sp()}{''.join(x + self.st.blank() + ',' + sp(' ') for x in v[:-1])}{v[-1]}{self.st.blank()}}}"))
            elif k in ("title", "reftext"):
                out.append(f":{k}: {esc(v)}")
            else:
                out.append(f":{k}: {v}")
        if self.st.r and self.st.order:
            self.st.r.shuffle(out)
        return out

    def bmeta(self, a, keys, verbatim=False):
        pad = self.st.r.choice(["  ", "    ", "", "\t"]) if self.st.r and self.st.ind else "  "
        out = ""
        for m in self.meta_items(a, keys):
            if not verbatim and self.st.ic and self.st.r.random() < self.st.ic / 2:
                out += f"\n{pad}% about"
            out += f"\n{pad}{m}"
        return out

    def imeta(self, a, keys):
        m = self.meta_items(a, keys)
        if not m:
            return ""
        sp = "" if self.st.coin(.3) else " "
        out = "{" + m[0]
        for x in m[1:]:
            out += ("" if not self.st.coin(.2) else " ") + "," + self.st.sp(" ") + x
        return out + "}" + sp

    # -- inline
    def inline(self, toks, first=True):
        out = ""
        for i, t in enumerate(toks):
            s = self.tok(t)
            if t["k"] == "mathblock":
                out += (self.sep_mb() if i else "") + s
                continue
            if i and not t.get("g"):
                out += " " if toks[i - 1]["k"] == "mathblock" and self.st.coin(.0) else self.st.ws()
            out += s
        return out

    def sep_mb(self):
        return self.st.ws()

    def tok(self, t):
        k, a, st = t["k"], t.get("a", {}), self.st
        if k == "w":
            return esc(t["s"])
        if k == "strong":
            if st.alt(.3):
                return ":span: {:strong:} " + self.inline(t["c"]) + " ::"
            return "*" + self.inline(t["c"]) + "*"
        if k == "emphas":
            if st.alt(.3):
                return ":span: {:emphas:} " + self.inline(t["c"]) + " ::"
            return "/" + self.inline(t["c"]) + "/"
        if k == "span":
            m = self.imeta(a, ["strong", "emphas", "label", "types"])
            return ":span:" + st.pad1() + m + self.inline(t["c"]) + " ::"
        if k == "math":
            m = self.imeta(a, ["label"])
            if st.alt(.3) and "::" not in a["s"]:
                return ":math: " + m + a["s"] + " ::"
            return "$" + m + a["s"] + "$"
        if k == "code":
            m = self.imeta(a, ["label", "lang"])
            if st.alt(.3) and "::" not in a["s"]:
                return ":code: " + m + a["s"] + " ::"
            return "`" + m + a["s"] + "`"
        if k == "ref":
            return (f":ref:{st.sp()}{a['target']}{st.blank()}" + (f",{st.sp(' ')}{esc(a['text'])}" if "text" in a else "")
                    + "::")
        if k == "prev":
            form = st.r.choice(["prev", "previous"]) if st.alt() else a["form"]
            if form == "previous" or a["n"] > 3:
                return f":previous:{a['n']}::"
            return f":prev{a['n']}:" if a["n"] > 1 else ":prev:"
        if k == "cite":
            out = ":cite:" + st.sp() + a["targets"][0]
            for x in a["targets"][1:]:
                out += st.blank() + "," + st.sp(" ") + x
            return out + st.blank() + "::"
        if k == "url":
            return f":url:{a['target']}" + (f", {a['text']}" if "text" in a else "") + "::"
        if k == "construct":
            return f":{a['kind']}: " + self.imeta(a, ["label", "types"]) + self.inline(t["c"]) + (" ::" if not st.coin(.3) else "\n::")
        if k == "note":
            return ":note: " + self.imeta(a, ["label"]) + self.inline(t["c"]) + " ::"
        if k == "draft":
            return ":draft: " + self.imeta(a, ["label"]) + self.inline(t["c"]) + " ::"
        if k == "qed":
            return ":qed:"
        if k == "mathblock":
            return self.b_mathblock(t)
        raise ValueError(k)

    # -- blocks
    def b_mathblock(self, n):
        a = n["a"]
        m = self.bmeta(a, ["label", "nonum", "isclaim"], True)
        if self.st.alt(.3) and "::" not in a["s"]:
            return f":mathblock:{m}\n\n{a['s']}\n\n::"
        return f"$${m}\n{a['s']}\n$$"

    def block(self, n):
        return getattr(self, "b_" + n["k"])(n)

    def body(self, blocks):
        if not blocks:
            return self.st.gap()
        first = self.st.gap()
        if blocks[0]["k"] == "para" and self.st.coin(.1):
            first = "\n"
        return first + self.st.gap().join(self.st.pad() + self.block(b) for b in blocks) + self.st.gap()

    def env(self, tag, n, keys):
        return f":{tag}:" + self.bmeta(n["a"], keys) + self.body(n["c"]) + "::"

    def b_para(self, n):
        a = n["a"]
        if any(a.get(k) for k in ("label", "types", "title", "icon")):
            return ":paragraph: " + self.imeta(a, ["title", "label", "types", "icon"]) + self.inline(n["c"])
        return self.inline(n["c"])

    def b_thm(self, n):
        return self.env(n["a"]["kind"], n, ["title", "label", "types", "nonum", "reftext", "icon"])

    def b_sketch(self, n):
        return self.env("sketch", n, ["label", "types", "icon"])

    def b_proof(self, n):
        return self.env("proof", n, ["label", "types", "icon"])

    def b_step(self, n):
        return self.env("step", n, ["label", "types"])

    def b_subproof(self, n):
        if n["a"].get("implicit"):
            return self.st.gap().join(self.block(b) for b in n["c"])
        return self.env("p", n, ["label", "types", "icon"])

    def b_list(self, n):
        return self.env(n["a"]["kind"], n, ["label", "types"])

    def b_item(self, n):
        return ":item: " + self.imeta(n["a"], ["label", "types"]) + self.inline(n["c"])

    def b_caption(self, n):
        return ":caption: " + self.inline(n["c"])

    def b_figure(self, n):
        return self.env("figure", n, ["path", "scale", "label", "types", "nonum"])

    def b_table(self, n):
        return self.env("table", n, ["label", "types", "nonum"])

    def b_thead(self, n):
        return ":thead:\n\n" + "\n\n".join(self.block(r) for r in n["c"]) + "\n\n::"

    def b_tbody(self, n):
        return ":tbody:\n\n" + "\n\n".join(self.block(r) for r in n["c"]) + "\n\n::"

    def b_tr(self, n):
        short = n["a"].get("short")
        if self.st.alt(.4):
            short = not short and all(c["c"] for c in n["c"])
        if short:
            return ":tr: " + " : ".join(self.inline(c["c"]) for c in n["c"]) + " ::"
        return ":tr:\n" + "\n".join(f":td: {self.inline(c['c'])} ::" for c in n["c"]) + "\n::"

    def b_codeblock(self, n):
        a = n["a"]
        m = self.bmeta(a, ["label", "lang"], True)
        if self.st.alt(.5) and "::" not in a["s"]:
            return f":codeblock:{m}\n\n{a['s']}\n\n::"
        return f"```{m}\n\n{a['s']}\n\n```"

    def b_algorithm(self, n):
        return f":algorithm:{self.bmeta(n["a"], ["label", "nonum"], True)}\n\n{n['a']['s']}\n\n::"

    def b_abstract(self, n):
        return self.env("abstract", n, ["keywords", "msc", "label"])

    def b_author(self, n):
        return ":author:" + self.bmeta(n["a"], ["name", "affiliation", "email", "label", "icon"]) + "\n::"

    def b_toc(self, n):
        return ":toc: ::"

    def b_appendix(self, n):
        return ":appendix:"

    def b_bibliography(self, n):
        return ":bibliography: ::"

    def b_section(self, n):
        a = n["a"]
        name = {2: "section", 3: "subsection", 4: "subsubsection"}[a["level"]]
        keys = ["label", "types", "nonum", "reftext", "icon"]
        if self.st.alt(.4):
            head = f":{name}:" + self.bmeta(a, ["title"] + keys)
        else:
            head = "#" * a["level"] + " " + esc(a["title"]) + self.bmeta(a, keys)
        return self.st.gap().join([head] + [self.block(b) for b in n["c"]])

    def doc(self, n):
        a = n["a"]
        out = ":rsm:"
        if a.get("title") and not (self.st.alt(.5)):
            out += "\n# " + esc(a["title"]) + self.bmeta(a, ["label", "date", "types"])
        else:
            out += self.bmeta(a, ["title", "label", "date", "types"])
        out += self.st.gap() + self.st.gap().join(self.block(b) for b in n["c"]) + self.st.gap() + "::\n"
        bib = [b for b in n["c"] if b["k"] == "bibliography"]
        if bib:
            out += "\n:bibtex:\n\n"
            for it in bib[0]["c"]:
                x = it["a"]
                out += f"@{x['kind']}{{{x['label']},\n"
                fields = [f"  {k}={{{x[k]}}}" for k in ("title", "author", "year", "journal", "publisher",
                                                        "volume", "number", "url", "doi") if k in x]
                if self.st.r and self.st.order:
                    self.st.r.shuffle(fields)
                out += ",\n".join(fields) + "\n}\n\n"
            out += "::\n"
        return out


def _pad1(self):
    return "" if self.coin(.3) else " "


Style.pad1 = _pad1


def to_source(doc, style=None):
    return Printer(style).doc(doc)


clone = copy.deepcopy
