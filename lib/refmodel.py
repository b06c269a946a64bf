"""Reference translation of a model (see docgen) to the HTML tree expected of RSM.

Written from the documentation, the tests and the observable behaviour; it shares no code with
the implementation: numbering, labels, references and citations are computed on the model.
"""
import itertools
import string

from docgen import CONSTRUCTS, NOT_ASSUMPTION, THEOREMS, walk
from dom import El

CLASSNAME = {"thm": None, "para": "Paragraph", "proof": "Proof", "sketch": "Sketch",
             "list": None, "item": "Item", "figure": "Figure", "table": "Table",
             "mathblock": "MathBlock", "codeblock": "CodeBlock", "algorithm": "Algorithm",
             "abstract": "Abstract", "author": "Author", "span": "Span", "math": "Math",
             "code": "Code", "note": "Note", "step": "Step", "subproof": "Subproof",
             "doc": "Manuscript", "construct": "Construct", "draft": "Draft"}
SEC = {2: "Section", 3: "Subsection", 4: "Subsubsection"}


def letters():
    for n in itertools.count(1):
        for t in itertools.product(string.ascii_uppercase, repeat=n):
            yield "".join(t)


class Ref:
    """Numbers, labels, reference texts and warnings of a model."""

    def __init__(self, doc):
        self.doc = doc
        self.warnings = []
        self.label = {}      # id(node) -> effective label
        self.by_label = {}   # label -> node
        self.num = {}        # id(node) -> number string
        self.cite_id = {}
        self.backlinks = {}
        self.appendix = set()
        self.order = list(walk(doc))
        self.parent = {}
        for n in self.order:
            for c in n.get("c", ()):
                self.parent[id(c)] = n
        self._labels()
        self._pending()
        self._numbers()

    def _labels(self):
        for n in self.order:
            lab = n.get("a", {}).get("label")
            if not lab:
                continue
            if lab in self.by_label:
                self.warnings.append(f"Duplicate label {lab}, using first encountered")
                continue
            self.by_label[lab] = n
            self.label[id(n)] = lab

    def _pending(self):
        k = itertools.count()
        self.refs = []
        for n in self.order:
            if n["k"] == "ref":
                if n["a"]["target"] not in self.by_label:
                    self.warnings.append(f"Reference to nonexistent label \"{n['a']['target']}\"")
            elif n["k"] == "cite":
                for t in n["a"]["targets"]:
                    if t not in self.by_label:
                        self.warnings.append(f'Reference to nonexistent label "{t}"')
                ts = n["a"]["targets"]
                more = [f"-{i}" for i in range(len(ts))] if len(ts) > 1 else []
                lab = next(f"cite-{i}" for i in k if not any(f"cite-{i}{m}" in self.by_label for m in [""] + more))
                self.cite_id[id(n)] = lab
                for t in n["a"]["targets"]:
                    if t in self.by_label and self.by_label[t]["k"] == "bibitem":
                        self.backlinks.setdefault(t, []).append(lab)
            elif n["k"] == "prev":
                if not self.label.get(id(self.prev_step(n))):
                    self.warnings.append(":prev: references un-labeled step, link will not work")

    def prev_step(self, n):
        step = self.parent[id(n)]
        while step["k"] != "step":
            step = self.parent[id(step)]
        sibs = [s for s in self.parent[id(step)]["c"] if s["k"] == "step"]
        i = next(i for i, s in enumerate(sibs) if s is step)
        j = i - n["a"]["n"]
        return sibs[j] if j >= 0 else None

    # -- numbering
    def _numbers(self):
        glob = {}
        sec = [None]
        within_appendix = False
        lett = None
        # scope: which counters restart at which level
        secn = itertools.count(1)
        subn = itertools.count(1)
        subsubn = itertools.count(1)
        local = {}
        cur = {2: None, 3: None}

        def inc(d, key):
            d[key] = d.get(key, 0) + 1
            return str(d[key])

        def visit(n):
            nonlocal secn, subn, subsubn, local, within_appendix, lett
            k, a = n["k"], n.get("a", {})
            if k == "appendix":
                if not within_appendix:
                    lett = letters()
                within_appendix = True
            elif k == "section":
                lvl = a["level"]
                if not a.get("nonum"):
                    if lvl == 2:
                        own = next(lett) if lett else str(next(secn))
                        self.num[id(n)] = own
                        subn, local = itertools.count(1), {}
                    elif lvl == 3:
                        own = str(next(subn))
                        subsubn = itertools.count(1)
                        up = self.num.get(id(self.parent[id(n)]))
                        self.num[id(n)] = f"{up}.{own}" if up else own
                    else:
                        own = str(next(subsubn))
                        up = self.num.get(id(self.parent[id(n)]))
                        self.num[id(n)] = f"{up}.{own}" if up else own
                    if within_appendix:
                        self.appendix.add(id(n))
            elif k in ("thm", "mathblock", "figure") and not a.get("nonum"):
                own = inc(local, k)
                s = n
                while s["k"] not in ("doc",) and not (s["k"] == "section" and s["a"]["level"] == 2):
                    s = self.parent[id(s)]
                up = self.num.get(id(s)) if s["k"] == "section" else None
                self.num[id(n)] = f"{up}.{own}" if up else own
            elif k in ("table", "algorithm", "bibitem") and not a.get("nonum"):
                self.num[id(n)] = inc(glob, k)
            elif k in ("proof", "subproof"):
                self._steps(n)
            elif k == "step":
                p = n["c"][-1] if n["c"] else None
            for c in n.get("c", ()):
                visit(c)
        visit(self.doc)

    def _steps(self, n):
        i = 0
        for s in n["c"]:
            if s["k"] != "step":
                continue
            i += 1
            owner = self.parent[id(n)] if n["k"] == "subproof" else None
            up = self.num.get(id(owner)) if owner is not None and owner["k"] == "step" else None
            self.num[id(s)] = f"{up}.{i}" if up else str(i)

    # -- reference texts
    def classname(self, n):
        k, a = n["k"], n["a"]
        if k == "thm":
            return a["kind"].capitalize()
        if k == "list":
            return a["kind"].capitalize()
        if k == "section":
            return SEC[a["level"]]
        return CLASSNAME[k]

    def reftext(self, n):
        a, num = n["a"], self.num.get(id(n), "")
        if n["k"] == "bibitem":
            return num
        if a.get("reftext"):
            return a["reftext"].strip()
        if n["k"] == "section":
            if id(n) in self.appendix and a["level"] == 2:
                return f"Appendix {num}".strip()
            return f"Section {num}".strip()
        if n["k"] == "mathblock":
            return f"({num})"
        if n["k"] == "step":
            return f"Step ⟨{num}⟩"
        if n["k"] == "codeblock":
            return f"Code Listing {num}".strip()
        return f"{self.classname(n)} {num}".strip()


class Html:
    """Builds the expected plain HTML as a tree of dom.El."""

    def __init__(self, doc, ref=None):
        self.doc, self.r = doc, ref or Ref(doc)

    def build(self):
        root = El("#root")
        d = self.doc
        sec = self.el("section", ["level-1"])
        if d["a"].get("title"):
            sec.kids.append(self.el("h1", kids=[d["a"]["title"]]))
        for c in d["c"]:
            sec.kids += self.block(c)
        m = self.el("div", ["manuscript"] + d["a"].get("types", []), self.lab(d), [sec])
        root.kids.append(self.el("body", kids=[self.el("div", ["manuscriptwrapper"], kids=[m])]))
        return root

    def el(self, tag, cls=(), id="", kids=(), **attrs):
        a = {}
        if id:
            a["id"] = id
        if cls:
            a["class"] = " ".join(cls)
        a.update({k: v for k, v in attrs.items() if v})
        return El(tag, a, list(kids))

    def lab(self, n):
        return self.r.label.get(id(n), "")

    def types(self, n):
        return n["a"].get("types", [])

    def blocks(self, cs):
        return [e for c in cs for e in self.block(c)]

    def block(self, n):
        r = getattr(self, "b_" + n["k"])(n)
        return r if isinstance(r, list) else [r]

    # -- inline
    def inline(self, toks):
        out = []
        for i, t in enumerate(toks):
            if i and not t.get("g"):
                out.append(" ")
            out += self.tok(t)
        return out

    def tok(self, t):
        k, a = t["k"], t.get("a", {})
        if k == "w":
            return [t["s"]]
        if k in ("strong", "emphas"):
            return [self.el("span", ["span"], kids=[
                self.el("strong" if k == "strong" else "em", kids=self.inline(t["c"]))])]
        if k == "span":
            kids = self.inline(t["c"])
            for s, tag in (("emphas", "em"), ("strong", "strong")):
                if a.get(s):
                    kids = [self.el(tag, kids=kids)]
            return [self.el("span", ["span"] + self.types(t), self.lab(t), kids)]
        if k == "math":
            return [self.el("span", ["math"], self.lab(t), ["\\(" + a["s"] + "\\)"])]
        if k == "code":
            cls = ["highlight", a["lang"]] if a.get("lang") not in (None, "nosuchlang") else []
            return [self.el("span", ["code"], self.lab(t), [self.el("code", cls, kids=[a["s"]])])]
        if k == "ref":
            n = self.r.by_label.get(a["target"])
            if n is None:
                return [self.el("span", ["error"], kids=[f"[unknown label \"{a['target']}\"]"])]
            return [self.el("a", ["reference"], kids=[a.get("text") or self.r.reftext(n)],
                            href="#" + a["target"])]
        if k == "prev":
            n = self.r.prev_step(t)
            return [self.el("a", ["reference"], kids=[self.r.reftext(n)], href="#" + self.lab(n))]
        if k == "cite":
            lab = self.r.cite_id[id(t)]
            many = len(a["targets"]) > 1
            links = []
            for i, key in enumerate(a["targets"]):
                b = self.r.by_label.get(key)
                cls = ["reference", "cite"] + ([] if b or many else ["unknown"])
                if links:
                    links.append(", ")
                links.append(self.el("a", cls, f"{lab}-{i}" if many else lab,
                                     [self.r.reftext(b) if b else f'[unknown label "{key}"]'],
                                     href="#" + (key if b else "")))
            if many:
                links = [self.el("span", id=lab, kids=links)]
            return ["["] + links + ["]"]
        if k == "url":
            return [self.el("a", kids=[a.get("text") or a["target"]], href=a["target"])]
        if k == "construct":
            cls = ["construct"] + self.types(t) + [a["kind"]]
            if a["kind"] not in NOT_ASSUMPTION:
                cls.append("assumption")
            return [self.el("span", cls, self.lab(t), kids=[self.el("span", ["keyword"], kids=[CONSTRUCTS[a["kind"]]]), " "]
                            + self.inline(t["c"]))]
        if k == "note":
            return [self.el("span", ["note"], kids=[
                self.el("sup", ["note__number"], kids=[self.el("a", ["note__link"], kids=[])]),
                self.el("span", ["note__content"], self.lab(t), self.inline(t["c"]))])]
        if k == "qed":
            return [self.el("span", ["construct", "qed"], kids=[self.el("span", ["keyword"], kids=["QED"])])]
        if k == "draft":
            return [self.el("span", ["draft"], self.lab(t), kids=["[ "] + self.inline(t["c"]) + [" ]"])]
        raise ValueError(k)

    # -- blocks
    def b_para(self, n):
        a = n["a"]
        p = self.el("p")
        if a.get("title"):
            p.kids.append(self.el("span", ["pg-label"], kids=[a["title"] + "."]))
        kids, cur = [p], p
        for i, t in enumerate(n["c"]):
            if t["k"] == "mathblock":
                kids += self.block(t)
                cur = None
                continue
            if cur is None:
                cur = self.el("p")
                kids.append(cur)
            elif i and not t.get("g"):
                cur.kids.append(" ")
            cur.kids += self.tok(t)
        return self.el("div", ["paragraph"] + self.types(n), self.lab(n), kids)

    def b_mathblock(self, n):
        m = self.el("div", ["mathblock"], self.lab(n), ["$$" + n["a"]["s"] + "$$"])
        if n["a"].get("isclaim"):
            m = self.el("div", ["claimblock"], kids=[self.el("span", ["keyword"], kids=["⊢"]), m])
        return m

    def title(self, label, desc=None):
        kids = [self.el("span", ["span", "label"], kids=[label])]
        if desc:
            kids.append(self.el("span", ["span", "desc"], kids=[desc]))
        return self.el("div", ["paragraph", "hr-label"], kids=[self.el("p", kids=kids)])

    def b_thm(self, n):
        a = n["a"]
        num = self.r.num.get(id(n))
        lab = a["kind"].capitalize() + (f" {num}" if num else "") + (": " if a.get("title") else ".")
        return self.el("div", [a["kind"], "theorem"] + self.types(n), self.lab(n),
                       [self.title(lab, a.get("title"))] + self.blocks(n["c"]))

    def b_sketch(self, n):
        return self.el("div", ["sketch"] + self.types(n), self.lab(n),
                       [self.title("Proof sketch.")] + self.blocks(n["c"]))

    def b_proof(self, n):
        steps = [s for s in n["c"] if s["k"] == "step"]
        self.last = getattr(self, "last", set())
        if steps:
            self.last.add(id(steps[-1]))
        return self.el("div", ["proof"] + self.types(n), self.lab(n),
                       [self.title("Proof.")] + self.blocks(n["c"]) + [self.el("div", ["halmos"])])

    def b_step(self, n):
        sub = [c for c in n["c"] if c["k"] == "subproof"]
        st = [c for c in n["c"] if c["k"] != "subproof"]
        kids = [self.el("div", ["statement"], kids=self.blocks(st))] + self.blocks(sub)
        return self.el("div", ["step"] + self.types(n) + (["last"] if id(n) in self.last else []),
                       self.lab(n), kids)

    def b_subproof(self, n):
        return self.el("div", ["subproof"] + self.types(n), self.lab(n), self.blocks(n["c"]))

    def b_list(self, n):
        return self.el("ul" if n["a"]["kind"] == "itemize" else "ol", [n["a"]["kind"]] + self.types(n),
                       self.lab(n), self.blocks(n["c"]))

    def b_item(self, n):
        return self.el("li", ["item"] + self.types(n), self.lab(n), self.inline(n["c"]))

    def caption(self, n, tag, name):
        num = self.r.num.get(id(self.r.parent[id(n)]), "")
        return self.el(tag, kids=[self.el("span", ["label"], kids=[f"{name} {num}".strip() + ". "])]
                       + self.inline(n["c"]))

    def b_figure(self, n):
        a = n["a"]
        num = self.r.num.get(id(n), "")
        sc = a.get("scale")
        kids = [self.el("img", src=a["path"], alt=f"Figure {num}".strip() + ".",
                        onload=f"this.width*={float(sc)};" if sc and float(sc) != 1 else "")]
        kids += [self.caption(c, "figcaption", "Figure") for c in n["c"]]
        return self.el("figure", ["figure"] + self.types(n), self.lab(n), kids)

    def b_table(self, n):
        kids = []
        for c in n["c"]:
            if c["k"] == "caption":
                kids.append(self.caption(c, "caption", "Table"))
            else:
                rows = [self.el("tr", ["tablerow"], kids=[
                    self.el("td", ["tabledatum"], kids=self.inline(d["c"])) for d in r["c"]])
                    for r in c["c"]]
                kids.append(self.el(c["k"], ["tablehead" if c["k"] == "thead" else "tablebody"], kids=rows))
        return self.el("table", ["table"] + self.types(n), self.lab(n), kids)

    def b_codeblock(self, n):
        a = n["a"]
        cls = ["highlight", a["lang"]] if a.get("lang") not in (None, "nosuchlang") else []
        return self.el("div", ["codeblock"], self.lab(n), [self.el("pre", kids=[
            self.el("code", cls, kids=[a["s"]])])])

    def b_algorithm(self, n):
        return self.el("div", ["algorithm"], self.lab(n), [self.el("pre", ["pseudocode"], kids=[n["a"]["s"]])])

    def b_abstract(self, n):
        a = n["a"]
        kids = [self.el("h3", kids=["Abstract"])] + self.blocks(n["c"])
        if a.get("keywords"):
            kids.append(self.el("p", ["keywords"], kids=["Keywords: " + ", ".join(a["keywords"])]))
        if a.get("msc"):
            kids.append(self.el("p", ["msc"], kids=["MSC: " + ", ".join(a["msc"])]))
        return self.el("div", ["abstract"], self.lab(n), kids)

    def b_author(self, n):
        a = n["a"]
        kids = [self.el("p", kids=[a[k]]) for k in ("name", "affiliation") if a.get(k)]
        if a.get("email"):
            kids.append(self.el("p", kids=[self.el("a", kids=[a["email"]], href="mailto:" + a["email"])]))
        return self.el("div", ["author"], self.lab(n), [self.el("div", ["paragraph"], kids=kids)] if kids else [])

    def b_appendix(self, n):
        return []

    def b_toc(self, n):
        first = next(c for c in walk(self.doc) if c["k"] == "toc")
        if n is not first:
            return []

        def item(s):
            a = s["a"]
            num = self.r.num.get(id(s))
            kids = [self.el("a", ["reference"], kids=[(f"{num}. " if num else "") + a["title"]],
                            href="#" + self.lab(s))]
            sub = [c for c in s["c"] if c["k"] == "section"]
            if sub:
                kids.append(self.el("ul", ["itemize"], kids=[item(c) for c in sub]))
            return self.el("li", ["item"], kids=kids)
        ul = self.el("ul", ["contents"], self.lab(n),
                     [item(s) for s in self.doc["c"] if s["k"] == "section"])
        return self.el("div", ["toc"], kids=[self.el("h3", kids=["Table of Contents"]),
                                             self.el("div", ["toc-wrapper"], kids=[ul])])

    def b_section(self, n):
        a = n["a"]
        num = self.r.num.get(id(n))
        name = SEC[a["level"]].lower()
        h = self.el(f"h{a['level']}", kids=[(f"{num}. " if num else "") + a["title"]])
        return self.el("section", [name, f"level-{a['level']}"] + self.types(n), self.lab(n),
                       [h] + self.blocks(n["c"]))

    def b_bibliography(self, n):
        ol = self.el("ol", ["bibliography"], kids=[self.bibitem(b) for b in n["c"]])
        return self.el("section", ["level-2"], kids=[self.el("h2", kids=["References"]), ol])

    def bibitem(self, n):
        a, lab = n["a"], self.lab(n)
        parts = [self.r.num[id(n)], a["author"], f'"{a["title"]}"']
        venue = a.get("journal") if a["kind"] == "article" else a.get("publisher")
        parts += [x for x in (venue, a.get("year")) if x]
        kids = [". ".join(x.strip(".") for x in parts) + "."]
        if a.get("doi"):
            kids += [" ", self.el("a", ["bibitem-doi"], f"{lab}-doi" if lab and f"{lab}-doi" not in self.r.by_label else "", ["[link]"],
                                  href="https://doi.org/" + a["doi"], target="_blank")]
        back = self.r.backlinks.get(lab, [])
        if back:
            kids += [El("br"), "["]
            for i, b in enumerate(back, 1):
                if i > 1:
                    kids.append(",")
                kids.append(self.el("a", ["reference", "backlink"], kids=[f"↖{i}"], href="#" + b))
            kids.append("]")
        return self.el("li", ["bibitem"], lab, kids)


def expected(doc, ref=None):
    return Html(doc, ref).build()
