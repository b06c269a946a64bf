"""Suites over generated manuscripts: the model of the manuscript predicts the page."""
import collections
import random
import re

import boot  # noqa: F401
import docgen
import dom
import refmodel
import run
import shrink as shr
from harness import Suite, V


def canon_html(html):
    return dom.canon(run.parsed(html))


def nodes_of(c):
    """Preorder over a canonical tree."""
    st = [c]
    while st:
        n = st.pop()
        yield n
        st += [k for k in reversed(n[4]) if not isinstance(k, str)]


def text_of(c):
    return "".join(k if isinstance(k, str) else text_of(k) for k in c[4])


# ------------------------------------------------------------------ projections
def full(c):
    return dom.show(c)


def structure(c, ind=0):
    """Nesting of elements and their classes, with text reduced to its presence."""
    out = ["  " * ind + c[0] + "".join("." + x for x in c[2])]
    for k in c[4]:
        if isinstance(k, str):
            out.append("  " * (ind + 1) + "text")
        else:
            out += structure(k, ind + 1)
    return out


def texts(c):
    """The text of every element that contains text directly, in order."""
    out = []
    for n in nodes_of(c):
        for k in n[4]:
            if isinstance(k, str) and k.strip():
                out.append(f"{n[0]}: {k}")
        for k, v in n[3]:
            if k in ("alt", "src"):
                out.append(f"{n[0]} {k}: {v}")
    return out


def ids(c):
    return [f"{n[0]}#{n[1]}" for n in nodes_of(c) if n[1]]


def references(c):
    out = []
    for n in nodes_of(c):
        if n[0] == "a" and "reference" in n[2] and not {"cite", "backlink"} & set(n[2]):
            out.append(f"{dict(n[3]).get('href')} {text_of(n)!r}")
        elif n[0] == "span" and "error" in n[2]:
            out.append(f"error {text_of(n)!r}")
        elif n[0] == "a" and not n[2]:
            out.append(f"url {dict(n[3]).get('href')} {text_of(n)!r}")
    return out


def citations(c):
    out = []
    for n in nodes_of(c):
        if n[0] == "a" and {"cite", "backlink", "bibitem-doi"} & set(n[2]):
            out.append(f"{' '.join(n[2])} #{n[1]} {dict(n[3]).get('href')} {text_of(n)!r}")
        elif "bibitem" in n[2]:
            out.append(f"bibitem #{n[1]} {text_of(n)!r}")
        elif n[0] == "section" and any(not isinstance(k, str) and "bibliography" in k[2] for k in n[4]):
            out.append("bibliography")
        # the surroundings of a citation
        for i, k in enumerate(n[4]):
            if not isinstance(k, str) and (k[1] or "").startswith("cite-"):
                a = n[4][i - 1] if i else ""
                b = n[4][i + 1] if i + 1 < len(n[4]) else ""
                out.append(f"{a[-1:] if isinstance(a, str) else ''}...{b[:1] if isinstance(b, str) else ''}")
    return out


def numbers(c):
    """Headings, labels of theorems, captions, and the text of every reference."""
    out = []
    for n in nodes_of(c):
        if n[0] in ("h1", "h2", "h3", "h4") or "label" in n[2] or "alt" in dict(n[3]):
            out.append(f"{n[0]} {text_of(n)!r} {dict(n[3]).get('alt', '')}")
        elif n[0] == "a" and "reference" in n[2]:
            out.append(f"ref {dict(n[3]).get('href')} {text_of(n)!r}")
        elif "bibitem" in n[2]:
            out.append(f"bibitem {text_of(n)[:4]!r}")
    return out


def subtree(*classes, tags=()):
    """Complete subtrees of the elements with one of the classes."""
    def proj(c):
        out, st = [], [c]
        while st:
            n = st.pop()
            if set(n[2]) & set(classes) or n[0] in tags:
                out += dom.show(n)
            else:
                st += [k for k in reversed(n[4]) if not isinstance(k, str)]
        return out
    return proj


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<nothing>"
        y = b[i] if i < len(b) else "<nothing>"
        if x != y:
            ctx = "".join("\n      " + l for l in a[max(0, i - 3):i])
            return f"after{ctx}\n expected {x.strip()}\n found    {y.strip()}"
    return None


# ------------------------------------------------------------------ suites
NUMBERED = {"section", "thm", "figure", "table", "mathblock", "algorithm", "step"}
NOISE = re.compile(r"numbered within .* but no such ancestor")


class DocSuite(Suite):
    """case = {"doc": model, "style": None or a seed for the free choices of the printer}"""
    weights = {}
    styled = .5
    proj = staticmethod(full)
    kind = "page differs"
    rule = "generated manuscripts"
    vary = ()          # alternative weights, picked at random

    def gen(self, rng):
        w = dict(self.weights)
        if self.vary and rng.random() < .6:
            w.update(rng.choice(self.vary))
        doc = docgen.Gen(rng, **w).doc()
        return {"doc": doc, "style": rng.randrange(10 ** 6) if rng.random() < self.styled else None}

    def source(self, case):
        st = case["style"]
        return docgen.to_source(case["doc"], docgen.Style(random.Random(st)) if st is not None else None)

    def show(self, case):
        try:
            return self.source(case)
        except Exception as e:
            return repr(case)

    def ok(self, case, src):
        return docgen.valid(case["doc"]) and run.cst_clean(src)

    def run(self, case):
        src = self.source(case)
        if not self.ok(case, src):
            return {"skipped"}
        ref = refmodel.Ref(case["doc"])
        self.check(case, src, ref)
        return self.classes(case, ref)

    def check(self, case, src, ref):
        html, recs = run.render(src)
        if not html:
            raise V("nothing rendered", [r.getMessage() for r in recs])
        self.compare(refmodel.expected(case["doc"], ref), html)

    def compare(self, exp, html):
        d = first_diff(self.proj(dom.canon(exp)), self.proj(canon_html(html)))
        if d:
            raise V(self.kind, d)

    def classes(self, case, ref):
        c = collections.Counter(n["k"] for n in ref.order)
        out = {k for k in c if k != "w"}
        if self.nontrivial(case, ref, c):
            out.add("!nontrivial")
        return out

    def nontrivial(self, case, ref, c):
        return len(c) >= 6

    def shrink(self, case, fails):
        if case["style"] is not None and fails(dict(case, style=None)):
            case = dict(case, style=None)
        doc = shr.shrink(case["doc"], lambda d: fails(dict(case, doc=d)), max_s=45)
        return dict(case, doc=doc)


def expected_warnings(doc, ref):
    """What a well-formed manuscript deserves to be told, as (word, label or field) pairs."""
    out = list(ref.warnings)
    tocs = sum(n["k"] == "toc" for n in ref.order)
    out += ["Multiple Tables of Content found, using only first one"] * (tocs - 1 if tocs else 0)
    return out
