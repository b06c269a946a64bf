"""C23: each handrail tells the truth about the element it belongs to."""
import common  # noqa: F401
import html as _html
import re

import harness
import hr
import refmodel
import rsm
import run
import suites
from harness import V
from suites import DocSuite

PARTS = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-content-zone", "hr-info-zone"]


def read(e):
    """What a handrail offers, as (menu label, {item: enabled}, button, info)."""
    z = {}
    for k in e.els():
        for c in k.classes:
            if c in PARTS:
                if c in z:
                    raise V("zone twice", (e, c))
                z[c] = k
    if [c for k in e.els() for c in k.classes if c in PARTS] != PARTS:
        raise V("zones of a handrail", (e, list(z)))
    menu = z["hr-menu-zone"]
    label = menu.find(cls="hr-menu-label")
    label = " ".join(label[0].text().split()) if label else ""
    items = {}
    for it in menu.find(cls="hr-menu-item"):
        items[" ".join(it.text().split())] = "disabled" not in it.classes
    button = bool(z["hr-collapse-zone"].find(cls="hr-collapse"))
    info = " ".join(z["hr-info-zone"].text().split())
    for i in z["hr-info-zone"].find(cls="icon"):
        if i.classes != ["icon", "ext"]:
            info += "+" + " ".join(i.classes[1:])
    return label, items, button, info


ICONS = {"heading", "author", "paragraph", "sketch", "proof"} | set(refmodel.THEOREMS)


class Model:
    """The handrails that a manuscript deserves, in document order."""

    def __init__(self, doc, ref):
        self.r, self.out = ref, []
        self.toc = False
        if doc["a"].get("title"):
            self.add("heading", None, "Title", link=True, button=True)
        self.kids(doc)

    def add(self, what, n, label, link=None, button=True, info="", extra=(), source=True):
        if n and what in ICONS and n["a"].get("icon"):
            info += "+" + n["a"]["icon"]
        if link is None:
            link = bool(self.r.label.get(id(n)))
        items = dict(extra)
        if link != "none":
            items["Copy link"] = link
        items.update({"Tree": True, "Source": True} if source else {})
        self.out.append((what, label, items, button, info))

    def kids(self, n):
        for c in n.get("c", ()):
            self.visit(c)

    def visit(self, n):
        k, a = n["k"], n.get("a", {})
        name = self.r.reftext(n) if k in refmodel.CLASSNAME or k == "section" else ""
        if k == "section":
            self.add("heading", n, name)
        elif k == "abstract":
            self.add("heading", n, name)
        elif k == "toc":
            if self.toc:
                return
            self.toc = True
            self.add("heading", n, "Contents")
        elif k == "bibliography":
            self.add("heading", n, "Bibliography", link=False)
        elif k == "author":
            self.add("author", n, name, button=False)
        elif k == "para":
            self.add("paragraph", n, name, button=False)
        elif k == "thm":
            self.add(a["kind"], n, name)
        elif k == "sketch":
            self.add("sketch", n, name)
        elif k == "proof":
            self.add("proof", n, name, extra={"Collapse all": True})
        elif k == "subproof":
            self.out.append(("subproof", "", {}, False, "+" + a["icon"] if a.get("icon") else ""))
        elif k == "step":
            sub = [c for c in n["c"] if c["k"] == "subproof"]
            steps = any(c["k"] == "step" for s in sub for c in s["c"])
            self.add("step", n, name, button=False, info=f"\u27e8{self.r.num[id(n)]}\u27e9",
                     extra={"Collapse": bool(sub), "Collapse all": steps})
        elif k == "mathblock":
            num = self.r.num.get(id(n))
            self.add("mathblock", n, "Equation" if a.get("nonum") else "Equation " + self.r.reftext(n), button=False,
                     info=f"({num})" if num else "")
            return
        elif k == "bibitem":
            self.add("bibitem", n, "", link="none", button=False, info="")
        self.kids(n)


def norm(label):
    # a node without a number is called "Theorem None", as pinned by the tests
    return re.sub(r"\s*\bNone\b\.?", "", label).strip()


class Rails(DocSuite):
    name = "rails"
    quick, thorough = 2200, 200000
    rule = ("a generated manuscript with handrails; each handrail has its six zones once, in order, zones occur nowhere else, and "
            "the sequence of handrails (element, menu label, menu items and which are enabled, collapse button, number) must be "
            "that of the model; the menu offers a link exactly when there is an anchor to link to; non-trivial: a step with a "
            "subproof or a labeled theorem")
    weights = dict(proof=8, thm=8)
    vary = [dict(proof=16, depth=5), dict(p_label=90), dict(p_label=15), dict(p_nonum=50), dict(p_bib=100), dict(p_toc=90), dict(mathblock=9),
            dict(p_appendix=80, p_sections=100), dict(p_types=60), dict(author=5, abstract=4), dict(p_title=40), dict(p_icon=50)]

    def check(self, case, src, ref):
        html, _ = run.render(src, handrails=True)
        root = run.parsed(html)
        check_page(root)
        got = []
        for e in hr.rails(root):
            label, items, button, info = read(e)
            what = next((c for c in e.classes + e.parent.classes[:1] if c in KINDS), None)
            got.append((what, norm(label), sorted(items.items()), button, info))
        exp = [(w, norm(lb), sorted(it.items()), b, i) for w, lb, it, b, i in Model(case["doc"], ref).out]
        d = suites.first_diff([repr(x) for x in exp], [repr(x) for x in got])
        if d:
            raise V("handrails differ", d)
        dois = [n["a"].get("doi") for n in ref.order if n["k"] == "bibitem"]
        zones = [[a.attrs.get("href") for a in hr.zone(e, "hr-info-zone")[0].find(tag="a")] for e in hr.rails(root)
                 if "bibitem" in e.parent.classes]
        if zones != [["https://doi.org/" + d] if d else [] for d in dois]:
            raise V("link of a bibliography entry", (dois, zones))
        for e in hr.rails(root):
            link = [i for i in hr.zone(e, "hr-menu-zone")[0].find(cls="hr-menu-item") if "link" in i.classes]
            if link:
                # where the client takes the anchor from
                if "heading" in e.classes:
                    s = e.parent
                    anchor = s.id or any(k.id for k in s.find(tag="ul", cls="contents")) or \
                        (s.tag == "section" and "level-1" in s.classes)
                else:
                    anchor = e.id
                if bool(anchor) != ("disabled" not in link[0].classes):
                    raise V("copy link", (e, anchor))
            z = e.els()
            content = next(k for k in z if "hr-content-zone" in k.classes)
            if "hr-labeled" in e.classes and not any("hr-label" in k.classes for k in content.els()):
                raise V("nothing left when collapsed", e)
            if "step" in e.classes and not any("statement" in k.classes for k in content.els()) and content.els():
                raise V("nothing left when collapsed", e)

    def nontrivial(self, case, ref, c):
        return any(n["k"] == "step" and any(x["k"] == "subproof" for x in n["c"]) or
                   n["k"] == "thm" and ref.label.get(id(n)) for n in ref.order)


KINDS = ["heading", "author", "paragraph", "subproof", "step", "proof", "sketch", "mathblock", "bibitem"] + \
    refmodel.THEOREMS[1:] + ["theorem"]


def check_page(root):
    for e in root:
        if set(e.classes) & set(PARTS) and (e.parent is None or "hr" not in e.parent.classes):
            raise V("zone outside a handrail", e)
        if "tabindex" in e.attrs and "hr" not in e.classes and not e.within("svg"):
            raise V("focusable element is no handrail", e)


class Extras(DocSuite):
    """The source and the minimap that come with the page."""
    name = "extras"
    quick, thorough = 700, 60000
    rule = ("a generated manuscript with handrails and with its source; the page holds the source, hidden, verbatim, once; the minimap has one "
            "circle per entry of the table of contents, in order and linked to the same section, and is absent without one; "
            "non-trivial: a table of contents with an entry")
    weights = dict(p_toc=75, p_sections=95)
    vary = [dict(sections=7), dict(p_label=95), dict(p_nonum=40)]

    def check(self, case, src, ref):
        page, _ = run.render(src, handrails=True, add_source=True)
        root = run.parsed(page)
        div = root.find(cls="rsm-source")
        if len(div) != 1:
            raise V("sources in the page", len(div))
        if div[0].text() != src:
            raise V("source in the page", suites.first_diff(src.split("\n"), div[0].text().split("\n")))
        if "hide" not in div[0].classes:
            raise V("source shown", div[0])
        bare, _ = run.render(src, handrails=True, add_source=False)
        if run.parsed(bare).find(cls="rsm-source"):
            raise V("unwanted source")
        toc = root.find(cls="contents", tag="ul")
        flo, mm = root.find(cls="float-minimap-wrapper"), root.find(cls="minimap")
        if not toc:
            if flo or mm:
                raise V("minimap of nothing", (flo, mm))
            return
        links = [a.attrs["href"] for a in toc[0].find(tag="a")]
        depth = [sum(1 for p in up(a) if p.tag == "ul") for a in toc[0].find(tag="a")]
        if len(flo) != 1 or len(mm) != 2:
            raise V("minimaps", (len(flo), len(mm)))
        f = flo[0].find(cls="minimap")[0]
        got = [a.attrs["href"] for a in f.find(tag="a")]
        if got != links:
            raise V("links of the minimap", (links, got))
        for a in f.find(tag="a"):
            c = a.find(tag="circle")
            if not c or c[0].id != "mm-" + a.attrs["href"][1:]:
                raise V("circle of the minimap", a)
        other = next(m for m in mm if m is not f)
        for m in (f, other):
            c = m.find(tag="circle")
            if len(c) != 2 * len(links):
                raise V("circles of the minimap", (len(c), len(links)))
            ys = [float(x.attrs["cy"]) for x in c[::2]]
            rs = [float(x.attrs["r"]) for x in c[::2]]
            if ys != sorted(set(ys)):
                raise V("order of the minimap", ys)
            by = {}
            for d, r in zip(depth, rs):
                if by.setdefault(d, r) != r:
                    raise V("sizes of the minimap", list(zip(depth, rs)))
            if [by[d] for d in sorted(by)] != sorted(by.values(), reverse=True) or len(set(by.values())) != len(by):
                raise V("sizes of the minimap", by)

    def nontrivial(self, case, ref, c):
        return c["toc"] > 0 and c["section"] > 0


def up(e):
    while e.parent is not None:
        e = e.parent
        yield e


if __name__ == "__main__":
    raise SystemExit(harness.main("C23", [Rails(), Extras()]))
