"""C16: a label, type or title given to an element lands on that element and on no other."""
import common  # noqa: F401
import copy

import docgen
import dom
import harness
import hr
import refmodel
import run
import suites
from harness import V
from suites import DocSuite


def marks(c):
    """Tag, id and classes of every element, without the text."""
    return [f"{n[0]}#{n[1] or ''}{''.join('.' + x for x in n[2])}" for n in suites.nodes_of(c)]


class Landing(DocSuite):
    name = "landing"
    quick, thorough = 1500, 120000
    rule = ("a manuscript in which nearly every element has a label and types of its own; the ids and classes of all elements "
            "of the page, plain and with handrails, must be those of the model; non-trivial: at least 5 elements with types")
    weights = dict(p_label=95, p_types=100)
    vary = [dict(p_label=40), dict(p_types=50), dict(proof=12), dict(list=9, table=9, figure=9), dict(span=12, construct=9, code=6, math=6),
            dict(p_empty=50), dict(p_prev=90, proof=12), dict(p_nonum=40), dict(p_overwrite=90, ref=9)]
    proj = staticmethod(marks)
    kind = "metadata land elsewhere"

    def check(self, case, src, ref):
        exp = refmodel.expected(case["doc"], ref)
        html, _ = run.render(src)
        self.compare(exp, html)
        full, _ = run.render(src, handrails=True)
        d = suites.first_diff(marks(dom.canon(hr.strip(exp))), marks(dom.canon(hr.strip(run.parsed(full)))))
        if d:
            raise V(self.kind + " with handrails", d)

    def nontrivial(self, case, ref, c):
        return sum(bool(n.get("a", {}).get("types")) for n in ref.order) >= 5


# what may carry which key
def typed(x):
    return x["k"] in TYPED and not x["a"].get("implicit")


TYPED = {"para", "thm", "proof", "sketch", "list", "item", "figure", "table", "section", "step", "subproof", "span", "construct"}


class OneMore(DocSuite):
    """Metamorphic: types added to one element change the classes of one element."""
    name = "one-more"
    quick, thorough = 1200, 100000
    rule = ("a manuscript, and the same with one more type (or label, or no number) on one element; the pages differ in the class "
            "(or id) of exactly one element; non-trivial: an element inside another block")

    weights = dict(p_label=20, p_types=5)

    def gen(self, rng):
        case = super().gen(rng)
        case["style"] = None
        n = [i for i, x in enumerate(docgen.walk(case["doc"])) if typed(x)]
        if not n:
            return None
        case["at"], case["key"] = rng.choice(n), rng.choice(["types", "types", "label"])
        return case

    def changed(self, case):
        doc = copy.deepcopy(case["doc"])
        ns = list(docgen.walk(doc))
        if case["at"] >= len(ns) or not typed(ns[case["at"]]):
            return None
        a = ns[case["at"]]["a"]
        if case["key"] == "types":
            a["types"] = a.get("types", []) + ["onemore"]
        elif a.get("label"):
            return None
        else:
            a["label"] = "onemore"
        return doc

    def ok(self, case, src):
        doc = self.changed(case)
        return doc is not None and super().ok(case, src) and docgen.valid(doc) and run.cst_clean(docgen.to_source(doc, None))

    def check(self, case, src, ref):
        new = docgen.to_source(self.changed(case), None)
        for kw in ({}, {"handrails": True}):
            a, b = (run.parsed(run.render(s, **kw)[0]) for s in (src, new))
            ea, eb = list(a), list(b)
            # a first label may also switch on what depends on it: the link in the menu
            d = [(x, y) for x, y in zip(ea, eb) if dict(x.attrs, **{"data-nodeid": 0}) != dict(y.attrs, **{"data-nodeid": 0})]
            d = [(x, y) for x, y in d if not {"hr-menu-item", "link"} <= set(y.classes)] if case["key"] == "label" else d
            if len(ea) != len(eb) or not d:
                raise V("one more mark", (len(ea), len(eb), d[:3]))
            if case["key"] == "types":
                if len(d) != 1 or [c for c in d[0][1].classes if c != "onemore"] != d[0][0].classes:
                    raise V("one more type", d[:3])
            else:
                own = [y for x, y in d if y.id == "onemore"]
                if len(own) != 1:
                    raise V("one more label", d[:3])
                rest = [(x, y) for x, y in d if y.id != "onemore" and "onemore" not in str(y.attrs)]
                if rest:
                    raise V("one more label changes others", rest[:3])
            if a.text() != b.text():
                raise V("one more mark changes the text", None)

    def classes(self, case, ref):
        x = list(docgen.walk(case["doc"]))[case["at"]]
        up = ref.parent.get(id(x), {"k": "doc"})["k"]
        return {x["k"], case["key"]} | ({"!nested"} if up not in ("doc", "section") else set())


if __name__ == "__main__":
    raise SystemExit(harness.main("C16", [Landing(), OneMore()]))
