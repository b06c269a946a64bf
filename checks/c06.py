"""C06: labels become anchors, once each."""
import collections

import common  # noqa: F401
import docgen
import dom
import harness
import hr
import refmodel
import run
import suites
from harness import V
from suites import DocSuite


class Anchors(DocSuite):
    name = "anchors"
    quick, thorough = 1600, 120000
    rule = ("a manuscript with labels on any construct, some of them duplicated; every label is the id of exactly one element, "
            "that of the first node with it, in plain and handrails pages, and no id is used twice; non-trivial: a duplicate")
    weights = dict(p_label=80, p_dup=12, p_toc=50)
    vary = [dict(p_dup=0), dict(p_dup=50), dict(proof=15), dict(span=9, math=9, code=9, note=4), dict(table=9, figure=9, list=9),
            dict(cite=14, p_bib=100)]
    proj = staticmethod(suites.ids)
    kind = "anchors differ"

    def check(self, case, src, ref):
        html, _ = run.render(src)
        self.compare(refmodel.expected(case["doc"], ref), html)
        full, _ = run.render(src, handrails=True)
        full = run.parsed(full)
        exp = sorted(dom_ids(dom.canon(refmodel.expected(case["doc"], ref))))
        got = sorted(i for i in dom_ids(dom.canon(hr.strip(full))) if i)
        if exp != got:
            raise V("anchors differ with handrails", sorted(set(exp) ^ set(got)))
        for root in (run.parsed(html), full):
            c = collections.Counter(e.id for e in root if e.id and not e.within("svg"))
            dup = [i for i, n in c.items() if n > 1]
            if dup:
                raise V("id used twice", dup)
        # every link within the page that is not to an unlabeled node leads somewhere, unless the address is the author's
        own = {n["a"]["target"] for n in docgen.walk(case["doc"]) if n["k"] == "url"}
        for root in (run.parsed(html), full):
            have = {e.id for e in root}
            for e in root:
                h = e.attrs.get("href", "")
                if h.startswith("#") and len(h) > 1 and h[1:] not in have and h not in own:
                    raise V("dead link", h)

    def nontrivial(self, case, ref, c):
        return any("uplicate" in w for w in ref.warnings)


def dom_ids(c):
    return [n[1] for n in suites.nodes_of(c) if n[1]]


class NodeIds(DocSuite):
    """The node ids that editors and the web client rely on."""
    name = "node-ids"
    quick, thorough = 500, 40000
    rule = ("data-nodeid values of a plain page are unique, increase in document order (except within generated lists), and "
            "identify the node of that type in the tree; non-trivial: at least 20 nodes")

    def check(self, case, src, ref):
        html, _ = run.render(src)
        full, _ = run.render(src, handrails=True)
        for what, h in (("plain", html), ("handrails", full)):
            ids = [int(e.attrs["data-nodeid"]) for e in run.parsed(h) if "data-nodeid" in e.attrs]
            if len(set(ids)) != len(ids):
                raise V("node id used twice", (what, [i for i, n in collections.Counter(ids).items() if n > 1]))
            if ids != sorted(ids):
                raise V("node ids out of order", (what, ids))
            if not ids or ids[0] != 0:
                raise V("root is not node 0", ids[:3])
        t = run.tree(src)
        for k, n in enumerate(t.traverse()):
            if n.nodeid != k:
                raise V("node ids are not preorder", (k, n.nodeid))
            if t.get_child_by_id(k) is not n:
                raise V("lookup by id", k)
        by = {n.nodeid: n for n in t.traverse()}
        for e in run.parsed(html):
            if "data-nodeid" in e.attrs:
                n = by.get(int(e.attrs["data-nodeid"]))
                if n is None:
                    raise V("node id of no node", e)
                if e.id and n.label != e.id:
                    raise V("node id of another node", (e, n))

    def nontrivial(self, case, ref, c):
        return sum(c.values()) >= 20


if __name__ == "__main__":
    raise SystemExit(harness.main("C06", [Anchors(), NodeIds()]))
