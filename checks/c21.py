"""C21: questions about the tree are answered as its shape says."""
import common  # noqa: F401

import docgen
import harness
import run
from harness import V
from rsm import nodes, transformer, tsparser
from suites import DocSuite

ASK = ["Node", "NodeWithChildren", "Heading", "Text", "Span", "Paragraph", "BaseParagraph", "Section", "Subsection",
       "Subsubsection", "Theorem", "Lemma", "Step", "Proof", "Subproof", "Item", "Itemize", "Math", "MathBlock", "Construct",
       "ClaimBlock", "Table", "Caption", "Manuscript", "Bibitem", "Reference", "Cite", "Code", "SourceCode"]


def isa(name, cls):
    return any(c.__name__ == cls for c in name.__mro__)


class Queries(DocSuite):
    name = "queries"
    quick, thorough = 1500, 50000
    rule = ("on the tree of a generated manuscript, before and after the transform step: traversal (all, by class, by "
            "condition), first and last child of a class or of several, siblings (any, same class, by class), nearest ancestor "
            "of a class, lookup by node id, the text that stands for a node and the S-expression (with metadata, too), each against a direct computation from parents and children; "
            "non-trivial: at least 6 kinds of construct")
    vary = [dict(proof=14), dict(depth=5), dict(list=12, table=9), dict(p_bib=100)]

    def gen(self, rng):
        case = super().gen(rng)
        case["ask"] = [rng.choice(ASK) for _ in range(4)]
        case["after"] = rng.random() < .7
        return case

    def run(self, case):
        src = self.source(case)
        if not self.ok(case, src):
            return {"skipped"}
        run.quiet()
        with run.logs():
            t = tsparser.TSParser().parse(src)
            if case["after"]:
                transformer.Transformer().transform(t)
        self.queries(t, case)
        import collections
        c = collections.Counter(n["k"] for n in docgen.walk(case["doc"]))
        return {"!nontrivial"} if len(c) >= 6 else {"small"}

    def queries(self, t, case):
        order, depth = [], {}

        def go(n, d):
            order.append(n)
            depth[id(n)] = d
            for c in n.children:
                if c.parent is not n:
                    raise V("inconsistent tree", f"{type(c).__name__} under {type(n).__name__}")
                go(c, d + 1)
        go(t, 0)

        def same(what, got, want):
            got, want = list(got), list(want)
            if [id(x) for x in got] != [id(x) for x in want]:
                show = lambda l: [type(x).__name__ for x in l][:12]     # noqa: E731
                raise V(what, f"expected {show(want)} found {show(got)}")

        same("traversal", t.traverse(), order)
        for name in case["ask"]:
            cls = getattr(nodes, name)
            same("traversal by class", t.traverse(nodeclass=cls), [n for n in order if isa(type(n), name)])
        same("traversal by condition", t.traverse(condition=lambda n: len(n.children) == 1 or bool(n.label)),
             [n for n in order if len(n.children) == 1 or n.label])
        a, b = case["ask"][:2]
        pair = (getattr(nodes, a), getattr(nodes, b))
        for n in order:
            sibs = n.parent.children if n.parent is not None else ()
            me = next((i for i, x in enumerate(sibs) if x is n), 0)
            for name in [None, "self"] + case["ask"][:3]:
                key = None if name is None else type(n).__name__ if name == "self" else name
                arg = name if name in (None, "self") else getattr(nodes, name)
                fit = [x for x in sibs[:me] if key is None or isa(type(x), key)]
                same(f"previous sibling {name}", [n.prev_sibling(arg)], fit[-1:] or [None])
                fit = [x for x in sibs[me + 1:] if key is None or isa(type(x), key)]
                same(f"next sibling {name}", [n.next_sibling(arg)], fit[:1] or [None])
            for names, arg in [((a,), pair[0]), ((b,), pair[1]), ((a, b), pair)]:
                fit = [(x, i) for i, x in enumerate(n.children) if any(isa(type(x), m) for m in names)]
                for f, want in ((n.first_of_type, fit[:1]), (n.last_of_type, fit[-1:])):
                    same(f"{f.__name__} {names}", [f(arg)], [want[0][0]] if want else [None])
                    x, i = f(arg, return_idx=True)
                    same(f"{f.__name__} with index", [x], [want[0][0]] if want else [None])
                    if i != (want[0][1] if want else None):
                        raise V("index of child", f"{f.__name__} {names}: {i}")
                anc, p = None, n.parent
                while p is not None:
                    if type(p).__name__ in names:
                        anc = p
                        break
                    p = p.parent
                same(f"ancestor {names}", [n.first_ancestor_of_type(arg)], [anc])
        for tab in (2, 3):
            want = ""
            for i, n in enumerate(order):
                want += ("\n" if i else "") + " " * tab * depth[id(n)] + "(" + type(n).__name__
                nxt = depth[id(order[i + 1])] if i + 1 < len(order) else 0
                if i + 1 == len(order) or nxt <= depth[id(n)]:
                    want += ")" * (depth[id(n)] - nxt + 1)
            got = t.sexp(tab_width=tab)
            if got != want:
                raise V("S-expression", f"tab {tab}: {got[:800]}\n--- expected\n{want[:800]}")
        # with metadata: those keys of the class and its ancestors that have a value, in order
        keys = {}
        for n in order:
            for c in type(n).__mro__:
                keys.setdefault(type(n), set()).update(getattr(c, "newmetakeys", ()))
        for ignore in (None, set(), {"reftext"}, {a.lower(), "types", "title", "label"}):
            want = ""
            for i, n in enumerate(order):
                ks = [(k, getattr(n, k)) for k in sorted(keys[type(n)]) if k not in (ignore or ())]
                want += ("\n" if i else "") + "  " * depth[id(n)] + "(" + type(n).__name__ + " { " + ", ".join(f":{k}: {v}" for k, v in ks if v) + " }"
                nxt = depth[id(order[i + 1])] if i + 1 < len(order) else 0
                if i + 1 == len(order) or nxt <= depth[id(n)]:
                    want += ")" * (depth[id(n)] - nxt + 1)
            got = t.sexp(meta=True, ignore_meta_keys=ignore)
            if got != want:
                raise V("S-expression with metadata", f"{got[:800]}\n--- expected\n{want[:800]}")
        if t.sexp(ignore_meta_keys={"reftext"}) != t.sexp():
            raise V("S-expression without metadata")
        whole = t.sexp()
        for n in order[::7]:
            # that of a part is the part of that of the whole
            part = n.sexp()
            if "\n".join("  " * depth[id(n)] + line for line in part.split("\n")) not in whole:
                raise V("S-expression of a part", part[:300])
            if type(n).metakeys() != keys[type(n)]:
                raise V("metadata keys of a class", type(n).__name__)
        for n in order:
            self.names(n)
        if case["after"]:
            if [n.nodeid for n in order] != list(range(len(order))):
                raise V("node ids", [n.nodeid for n in order][:60])
            for n in order[::5]:
                same("lookup by id", [t.get_child_by_id(n.nodeid)], [n])
            if t.get_child_by_id(len(order) + 7) is not None:
                raise V("lookup of an unknown id")

    def names(self, n):
        """The text that stands for a node says what it is, where, and what it holds."""
        got, cls = repr(n), type(n).__name__
        if isinstance(n, nodes.Text):
            words = " ".join(n.text.split())
            if not got.startswith(cls + "(") or len(words) <= 60 and f'"{words}"' not in got:
                raise V("text of a node", got)
            return
        want = [f"parent={type(n.parent).__name__ if n.parent is not None else None}"]
        if n.label:
            want.append(f"label={n.label}")
        if n.nonum:
            want.append("nonum=True")
        if n.children:
            want.append("[" + ", ".join(type(c).__name__ for c in n.children) + "]")
        for w in want:
            if w not in got:
                raise V("text of a node", f"{got}: no {w}")
        if not got.startswith(cls + "(") or not got.endswith(")") or not n.label and not isinstance(n, nodes.BaseReference) and f"{cls}(label=" in got:
            raise V("text of a node", got)


if __name__ == "__main__":
    raise SystemExit(harness.main("C21", [Queries()]))
