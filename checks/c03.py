"""C03: every page is balanced HTML."""
import common  # noqa: F401
import fuzz
import harness
import run
from harness import V
from rsm import nodes, translator
from suites import DocSuite

INLINE = {"p", "h1", "h2", "h3", "h4", "span", "em", "strong"}
BLOCK = {"div", "p", "h1", "h2", "h3", "h4", "section", "ul", "ol", "li", "table", "figure", "body", "tr", "td", "pre"}
INSIDE = {"li": {"ul", "ol"}, "td": {"tr"}, "tr": {"thead", "tbody"}, "thead": {"table"}, "tbody": {"table"}, "caption": {"table"},
          "figcaption": {"figure"}}


def wellformed(html, what):
    """Every element closed in its own parent, one body; headings, paragraphs and links hold no other ones."""
    root = run.parsed(html)
    body = root.els()
    if [e.tag for e in body] != ["body"] or any(isinstance(k, str) and k.strip() for k in root.kids):
        raise V("not one body", (what, body))
    return root


def nesting(root, what):
    for e in root:
        p = e.parent
        if e.tag in INSIDE and p.tag not in INSIDE[e.tag]:
            raise V("element in the wrong place", (what, p, e))
        if e.tag in BLOCK or e.tag == "a":
            while p is not None and p.tag != "#root":
                if e.tag in BLOCK and p.tag in INLINE or e.tag == p.tag == "a":
                    raise V("element within one that cannot hold it", (what, p, e))
                p = p.parent


class Pages(DocSuite):
    name = "pages"
    quick, thorough = 1600, 200000
    rule = ("a generated manuscript, plain, with handrails and with its source; the page parses with every tag closed by its own end tag, no "
            "attribute twice, no stray markup characters, one body; paragraphs, headings, links, list items, rows and cells stand "
            "where HTML allows them; non-trivial: at least 6 kinds of construct")
    vary = [dict(p_pmath=80, mathblock=10), dict(markup=14), dict(depth=5), dict(proof=14), dict(p_bib=100, cite=8), dict(p_empty=60),
            dict(author=5, abstract=4), dict(p_label=95, p_types=70), dict(code=8, codeblock=8, math=8)]

    def check(self, case, src, ref):
        for kw in ({}, {"handrails": True}, {"handrails": True, "add_source": True}):
            html, _ = run.render(src, **kw)
            nesting(wellformed(html, kw), kw)

    def nontrivial(self, case, ref, c):
        return len(c) >= 6


class Rough(harness.Suite):
    name = "rough"
    quick, thorough = 4500, 800000
    rule = ("a damaged or random source; whatever page comes out is balanced; non-trivial: at least 8 elements and a syntax error")

    def gen(self, rng):
        return fuzz.text(rng)

    def run(self, case):
        if not case.strip() or any("\ud800" <= c <= "\udfff" for c in case):
            return {"skipped"}
        n = 0
        for kw in ({}, {"handrails": True, "add_source": True}):
            try:
                html, recs = run.render(case, **kw)
            except V:
                raise
            except Exception as e:
                if fuzz.own(e):
                    return {"refused"}
                raise
            if not html:
                return {"refused"}
            n = len(list(wellformed(html, kw)))
        return {"page"} | ({"!damaged"} if n >= 8 and fuzz.errors(case) else set())

    def shrink(self, case, fails):
        return fuzz.shrink_text(case, fails)


class Trees(DocSuite):
    """Trees changed by a program between parsing and translation."""
    name = "trees"
    quick, thorough = 1600, 200000
    rule = ("a manuscript parsed to a tree, then up to 12 of its nodes removed, moved to where a node of that class may stand, retexted or "
            "given labels and types of hostile characters by a program; both translations are balanced; non-trivial: 4 edits")
    vary = [dict(depth=5), dict(proof=14), dict(p_pmath=80, mathblock=10), dict(table=9, figure=9, list=9)]

    def gen(self, rng):
        case = super().gen(rng)
        case["style"] = None
        case["edits"] = [[rng.choice(["remove", "move", "move", "text", "mark", "add", "add"]), rng.randrange(10 ** 6), rng.randrange(10 ** 6)]
                         for _ in range(rng.randint(1, 12))]
        return case

    def check(self, case, src, ref):
        self.done = 0
        for cls in (translator.Translator, translator.HandrailsTranslator):
            t = run.tree(src)
            done = 0
            for op, i, j in case["edits"]:
                done += bool(edit(t, op, i, j))
            run.quiet()
            with run.logs():
                html = cls().translate(t)
            wellformed(html, cls.__name__)
        self.done = done

    def nontrivial(self, case, ref, c):
        return self.done >= 4


HOSTILE = ["a\"b", "<b>", "x&y", "'", "</div>", "a>b", "&lt;", "\"><i>"]
LOOSE = (nodes.Paragraph, nodes.MathBlock, nodes.Text, nodes.Span, nodes.Math, nodes.Code, nodes.Itemize, nodes.Enumerate, nodes.Item,
         nodes.Theorem, nodes.Figure, nodes.Table, nodes.CodeBlock, nodes.Algorithm, nodes.Construct)


def within_toc(n):
    while n is not None:
        if isinstance(n, nodes.Contents):
            return True
        n = n.parent
    return False


def edit(t, op, i, j):
    ns = [n for n in t.traverse() if n is not t]
    if not ns:
        return False
    n = ns[i % len(ns)]
    if op == "remove":
        if isinstance(n, LOOSE):
            n.remove_self()
            return True
    elif op == "move":
        homes = {type(x.parent) for x in ns if type(x) is type(n)}
        spots = [x for x in t.traverse() if type(x) in homes and not within_toc(x) and x is not n and not any(x is d for d in n.traverse())]
        if isinstance(n, LOOSE) and spots:
            n.remove_self()
            spots[j % len(spots)].append(n)
            return True
    elif op == "text":
        ts = [x for x in ns if isinstance(x, nodes.Text)]
        if ts:
            ts[i % len(ts)].text = HOSTILE[j % len(HOSTILE)]
            return True
    elif op == "mark":
        n.types = [HOSTILE[j % len(HOSTILE)]]
        n.label = HOSTILE[(j // 8) % len(HOSTILE)]
        return True
    elif op == "add":
        homes = [x for x in t.traverse() if isinstance(x, (nodes.Section, nodes.Theorem, nodes.Manuscript))]
        new = [lambda: nodes.Paragraph(), lambda: nodes.MathBlock(), lambda: nodes.Paragraph().append(nodes.Text("<p>&")),
               lambda: nodes.Itemize().append(nodes.Item()), lambda: nodes.Paragraph().append(nodes.Span(strong=True)),
               lambda: nodes.Theorem(), lambda: nodes.Proof(), lambda: nodes.Section(), lambda: nodes.Table(), lambda: nodes.Author(),
               lambda: nodes.Paragraph().append([nodes.MathBlock(), nodes.Text("a"), nodes.MathBlock()])][j % 11]()
        homes[i % len(homes)].append(new)
        return True
    return False


if __name__ == "__main__":
    raise SystemExit(harness.main("C03", [Pages(), Rough(), Trees()]))
