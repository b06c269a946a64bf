"""C29: trees that a program builds or rearranges."""
import common  # noqa: F401
import copy
import inspect
import pathlib
import random

import docgen
import fuzz
import harness
import run
import suites
from harness import V
from rsm import linter, nodes, transformer, translator, tsparser

INNER = {"nodeid", "handrail_depth", "source", "backlinks"}


def parse(src):
    run.quiet()
    with run.logs():
        return tsparser.TSParser().parse(src)


def process(tree, what):
    """What the steps after the parser make of a tree: (page or lines, messages)."""
    run.quiet()
    with run.logs() as recs:
        try:
            t = transformer.Transformer().transform(tree)
            if what == "lint":
                linter.Linter().lint(t)
                out = t.sexp(meta=True)
            else:
                out = (translator.Translator() if what == "plain" else translator.HandrailsTranslator(add_source=False)).translate(t)
        except Exception as e:      # refused: by whom is compared as well
            out = f"{type(e).__name__}: {e}"
    pos = [tuple(getattr(r, k, None) for k in ("start_row", "start_col", "end_row", "end_col")) for r in recs]
    return out, [(r.levelname, r.getMessage(), p) for r, p in zip(recs, pos)]


def parameters(cls):
    """What the constructor takes, also by way of the constructors of its bases."""
    out = {}
    for c in cls.__mro__:
        f = c.__dict__.get("__init__")
        if f is None or c is object:
            continue
        sig = inspect.signature(f).parameters
        out.update({k: v for k, v in sig.items() if k != "self" and v.kind in (v.POSITIONAL_OR_KEYWORD, v.KEYWORD_ONLY)})
        if all(v.kind is not v.VAR_KEYWORD for v in sig.values()):
            break
    return out


class Rebuild:
    """Builds a copy of a tree with the constructors and edits that are public."""

    def __init__(self, rng):
        self.rng = rng
        self.lists = {}
        self.how = set()

    def shared(self, v):
        """Equal lists are one object: nodes must not depend on each other by way of what they were given."""
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            return self.lists.setdefault(tuple(v), list(v))
        return v

    @staticmethod
    def respelled(n, k, v):
        """The constructor of figures takes paths, which are spelled in one way only."""
        return isinstance(n, nodes.Figure) and k == "path" and str(pathlib.Path(v)) != str(v)

    def node(self, n):
        rng = self.rng
        attrs = {k: v for k, v in vars(n).items() if k not in INNER and not k.startswith("_")}
        takes = parameters(type(n))
        kw, rest = {}, {}
        for k, v in attrs.items():
            if k in takes and not (isinstance(n, nodes.ClaimBlock) and k == "kind") and not self.respelled(n, k, v) and rng.random() < .85:
                if v != takes[k].default or rng.random() < .5:
                    kw[k] = self.shared(v)
            else:
                rest[k] = v
        new = type(n)(**kw)
        meta = {}
        for k, v in rest.items():
            if k == "reftext_template":
                if v and rng.random() < .7:
                    meta["reftext"] = v
                else:
                    new.reftext_template = v
            elif k in type(n).metakeys() and rng.random() < .7:
                meta[k] = self.shared(v)
            else:
                setattr(new, k, list(v) if isinstance(v, list) else v)
        if meta:
            before = list(meta.items())
            new.ingest_dict_as_meta(meta)
            if list(meta.items()) != before:
                raise V("what was given to a node has changed", (before, meta))
            self.how.add("metadata")
        return new

    def tree(self, root):
        """Every node, in random order, then every family, in random order."""
        old = list(root.traverse())
        self.rng.shuffle(old)
        new = {id(n): self.node(n) for n in old}
        for n in old:
            self.family(new[id(n)], [new[id(c)] for c in n.children])
        return new[id(root)]

    def family(self, p, kids):
        rng = self.rng
        if not kids:
            return
        way = rng.choice(["append", "list", "prepend", "prependlist", "chain", "middle", "placeholder", "detour", "generator"])
        self.how.add(way)
        if way == "append":
            for k in kids:
                p.append(k)
        elif way == "list":
            p.append(kids)
        elif way == "generator":
            p.append(k for k in kids)
        elif way == "prepend":
            for k in reversed(kids):
                p.prepend(k)
        elif way == "prependlist":
            p.prepend(kids)
        elif way == "chain":
            i = rng.randrange(len(kids) + 1)
            p.append(kids[i:]).prepend(kids[:i])
        elif way == "middle":
            order = list(range(len(kids)))
            i = rng.choice(order)
            p.append(kids[i])
            for j in range(i - 1, -1, -1):
                p.prepend(kids[j])
            for j in range(i + 1, len(kids)):
                p.append(kids[j])
        elif way == "placeholder":
            i, j = sorted(rng.randrange(len(kids) + 1) for _ in range(2))
            hole = nodes.Text("hole")
            p.append(kids[:i] + [hole] + kids[j:])
            hole.replace_self(kids[i:j])
        elif way == "detour":      # in the wrong order first
            p.append(kids[::-1])
            for k in kids:
                if rng.random() < .5:
                    p.remove(k)
                else:
                    k.remove_self()
                p.append(k)


class Built(harness.Suite):
    name = "built"
    quick, thorough = 1600, 100000
    rule = ("the tree of a manuscript (some damaged), built anew with the constructors of the nodes, in any order, attributes given as "
            "arguments, by assignment or as metadata, equal lists shared, children put in place by any of the edits, or copied "
            "deeply; its pages, messages, lint and S-expression must be those of the tree of the parser; non-trivial: 30 nodes or more")

    def gen(self, rng):
        if rng.random() < .15:
            src = fuzz.text(rng)
        else:
            w = rng.choice([{}, dict(proof=14), dict(table=9, figure=7, list=9), dict(p_types=90, p_label=50), dict(cite=9, p_bib=90),
                            dict(p_appendix=90)])
            g = dict(dict(blocks=3, sections=3, words=4, big=2, p_unknown=8, p_dup=5), **w)
            src = docgen.to_source(docgen.Gen(rng, **{k: v for k, v in g.items() if k in docgen.Gen(rng).w}).doc())
        return {"src": src, "seed": rng.randrange(10 ** 9), "what": rng.choice(["plain", "plain", "hr", "hr", "lint"]),
                "copy": rng.random() < .15}

    def show(self, case):
        return f"{case['what']}, {'copied' if case['copy'] else 'built with seed ' + str(case['seed'])}\n{case['src']}"

    def run(self, case):
        src = case["src"]
        if not src.strip() or any("\ud800" <= c <= "\udfff" for c in src):
            return {"skipped"}
        try:
            a, b = parse(src), parse(src)
        except (tsparser.RSMParserError, nodes.RSMNodeError):
            return {"skipped"}
        r = Rebuild(random.Random(case["seed"]))
        t = copy.deepcopy(a) if case["copy"] else r.tree(a)
        if case["copy"]:
            r.how.add("copy")
        given = [(list(v), v) for v in r.lists.values()]
        if t.sexp(meta=True) != b.sexp(meta=True):
            raise V("the tree built is another one", suites.first_diff(b.sexp(meta=True).split("\n"), t.sexp(meta=True).split("\n")))
        n = sum(1 for _ in t.traverse())
        want, got = process(b, case["what"]), process(t, case["what"])
        if want[0] != got[0]:
            raise V("the tree built gives another page", suites.first_diff(want[0].split("\n"), got[0].split("\n")))
        if want[1] != got[1]:
            raise V("the tree built gives other messages", suites.first_diff(want[1], got[1]))
        for v, now in given:
            if v != now:
                raise V("what was given to a node has changed", (v, now))
        return r.how | {case["what"]} | ({"!nontrivial"} if n >= 30 else set())

    def shrink(self, case, fails):
        return dict(case, src=fuzz.shrink_text(case["src"], lambda s: fails(dict(case, src=s))))


class Moved(harness.Suite):
    name = "moved"
    quick, thorough = 1000, 60000
    rule = ("two manuscripts; up to 6 of their sections and paragraphs are moved, exchanged, removed, or taken from one to the other, in the tree "
            "of the parser and in the source; the page of the tree must be the page of the source; non-trivial: 2 moves or more")

    def gen(self, rng):
        docs = []
        for _ in range(2):
            for _ in range(6):
                doc = docgen.Gen(rng, blocks=2, sections=4, words=4, big=2, p_unknown=5, p_dup=5, p_sections=95, p_label=50).doc()
                if sum(x["k"] == "section" for x in doc["c"]) > 1:
                    break
            docs.append(doc)
        ops = [[rng.choice(["out", "over", "over", "end", "swap"]), rng.randrange(100), rng.randrange(100), rng.random() < .5]
               for _ in range(rng.randint(1, 6))]
        return {"docs": docs, "ops": ops, "hr": rng.random() < .4, "style": rng.randrange(10 ** 6)}

    def source(self, doc, case):
        return docgen.to_source(doc, docgen.Style(random.Random(case["style"])))

    def show(self, case):
        return f"{case['ops']}\n" + "\n---------- and\n".join(self.source(d, case) for d in case["docs"])

    def run(self, case):
        docs = case["docs"]
        srcs = [self.source(d, case) for d in docs]
        if not all(map(docgen.valid, docs)) or not all(map(run.cst_clean, srcs)):
            return {"skipped"}
        trees = [parse(s) for s in srcs]
        c = [[x for x in t.children if isinstance(x, nodes.Section)] for t in trees]
        models = [copy.deepcopy(d) for d in docs]
        m = [[x for x in d["c"] if x["k"] == "section"] for d in models]
        if any(len(x) != len(y) for x, y in zip(c, m)):
            return {"skipped"}
        done = 0
        for op, i, j, after in case["ops"]:
            if not c[0]:
                break
            i %= len(c[0])
            if op == "out":
                c[0].pop(i).remove_self()
                self.cut(models[0], m[0].pop(i))
            elif op == "over" and c[1]:
                j %= len(c[1])
                node, sec = c[1].pop(j), m[1].pop(j)
                node.remove_self()
                self.cut(models[1], sec)
                at = c[0][i]
                at.replace_self([at, node] if after else [node, at])
                where = next(k for k, x in enumerate(models[0]["c"]) if x is m[0][i]) + after
                models[0]["c"].insert(where, sec)
                c[0].insert(i + after, node)
                m[0].insert(i + after, sec)
            elif op == "end":
                kids, inner = c[0][i], m[0][i]
                last = kids.children[-1] if kids.children else None
                if last is None or isinstance(last, nodes.Section) or len(kids.children) < 2:
                    continue
                if len(kids.children) != len(inner["c"]):
                    continue
                last.remove_self()
                inner["c"].pop()
            elif op == "swap" and len(c[0]) > 1:
                j %= len(c[0])
                if i == j:
                    continue
                a, b = c[0][i], c[0][j]
                ha, hb = nodes.Text("a"), nodes.Text("b")
                a.replace_self(ha)
                b.replace_self(hb)
                ha.replace_self(b)
                hb.replace_self([a])
                x, y = [next(k for k, z in enumerate(models[0]["c"]) if z is m[0][q]) for q in (i, j)]
                models[0]["c"][x], models[0]["c"][y] = models[0]["c"][y], models[0]["c"][x]
                c[0][i], c[0][j] = b, a
                m[0][i], m[0][j] = m[0][j], m[0][i]
            else:
                continue
            done += 1
        src = self.source(models[0], case)
        if not docgen.valid(models[0]) or not run.cst_clean(src):
            return {"skipped"}
        what = "hr" if case["hr"] else "plain"
        want, got = process(parse(src), what), process(trees[0], what)
        w, g = [suites.full(suites.canon_html(h[0])) if h[0].lstrip().startswith("<") else [h[0]] for h in (want, got)]
        d = suites.first_diff(w, g)
        if d:
            raise V("the page of the changed tree is another one", f"{d}\n--- the source of the same\n{src}")
        if sorted(x[1] for x in want[1]) != sorted(x[1] for x in got[1]):
            raise V("the messages of the changed tree are others", suites.first_diff(sorted(x[1] for x in want[1]), sorted(x[1] for x in got[1])))
        # what is left in the other manuscript
        src = self.source(models[1], case)
        if docgen.valid(models[1]) and run.cst_clean(src):
            want, got = process(parse(src), what), process(trees[1], what)
            w, g = [suites.full(suites.canon_html(h[0])) if h[0].lstrip().startswith("<") else [h[0]] for h in (want, got)]
            d = suites.first_diff(w, g)
            if d:
                raise V("the page of what is left is another one", f"{d}\n--- the source of the same\n{src}")
        return {what, f"{min(done, 3)} moves"} | ({"!nontrivial"} if done >= 2 else set())

    @staticmethod
    def cut(doc, sec):
        k = next(k for k, x in enumerate(doc["c"]) if x is sec)
        del doc["c"][k]

    def shrink(self, case, fails):
        import shrink as shr
        i = 0
        while i < len(case["ops"]):
            new = dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
            if fails(new):
                case = new
            else:
                i += 1
        for k in (0, 1):
            put = lambda d: dict(case, docs=[d if q == k else x for q, x in enumerate(case["docs"])])     # noqa: E731
            d = shr.shrink(case["docs"][k], lambda d: fails(put(d)))
            case = put(d)
        return case


if __name__ == "__main__":
    raise SystemExit(harness.main("C29", [Built(), Moved()]))
