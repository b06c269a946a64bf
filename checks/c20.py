"""C20: editing the tree keeps it a tree."""
import common  # noqa: F401

import harness
from harness import V
from rsm import nodes

CLASSES = ["Paragraph", "Span", "Text", "Item", "Itemize", "Enumerate", "Step", "Proof", "Subproof", "Section", "Theorem",
           "Caption", "Figure", "Table", "Math", "Manuscript"]
ONLY_IN = {"Item": {"Itemize", "Enumerate", "Contents"}, "Step": {"Proof", "Subproof", "Step"}, "Caption": {"Figure", "Table"}}
OPS = ["append", "append", "append", "appends", "prepend", "prepend", "prepends", "remove", "remove_self", "replace", "replace",
       "replaces", "clear", "bad", "chain"]


class Edits(harness.Suite):
    name = "edits"
    quick, thorough = 60000, 5000000
    rule = ("sequences of up to 80 tree edits (append, prepend, remove, remove_self, replace_self, clear, one node or several, "
            "legal or not) over up to 14 nodes of 16 classes, compared after every step with a model of the tree: each node's "
            "parent and children, each root's preorder, which edits are refused; non-trivial: 12 edits took effect and 3 were "
            "refused")

    def gen(self, rng):
        n = rng.randint(3, 14)
        cls = [rng.choice(CLASSES) for _ in range(n)]
        ops = []
        for _ in range(rng.choice([rng.randint(3, 20), rng.randint(20, 80)])):
            ops.append([rng.choice(OPS), rng.randrange(n), [rng.randrange(n) for _ in range(rng.randint(1, 3))]])
        return {"cls": cls, "ops": ops}

    def run(self, case):
        cls, ops = case["cls"], case["ops"]
        N = [getattr(nodes, c)() for c in cls]
        index = {id(x): i for i, x in enumerate(N)}
        par = [None] * len(N)
        kids = [[] for _ in N]
        done = refused = 0

        def above(i, j):
            """Is i at or above j?"""
            while j is not None:
                if i == j:
                    return True
                j = par[j]
            return False

        def legal(c, p):
            return cls[p] in ONLY_IN[cls[c]] if cls[c] in ONLY_IN else True

        def observe(step):
            for i, x in enumerate(N):
                p = None if x.parent is None else index.get(id(x.parent), -1)
                k = [index.get(id(c), -1) for c in x.children]
                if p != par[i] or k != kids[i]:
                    raise V("tree differs", f"after {step}: node {i} ({cls[i]}) has parent {p} and children {k}, "
                                            f"the model {par[i]} and {kids[i]}")
            for i, x in enumerate(N):
                if par[i] is None:
                    want, st = [], [i]
                    while st:
                        j = st.pop()
                        want.append(j)
                        st += reversed(kids[j])
                    got = [index.get(id(y), -1) for y in x.traverse()]
                    if got != want:
                        raise V("traversal differs", f"after {step}: from {i} {got}, expected {want}")

        for t, (op, a, bs) in enumerate(ops):
            many = [b for k, b in enumerate(bs) if b not in bs[:k]]
            b = bs[0]
            before = ([*par], [list(k) for k in kids])
            expect = "ok"
            if op in ("append", "appends", "prepend", "prepends", "chain"):
                if cls[a] == "Text":
                    continue
                what = [b] if op in ("append", "prepend") else many
                if any(above(x, a) for x in what):
                    continue
                pre = op.startswith("pre")
                for x in (reversed(what) if pre else what):
                    if par[x] is not None and (not pre or par[x] != a) or not legal(x, a):
                        expect = "RSMNodeError"
                        break
                    if par[x] is not None:
                        kids[a].remove(x)
                    par[x] = a
                    kids[a].insert(0, x) if pre else kids[a].append(x)

                def act():
                    f = N[a].prepend if pre else N[a].append
                    if op == "chain":
                        r = N[a]
                        for x in what:
                            r = r.append(N[x])
                    else:
                        r = f(N[b] if len(what) == 1 and not op.endswith("s") else several(what))
                    if r is not N[a]:
                        raise V("wrong result", f"{op} did not return the node")
            elif op == "remove":
                if cls[a] == "Text":
                    continue
                if par[b] == a:
                    kids[a].remove(b)
                    par[b] = None
                else:
                    expect = "any"
                act = lambda: N[a].remove(N[b])     # noqa: E731
            elif op == "remove_self":
                if par[a] is not None:
                    kids[par[a]].remove(a)
                    par[a] = None
                act = lambda: N[a].remove_self()    # noqa: E731
            elif op in ("replace", "replaces"):
                what = [b] if op == "replace" else many
                if par[a] is not None and any(x != a and above(x, a) for x in what):
                    continue
                if par[a] is None or any(par[x] is not None and x != a for x in what) or \
                        any(not legal(x, par[a]) for x in what):
                    expect = "RSMNodeError"
                else:
                    p = par[a]
                    i = kids[p].index(a)
                    par[a] = None
                    kids[p][i:i + 1] = what
                    for x in what:
                        par[x] = p
                act = lambda: N[a].replace_self(N[b] if op == "replace" else several(what))  # noqa: E731
            elif op == "clear":
                if cls[a] == "Text":
                    continue
                for x in kids[a]:
                    par[x] = None
                kids[a] = []
                act = lambda: N[a].clear()          # noqa: E731
            else:
                if cls[a] == "Text":
                    continue
                expect = "TypeError"
                act = lambda: N[a].append(3) if b % 2 else N[a].prepend(None)    # noqa: E731

            def several(xs):
                # the nodes as each kind of iterable in turn
                xs = [N[x] for x in xs]
                return [list, tuple, iter, lambda z: (y for y in z), lambda z: dict(enumerate(z)).values()][t % 5](xs)
            step = f"edit {t} {op} {a} {bs}"
            got = "ok"
            try:
                act()
            except V:
                raise
            except Exception as e:
                got = type(e).__name__
            if (got == "ok") != (expect == "ok") or expect not in ("ok", "any", got):
                raise V("wrong outcome", f"{step}: expected {expect}, got {got}")
            if expect != "ok":
                refused += 1
                if op in ("appends", "prepends", "chain"):
                    # how many of several nodes made it before the refusal is not specified
                    par[:], kids[:] = before
                    kids[a] = [index.get(id(x), -1) for x in N[a].children]
                    if not set(before[1][a]) <= set(kids[a]) <= set(before[1][a]) | set(what) or \
                            any(before[0][x] not in (None, a) for x in kids[a]) or len(set(kids[a])) < len(kids[a]):
                        raise V("tree differs", f"after the refused {step}: {kids[a]}")
                    for x in kids[a]:
                        par[x] = a
            else:
                done += 1
            observe(step)
        out = {f"{done // 5 * 5}+ edits"}
        if done >= 12 and refused >= 3:
            out.add("!nontrivial")
        return out

    def shrink(self, case, fails):
        import shrink
        ops = case["ops"]
        n = len(ops) // 2 or 1
        while n:
            i = 0
            while i < len(ops):
                t = ops[:i] + ops[i + n:]
                if fails(dict(case, ops=t)):
                    ops = t
                else:
                    i += n
            n //= 2
        return dict(case, ops=ops)


if __name__ == "__main__":
    raise SystemExit(harness.main("C20", [Edits()]))
