"""C28: tooltips show what is referred to, the minimap follows the reader, and the page starts up whatever fails to load."""
import common  # noqa: F401

import browser
import dom
import harness
import hr
import run
from client import Client, ClientSuite, compare, drawings, up, what
from harness import V
from suites import DocSuite

TEXTLESS = hr.ZONES | {"tooltipster-base"}


def words(e, out=None):
    """What a reader sees of *e*: its words and images, without the controls of handrails."""
    top = out is None
    out = [] if top else out
    for k in e.kids:
        if isinstance(k, str):
            out.append(k)
        elif not set(k.classes) & TEXTLESS:
            if k.tag == "img":
                out.append(f" <img {k.attrs.get('src')}> ")
            words(k, out)
    return "".join("".join(out).split()) if top else out


def first(e, cls):
    for k in e:
        if k is not e and cls in k.classes:
            return k


def shown(t):
    """What the tooltip of a link to *t* has to show: some elements, one after the other."""
    c = t.classes
    if t.tag in ("span", "a") and "math" not in c:
        return words(t.parent)                     # in its context
    if t.tag == "section":
        return "".join(words(k) for k in t.els()[:2])
    if "step" in c:
        s = first(t, "statement")
        return None if s is None else words(s)
    return words(t)


def refs(page):
    return [e for e in page.els if e.tag == "a" and "reference" in e.classes and any("manuscriptwrapper" in x.classes for x in up(e))]


def tips(page, got):
    """Every reference has a tooltip, with what it refers to."""
    by = {}
    for n, t in got["tips"]:
        if n in by:
            raise V("two tooltips", what(page, n))
        by[n] = t
    exp = {page.num(e): e for e in refs(page)}
    if set(by) != set(exp):
        raise V("references with tooltips", ([what(page, n) for n in set(exp) - set(by)], [what(page, n) for n in set(by) - set(exp)]))
    ids = {}
    for e in page.els:
        if e.id:
            ids.setdefault(e.id, e)
    kinds = set()
    for n, e in exp.items():
        href = e.attrs.get("href", "")
        if href == "#":
            if n not in got["tip_errors"] or "no label" not in (by[n] or ""):
                raise V("tooltip of a link to nothing", (by[n], n in got["tip_errors"]))
            continue
        if n in got["tip_errors"]:
            raise V("a link is marked as wrong", e)
        t = ids.get(href[1:]) if href.startswith("#") else None
        if t is None:
            continue
        want = shown(t)
        if want is None:
            continue
        if by[n] is None:
            raise V("no tooltip", (e, t))
        root = dom.parse(by[n])
        wrap = root.els()
        if len(wrap) != 1 or "manuscriptwrapper" not in wrap[0].classes:
            raise V("tooltip without the style of manuscripts", wrap)
        if words(wrap[0]) != want:
            raise V("tooltip differs", f"of {e!r} to {t!r}: expected {want[:300]!r}, found {words(wrap[0])[:300]!r}")
        kinds.add(f"tip-{t.tag}-{next(iter(t.classes), '')}")
    return kinds


class Tooltips(DocSuite):
    name = "tooltips"
    quick, thorough = 1100, 100000
    max_case = 14000
    weights = dict(ref=14, cite=5, p_label=75, words=4, sections=3, p_bib=75, note=2)
    vary = [dict(proof=14, depth=4), dict(thm=20), dict(p_toc=90), dict(abstract=5, author=5, p_label=95), dict(algorithm=6, codeblock=6, table=6, figure=6),
            dict(span=8, construct=8, note=8), dict(mathblock=12, math=9, p_pmath=60)]
    rule = ("a generated manuscript, plain and with handrails, its scripts run in a small browser; each reference has one tooltip with the words "
            "of the element its label names (of a section the heading and what follows it, of a step its statement, of something within a "
            "paragraph all of it), a link without a target is marked; non-trivial: references to 3 kinds of elements")

    def check(self, case, src, ref):
        self.kinds = set()
        for h in (False, True):
            html, _ = run.render(src, handrails=h)
            page = browser.Page(html)
            got = browser.run(page, [], setup=["icons", "handrails", "keyboard", "minimap", "tooltips"], tooltips=True)
            if got["states"][0]["errors"]:
                raise V("a script fails", got["states"][0]["errors"][:3])
            self.kinds |= tips(page, got)

    def nontrivial(self, case, ref, c):
        return len(self.kinds) >= 3


class Scroller(Client):
    def __init__(self, page, url, rects):
        super().__init__(page, url, rects)
        self.heights = {}

    def step(self, a):
        if a["do"] == "scroll":
            self.y = a["y"]
            self.scrolled()
        elif a["do"] == "enter":
            for i, x in enumerate(self.toc):
                if self.p.num(x) == a["el"]:
                    self.follow(i)
        elif a["do"] == "resize":
            h = self.p[a["el"]].parent
            if "hr-offset" in h.classes:
                for z in ("border", "spacer", "info"):
                    z = self.zone(h, z)
                    if z is not None:
                        self.heights[str(self.p.num(z))] = f"{a['h']}px"
        else:
            super().step(a)

    def state(self):
        return dict(super().state(), heights=dict(self.heights))


class Scroll(ClientSuite):
    name = "scroll"
    quick, thorough = 900, 80000
    ops = {"scroll": 10, "enter": 3, "resize": 4, "toggle": 1, "key j": 1, "key ,": 1}
    length = 25
    weights = dict(words=2, sections=5, p_toc=85, blocks=2, p_title=70)
    vary = [dict(depth=4), dict(p_toc=30), dict(p_label=90), dict(p_label=10), dict(p_appendix=60)]
    rule = ("a generated manuscript laid out at random, its scripts run in a small browser, scrolled, resized and pointed at up to 25 times; the "
            "floating minimap is shown when the one of the contents is out of view and filled up to the last section in the upper half of the "
            "window, the one of the contents up to the entry pointed at, and the borders of offset handrails are as high as their content; "
            "non-trivial: the minimap was filled to 2 places")

    def gen(self, rng):
        return dict(super().gen(rng), layout=rng.randrange(10 ** 6))

    def check(self, case, src, ref):
        import random
        r = random.Random(case["layout"])
        html, _ = run.render(src, handrails=case["handrails"])
        page = browser.Page(html)
        rects, top = {}, 0
        for e in page.els:
            if e.tag == "section" or "minimap" in e.classes or e.tag == "circle":
                top += r.choice([0, 40, 150, 400, 900])
                rects[page.num(e)] = (top, r.choice([20, 200, 800, 2000]))
        c = Scroller(page, case["url"], rects)
        offs = [page.num(z) for h in c.hrs for z in [c.zone(h, "content")] if z is not None]
        actions, states = [], [c.state()]
        for op, n in case["actions"]:
            if op == "scroll":
                a = dict(do="scroll", y=n % (top + 1200))
            elif op == "enter":
                a = dict(do="enter", el=page.num(c.toc[n % len(c.toc)])) if c.toc else None
            elif op == "resize":
                a = dict(do="resize", el=offs[n % len(offs)], h=n % 1000 + n % 4 / 4) if offs else None
                if a and a["h"] == int(a["h"]):
                    a["h"] = int(a["h"])
            else:
                a, _ = self.action(c, op, n, None)
            if a:
                c.step(a)
                actions.append(a)
                states.append(c.state())
        got = browser.run(page, actions, setup=self.setup, url=case["url"], rects=[[n, *x] for n, x in rects.items()])["states"]
        for i, (x, y) in enumerate(zip(states, got)):
            y.setdefault("heights", {})
            compare(page, x, y, actions[max(0, i - 5):i])
        self.fills = len({str(s["icons"]) for s in states})

    def nontrivial(self, case, ref, c):
        return self.fills >= 3


class Tipper(Client):
    """A client who can open the tooltips of links."""

    def __init__(self, page, url):
        super().__init__(page, url)
        self.open, self.refs = set(), {page.num(e) for e in refs(page)}

    def key(self, k):
        n = -1 if self.focus is None else self.p.num(self.focus)
        if k == "i" and n in self.refs:
            self.open ^= {n}
        else:
            super().key(k)

    def state(self):
        return dict(super().state(), tips=sorted(self.open))


class Startup(ClientSuite):
    name = "startup"
    quick, thorough = 900, 80000
    ops = {"toggle": 4, "key j": 4, "key ,": 3, "key ;": 1, "dots": 2, "link": 1, "key h": 1, "key i": 3, "ref": 2}
    length = 10
    weights = dict(words=2, algorithm=8, sections=3, ref=6, p_label=60, p_icon=30)
    vary = [dict(algorithm=25), dict(proof=12), dict(p_toc=80), dict(thm=14)]
    rule = ("a generated manuscript started by onload.js, with or without root and keys, with all, some or none of the outside libraries "
            "reachable; icons are drawn, every algorithm is rendered once, tooltips are there, and clicks and keys work as the model says; "
            "non-trivial: 2 algorithms, or a library missing and 3 actions")

    def gen(self, rng):
        return dict(super().gen(rng), keys=rng.random() < .85, path=rng.choice([None, "/static/", "/static/./"]),
                    offline=rng.choice([False, False, True, "mathjax", "pseudocode"]))

    def check(self, case, src, ref):
        html, _ = run.render(src, handrails=case["handrails"])
        page = browser.Page(html)
        c = Tipper(page, case["url"])
        actions, states = [], [c.state()]
        for op, n in case["actions"]:
            a, _ = self.action(c, op, n, None)
            if a:
                if a["do"] != "key" or case["keys"]:
                    c.step(a)
                else:
                    c.clip = []
                actions.append(a)
                states.append(c.state())
        opts = {}
        if not case["keys"]:
            opts["keys"] = False
        if case["path"]:
            opts["path"] = case["path"]
        got = browser.run(page, actions, url=case["url"], tooltips=True, offline=case["offline"],
                          onload=dict(args=[None, opts] if opts else []))
        for i, (x, y) in enumerate(zip(states, got["states"])):
            drawings(page, y, actions[max(0, i - 5):i])
            y.setdefault("tips", [])
            y["tips"].sort()
            compare(page, x, y, actions[max(0, i - 5):i])
        tips(page, got)
        algs = [page.num(e) for e in page.els if e.tag == "pre" and "pseudocode" in e.classes]
        want = [] if case["offline"] in (True, "pseudocode") else algs
        if sorted(n for n, _ in got["rendered"]) != want:
            raise V("algorithms rendered", (want, got["rendered"]))
        for name in ("mathjax", "pseudocode"):
            if not any(name in x for x in got["scripts"]):
                raise V("library not loaded", name)
        named = {"collapse", "collapse-all", "ext", "dots", "link", "tree", "code"}
        icons = [n for n, e in enumerate(page.els) if "icon" in e.classes and named & set(e.classes)]
        miss = [what(page, n) for n in icons if n not in got["svg"]]
        if miss:
            raise V("icons not drawn", miss[:3])
        self.algs, self.n = len(algs), len(actions)

    def nontrivial(self, case, ref, c):
        return self.algs >= 2 or bool(case["offline"]) and self.n >= 3


if __name__ == "__main__":
    raise SystemExit(harness.main("C28", [Tooltips(), Scroll(), Startup()]))
