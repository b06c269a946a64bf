"""Reference model of a reader at a page with handrails: what each click and key must do."""
import random

import browser
import hr
import run
import shrink as shr
import suites
from harness import V
from suites import DocSuite

TOGGLE, ALL = ("collapse", "expand"), ("collapse-all", "expand-all")


def up(e):
    while e is not None:
        yield e
        e = e.parent


class Client:
    H = 600      # of the window

    def __init__(self, page, url, rects=None):
        self.p, self.url = page, url
        self.rects, self.y = rects or {}, 0
        self.hide0 = {page.num(e) for e in page.els if "hide" in e.classes}
        self.hrs = [e for e in page.els if "hr" in e.classes]
        self.collapsed, self.menus, self.active = set(), set(), set()
        self.focus = None
        self.clip, self.toasts, self.clipfails = [], [], False
        self.icons = {page.num(e): [c for c in e.classes if c != "icon"] for e in page.els if "icon" in e.classes}
        self.icons.update({page.num(e): [e.attrs["offset"]] for e in page.els if e.tag == "stop" and "offset" in e.attrs})
        self.texts = {page.num(e): e.text().strip() for e in page.els if "hr-menu-item-text" in e.classes}
        self.focusable = [e for e in page.els if (e.tag == "a" and "href" in e.attrs or "tabindex" in e.attrs)
                          and e.attrs.get("tabindex") != "-1"]
        toc = [e for e in page.els if e.tag == "ul" and "contents" in e.classes]
        self.toc = [i for i in (toc[0].find(tag="li", cls="item") if toc else [])]
        self.stops = {e.id: page.num(e) for e in reversed(page.els) if e.tag == "stop" and e.id}
        one = lambda c: next((e for e in page.els if "minimap" in e.classes and e.parent is not None and c in e.parent.classes), None)  # noqa: E731
        self.tocmm, self.float = one("toc-wrapper"), one("float-minimap-wrapper")
        self.sections = [e for e in page.els if e.tag == "section"]
        self.alls = {}     # handrails whose steps were last collapsed all at once
        self.rest = {page.num(h): [page.num(e) for e in self._rest(h)] for h in self.hrs}
        self.hide = set(self.hide0)

    # -- the page
    def zone(self, h, name):
        z = hr.zone(h, f"hr-{name}-zone")
        return z[0] if z else None

    def content(self, h):
        z = self.zone(h, "content")
        return z.els() if z else []

    def _rest(self, h):
        """What goes away when *h* is collapsed: everything but what names it."""
        if "hr-labeled" in h.classes:
            return [k for k in self.content(h) if "hr-label" not in k.classes]
        if "step" in h.classes:
            return [k for k in self.content(h) if "statement" not in k.classes]
        return [k for k in h.parent.els() if k is not h]

    def items(self, h):
        z = self.zone(h, "menu")
        return [e for e in z.find(cls="hr-menu-item")] if z else []

    def item(self, h, cls):
        """The menu entry of *h* of a class, if enabled."""
        for e in self.items(h):
            if cls in e.classes and "disabled" not in e.classes:
                return e

    def button(self, h):
        z = self.zone(h, "collapse")
        b = z.find(cls="hr-collapse") if z else []
        return b[0] if b else None

    def own(self, e):
        return next((x for x in up(e) if "hr" in x.classes), None)

    def hidden(self, e):
        for x in up(e):
            n = self.p.num(x) if id(x) in self.p.n else None
            if n is not None and (n in self.hide or "hr-menu-zone" in x.classes and n not in self.menus):
                return True
        return False

    # -- the window
    def rect(self, e):
        t, h = self.rects.get(self.p.num(e), (0, 10))
        return t - self.y, t - self.y + h

    def scroll(self, y):
        y = max(0, y)
        if y != self.y:
            self.y = y
            self.scrolled()

    def scrolled(self):
        """The floating minimap goes away while the one of the contents is in view, or else follows."""
        if self.float is None:
            return
        n = self.p.num(self.float)
        if self.tocmm is not None:
            t, b = self.rect(self.tocmm)
            (self.hide0.add if t < self.H and b > 0 else self.hide0.discard)(n)
            self.hide = self.hide0 | {e for x in self.collapsed for e in self.rest[x]}
        if n in self.hide:
            return
        last = None
        for s in self.sections:
            t, b = self.rect(s)
            if t < self.H / 2 and b > 0:
                last = s
        # a section without label has no dot of its own: the first dot of such a section stands for it
        c = next((e for e in self.p.els if last is not None and e.id == "mm-" + (last.id or "")), None)
        p = 0
        if c is not None:
            mt, mb = self.rect(self.float)
            p = (self.rect(c)[1] - mt + 12) / (mb - mt) * 100
        self.fill("scroll", p)

    def fill(self, name, p):
        for x in "12":
            k = f"stop-follow-{name}-{x}"
            if k in self.stops:
                self.icons[self.stops[k]] = [f"{p}%"]


    def show(self, e, d=0):
        """The window scrolls to have *e* in its middle, unless that is against the direction of the key, or close enough."""
        t, b = self.rect(e)
        by = (t + b - self.H) / 2
        if d:
            if b - t > self.H:
                by = t
            elif abs(by) <= 48:
                return
        if by * d >= 0:
            self.scroll(self.y + by)

    # -- what controls do
    def toggle(self, h):
        self.put(h, self.p.num(h) not in self.collapsed)

    def put(self, h, closed):
        (self.collapsed.add if closed else self.collapsed.discard)(self.p.num(h))
        self.hide = self.hide0 | {e for x in self.collapsed for e in self.rest[x]}
        z = [self.button(h)] if self.button(h) else [e for e in self.items(h) if "collapse-subproof" in e.classes]
        for c in z:
            for i in c.find(cls="icon"):
                self.icons[self.p.num(i)] = [TOGGLE[closed]]
            for t in c.find(cls="hr-menu-item-text"):
                self.texts[self.p.num(t)] = "Expand" if closed else "Collapse"

    def steps(self, h):
        """The steps right below *h* that have something to collapse."""
        if "step" in h.classes:
            subs = [k for k in self.content(h) if "subproof" in k.classes]
        else:
            subs = [h]
        return [s for b in subs for s in self.content(b) if "step" in s.classes and any("subproof" in k.classes for k in s)]

    def toggle_all(self, h):
        n = self.p.num(h)
        closed = not self.alls.get(n)
        self.alls[n] = closed
        for s in self.steps(h):
            self.put(s, closed)
        for e in self.items(h):
            if "collapse-steps" in e.classes:
                for i in e.find(cls="icon"):
                    self.icons[self.p.num(i)] = [ALL[closed]]
                for t in e.find(cls="hr-menu-item-text"):
                    self.texts[self.p.num(t)] = "Expand all" if closed else "Collapse all"

    def copy(self, h):
        a = h.id
        if "heading" in h.classes:
            s = h.parent
            a = s.id or next((u.id for u in s.find(tag="ul", cls="contents")), "")
            if s.tag == "section" and "level-1" in s.classes:
                a = ""      # the page itself
        if self.clipfails:
            self.toasts.append("toast error|Could not copy link.")
        else:
            self.clip = [self.url.split("#")[0] + "#" + a]
            self.toasts.append("toast success|Link copied to clipboard.")

    def set_focus(self, e):
        if e is not None and not self.hidden(e):
            if e is not self.focus and e.tag == "a" and "reference" in e.classes:
                for i, x in enumerate(self.toc):
                    if x in up(e):
                        self.follow(i)
            self.focus = e

    def follow(self, i):
        """The minimap next to the contents is filled up to an entry."""
        self.fill("mouse", (i + 1) / len(self.toc) * 100)

    # -- what the reader does
    def click(self, e):
        f = next((x for x in up(e) if "tabindex" in x.attrs or x.tag == "a" and "href" in x.attrs), None)
        self.focus = None
        self.set_focus(f)
        h = self.own(e)
        if h is None:
            return
        inside = list(up(e))
        b = self.button(h)
        if b is not None and b in inside:
            self.toggle(h)
        for c, f in (("collapse-subproof", self.toggle), ("collapse-steps", self.toggle_all), ("link", self.copy)):
            i = self.item(h, c)
            if i is not None and i in inside:
                f(h)
        if any("hr-border-dots" in x.classes for x in inside):
            self.menus.add(self.p.num(self.zone(h, "menu")))

    def close_menu(self, z):
        self.menus.discard(self.p.num(z))
        self.active -= {self.p.num(e) for e in z.find(cls="hr-menu-item")}

    def leave(self, e):
        self.close_menu(e.parent)

    def key(self, k):
        f = self.focus
        h = f if f is not None and "hr" in f.classes else None
        n = self.p.num
        if k in "jk":
            self.walk(1 if k == "j" else -1)
        elif k in "hl":
            self.jump(1 if k == "h" else -1)
        elif k == "H":
            self.set_focus(self.focusable[0] if self.focusable else None)
            if self.focusable:
                self.show(self.focusable[0])
        elif k == "z":
            self.show(f)
        elif h is None:
            pass
        elif k == ".":
            z = self.zone(h, "menu")
            if n(z) in self.menus:
                self.close_menu(z)
            else:
                self.menus.add(n(z))
        elif k == ",":
            if self.button(h) or self.item(h, "collapse-subproof"):
                self.toggle(h)
        elif k == ";":
            if self.item(h, "collapse-steps"):
                self.toggle_all(h)
        elif k in ("ArrowUp", "ArrowDown"):
            z, items = self.zone(h, "menu"), [n(e) for e in self.items(h)]
            if n(z) not in self.menus or not items:
                return
            cur = [i for i, e in enumerate(items) if e in self.active]
            i = (cur[0] + (1 if k == "ArrowDown" else -1)) % len(items) if cur else 0
            self.active -= set(items)
            self.active.add(items[i])
        elif k == "Enter":
            for c, f in (("collapse-subproof", self.toggle), ("collapse-steps", self.toggle_all)):
                i = self.item(h, c)
                if i is not None and n(i) in self.active:
                    f(h)

    def can(self, e):
        """Keys stop here: not hidden, and not part of something collapsed."""
        return not self.hidden(e) and not any(id(x) in self.p.n and self.p.num(x) in self.collapsed for x in up(e.parent))

    def walk(self, d):
        fs = self.focusable
        if not fs:
            return
        if self.focus is None:
            self.set_focus(fs[0])
            self.show(fs[0], d)
            return
        if self.focus not in fs:
            return
        i = fs.index(self.focus)
        for _ in fs:
            i = (i + d) % len(fs)
            if self.can(fs[i]):
                self.set_focus(fs[i])
                self.show(fs[i], d)
                return

    def jump(self, d):
        fs, cur = self.focusable, self.focus
        if cur is None:
            if fs:
                self.set_focus(fs[0])
                self.show(fs[0], d)
            return
        if "heading" in cur.classes:
            s = cur.parent
            sibs = [k for k in s.parent.els() if k.tag == "section"]
            if s in sibs and 0 <= sibs.index(s) + d < len(sibs):
                e = next((x for x in sibs[sibs.index(s) + d] if "heading" in x.classes), None)
                if e is not None:
                    self.set_focus(e)
                    self.show(e, d)
            return
        if cur not in fs:
            return
        i = fs.index(cur)
        for e in (fs[i + 1:] if d > 0 else fs[:i][::-1]):
            if e.parent is cur.parent:
                self.set_focus(e)
                self.show(e, d)
                return

    # -- comparison
    def step(self, a):
        self.clip = []
        do = a["do"]
        if do == "click":
            self.click(self.p[a["el"]])
        elif do == "leave":
            self.leave(self.p[a["el"]])
        elif do == "key":
            self.key(a["key"])
        elif do == "dismiss":
            self.focus = None
            del self.toasts[a["n"] % len(self.toasts)]
        elif do == "tick":
            self.toasts = []
        elif do == "clip":
            self.clipfails = a["fails"]
        elif do == "blur":
            self.focus = None
        if self.focus is not None and self.hidden(self.focus):
            self.focus = None

    def state(self):
        return dict(errors=[], gone=[], hide=sorted(self.hide), collapsed=sorted(self.collapsed), menus=sorted(self.menus),
                    active=sorted(self.active), focus=-1 if self.focus is None else self.p.num(self.focus),
                    icons={str(k): v for k, v in self.icons.items()}, texts={str(k): v for k, v in self.texts.items()},
                    notes=sorted(n for h in self.hrs if "step" in h.classes and self.p.num(h) in self.collapsed for n in [self.p.num(self.zone(h, "content"))]),
                    clip=list(self.clip), toast=list(self.toasts), y=self.y)


def what(page, n):
    if isinstance(n, str) and n.isdigit():
        n = int(n)
    return f"{n}{page[n]!r}" if isinstance(n, int) and n >= 0 else n


def layout(page, seed):
    """Where everything that can have the focus is, at random: (top, height)."""
    r, top, out = random.Random(seed), 0, {}
    for e in page.els if seed is not None else ():
        if "tabindex" in e.attrs or e.tag == "a":
            top += r.choice([0, 10, 40, 150, 400])
            out[page.num(e)] = (top, r.choice([10, 25, 120, 480, 599, 600, 601, 1500]))
    return out


def rounded(d):
    return {k: [f"{float(x[:-1]):.4f}%" if x.endswith("%") else x for x in v] for k, v in d.items()}


def compare(page, exp, got, after):
    for k, v in exp.items():
        w = got[k]
        if v == w:
            continue
        if k == "icons":
            v, w = rounded(v), rounded(w)
        if isinstance(v, dict):
            d = [(what(page, x), v.get(x), w.get(x)) for x in sorted(set(v) | set(w), key=int) if v.get(x) != w.get(x)]
            if d:
                raise V(f"{k} of the page", f"(element, expected, found) {d[:6]} after {after}")
            continue
        if isinstance(v, list) and all(isinstance(x, int) for x in v + w):
            raise V(f"{k} of the page", f"missing {[what(page, x) for x in v if x not in w][:5]}, "
                    f"too many {[what(page, x) for x in w if x not in v][:5]} after {after}")
        if k != "y":
            v, w = what(page, v), what(page, w)
        raise V(f"{k} of the page", f"expected {v}, found {w} after {after}")


def drawings(page, got, after):
    """An icon looks as its class says: all of a class the same, and those of different classes different."""
    by = {}
    for n, cls in got["icons"].items():
        if n in got["drawn"] and len(cls) == 1 and cls[0] in TOGGLE + ALL:
            if by.setdefault(cls[0], got["drawn"][n]) != got["drawn"][n] or not got["drawn"][n]:
                raise V("icon drawn", f"{what(page, n)} as {cls[0]} {got['drawn'][n]!r} after {after}")
    if len(set(by.values())) < len(by):
        raise V("icons drawn alike", f"{by} after {after}")


class ClientSuite(DocSuite):
    """case = a manuscript, and what the reader does, as [what, which] pairs"""
    setup = ["icons", "handrails", "keyboard", "minimap"]
    urls = ["http://localhost/index.html", "https://x.org/a/b.html?q=1#old", "file:///tmp/index.html#", "http://x.org/"]
    plain = 0
    ops = {}
    length = 30
    max_case = 14000
    weights = dict(words=3, sections=3, proof=9, thm=7, depth=4)
    vary = [dict(proof=20, depth=5), dict(p_label=90), dict(p_label=15), dict(p_toc=90, sections=5), dict(p_title=30),
            dict(abstract=4, author=4), dict(p_sections=30)]

    def gen(self, rng):
        case = super().gen(rng)
        ops = rng.choices(list(self.ops), list(self.ops.values()), k=rng.randint(1, self.length))
        return dict(case, handrails=rng.random() >= self.plain, url=rng.choice(self.urls),
                    actions=[[o, rng.randrange(10 ** 6)] for o in ops])

    def show(self, case):
        return f"{case['actions']} handrails={case['handrails']} {case['url']}\n{super().show(case)}"

    def targets(self, c, op, last):
        vis = lambda es: [e for e in es if e is not None and not c.hidden(e)]   # noqa: E731
        if op == "toggle":
            return vis(c.button(h) for h in c.hrs)
        if op == "item":
            return vis(i for h in c.hrs for i in c.items(h))
        if op == "collapse":
            return vis(i for h in c.hrs for i in c.items(h) if {"collapse-subproof", "collapse-steps"} & set(i.classes))
        if op == "link":
            return vis(c.item(h, "link") for h in c.hrs)
        if op == "ref":
            return vis(e for e in c.focusable if "reference" in e.classes)
        if op == "dots":
            return vis(d for h in c.hrs for d in (c.zone(h, "border").find(cls="hr-border-dots") if c.zone(h, "border") else ()))
        if op == "pdots":   # of steps and proofs
            return vis(d for h in c.hrs if {"step", "proof"} & set(h.classes) for d in c.zone(h, "border").find(cls="hr-border-dots"))
        if op == "hdots":   # of headings
            return vis(d for h in c.hrs if "heading" in h.classes for d in c.zone(h, "border").find(cls="hr-border-dots"))
        if op == "leave":
            return vis(z.els()[0] for h in c.hrs for z in [c.zone(h, "menu")] if z and z.els())
        if op == "text":
            return vis(e for e in c.p.els if not any("hr-" in x for y in up(e) for x in y.classes if x.endswith("-zone") and
                                                     x != "hr-content-zone") and not e.within("svg") and not e.within("a"))
        if op == "last":
            return vis([last])

    def action(self, c, op, r, last):
        if op.startswith("key "):
            if op == "key z" and c.focus is None:
                return None, None
            return dict(do="key", key=op[4:]), None
        if op in ("tick", "blur"):
            return dict(do=op), None
        if op == "dismiss":
            return (dict(do="dismiss", n=r), None) if c.toasts else (None, None)
        if op == "clip":
            return dict(do="clip", fails=r % 2 == 0), None
        t = self.targets(c, op, last)
        if not t:
            return None, None
        e = t[r % len(t)]
        if op == "leave":
            return dict(do="leave", el=c.p.num(e)), None
        if op != "last":
            inner = list(e)
            e = inner[(r // 1000) % len(inner)]
            if any(x.tag == "a" for x in up(e)):
                e = t[r % len(t)]
        return dict(do="click", el=c.p.num(e), focus=True), e

    def check(self, case, src, ref):
        html, _ = run.render(src, handrails=case["handrails"])
        page = browser.Page(html)
        rects = layout(page, case.get("layout"))
        c = Client(page, case["url"], rects)
        actions, states, last = [], [c.state()], None
        for op, r in case["actions"]:
            a, e = self.action(c, op, r, last)
            if a:
                last = e or last
                c.step(a)
                actions.append(a)
                states.append(c.state())
        self.c = c
        self.did = actions
        got = browser.run(page, actions, setup=self.setup, url=case["url"], rects=[[n, *x] for n, x in rects.items()])["states"]
        seen = []
        for i, (x, y) in enumerate(zip(states, got)):
            if i:
                a = actions[i - 1]
                seen.append(a.get("key") or f"{a['do']} {what(page, a.get('el', ''))}")
            compare(page, x, y, seen[-6:])
            drawings(page, y, seen[-6:])
        if len(got) != len(states):
            raise V("actions", (len(got), len(states)))

    def shrink(self, case, fails):
        acts = shr.shrink_list(case["actions"], lambda x: fails(dict(case, actions=x)), max_s=15)
        case = dict(case, actions=acts)
        return super().shrink(case, fails)
