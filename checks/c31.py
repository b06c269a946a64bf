"""C31: an example in the documentation shows its source and its page."""
import html as H
import importlib.util
import os
import random
import re
import sys
import types
import urllib.parse

import common  # noqa: F401

import boot
import browser
import docgen
import harness
import run
from client import Client, compare, drawings, what
from harness import V
from suites import DocSuite

DOCS = os.path.join(boot.REPO, "docs", "source")


class Element:
    """As much of docutils (which is not installed) as the directive needs."""

    def __init__(self, rawsource="", *children, **attrs):
        self.rawsource, self.children, self.attributes = rawsource, list(children), dict(dict(classes=[], ids=[]), **attrs)

    def __getitem__(self, k):
        return self.attributes[k] if isinstance(k, str) else self.children[k]

    def __setitem__(self, k, v):
        self.attributes[k] = v

    def append(self, x):
        self.children.append(x)

    def extend(self, xs):
        self.children += xs

    def __iadd__(self, x):
        self.children += x if isinstance(x, list) else [x]
        return self

    def astext(self):
        return "".join(c if isinstance(c, str) else c.astext() for c in self.children)


class literal_block(Element):
    def __init__(self, rawsource="", text="", *children, **attrs):
        super().__init__(rawsource, *([text] if text else []), *children, **attrs)


class Directive:
    def __init__(self, content):
        self.content, self.arguments, self.options, self.name, self.lineno = list(content), [], {}, "rsm", 1


def load():
    """The directive, with a stand-in for docutils, and what Sphinx is told about it."""
    for name in ("docutils", "docutils.nodes", "docutils.parsers", "docutils.parsers.rst"):
        sys.modules[name] = types.ModuleType(name)
    d = sys.modules["docutils"]
    d.nodes, d.parsers = sys.modules["docutils.nodes"], sys.modules["docutils.parsers"]
    d.parsers.rst = sys.modules["docutils.parsers.rst"]
    d.nodes.Element = d.nodes.General = Element
    d.nodes.literal_block = literal_block
    d.parsers.rst.Directive = Directive
    try:
        spec = importlib.util.spec_from_file_location("rsm_directive", os.path.join(DOCS, "rsm_directive.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        for name in [x for x in sys.modules if x.split(".")[0] == "docutils"]:
            del sys.modules[name]
    app = App()
    mod.setup(app)
    return app


class App:
    def __init__(self):
        self.directives, self.nodes, self.events, self.files = {}, {}, {}, []
        self.config = types.SimpleNamespace(html_static_path=[])

    def connect(self, event, f, **k):
        self.events[event] = f

    def add_config_value(self, name, default, *a, **k):
        setattr(self.config, name, default)

    def add_css_file(self, name, **k):
        self.files.append((name, k))

    add_js_file = add_css_file

    def add_directive(self, name, cls, *a, **k):
        self.directives[name] = cls

    def add_node(self, cls, **k):
        self.nodes[cls] = k["html"]

    def __getattr__(self, name):
        return lambda *a, **k: None


def literal(node):
    """As Sphinx shows a listing."""
    cls = " ".join(node["classes"] + [f"highlight-{node['language']}", "notranslate"])
    return f'<div class="{cls}"><div class="highlight"><pre><span></span>{H.escape(node.astext(), quote=False)}\n</pre></div></div>'


def show(app, node, out):
    if isinstance(node, str):
        out.body.append(H.escape(node, quote=False))
    elif isinstance(node, literal_block):
        out.body.append(literal(node))
    else:
        visit, depart = app.nodes[type(node)]
        visit(out, node)
        for k in node.children:
            show(app, k, out)
        depart(out, node)


_app = None


def plain(e):
    """An element as nested lists, to compare."""
    return [e.tag, sorted((k, v) for k, v in e.attrs.items()), [k if isinstance(k, str) else plain(k) for k in e.kids]]


class Examples(DocSuite):
    name = "examples"
    quick, thorough = 900, 60000
    max_case = 9000
    weights = dict(words=3, sections=2, proof=5, depth=3)
    rule = ("up to three generated manuscripts, as examples on one page of the documentation: each is shown as its source, verbatim, and as the page "
            "that rendering gives, in the wrapper for embedding; a button opens the editor with exactly that source, and the handrails of each "
            "collapse what is theirs; non-trivial: two examples or more, with something to collapse")

    def gen(self, rng):
        case = super().gen(rng)
        return dict(case, more=[super(Examples, self).gen(rng) for _ in range(rng.choice([0, 1, 1, 2]))], actions=rng.randrange(10 ** 6),
                    odd=rng.choice([None, None, None, 'class="manuscriptwrapper"', "</body>", "<body>", "a%20b+c&d=e#f?"]))

    def sources(self, case):
        srcs = [super(Examples, self).source(c) for c in [case, *case["more"]]]
        if case["odd"]:
            srcs.append(f":rsm:\n\nSee {case['odd']} here.\n\n::\n")
        return srcs

    def show(self, case):
        return "\n---\n".join(self.sources(case))

    def ok(self, case, src):
        return all(docgen.valid(c["doc"]) for c in [case, *case["more"]]) and all(run.cst_clean(s) for s in self.sources(case))

    def check(self, case, src, ref):
        global _app
        if _app is None:
            _app = load()
        out = types.SimpleNamespace(body=["<body><div class=\"document\">"])
        srcs = [s.rstrip("\n") for s in self.sources(case)]
        for s in srcs:
            with run.logs():
                nodes = _app.directives["rsm"](s.split("\n")).run()
            for n in nodes:
                show(_app, n, out)
        out.body.append("</div></body>")
        page = browser.Page("<html>" + "".join(out.body) + "</html>")
        boxes = [e for e in page.els if "rsm-example" in e.classes]
        if len(boxes) != len(srcs):
            raise V("examples on the page", (len(boxes), len(srcs)))
        for box, s in zip(boxes, srcs):
            kids = box.els()
            pre = [e for k in kids[:1] for e in k.find(tag="pre")]
            if len(pre) != 1 or "rsm-example-code" not in kids[0].classes or pre[0].text() != s + "\n":
                raise V("source of the example", (s[:200], [p.text()[:200] for p in pre]))
            html, _ = run.render(s, handrails=True)
            want = run.parsed(html).find(tag="body")[0]
            for e in want:
                if e.parent is want and "manuscriptwrapper" in e.classes:
                    e.attrs["class"] = "manuscriptwrapper embedded"
            if [plain(e) for e in kids[1:]] != [plain(e) for e in want.els()]:
                raise V("page of the example", s[:600])
        # the reader
        c = Client(page, "http://x.org/a.html")
        c.float = c.tocmm = None
        c.toc = []
        rng = random.Random(case["actions"])
        actions, states = [], [c.state()]
        for _ in range(8):
            b = [c.button(h) for h in c.hrs if c.button(h) is not None and not c.hidden(c.button(h))]
            if not b:
                break
            e = rng.choice(b)
            a = dict(do="click", el=page.num(e), focus=True)
            c.step(a)
            actions.append(a)
            states.append(c.state())
        self.acts = len(actions)
        got = browser.run(page, actions, setup=["icons", "handrails"], url="http://x.org/a.html",
                          classic=[os.path.join(DOCS, "_static", "openlive.js")], press=".rsm-example-code button")
        if len(got["opened"]) != len(srcs):
            raise V("buttons", (len(got["opened"]), len(srcs)))
        for (n, urls), box, s in zip(got["opened"], boxes, srcs):
            if not any(page[n] is e for e in box):
                raise V("place of the button", what(page, n))
            u = urls[0] if len(urls) == 1 else ""
            q = urllib.parse.parse_qs(urllib.parse.urlsplit(u).query, keep_blank_values=True, strict_parsing=False, separator="&")
            raw = u.partition("?src=")[2]
            if urllib.parse.unquote(raw).rstrip("\n") != s or q.get("src", [""])[0].rstrip("\n") != s or urllib.parse.urlsplit(u).fragment:
                raise V("source in the editor", (s[:200], urls))
        for i, (x, y) in enumerate(zip(states, got["states"])):
            compare(page, x, y, [what(page, a["el"]) for a in actions[max(0, i - 6):i]])
            drawings(page, y, [])

    def nontrivial(self, case, ref, c):
        return bool(case["more"]) and self.acts > 0


class Assets(harness.Suite):
    """case = options of the documentation"""
    name = "assets"
    quick, thorough = 60, 2000
    rule = ("the pages of the documentation load the tool's style sheet and scripts, from files that exist, and start them with the configured "
            "path; non-trivial: a configured path")

    def gen(self, rng):
        path = lambda: "/" + "".join(rng.choice(["en/", "latest/", "_static/", "a-b/", "v1.0/", "x_y/"]) for _ in range(rng.randint(0, 3)))  # noqa: E731
        return dict(prod=rng.random() < .5, dev=rng.choice([None, path()]), live=rng.choice([None, path()]))

    def show(self, case):
        return repr(case)

    def run(self, case):
        app = load()
        cfg = app.config
        cfg.rsm_build_prod = case["prod"]
        for k, v in (("rsm_static_path_dev", case["dev"]), ("rsm_static_path_prod", case["live"])):
            if v is not None:
                setattr(cfg, k, v)
        app.events["builder-inited"](app)
        names = [n for n, _ in app.files if n]
        for n in names:
            if not any(os.path.isfile(os.path.join(d, n)) for d in cfg.html_static_path):
                raise V("file that does not exist", n)
        for n in ("rsm.css", "tooltipster.bundle.css", "tooltipster.bundle.js", "openlive.js"):
            if n not in names:
                raise V("file that is not loaded", n)
        code = [k for n, k in app.files if n is None]
        calls = [c for k in code for c in re.findall(r"onload\(\s*['\"]([^'\"]*)['\"]\s*\)", k.get("body", "")) if k.get("type") == "module"]
        want = cfg.rsm_static_path_prod if case["prod"] else cfg.rsm_static_path_dev
        if calls != [want]:
            raise V("path given to the scripts", (calls, want))
        return {"!nontrivial"} if case["dev"] or case["live"] else {"default"}


if __name__ == "__main__":
    raise SystemExit(harness.main("C31", [Examples(), Assets()]))
