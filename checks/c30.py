"""C30: with the style sheet, a page shows all it says, and marks what the manuscript marks."""
import colorsys
import re

import common  # noqa: F401

import browser
import docgen
import harness
import run
from client import up, what
from harness import V
from suites import DocSuite

SIZES = "tiny smallest smaller small normal large larger largest huge huger".split()


NAMES = dict(black="000000", white="ffffff", gray="808080", grey="808080", silver="c0c0c0", red="ff0000", green="008000", blue="0000ff", navy="000080", teal="008080",
             purple="800080", maroon="800000", orange="ffa500", yellow="ffff00", lightgray="d3d3d3", lightgrey="d3d3d3", darkgray="a9a9a9", dimgray="696969",
             whitesmoke="f5f5f5", gainsboro="dcdcdc", canvas="ffffff", canvastext="000000", rebeccapurple="663399", aliceblue="f0f8ff", snow="fffafa")


def rgb(s):
    """A colour as red, green and blue; None if that cannot be told."""
    s = s.strip().lower()
    s = "#" + NAMES[s] if s in NAMES else s
    m = re.fullmatch(r"#([0-9a-f]{3,8})", s)
    if m:
        h = m[1]
        h = "".join(2 * c for c in h) if len(h) < 6 else h
        return [int(h[i:i + 2], 16) for i in (0, 2, 4)]
    m = re.fullmatch(r"(rgb|hsl)a?\(\s*([-\d.]+%?(?:deg)?)[\s,]+([\d.]+%?)[\s,]+([\d.]+%?)\s*(?:[,/]\s*([\d.]+%?)\s*)?\)", s)
    if not m or m[5] and float(m[5].rstrip("%")) != (100 if m[5].endswith("%") else 1):
        return None
    if m[1] == "rgb":
        return [float(x[:-1]) * 2.55 if x.endswith("%") else float(x) for x in m.groups()[1:4]]
    h, sat, lum = float(m[2].replace("deg", "")) % 360 / 360, float(m[3].rstrip("%")) / 100, float(m[4].rstrip("%")) / 100
    return [255 * x for x in colorsys.hls_to_rgb(h, lum, sat)]


def bold(v):
    return v in ("bold", "bolder") or v.isdigit() and int(v) >= 600


def light(c):
    return sum(w * (x / 255 / 12.92 if x / 255 <= .03928 else ((x / 255 + .055) / 1.055) ** 2.4) for w, x in zip((.2126, .7152, .0722), c))


def contrast(a, b):
    a, b = sorted((light(a), light(b)))
    return (b + .05) / (a + .05)


class Sheet(DocSuite):
    name = "sheet"
    quick, thorough = 700, 60000
    max_case = 14000
    weights = dict(p_types=40, p_label=60)
    vary = [dict(proof=14, depth=4), dict(lst=14, depth=4), dict(p_toc=90), dict(p_bib=90, cite=8), dict(abstract=5, author=5),
            dict(algorithm=6, codeblock=8, table=6, figure=6), dict(span=10, construct=8, note=8), dict(mathblock=12, math=9, thm=9)]
    rule = ("a generated manuscript, plain and with handrails, in a small browser that computes the cascade of rsm.css: each text is seen unless "
            "hidden by the manuscript, with a colour that differs from what is behind it, in the light and in the dark theme; no text comes from "
            "the style sheet; lists have their numbers and bullets, code its white space, what is emphasised or set in a size stands out, "
            "handrails under the mouse or with the focus show their own controls; non-trivial: lists, sizes or emphasis, and handrails to hover")

    def gen(self, rng):
        case = super().gen(rng)
        for x in docgen.walk(case["doc"]):
            t = x.get("a", {}).get("types")
            if t and rng.random() < .8:
                x["a"]["types"] = list(dict.fromkeys(rng.choice(SIZES) if rng.random() < .9 else rng.choice(["hide", "draft"]) if rng.random() < .3 else y for y in t))[:rng.choice([1, 1, 2])]
        return case

    def check(self, case, src, ref):
        self.kinds = set()
        for h in (False, True):
            html, _ = run.render(src, handrails=h)
            for theme in ("", "dark-theme"):
                self.look(browser.Page(html), h, theme)

    def look(self, page, h, theme):
        n = page.num
        ask, use = [], []

        def want(e, prop, f):
            ask.append((n(e), prop))
            use.append((e, prop, f))
        paper = []
        for e in page.els:
            c = e.classes
            if e.tag == "li":
                l = e.parent
                if "contents" in l.classes or any("contents" in x.classes for x in up(l)):
                    continue
                t = "none" if "bibliography" in l.classes else {"ol": "decimal", "ul": "disc"}[l.tag]
                want(e, "list-style-type", lambda v, t=t: (v == "none") == (t == "none") and (t != "decimal" or re.search("decimal|roman|alpha|latin", v)))
                want(e, "display", lambda v: v == "list-item")
                self.kinds.add(t)
            if e.tag == "pre":
                want(e, "white-space", lambda v: v.startswith("pre") or v == "break-spaces")
                self.kinds.add("pre")
            if e.tag in ("strong", "em"):
                if e.tag == "strong":
                    want(e, "font-weight", bold)
                else:
                    want(e, "font-style", lambda v: v in ("italic", "oblique"))
                self.kinds.add(e.tag)
            for s in SIZES:
                if s in c:
                    want(e, "font-size", None)
            if {"keyword", "pg-label"} & set(c):
                want(e, "font-weight", bold)
                self.kinds.add("keyword")
            if e.tag in ("h1", "h2", "h3", "h4", "h5") and not any(set(x.classes) & set(SIZES) for x in up(e)):
                want(e, "font-size", None)
            if "unknown" in c and "reference" in c:
                want(e, "background", lambda v: v != paper[0])
                self.kinds.add("unknown")
            if e.tag == "a" and "href" in e.attrs and not any("draft" in x.classes for x in up(e)):
                want(e, "color", lambda v: v != paper[1])
            if "manuscriptwrapper" in c:
                want(e, "background", lambda v: paper.append(v) or v)
                want(e, "color", lambda v: paper.append(v) or v)
            if any(isinstance(k, str) and k.strip() for k in e.kids):
                want(e, "text-transform", lambda v: v == "none")
                want(e, "direction", lambda v: v in ("", "ltr"))
        rails = [e for e in page.els if "hr" in e.classes]
        pick = rails[:: max(1, len(rails) // 5)] if rails else []
        over = [(k, n(e)) for e in pick for k in ("hover", "focus") if k == "hover" or "tabindex" in e.attrs]
        res = browser.run(page, [], setup=["icons", "handrails"] if h else ["icons"],
                          look=dict(props=ask, theme=theme, over=over if not theme else []))["look"]
        unseen = dict(res["unseen"])
        for i, why in unseen.items():
            e = page[i]
            c = e.classes
            if "hide" in c or "hr-menu-zone" in c or {"hr-border-dots", "hr-collapse"} & set(c) or e.tag in ("script", "style"):
                continue
            if "hr-border-zone" in c and "hr-hidden" in e.parent.classes:
                continue
            raise V("not seen", (what(page, i), why))
        for e in page.els:
            if "hide" in e.classes and n(e) not in unseen:
                raise V("seen though hidden", what(page, n(e)))
        if res["gen"]:
            raise V("the style sheet writes", [(what(page, i), k, t) for i, k, t in res["gen"][:4]])
        if res["undef"]:
            raise V("undefined variables", [(what(page, i), t) for i, t in res["undef"][:4]])
        for i, fg, bg in res["ink"]:
            a, b = rgb(fg or "black"), rgb(bg or "white")
            if a and b and contrast(a, b) < 1.5:
                raise V("colour like what is behind it", (what(page, i), fg, bg, contrast(a, b)))
        size, heads = {}, {}
        for (e, prop, f), v in zip(use, res["props"]):
            if f is None and e.tag[0] == "h" and e.tag[1:].isdigit():
                heads[e.tag] = v
            elif f is None:
                s = [x for x in SIZES if x in e.classes]
                if len(s) == 1:
                    size[s[0]] = v
            elif not f(v):
                raise V(f"{prop}", (what(page, n(e)), v))
        self.kinds |= set(size)
        got = [size[s] for s in SIZES if s in size]
        if got != sorted(set(got)):
            raise V("sizes", size)
        got = [heads[k] for k in sorted(heads)]
        if got != sorted(set(got), reverse=True):
            raise V("sizes of headings", heads)
        for (k, i), seen in zip(over, res["hover"]):
            self.kinds.add(k)
            e = page[i]
            own = [x for z in e.els() if {"hr-border-zone", "hr-collapse-zone"} & set(z.classes)
                   for x in z if {"hr-border-dots", "hr-collapse"} & set(x.classes)]
            for x in own:
                if n(x) not in seen and not any("hide" in y.classes for y in up(x)):
                    raise V(f"controls not seen on {k}", (what(page, i), x))

    def classes(self, case, ref):
        return super().classes(case, ref) | self.kinds

    def nontrivial(self, case, ref, c):
        return len(self.kinds) >= 3 and "hover" in self.kinds


if __name__ == "__main__":
    raise SystemExit(harness.main("C30", [Sheet()]))
