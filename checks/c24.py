"""C24: make leaves a complete website in the working directory, and nothing else."""
import common  # noqa: F401
import hashlib
import os
import re
import shutil
import sys
import tempfile

import boot
import docgen
import dom
import harness
import rsm
import run
import suites
from harness import V
from suites import DocSuite

STATIC = os.path.join(boot.REPO, "rsm", "static")
PATHS = ["assets/example.png", "fig.svg", "a&b.png", "x y.png", "img/deep/er/pic.JPG", "caf\u00e9.png", "it's.png", "p(1).gif", "a+b%20.png",
         "./dot.png", "no-extension", "static/own.png", "x.png.png", "<b>.png", "-dash.png", "assets/\u4e2d.png"]


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return out


def build(src, handrails, lint, path):
    """rsm.make in the current directory."""
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        with run.logs() as recs:
            if path:
                with open(path, "w", encoding="utf-8") as f:
                    f.write(src)
                rsm.make(path=path, handrails=handrails, lint=lint)
            else:
                rsm.make(src, handrails=handrails, lint=lint)
    finally:
        sys.stdout.close()
        sys.stdout = out
    return recs


class Site(DocSuite):
    name = "site"
    quick, thorough = 700, 60000
    rule = ("a manuscript made into a website in a scratch folder that holds its images, other files and perhaps an older site; index.html holds "
            "the page that render gives and the title of the manuscript; every script and style sheet of RSM and every image "
            "is copied, byte for byte; no other file is created, changed or removed; non-trivial: at least two images")
    weights = dict(figure=8, p_title=75, syms=1)
    vary = [dict(figure=20), dict(markup=12, escaped=6), dict(p_toc=80), dict(p_bib=100), dict(blocks=1, sections=1)]

    def gen(self, rng):
        case = super().gen(rng)
        for n in docgen.walk(case["doc"]):
            if n["k"] == "figure":
                n["a"]["path"] = rng.choice(PATHS)
        case.update(hr=rng.random() < .7, lint=rng.random() < .5, path=rng.random() < .4, again=rng.choice([None, "same", "other"]),
                    seed=rng.randrange(10 ** 6))
        return case

    def check(self, case, src, ref):
        d = tempfile.mkdtemp(prefix="c24-")
        old = os.getcwd()
        try:
            os.chdir(d)
            self.inside(case, src, ref, d)
        finally:
            os.chdir(old)
            shutil.rmtree(d)

    def inside(self, case, src, ref, d):
        images = list(dict.fromkeys(n["a"]["path"] for n in ref.order if n["k"] == "figure"))
        for p in PATHS:
            os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
            with open(p, "wb") as f:
                f.write(hashlib.sha256(f"{case['seed']} {p}".encode()).digest() * (1 + len(p) * 40))
        with open("notes.txt", "w") as f:
            f.write("keep me")
        path = "doc.rsm" if case["path"] else None
        if case["again"]:
            build(":rsm:\n  :title: Older\n\nAn older site.\n\n::\n" if case["again"] == "other" else src, case["hr"], False, None)
        if path:
            open(path, "w").close()
        before = tree(d)
        build(src, case["hr"], case["lint"], path)
        after = tree(d)
        page, _ = run.render(src, handrails=case["hr"], add_source=True)
        if not os.path.exists("index.html"):
            raise V("no index.html", sorted(after))
        with open("index.html", encoding="utf-8", newline="") as f:
            html = f.read()
        if page.strip() not in html:
            raise V("the site does not hold the page", "")
        root = run.parsed(html, doctype=True)
        top = [e.tag for e in root.els()]
        if top != ["html"] or [e.tag for e in root.els()[0].els()] != ["head", "body"]:
            raise V("layout of index.html", (top, [e.tag for e in root.els()[0].els()]))
        head = root.els()[0].els()[0]
        titles = head.find(tag="title")
        want = case["doc"]["a"].get("title") or ""
        if len(titles) != 1 or len(root.find(tag="title")) != 1 or " ".join(titles[0].text().split()) != " ".join(want.split()):
            raise V("title of the site", (want, [t.text() for t in titles]))
        if not any(m.attrs.get("charset", "").lower() == "utf-8" for m in head.find(tag="meta")):
            raise V("charset of the site", "")
        # what the page asks for is there
        for e in head:
            for k in ("src", "href"):
                u = e.attrs.get(k, "")
                if u and not u.startswith("http") and not os.path.isfile(u.lstrip("/")):
                    raise V("the page asks for a missing file", u)
        for m in re.findall(r"from\s+['\"]([^'\"]+)", "".join(s.text() for s in head.find(tag="script"))):
            if not os.path.isfile(m.lstrip("/")):
                raise V("the page asks for a missing file", m)
        for e in root.find(tag="img"):
            if not os.path.isfile(e.attrs["src"]):
                raise V("the page asks for a missing image", e)
        exp = dict(before)
        exp["index.html"] = after["index.html"]
        for f in os.listdir(STATIC):
            if f.endswith((".js", ".css")):
                exp["static/" + f] = hashlib.md5(open(os.path.join(STATIC, f), "rb").read()).hexdigest()
        for p in images:
            exp["static/" + os.path.basename(p)] = hashlib.md5(open(p, "rb").read()).hexdigest()
        if path:
            exp[path] = hashlib.md5(src.encode()).hexdigest()
        if exp != after:
            raise V("files of the site", [(k, exp.get(k, "absent")[:6], after.get(k, "absent")[:6])
                                          for k in sorted(set(exp) | set(after)) if exp.get(k) != after.get(k)][:6])

    def nontrivial(self, case, ref, c):
        return c["figure"] >= 2

    def classes(self, case, ref):
        return super().classes(case, ref) | {"handrails" if case["hr"] else "plain", f"again {case['again']}"}


if __name__ == "__main__":
    raise SystemExit(harness.main("C24", [Site()]))
