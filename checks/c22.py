"""C22: handrails are an addition: without them the page is the plain page."""
import common  # noqa: F401
import docgen
import dom
import fuzz
import harness
import hr
import refmodel
import run
import shrink as shr
import suites
from harness import V
from suites import DocSuite


def same(src):
    a, ra = run.render(src)
    b, rb = run.render(src, handrails=True)
    if bool(a) != bool(b):
        raise V("only one page", (bool(a), bool(b)))
    if not a:
        return ""
    A = dom.canon(hr.strip(run.parsed(a)))
    root = run.parsed(b)
    B = dom.canon(hr.strip(root))
    d = suites.first_diff(suites.full(A), suites.full(B))
    if d:
        raise V("handrails change the page", d)
    na, nb = ([m for m in run.warns(r) if "Unable to extract link" not in m and not suites.NOISE.search(m)]
              for r in (ra, rb))
    if na != nb:
        raise V("handrails change the messages", (na, nb))
    return b


class Added(DocSuite):
    name = "added"
    quick, thorough = 2200, 200000
    rule = ("a generated manuscript rendered with and without handrails; what remains after removing the handrails must be the "
            "plain page, element by element and word by word; non-trivial: at least 6 kinds of construct")
    vary = [dict(p_toc=90), dict(proof=14), dict(p_bib=100, cite=8), dict(author=4, abstract=3), dict(p_types=70), dict(mathblock=9),
            dict(math=14, syms=6), dict(p_label=95), dict(p_empty=40), dict(figure=8, table=8), dict(depth=5)]

    def check(self, case, src, ref):
        same(src)


class Rough(harness.Suite):
    """Sources that no model describes."""
    name = "rough"
    quick, thorough = 3000, 200000
    rule = ("a damaged or random source that still gives a page; the same comparison; non-trivial: at least 5 handrails")

    def gen(self, rng):
        return fuzz.text(rng)

    def run(self, case):
        if not case.strip() or not run.cst_clean(case):
            return {"skipped"}
        try:
            page = same(case)
        except V:
            raise
        except Exception as e:
            if fuzz.own(e):
                return {"refused"}
            raise
        return {"page"} | ({"!rails"} if page.count("hr-content-zone") >= 5 else set())

    def shrink(self, case, fails):
        return fuzz.shrink_text(case, fails)


if __name__ == "__main__":
    raise SystemExit(harness.main("C22", [Added(), Rough()]))
