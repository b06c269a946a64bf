"""C01: a well-formed manuscript renders, and earns exactly the diagnostics it deserves."""
import common  # noqa: F401
import harness
import run
from harness import V
from suites import DocSuite, NOISE


def deserved(ref, handrails):
    """[(substrings of one diagnostic)] for a model."""
    out = []
    for w in ref.warnings:
        if w.startswith("Duplicate"):
            out.append(("uplicate", w.split()[2].rstrip(",")))
        elif w.startswith("Reference"):
            out.append(("nonexistent", w.split('"')[1]))
        else:
            out.append((":prev:",))
    tocs = sum(n["k"] == "toc" for n in ref.order)
    out += [("able", "ontent", "first")] * max(0, tocs - 1)
    for n in ref.order:
        a = n.get("a", {})
        if n["k"] in ("code", "codeblock") and a.get("lang") == "nosuchlang":
            out.append(("nosuchlang",))
        elif n["k"] == "bibitem":
            lab = ref.label.get(id(n), "")
            for field, name in (("journal" if a["kind"] == "article" else "publisher",) * 2, ("year", "year"),
                                ("doi", "DOI")):
                if not a.get(field):
                    out.append(("Bibitem", lab + " ", name))
            if handrails and not a.get("doi"):
                out.append(("nable to extract link",))
    return out


def diagnostics(recs, want):
    have = [m for m in run.warns(recs) if not NOISE.search(m)]
    left = list(have)
    # the most specific expectations first
    for subs in sorted(want, key=lambda s: -sum(map(len, s))):
        m = next((m for m in left if all(s in m for s in subs)), None)
        if m is None:
            raise V("missing diagnostic", f"expected one with {subs}, got {have}")
        left.remove(m)
    if left:
        raise V("undeserved diagnostic", left)


class Renders(DocSuite):
    name = "renders"
    quick, thorough = 1600, 100000
    rule = ("a generated manuscript rendered plain and with handrails: a page comes out, and the diagnostics are exactly "
            "those for duplicate and unknown labels, unlabeled previous steps, extra tables of contents, unknown "
            "languages and incomplete bibliography entries; non-trivial: at least 6 kinds of construct")
    vary = [dict(p_unknown=0, p_dup=0), dict(p_unknown=30, p_dup=15), dict(p_bib=100), dict(p_toc=95), dict(proof=20, p_prev=60),
            dict(code=9, codeblock=9)]

    def check(self, case, src, ref):
        for hr in (False, True):
            html, recs = run.render(src, handrails=hr)
            if "</body>" not in html:
                raise V("nothing rendered", [r.getMessage() for r in recs])
            if "CST error" in html:
                raise V("marked as an error", html[:400])
            diagnostics(recs, deserved(ref, hr))


if __name__ == "__main__":
    raise SystemExit(harness.main("C01", [Renders()]))
