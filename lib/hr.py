"""The plain page hidden in a page with handrails."""
from dom import El

ZONES = {"hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone"}
HR = {"hr", "hr-hidden", "hr-offset", "hr-labeled"}
# a lemma is also of class "theorem", but only in plain pages
NAMED = {"lemma", "corollary", "example", "exercise", "proposition", "problem", "porism", "remark", "definition"}
DROP = {"float-minimap-wrapper", "minimap", "rsm-source"}


def zone(hr, name):
    """The zones called *name* that belong to the handrail *hr* itself."""
    return [k for k in hr.els() if name in k.classes]


def rails(root):
    return [e for e in root if "hr" in e.classes]


def strip(e):
    """A copy of *e* without handrails."""
    out = El(e.tag, dict(e.attrs), [])
    for k in e.kids:
        if isinstance(k, str):
            out.kids.append(k)
            continue
        out.kids += _kid(k)
    return out


def _kids(e):
    return [x for k in e.kids for x in ([k] if isinstance(k, str) else _kid(k))]


def _kid(k):
    c = set(k.classes)
    if c & DROP:
        return []
    if "hr" in c:
        kids = []
        for z in k.kids:
            if isinstance(z, str):
                kids.append(z)
            elif set(z.classes) & ZONES:
                if "hr-info-zone" in z.classes:
                    doi = z.find(cls="bibitem-doi")
                    kids += [El("a", dict(d.attrs), ["[link]"]) for d in doi]
            elif "hr-content-zone" in z.classes:
                kids += _kids(z)
            else:
                kids += _kid(z)
        rest = [x for x in k.classes if x not in HR and not x.startswith("hr-shift")]
        if rest in ([], ["heading"]) and not k.id:
            if not rest and any(isinstance(x, El) and x.tag == "p" for x in kids) and k.parent is not None \
                    and "bibitem" in k.parent.classes:
                p = [x for x in kids if isinstance(x, El) and x.tag == "p"][0]
                i = kids.index(p)
                kids[i:i + 1] = p.kids
                doi = [x for x in kids if isinstance(x, El) and "bibitem-doi" in x.classes]
                if doi:
                    # the link sits after the text of the entry, before its back references
                    kids = [x for x in kids if x is not doi[0]]
                    br = next((j for j, x in enumerate(kids) if isinstance(x, El) and x.tag == "br"), len(kids))
                    kids[br:br] = [" ", doi[0]]
            return kids
        a = dict(k.attrs)
        a["class"] = " ".join(rest)
        a.pop("tabindex", None)
        return [El(k.tag, a, kids)]
    if "inline-math-wrapper" in c:
        kids = []
        for x in k.kids:
            if isinstance(x, str) and not x.strip():     # a line break pinned by the tests
                continue
            if isinstance(x, El) and x.tag == "span" and not x.attrs:
                kids += _kids(x)
            else:
                kids += [x] if isinstance(x, str) else _kid(x)
        return kids
    if "halmos" in c:    # the handrails mark where a proof ends
        return []
    tag = k.tag
    if "bibliography" in c and tag == "div":
        tag = "ol"
    if "bibitem" in c and tag == "div":
        tag = "li"
    if "author" in c:
        kids = _kids(k)
        if len(k.els()) == 1 and "paragraph" in k.els()[0].classes:
            kids = _kids(k.els()[0])
        return [El(tag, dict(k.attrs), kids)]
    a = dict(k.attrs)
    if "theorem" in c and len(c) > 1 and c & NAMED:
        a["class"] = " ".join(x for x in k.classes if x != "theorem")
    return [El(tag, a, _kids(k))]
