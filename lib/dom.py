"""A strict tokenizer and tree builder for the HTML that RSM produces, and canonical forms.

The tokenizer accepts what HTML calls a start tag, an end tag and text, and refuses everything
that a browser would read as something else than what the source of the page says: comments,
unbalanced or crossed tags, duplicated attributes, unterminated tags.
"""
import html
import re

VOID = {"img", "br", "meta", "link", "hr", "input", "path"}
BLOCK = {"html", "head", "body", "div", "section", "p", "ul", "ol", "li", "h1", "h2", "h3", "h4",
         "h5", "h6", "figure", "figcaption", "table", "caption", "thead", "tbody", "tr", "td", "pre",
         "header", "footer", "title", "script", "svg"}
_START = re.compile(r"<([A-Za-z][A-Za-z0-9-]*)")
_ATTR = re.compile(r'\s+([A-Za-z_:][-A-Za-z0-9_:.]*)(?:\s*=\s*(?:"([^"]*)"|([0-9A-Za-z]+)(?=[\s>])))?')
_CLOSE = re.compile(r"\s*(/?)>")
_END = re.compile(r"</([A-Za-z][A-Za-z0-9-]*)\s*>")


class MalformedHTML(Exception):
    pass


class El:
    __slots__ = ("tag", "attrs", "kids", "parent")

    def __init__(self, tag, attrs=None, kids=None):
        self.tag, self.attrs, self.kids, self.parent = tag, attrs or {}, kids or [], None

    @property
    def id(self):
        return self.attrs.get("id", "")

    @property
    def classes(self):
        return self.attrs.get("class", "").split()

    def has(self, *cls):
        return set(cls) <= set(self.classes)

    def __iter__(self):
        """Preorder over the elements."""
        stack = [self]
        while stack:
            e = stack.pop()
            yield e
            stack += [k for k in reversed(e.kids) if isinstance(k, El)]

    def within(self, tag):
        e = self
        while e is not None:
            if e.tag == tag:
                return True
            e = e.parent
        return False

    def els(self):
        return [k for k in self.kids if isinstance(k, El)]

    def find(self, *, tag=None, cls=None, id=None):
        return [e for e in self if (tag is None or e.tag == tag) and (cls is None or cls in e.classes)
                and (id is None or e.id == id)]

    def text(self):
        return "".join(k if isinstance(k, str) else k.text() for k in self.kids)

    def __repr__(self):
        a = "".join(f' {k}="{v}"' for k, v in self.attrs.items())
        return f"<{self.tag}{a}>"


def parse(s, doctype=False):
    """Parse a fragment; returns an El with tag "#root"."""
    s = s.replace("\r\n", "\n").replace("\r", "\n")   # as a browser does before anything else
    root = El("#root")
    cur, i, n, buf = root, 0, len(s), []

    def flush():
        if buf:
            cur.kids.append(html.unescape("".join(buf)))
            buf.clear()

    while i < n:
        j = s.find("<", i)
        if j < 0:
            buf.append(s[i:])
            break
        buf.append(s[i:j])
        nxt = s[j + 1:j + 2]
        if nxt == "/":
            m = _END.match(s, j)
            if not m:
                raise MalformedHTML(f"bad end tag at {s[j:j + 40]!r}")
            flush()
            if cur.tag != m.group(1).lower():
                raise MalformedHTML(
                    f"</{m.group(1)}> closes {cur!r}: ...{s[max(0, j - 120):j + 40]!r}")
            cur = cur.parent
            i = m.end()
        elif nxt.isascii() and nxt.isalpha():
            m = _START.match(s, j)
            flush()
            el = El(m.group(1).lower())
            p = m.end()
            while True:
                a = _ATTR.match(s, p)
                if not a:
                    break
                k = a.group(1).lower()
                if k in el.attrs:
                    raise MalformedHTML(f"duplicate attribute {k} at {s[j:j + 80]!r}")
                el.attrs[k] = html.unescape(a.group(2) or a.group(3) or "")
                p = a.end()
            c = _CLOSE.match(s, p)
            if not c:
                raise MalformedHTML(f"bad start tag at {s[j:j + 80]!r}")
            el.parent = cur
            cur.kids.append(el)
            if el.tag not in VOID or el.within("svg"):
                if c.group(1) and not el.within("svg"):
                    raise MalformedHTML(f"self-closing {el!r}")
                if not c.group(1):
                    cur = el
            i = c.end()
            if el.tag == "script" and cur is el:
                e = s.find("</script", i)
                if e < 0:
                    raise MalformedHTML("unterminated script")
                if e > i:
                    el.kids.append(s[i:e])
                i = e
        elif nxt == "!" and doctype and s[j:j + 9].lower() == "<!doctype":
            e = s.find(">", j)
            i = e + 1
        elif nxt and nxt in "!?":
            raise MalformedHTML(f"comment or declaration at {s[j:j + 40]!r}")
        else:
            buf.append("<")
            i = j + 1
    flush()
    if cur is not root:
        raise MalformedHTML(f"{cur!r} is never closed")
    return root


# ------------------------------------------------------------------ canonical form
SPACED = {"code", "note", "draft", "note__number", "note__content", "pg-label", "keyword"}
VERBATIM = {"math", "mathblock", "pseudocode"}


class Canon:
    """Collapse white space the way a browser shows it; nodes are lists
    [tag, id, classes, attrs, kids] with merged strings."""

    def __init__(self, attrs=("href", "src", "alt", "onload", "target")):
        self.keep = attrs

    def run(self, el):
        self.sp = True
        return self.el(el)

    def el(self, e):
        block = e.tag in BLOCK
        cls = set(e.classes)
        node = [e.tag, e.id, tuple(sorted(cls)),
                tuple((k, e.attrs[k]) for k in self.keep if e.attrs.get(k)), []]
        if e.tag == "code" or cls & VERBATIM:
            self.sp = False
            t = e.text().strip()
            if "mathblock" in cls and t.startswith("$$") and t.endswith("$$") and len(t) > 3:
                t = "$$" + t[2:-2].strip() + "$$"
            if "math" in cls and t.startswith("\\(") and t.endswith("\\)"):
                t = "\\(" + t[2:-2].strip() + "\\)"
            node[4] = [t]
            return node
        if e.tag == "a" and not cls:
            # the white space before the text of a url is pinned by the tests, and harmless
            node[4] = [e.text().strip()]
            self.sp = False
            return node
        if block:
            self.sp = True
        spaced = bool(cls & SPACED)
        out = node[4]
        for k in e.kids:
            if isinstance(k, str):
                t = re.sub(r"\s+", " ", k)
                if self.sp:
                    t = t.lstrip()
                if t:
                    self.sp = t.endswith(" ")
                    if out and isinstance(out[-1], str):
                        out[-1] += t
                    else:
                        out.append(t)
            else:
                kc = set(k.classes)
                if kc & SPACED and not self.sp:
                    out.append(" ") if not (out and isinstance(out[-1], str)) else out.__setitem__(-1, out[-1] + " ")
                    self.sp = True
                if k.tag in BLOCK:
                    self._rstrip(out)
                    self.sp = True
                kid = self.el(k)
                if k.tag == "p" and not kid[4]:
                    self.sp = True
                    continue
                if k.tag == "p" and any(not isinstance(x, str) and x[0] in BLOCK for x in kid[4]):
                    out += self._split_p(kid)
                else:
                    out.append(kid)
                if k.tag in BLOCK:
                    self.sp = True
                elif kc & SPACED and not self.sp:
                    out.append(" ")
                    self.sp = True
        if block or spaced:
            self._rstrip(out)
            if spaced and out:
                self.sp = False
        if block:
            self.sp = True
        return node

    @staticmethod
    def _split_p(p):
        """A block ends the paragraph it is in, as in a browser."""
        out, cur = [], None
        for x in p[4]:
            if not isinstance(x, str) and x[0] in BLOCK:
                cur = None
                out.append(x)
            else:
                if cur is None:
                    cur = p[:4] + [[]]
                    out.append(cur)
                cur[4].append(x)
        return out

    def _rstrip(self, out):
        """Drop the trailing space of the inline content collected so far."""
        while out:
            if isinstance(out[-1], str):
                out[-1] = out[-1].rstrip(" ")
                if out[-1]:
                    return
                out.pop()
                continue
            k = out[-1]
            if k[0] in BLOCK or k[0] == "code" or set(k[2]) & VERBATIM or k[0] in ("img", "br"):
                return
            self._rstrip(k[4])
            return


def canon(el, **kw):
    return Canon(**kw).run(el)


def show(node, ind=0):
    """One line per node, for diffs."""
    if isinstance(node, str):
        return ["  " * ind + repr(node)]
    tag, i, cls, attrs, kids = node
    line = "  " * ind + tag + (f"#{i}" if i else "") + "".join("." + c for c in cls)
    line += "".join(f" {k}={v!r}" for k, v in attrs)
    out = [line]
    for k in kids:
        out += show(k, ind + 1)
    return out


def first_diff(a, b):
    la, lb = show(a), show(b)
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "<nothing>"
        y = lb[i] if i < len(lb) else "<nothing>"
        if x != y:
            return x.strip(), y.strip()
    return None
