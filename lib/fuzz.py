"""Random edits of RSM sources, and the errors RSM may answer them with."""
import json
import os
import re

import boot
import docgen
import run
import tree_sitter  # noqa: F401

SEEDS = [s for _, s in json.load(open(os.path.join(boot.VERIF, "corpus", "seeds.json"), encoding="utf-8"))]
_TOK = re.compile(r":\w+:|::|\$\$|```|##+|\w+|\s+|.", re.S)
TOKENS = sorted({t for s in SEEDS for t in _TOK.findall(s) if not t.isalnum()}) + [
    "\n\n", "\n", " ", "::", "{", "}", "\\", "&", "<", ">", "\"", "'", ",", "\u00e9", "\U0001f600", "\x00", "\x0c", "\t", "\r\n",
    "{:label: ", ":types: ", ":nonum:", ":title: ", "@article{", "}}", "<b>", "&amp;", "1", "0", "-1", "99999999999999999999", "x"]
ATOMS = ["x", "é", "a1", ":", "$", "`", "*", "/", "{", "}", "#", "%", "\\", "\n", "\n\n", " ", "::", ",", "@", "=", "<", "&", "\"", "'", "]"]


def mutate(r, s, pool):
    toks = _TOK.findall(s)
    for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
        if not toks:
            break
        k = r.random()
        i = r.randrange(len(toks))
        j = min(len(toks), i + r.choice([1, 1, 1, 2, 4, 9]))
        if k < .25:
            del toks[i:j]
        elif k < .4:
            toks[i:i] = toks[i:j]
        elif k < .55:
            x = toks[i:j]
            del toks[i:j]
            i = r.randrange(len(toks) + 1)
            toks[i:i] = x
        elif k < .8:
            toks[i:i] = [r.choice(TOKENS)]
        elif k < .85:
            toks[i] = toks[i][:r.randrange(len(toks[i]) + 1)] + r.choice(ATOMS) + toks[i][1:]
        else:
            o = _TOK.findall(r.choice(pool))
            a = r.randrange(len(o) + 1)
            toks[i:i] = o[a:a + r.randint(1, 30)]
    return "".join(toks)


def text(r):
    """Some text: now and then a valid manuscript, mostly a damaged one."""
    x = r.random()
    if x < .5:
        return mutate(r, r.choice(SEEDS), SEEDS)
    if x < .85:
        d = docgen.Gen(r, blocks=2, sections=1, words=3, big=1).doc()
        return mutate(r, docgen.to_source(d, docgen.Style(r) if r.random() < .3 else None), SEEDS)
    body = "".join(r.choice(TOKENS if r.random() < .6 else ATOMS) for _ in range(r.randint(0, 40)))
    return f":rsm:\n{body}\n::\n" if r.random() < .7 else body


def errors(src):
    """The ERROR nodes of the grammar for *src*: (type of the parent, is it within another one, range)."""
    out = []
    st = [(run._GRAMMAR.parse(src.encode("utf-8")).root_node, "", ())]
    while st:
        n, up, path = st.pop()
        if n.type == "ERROR":
            a, b = n.start_point, n.end_point
            out.append((path, ((a[0], a[1]), (b[0], b[1]))))
        st += [(c, n.type, path + (n.type,)) for c in reversed(n.children)]
    return out


def own(e):
    """Is the exception one that RSM declares?"""
    return type(e).__module__.split(".")[0] == "rsm"


def shrink_text(s, fails):
    """Delete chunks, lines and characters while it still fails."""
    n = max(1, len(s) // 2)
    while n:
        i = 0
        while i < len(s):
            t = s[:i] + s[i + n:]
            if fails(t):
                s = t
            else:
                i += n
        n //= 2
    return s
