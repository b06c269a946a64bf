"""Structural shrinking of JSON-like values: dict models ("k","a","c") , lists and strings."""
import copy
import time


def _get(v, path):
    for p in path:
        v = v[p]
    return v


def _paths(v, pre=()):
    """Every path to a model node, larger subtrees first (preorder)."""
    yield pre
    if isinstance(v, dict):
        for i, c in enumerate(v.get("c", ()) or ()):
            yield from _paths(c, pre + ("c", i))


def _edits(doc):
    """Yield functions-of-a-copy that return a smaller candidate."""
    for path in list(_paths(doc)):
        node = _get(doc, path)
        kids = node.get("c") or []
        n = len(kids)
        # chunks of children
        size = n
        while size >= 1:
            for i in range(0, n - size + 1, max(1, size)):
                yield ("del", path, i, i + size)
            size //= 2
        # hoist: replace a child by its own children
        for i, c in enumerate(kids):
            if c.get("c"):
                yield ("hoist", path, i)
        for k, v in (node.get("a") or {}).items():
            yield ("drop", path, k)
            if isinstance(v, str) and len(v) > 1:
                yield ("str", path, k, v[:len(v) // 2])
                yield ("str", path, k, v[len(v) // 2:])
                yield ("str", path, k, v[1:])
                yield ("str", path, k, v[:-1])
            if isinstance(v, list) and len(v) > 1:
                for i in range(len(v)):
                    yield ("str", path, k, v[:i] + v[i + 1:])
        if "s" in node and isinstance(node["s"], str):
            s = node["s"]
            if s != "x":
                yield ("set", path, "s", "x")
            if len(s) > 1:
                yield ("set", path, "s", s[:len(s) // 2])
                yield ("set", path, "s", s[len(s) // 2:])
                yield ("set", path, "s", s[1:])
                yield ("set", path, "s", s[:-1])
        if node.get("g"):
            yield ("set", path, "g", False)


def _apply(doc, e):
    d = copy.deepcopy(doc)
    node = _get(d, e[1])
    if e[0] == "del":
        del node["c"][e[2]:e[3]]
    elif e[0] == "hoist":
        node["c"][e[2]:e[2] + 1] = node["c"][e[2]]["c"]
    elif e[0] == "drop":
        del node["a"][e[2]]
    elif e[0] == "str":
        node["a"][e[2]] = e[3]
    elif e[0] == "set":
        node[e[2]] = e[3]
    return d


def shrink(doc, fails, max_s=60, max_evals=4000):
    """*fails(candidate)* is True when the candidate still shows the failure."""
    t0, n = time.monotonic(), 0
    progress = True
    while progress:
        progress = False
        for e in list(_edits(doc)):
            if time.monotonic() - t0 > max_s or n >= max_evals:
                return doc
            try:
                cand = _apply(doc, e)
            except (KeyError, IndexError, TypeError):
                continue
            n += 1
            try:
                ok = fails(cand)
            except Exception:
                ok = False
            if ok:
                doc = cand
                progress = True
                break
    return doc


def shrink_text(s, fails, max_s=60, max_evals=4000):
    """ddmin over characters."""
    t0, n, size = time.monotonic(), 0, max(1, len(s) // 2)
    while size >= 1:
        i, changed = 0, False
        while i < len(s):
            if time.monotonic() - t0 > max_s or n > max_evals:
                return s
            cand = s[:i] + s[i + size:]
            n += 1
            try:
                ok = fails(cand)
            except Exception:
                ok = False
            if ok:
                s, changed = cand, True
            else:
                i += size
        if not changed or size > len(s):
            size //= 2
    return s


def shrink_list(xs, fails, max_s=60, max_evals=4000):
    xs = list(xs)
    t0, n, size = time.monotonic(), 0, max(1, len(xs) // 2)
    while size >= 1:
        i, changed = 0, False
        while i < len(xs):
            if time.monotonic() - t0 > max_s or n > max_evals:
                return xs
            cand = xs[:i] + xs[i + size:]
            n += 1
            try:
                ok = fails(cand)
            except Exception:
                ok = False
            if ok:
                xs, changed = cand, True
            else:
                i += size
        if not changed or size > len(xs):
            size //= 2
    return xs
