"""Runs the scripts of a page in lib/browser.mjs, one node process per worker."""
import json
import os
import select
import shutil
import subprocess

import boot
import dom
from harness import V

NODE = shutil.which("node") or "/usr/bin/node"
_proc = None


def _start():
    return subprocess.Popen([NODE, "--max-old-space-size=700", os.path.join(boot.VERIF, "lib", "browser.mjs"),
                             os.path.join(boot.REPO, "rsm", "static")],
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


class Page:
    """A parsed page whose elements are numbered in document order, as the browser numbers them."""

    def __init__(self, html):
        body = dom.parse(html).find(tag="body")
        if len(body) != 1:
            raise V("bodies of the page", len(body))
        self.body = body[0]
        self.els = list(self.body)
        self.n = {id(e): i for i, e in enumerate(self.els)}

    def __getitem__(self, i):
        return self.els[i]

    def num(self, e):
        return self.n[id(e)]

    def tree(self, e=None):
        e = self.body if e is None else e
        return [e.tag, e.attrs, [k if isinstance(k, str) else self.tree(k) for k in e.kids]]


def run(page, actions, **req):
    """Load the page, do the actions, return what the browser shows after each."""
    global _proc
    if _proc is None or _proc.poll() is not None:
        _proc = _start()
    req = json.dumps(dict(body=page.tree(), actions=actions, **req))
    done = False
    try:
        _proc.stdin.write(req.encode("utf-8", "backslashreplace") + b"\n")
        _proc.stdin.flush()
        buf = b""
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([_proc.stdout], [], [], 60)
            if not r:
                raise V("the scripts do not come to an end", f"after {len(actions)} actions")
            x = os.read(_proc.stdout.fileno(), 1 << 20)
            if not x:
                raise V("the scripts end the browser", _proc.wait())
            buf += x
        done = True
    except BrokenPipeError:
        raise V("the scripts end the browser", _proc.wait())
    finally:
        if not done:
            _proc.kill()
            _proc.wait()
            _proc = None
    res = json.loads(buf)
    if "fatal" in res:
        raise V("a script fails", res["fatal"])
    return res
