"""C25: the command line tools do what the functions of the same name do."""
import common  # noqa: F401
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import docgen
import fuzz
import harness
import rsm
import run  # noqa: F401
from c24 import tree
from harness import V
from rsm import cli

STAMP = re.compile(r"\d\d:\d\d:\d\d|\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+")


def flags(rng):
    f = {"handrails": rng.random() < .3, "silent": rng.random() < .25, "verbose": rng.choice([0, 0, 0, 1, 2, 3, 5]),
         "time": rng.random() < .5, "lineno": rng.random() < .5, "fmt": rng.choice([None, None, "plain", "rsm", "json", "lint"]),
         "string": rng.random() < .5, "long": rng.random() < .5, "order": rng.randrange(1000)}
    return f


def argv(case, src, path):
    f = case["flags"]
    lg = f["long"]
    out = []
    if f["handrails"]:
        out.append(["--handrails" if lg else "-r"])
    if f["silent"]:
        out.append(["--silent" if lg else "-s"])
    if f["verbose"]:
        out.append(["--verbose"] * f["verbose"] if lg else ["-" + "v" * f["verbose"]])
    if not f["time"]:
        out.append(["--log-no-timestamps"])
    if not f["lineno"]:
        out.append(["--log-no-lineno"])
    if f["fmt"]:
        out.append([f"--log-format={f['fmt']}"] if lg else ["--log-format", f["fmt"]])
    if f["string"]:
        out.append(["--string" if lg else "-c"])
    pos = [src if f["string"] else path]
    k = f["order"] % (len(out) + 1)
    out[k:k] = [pos]
    return [x for o in out for x in o]


def capture(f):
    out, err = io.StringIO(), io.StringIO()
    oldo, olde = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        try:
            res = f()
        except SystemExit as e:
            res = f"exit {e.code}"
        except Exception as e:
            res = f"raised {type(e).__name__}: {e}"
    finally:
        sys.stdout, sys.stderr = oldo, olde
    return res, out.getvalue(), STAMP.sub("TIME", err.getvalue())


def api(case, src, path):
    """What the function does when given the same options."""
    f, tool = case["flags"], case["tool"]
    kw = {"source": src} if f["string"] else {"path": path}
    kw.update(loglevel=max(10, 30 - 10 * f["verbose"]), log_time=f["time"], log_lineno=f["lineno"],
              log_format=f["fmt"] or ("lint" if tool == "lint" else "rsm"))
    kw["handrails"] = f["handrails"] or tool == "make"
    return capture(lambda: getattr(rsm, tool)(**kw))


class Tools(harness.Suite):
    name = "tools"
    quick, thorough = 3000, 200000
    rule = ("a tool (render, lint, make), options in random order and spelling, a source given as a file or on the command line; "
            "standard output, messages, result and files must be those of the function called with the same options in the same place; "
            "non-trivial: 3 options or more")

    def gen(self, rng):
        if rng.random() < .3:
            src = fuzz.text(rng)
        else:
            src = docgen.to_source(docgen.Gen(rng, blocks=2, sections=2, words=4, big=2, p_unknown=15, p_dup=10, figure=0).doc())
        return {"tool": rng.choice(["render", "render", "lint", "make"]), "flags": flags(rng), "src": src}

    def show(self, case):
        return f"rsm-{case['tool']} {' '.join(a for a in argv(case, 'SRC', 'doc.rsm'))}\n{case['src']}"

    def usable(self, case):
        s = case["src"]
        return s.strip() and not any("\ud800" <= c <= "\udfff" or c in "\r\0" for c in s) and not s.startswith("-") and len(s) < 90000

    def call(self, case, args):
        def f():
            old, sys.argv = sys.argv, ["rsm-" + case["tool"]] + args
            try:
                return getattr(cli, case["tool"])()
            finally:
                sys.argv = old
        return capture(f)

    def run(self, case):
        if not self.usable(case):
            return {"skipped"}
        src, f, tool = case["src"], case["flags"], case["tool"]
        d = tempfile.mkdtemp(prefix="c25-")
        old = os.getcwd()
        try:
            both = []
            for w in ("api", "cli"):
                os.mkdir(os.path.join(d, w))
                os.chdir(os.path.join(d, w))
                with open("doc.rsm", "w", encoding="utf-8") as g:
                    g.write(src)
                got = api(case, src, "doc.rsm") if w == "api" else self.call(case, argv(case, src, "doc.rsm"))
                both.append((got, tree(".")))
            (a, ta), (c, tc) = both
        finally:
            os.chdir(old)
            shutil.rmtree(d)
        failed = isinstance(a[0], str) and a[0].startswith("raised ")
        if failed:
            if self.same_failure(a[0], c) is False:
                raise V("the tool fails differently", (a[0], c))
        else:
            if c[0] != 0:
                raise V("exit status", c[0])
            # lint keeps its result for itself unless asked
            out = "" if f["silent"] or tool in ("lint", "make") or not a[0] else f"{a[0]}\n"
            if a[1] and f["verbose"] < 2:     # at level DEBUG the trees are shown
                raise V("the function prints", a[1][:300])
            out = a[1] + out
            if c[1] != out:
                raise V("standard output differs", (c[1][:300], out[:300]))
            if c[2] != a[2]:
                raise V("messages differ", (c[2][-600:], a[2][-600:]))
        if ta != tc:
            raise V("files differ", (sorted(set(ta.items()) ^ set(tc.items()))))
        if tool != "make" and set(tc) != {"doc.rsm"}:
            raise V("the tool writes files", sorted(tc))
        if tool == "make" and not failed and a[2].count("There was an error") == 0 and "index.html" not in tc:
            raise V("no site", sorted(tc))
        n = sum([f["handrails"], f["silent"], bool(f["verbose"]), not f["time"], not f["lineno"], bool(f["fmt"]), f["string"]])
        return {tool} | ({"!options"} if n >= 3 else set())

    def same_failure(self, want, got):
        return got[0] == want

    def shrink(self, case, fails):
        f = case["flags"]
        for k, v in (("handrails", False), ("silent", False), ("verbose", 0), ("time", True), ("lineno", True), ("fmt", None), ("long", False),
                     ("order", 0)):
            new = dict(case, flags=dict(f, **{k: v}))
            if f[k] != v and fails(new):
                case, f = new, new["flags"]
        return dict(case, src=fuzz.shrink_text(case["src"], lambda s: fails(dict(case, src=s))))


class Commands(Tools):
    """The installed commands, each in a process of its own."""
    name = "commands"
    quick, thorough = 60, 3000
    rule = "the same through a new process; non-trivial: always"

    def call(self, case, args):
        # what the entry points rsm-render, rsm-lint and rsm-make run
        code = f"import sys; sys.path.insert(0, {REPO!r}); from rsm.cli import {case['tool']}; sys.exit({case['tool']}())"
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code] + args, capture_output=True, timeout=50,
                           env=dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore"))
        self.last = p.returncode
        return p.returncode, p.stdout.decode(), STAMP.sub("TIME", p.stderr.decode())

    def same_failure(self, want, got):
        return got[0] == 1 and want.split(":")[0].removeprefix("raised ") in got[2]

    def run(self, case):
        return super().run(case) | {"!process"}


class Serve(harness.Suite):
    """make --serve, with the server replaced by one that records."""
    name = "serve"
    quick, thorough = 160, 6000
    rule = ("make --serve with options in random order, for a file in a folder with any name; the site must be made, its folder served and "
            "the file watched; when the file has changed, what is run must make the site of the new text with the same options; "
            "non-trivial: a name with a space or a quote, or 3 options")
    NAMES = ["doc.rsm", "my doc.rsm", "it's.rsm", "sub/doc.rsm", 'a "b".rsm', "sub dir/x.rsm", "a&b;c.rsm", "$HOME.rsm", "back\\slash.rsm",
             "\u00e9t\u00e9.rsm", "-v.rsm", "#1.rsm", "~.rsm", "*.rsm"]

    def gen(self, rng):
        srcs = []
        while len(srcs) < 2:
            s = docgen.to_source(docgen.Gen(rng, blocks=1, sections=1, words=4, big=1, p_unknown=15, figure=0).doc())
            if ":figure:" not in s:
                srcs.append(s)
        return {"flags": dict(flags(rng), string=False, verbose=rng.choice([0, 0, 1])), "name": rng.choice(self.NAMES), "srcs": srcs,
                "at": rng.randrange(1000)}

    def show(self, case):
        return f"rsm-make {self.args(case)}\n{case['srcs'][0]}\n--- then ---\n{case['srcs'][1]}"

    def args(self, case):
        name = case["name"]
        a = argv(case, "", "./" + name if name.startswith("-") else name)
        k = case["at"] % (len(a) + 1)
        if k and a[k - 1] == "--log-format":
            k = 0
        return a[:k] + ["--serve"] + a[k:]

    def make(self, case, src):
        d = tempfile.mkdtemp(prefix="c25-")
        old = os.getcwd()
        try:
            os.chdir(d)
            self.write(case, src)
            f = case["flags"]
            capture(lambda: rsm.make(path=case["name"], handrails=True, loglevel=30 - 10 * f["verbose"]))
            return tree(".")
        finally:
            os.chdir(old)
            shutil.rmtree(d)

    def write(self, case, src):
        os.makedirs(os.path.dirname(case["name"]) or ".", exist_ok=True)
        with open(case["name"], "w", encoding="utf-8") as g:
            g.write(src)

    def run(self, case):
        if any("\r" in s or not s.strip() for s in case["srcs"]):
            return {"skipped"}
        import livereload
        watched, served = [], []
        Server = livereload.Server
        saved = Server.watch, Server.serve
        d, tool = tempfile.mkdtemp(prefix="c25-"), tempfile.mkdtemp(prefix="c25-")
        old, oldv = os.getcwd(), sys.argv
        want = [self.make(case, s) for s in case["srcs"]]
        cmd = os.path.join(tool, "rsm-make")
        with open(cmd, "w") as g:      # as installed
            g.write(f"#!{sys.executable} -W ignore\nimport sys; sys.path.insert(0, {REPO!r})\nfrom rsm.cli import make\n"
                    f"if '--serve' in sys.argv: sys.exit(3)\nsys.exit(make())\n")
        os.chmod(cmd, 0o755)
        try:
            os.chdir(d)
            self.write(case, case["srcs"][0])
            Server.watch = lambda self, path, func=None, *a, **kw: watched.append((os.path.realpath(path), func))
            Server.serve = lambda self, *a, **kw: served.append((tree("."), os.path.realpath(kw.get("root") or ".")))
            sys.argv = [cmd] + self.args(case)
            got = capture(cli.make)
            sys.argv = oldv
            if got[0] != 0:
                raise V("exit status", got)
            if len(served) != 1 or served[0][1] != os.path.realpath(d):
                raise V("the folder is not served", [s[1] for s in served])
            if served[0][0] != want[0]:
                raise V("the site that is served is another one", sorted(set(served[0][0].items()) ^ set(want[0].items())))
            if [w[0] for w in watched] != [os.path.realpath(case["name"])]:
                raise V("the source is not watched", watched)
            self.write(case, case["srcs"][1])
            _, _, err = capture(watched[0][1])
            if tree(".") != want[1]:
                raise V("after a change, the site is another one", err[-400:])
        finally:
            sys.argv = oldv
            Server.watch, Server.serve = saved
            os.chdir(old)
            shutil.rmtree(d)
            shutil.rmtree(tool)
        n = len(self.args(case)) - 2
        return {"serve"} | ({"!options"} if n >= 3 or set(" '\"") & set(case["name"]) else set())

    def shrink(self, case, fails):
        for k in (0, 1):
            for s in ("x\n", "y\n"):
                new = dict(case, srcs=[s if i == k else x for i, x in enumerate(case["srcs"])])
                if fails(new):
                    case = new
                    break
        return case


import boot  # noqa: E402

REPO = boot.REPO

if __name__ == "__main__":
    raise SystemExit(harness.main("C25", [Tools(), Commands(), Serve()]))
