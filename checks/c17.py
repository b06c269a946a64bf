"""C17: the page depends on the manuscript alone."""
import common  # noqa: F401
import json
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

import boot
import docgen
import fuzz
import harness
import rsm
import run
import shrink as shr
from harness import V
from rsm import nodes, transformer, translator, tsparser


def answer(src, what):
    """What a caller can observe of one call: the result and the messages."""
    with run.logs() as recs:
        try:
            if what == "site" and ":figure:" in src:
                out = "not looked at: images cannot be copied"
            elif what in ("file", "site"):
                with open("doc.rsm", "w", encoding="utf-8", newline="") as f:
                    f.write(src)
                try:
                    if what == "file":
                        out = rsm.render(path="doc.rsm")
                    else:
                        rsm.make(path="doc.rsm")
                        with open("index.html", "rb") as f:
                            out = f.read().decode()
                finally:
                    for x in os.listdir("."):
                        shutil.rmtree(x) if os.path.isdir(x) else os.unlink(x)
            elif what == "lint":
                out = rsm.lint(src)
                out = out.sexp() if isinstance(out, nodes.Node) else repr(out)
            else:
                out = rsm.render(src, handrails=what != "plain", add_source=what == "source")
        except Exception as e:
            out = f"{type(e).__name__}: {e}"
    return [out, [[r.levelname, r.getMessage(), getattr(r, "start_row", None)] for r in recs]]


class Zygote:
    """A process in which nothing was ever rendered; it forks one child for each question."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            with os.fdopen(a, "r") as inp:
                for line in inp:
                    if os.fork() == 0:
                        src, what = json.loads(line)
                        out = json.dumps(answer(src, what)) + "\n"
                        while out:
                            out = out[os.write(d, out[:60000].encode()):]
                        os._exit(0)
                    os.wait()
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, "w"), os.fdopen(c, "r")

    def ask(self, src, what):
        self.w.write(json.dumps([src, what]) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())


_zygote = None


def pristine(src, what):
    global _zygote
    if _zygote is None or _zygote[0] != os.getpid():
        _zygote = (os.getpid(), Zygote())
    return _zygote[1].ask(src, what)


def document(rng, **kw):
    if rng.random() < .2:
        return fuzz.text(rng)
    d = docgen.Gen(rng, **dict(dict(blocks=2, sections=2, words=4, big=2, p_unknown=8, p_dup=5), **kw)).doc()
    return docgen.to_source(d)


def first(x, y):
    """Where two answers differ."""
    x, y = str(x), str(y)
    n = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
    return x[max(0, n - 60):n + 200], y[max(0, n - 60):n + 200]


def usable(s):
    return bool(s.strip()) and not any("\ud800" <= c <= "\udfff" for c in s)


class History(harness.Suite):
    name = "history"
    quick, thorough = 1200, 90000
    rule = ("2 to 4 manuscripts (some damaged) and a sequence of up to 8 calls (render plain, with handrails, with source, lint) "
            "over them in one process: every answer, page and messages, must be the one of a process that did nothing else; "
            "non-trivial: 4 calls or more and no document refused")

    def gen(self, rng):
        docs = [document(rng) for _ in range(rng.randint(2, 4))]
        docs = [d for d in docs if usable(d)] or [":rsm:\n\nx\n\n::\n"]
        calls = [[rng.randrange(len(docs)), rng.choice(["plain", "hr", "source", "lint", "plain"])] for _ in range(rng.randint(2, 8))]
        return {"docs": docs, "calls": calls}

    def show(self, case):
        return f"{case['calls']}\n" + "\n---------- next document\n".join(case["docs"])

    def run(self, case):
        refused = False
        memo = {}
        for n, (i, what) in enumerate(case["calls"]):
            src = case["docs"][i]
            if (i, what) not in memo:
                memo[i, what] = pristine(src, what)
            got, want = answer(src, what), memo[i, what]
            refused |= "Error: " in str(got[0])[:40]
            if got != want:
                import suites
                d = suites.first_diff(str(want[0]).split("\n") + want[1], str(got[0]).split("\n") + got[1])
                raise V("history matters", f"call {n} {what} on document {i}: {d}")
        return {"!nontrivial"} if len(case["calls"]) >= 4 and not refused else {"other"}

    def shrink(self, case, fails):
        calls = case["calls"]
        i = 0
        while i < len(calls):
            t = calls[:i] + calls[i + 1:]
            if t and fails(dict(case, calls=t)):
                calls = t
            else:
                i += 1
        case = dict(case, calls=calls)
        for i in range(len(case["docs"])):
            if all(c[0] != i for c in calls):
                case = dict(case, docs=case["docs"][:i] + [":rsm:\n\nx\n\n::\n"] + case["docs"][i + 1:])
        return case


class Ways(harness.Suite):
    """The same manuscript by different ways."""
    name = "ways"
    quick, thorough = 600, 60000
    rule = ("one manuscript rendered from a string, from a file, with every log level, format and option for logs, by parser, "
            "transformer and translator objects called directly (new ones, or ones that served another manuscript before), twice "
            "from the same tree by both translators, and by eight threads at once: the same page; non-trivial: it has a "
            "reference, a citation or a number")

    def gen(self, rng):
        return {"src": document(rng), "other": document(rng), "level": rng.choice([0, 20, 25, 40, 50]),
                "fmt": rng.choice(["plain", "json", "lint", "rsm"]), "threads": rng.random() < .15}

    def show(self, case):
        return case["src"] + "\n---------- other\n" + case["other"]

    def run(self, case):
        src = case["src"]
        if not usable(src) or not usable(case["other"]) or "\r" in src or "\0" in src:
            return {"skipped"}
        for hr in (False, True):
            want = answer(src, "hr" if hr else "plain")
            d = tempfile.mkdtemp(prefix="c17-")
            try:
                p = os.path.join(d, "doc.rsm")
                with open(p, "w", encoding="utf-8") as f:
                    f.write(src)
                for path in (p,):
                    with run.logs() as recs:
                        got = self.outcome(lambda: rsm.render(path=path, handrails=hr))
                    if got != want[0]:
                        raise V("the file differs from the string", "")
                    if [r.getMessage() for r in recs] != [m[1] for m in want[1]]:
                        raise V("messages for the file differ from those for the string", "")
            finally:
                shutil.rmtree(d)
            out, sys.stdout = sys.stdout, open(os.devnull, "w")
            try:
                with run.logs():
                    got = self.outcome(lambda: rsm.render(src, handrails=hr, loglevel=case["level"], log_format=case["fmt"],
                                                          log_time=False, log_lineno=False))
            finally:
                sys.stdout.close()
                sys.stdout = out
            if got != want[0]:
                raise V("the page depends on the logging options", "")
            make = [translator.Translator, lambda: translator.HandrailsTranslator(add_source=False)]
            cls = make[hr]
            run.quiet()
            logging.getLogger("RSM").setLevel(60)
            with run.logs():
                P, T, R = tsparser.TSParser(), transformer.Transformer(), cls()
                for used in (False, True):
                    if used:
                        self.outcome(lambda: R.translate(T.transform(P.parse(case["other"]))))
                    got = self.outcome(lambda: R.translate(T.transform(P.parse(src))))
                    if want[0] and got != want[0]:
                        raise V("reused objects give another page" if used else "the parts give another page than the whole",
                                f"handrails={hr}")
                if want[0] and "Error: " not in want[0][:40]:
                    tree = transformer.Transformer().transform(tsparser.TSParser().parse(src))
                    before = self.state(tree)
                    pages = [cls().translate(tree), make[not hr]().translate(tree), cls().translate(tree)]
                    if pages[0] != want[0] or pages[2] != want[0]:
                        raise V("translating changes what the tree gives next", f"handrails={hr}")
                    after = self.state(tree, before)
                    if after != before:
                        raise V("translating changes the tree", f"handrails={hr} " + str([x for x in zip(before, after) if x[0] != x[1]][:1]))
        if case["threads"]:
            got = [None] * 8
            srcs = [src, case["other"]]
            wants = [answer(s, "plain")[0] for s in srcs]
            olderr, sys.stderr = sys.stderr, open(os.devnull, "w")

            def work(i):
                got[i] = self.outcome(lambda: rsm.render(srcs[i % 2]))
            try:
                ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
                old = sys.getswitchinterval()
                sys.setswitchinterval(1e-5)
                [t.start() for t in ts]
                [t.join() for t in ts]
                sys.setswitchinterval(old)
            finally:
                sys.stderr.close()
                sys.stderr = olderr
            for i, g in enumerate(got):
                if g != wants[i % 2]:
                    raise V("threads disturb one another", str(g)[:300])
        h = want[0]
        return {"!nontrivial"} if 'class="reference' in h or "Theorem 1" in h or "Lemma 1" in h else {"other"}

    @staticmethod
    def state(tree, like=None):
        """All that the nodes say, except for the types, where translating marks the level of a section and the like."""
        def told(v):
            if isinstance(v, nodes.Node):
                return id(v)
            if isinstance(v, (list, tuple)):
                return [told(x) for x in v]
            if isinstance(v, dict):
                return [(told(a), told(b)) for a, b in v.items()]
            return repr(v)
        out = []
        for i, n in enumerate(tree.traverse()):
            said = {k: told(v) for k, v in vars(n).items() if not k.startswith("_") and k != "types"}
            if like and i < len(like):      # what is new is nobody's business
                said = {k: v for k, v in said.items() if k in like[i][3]}
            out.append([type(n).__name__, id(n), id(n.parent), said])
        return out

    @staticmethod
    def outcome(f):
        try:
            return f()
        except Exception as e:
            return f"{type(e).__name__}: {e}"

    def shrink(self, case, fails):
        t = fuzz.shrink_text(case["src"], lambda s: fails(dict(case, src=s)))
        return dict(case, src=t)


class Processes(harness.Suite):
    """Hash seeds, locales and working directories."""
    name = "processes"
    quick, thorough = 24, 1200
    rule = ("20 manuscripts rendered (plain, with handrails, from a file, into a site) and linted in new processes with different hash seeds, locales "
            "(one whose encoding is ASCII), widths of the terminal, time zones, working directories, with assertions and without: the same bytes; "
            "non-trivial: always")

    CODE = ("import sys, json; sys.path.insert(0, sys.argv[1]); import boot, run, c17\n"
            "docs = json.load(open(sys.argv[2], encoding='utf-8'))\n"
            "out = [[c17.answer(s, w) for w in ('plain', 'hr', 'source', 'lint', 'file', 'site')] for s in docs]\n"
            "json.dump(out, open(sys.argv[3], 'w', encoding='utf-8'))\n")

    def gen(self, rng):
        return {"docs": [d for d in (document(rng, p_types=40) for _ in range(20)) if usable(d)], "seed": rng.randrange(1, 4000)}

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c17-")
        try:
            src = os.path.join(d, "docs.json")
            json.dump(case["docs"], open(src, "w", encoding="utf-8"))
            outs = []
            for k in range(2):
                env = dict(os.environ, PYTHONHASHSEED=str(case["seed"] * k), TZ=["UTC", "Asia/Tokyo"][k],
                           LC_ALL=["C.UTF-8", "C"][k], PYTHONUTF8=["1", "0"][k], PYTHONCOERCECLOCALE=["1", "0"][k], COLUMNS=["200", "20"][k],
                           PYTHONPATH=os.pathsep.join([os.path.join(boot.VERIF, "lib"),
                                                                                 os.path.join(boot.VERIF, "checks")]))
                cwd = os.path.join(d, f"w{k}")
                os.mkdir(cwd)
                out = os.path.join(d, f"out{k}.json")
                p = subprocess.run([sys.executable, "-W", "ignore", *[[], ["-O"]][k], "-c", self.CODE, os.path.join(boot.VERIF, "lib"), src, out],
                                   env=env, cwd=cwd, capture_output=True, timeout=55)
                if p.returncode:
                    raise V("process failed", p.stderr.decode("utf-8", "replace")[-800:])
                outs.append(json.load(open(out, encoding="utf-8")))
                if os.listdir(cwd):
                    raise V("rendering writes files", str(os.listdir(cwd)))
            for i, (a, b) in enumerate(zip(*outs)):
                for w, x, y in zip(("plain", "hr", "source", "lint", "file", "site"), a, b):
                    if x != y:
                        raise V(f"processes differ ({w})", [case["docs"][i], first(x, y)])
        finally:
            shutil.rmtree(d)
        return {"!nontrivial"}

    def shrink(self, case, fails):
        docs = case["docs"]
        for d in docs:
            if fails(dict(case, docs=[d])):
                return dict(case, docs=[d])
        return case

    def show(self, case):
        return case["docs"][0] if case["docs"] else ""


if __name__ == "__main__":
    raise SystemExit(harness.main("C17", [History(), Ways(), Processes()]))
