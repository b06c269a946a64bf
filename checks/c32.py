"""C32: an application runs its steps in order and can be inspected afterwards."""
import json
import logging
import os
import shutil
import tempfile

import common  # noqa: F401

import docgen
import fuzz
import harness
import rsm
import run
from harness import V
from rsm import app as apps

KINDS = ["ParserApp", "LinterApp", "ProcessorApp", "FullBuildApp"]


def messages(recs):
    return [(r.levelname, r.getMessage(), getattr(r, "start_row", None)) for r in recs]


def observed(f):
    with run.logs() as recs:
        try:
            out = f()
        except Exception as e:
            out = f"raised {type(e).__name__}: {e}"
    return out, messages(recs)


def files(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), d)] = f.read()
    return out


class Apps(harness.Suite):
    """case = manuscripts, the applications made of them (all at first), and the order in which they run"""
    name = "apps"
    quick, thorough = 500, 30000
    rule = ("two or three manuscripts, two to four applications of any kind made of them, from strings or files, run in any order, some twice, some "
            "after their file was changed; each run gives the result, the messages and the files of the function of the same name, and then the steps "
            "hold the source, both trees, the labels, the page; non-trivial: an application runs again, or runs after one that was made later")

    def gen(self, rng):
        def doc():
            if rng.random() < .1:
                return fuzz.text(rng)
            return docgen.to_source(docgen.Gen(rng, blocks=2, sections=2, words=3, big=2, p_unknown=8, p_dup=5, figure=0).doc())
        n = rng.randint(2, 4)
        made = [dict(kind=rng.choice(KINDS), file=rng.random() < .5, src=rng.randrange(3), hr=rng.random() < .5, lint=rng.random() < .4, source=rng.random() < .3)
                for _ in range(n)]
        return dict(srcs=[doc() for _ in range(3)], made=made, runs=[(rng.randrange(n), rng.random() < .3) for _ in range(rng.randint(n, n + 3))])

    def show(self, case):
        return json.dumps([case["made"], case["runs"]]) + "\n" + "\n---\n".join(case["srcs"])

    def function(self, m, path, plain):
        kw = dict(source=plain, path=path)
        if m["kind"] == "LinterApp":
            return rsm.lint(**kw)
        if m["kind"] == "ProcessorApp":
            return rsm.render(handrails=m["hr"], add_source=m["source"], **kw)
        return rsm.make(handrails=m["hr"], lint=m["lint"], **kw)

    def run(self, case):
        if any("\r" in s or "\0" in s or not s.strip() or ":figure:" in s for s in case["srcs"]) or not case["made"]:
            return {"skipped"}
        d = tempfile.mkdtemp(prefix="c32-")
        old = os.getcwd()
        done, again = [], False
        try:
            os.chdir(d)
            logging.getLogger("RSM").setLevel(logging.WARNING)
            for i, m in enumerate(case["made"]):
                m = dict(m, src=case["srcs"][m["src"] % len(case["srcs"])])
                m["path"] = f"m{i}.rsm" if m["file"] else ""
                if m["file"]:
                    self.write(m["path"], m["src"])
                kw = dict(srcpath=m["path"] or None, plain="" if m["file"] else m["src"])
                if m["kind"] == "ProcessorApp":
                    kw.update(handrails=m["hr"], add_source=m["source"])
                if m["kind"] == "FullBuildApp":
                    kw.update(handrails=m["hr"], run_linter=m["lint"])
                m["app"] = getattr(apps, m["kind"])(**kw)
                done.append(m)
            for k, change in case["runs"]:
                k %= len(done)
                m = done[k]
                if change and m["file"]:
                    m["src"] = case["srcs"][(k + 1) % len(case["srcs"])]
                    self.write(m["path"], m["src"])
                again = again or m.get("ran", False) or any(x.get("ran") for x in done[k + 1:])
                m["ran"] = True
                # the level is that of the application made last, unless it is set again
                logging.getLogger("RSM").setLevel(25 if m["kind"] == "LinterApp" or m["kind"] == "FullBuildApp" and m["lint"] else 30)
                a, fa = self.within(m, lambda: observed(m["app"].run))
                self.compare(m, a, fa)
        finally:
            os.chdir(old)
            shutil.rmtree(d)
            logging.getLogger("RSM").setLevel(logging.WARNING)
        return {m["kind"] for m in done} | ({"!order"} if again else set())

    def write(self, path, src):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(src)

    def within(self, m, f):
        """The result, and the files it makes."""
        before = files(".")
        out = f()
        after = files(".")
        new = {k: v for k, v in after.items() if before.get(k) != v}
        for k in after:
            if k not in before:
                os.unlink(k)
        if os.path.isdir("static"):
            shutil.rmtree("static")
        return out, new

    def compare(self, m, a, fa):
        app, kind = m["app"], m["kind"]
        path, plain = (m["path"], "") if m["file"] else ("", m["src"])
        if kind == "ParserApp":
            b, fb = observed(lambda: rsm.render(m["src"])), {}
            if a[0] and not isinstance(a[0], (str, bytes)):
                P, T = rsm.tsparser.TSParser(), rsm.transformer.Transformer()
                with run.logs():
                    want = T.transform(P.parse(m["src"])).sexp()
                if a[0].sexp() != want:
                    raise V("the tree of the application differs", (a[0].sexp()[:300], want[:300]))
            elif a[0] != b[0]:
                raise V("the application fails differently", (str(a[0])[:300], str(b[0])[:300]))
        else:
            b, fb = self.within(m, lambda: observed(lambda: self.function(m, path, plain)))
            x, y = a[0], b[0]
            if kind == "LinterApp" and hasattr(x, "sexp") and hasattr(y, "sexp"):
                x, y = x.sexp(), y.sexp()
            if x != y:
                raise V("the result of the application differs from that of the function", (kind, str(x)[:300], str(y)[:300]))
            if a[1] != b[1]:
                raise V("the messages differ from those of the function", (kind, [z for z in a[1] if z not in b[1]], [z for z in b[1] if z not in a[1]]))
        if fa != fb:
            raise V("the files differ from those of the function", (kind, sorted(k for k in {**fa, **fb} if fa.get(k) != fb.get(k))))
        if isinstance(a[0], str) and (a[0] == "" or a[0].startswith("raised ")):
            return
        # what can be looked at afterwards
        if m["file"]:
            if app.reader.src != m["src"]:
                raise V("source held by the reader", app.reader.src[:200])
        ast = app.parser.ast
        if ast is not app.transformer.tree:
            raise V("trees of the parser and the transformer", kind)
        if kind in ("ParserApp", "LinterApp") and a[0] is not ast:
            raise V("result of the application", kind)
        for n in ast.traverse():
            if n.label and not isinstance(n, rsm.nodes.Cite) and app.transformer.labels_to_nodes.get(n.label) is None:
                raise V("label not held by the transformer", n.label)
        for lab, n in app.transformer.labels_to_nodes.items():
            if n.label != lab:
                raise V("label of another node", lab)
            top = n
            while top.parent is not None:
                top = top.parent
            if top is not ast and not isinstance(n, rsm.nodes.Manuscript):
                raise V("label of another manuscript", lab)
        if kind == "LinterApp" and app.linter.tree is not ast:
            raise V("tree of the linter", kind)
        if kind in ("ProcessorApp", "FullBuildApp"):
            if app.translator.tree is not ast:
                raise V("tree of the translator", kind)
            page = a[0] if kind == "ProcessorApp" else app.builder.body
            with run.logs():
                want = rsm.render(m["src"], handrails=m["hr"], add_source=m["source"] if kind == "ProcessorApp" else m["hr"])
            if page != want:
                raise V("page held by the translator", kind)
        if kind == "FullBuildApp":
            if fa.get("index.html", b"").decode() != a[0]:
                raise V("the result is not the page that was written", str(a[0])[:200])

    def shrink(self, case, fails):
        for key in ("runs", "made"):
            i = 0
            while i < len(case[key]) and len(case[key]) > 1:
                new = dict(case, **{key: case[key][:i] + case[key][i + 1:]})
                case, i = (new, i) if fails(new) else (case, i + 1)
        for i in range(3):
            t = fuzz.shrink_text(case["srcs"][i], lambda s: fails(dict(case, srcs=case["srcs"][:i] + [s] + case["srcs"][i + 1:])))
            case = dict(case, srcs=case["srcs"][:i] + [t] + case["srcs"][i + 1:])
        return case


class Pipelines(harness.Suite):
    """case = operations on a pipeline that a program puts together"""
    name = "pipelines"
    quick, thorough = 5000, 300000
    rule = ("pipelines made of tasks that record how they are called and return mappings, sequences, nothing, or anything else; tasks are added and "
            "taken away, the pipeline is run from any value, several times, as itself or as an application; calls, results and the objects held by name "
            "follow the model; non-trivial: three tasks run and one was taken away")
    VALUES = [None, 0, 1, "", "text", [], [1], [1, [2]], (), (1, 2), {}, {"a": 1}, {"a": None, "b": [3]}, {"$set": 1}, False, 2.5, b"x", {"x": {"y": 1}}]

    def gen(self, rng):
        ops, n = [], 0
        for _ in range(rng.randint(2, 14)):
            k = rng.choice(["add", "add", "add", "pop", "run", "run"])
            if k == "add":
                n += 1
                ops.append([k, f"step{n}", rng.randrange(len(self.VALUES)), rng.random() < .05])
            elif k == "run":
                ops.append([k, rng.randrange(len(self.VALUES)), rng.random() < .2])
            else:
                ops.append([k])
        return dict(ops=ops, first=rng.randint(0, 3), app=rng.random() < .5)

    def show(self, case):
        return json.dumps(case)

    def run(self, case):
        calls, held = [], {}

        def task(name, v, fail):
            obj = object()

            def call(*a, **k):
                calls.append((name, a, k))
                if fail:
                    raise rsm.tsparser.RSMParserError(msg=f"in {name}")
                return self.VALUES[v]
            return apps.Task(name, obj, call), (name, obj, v, fail)
        model = []
        start = []
        for i in range(case["first"]):
            t, m = task(f"first{i}", (i * 7 + 3) % len(self.VALUES), False)
            start.append(t)
            model.append(m)
        before = list(start)
        with run.logs():
            p = (apps.RSMApp if case["app"] else apps.Pipeline)(start)
        if case["app"]:
            logging.getLogger("RSM").setLevel(40)
        most, popped = 0, False
        for op in case["ops"]:
            if op[0] == "add":
                t, m = task(*op[1:])
                p.add_task(t)
                model.append(m)
            elif op[0] == "pop":
                if not model:
                    try:
                        p.pop_task()
                    except IndexError:
                        continue
                    raise V("a task taken from an empty pipeline", "")
                t = p.pop_task()
                m = model.pop()
                popped = True
                if t.name != m[0] or t.obj is not m[1]:
                    raise V("the task that is taken away", t.name)
                if hasattr(p, m[0]):
                    raise V("held after it was taken away", m[0])
            else:
                del calls[:]
                v = self.VALUES[op[1]]
                want, res, err = [], v, None
                for name, _, out, fail in model:
                    if isinstance(res, dict):
                        want.append((name, (), res))
                    elif isinstance(res, (list, tuple)):
                        want.append((name, tuple(res), {}))
                    else:
                        want.append((name, () if res is None else (res,), {}))
                    if fail:
                        err = f"in {name}"
                        break
                    res = self.VALUES[out]
                with run.logs() as recs:
                    try:
                        got = p.run(v) if v is not None or op[2] else p.run()
                        raised = None
                    except rsm.tsparser.RSMParserError as e:
                        got, raised = None, str(e)
                if calls != want:
                    raise V("calls", (calls[:6], want[:6]))
                if err is None:
                    if raised is not None or got is not res and got != res or type(got) is not type(res):
                        raise V("result of the run", (got, res))
                elif case["app"]:
                    # an application tells what went wrong and gives an empty result
                    if raised is not None or got != "" or not any(err in r.getMessage() for r in recs if r.levelno >= logging.ERROR):
                        raise V("what an application makes of an error", (got, raised))
                elif raised is None or err not in raised:
                    raise V("an error in a pipeline", (got, raised))
                most = max(most, len(want))
            if [t.name for t in p.tasks] != [m[0] for m in model]:
                raise V("tasks", [t.name for t in p.tasks])
            for m in model:
                if getattr(p, m[0], None) is not m[1]:
                    raise V("object held by name", m[0])
            if start != before:
                raise V("the list of tasks that was given has changed", [t.name for t in start])
        return ({"!popped"} if most > 2 and popped else set()) | {"app" if case["app"] else "pipeline"}

    def shrink(self, case, fails):
        i = 0
        while i < len(case["ops"]):
            new = dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
            case, i = (new, i) if fails(new) else (case, i + 1)
        return case


class Choice(harness.Suite):
    """Exactly one source."""
    name = "one source"
    quick, thorough = 300, 6000
    rule = "applications and functions given a source, a path, both or none: refused unless there is exactly one; non-trivial: refused"

    def gen(self, rng):
        return dict(kind=rng.choice(KINDS + ["render", "lint", "make"]), plain=rng.choice(["", ":rsm:\n\ntext\n\n::\n"]), path=rng.choice(["", None, "doc.rsm"]))

    def show(self, case):
        return json.dumps(case)

    def run(self, case):
        d = tempfile.mkdtemp(prefix="c32-")
        old = os.getcwd()
        try:
            os.chdir(d)
            with open("doc.rsm", "w") as f:
                f.write(":rsm:\n\nfile\n\n::\n")
            if case["kind"] in KINDS:
                f = lambda: getattr(apps, case["kind"])(srcpath=case["path"], plain=case["plain"]).run()  # noqa: E731
            else:
                f = lambda: getattr(rsm, case["kind"])(path=case["path"], source=case["plain"])  # noqa: E731
            with run.logs():
                try:
                    f()
                    ok = True
                except apps.RSMApplicationError:
                    ok = False
            if ok != (bool(case["plain"]) != bool(case["path"])):
                raise V("accepted" if ok else "refused", case)
            if not ok and os.listdir(".") != ["doc.rsm"]:
                raise V("files", os.listdir("."))
        finally:
            os.chdir(old)
            shutil.rmtree(d)
        return {"fine"} if ok else {"!refused"}


if __name__ == "__main__":
    raise SystemExit(harness.main("C32", [Apps(), Pipelines(), Choice()]))
