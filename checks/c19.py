"""C19: the log says what happened, in each format and at each level."""
import common  # noqa: F401
import contextlib
import io
import json
import logging
import os
import re
import shutil
import sys
import tempfile

import docgen
import fuzz
import harness
import rsm
import run
from harness import V

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LEVELS = [10, 20, 25, 30, 40]
SHORT = {10: "DBG", 20: "INF", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}


class Seen(logging.Handler):
    """Every record the loggers issue, whatever the configured level."""

    def __init__(self):
        super().__init__(level=1)
        self.recs = []

    def emit(self, r):
        self.recs.append(r)


@contextlib.contextmanager
def scratch():
    """A folder of its own for what `make` writes."""
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="c19-")
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def call(src, what, **kw):
    """(records, stderr, stdout) of one call."""
    root = logging.getLogger()
    s = Seen()
    root.addHandler(s)
    err, out = io.StringIO(), io.StringIO()
    olderr = sys.stderr
    sys.stderr = err
    try:
        with contextlib.redirect_stdout(out):
            try:
                with scratch() if what == "make" else contextlib.nullcontext():
                    getattr(rsm, what)(source=src, **kw)
            except Exception as e:
                if not fuzz.own(e):
                    raise
    finally:
        sys.stderr = olderr
        root.removeHandler(s)
        lg = logging.getLogger("RSM")
        lg.handlers[:] = [logging.NullHandler()]
    return [r for r in s.recs if r.name.split(".")[0] == "RSM"], err.getvalue(), out.getvalue()


class Logs(harness.Suite):
    name = "logs"
    names = dict(SHORT)
    names[25] = "LINT"
    quick, thorough = 6000, 400000
    rule = ("a manuscript with something to report (generated, damaged or refused), rendered, linted or made into a site at a random level in a "
            "random format with and without time stamps and line numbers: the output has exactly one line per record at or "
            "above the level, with its name, level, message, position, and time and line number as asked; the page does not "
            "depend on any of it; non-trivial: 3 lines or more")

    def gen(self, rng):
        what = rng.choice(["render", "render", "lint"])
        if rng.random() < .5:
            src = fuzz.text(rng)
        else:
            make = rng.random() < .15
            d = docgen.Gen(rng, blocks=2, sections=2, p_unknown=30, p_dup=20, p_bib=70, p_label=50, words=5).doc()
            src = docgen.to_source(d)
            if make and ":figure:" not in src:
                what = "make"
        return {"src": src, "fmt": rng.choice(["rsm", "plain", "json", "lint"]), "level": rng.choice(LEVELS + [0, 30, 20, 20]),
                "time": rng.random() < .5, "lineno": rng.random() < .5, "what": what,
                "handrails": rng.random() < .3}

    def show(self, case):
        return f"{ {k: v for k, v in case.items() if k != 'src'} }\n{case['src']}"

    def run(self, case):
        src = case["src"]
        if not src.strip() or any("\ud800" <= c <= "\udfff" for c in src):
            return {"skipped"}
        kw = dict(handrails=case["handrails"])
        recs, err, _ = call(src, case["what"], loglevel=case["level"], log_format=case["fmt"], log_time=case["time"],
                            log_lineno=case["lineno"], **kw)
        level = 25 if case["what"] == "lint" else max(10, case["level"])
        if case["what"] == "make":    # the linter of the site has its own messages
            recs = [r for r in recs if r.levelno >= level]
        low = [r for r in recs if r.levelno < level]
        if low:
            raise V("below the level", f"{[r.getMessage() for r in low][:5]}")
        full, _, _ = call(src, case["what"], loglevel=20, log_format="json", **kw)
        # what is reported does not depend on the level
        a = [r.getMessage() for r in full if r.levelno >= max(level, 20)]
        b = [r.getMessage() for r in recs if r.levelno >= max(level, 20)]
        if a != b:
            raise V("records depend on the level", f"{a[:8]} and {b[:8]}")
        self.output(case, recs, err)
        return {case["fmt"], f"level {level}", *(["!lines"] if len(recs) >= 3 else [])}

    def output(self, case, recs, err):
        fmt = case["fmt"]
        left = err

        def bad(r, why):
            raise V("output differs", f"{fmt}: {why} for {r.levelname} {r.getMessage()!r} at {left[:300]!r}")
        for r in recs:
            msg = r.getMessage()
            lvl = self.names.get(r.levelno, r.levelname)
            pos = hasattr(r, "start_row")
            if fmt == "json":
                line, _, left2 = left.partition("\n")
                try:
                    o = json.loads(line)
                except ValueError:
                    bad(r, "no JSON")
                want = {"name": r.name, "level": lvl, "msg": msg, "filename": r.filename}
                if case["lineno"]:
                    want["lineno"] = r.lineno
                t = o.pop("time", None)
                if (t is not None) != case["time"] or o != want:
                    bad(r, f"{o} instead of {want}, time {t}")
                left = left2
                continue
            if fmt == "plain":
                want = msg + "\n"
            elif fmt == "lint":
                at = f"src:{r.start_row}:{r.start_col}" if pos else "src:1:1"
                want = f"{at}: {lvl}: {msg}\n"
            else:
                line = left
                m = re.match(r"\x1b\[[0-9;]*m(\d\d:\d\d:\d\d) \x1b\[0m", line)
                if bool(m) != case["time"]:
                    bad(r, "time stamp")
                if m:
                    line = line[m.end():]
                point = f" | ({r.start_row}, {r.start_col}) - ({r.end_row}, {r.end_col}) | " if pos else ""
                tail = f" ({r.filename}:{r.lineno})" if case["lineno"] else ""
                want = f"{r.name} {lvl:<3} | {msg}{point}{tail}\n"
                # colours carry no information
                n = 0
                plain = ""
                while n < len(line) and len(plain) < len(want):
                    c = ANSI.match(line, n)
                    if c:
                        n = c.end()
                    else:
                        plain += line[n]
                        n += 1
                if plain != want:
                    bad(r, f"{plain!r} instead of {want!r}")
                left = line[n:]
                continue
            if not left.startswith(want):
                bad(r, f"expected {want!r}")
            left = left[len(want):]
        if left.strip():
            raise V("output differs", f"{fmt}: extra {left[:300]!r}")

    def shrink(self, case, fails):
        return dict(case, src=fuzz.shrink_text(case["src"], lambda s: fails(dict(case, src=s))))


class Records(Logs):
    name = "records"
    names = SHORT          # the linter names its level only when there is a linter
    quick, thorough = 4000, 300000
    rule = ("any messages issued to the loggers of the package (any level, with arguments, several lines, percent signs, Unicode, "
            "positions with zeros, sub-loggers), after any sequence of configurations: exactly those at or above the last "
            "configured level appear, once each, in the last configured format; non-trivial: 3 lines or more")
    WORDS = ["x", "50%", "100%d", "{}", "é中", "a/b", '"q"', "\\", "\U0001f600", "<b>", "", "a\nb", "\t", "%s", "'"]
    BARE = ["hello", "été", "50% of", "{}", 'a "q" b', "two\nlines", "", "<b>", "\\n", "a\tb"]

    def gen(self, rng):
        confs = [{"level": rng.choice([0, 10, 20, 25, 30, 40, 50]), "fmt": rng.choice(["rsm", "plain", "json", "lint"]),
                  "time": rng.random() < .5, "lineno": rng.random() < .5} for _ in range(rng.choice([1, 1, 2, 3]))]
        recs = []
        for _ in range(rng.randint(1, 8)):
            args, msg = [], rng.choice(self.BARE)
            if rng.random() < .5:
                msg = ""
                for _ in range(rng.randint(1, 3)):
                    d = rng.random() < .3
                    msg += rng.choice(["", "a ", "= ", "100%% "]) + ("%d" if d else "%s")
                    args.append(rng.randint(-3, 99) if d else rng.choice(self.WORDS))
            r = {"level": rng.choice([10, 20, 25, 30, 40, 50]), "msg": msg, "args": args,
                 "name": rng.choice(["RSM", "RSM.parse", "RSM.tform", "RSM.tlate", "RSM.linter", "RSM.new.deep"])}
            if rng.random() < .4:
                r["at"] = [rng.randint(0, 3), rng.randint(0, 120), rng.randint(0, 3), rng.randint(0, 9)]
            recs.append(r)
        return {"confs": confs, "recs": recs}

    def show(self, case):
        return "\n".join(map(str, case["confs"] + case["recs"]))

    def run(self, case):
        from rsm import rsmlogger
        s = Seen()
        root = logging.getLogger()
        root.addHandler(s)
        err, old = io.StringIO(), sys.stderr
        try:
            for c in case["confs"]:
                sys.stderr = err = io.StringIO()
                rsmlogger.config_rsm_logger(c["level"], c["fmt"], c["time"], c["lineno"])
            for r in case["recs"]:
                at = dict(zip(("start_row", "start_col", "end_row", "end_col"), r.get("at", ())))
                logging.getLogger(r["name"]).log(r["level"], r["msg"], *r["args"], extra=at)
        finally:
            sys.stderr = old
            root.removeHandler(s)
            logging.getLogger("RSM").handlers[:] = [logging.NullHandler()]
        c = case["confs"][-1]
        level = max(10, c["level"])
        want = [r for r in case["recs"] if r["level"] >= level]
        seen = [r for r in s.recs if r.name.split(".")[0] == "RSM"]
        if [(r["name"], r["level"]) for r in want] != [(r.name, r.levelno) for r in seen]:
            raise V("records differ", f"{[r.getMessage() for r in seen]}")
        self.output(c, seen, err.getvalue())
        return {c["fmt"], f"level {level}", *(["!lines"] if len(seen) >= 3 else [])}

    def shrink(self, case, fails):
        for k in ("confs", "recs"):
            i = 0
            while i < len(case[k]) and len(case[k]) > 1:
                smaller = dict(case, **{k: case[k][:i] + case[k][i + 1:]})
                if fails(smaller):
                    case = smaller
                else:
                    i += 1
        return case


class Gathered(harness.Suite):
    name = "gathered"
    quick, thorough = 3000, 100000
    rule = ("a handler that gathers messages of some levels, on a logger or by itself, with another handler as its target or none, flushed at any time, "
            "several times, with the target changed between: the target gets exactly the messages of these levels since it was last flushed, in order, once; "
            "non-trivial: two flushes pass messages on")

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(3, 20)):
            k = rng.choice(["log"] * 6 + ["flush"] * 2 + ["target"] * (rng.random() < .3))
            ops.append([k, rng.choice([10, 20, 25, 30, 40, 50]), rng.randint(0, 99)] if k == "log" else [k, rng.random() < .7] if k == "target" else [k])
        return {"ops": ops, "levels": rng.sample([10, 20, 25, 30, 40, 50], rng.randint(0, 4)), "target": rng.random() < .8}

    def show(self, case):
        return str(case)

    def run(self, case):
        from rsm import rsmlogger
        t = Seen()
        given = list(case["levels"])
        h = rsmlogger.GatherHandler(given, t if case["target"] else None)
        lg = logging.getLogger("RSM-c19")
        lg.propagate, lg.level = False, 1
        lg.handlers[:] = [h]
        held, passed, has, n = [], [], case["target"], 0
        try:
            for op in case["ops"]:
                if op[0] == "log":
                    lg.log(op[1], "m%d", op[2])
                    if op[1] in case["levels"]:
                        held.append((op[1], f"m{op[2]}"))
                elif op[0] == "target":
                    has = op[1]
                    h.setTarget(t if has else None) if hasattr(h, "setTarget") else setattr(h, "target", t if has else None)
                else:
                    h.flush()
                    if has:
                        n += bool(held)
                        passed, held = passed + held, []
                for what, got, want in (("passed on", t.recs, passed), ("held", h.buffer, held)):
                    got = [(r.levelno, r.getMessage()) for r in got]
                    if got != want:
                        raise V(f"messages {what}", f"{got} instead of {want}")
            if given != case["levels"]:
                raise V("the list of levels has changed", given)
        finally:
            lg.handlers[:] = []
        return {"target" if case["target"] else "none"} | ({"!twice"} if n > 1 else set())

    def shrink(self, case, fails):
        i = 0
        while i < len(case["ops"]):
            new = dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
            case, i = (new, i) if fails(new) else (case, i + 1)
        return case


if __name__ == "__main__":
    raise SystemExit(harness.main("C19", [Logs(), Records(), Gathered()]))
