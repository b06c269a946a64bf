"""Drives the suites of a property: generates cases, runs them on all cores, shrinks the first
violation, writes the replay file and the evidence.

A suite is an object with
  name, quick, thorough      how many cases each tier runs
  gen(rng) -> case           a JSON value; all randomness from rng
  run(case) -> classes       raises V (or anything) when the property is broken; the result is a
                             set of labels of what the case exercised; a label starting with "!"
                             makes the case count as non-trivial
  shrink(case, fails)        optional
  show(case) -> str          optional: the case as a user would write it
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

import boot

VERIF = boot.VERIF
CASE_S = 60          # of processor time
WALL_CASE_S = 240    # of real time
MAX_CASE = 40000     # characters of a case as JSON
WALL = {"quick": 420, "thorough": 3600}


class V(Exception):
    """A violation.  *kind* is a short stable name of what went wrong."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class Hang(BaseException):
    pass


class Suite:
    name = "suite"
    quick = 1000
    thorough = 20000
    rule = ""
    max_case = MAX_CASE
    limit = CASE_S

    def gen(self, rng):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def shrink(self, case, fails):
        return case

    def show(self, case):
        return case if isinstance(case, str) else json.dumps(case, ensure_ascii=False)


def _alarm(*_):
    raise Hang()


def attempt(suite, case, limit=None):
    """Run one case.  Returns (violation or None, classes)."""
    limit = limit or suite.limit
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, limit * WALL_CASE_S / CASE_S)
    try:
        return None, set(suite.run(case) or ())
    except V as e:
        return (e.kind, e.detail), set()
    except Hang:
        return ("hang", f"no result after {limit} s of processor time"), set()
    except Exception as e:
        tb = "".join(traceback.format_exception(e)[-8:])
        return (f"exception {type(e).__name__}", tb[-1800:]), set()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def seeded(seed, prop, suite, i):
    return random.Random(f"{seed}:{prop}:{suite}:{i}")


def draw(s, seed, prop, i):
    """The case of index *i*.  Generation is a branching process with a heavy tail: cases that take
    minutes to render are drawn again."""
    case = s.gen(seeded(seed, prop, s.name, i))
    for k in range(1, 9):
        if case is None or len(json.dumps(case, default=str)) <= s.max_case:
            break
        case = s.gen(seeded(seed, prop, s.name, f"{i}.{k}"))
    return case


def key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode("utf-8", "surrogatepass")).digest()[:8]


def _limit():
    g = 5 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))


def _shard(k, nsh, prop, suites, tier, seed, stop, q, known, deadline):
    try:
        _limit()
        sink = open(os.devnull, "w")
        sys.stdout = sys.stderr = sink
        for si, s in enumerate(suites):
            n = s.quick if tier == "quick" else s.thorough
            stat = collections.Counter()
            seen, nontriv, samples, kn = set(), set(), [], collections.Counter()
            i = k
            done = 0
            bad = None
            cut = False
            while i < n:
                if stop.is_set():
                    break
                if time.monotonic() > deadline:
                    cut = True
                    break
                case = draw(s, seed, prop, i)
                if case is not None:
                    v, cls = attempt(s, case)
                    done += 1
                    if v:
                        hit = next((f for f in known if f["kind"] == v[0] and f.get("suite", s.name) == s.name
                                    and f["match"] in v[1]), None)
                        if hit:
                            kn[hit["name"]] += 1
                        else:
                            bad = (i, case, v)
                    stat.update(cls)
                    h = key(case)
                    seen.add(h)
                    if any(c.startswith("!") for c in cls):
                        if h not in nontriv and len(samples) < 2:
                            samples.append(s.show(case))
                        nontriv.add(h)
                if bad:
                    stop.set()
                    break
                i += nsh
            if bad:
                bad = bad + (_shrink(s, bad[1], bad[2]),)
            q.put(("suite", k, si, done, seen, nontriv, dict(stat), samples, dict(kn), bad, cut))
            if bad:
                break
        q.put(("end", k))
    except BaseException:
        q.put(("error", k, traceback.format_exc()))


def _shrink(s, case, v):
    """A smaller case with a violation of the same kind."""
    t0 = time.monotonic()

    def fails(c):
        if time.monotonic() - t0 > 45:
            return False
        w, _ = attempt(s, c, 10)
        return w is not None and w[0] == v[0]
    try:
        w, _ = attempt(s, case, 20)
        if w is None or w[0] != v[0]:
            return case      # depends on what ran before it in this process
        return s.shrink(case, fails)
    except BaseException:
        return case


def known_findings(prop):
    """Entries "known: property=<id> name=<n> kind=<k> match=<text> case=<file>" (JSON after 'known: ')."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: "):
                e = json.loads(line[7:])
                if e["property"] == prop:
                    out.append(e)
    return out


def main(prop, suites, assumptions=(), argv=None):
    argv = sys.argv[1:] if argv is None else argv
    boot.check_repo()
    names = {s.name: s for s in suites}
    if "--replay" in argv:
        return replay(prop, names, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--only" in argv:
        suites = [names[argv[argv.index("--only") + 1]]]
    t0 = time.monotonic()
    known = known_findings(prop)
    out = sys.stdout
    # listed findings are replayed in a process of their own
    for e in known:
        state = _in_child(lambda: attempt(names[e["suite"]],
                                          json.load(open(os.path.join(VERIF, e["case"])))["case"])[0])
        if state and state[0] == e["kind"] and e["match"] in state[1]:
            print(f"KNOWN-FINDING: property={prop} {e['what']}", file=out)
    nsh = min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    deadline = t0 + WALL[tier]
    procs = [ctx.Process(target=_shard, args=(k, nsh, prop, suites, tier, seed, stop, q, known, deadline), daemon=True)
             for k in range(nsh)]
    for p in procs:
        p.start()
    agg = [dict(done=0, seen=set(), nt=set(), stat=collections.Counter(), samples=[], kn=collections.Counter(),
                cut=False) for _ in suites]
    bads, ended, errors = [], 0, []
    while ended < nsh:
        try:
            m = q.get(timeout=5)
        except Exception:
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) == nsh and q.empty():
                errors.append("a worker died: exit codes " + str([p.exitcode for p in procs]))
                break
            continue
        if m[0] == "end":
            ended += 1
        elif m[0] == "error":
            errors.append(m[2])
            ended += 1
        else:
            _, k, si, done, seen, nt, stat, samples, kn, bad, cut = m
            a = agg[si]
            a["done"] += done
            a["seen"] |= seen
            a["nt"] |= nt
            a["stat"].update(stat)
            a["samples"] += samples
            a["kn"].update(kn)
            a["cut"] |= cut
            if bad:
                bads.append((si,) + bad)
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(a["done"] for a in agg),
                  distinct_nontrivial=sum(len(a["nt"]) for a in agg),
                  rule=" | ".join(f"{s.name}: {s.rule}" for s in suites),
                  samples=[f"[{s.name}] {x}"[:1500] for s, a in zip(suites, agg) for x in a["samples"][:2]],
                  suites={s.name: dict(evaluations=a["done"], distinct=len(a["seen"]), distinct_nontrivial=len(a["nt"]),
                                       known_findings_met=dict(a["kn"]), stopped_by_time=a["cut"],
                                       classes=dict(sorted((c, n) for c, n in a["stat"].items())))
                          for s, a in zip(suites, agg)}),
              assumptions=list(assumptions), wall_s=round(time.monotonic() - t0, 2), violations=len(bads))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if bads:
        si, i, case, v, small = min(bads, key=lambda b: (b[0], b[1]))
        s = suites[si]
        w = _in_child(lambda: attempt(s, small)[0])
        hist = None
        if not w:
            w, small = v, case
            if not _in_child(lambda: attempt(s, case)[0]):
                hist = dict(seed=seed, shards=nsh, index=i, suite=s.name)
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{s.name}-{seed}-{i}.json")
        with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
            json.dump(dict(property=prop, suite=s.name, kind=w[0], detail=w[1], case=small, history=hist,
                           source=s.show(small)), f, indent=1)
        print(f"suite {s.name}, case {i}: {w[0]}: {w[1][:1500]}", file=out)
        print("--- case\n" + s.show(small)[:3000].encode("utf-8", "backslashreplace").decode(), file=out)
        if hist:
            print("(the violation needs the cases that ran before it in its process)", file=out)
        print(f"VIOLATION property={prop} replay={path}", file=out)
        out.flush()
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=out)
        return 3
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: held on {c['evaluations']} cases, {c['distinct_nontrivial']} non-trivial, "
          f"{ev['wall_s']} s", file=out)
    return 0


def _in_child(f):
    """Result of f() in a forked process (None when it dies)."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def go():
        _limit()
        sys.stdout = sys.stderr = open(os.devnull, "w")
        w.send(f())
    p = ctx.Process(target=go)
    p.start()
    w.close()
    try:
        res = r.recv() if r.poll(120) else None
    except EOFError:
        res = None
    p.join(5)
    if p.is_alive():
        p.terminate()
    return res


def replay(prop, names, path):
    e = json.load(open(path, encoding="utf-8", errors="surrogatepass"))
    s = names[e["suite"]]
    v = None
    h = e.get("history")
    if h:
        def go():
            for i in range(h["index"] % h["shards"], h["index"] + 1, h["shards"]):
                case = draw(s, h["seed"], prop, i)
                r = attempt(s, case)[0] if case is not None else None
                if r:
                    return r
        v = _in_child(go)
    else:
        v = _in_child(lambda: attempt(s, e["case"])[0])
    if v:
        print(f"{v[0]}: {v[1]}\n--- case\n{s.show(e['case'])}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the violation did not show")
    return 0
