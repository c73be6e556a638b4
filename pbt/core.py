"""Harness: generated-input checks driven by Hypothesis, in forked workers.

A property is a set of *subchecks*.  A subcheck has a strategy that draws a
JSON-able case (plain dicts, lists, numbers, strings) and a function
``run(case, ctx)`` that builds batoid objects from the case and compares them
with an oracle.  Nothing random happens outside the strategy except numpy
generators seeded by an integer drawn in the case, so a case replays exactly.

Outcomes of one case:
  * returns                      - held
  * raises Violation             - the property is broken
  * raises something with a frame in /repo/batoid - the property is broken
                                   (a valid input was not handled)
  * raises anything else         - the property is broken: a result has a form
                                   (shape, type) that the oracle cannot digest
  * MemoryError, OSError         - no answer (exit 2)
  * the worker dies by a signal  - the property is broken (memory safety)
"""
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import zlib
from dataclasses import dataclass
from typing import Callable

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")
CASE_CPU = 150.0       # seconds of CPU time one case may take (typical: 0.01)
# Modules in which the subchecks of each property live.
MODULES = [
    "frames", "surfaces", "interact", "rays", "media", "obsc", "systems",
    "edits", "values", "parsing", "analysis", "drawing", "observatory",
]


class Violation(AssertionError):
    pass


@dataclass
class Sub:
    prop: str
    name: str
    strategy: Callable
    run: Callable
    quick: int
    thorough: int
    rule: str
    probes: list


REGISTRY = {}


def sub(prop, name, strategy, quick, thorough=None, rule="", probes=()):
    """Register a subcheck.  `strategy` is a function returning a strategy;
    `quick`/`thorough` are the numbers of cases; `probes` are fixed cases that
    are run first."""
    def deco(f):
        REGISTRY.setdefault(prop, []).append(Sub(
            prop, name, strategy, f, quick, thorough or quick*12, rule,
            list(probes)
        ))
        return f
    return deco


def load_all():
    for m in MODULES:
        path = os.path.join(VERIF, "pbt", "props", m+".py")
        if os.path.exists(path):
            importlib.import_module("pbt.props."+m)


# ---------------------------------------------------------------- assertions

def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _fmt(a):
    s = np.array2string(np.asarray(a), precision=17, threshold=12)
    return s.replace("\n", " ")


def close(actual, expected, tol, msg, rtol=0.0):
    """|actual-expected| <= tol + rtol*|expected| element-wise; NaN equals NaN
    only where expected is NaN."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{msg}: shape {a.shape} instead of {e.shape}")
    if a.size == 0:
        return
    with np.errstate(all='ignore'):
        d = np.abs(a-e)
        lim = tol + rtol*np.abs(e)
        ok = d <= lim
        if np.iscomplexobj(a) or np.iscomplexobj(e):
            ok |= (np.isnan(a) & np.isnan(e))
        else:
            ok |= (np.isnan(a) & np.isnan(e)) | (a == e)
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))
        i = tuple(bad[0])
        av = np.atleast_1d(a)[i]
        ev = np.atleast_1d(e)[i]
        raise Violation(
            f"{msg}: {len(bad)} of {a.size} differ; at {list(map(int, i))} got "
            f"{av!r}, expected {ev!r} (difference {av-ev!r})"
        )


def same(actual, expected, msg):
    """Exactly equal arrays (NaN equals NaN)."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{msg}: shape {a.shape} instead of {e.shape}")
    if a.dtype.kind in "fc" or e.dtype.kind in "fc":
        ok = (a == e) | (np.isnan(a) & np.isnan(e))
    else:
        ok = a == e
    if not np.all(ok):
        i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        raise Violation(
            f"{msg}: at {list(map(int, i))} got {np.atleast_1d(a)[i]!r}, "
            f"expected {np.atleast_1d(e)[i]!r}"
        )


class Ctx:
    """Per-case context: classification and known findings."""
    def __init__(self, known):
        self.known_ids = known
        self.events = {}
        self.hit_known = {}
        self.nontrivial = False

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def event(self, label):
        self.events[label] = self.events.get(label, 0) + 1

    def known(self, id, what):
        """The case shows a recorded finding; anything not recorded is a
        violation."""
        if id not in self.known_ids:
            raise Violation(what)
        self.hit_known[id] = what


# ------------------------------------------------------------ known findings

def load_known(prop):
    """{id: description} of the recorded, unrepaired findings of a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("known: "):
                toks = line.split(None, 3)
                if toks[1] == "property="+prop:
                    out[toks[2].split("=", 1)[1]] = toks[3]
    return out


# ------------------------------------------------------------------- running

def _in_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO+"/batoid"):
            return True
        tb = tb.tb_next
    return False


def classify(exc):
    """None if exc is an error of the harness, else the violation message."""
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, (MemoryError, KeyboardInterrupt, OSError)):
        return None
    if _in_repo(exc.__traceback__):
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return (f"{type(exc).__name__}: {exc} raised for a valid input at "
                f"{last.filename}:{last.lineno}")
    last = traceback.extract_tb(exc.__traceback__)[-1]
    return (f"a result has not the documented form: {type(exc).__name__}: "
            f"{exc} at {os.path.basename(last.filename)}:{last.lineno}")


def run_case(s, case, known):
    """-> (ctx, None) or (ctx, violation message); harness errors propagate."""
    ctx = Ctx(known)
    try:
        with np.errstate(all='ignore'):
            s.run(case, ctx)
    except Exception as e:
        msg = classify(e)
        if msg is None:
            raise
        return ctx, msg
    return ctx, None


def case_hash(case):
    return zlib.crc32(json.dumps(case, sort_keys=True).encode()) \
        | (zlib.adler32(json.dumps(case, sort_keys=True).encode()) << 32)


class Log:
    """Remembers the case being run, for when the process dies."""
    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)

    def put(self, case):
        b = json.dumps(case).encode()
        os.pwrite(self.fd, b"%10d" % len(b) + b, 0)


def read_log(path):
    try:
        b = open(path, "rb").read()
        return json.loads(b[10:10+int(b[:10])])
    except Exception:
        return None


def worker(prop, idx, shard, n, seed, budget, shrink_s, outpath, logpath):
    """Run one shard of one subcheck and leave the result in outpath."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import warnings
    warnings.simplefilter("ignore")

    s = REGISTRY[prop][idx]
    known = load_known(prop)
    log = Log(logpath)
    t0 = time.monotonic()
    res = dict(sub=s.name, shard=shard, evaluations=0, nontrivial=0,
               hashes=[], events={}, samples=[], known={}, skipped=0,
               violation=None, error=None)
    hashes = set()
    last = dict(case=None, msg=None, first=None)

    def one(case):
        # JSON round trip: what we run is what a replay runs.
        case = json.loads(json.dumps(case))
        now = time.monotonic()
        if last["first"] is not None:
            if now-last["first"] > shrink_s:
                return None        # stop shrinking
        elif now-t0 > budget:
            res["skipped"] += 1
            return None
        log.put(case)
        # a case that runs away (an endless loop, in C++ too) kills the worker
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        ctx, msg = run_case(s, case, known)
        signal.setitimer(signal.ITIMER_PROF, 0)
        res["evaluations"] += 1
        for k, v in ctx.events.items():
            res["events"][k] = res["events"].get(k, 0) + v
        res["known"].update(ctx.hit_known)
        if ctx.nontrivial:
            h = case_hash(case)
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 2:
                    txt = json.dumps(case)
                    res["samples"].append(
                        dict(sub=s.name,
                             case=case if len(txt) < 2000 else txt[:2000]+"...")
                    )
        if msg is not None:
            if last["first"] is None:
                last["first"] = now
            last["case"], last["msg"] = case, msg
        return msg

    try:
        if shard == 0:
            for case in list(s.probes)+load_corpus(prop, s.name):
                msg = one(case)
                if msg is not None:
                    break
        if last["case"] is None and n > 0:
            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None,
                      derandomize=False, report_multiple_bugs=False,
                      print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(s.strategy())
            def test(case):
                msg = one(case)
                if msg is not None:
                    raise Violation("violated")
            try:
                test()
            except Exception as e:
                if last["case"] is None:
                    raise
    except BaseException as e:
        res["error"] = "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if last["case"] is not None:
        res["violation"] = dict(case=last["case"], msg=last["msg"])
        res["error"] = None
    res["nontrivial"] = len(hashes)
    res["hashes"] = sorted(hashes)
    res["wall"] = time.monotonic()-t0
    tmp = outpath+".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, outpath)


def load_corpus(prop, name):
    """Saved inputs (shrunk failures of the past) of a subcheck."""
    path = os.path.join(VERIF, "corpus", prop+".jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d["sub"] == name:
                    out.append(d["case"])
    return out


def write_replay(prop, name, case, msg, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}-{case_hash(case):x}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=name, seed=seed, message=msg,
                       case=case), f, indent=1)
    return path


# How many times the stated quick counts a quick run makes (the rest of its time budget).
BOOST = dict(C03=2, C06=2.5, C14=2, C16=2, C19=1.5, C20=1.5, C21=1.5, C22=2,
             C23=1.5, C33=1.2, C34=1.5)


def run_property(prop, tier, seed, nproc=int(os.environ.get("PBT_NPROC", "8")), scale=1.0, only=None,
                 verbose=False):
    """Run all subchecks of a property; returns the exit code."""
    t0 = time.monotonic()
    subs = REGISTRY.get(prop)
    if not subs:
        print(f"no subchecks for {prop}", file=sys.stderr)
        return 2
    budget = 240.0 if tier == "quick" else 600.0
    shrink_s = 25.0 if tier == "quick" else 60.0
    hard = 780.0
    tasks = []
    for idx, s in enumerate(subs):
        if only and s.name not in only:
            continue
        n = int((s.quick*BOOST.get(prop, 3) if tier == "quick"
                 else s.thorough)*scale)
        n = max(n, 1)
        shards = max(1, min(nproc, n//12))
        for k in range(shards):
            m = n//shards + (1 if k < n % shards else 0)
            sd = zlib.crc32(f"{seed}/{prop}/{s.name}/{k}".encode())
            tasks.append((idx, k, m, sd))
    # first shards (with the probes) first, then the rest, interleaved
    tasks.sort(key=lambda t: (t[1], t[0]))

    tmp = tempfile.mkdtemp(prefix="pbt-")
    running = {}
    results = []
    violation = None
    errors = []
    qi = 0
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while (qi < len(tasks) or running) and violation is None:
            while qi < len(tasks) and len(running) < nproc:
                idx, k, m, sd = tasks[qi]
                out = os.path.join(tmp, f"o{qi}")
                log = os.path.join(tmp, f"l{qi}")
                pid = os.fork()
                if pid == 0:
                    try:
                        worker(prop, idx, k, m, sd, budget, shrink_s, out, log)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(3)
                    os._exit(0)
                running[pid] = (qi, out, log)
                qi += 1
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic()-t0 > hard:
                    errors.append("time limit of the whole check reached")
                    break
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            i, out, log = running.pop(pid)
            name = subs[tasks[i][0]].name
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["violation"]:
                    violation = (name, r["violation"]["case"],
                                 r["violation"]["msg"])
                elif r["error"]:
                    errors.append(f"{name}: {r['error']}")
            elif os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                case = read_log(log)
                if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT,
                           signal.SIGFPE, signal.SIGILL) and case is not None:
                    violation = (name, case, f"the process died by signal {sig}")
                elif sig == signal.SIGPROF and case is not None:
                    violation = (name, case, "not finished after "
                                 f"{CASE_CPU:g} s of CPU time")
                else:
                    errors.append(f"{name}: worker killed by signal {sig}")
            else:
                errors.append(f"{name}: worker exited with {status}")
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in running:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    wall = time.monotonic()-t0
    hashes = {}
    events = {}
    knowns = {}
    per = {}
    samples = []
    for r in results:
        hashes.setdefault(r["sub"], set()).update(r["hashes"])
        p = per.setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=0,
                                          skipped_by_time_budget=0))
        p["evaluations"] += r["evaluations"]
        p["skipped_by_time_budget"] += r["skipped"]
        for k, v in r["events"].items():
            e = events.setdefault(r["sub"], {})
            e[k] = e.get(k, 0)+v
        knowns.update(r["known"])
        if len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            samples.extend(r["samples"][:1])
    for k in per:
        per[k]["distinct_nontrivial"] = len(hashes[k])
        if k in events:
            per[k]["classes"] = dict(sorted(events[k].items()))
    rule = "; ".join(f"{s.name}: {s.rule}" for s in subs)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per.values()),
            rule=("Cases are drawn by Hypothesis strategies from the seed; a "
                  "case counts once (by content) if the subcheck's rule makes "
                  "it non-trivial. " + rule),
            samples=samples[:12],
            subchecks=per,
        ),
        wall_s=round(wall, 3),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop+".json")
    with open(path+".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path+".tmp", path)

    if verbose or os.environ.get("PBT_VERBOSE"):
        walls = {}
        for r in results:
            walls[r["sub"]] = walls.get(r["sub"], 0)+r.get("wall", 0)
        for k, p in per.items():
            print(f"  {k}: {p} cpu={walls[k]:.1f}s")
    if violation:
        name, case, msg = violation
        rp = write_replay(prop, name, case, msg, seed)
        print(f"{prop}/{name}: {msg}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors[:1]:
            print("harness error: "+e[-2500:], file=sys.stderr)
        return 2
    for id, what in load_known(prop).items():
        if id in knowns:
            print(f"KNOWN-FINDING: property={prop} {id}: {what}")
    print(f"{prop}: held on {ev['coverage']['evaluations']} cases "
          f"({ev['coverage']['distinct_nontrivial']} distinct non-trivial), "
          f"{wall:.1f} s")
    return 0
