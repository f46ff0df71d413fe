"""Runner of the runtime monitors.

A check is a module with a class deriving from `Check`.  It generates cases
(JSON values), executes the real code from /repo on each under the monitors of
`Mon`, and its oracle reports violations through `Mon.fail`.  This module does
everything else: seeding, parallel execution, watchdogs, shrinking, replay
files, known findings, evidence and the exit code.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NPROC = int(os.environ.get("VF_NPROC", "0")) or min(8, os.cpu_count() or 2)

REPO_PATHS = [
    REPO + "/src",
    REPO + "/wip/keywordparser",
    REPO + "/wip/determinesystem",
    REPO + "/wip/setenvironment/src",
    REPO + "/wip/genconfig",
    REPO + "/wip/loadenv",
]


class Violation(Exception):
    """Raised by Mon.fail: the oracle refuted the property on this case."""

    def __init__(self, mech, msg):
        super().__init__(mech, msg)
        self.mech, self.msg = mech, msg


class StepBudget(BaseException):
    """Raised inside the monitored code when it exceeds its logical step budget."""


class Watchdog(BaseException):
    """Wall-clock watchdog: inconclusive, never a verdict."""


# ---------------------------------------------------------------------------
#  Step and coverage monitor (sys.monitoring)
# ---------------------------------------------------------------------------

class StepMonitor:
    """Counts calls and jumps executed in /repo code and records its lines."""

    TOOL = 4

    def __init__(self):
        self.steps = 0
        self.limit = 1 << 62
        self.lines = set()
        self.exc_lines = 0
        self.on = False

    def install(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vf")
        E = m.events
        prefix = REPO + "/"
        dis = m.DISABLE

        def step(code, *_):
            if not code.co_filename.startswith(prefix):
                return dis
            self.steps += 1
            if self.steps > self.limit:
                raise StepBudget()

        def line(code, lineno):
            if code.co_filename.startswith(prefix):
                self.lines.add((code.co_filename[len(prefix):], lineno))
            return dis

        m.register_callback(self.TOOL, E.PY_START, step)
        m.register_callback(self.TOOL, E.JUMP, step)
        m.register_callback(self.TOOL, E.LINE, line)
        m.set_events(self.TOOL, E.PY_START | E.JUMP | E.LINE)
        self.on = True


STEP = StepMonitor()


# ---------------------------------------------------------------------------
#  Per-case monitor handle
# ---------------------------------------------------------------------------

def klass(what):
    """The kind of an oracle evaluation: its name without the case's own data."""
    return re.split(r"[\[({'\"]", what, maxsplit=1)[0].strip()[:60] or "other"


class Mon:
    """What a check's `run` sees: event counters, distinct states, verdicts."""

    def __init__(self, scratch):
        self.events = Counter()
        self.states = set()
        self.known = {}
        self.scratch = scratch
        self._n = 0

    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """Record a distinct non-trivial observed state."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.states.add(h)

    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def finding(self, mech, msg):
        """A mismatch fully explained by a specific mechanism: the parent
        decides whether it is a listed known finding or a violation."""
        self.known.setdefault(mech, msg)
        self.events["finding:" + mech] += 1

    def eq(self, what, got, want, mech=None):
        self.events["oracle:" + klass(mech or what)] += 1
        if got != want:
            self.fail(mech or what, f"{what}: observed {short(got)} expected {short(want)}")

    def true(self, what, cond, detail=""):
        self.events["oracle:" + klass(what)] += 1
        if not cond:
            self.fail(what, f"{what}: {detail}")

    def dir(self, name=None):
        """A fresh scratch directory for this case."""
        self._n += 1
        d = os.path.join(self.scratch, name or f"d{self._n}")
        os.makedirs(d)
        return d

    @contextlib.contextmanager
    def quiet(self):
        """Capture everything the code prints."""
        buf = io.StringIO()
        err = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
            yield buf

    def call(self, fn, *args, **kw):
        """Run code under test; (tag, value) with output captured in self.out."""
        buf = io.StringIO()
        err = io.StringIO()
        self.events["calls"] += 1
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
                v = fn(*args, **kw)
            r = ("ok", v)
        except (StepBudget, Watchdog, Violation):
            raise
        except KeyboardInterrupt as e:
            r = ("exc", e)
        except SystemExit as e:
            r = ("exit", e)
        except BaseException as e:
            r = ("exc", e)
        finally:
            self.out = buf.getvalue()
            self.err = err.getvalue()
        return r

    def expect_ok(self, what, fn, *args, **kw):
        t, v = self.call(fn, *args, **kw)
        self.events["oracle:" + klass(what)] += 1
        if t != "ok":
            self.fail("unexpected-exception", f"{what}: raised {describe(v)}")
        return v

    def expect_exc(self, what, types, fn, *args, **kw):
        t, v = self.call(fn, *args, **kw)
        self.events["oracle:" + klass(what)] += 1
        if t == "ok":
            self.fail("missing-exception",
                      f"{what}: returned {short(v)} instead of raising {names(types)}")
        if not isinstance(v, types):
            self.fail("wrong-exception", f"{what}: raised {describe(v)} instead of {names(types)}")
        return v


def names(types):
    if not isinstance(types, tuple):
        types = (types, )
    return "/".join(t.__name__ for t in types)


def short(v, n=600):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if f.filename.startswith(REPO):
            where = f" at {os.path.relpath(f.filename, REPO)}:{f.name}"
            break
    return f"{type(e).__name__}({short(str(e), 300)}){where}"


# ---------------------------------------------------------------------------
#  Check base class
# ---------------------------------------------------------------------------

class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    quick = 2000          # cases per tier
    thorough = 40000
    step_limit = 100_000_000
    needs = {}            # event name -> minimum count, else inconclusive
    anchor_files = []
    watchdog_s = 240

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, case, mon):
        raise NotImplementedError

    def directed(self):
        return []

    def prepare(self):
        """Called once in every worker before any case."""

    def valid(self, case):
        return True


def rng_for(seed, cid, i):
    h = hashlib.blake2b(f"{seed}:{cid}:{i}".encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, "big"))


# ---------------------------------------------------------------------------
#  Executing cases
# ---------------------------------------------------------------------------

_check = None
_base = None
_cwd0 = None
_env0 = None


def _alarm(signum, frame):
    raise Watchdog()


def setup_process(check, base):
    global _check, _base, _cwd0, _env0
    import logging
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(1000)
    _check, _base = check, base
    if not STEP.on:
        STEP.install()
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
        check.prepare()
    _cwd0 = os.path.join(base, f"cwd{os.getpid()}")
    os.makedirs(_cwd0, exist_ok=True)
    os.chdir(_cwd0)
    _env0 = dict(os.environ)


def _restore_process():
    if os.environ != _env0:
        for k in list(os.environ):
            if k not in _env0:
                del os.environ[k]
        for k, v in _env0.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
    os.chdir(_cwd0)


def run_case(case):
    """Returns (kind, mech, msg, mon); kind in ok / violation / inconclusive."""
    scratch = tempfile.mkdtemp(prefix="c", dir=_base)
    mon = Mon(scratch)
    STEP.steps = 0
    STEP.limit = _check.step_limit
    signal.alarm(_check.watchdog_s)
    out0, err0 = sys.stdout, sys.stderr
    try:
        _check.run(case, mon)
        res = ("ok", None, None)
    except Violation as v:
        res = ("violation", v.mech, v.msg)
    except StepBudget:
        res = ("violation", "step-budget",
               f"code under test exceeded {_check.step_limit} logical steps on one small case")
    except Watchdog:
        res = ("inconclusive", "watchdog", "wall-clock watchdog fired")
    except (MemoryError, OSError) as e:
        if any(f.filename.startswith(REPO) for f in traceback.extract_tb(e.__traceback__)):
            res = ("violation", "unexpected-exception", describe(e))
        else:
            res = ("inconclusive", "harness-os-error", traceback.format_exc())
    except Exception as e:
        # The oracle itself could not digest what the code under test produced.
        res = ("violation", "unexpected-observation",
               f"{describe(e)} while evaluating the observation: " + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        STEP.limit = 1 << 62
        sys.stdout, sys.stderr = out0, err0
        _restore_process()
        shutil.rmtree(scratch, ignore_errors=True)
    mon.events["steps"] += STEP.steps
    return res + (mon, )


def _load_known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) mechanism=(\S+) (.*)", line)
                if m:
                    out.append(m.groups())
    return out


def known_for(cid):
    return {m: what for p, m, what in _load_known() if p == cid}


def worker(check, base, seed, lo, hi, stride, deadline, q, stop):
    try:
        setup_process(check, base)
        known = known_for(check.id)
        ev, states, findings, viol, inc, samples = Counter(), set(), {}, [], [], []
        done = 0
        for i in range(lo, hi, stride):
            if stop.is_set():
                break
            if deadline and time.monotonic() > deadline:
                break
            case = check.gen(rng_for(seed, check.id, i), i)
            kind, mech, msg, mon = run_case(case)
            done += 1
            ev.update(mon.events)
            states |= mon.states
            for m, w in mon.known.items():
                if m in known:
                    findings.setdefault(m, w)
                elif kind == "ok":
                    kind, mech, msg = "violation", m, w
            if kind == "violation":
                viol.append((i, case, mech, msg))
                stop.set()
                break
            if kind == "inconclusive":
                inc.append((i, mech, msg))
            if len(samples) < 1 and done > 3:
                samples.append(case)
        q.put(("ok", dict(done=done, ev=ev, states=states, findings=findings, viol=viol,
                          inc=inc, samples=samples, lines=STEP.lines)))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO) for f in tb)
        q.put(("dead", ("violation" if in_repo else "inconclusive", traceback.format_exc())))


# ---------------------------------------------------------------------------
#  Shrinking (in a child process)
# ---------------------------------------------------------------------------

def _reproduces(case, mechs):
    try:
        if not _check.valid(case):
            return None
        kind, mech, msg, mon = run_case(case)
    except Exception:
        return None
    if kind == "violation" and mech in mechs:
        return (mech, msg)
    for m, w in mon.known.items():
        if m in mechs:
            return (m, w)
    return None


def _candidates(v, path=()):
    """Smaller variants of a JSON value, as (path, operation)."""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for s in range(0, n, k):
                yield path, ("del", s, min(n, s + k))
            k //= 2
        for i, x in enumerate(v):
            yield from _candidates(x, path + (i, ))
    elif isinstance(v, dict):
        for k2, x in v.items():
            yield from _candidates(x, path + (k2, ))
    elif isinstance(v, str) and len(v) > 1:
        yield path, ("set", v[:len(v) // 2])
        yield path, ("set", v[1:])
        yield path, ("set", v[:-1])
    elif isinstance(v, bool):
        if v:
            yield path, ("set", False)
    elif isinstance(v, int) and v > 0:
        yield path, ("set", 0)
        yield path, ("set", v // 2)


def _apply(case, path, op):
    case = json.loads(json.dumps(case))
    tgt = case
    if op[0] == "del":
        for p in path:
            tgt = tgt[p]
        if not tgt[op[1]:op[2]]:
            return None
        del tgt[op[1]:op[2]]
    else:
        for p in path[:-1]:
            tgt = tgt[p]
        tgt[path[-1]] = op[1]
    return case


def shrink_child(check, base, case, mech, msg, budget, q):
    # Keep the same failure mechanism so that the witness explains the report.
    try:
        setup_process(check, base)
        end = time.monotonic() + budget
        best = (case, mech, msg)
        mechs = {mech}
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for path, op in list(_candidates(best[0])):
                if time.monotonic() > end:
                    break
                try:
                    c = _apply(best[0], path, op)
                except (IndexError, KeyError, TypeError):
                    continue
                if c is None:
                    continue
                r = _reproduces(c, mechs)
                if r:
                    best = (c, ) + r
                    progress = True
        q.put(best)
    except BaseException:
        q.put((case, mech, msg))


def shrink(check, base, case, mech, msg, budget=12.0):
    q = mp.Queue()
    p = mp.Process(target=shrink_child, args=(check, base, case, mech, msg, budget, q))
    p.start()
    try:
        best = q.get(timeout=budget + 60)
    except Exception:
        best = (case, mech, msg)
    p.join(5)
    if p.is_alive():
        p.kill()
    return best


# ---------------------------------------------------------------------------
#  Main
# ---------------------------------------------------------------------------

def repo_loc(files):
    """Executable lines of the anchored files (for the coverage ratio)."""
    out = set()
    for f in files:
        p = os.path.join(REPO, f)
        try:
            with open(p) as fh:
                co = compile(fh.read(), p, "exec")
        except Exception:
            continue
        todo = list(c for c in co.co_consts if hasattr(c, "co_lines"))
        while todo:
            c = todo.pop()
            todo += [x for x in c.co_consts if hasattr(x, "co_lines")]
            for _, _, ln in c.co_lines():
                if ln and ln != c.co_firstlineno:
                    out.add((f, ln))
    return out


def write_replay(check, tier, seed, case, mech, msg, index):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{check.id}.json")
    with open(p, "w") as f:
        json.dump(dict(property=check.id, tier=tier, seed=seed, index=index, mechanism=mech,
                       message=msg, case=case,
                       how=f"cd {VERIF} && ./check {check.id} --replay {p}"), f, indent=1)
    return p


def main(check, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    ncases = None
    it = iter(argv)
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--cases":
            ncases = int(next(it))
        elif a == "--noshrink":
            check.noshrink = True
    base = tempfile.mkdtemp(prefix=f"vf-{check.id}-")
    try:
        return _main(check, tier, seed, replay, ncases, base, t0)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)


def _main(check, tier, seed, replay, ncases, base, t0):
    known = known_for(check.id)
    if replay:
        with open(replay) as f:
            case = json.load(f)["case"]
        setup_process(check, base)
        kind, mech, msg, mon = run_case(case)
        for m, w in mon.known.items():
            if m not in known and kind == "ok":
                kind, mech, msg = "violation", m, w
        print(f"replay: {kind} {mech or ''}\n{msg or ''}")
        return 1 if kind == "violation" else 0

    total = ncases or (check.quick if tier == "quick" else check.thorough)
    directed = check.directed()
    ev, states, findings, lines, samples = Counter(), set(), {}, set(), []
    viol, inc = [], []
    evaluations = 0

    class Directed(type(check)):
        def gen(self, rng, i):
            return directed[i]

    stop = mp.Event()
    deadline = t0 + (600 if tier == "quick" else 3 * 3600)
    procs = []
    q = mp.Queue()
    if directed:
        d = Directed.__new__(Directed)
        d.__dict__.update(check.__dict__)
        n = min(2, len(directed))
        for k in range(n):
            procs.append(mp.Process(target=worker,
                                    args=(d, base, seed, k, len(directed), n, None, q, stop)))
    n = max(1, min(NPROC, total))
    for k in range(n):
        procs.append(mp.Process(target=worker,
                                args=(check, base, seed, k, total, n, deadline, q, stop)))
    for p in procs:
        p.start()
    got = 0
    import queue as _queue
    dead = []
    while got < len(procs):
        try:
            tag, r = q.get(timeout=5)
        except _queue.Empty:
            if all(not p.is_alive() for p in procs):
                try:
                    tag, r = q.get(timeout=2)
                except _queue.Empty:
                    dead.append(("inconclusive", "a worker ended without a report"))
                    break
            else:
                crashed = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
                if crashed:
                    dead.append(("inconclusive",
                                 f"a worker died with exit code {crashed[0].exitcode}"))
                    stop.set()
                    got += len(crashed)
                    procs = [p for p in procs if p not in crashed]
                continue
        got += 1
        if tag == "dead":
            dead.append(r)
            continue
        evaluations += r["done"]
        ev.update(r["ev"])
        states |= r["states"]
        for m, w in r["findings"].items():
            findings.setdefault(m, w)
        viol += r["viol"]
        inc += r["inc"]
        samples += r["samples"]
        lines |= r["lines"]
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()

    code = 0
    message = None
    for kind, tb in dead:
        if kind == "violation" and not viol:
            viol.append((None, None, "cannot-load", tb))
        elif kind == "inconclusive":
            inc.append((None, "worker", tb))
    if viol:
        index, case, mech, msg = viol[0]
        if case is not None and not getattr(check, "noshrink", False):
            case, mech, msg = shrink(check, base, case, mech, msg)
        path = write_replay(check, tier, seed, case, mech, msg, index)
        print(f"violated: {check.id} mechanism={mech}")
        print(msg if len(msg) < 4000 else msg[:4000] + "...")
        print(f"VIOLATION property={check.id} replay={path}")
        code = 1
    elif inc:
        print(f"INCONCLUSIVE property={check.id}: {len(inc)} cases, first: {inc[0][1]}: {inc[0][2]}")
        code = 2
    else:
        for name, least in check.needs.items():
            if ev[name] < least:
                print(f"INCONCLUSIVE property={check.id}: monitor event {name!r} seen {ev[name]} "
                      f"times, {least} needed")
                code = 2
        for m in findings:
            print(f"KNOWN-FINDING: property={check.id} {m}: {known[m]}")

    anchored = repo_loc(check.anchor_files)
    hit = lines & anchored
    wall = round(time.monotonic() - t0, 2)
    evidence = dict(
        property=check.id, tier=tier, seed=seed, level=check.level, wall_s=wall,
        violations=len(viol),
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(states),
            rule=check.rule,
            samples=[_trim(s) for s in samples[:3]],
            events=dict(sorted(ev.most_common(150))),
            anchored_lines_executed=len(hit),
            anchored_lines_total=len(anchored),
            repo_files_executed=sorted({f for f, _ in lines}),
            known_findings_observed=sorted(findings),
            inconclusive_cases=len(inc),
        ),
        assumptions=list(check.assumptions),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{check.id} {tier} seed={seed}: {evaluations} executions, {len(states)} distinct "
          f"non-trivial states, {sum(v for k, v in ev.items() if k.startswith('oracle:'))} oracle "
          f"evaluations, {len(hit)}/{len(anchored)} anchored lines, {wall}s, exit {code}")
    return code


def _trim(v, n=3000):
    s = json.dumps(v, ensure_ascii=False)
    return v if len(s) <= n else s[:n] + "..."
