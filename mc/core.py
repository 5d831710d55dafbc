"""Exhaustive exploration of the real code: choice trees, breadth-first state spaces, reporting.

Two explorers, both deterministic and both exhaustive within the bounds the caller states:

* ``explore(name, body)`` -- stateless search.  ``body(ch)`` is one complete execution against the real
  code; every nondeterministic decision (which operation, which operand, which solver answer, which
  fault) is drawn with ``ch.pick(menu)``.  All choice sequences are executed.
* ``bfs(name, ops, step, depth)`` -- explicit-state search.  A state is the operation history that
  reaches it; ``step(history)`` rebuilds real object + reference model, checks the invariant after
  the last operation and returns a canonical form used for deduplication (or None: do not expand).

Work is split over forked processes; counters, violations and visited states are merged.
"""
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 150
SOFT_BUDGET = float(os.environ.get("VERIF_BUDGET_S", "0"))


class Violation(Exception):
    "The property is broken in this execution. `sig` identifies what fails (for known findings)."
    def __init__(self, sig, msg):
        super().__init__("%s: %s" % (sig, msg))
        self.sig, self.msg = sig, msg


class Skip(Exception):
    "This choice sequence is outside the space (pruned); not counted as an execution."


class CaseTimeout(Exception):
    pass


class HarnessError(Exception):
    "The harness itself misbehaved (replay divergence): a hard error, never a violation."


def _alarm(_sig, _frm):
    raise CaseTimeout("execution did not finish within %s s" % CASE_TIMEOUT)


class Chooser:
    "Hands out the decisions of one execution: first the prefix, then always choice 0."
    def __init__(self, prefix=(), labels=False):
        self.prefix = list(prefix)
        self.taken, self.arity, self.labels = [], [], []

    def index(self, n):
        if n <= 0:
            raise HarnessError("empty menu")
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError("replay divergence: choice %s of %s at point %s" % (c, n, i))
        self.taken.append(c)
        self.arity.append(n)
        return c

    def pick(self, menu):
        menu = menu if isinstance(menu, (list, tuple)) else list(menu)
        i = self.index(len(menu))
        self.labels.append(_short(menu[i]))
        return menu[i]

    def flag(self):
        return bool(self.pick((False, True)))

    def subset(self, items):
        return [x for x in items if self.flag()]


def _short(x):
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        return x[0][:100]
    if callable(x) and hasattr(x, "__name__"):
        return x.__name__
    return str(x)[:120]


class Tally:
    "What one process covered."
    def __init__(self):
        self.states, self.transitions, self.execs, self.traces, self.skipped = set(), 0, 0, 0, 0
        self.violations, self.samples, self.outcomes = [], [], {}
        self.extra = {}
        self.known = {}

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.execs += o.execs
        self.traces += o.traces
        self.skipped += o.skipped
        self.violations += o.violations
        for s in o.samples:
            if len(self.samples) < 24:
                self.samples.append(s)
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v


TALLY = Tally()


def state(key):
    TALLY.states.add(hash(key))


def transition(n=1):
    TALLY.transitions += n


def trace(n=1):
    TALLY.traces += n


def outcome(name):
    TALLY.outcomes[name] = TALLY.outcomes.get(name, 0) + 1


def sample(s):
    if len(TALLY.samples) < 3:
        TALLY.samples.append(str(s)[:400])


def fail(sig, msg):
    raise Violation(sig, msg)


def require(cond, sig, msg):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


_IN_CASE = []


def guarded(fn, *args):
    "Run one execution; returns (result, (sig, msg, tb) or None)."
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return fn(*args), None
    except Violation as e:
        return None, (e.sig, e.msg, "")
    except (Skip, HarnessError):
        raise
    except CaseTimeout as e:
        return None, ("hang", str(e), traceback.format_exc(limit=-8))
    except (Exception, SystemExit) as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = next(("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb)
                      if "gpkit" in f.filename), tb[-1].name if tb else "?")
        return None, ("crash %s in %s" % (type(e).__name__, where),
                      "unexpected %s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc(limit=-10))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_one(ctx, name, body, prefix):
    ch = Chooser(prefix)
    ctx.before_case()
    try:
        _, bad = guarded(body, ch)
    except Skip:
        TALLY.skipped += 1
        return ch
    if len(ch.taken) < len(prefix) and not bad:
        raise HarnessError("%s: execution consumed %s of %s recorded choices"
                           % (name, len(ch.taken), len(prefix)))
    TALLY.execs += 1
    TALLY.traces += 1
    if bad:
        ctx.record(name, ch.taken, ch.labels, bad)
    elif len(TALLY.samples) < 2:
        TALLY.samples.append("%s: %s" % (name, " | ".join(ch.labels)[:300]))
    return ch


def _dfs(ctx, name, body, root, deadline):
    "All executions whose choices start with root."
    prefix = list(root)
    while True:
        ch = _run_one(ctx, name, body, prefix)
        taken, arity = ch.taken, ch.arity
        i = len(taken) - 1
        while i >= len(root) and taken[i] + 1 >= arity[i]:
            i -= 1
        if i < len(root):
            return True
        prefix = taken[:i] + [taken[i] + 1]
        if len(TALLY.violations) >= ctx.max_viol:
            return True
        if deadline and time.time() > deadline:
            return False


_JOB = {}


def _call(i):
    global TALLY
    TALLY = Tally()
    try:
        ok = _JOB["fn"](_JOB["items"][i])
        return i, ok, TALLY, None
    except HarnessError as e:
        return i, False, TALLY, "HarnessError: %s" % e
    except BaseException:  # pylint: disable=broad-except
        return i, False, TALLY, traceback.format_exc()


def pmap(fn, items):
    "fn(item) for each item in forked workers, tallies merged; returns results in order."
    items = list(items)
    if not items:
        return []
    results = [None] * len(items)
    base = TALLY
    _JOB["fn"], _JOB["items"] = fn, items
    if NPROC == 1 or len(items) == 1:
        for i in range(len(items)):
            _, ok, t, err = _call(i)
            globals()["TALLY"] = base
            if err:
                raise HarnessError(err)
            base.merge(t)
            results[i] = ok
        return results
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(NPROC, len(items))) as pool:
        for i, ok, t, err in pool.imap_unordered(_call, range(len(items)), chunksize=1):
            if err:
                raise HarnessError(err)
            base.merge(t)
            results[i] = ok
            if FAILFAST and base.violations:
                raise FailFast
        pool.close()  # ended in order: terminating a pool can wait forever
        pool.join()
    return results


class FailFast(BaseException):
    "development aid (VERIF_FAILFAST=1): stop exploring at the first violation"


FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        budget = SOFT_BUDGET or (700 if self.quick else 0)
        self.deadline = self.t0 + budget if budget else None
        self.max_viol = 1 if FAILFAST else 40
        self.complete = True
        self.bounds = {}
        self.assumptions = []
        self.bodies = {}
        self.replaying = None
        self.per_explorer = {}
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]

    def before_case(self):
        from . import env
        env.reset()

    def record(self, name, choices, labels, bad):
        "A violation: counted against a listed known finding, or reported."
        for k in self.known:
            if k["explorer"] == name and k["sig"] == bad[0] and k.get("labels") in (None, labels):
                TALLY.known[k["what"]] = TALLY.known.get(k["what"], 0) + 1
                return
        TALLY.violations.append(dict(explorer=name, choices=choices, labels=labels, sig=bad[0], msg=bad[1], tb=bad[2]))

    def bound(self, **kw):
        self.bounds.update(kw)

    # -- stateless
    def explore(self, name, body, split=256):
        self.bodies[name] = body
        if self.replaying is not None or self.left_out(name):
            return
        e0, v0, t0 = TALLY.execs, len(TALLY.violations), time.time()
        # grow prefixes breadth-first until there are enough shards
        roots, leaves = [[]], []
        while roots and len(roots) + len(leaves) < split:
            nxt = []
            for r in roots:
                ch = Chooser(r)
                ch_ar = self._arity(name, body, r)
                if ch_ar is None:
                    leaves.append(r)
                else:
                    nxt += [r + [i] for i in range(ch_ar)]
            if not nxt:
                break
            roots = nxt
            if len(roots) > split:
                break
        shards = leaves + (roots if roots != [[]] or not leaves else [])
        shards = [s for s in shards]
        done = pmap(lambda r: _dfs(self, name, body, r, self.deadline), shards)
        if not all(done):
            self.complete = False
        self.per_explorer[name] = dict(executions=TALLY.execs - e0, violations=len(TALLY.violations) - v0,
                                       wall_s=round(time.time() - t0, 2))

    def _arity(self, name, body, prefix):
        "arity of the decision following prefix, or None if the execution ends there"
        class Stop(BaseException):
            pass

        class Probe(Chooser):
            def index(self, n):
                if len(self.taken) == len(self.prefix):
                    self.found = n
                    raise Stop
                return Chooser.index(self, n)
        ch = Probe(prefix)
        ch.found = None
        self.before_case()
        saved = globals()["TALLY"]
        globals()["TALLY"] = Tally()
        try:
            guarded(body, ch)
        except (Stop, Skip):
            pass
        finally:
            globals()["TALLY"] = saved
        return ch.found

    # -- explicit state
    def bfs(self, name, ops, step, depth, max_states=None, labels=None):
        """ops: list of operations (opaque).  step(history) -> canonical state or None.

        `step` replays the whole history on fresh objects, checking the last transition."""
        labels = labels or [_short(o) for o in ops]

        def replay_body(ch):
            hist = []
            while True:
                i = ch.index(len(ops) + 1)
                if i == 0:
                    break
                hist.append(i - 1)
                ch.labels.append(labels[i - 1])
            self.before_case()
            step([ops[i] for i in hist])
        self.bodies[name] = replay_body
        if self.replaying is not None or self.left_out(name):
            return
        t0, v0, tr0 = time.time(), len(TALLY.violations), TALLY.transitions
        self.before_case()
        first, bad = guarded(step, [])
        TALLY.execs += 1
        if bad:
            self.record(name, [0], [], bad)
            return
        seen = {hash(first)}
        frontier, level, reached = [[]], 0, [1]
        capped = False

        def expand(chunk):
            out = []
            for h in chunk:
                self.before_case()
                try:
                    c, bad = guarded(step, [ops[j] for j in h])
                except Skip:
                    TALLY.skipped += 1
                    continue
                TALLY.transitions += 1
                TALLY.traces += 1
                TALLY.execs += 1
                if bad:
                    self.record(name, [j + 1 for j in h] + [0], [labels[j] for j in h], bad)
                    if len(TALLY.violations) >= self.max_viol:
                        return out
                elif c is not None:
                    out.append((hash(c), h))
                if self.deadline and time.time() > self.deadline:
                    out.append((None, None))
                    break
            return out
        while frontier and level < depth:
            level += 1
            todo = [hist + [i] for hist in frontier for i in range(len(ops))]
            n = max(1, min(64 * len(ops), len(todo) // (NPROC * 4) + 1))
            chunks = [todo[i:i + n] for i in range(0, len(todo), n)]
            nxt = []
            for res in pmap(expand, chunks):
                for k, h in res:
                    if h is None:
                        self.complete = False
                        capped = True
                        continue
                    if k not in seen:
                        seen.add(k)
                        nxt.append(h)
            frontier = nxt
            reached.append(len(nxt))
            if frontier:
                TALLY.samples = TALLY.samples[:20] + ["%s depth %s: %s" % (name, level, " ; ".join(labels[j] for j in frontier[-1]))]
            if len(TALLY.violations) - v0 >= self.max_viol or capped:
                break
            if max_states and len(seen) > max_states:
                self.complete = False
                capped = True
                break
        for k in seen:
            TALLY.states.add(hash((name, k)))
        self.per_explorer[name] = dict(states=len(seen), transitions=TALLY.transitions - tr0, max_depth=level,
                                       frontier_by_depth=reached, closed=not frontier, capped=capped,
                                       wall_s=round(time.time() - t0, 2))

    # -- plain enumeration of independent cases, as a choice tree of depth one
    @staticmethod
    def left_out(name):
        "for development: VERIF_ONLY=text explores only what is named so"
        return os.environ.get("VERIF_ONLY", "") not in name

    def cases(self, name, menu, fn):
        menu = list(menu)

        def body(ch):
            return fn(ch.pick(menu))
        self.explore(name, body, split=max(256, min(len(menu), 4096)))


def load_known():
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def finish(ctx, out):
    "Classify violations, write replay + evidence, return the exit code."
    hit, fresh = TALLY.known, list(TALLY.violations)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]), file=out)
    fresh.sort(key=lambda v: (len(v["choices"]), v["explorer"], v["choices"]))
    rdir = os.path.join(VERIF, "replays")
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir) if os.path.isdir(rdir) else ():
        if old.startswith(ctx.pid + "-"):
            os.remove(os.path.join(rdir, old))
    shown = set()
    for v in fresh:
        if v["sig"] in shown or len(shown) >= int(os.environ.get("VERIF_SHOW", "5")):
            continue
        shown.add(v["sig"])
        path = os.path.join(rdir, "%s-%d.json" % (ctx.pid, len(shown)))
        v = dict(v, property=ctx.pid, how="./run.sh %s --replay %s" % (ctx.pid, path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path), file=out)
        print("  [%s] %s\n  via %s: %s" % (v["sig"], v["msg"], v["explorer"], " | ".join(map(str, v["labels"]))), file=out)
        if v["tb"]:
            print("  " + v["tb"].strip().replace("\n", "\n  "), file=out)
    nstates = len(TALLY.states) or TALLY.execs
    cov = dict(states=nstates, transitions=TALLY.transitions or TALLY.execs, traces_validated_against_impl=TALLY.traces,
               executions=TALLY.execs, pruned_sequences=TALLY.skipped, distinct_outcomes=dict(sorted(TALLY.outcomes.items(), key=str)),
               exhaustive=bool(ctx.complete and not fresh), bounds=ctx.bounds, explorers=ctx.per_explorer,
               samples=TALLY.samples[:12] or ["(none)"])
    cov.update(TALLY.extra)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 3), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d executions, %d states, %d transitions, %d outcomes, %s, %.1f s, %d violation(s)%s" % (
        ctx.pid, ctx.tier, TALLY.execs, nstates, cov["transitions"], len(TALLY.outcomes),
        "complete within bounds" if ctx.complete else "CAPPED", ev["wall_s"], len(fresh),
        ", known findings hit: %s" % hit if hit else ""), file=out)
    return 1 if fresh else 0
