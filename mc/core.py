"""Exhaustive exploration of the real vispy/GSP code against reference models.

Two exploration drivers, both deciding by complete enumeration within stated bounds:

* `Run.cases(items, fn)`      every element of a finite domain is executed on the real code
                              and compared with the reference (`fn` raises `Violation`).
* `Run.explore(System, ...)`  breadth-first search over operation histories.  Every history is
                              replayed from scratch on fresh real objects in lock step with the
                              model; states are merged by `System.key()` (the canonical model and
                              observed implementation state), or never when key() is None.

Work is spread over forked workers; nothing here uses randomness.
"""
import hashlib, itertools, json, os, pickle, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSP_REPO", "/repo")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("no result within the time limit (does the operation terminate?)")


def describe_exc(e):
    """One-line description of an exception raised by the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = " at %s:%s" % (os.path.relpath(fr.filename, REPO), fr.name)
            break
    return "%s: %s%s" % (type(e).__name__, str(e)[:300], where)


def from_repo(e):
    """Was the exception raised while the code under test was running?"""
    tb = traceback.extract_tb(e.__traceback__)
    return any(fr.filename.startswith(REPO + os.sep) for fr in tb)


def guarded(fn, *args, limit=60):
    """Runs fn; maps every problem caused by the code under test to Violation."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*args)
    except Violation:
        raise
    except HarnessError:
        raise
    except Timeout as e:
        raise Violation("does not terminate: %s" % e)
    except RecursionError as e:
        raise Violation("unbounded recursion: %s" % describe_exc(e))
    except Exception as e:
        raise Violation("unexpected exception " + describe_exc(e) + "\n" +
                        "".join(traceback.format_exception(e))[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def isolated(fn, *args):
    """Runs fn(*args) in a forked child (pristine interpreter state) and returns its result."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", guarded(fn, *args))
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:      # noqa
                out = ("error", "".join(traceback.format_exception(e)))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(("error", "unpicklable result: %r" % (e,)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died while executing the history")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise HarnessError(val)
    return val


# ---------------------------------------------------------------- parallel map
def ncpu():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4


def pmap(fn, items, nproc=None, chunk=None):
    """Ordered parallel map over forked workers (fn may be a closure)."""
    items = list(items)
    n = min(nproc or ncpu(), max(1, len(items)))
    if n == 1 or len(items) < 4:
        return [fn(x) for x in items]
    chunk = chunk or max(1, min(64, len(items) // (n * 4) or 1))
    chunks = [(i, items[i:i + chunk]) for i in range(0, len(items), chunk)]
    sys.stdout.flush(); sys.stderr.flush()
    # static round-robin assignment of chunks: deterministic, no shared queue needed
    procs = []
    for k in range(n):
        mine = chunks[k::n]
        if not mine:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for _, rr in procs:
                    pass
                out = []
                try:
                    for i, xs in mine:
                        out.append((i, [fn(x) for x in xs]))
                    data = pickle.dumps(("ok", out))
                except BaseException as e:  # noqa
                    data = pickle.dumps(("error", "".join(traceback.format_exception(e))))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    res = {}
    err = None
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        bufs[r] = []
        sel.register(r, selectors.EVENT_READ, pid)
    while sel.get_map():
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 20)
            if d:
                bufs[key.fd].append(d)
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
    for pid, r in procs:
        os.waitpid(pid, 0)
        data = b"".join(bufs[r])
        if not data:
            err = err or "a worker process died"
            continue
        kind, val = pickle.loads(data)
        if kind == "error":
            err = err or val
        else:
            for i, out in val:
                res[i] = out
    if err:
        raise HarnessError(err)
    flat = []
    for i, _ in chunks:
        flat.extend(res[i])
    return flat


# ---------------------------------------------------------------- known findings
def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            # finding: property=<id> case=<key> :: <what fails>
            head, _, what = line[len("finding:"):].partition("::")
            fields = dict(f.split("=", 1) for f in head.split())
            known[(fields["property"], fields["case"])] = what.strip()
    return known


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


class System:
    """One instance = one history being executed on the real code, in lock step with a model."""
    isolate = False            # fork a child per history

    def ops(self):             # list of JSON-able operations enabled now
        raise NotImplementedError

    def do(self, op):          # executes op on code and model, raises Violation on disagreement
        raise NotImplementedError

    def key(self):             # canonical state, or None for "never merge"
        return None

    def finish(self):          # end-of-history checks
        pass

    def close(self):
        pass


class Run:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "0") or 0)
        except ValueError:
            self.seed = 0
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.samples = []
        self.sections = {}
        self.violations = []       # (section, case, message)
        self.known_hit = {}
        self.known = load_known()
        self.assumptions = []
        self.bounds = {}
        self.replay = None         # (section, case) when replaying
        self.thorough = self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # -------------------------------------------------------- violations
    def report(self, section, case, msg):
        k = case_key([section, case])
        if (self.pid, k) in self.known:
            self.known_hit[k] = self.known[(self.pid, k)]
            return
        self.violations.append((section, case, msg))

    # -------------------------------------------------------- finite domain
    def cases(self, section, items, fn, isolate=False, limit=60, weight=None, stop=25):
        """fn(case) -> outcome (hashable/str, used to count distinct observed outcomes)."""
        items = list(items)
        if self.replay is not None:
            if self.replay[0] != section:
                return
            items = [self.replay[1]]
        t0 = time.time()

        def one(case):
            try:
                if isolate:
                    out = isolated(fn, case)
                else:
                    out = guarded(fn, case, limit=limit)
                return ("ok", _digest(out))
            except Violation as e:
                return ("violation", str(e))

        res = pmap(one, items)
        nv = 0
        outs = set()
        for case, (kind, val) in zip(items, res):
            if kind == "violation":
                nv += 1
                if nv <= stop:
                    self.report(section, case, val)
            else:
                outs.add(val)
        self.evaluations += len(items)
        self.transitions += len(items)
        self.traces += len(items)
        self.states += len(outs)
        for o in outs:
            self.outcomes.add((section, o))
        self.sections[section] = dict(cases=len(items), distinct_outcomes=len(outs),
                                      wall_s=round(time.time() - t0, 2))
        if items:
            self.samples.append({"section": section, "case": items[len(items) // 2]})

    # -------------------------------------------------------- histories
    def explore(self, section, make, depth, max_states=None, limit=60):
        """Exhaustive BFS over histories of length <= depth (merging by key())."""
        if self.replay is not None:
            if self.replay[0] != section:
                return
            hist = [_tup(o) for o in self.replay[1]]
            try:
                self._run_history(make, hist, limit)
            except Violation as e:
                self.report(section, list(hist), str(e))
            return
        t0 = time.time()
        seen = set()
        frontier = []
        states = transitions = traces = 0
        ok, key, ops = self._try(make, [], limit)
        if not ok:
            self.report(section, [], key)
            self.evaluations += 1
            return
        seen.add(key)
        states = 1
        frontier = [([], ops)]
        level = 0
        nviol = 0
        capped = False
        outcomes = set([_digest(key)])
        sample = []
        while frontier and level < depth:
            work = [(h, o) for h, ops_ in frontier for o in ops_]
            last = level + 1 >= depth

            def one(w):
                h, o = w
                return self._try(make, h + [o], limit, want_ops=not last)
            res = pmap(one, work)
            nxt = []
            for (h, o), (ok, key, ops) in zip(work, res):
                transitions += 1
                traces += 1
                if not ok:
                    nviol += 1
                    if nviol <= 25:
                        self.report(section, h + [o], key)
                    continue
                if key is None:
                    states += 1
                    nxt.append((h + [o], ops))
                elif key not in seen:
                    seen.add(key)
                    states += 1
                    outcomes.add(_digest(key))
                    nxt.append((h + [o], ops))
            if nxt:
                sample = nxt[len(nxt) // 2][0]
            frontier = nxt
            level += 1
            if nviol:
                break
            if max_states and states > max_states:
                capped = level < depth and bool(frontier)
                break
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.evaluations += traces
        self.sections[section] = dict(states=states, transitions=transitions, histories=traces,
                                      depth_completed=level, depth_bound=depth, capped=capped,
                                      fixpoint=not frontier, wall_s=round(time.time() - t0, 2))
        self.samples.append({"section": section, "history": sample})

    def _run_history(self, make, hist, limit):
        def go(hist):
            s = make()
            try:
                for o in hist:
                    s.do(o)
                s.finish()
                return s.key(), [o for o in s.ops()]
            finally:
                s.close()
        if getattr(make, "isolate", False):
            return isolated(go, hist)
        return guarded(go, hist, limit=limit)

    def _try(self, make, hist, limit, want_ops=True):
        try:
            k, ops = self._run_history(make, hist, limit)
            if k is not None:
                k = _digest(k)
            return True, k, ops if want_ops else []
        except Violation as e:
            return False, str(e), []

    # -------------------------------------------------------- reporting
    def finish(self, rule="", level="model_checking"):
        wall = time.time() - self.t0
        for k, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        lines = []
        if self.violations:
            d = os.path.join(VERIF, "replays", self.pid)
            os.makedirs(d, exist_ok=True)
            for section, case, msg in self.violations[:5]:
                path = os.path.join(d, case_key([section, case]) + ".json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, section=section, case=case, message=msg),
                              f, indent=1, default=str)
                lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
                print(lines[-1])
                print("  section %s, history/case: %s" % (section, json.dumps(case, default=str)[:600]))
                print("  " + msg.strip().replace("\n", "\n  ")[:1500])
        if self.replay is None:
            cov = dict(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces,
                       evaluations=self.evaluations,
                       distinct_nontrivial=len(self.outcomes) or self.states,
                       rule=rule or "exhaustive enumeration of the stated alphabet up to the stated bound; "
                                    "non-trivial = distinct observed outcome/state",
                       sections=self.sections,
                       exhaustive=not any(s.get("capped") for s in self.sections.values()),
                       bounds=self.bounds,
                       samples=self.samples[:12])
            ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                      assumptions=self.assumptions, wall_s=round(wall, 3),
                      violations=len(self.violations))
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
            print("%s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs %s" % (
                self.pid, self.states, self.transitions, self.traces, len(self.violations), wall,
                json.dumps({k: {a: b for a, b in v.items()} for k, v in self.sections.items()})))
        else:
            print("replay: %s" % ("reproduced" if self.violations else "no violation"))
        return 1 if self.violations else 0


def _tup(o):
    return tuple(o) if isinstance(o, list) else o


def _digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:20]
