"""Simulation core: virtual time, cooperative tasks (greenlets), seeded choices.

Exactly one Sim is active at a time in a process (module global `SIM`).  All
nondeterminism of a run comes from Sim.choose(); every choice is recorded in a
named stream so that a recording replays the run exactly.
"""
import gc
import heapq
import random
import zlib

from greenlet import greenlet, getcurrent

US = 1000
MS = 1000 * US
SEC = 1000 * MS

NEW, READY, RUNNING, BLOCKED, DEAD, WEDGED, STALLED = range(7)


class SimDead(BaseException):
    """Raised by seams used outside of a live run (late finalizers)."""


class HarnessGap(Exception):
    """The code under test used something the simulator does not model."""


# The unchanged agent stays below 200 000 statements and 2 000 switches
MAX_STATEMENTS = 4000000
MAX_SWITCHES = 50000


class Livelock(Exception):
    """The agent spins."""


class HarnessError(Exception):
    """The simulator itself is wrong."""


SIM = None          # the active Sim


def secs(x):
    return int(x * SEC)


# ---------------------------------------------------------------- preemption
# Instrumented code calls y(site) before every statement; site is a hash of where that is.

SITES = 1 << 13


class _Y(object):
    __slots__ = ("n", "hot")


_yc = _Y()
_yc.n = 1 << 60
_cold = bytearray(SITES)
_yc.hot = _cold
HUGE = 1 << 60


def y(site=0):
    _yc.n -= 1
    if _yc.n <= 0:
        _slow()
    elif _yc.hot[site]:
        _hot()
    return True


def _hot():
    """At a place where this run likes to be descheduled."""
    s = SIM
    if s is None or s.cur is None or s.noyield or s.quiet or _yc.n > HUGE >> 1:
        return
    s.hot_site()


def _slow():
    s = SIM
    if s is None or s.cur is None or s.noyield:
        _yc.n = HUGE
        return
    s.quantum_end()


class Task(object):
    __slots__ = ("sim", "g", "name", "proc", "state", "val", "token", "burn", "fn",
                 "ident", "prio", "why", "daemon", "spin", "is_agent", "wakes")

    def __init__(self, sim, fn, name, proc):
        self.sim = sim
        self.fn = fn
        self.name = name
        self.proc = proc
        self.state = NEW
        self.val = None
        self.token = 0
        self.burn = 0
        self.spin = 0
        self.why = ""
        self.prio = 0
        self.wakes = 0
        self.ident = 0
        self.g = greenlet(self._run, sim.hub)

    def _run(self, _arg=None):
        sim = self.sim
        try:
            self.fn()
        except SimDead:
            pass
        except HarnessGap as e:
            sim.gap(str(e))
        except HarnessError as e:
            sim.fail_harness("%s in task %s" % (e, self.name))
        except SystemExit:
            pass
        except BaseException as e:
            import traceback
            sim.fail_harness("task %s died: %s" % (self.name, traceback.format_exc()))
        self.state = DEAD
        self.fn = None
        sim.tasks.discard(self)
        return None        # returns to hub (parent)

    def __repr__(self):
        return "<Task %s>" % self.name


class Stream(object):
    __slots__ = ("rng", "rec", "pos", "replay")

    def __init__(self, seed, name, replay):
        self.rng = random.Random("%s/%s" % (seed, name))
        self.rec = []
        self.replay = replay
        self.pos = 0


class Sim(object):
    """One run."""

    def __init__(self, seed=0, strategy=None, replay=None, verbose=False, trace_limit=4000):
        self.seed = seed
        self.replay = replay          # None or dict stream -> list of ints
        self.streams = {}
        self.now = 1000 * SEC         # monotonic ns
        self.wall0 = 1760000000 * SEC
        self.heap = []
        self.seq = 0
        self.runq = []
        self.tasks = set()
        self.cur = None
        self.hub = getcurrent()
        self.noyield = 0
        self.strategy = strategy or {"kind": "rtb"}
        self.quiet = False
        self.alive = True
        self.violations = []          # (prop, msg)
        self.vkeys = set()
        self.gaps = []
        self.harness_errors = []
        self.h = 0                    # rolling event hash
        self.ilh = 0                  # interleaving hash
        self.nev = 0
        self.nswitch = 0
        self.npreempt = 0
        self.verbose = verbose
        self.trace = []
        self.trace_limit = trace_limit
        self.faults = {}
        self.probes = {}
        self.wedged = []
        self.ended = False
        self.end_reason = ""
        self.task_seq = 0
        self._pct_left = []
        self.ycount = 0
        self.max_events = 400000
        self.win_t = -1
        self.win_y = self.win_n = 0
        self.livelock = None
        self.events_run = 0
        self.lastq = 0
        self.stalled = 0
        self.stalls = []            # (when, how long)
        self.stop_flag = False
        self.seam_hooks = {}
        self._init_strategy()

    # ------------------------------------------------------------ choices
    def stream(self, name):
        st = self.streams.get(name)
        if st is None:
            rp = None
            if self.replay is not None:
                rp = self.replay.get(name, [])
            st = self.streams[name] = Stream(self.seed, name, rp)
        return st

    def choose(self, name, n):
        """An int in [0, n); 0 is the benign default."""
        st = self.streams.get(name)
        if st is None:
            st = self.stream(name)
        rp = st.replay
        if rp is not None:
            i = st.pos
            st.pos = i + 1
            v = rp[i] if i < len(rp) else 0
            return v if v < n else 0
        v = int(st.rng.random() * n)
        st.rec.append(v)
        return v

    def chance(self, name, p):
        """True with probability p (recorded as 0/1)."""
        st = self.streams.get(name)
        if st is None:
            st = self.stream(name)
        rp = st.replay
        if rp is not None:
            i = st.pos
            st.pos = i + 1
            return bool(rp[i]) if i < len(rp) else False
        v = st.rng.random() < p
        st.rec.append(1 if v else 0)
        return v

    def logdur(self, name, lo, hi):
        """A log-uniform duration in ns between lo and hi (recorded as 0..99)."""
        v = self.choose(name, 100)
        if v == 0:
            return int(lo)
        return int(lo * (float(hi) / lo) ** (v / 99.0))

    def recording(self):
        out = {}
        for k in sorted(self.streams):
            rec = self.streams[k].rec if self.replay is None else self.streams[k].replay
            if any(rec):
                out[k] = list(rec)
        return out

    # ------------------------------------------------------------ logging
    def log(self, kind, *args):
        """Part of the deterministic event log (hashed)."""
        self.nev += 1
        s = "%d %s %r" % (self.now, kind, args)
        self.h = zlib.crc32(s.encode("utf-8", "backslashreplace"), self.h)
        if self.verbose and len(self.trace) < self.trace_limit:
            self.trace.append("%.6f %s %s" % ((self.now - 1000 * SEC) / 1e9, kind,
                                              " ".join(_short(a) for a in args)))

    def note(self, text):
        """Trace only, never hashed."""
        if self.verbose and len(self.trace) < self.trace_limit:
            self.trace.append("%.6f   # %s" % ((self.now - 1000 * SEC) / 1e9, text))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, prop, key, msg=""):
        """Record a violation of a property; `key` classifies it."""
        if (prop, key) in self.vkeys:
            return
        self.vkeys.add((prop, key))
        self.log("VIOLATION", prop, key, msg)
        self.violations.append((prop, key, msg, self.now))

    def gap(self, what):
        if what not in self.gaps:
            self.gaps.append(what)
            self.log("GAP", what)
            if self.verbose:
                import traceback
                self.note(traceback.format_exc())

    def fail_harness(self, what):
        self.harness_errors.append(what)
        self.stop_flag = True
        self.note(what)

    # ------------------------------------------------------------ time
    def at(self, t, fn, *args):
        self.seq += 1
        ent = [t, self.seq, fn, args]
        heapq.heappush(self.heap, ent)
        return ent

    def after(self, dt, fn, *args):
        return self.at(self.now + (dt if dt > 0 else 0), fn, *args)

    @staticmethod
    def cancel(ent):
        ent[2] = None

    def time_ns(self):
        return self.now

    @property
    def t(self):
        """Seconds since the start of the run."""
        return (self.now - 1000 * SEC) / 1e9

    def tick(self):
        # reading the clock takes time: two reads never give the same value
        self.now += 1 * US

    # ------------------------------------------------------------ strategy
    def _init_strategy(self):
        st = self.strategy
        k = st["kind"]
        if k == "pct":
            # positions (in yield counts) of preemptions
            pts = []
            for _ in range(st.get("d", 3)):
                v = self.choose("pct", st.get("span", 4000))
                if v:
                    pts.append(v)
            self._pct_left = sorted(pts)
        _yc.hot = _cold
        if k == "site":
            a = self.choose("hot.sites", 1 << 30)
            r = random.Random(a)
            if a and st.get("mod"):
                # one to three places of one module
                from . import loader
                ids = loader.code_cache().sites(st["mod"])
                _yc.hot = bytearray(SITES)
                for x in r.sample(ids, min(st["n"], len(ids))):
                    _yc.hot[x] = 1
            elif a:
                _yc.hot = bytearray(1 if r.random() < st["part"] else 0 for _ in range(SITES))

    def _quantum(self):
        st = self.strategy
        k = st["kind"]
        if self.quiet or k == "rtb" or k == "site":
            return 5000
        if k == "rand":
            return self.choose("q", 2 * st["mean"]) or 5000
        if k == "pct":
            while self._pct_left and self._pct_left[0] <= self.ycount:
                self._pct_left.pop(0)
            if self._pct_left:
                return self._pct_left[0] - self.ycount
            return 5000
        raise HarnessError("strategy")

    def quantum_end(self):
        """The running task used up its quantum of statements."""
        t = self.cur
        used = self.lastq
        t.burn += used
        if t.burn > 400000:
            self.log("WEDGED", t.name)
            self.wedged.append(t)
            t.state = WEDGED
            self.hub.switch()
            return
        st = self.strategy
        if self.quiet or st["kind"] in ("rtb", "site") or used >= 5000:
            if self.runq or (self.heap and self.heap[0][0] <= self.now):
                self._requeue(t)
            else:
                self._renew()
            return
        # a preemption point
        if self.chance("pre.s", st.get("stall", 0.1)):
            self._stall(t)
            return
        if self.runq:
            self.npreempt += 1
            self._requeue(t)
        else:
            self._renew()

    def hot_site(self):
        st = self.strategy
        if self.chance("hot.s", st["stall"]):
            self.probe("hot_site")
            self._stall(self.cur)

    def _stall(self, t):
        """Descheduled for a while: other tasks and events go on."""
        d = self.logdur("pre.d", 20 * US, self.strategy.get("stall_max", 2 * SEC))
        # stalls are bounded: 3 s at any time plus 4 % of the time that passed
        if self.stalled + d > 3 * SEC + (self.now - 1000 * SEC) // 25:
            d = 20 * US
        self.stalled += d
        self.stalls.append((self.now, d))
        self.npreempt += 1
        t.state = STALLED
        self.log("stall", t.name, d)
        self.after(d, self._unstall, t)
        self.hub.switch()

    def busy(self):
        """Statements and task switches within the last simulated second."""
        if self.now >= self.win_t:
            self.win_t = self.now + SEC
            self.win_y = self.ycount
            self.win_n = self.nswitch
            return False
        if self.livelock is None and (self.ycount - self.win_y > MAX_STATEMENTS or
                                      self.nswitch - self.win_n > MAX_SWITCHES):
            self.spins("%d statements and %d task switches within %.3f simulated seconds" % (
                self.ycount - self.win_y, self.nswitch - self.win_n,
                (self.now - self.win_t + SEC) / 1e9))
        return self.livelock is not None

    def spins(self, msg):
        """The agent is busy without getting anywhere: no property that asks for progress holds."""
        self.livelock = "%s; running: %s" % (msg, self.cur.name if self.cur else None)
        self.stop_flag = True
        self.violate("*", "livelock", self.livelock)

    def _renew(self):
        self.ycount += self.lastq - max(_yc.n, 0)
        if self.busy():
            self.cur.state = STALLED
            self.hub.switch()
        self.lastq = _yc.n = self._quantum()

    def _unstall(self, t):
        if t.state == STALLED:
            t.state = READY
            self.runq.append(t)

    def _requeue(self, t):
        t.state = READY
        self.runq.append(t)
        self.hub.switch()

    # ------------------------------------------------------------ tasks
    def spawn(self, fn, name, proc=None):
        t = Task(self, fn, name, proc)
        self.task_seq += 1
        t.ident = 1000 + self.task_seq
        self.tasks.add(t)
        t.state = READY
        self.runq.append(t)
        return t

    def kill_task(self, t):
        t.state = DEAD
        self.tasks.discard(t)

    def park(self, timeout=None, why=""):
        """Block the current task; returns what wake() passed, or None on timeout."""
        t = self.cur
        if t is None:
            raise SimDead("park outside of a task")
        t.token += 1
        t.why = why
        ent = None
        if timeout is not None:
            if timeout < 0:
                timeout = 0
            ent = self.after(timeout, self._timeout, t, t.token)
        t.state = BLOCKED
        t.val = None
        t.burn = 0
        self.hub.switch()
        if ent is not None:
            ent[2] = None
        return t.val

    def _timeout(self, t, token):
        if t.state == BLOCKED and t.token == token:
            t.state = READY
            t.val = None
            t.token += 1
            self.runq.append(t)

    def wake(self, t, val=True):
        if t.state == BLOCKED:
            t.state = READY
            t.val = val
            t.token += 1
            self.runq.append(t)

    def pause_point(self):
        """A seam call: give others a chance now and then."""
        t = self.cur
        if t is None or self.noyield:
            return
        _yc.n -= 1
        if _yc.n <= 0:
            self.quantum_end()

    # ------------------------------------------------------------ hub
    def run(self, until):
        """Run until virtual time `until` (ns, absolute), or nothing is left."""
        global SIM
        if SIM is not self:
            raise HarnessError("not active")
        heap = self.heap
        runq = self.runq
        while not self.stop_flag:
            # due events first
            while heap and heap[0][0] <= self.now:
                ent = heapq.heappop(heap)
                if ent[2] is not None:
                    self.events_run += 1
                    fn = ent[2]
                    fn(*ent[3])
            if self.stop_flag:
                break
            if runq:
                n = len(runq)
                if n == 1:
                    t = runq.pop()
                else:
                    if self.quiet or self.strategy["kind"] == "rtb":
                        t = runq.pop(0)
                    else:
                        t = runq.pop(self.choose("sched", n))
                if t.state != READY:
                    continue
                self._switch_to(t)
                continue
            if not heap:
                self.end_reason = "idle"
                break
            nt = heap[0][0]
            if nt > until:
                self.now = until
                self.end_reason = "time"
                break
            if nt > self.now:
                self.now = nt
            self.events_run += 1
            if self.events_run > self.max_events:
                self.spins("%d events in one run" % self.events_run)
                break
        if self.livelock is not None:
            raise Livelock(self.livelock)

    def _switch_to(self, t):
        self.nswitch += 1
        self.ilh = zlib.crc32(t.name.encode(), self.ilh)
        self.cur = t
        t.state = RUNNING
        self.lastq = _yc.n = self._quantum()
        t.g.switch()
        self.ycount += self.lastq - max(_yc.n, 0)
        _yc.n = HUGE
        self.busy()
        self.cur = None

    def activate(self):
        global SIM
        SIM = self
        self.hub = getcurrent()

    def finish(self):
        global SIM
        self.alive = False
        for t in list(self.tasks):
            t.state = DEAD
        self.tasks.clear()
        self.runq[:] = []
        self.heap[:] = []
        SIM = None
        _yc.n = HUGE
        _yc.hot = _cold


def _short(a):
    r = a if isinstance(a, str) else repr(a)
    return r if len(r) <= 200 else r[:180] + "...<%d>" % len(r)


def cur():
    """The active Sim with a running task, or raises SimDead."""
    s = SIM
    if s is None or s.cur is None:
        raise SimDead("no live simulation")
    return s
