"""The same traffic over and over again, with a census of what is left each time.

C28: threads, open descriptors, child processes, temporary files, objects and the contents of
containers of the agent do not grow from round to round.
"""
import collections
import gc
import os as _os
import types
import weakref

from .. import core
from ..core import SEC
from ..kernel import NullDesc
from .base import GRACE
from .link import Link, REGAIN
from .poll import Poll
from .remote import Remote
from .traffic import Traffic

ROUNDS = 6
KEEP = {"read", "open_r", "open_w", "write", "rename", "mkdir", "statvfs"}
CONTAINERS = (list, dict, set, frozenset, tuple, collections.deque, bytearray, bytes, str)
STDLIB = {"threading": ("_active", "_limbo", "_shutdown_locks"), "subprocess": ("_active",),
          "atexit": ("_handlers",), "logging": ("_loggers",)}


def weight(x, depth=0, seen=None):
    """Number of elements in a container and the containers in it."""
    if isinstance(x, (bytes, bytearray, str)):
        return len(x)
    if not isinstance(x, CONTAINERS):
        return 0
    if seen is None:
        seen = set()
    if id(x) in seen:
        return 0
    seen.add(id(x))
    n = len(x)
    if depth < 3:
        for e in (list(x.values()) if isinstance(x, dict) else list(x)):
            n += weight(e, depth + 1, seen)
    return n


def hidden(f):
    """Elements in the default arguments and closures of a function."""
    f = getattr(f, "__func__", getattr(f, "fget", f))
    n = 0
    for _ in range(4):
        if not isinstance(f, types.FunctionType):
            break
        if hasattr(f, "census"):
            f = f.__wrapped__
            continue
        n += weight(f.__defaults__ or ()) + weight(f.__kwdefaults__ or {})
        for c in f.__closure__ or ():
            try:
                n += weight(c.cell_contents)
            except ValueError:
                pass
        f = getattr(f, "__wrapped__", None)
    return n


class Census(object):
    """What an incarnation of the agent holds."""

    def __init__(self, world, proc):
        self.w = world
        self.proc = proc
        self.refs = {}              # class -> weak references to its instances
        self.mods = []
        self.classes = set()
        self.rounds = []            # {what: number}
        proc.loader.track = self.track

    def track(self, m):
        self.mods.append(m)
        for c in list(m.__dict__.values()):
            if isinstance(c, type) and c.__module__ == m.__name__ and c not in self.classes:
                self.classes.add(c)
                init = c.__dict__.get("__init__")
                if isinstance(init, types.FunctionType) and not issubclass(c, BaseException):
                    self.wrap(c, init)

    def wrap(self, c, init):
        refs = self.refs

        def __init__(self, *a, **kw):
            try:
                refs.setdefault(type(self), []).append(weakref.ref(self))
            except TypeError:
                pass
            return init(self, *a, **kw)
        __init__.__wrapped__ = init
        __init__.census = True
        c.__init__ = __init__

    def take(self):
        err = _os.dup(2)
        null = _os.open(_os.devnull, _os.O_WRONLY)
        _os.dup2(null, 2)
        try:
            gc.collect()
            gc.collect()
        finally:
            _os.dup2(err, 2)
            _os.close(err)
            _os.close(null)
        p = self.proc
        sim = self.w.sim
        n = collections.Counter()
        self.names = [t.name for t in p.tasks if t in sim.tasks and not t.name.startswith("h:")]
        n["threads"] = len(self.names)
        self.open = []
        for fd, d in p.fds.items():
            owners = getattr(d, "owners", None)
            if isinstance(d, NullDesc) or owners is None or \
                    any(r() is not None for r in owners):
                self.open.append(type(d).__name__)
        n["descriptors"] = len(self.open)
        n["processes"] = len(p.children)
        n["temporary files"] = len(self.w.temp_files())
        seen = set()
        for c, refs in self.refs.items():
            name = "%s.%s" % (c.__module__, c.__name__)
            live = []
            for r in refs:
                o = r()
                if o is not None and id(o) not in seen:
                    seen.add(id(o))
                    live.append(r)
                    n["objects " + name] += 1
                    for a, v in list(getattr(o, "__dict__", {}).items()):
                        w = weight(v)
                        if w:
                            n["%s.%s" % (name, a)] += w
            refs[:] = live
        for m in self.mods:
            for a, v in m.__dict__.items():
                if not a.startswith("__"):
                    w = weight(v) or hidden(v)
                    if w:
                        n["%s.%s" % (m.__name__, a)] += w
        for c in self.classes:
            for a, v in list(c.__dict__.items()):
                if not a.startswith("__") or a == "__init__":
                    w = weight(v) or hidden(v)
                    if w:
                        n["%s.%s.%s" % (c.__module__, c.__name__, a)] += w
        for name, attrs in STDLIB.items():
            m = p.loader.modules.get(name)
            for a in attrs:
                v = getattr(m, a, None)
                if v is not None:
                    n["%s.%s" % (name, a)] += weight(v)
            if name == "logging" and m is not None:
                for l in m._loggers.values():
                    n["logging handlers"] += len(l.handlers)
                    n["logging filters"] += len(l.filters)
        self.rounds.append(n)
        return n


class Soak(object):
    """Mixed into a scenario class."""
    BASES = ()

    @classmethod
    def gen(cls, rng, prop):
        plan = super().gen(rng, rng.choice(cls.BASES))
        cfg = plan["cfg"]
        dur = cfg["dur"]
        most = cls.LONGEST
        if dur > most:
            for o in plan["ops"]:
                o[0] = round(o[0] * most / dur, 4)
            cfg["dur"] = most
        plan["ops"] = [o for o in plan["ops"] if o[1] not in (
            "crash", "reboot", "exit", "oldident") and not (o[1] == "jump" and abs(o[2]) > 100) and
            not (o[1] == "down" and o[2] > 60) and not (o[1] == "rule" and o[2].get("kill"))]
        cfg.pop("meta_fails_until", None)
        for k in ("thread_fail", "fork_fail"):
            if k in cfg:
                a, d, p = cfg.pop(k)
                plan["ops"].append([round(a * cfg["dur"] / dur, 4), "nomore", k, d, p])
        cls.extra(rng, plan)
        plan["ops"].sort(key=lambda o: o[0])
        cfg["rounds"] = ROUNDS
        cls.tame(plan)
        return plan

    @classmethod
    def extra(cls, rng, plan):
        pass

    @classmethod
    def tame(cls, plan):
        pass

    def boot(self):
        p = super().boot()
        self.census = Census(self, p)
        return p

    def temp_files(self):
        fs = self.k.fs
        return [f for d in ("/tmp", "/var/tmp") for f in fs.tree(d)
                if "dataplicity_remote_downloads" not in f]

    def _plan(self, idx):
        return super()._plan(idx - self.first_session)

    def _verdict(self, n):
        return super()._verdict(n - self.first_attempt)

    def drive(self):
        gc.collect()
        self.first_session = self.first_attempt = 0
        self.boot()
        self.files0 = set(self.k.fs.tree(self.remote_dir))
        for i in range(self.cfg["rounds"]):
            self.sim.log("round", i)
            self.first_session = len(self.m2m.sessions)
            self.first_attempt = len(self.m2m.attempts)
            self.faults_over = False
            self.round = i
            self.schedule()
            self.busy()
            self.run_for(self.cfg["dur"])
            self.end_faults()
            self.wait_working(REGAIN + GRACE)
            self.run_for(22)
            self.tidy()
            self.run_for(60)
            self.wait_working(20)
            self.census.take()
            self.sim.probe("soak_rounds")
            if self.sim.stop_flag:
                return
        self.judge_growth()

    def busy(self):
        pass

    def tidy(self):
        pass

    def judge_growth(self):
        rs = self.census.rounds
        self.sim.probe("soak_censuses", len(rs))
        if len(rs) < 5:
            return
        names = set()
        for r in rs:
            names.update(r)
        for a in sorted(names):
            v = [r.get(a, 0) for r in rs]
            last = list(zip(v[-5:], v[-4:]))
            if all(x <= y for x, y in last) and sum(x < y for x, y in last) >= 3:
                self.violate("C28", "grows:" + a, "%s: %s after each round%s" % (
                    a, v, " (%s)" % self.census.names if a == "threads" else
                    " (%s)" % self.census.open if a == "descriptors" else ""))


class SoakTraffic(Soak, Traffic):
    BASES = ("C05", "C06", "C08", "C10", "C11", "C12", "C13", "C26")
    LONGEST = 40

    @classmethod
    def extra(cls, rng, plan):
        if rng.random() < 0.35:
            plan["ops"].append([round(rng.uniform(0.5, plan["cfg"]["dur"]), 4), "nomore",
                                rng.choice(["thread_fail", "thread_fail", "fork_fail"]),
                                rng.choice([1, 5, 15, 40]), rng.choice([0.3, 0.6, 1.0])])

    def op_nomore(self, what, d, p):
        """Threads or processes cannot be had for a while."""
        end = self.sim.now + int(d * SEC)
        setattr(self.k, what, lambda *a: self.sim.now <= end and self.sim.chance(what, p))

    def busy(self):
        if self.round == 0:
            self.sim.after(0, self._sigs)

    def tidy(self):
        self.close_all()


class SoakRemote(Soak, Remote):
    BASES = ("C14", "C15", "C16", "C18")
    LONGEST = 30

    @classmethod
    def tame(cls, plan):
        # (some odd names are hidden ones)
        plan["ops"] = [o for o in plan["ops"] if o[1] != "hostile" or o[2][0] != "oddwrite"]
        for o in plan["ops"]:
            if o[1] == "download":
                o[2]["abandon"] = False
            if o[1] == "rule" and (
                    not o[2]["ops"] or set(o[2]["ops"]) - KEEP):
                o[2]["ops"] = ["write"]     # what cannot be seen or removed stays

    def temp_files(self):
        """And what is left of downloads that were acknowledged, and hidden copies."""
        fs = self.k.fs
        old = set(d.dev.decode("utf-8", "replace") for d in self.dls
                  if any(a.acked for a in d.attempts))
        return Soak.temp_files(self) + [f for f in sorted(old) if f and fs.lookup(f) is not None] + \
            [f for f in fs.tree(self.remote_dir) if f not in self.files0 and
             f.rpartition("/")[2].startswith(".")]

    def tidy(self):
        for u in self.ups:
            u.finish()
        del self.ups[:]
        # listings whose reading was cut short
        for f in self.temp_files():
            name = f.rpartition("/")[2]
            if name.startswith("list-"):
                self.send(None, "close", (name.encode(),), lambda r: None)
        fs = self.k.fs
        for f, e in sorted(fs.tree(self.remote_dir).items(), reverse=True):
            if f not in self.files0 and e[0] == "f" and \
                    not f.rpartition("/")[2].startswith("."):
                fs.unlink(f)


class SoakLink(Soak, Link):
    BASES = ("C01", "C02", "C03", "C04")
    LONGEST = 60

    close_all = Traffic.close_all

    def tidy(self):
        self.close_all()


class SoakPoll(Soak, Poll):
    BASES = ("C19", "C20", "C22", "C23")
    LONGEST = 130

    def tidy(self):
        for r in self.rpcs:
            r.__dict__.clear()
        del self.rpcs[:]
