"""Services over channels: echo, forwards, terminals, file reads, commands, raw channels.

Decides C04 (while busy), C05 to C13, C25 and C26.  Link faults come from Link.
"""
import json
import random

from .. import core
from ..core import SEC, MS, US
from ..kernel import Listener, SIGHUP, SIGKILL
from ..world import LOCAL_IP
from .base import Scenario, compress_cfg, GRACE
from .link import Link, REGAIN

BUSY = b"HTTP/1.1 503"
NOLAUNCH = b"Failed to launch remote process\n"
CHUNK = 1024 * 1024
SERVICES = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}
INF = 1 << 62


def stream(key, n):
    """The first n bytes of the stream called key; starts with a 16 byte tag."""
    tag = ("<%s>" % key).encode().ljust(15, b".") + b"\n"
    if n <= 16:
        return tag[:n]
    r = random.Random("stream" + key)
    if r.random() < 0.6:
        return tag + r.randbytes(n - 16)
    out = bytearray(tag)
    i = 0
    k = key.encode()
    while len(out) < n:
        out += b"%s line %07d\r\n" % (k, i)
        i += 1
    return bytes(out[:n])


class Conn(object):
    """A connection at a simulated local server, run by a script."""

    def __init__(self, world, end, port, use):
        self.w = world
        self.sim = world.sim
        self.end = end
        self.port = port
        self.use = None
        self.t_accept = self.sim.now
        self.rx = bytearray()
        self.out = bytearray()
        self.pushed = bytearray()
        self.script = []
        self.down = b""
        self.dpos = 0
        self.echo = False
        self.sleeping = False
        self.t_fin = self.t_rst = self.t_close = self.t_shut = self.t_reset = None
        self.t_push = None
        self.t_read = None          # last time it began to read again
        self.clean = None           # closed with nothing unread
        end.actor = self
        if use is not None:
            self.map(use)

    def map(self, use):
        self.use = use
        use.conn = self
        srv = use.info.get("srv") or []
        self.script = [list(a) for a in srv]
        n = sum(a[1] for a in srv if a[0] == "send")
        if any(a[0] == "send" and a[1] % (1 << 20) == 0 for a in srv):
            # socket buffers grown by the system: reads of any size can be full reads
            self.end.sndcap = self.end.peer.rcap = 4 << 20
        self.down = stream("d%d" % use.key, n)
        self.sim.after(0, self.step)

    @property
    def t_local_end(self):
        ts = [t for t in (self.t_close, self.t_shut, self.t_reset) if t is not None]
        return min(ts) if ts else None

    def on_data(self, end, data):
        self.rx.extend(data)
        if self.use is None and len(self.rx) >= 16:
            self.w.map_conn(self)
        if self.echo:
            self.out.extend(data)
            self.flush()
        self.step()

    def on_fin(self, end):
        self.t_fin = self.sim.now
        self.step()
        if self.use is None or not self.use.info.get("nofin"):
            self.sim.after(self.sim.logdur("srv.fin", 100 * US, 200 * MS), self._fin)

    def _fin(self):
        if self.t_local_end is None and not self.end.rst:
            self.do_close()

    def do_close(self):
        if self.t_close is None:
            self.t_close = self.sim.now
            self.clean = not self.end.rbuf and not self.out
            self.end.app_close()

    def on_rst(self, end):
        self.t_rst = self.sim.now

    def on_writable(self, end):
        self.flush()
        self.step()

    def flush(self):
        e = self.end
        while self.out and not e.rst and not e.fin_sent:
            n = min(len(self.out), e.sendable())
            if n <= 0:
                return
            d = bytes(self.out[:n])
            del self.out[:n]
            self.pushed += d
            self.t_push = self.sim.now
            e.push(d)

    def wake(self):
        self.sleeping = False
        self.step()

    def step(self):
        while self.script and not self.out and not self.sleeping:
            if self.end.rst or self.end.app_closed:
                return
            a = self.script.pop(0)
            op = a[0]
            if op == "send":
                if self.end.fin_sent:
                    continue
                self.out.extend(self.down[self.dpos:self.dpos + a[1]])
                self.dpos += a[1]
                self.flush()
            elif op == "sleep":
                self.sleeping = True
                self.sim.after(int(a[1] * SEC), self.wake)
            elif op == "pause":
                self.end.paused = True
                self.sim.fault("server_stops_reading")
            elif op == "unpause":
                self.t_read = self.sim.now
                self.end.unpause()
            elif op == "echo":
                self.echo = True
                self.out.extend(self.rx)
                self.flush()
            elif op == "close":
                self.sim.fault("server_closes")
                self.do_close()
            elif op == "shut":
                self.sim.fault("server_half_closes")
                self.t_shut = self.sim.now
                self.end.shut_write()
            elif op == "reset":
                self.sim.fault("server_resets")
                self.t_reset = self.sim.now
                self.end.abort()
            elif op == "until_rx":
                if len(self.rx) < a[1]:
                    self.script.insert(0, a)
                    return
            elif op == "until_fin":
                if self.t_fin is None:
                    self.script.insert(0, a)
                    return
            else:
                raise core.HarnessError("server action %r" % (a,))


class LocalServer(Listener):
    def __init__(self, world, port, use=None, verdict="accept"):
        Listener.__init__(self, world.k, world.local)
        self.w = world
        self.port = port
        self.use = use
        self.verdict = verdict

    def decide(self):
        return self.verdict

    def accepted(self, end):
        c = Conn(self.w, end, self.port, self.use)
        self.w.conns.append(c)


class Traffic(Link):
    span = 12000

    # ================================================================ generation
    @classmethod
    def gen(cls, rng, prop):
        dur = rng.choice([20, 40, 60, 120])
        cfg = dict(dur=dur, compress=compress_cfg(rng, 0.6), seg_p=rng.choice([0, 0.1, 0.5]),
                   frag_p=rng.choice([0, 0.05, 0.4]), join_delay=0, api_p=0.0, sessions=[],
                   attempts=[], same_identity=rng.random() < 0.2, crashes=0, traffic=True,
                   closed_ports=[p for p in (81, 8080) if rng.random() < 0.15],
                   recycle=rng.random() < 0.5)
        mk = getattr(cls, "mix_" + prop.lower(), cls.mix_default)
        kinds, n, link_p = mk(rng, cfg)
        ops = []
        base = None
        if rng.random() < 0.5:
            base = (rng.uniform(0.5, dur * 0.7), rng.choice([0.001, 0.1, 2, 10]))
        for _ in range(n):
            if base is not None and rng.random() < 0.8:
                t = base[0] + rng.random() * base[1]
            else:
                t = rng.uniform(0.2, dur)
            k = rng.choice(kinds)
            ops.append([round(t, 4), "use", getattr(cls, "g_" + k)(rng, prop)])
        if rng.random() < link_p:
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice(["reset", "fin", "reset", "fin", "wsclose", "vanish", "freeze",
                                "garbage", "badframe", "hole", "down"])
                t = round(rng.uniform(1, dur), 3)
                if base is not None and rng.random() < 0.7:
                    t = round(base[0] + rng.random() * max(base[1], 3), 3)
                if k == "hole":
                    ops.append([t, "blackhole", rng.choice([0.5, 3, 15, 40])])
                elif k == "down":
                    ops.append([t, "down", rng.choice([1, 10]), rng.choice(["fin", "reset"])])
                else:
                    ops.append(cls.mk(rng, t, k))
        extra = getattr(cls, "extra_" + prop.lower(), None)
        if extra is not None:
            extra(rng, cfg, ops, dur)
        ops.sort(key=lambda o: o[0])
        return dict(cfg=cfg, ops=ops)

    @classmethod
    def mix_default(cls, rng, cfg):
        return ["echo", "fwd", "redir", "term", "file", "cmd"], rng.randint(2, 8), 0.3

    @classmethod
    def mix_c01(cls, rng, cfg):
        return ["flood", "flood", "echo", "fwd", "redir", "term", "cmd", "bigfile"], \
            rng.randint(1, 6), 0.6

    @classmethod
    def extra_c01(cls, rng, cfg, ops, dur):
        for _ in range(rng.choice([0, 1, 1, 2])):
            # the link goes silent while there is much to send
            t = round(rng.uniform(0.5, dur), 3)
            if rng.random() < 0.8:
                ops.append([t, "use", cls.g_flood(rng, "C01")])
                t = round(t + rng.random() * rng.choice([0.2, 2]), 3)
            ops.append(cls.mk(rng, t, rng.choice(["vanish", "freeze"])))
        if rng.random() < 0.4:
            cls.late_bulk(rng, ops, round(dur - 3 * rng.random(), 3))

    @classmethod
    def mix_c04(cls, rng, cfg):
        return ["echo", "fwd", "redir", "term", "file", "cmd", "bigfile", "stuck", "flood"], \
            rng.randint(2, 8), 0.2

    @classmethod
    def mix_c05(cls, rng, cfg):
        return ["echo", "echo", "echo", "fwd", "redir", "term", "file", "cmd"], \
            rng.randint(2, 10), 0.25

    @classmethod
    def mix_c06(cls, rng, cfg):
        return ["echo", "fwd", "redir", "term", "file", "bigfile", "cmd", "raw"], \
            rng.randint(3, 12), 0.7

    @classmethod
    def mix_c07(cls, rng, cfg):
        return ["fwd", "redir", "redir", "redir", "many", "slowread"], rng.randint(1, 6), 0.2

    @classmethod
    def mix_c08(cls, rng, cfg):
        return ["fwd", "fwd", "redir", "redir", "redir", "slowread", "stuck", "badsvc"], \
            rng.randint(2, 9), 0.4

    @classmethod
    def mix_c09(cls, rng, cfg):
        return ["term"], rng.randint(1, 5), 0.15

    @classmethod
    def mix_c10(cls, rng, cfg):
        if rng.random() < 0.15:
            return ["term"], rng.randint(9, 16), 0.9
        return ["term"], rng.randint(1, 6), 0.5

    @classmethod
    def mix_c11(cls, rng, cfg):
        cfg["limits"] = [rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3])]
        return ["fwd", "redir", "redir", "term", "term", "file", "cmd", "cmd"], \
            rng.randint(4, 16), 0.3

    @classmethod
    def mix_c12(cls, rng, cfg):
        return ["file", "file", "bigfile"], rng.randint(1, 7), 0.15

    @classmethod
    def mix_c13(cls, rng, cfg):
        return ["cmd"], rng.randint(1, 6), 0.2

    @classmethod
    def mix_c25(cls, rng, cfg):
        return ["raw"], rng.randint(1, 4), 0.15

    @classmethod
    def mix_c26(cls, rng, cfg):
        return ["bogus", "bogus", "bogus", "badsvc", "echo", "fwd", "redir", "term", "file", "cmd"], \
            rng.randint(4, 14), 0.15

    @classmethod
    def extra_c04(cls, rng, cfg, ops, dur):
        for _ in range(rng.randint(3, 25)):
            ops.append([round(rng.uniform(0.5, dur), 3), "ping",
                        rng.choice([0, 1, 10, 1023, 1024, 1025, 3000, 70000])])
        if rng.random() < 0.4:
            ops.append([round(rng.uniform(1, dur), 3), "congest", rng.choice([1, 5, 20])])
        cfg["api_p"] = rng.choice([0.0, 0.5, 1.0])
        cfg["api_kinds"] = ["hang", "conn_hang", "read_hang", "slow"]
        for _ in range(rng.randint(0, 3)):
            at = rng.uniform(0.5, dur)
            ops.append(cls.mk(rng, round(at, 3), rng.choice(["sync", "sync", "ident"])))
            if rng.random() < 0.6:
                ops.append([round(at + 5 * rng.random(), 3), "ping", 10])

    @classmethod
    def extra_c05(cls, rng, cfg, ops, dur):
        for _ in range(rng.randint(0, 8)):
            ops.append([round(rng.uniform(0.5, dur), 3), "ping", rng.choice([0, 5, 1024])])
        if rng.random() < 0.3:
            ops.append([round(rng.uniform(1, dur), 3), "congest", rng.choice([1, 5, 20])])

    @classmethod
    def extra_c08(cls, rng, cfg, ops, dur):
        if rng.random() < 0.15:
            cls.late_bulk(rng, ops, round(rng.uniform(3, dur), 3))

    @classmethod
    def late_bulk(cls, rng, ops, t):
        """The link goes silent, and much is to be sent until that is noticed, on top of pings."""
        ops.append(cls.mk(rng, t, rng.choice(["vanish", "freeze", "freeze"])))
        for _ in range(rng.choice([1, 1, 3])):
            d = cls.g_redir(rng, "C01")
            at = rng.choice([rng.uniform(20, 60), rng.uniform(60, 110), rng.uniform(90, 106)])
            d.update(verdict="accept", close=None,
                     srv=[["sleep", round(at, 3)], ["send", rng.choice([1 << 20, 2 << 20])]])
            ops.append([round(t - 1 - 0.1 * rng.random(), 4), "use", d])

    @classmethod
    def extra_c11(cls, rng, cfg, ops, dur):
        r = rng.random()
        if r < 0.35:
            cfg["thread_fail"] = [round(rng.uniform(0.5, dur * 0.8), 3), rng.choice([0.5, 3, 15]),
                                  rng.choice([0.2, 0.6, 1.0])]
        elif r < 0.5:
            cfg["fork_fail"] = [round(rng.uniform(0.5, dur * 0.8), 3), rng.choice([0.5, 3, 15]),
                                rng.choice([0.4, 1.0])]
        if rng.random() < 0.2:
            # Services which take their time to end, and a series of further requests meanwhile
            n = cfg["limits"][0]
            t = rng.uniform(0.5, dur * 0.6)
            at = rng.choice([0.5, 2, 4])
            how = rng.choice(["user", "user", "shut", "unread"])
            for _ in range(n + rng.choice([0, 0, 1])):
                d = cls.g_stuck(rng, "C11")
                d["close"] = at if how != "shut" else None
                d["srv"] = [["pause"], ["sleep", at], ["shut"], ["sleep", 30], ["unpause"]] \
                    if how == "shut" else [["pause"], ["sleep", rng.choice([8, 30])], ["unpause"]]
                if how == "unread":
                    d["tx"] = d["tx"][:1]
                ops.append([round(t + 0.01 * rng.random(), 4), "use", d])
            gap = rng.choice([0.3, 0.8, 1.5])
            for i in range(rng.choice([6, 12, 20])):
                d = cls.g_redir(rng, "C11")
                d.update(verdict="accept", srv=[], close=None)
                ops.append([round(t + at + gap * (i + rng.random()), 4), "use", d])

    @classmethod
    def extra_c13(cls, rng, cfg, ops, dur):
        if rng.random() < 0.15:
            cfg["fork_fail"] = [round(rng.uniform(0.5, dur * 0.8), 3), rng.choice([0.5, 3, 15]),
                                rng.choice([0.4, 1.0])]

    @classmethod
    def extra_c26(cls, rng, cfg, ops, dur):
        for _ in range(rng.choice([0, 1, 1, 3])):
            ops.append([round(rng.uniform(0.5, dur), 3), "reboot"])
        if rng.random() < 0.5:
            cfg["meta_fails_until"] = rng.choice([dur * 0.5, dur, 10 ** 6])
            for _ in range(rng.choice([1, 2, 4])):
                ops.append([round(rng.uniform(0.5, dur), 3), "sync"])

    # ---- pieces
    # Channel numbers other than counting up: the numbers of the services' ports and
    # of local servers, the last number's neighbours at powers of two, large ones
    NUMBERS = [1, 2, 80, 81, 8000, 8080, 255, 256, 3000, 3001, 65535, 65536, 2 ** 31 - 1,
               2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, "+256", "+1024", "+65536", "+65536", "+%d" % 2 ** 32]
    SIZES = [1, 2, 15, 16, 17, 100, 1000, 4000, 4096, 5000, 30000]

    @classmethod
    def tx(cls, rng, first=0, most=10, big=0.08):
        out = []
        n = rng.choice([0, 1, 2, 3, most])
        if first:
            out.append([rng.choice([0, 0, 0.01, 1]), max(first, rng.choice([16, 16, 20, 100, 5000]))])
        gap = rng.choice([0, 0, 0.001, 0.05, 1, 4])
        for _ in range(n):
            sz = rng.choice(cls.SIZES)
            if rng.random() < big:
                sz = rng.choice([65535, 65536, 70000, 150000, 400000])
            if rng.random() < 0.04:
                sz = 0
            out.append([round(rng.random() * gap, 4), sz])
        return out

    @classmethod
    def common(cls, rng, prop, kind, **kw):
        d = dict(kind=kind, num="reuse" if rng.random() < (0.7 if prop == "C06" else 0.25) else "new",
                 pick=rng.randrange(100), open=rng.choice([0, 1, 1, 2]),
                 close=None)
        if rng.random() < 0.3:
            d["nr"] = rng.choice(cls.NUMBERS)
        r = rng.random()
        if r < (0.75 if prop in ("C06", "C08", "C10") else 0.3):
            d["close"] = rng.choice([0, 0.0005, 0.01, 0.05, 0.3, 2, 8, 20]) * \
                rng.choice([1, rng.random()])
        d.update(kw)
        return d

    @classmethod
    def g_echo(cls, rng, prop):
        d = cls.common(rng, prop, "echo", tx=cls.tx(rng, 1))
        if rng.random() < 0.2:
            d["ctrl"] = [[round(rng.random(), 3), rng.choice(["{}", "x", '{"type":"window_resize"}'])]]
        return d

    @classmethod
    def srv(cls, rng, first, prop):
        s = []
        if first:
            s.append(["until_rx", 16])
        r = rng.random()
        if r < 0.2:
            s.append(["echo"])
            if rng.random() < 0.4:
                s += [["sleep", rng.choice([0.1, 2, 10])], [rng.choice(["close", "reset", "shut"])]]
            return s
        if rng.random() < (0.06 if prop == "C07" else 0.01):
            s.append(["send", rng.choice([1 << 20, 1 << 20, 2 << 20])])
            if rng.random() < 0.5:
                s.append(["sleep", rng.choice([0.1, 6])])
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            k = rng.random()
            if k < 0.55:
                s.append(["send", rng.choice(cls.SIZES + [65536, 200000]) if rng.random() < 0.9 else
                          rng.choice([131072, 1048576, 1300000])])
            elif k < 0.8:
                s.append(["sleep", rng.choice([0.001, 0.1, 1, 6])])
            elif k < 0.9:
                s += [["pause"], ["sleep", rng.choice([0.5, 7, 14, 30])], ["unpause"]]
            else:
                s.append(["until_rx", rng.choice([16, 17, 100])])
        r = rng.random()
        if r < 0.45:
            s.append(["close"])
        elif r < 0.55:
            s.append(["reset"])
        elif r < 0.62:
            s += [["shut"], ["until_fin"], ["close"]]
        elif r < 0.7:
            s += [["until_fin"], ["send", 3000], ["close"]]
        return s

    @classmethod
    def g_fwd(cls, rng, prop):
        return cls.common(rng, prop, "fwd", service=rng.choice(sorted(SERVICES)),
                          tx=cls.tx(rng, 16), srv=cls.srv(rng, True, prop),
                          nofin=rng.random() < 0.2)

    @classmethod
    def g_redir(cls, rng, prop):
        v = rng.choice(["accept"] * 12 + ["refuse", "timeout", "unreach", "none"])
        return cls.common(rng, prop, "redir", verdict=v, tx=cls.tx(rng, 0),
                          srv=cls.srv(rng, False, prop), nofin=rng.random() < 0.2)

    @classmethod
    def g_many(cls, rng, prop):
        """A lot of small messages at once."""
        n = rng.choice([30, 65, 130, 300])
        gap = rng.choice([0, 0, 0.0001, 0.002])
        srv = rng.choice([[["echo"]], [["pause"], ["sleep", rng.choice([0.3, 6])], ["unpause"]], []])
        d = cls.common(rng, prop, "redir", verdict="accept", srv=srv, nofin=False,
                       tx=[[0, 16]] + [[gap, rng.choice([1, 3, 40])] for _ in range(n)])
        if d["close"] is not None:
            d["close"] = rng.choice([0, 0.01, 0.5, 8])
        return d

    @classmethod
    def g_slowread(cls, rng, prop):
        """A local server that does not read for a while, with more than the buffers hold."""
        srv = [["pause"], ["sleep", rng.choice([0.5, 4, 7, 14, 30])], ["unpause"]]
        if rng.random() < 0.3:
            srv.append(["echo"])
        d = cls.common(rng, prop, "redir", verdict="accept", srv=srv, nofin=False,
                       tx=[[0, 16]] + [[rng.choice([0, 0, 0.05]), rng.choice([60000, 150000])]
                                       for _ in range(rng.randint(3, 7))])
        if d["close"] is not None:
            d["close"] = rng.choice([5, 20])
        return d

    @classmethod
    def g_stuck(cls, rng, prop):
        """A local server that accepts no data while much is sent to it."""
        return cls.common(rng, prop, "redir", verdict="accept",
                          tx=[[0.01, 200000]] * rng.choice([2, 5, 10]),
                          srv=[["pause"]] + ([["sleep", rng.choice([10, 60])], ["unpause"]]
                                             if rng.random() < 0.5 else []))

    @classmethod
    def g_flood(cls, rng, prop):
        return cls.common(rng, prop, rng.choice(["cmd", "term"]), tx=[], size=None, ctrl=[],
                          script=[["out", 16]] + [["out", 100000]] * rng.choice([5, 20]) +
                          [["exit", 0]], opts={})

    @classmethod
    def g_badsvc(cls, rng, prop):
        return cls.common(rng, prop, "badsvc", service=rng.choice(["", "ssh", "WEB", "80", "web ",
                                                                   "None"]), tx=cls.tx(rng, 0, 2))

    @classmethod
    def g_term(cls, rng, prop):
        script = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            k = rng.random()
            if k < 0.6:
                script.append(["out", rng.choice(cls.SIZES + [9000, 60000])])
            elif k < 0.85:
                script.append(["sleep", rng.choice([0.001, 0.05, 1, 5, 12])])
            else:
                script.append(["need", rng.choice([1, 16, 100])])
        first = ["out", rng.choice([16, 16, 40, 500])]
        reading = rng.choice([["recv"], ["recv"], ["echo"], ["noread"]])
        script = [first, reading] + script if rng.random() < 0.8 else [reading, first] + script
        if rng.random() < 0.25:
            script.insert(0, ["sleep", rng.choice([0.01, 0.5, 3])])
        r = rng.random()
        if r < 0.45:
            if rng.random() < 0.5:
                script.append(["out", rng.choice([10, 5000, 8192, 9000, 30000])])
            script.append(["exit", rng.choice([0, 0, 1, 130])])
        elif r < 0.5 and prop == "C10":
            script = [["exit", 1]]
        elif r < (0.6 if prop == "C10" else 0.52):
            # a program that leaves its terminal, and runs on for a while or forever
            script.append(["closetty"])
            if rng.random() < 0.4:
                script += [["sleep", rng.choice([0.5, 5, 40])], ["exit", 0]]
        opts = {}
        r = rng.random()
        if r < 0.15:
            opts["handlers"] = {"1": "ignore"}
        elif r < 0.35:
            opts["handlers"] = {"1": rng.choice([0.1, 3, 10, 14, 16])}
        if r < 0.35 and rng.random() < 0.5:
            # as an interactive shell does
            opts["handlers"].update({"15": "ignore", "2": "ignore", "3": "ignore"})
        if rng.random() < (0.1 if r > 0.15 or prop != "C10" else 0.4):
            opts["kill_delay"] = rng.choice([1, 3, 10])
        if rng.random() < 0.12:
            opts["bg_hold"] = rng.choice([3, 30, 400])
        tx = cls.tx(rng, 0, 10, 0.03)
        if rng.random() < 0.07:
            # somebody pastes, key by key
            gap = rng.choice([0, 0, 0.0001])
            tx = [[gap, rng.choice([1, 1, 3])] for _ in range(rng.choice([40, 70, 150, 300]))]
        size = None
        if rng.random() < 0.7:
            size = [rng.randint(1, 300), rng.randint(1, 120)]
        ctrl = []
        for _ in range(rng.choice([0, 0, 1, 2, 5])):
            ctrl.append([round(rng.choice([0, 0.001, 0.05, 1, 5]) * rng.random(), 4),
                         cls.ctrl_text(rng)])
        return cls.common(rng, prop, "term", script=script, opts=opts, tx=tx, size=size, ctrl=ctrl)

    @classmethod
    def ctrl_text(cls, rng):
        if rng.random() < 0.55:
            return json.dumps({"type": "window_resize",
                               "size": [rng.randint(1, 500), rng.randint(1, 200)]})
        return rng.choice(["", "{", "null", "[]", "5", "\"x\"", "{}", '{"type": "x"}',
                           '{"type": null}', '{"type": "window_resize"}',
                           '{"type": "window_resize", "size": 5}',
                           '{"type": "window_resize", "size": []}',
                           '{"type": "window_resize", "size": [80]}',
                           '{"type": "window_resize", "size": [80, 24, 3]}',
                           '{"type": "window_resize", "size": null}',
                           '{"type": "window_resize", "size": ["a", "b"]}',
                           '{"type": "window_resize", "size": [1e400, 5]}',
                           '{"type": "window_resize", "size": [99999999999, 5]}',
                           '{"type": "window_resize", "size": [80, 70000]}',
                           '{"type": "window_resize", "size": "80"}',
                           '{"type": "WINDOW_RESIZE", "size": [3, 4]}',
                           '{"type": ["window_resize"], "size": [3, 4]}',
                           '{"size": [3, 4]}', "[\"type\"]", "\xff\xfe", "{\"type\":{}}",
                           "[" * 3000])

    @classmethod
    def g_file(cls, rng, prop):
        n = rng.choice([0, 1, 15, 100, 4096, 8192, 8193, 50000, 200000])
        bad = rng.choice([""] * 8 + ["missing", "dir", "eacces", "eio", "eio", "loop"])
        d = cls.common(rng, prop, "file", size=n, bad=bad, at=rng.randint(0, 3), tx=[])
        if not bad:
            r = rng.random()
            if r < 0.1:
                d["proc"] = 1
            elif r < 0.3:
                # a log file, written to meanwhile
                d["grow"] = [[rng.choice([0.0001, 0.001, 0.003, 0.01, 0.1]) * rng.uniform(0.2, 2),
                              rng.choice([1, 100, 4096, 50000])] for _ in range(rng.randint(1, 4))]
            elif r < 0.4:
                # replaced by another one
                d["swap"] = [rng.choice([0.0001, 0.001, 0.003, 0.01]) * rng.uniform(0.2, 2),
                             rng.choice([0, 1, 4096, 50000])]
        return d

    @classmethod
    def g_bigfile(cls, rng, prop):
        n = rng.choice([CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 1500000])
        if prop == "C12" and rng.random() < 0.2:
            n = 3 * CHUNK + 77
        bad = rng.choice([""] * 5 + ["eio", "eio"])
        d = cls.common(rng, prop, "file", size=n, bad=bad, at=rng.randint(0, 3), tx=[])
        if not bad and rng.random() < 0.2:
            d["proc"] = 1
        return d

    @classmethod
    def g_cmd(cls, rng, prop):
        script = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            k = rng.random()
            if k < 0.45:
                script.append(["out", rng.choice(cls.SIZES + [65536, 70000, 200000])])
            elif k < 0.65:
                script.append(["err", rng.choice([1, 100, 65536, 70000, 200000])])
            elif k < 0.95:
                script.append(["sleep", rng.choice([0.001, 0.05, 0.4, 1, 5])])
            else:
                script.append([rng.choice(["closeout", "closeerr"])])
        r = rng.random()
        if r < 0.85:
            script.append(["exit", rng.choice([0, 0, 1, 2, 127, 255])])
        opts = {}
        if rng.random() < 0.1:
            opts["bg_hold"] = rng.choice([2, 20])
        if rng.random() < 0.1:
            opts["kill_delay"] = rng.choice([0.5, 4, 12])
        d = cls.common(rng, prop, "cmd", script=script, opts=opts, tx=cls.tx(rng, 0, 1, 0))
        if rng.random() < 0.1:
            d["sig"] = [rng.choice([0.1, 3]), rng.choice([9, 15, 11])]
        if r >= 0.85 and d["close"] is None and "sig" not in d:
            d["close"] = rng.choice([1, 5, 15])
        return d

    @classmethod
    def g_raw(cls, rng, prop):
        reads = []
        for _ in range(rng.randint(2, 25)):
            k = rng.random()
            if k < 0.45:
                reads.append(["read", rng.choice([1, 2, 7, 16, 100, 5000, 100000]),
                              rng.choice([0.01, 0.5, 2, 10]), 1])
            elif k < 0.7:
                reads.append(["read", rng.choice([0, 1, 2, 7, 16, 100, 5000, 100000]), None, 0])
            elif k < 0.85:
                reads.append([rng.choice(["size", "bool"])])
            else:
                reads.append(["sleep", rng.choice([0.001, 0.1, 1, 4])])
        tx = [[round(g * rng.random(), 4), n] for g, n in
              [[rng.choice([0, 0.001, 0.5, 3]), rng.choice([0, 1, 2, 3, 7, 16, 100, 5000])]
               for _ in range(rng.randint(1, 20))]]
        return cls.common(rng, prop, "raw", reads=reads, tx=tx, open=1)

    BOGUS = ["none", "unknown", "noaction", "intaction", "listaction", "term_noname", "term_noport",
             "term_badname", "term_badsize", "term_intname", "fwd_noroute", "fwd_shortroute",
             "fwd_introute", "fwd_noservice", "redir_noport", "redir_nodev", "redir_strport",
             "redir_bigport", "file_nopath", "file_noport", "file_intpath", "cmd_none", "cmd_noport",
             "cmd_int", "echo_noport", "reboot_like", "sender_odd", "case", "bytesaction",
             "empty", "echo_other", "redir_other", "file_other", "term_other", "prefix", "suffix",
             "cmd_strport", "cmd_list", "echo_strport", "term_strport", "file_strport",
             "fwd_strport", "redir_strm2m", "cmd_listport", "file_listpath", "term_listname"]

    @classmethod
    def g_bogus(cls, rng, prop):
        return cls.common(rng, prop, "bogus", what=rng.choice(cls.BOGUS), num="new",
                          tx=[[rng.choice([0, 0.01, 0.3]), 15]] if rng.random() < 0.6 else [])

    # ================================================================ set-up
    def setup(self):
        Link.setup(self)
        c = self.cfg
        self.uses = []
        self.conns = []
        self.congs = []
        self.numbers = []
        self.next_num = 1000
        self.cmds = {}              # command text -> use
        self.cmd_kids = {}          # use key -> Child
        self.term_wait = []         # uses whose shell was not forked yet
        self.term_kids = []         # (script owner use, Child)
        self.reboots = []           # instructions: dict(t, ack)
        self.reboot_kids = []
        self.odd_kids = []
        self.syncs = []
        self.port_uses = {}
        self.mapped_by_tag = {}
        self.t_judge = None
        self.closing = False
        self.faulty = []            # windows (a, b) of failing threads or forks
        self.raws = []
        for name, port in SERVICES.items():
            v = "refuse" if port in c.get("closed_ports", ()) else "accept"
            self.k.listeners[(LOCAL_IP, port)] = LocalServer(self, port, None, v)
        self.k.recycle = c.get("recycle", False)
        if "limits" in c:
            self.env["DATAPLICITY_LIMIT_SERVICES"] = str(c["limits"][0])
            self.env["DATAPLICITY_LIMIT_TERMINALS"] = str(c["limits"][1])
        for name in ("thread_fail", "fork_fail"):
            if name in c:
                t, d, p = c[name]
                a = self.sim.now + int(t * SEC)
                b = a + int(d * SEC)
                self.faulty.append((a, b))
                if name == "thread_fail":
                    self.k.thread_fail = lambda: a <= self.sim.now <= b and \
                        self.sim.chance("thread_fail", p)
                else:
                    self.k.fork_fail = lambda kind, argv: a <= self.sim.now <= b and \
                        self.sim.chance("fork_fail", p)
        if "meta_fails_until" in c:
            self.t_meta = self.sim.now + int(c["meta_fails_until"] * SEC)
            self.api.plan_for = self._meta_plan

    def _meta_plan(self, r):
        if "device.set_agent_version" in r.methods and self.sim.now < self.t_meta and \
                not self.faults_over:
            return {"kind": "http", "code": 503}
        return {}

    # ================================================================ operations
    def op_congest(self, d):
        s = self.session()
        if s is None or s.end.paused:
            return
        self.sim.fault("congestion")
        s.end.paused = True
        w = [self.sim.now, None]
        self.congs.append(w)

        def over():
            w[1] = self.sim.now
            if s.alive and not s.frozen:
                s.end.unpause()
        self.sim.after(int(d * SEC), over)

    def op_reboot(self):
        s = self.session()
        if s is None:
            return
        r = dict(t=self.sim.now, s=s, ack=None)
        self.reboots.append(r)
        s.instruct(action="reboot-device")
        s.marker(lambda: r.__setitem__("ack", self.sim.now))

    def op_sync(self):
        s = self.session()
        if s is None:
            return
        r = dict(t=self.sim.now, s=s, ack=None)
        self.syncs.append(r)
        s.instruct(action="sync")
        s.marker(lambda: r.__setitem__("ack", self.sim.now))

    def op_use(self, spec):
        s = self.session()
        if s is None:
            return None
        number, reused = self._number(s, spec)
        if reused:
            self.sim.probe("number_reused")
        u = s.open_use(number, spec["kind"])
        u.info = spec
        u.key = len(self.uses)
        u.reused = reused
        u.final = False
        u.conn = None
        u.kid = None
        u.t_tx = u.t_open
        u.port = None
        u.up = stream("u%d" % u.key, sum(n for _, n in spec.get("tx", ())))
        u.upos = 0
        u.t_rx = None               # last data from the agent
        u.t_first = None
        u.rx_at_close = None
        u.on_data = self._use_data
        u.on_close_req = self._use_close
        u.valid_sizes = []
        u.noise = False
        u.acked = None
        u.t_ctrl = u.t_open
        self.uses.append(u)
        self.sim.probe("use_" + spec["kind"])
        if spec.get("open") == 1:
            s.packet("notify_open", number)
        getattr(self, "start_" + spec["kind"])(u, spec)
        if spec.get("open") == 2:
            s.packet("notify_open", number)
        s.marker(lambda: setattr(u, "acked", self.sim.now))
        self._tx(u, list(spec.get("tx", ())))
        self._ctl(u, list(spec.get("ctrl", ())))
        if spec.get("close") is not None:
            self.sim.after(int(spec["close"] * SEC), self._close, u)
        return u

    def _number(self, s, spec):
        if spec.get("num") == "reuse":
            cand = []
            for n in self.numbers:
                p = s.uses.get(n)
                if p is None or (p.close_acked is not None and
                                 self.sim.now - p.close_acked >= 10 * SEC):
                    cand.append(n)
            if cand:
                return cand[spec.get("pick", 0) % len(cand)], True
        nr = spec.get("nr")
        if isinstance(nr, str):
            nr = (self.numbers[-1] if self.numbers else 1000) + int(nr)
        while nr is None or nr in self.numbers:
            self.next_num += 1
            nr = self.next_num
        self.numbers.append(nr)
        return nr, False

    def _use_data(self, u, data):
        u.t_rx = self.sim.now
        if u.t_first is None:
            u.t_first = self.sim.now

    def _use_close(self, u):
        if u.rx_at_close is None:
            u.rx_at_close = len(u.rx)
            u.ctrl_at_close = len(u.ctrl)

    def _tx(self, u, todo):
        if not todo or not u.open:
            return
        dt, n = todo.pop(0)
        self.sim.after(int(dt * SEC), self._tx1, u, n, todo)

    def _tx1(self, u, n, todo):
        if not u.open:
            return
        u.t_tx = self.sim.now
        u.send(u.up[u.upos:u.upos + n])
        u.upos += n
        if u.kind == "raw":
            e = [None, u.upos, self.sim.now]
            u.avail.append(e)
            u.sess.marker(lambda: e.__setitem__(0, self.sim.now))
        self._tx(u, todo)

    def _ctl(self, u, todo):
        if not todo or not u.open:
            return
        dt, text = todo.pop(0)
        self.sim.after(int(dt * SEC), self._ctl1, u, text, todo)

    def _ctl1(self, u, text, todo):
        if not u.open:
            return
        u.t_ctrl = self.sim.now
        u.control(text.encode("latin-1"))
        self._ctl(u, todo)

    def _close(self, u):
        if u.open and u is u.sess.uses.get(u.number):
            self.sim.fault("channel_closed_by_user")
            u.close()

    # ---- starting services
    def start_echo(self, u, spec):
        u.sess.instruct(action="open-echo", port=u.number)

    def start_fwd(self, u, spec):
        u.port = SERVICES[spec["service"]]
        self.port_uses.setdefault(u.port, []).append(u)
        self.mapped_by_tag[stream("u%d" % u.key, 16)] = u
        u.sess.packet("instruction", b"hub", {"action": "open-portforward",
                                              "service": spec["service"],
                                              "route": [b"node1", 1, b"node2", u.number]})

    def start_badsvc(self, u, spec):
        u.sess.packet("instruction", b"hub", {"action": "open-portforward",
                                              "service": spec["service"],
                                              "route": [b"node1", 1, b"node2", u.number]})

    def start_redir(self, u, spec):
        u.port = 3000 + u.key
        self.port_uses.setdefault(u.port, []).append(u)
        v = spec.get("verdict", "accept")
        if v != "none":
            self.k.listeners[(LOCAL_IP, u.port)] = LocalServer(self, u.port, u, v)
        u.sess.instruct(action="open-portredirect", m2m_port=u.number, device_port=u.port)

    def start_term(self, u, spec):
        self.term_wait.append(u)
        kw = {}
        if spec.get("size") is not None:
            kw["size"] = spec["size"]
        u.sess.instruct(action="open-terminal", port=u.number, name="shell", **kw)

    def start_file(self, u, spec):
        fs = self.k.fs
        bad = spec.get("bad", "")
        path = "/srv/files/f%d.bin" % u.key
        u.data = stream("f%d" % u.key, spec["size"])
        if bad == "dir":
            fs.makedirs(path)
        elif bad == "missing":
            fs.makedirs("/srv/files")
        elif bad == "loop":
            fs.makedirs("/srv/files")
            fs.symlink(path, path)
        else:
            n = fs.put(path, u.data)
            n.nosize = bool(spec.get("proc"))
            u.least = len(u.data)
            u.datas = [u.data]
            t = 0
            grow = spec.get("grow") or []
            more = stream("more%d" % u.key, sum(x for _, x in grow))
            for d, size in grow:
                t += int(d * SEC)
                u.data = u.data + more[:size]
                more = more[size:]
                u.datas = [u.data]
                self.sim.after(t, fs.resize_to, n, u.data)
            if spec.get("swap"):
                d, size = spec["swap"]
                u.datas.append(stream("g%d" % u.key, size))
                self.sim.after(int(d * SEC), fs.replace, path, u.datas[-1])
            if bad == "eacces":
                fs.rules.append(dict(ops=("open_r",), match=path, skip=0, times=1 << 30, errno=13))
            elif bad == "eio":
                fs.rules.append(dict(ops=("read",), match=path, skip=spec["at"], times=1 << 30,
                                     errno=5))
        u.sess.instruct(action="read-file", port=u.number,
                        path=path if u.key % 2 else path[1:])

    def start_cmd(self, u, spec):
        text = "cmd-%d --now" % u.key
        self.cmds[text] = u
        u.sess.instruct(action="run-command", port=u.number, command=text)

    def start_raw(self, u, spec):
        u.avail = []
        u.reads = []
        u.closed_calls = 0
        self.raws.append(u)

        def go():
            if self.proc.alive and u.sess.alive:
                self.in_agent(lambda: self._raw_reader(u), "raw%d" % u.key)
        u.sess.marker(go)

    def _raw_reader(self, u):
        sim = self.sim
        wsc = self.client.m2m.m2m_client
        # get_channel() would make a new one for a number closed this moment
        ch = wsc.channels.get(u.number) if u.open else None
        if ch is None:
            return      # (with u closed it may already be the number's next use)

        def closed():
            u.closed_calls += 1
            u.t_told = sim.now
        ch.set_callbacks(on_close=closed)
        # with the channel closed meanwhile, nobody need tell this reader
        u.reader = wsc.channels.get(u.number) is ch and not ch.is_closed
        for op in u.info["reads"]:
            t0 = sim.now
            if op[0] == "sleep":
                sim.park(int(op[1] * SEC), "raw sleep")
                continue
            if op[0] == "read":
                res = ch.read(op[1], timeout=op[2], block=bool(op[3])) if op[3] else ch.read(op[1])
                if isinstance(res, (bytes, bytearray)):
                    res = bytes(res)
            elif op[0] == "size":
                res = ch.size
            else:
                res = bool(ch)
            u.reads.append((op, t0, sim.now, res))

    def start_badsvc_(self, u, spec):
        pass

    def start_bogus(self, u, spec):
        s = u.sess
        n = u.number
        w = spec["what"]
        d = {
            "none": {}, "unknown": {"action": "open-door", "port": n},
            "noaction": {"port": n, "command": "bogus"}, "intaction": {"action": 5, "port": n},
            "listaction": {"action": ["reboot-device"], "port": n},
            "term_noname": {"action": "open-terminal", "port": n},
            "term_noport": {"action": "open-terminal", "name": "shell"},
            "term_badname": {"action": "open-terminal", "port": n, "name": "root"},
            "term_badsize": {"action": "open-terminal", "port": n, "name": "shell", "size": [1]},
            "term_intname": {"action": "open-terminal", "port": n, "name": 0},
            "fwd_noroute": {"action": "open-portforward", "service": "web"},
            "fwd_shortroute": {"action": "open-portforward", "service": "web", "route": [b"a", 1]},
            "fwd_introute": {"action": "open-portforward", "service": "web", "route": 5},
            "fwd_noservice": {"action": "open-portforward", "route": [b"a", 1, b"b", n]},
            "redir_noport": {"action": "open-portredirect", "device_port": 80},
            "redir_nodev": {"action": "open-portredirect", "m2m_port": n},
            "redir_strport": {"action": "open-portredirect", "m2m_port": n, "device_port": "80"},
            "redir_bigport": {"action": "open-portredirect", "m2m_port": n, "device_port": 65616},
            "file_nopath": {"action": "read-file", "port": n},
            "file_noport": {"action": "read-file", "path": "/etc/secret"},
            "file_intpath": {"action": "read-file", "port": n, "path": 5},
            "cmd_none": {"action": "run-command", "port": n},
            "cmd_noport": {"action": "run-command", "command": "bogus"},
            "cmd_int": {"action": "run-command", "port": n, "command": 5},
            "echo_noport": {"action": "open-echo"},
            "reboot_like": {"action": "reboot-device "}, "case": {"action": "Reboot-Device"},
            "sender_odd": {"action": "nothing"}, "bytesaction": {"action": b"\xffreboot"},
            "empty": {"action": "", "port": n}, "prefix": {"action": "reboot", "port": n},
            "suffix": {"action": "sync-device", "port": n},
            "echo_other": {"action": "open-echo", "m2m_port": n},
            "redir_other": {"action": "open-portredirect", "port": n, "device_port": 9000},
            "file_other": {"action": "read-file", "m2m_port": n, "path": "/etc/secret"},
            "term_other": {"action": "open-terminal", "port": n, "terminal": "shell"},
            "cmd_strport": {"action": "run-command", "port": "x1", "command": "bogus"},
            "cmd_listport": {"action": "run-command", "port": [n], "command": "bogus"},
            "cmd_list": {"action": "run-command", "port": n, "command": ["bogus"]},
            "echo_strport": {"action": "open-echo", "port": "x1"},
            "term_strport": {"action": "open-terminal", "name": "shell", "port": "x1"},
            "file_strport": {"action": "read-file", "path": "/etc/secret", "port": "x1"},
            "fwd_strport": {"action": "open-portforward", "service": "web",
                            "route": [b"a", 1, b"b", b"x1"]},
            "redir_strm2m": {"action": "open-portredirect", "m2m_port": "x1", "device_port": 9000},
            "file_listpath": {"action": "read-file", "port": n, "path": ["/etc/secret"]},
            "term_listname": {"action": "open-terminal", "port": n, "name": ["shell"]},
        }[w]
        self.sim.fault("bad_instruction")
        if w == "sender_odd":
            s.packet("instruction", 5, {"action": "reboot-device"})
        else:
            s.packet("instruction", b"hub", d)

    # ---- programs
    def pty_program(self, argv):
        if not self.term_wait:
            return [["hang"]], {"tag": "unasked"}
        u = self.term_wait.pop(0)
        return self._prog("t", u)

    def _prog(self, pre, u):
        spec = u.info
        acts = []
        n = {"out": sum(a[1] for a in spec["script"] if a[0] == "out"),
             "err": sum(a[1] for a in spec["script"] if a[0] == "err")}
        data = {"out": stream("%s%d" % (pre, u.key), n["out"]),
                "err": stream("e%d" % u.key, n["err"])}
        pos = {"out": 0, "err": 0}
        for a in spec["script"]:
            if a[0] in pos:
                k = a[0]
                acts.append((k, data[k][pos[k]:pos[k] + a[1]]))
                pos[k] += a[1]
            else:
                acts.append(tuple(a))
        opts = dict(spec.get("opts") or {})
        if "handlers" in opts:
            opts["handlers"] = {int(k): v for k, v in opts["handlers"].items()}
        opts["tag"] = "%s%d" % (pre, u.key)
        opts["owner"] = u
        return acts, opts

    def pty_started(self, p, c):
        Scenario.pty_started(self, p, c)
        u = c.opts.get("owner")
        self.term_kids.append((u, c))
        c.user = None

    def popen_program(self, argv):
        text = argv[-1]
        if argv[0].endswith("sudo"):
            self.reboot_kids.append((self.sim.now, tuple(argv)))
            return [("sleep", 0.1), ("exit", 0)], {"tag": "reboot"}
        u = self.cmds.get(text)
        if u is None or argv[:-1] not in (["/bin/sh", "-c"], ["sh", "-c"]):
            return self.other_program(argv)
        acts, opts = self._prog("c", u)
        if u.info.get("sig"):
            dt, sig = u.info["sig"]
            opts["sigafter"] = (dt, sig)
        return acts, opts

    def other_program(self, argv):
        from ..simmods import ExecFails
        if argv and argv[0].endswith("ifconfig") or "tags" in argv[-1] or argv[0].startswith("/home"):
            import errno
            raise ExecFails(errno.ENOENT)
        self.odd_kids.append((self.sim.now, tuple(argv)))
        return [("exit", 0)], {"tag": "odd"}

    def map_conn(self, c):
        u = self.mapped_by_tag.get(bytes(c.rx[:16]))
        if u is None or u.port != c.port:
            self.violate("C05", "misrouted", "a connection to port %d got %r" % (
                c.port, bytes(c.rx[:40])))
            self.violate("C07", "misrouted", "a connection to port %d got %r" % (
                c.port, bytes(c.rx[:40])))
            return
        if u.conn is not None:
            self.violate("C07", "two_connections", "%r" % u)
            return
        c.map(u)

    # ================================================================ running
    def drive(self):
        self.boot()
        self.schedule()
        for k in self.k.children:
            pass
        self.sim.after(0, self._sigs)
        self.run_for(self.cfg["dur"])
        self.end_faults()
        ok = self.wait_working(REGAIN + GRACE)
        if not ok:
            st = self.why_not()
            self.violate("C01", "not_regained:" + st, "")
        self.ok = ok
        self.run_for(22)
        self.close_all()
        self.run_for(45)
        if ok and "limits" in self.cfg:
            self.limit_phase()
        self.t_judge = self.sim.now
        self.judge(ok)

    def end_faults(self):
        Link.end_faults(self)
        self.k.thread_fail = None
        self.k.fork_fail = None

    def _sigs(self):
        """Signals from elsewhere to commands."""
        for c in self.k.children:
            if getattr(c, "sig_done", False):
                continue
            s = c.opts.get("sigafter")
            if s:
                c.sig_done = True
                self.sim.after(int(s[0] * SEC), c.signal, s[1], "someone")
        if not self.faults_over:
            self.sim.after(50 * MS, self._sigs)

    def close_all(self):
        for s in self.m2m.sessions:
            if s.alive:
                for u in s.all_uses:
                    if u.open and u is s.uses.get(u.number):
                        u.close()

    def limit_phase(self):
        self.final_uses = {}
        del self.term_wait[:]       # programs for terminals that were refused
        ls, lt = self.cfg["limits"]
        for pool, n in (("services", ls), ("terminals", lt)):
            us = []
            for i in range(n + 1):
                if pool == "services":
                    if self.sim.chance("final.kind", 0.5):
                        spec = dict(kind="redir", verdict="accept", srv=[["until_fin"], ["close"]],
                                    tx=[])
                    else:
                        spec = dict(kind="cmd", script=[["out", 16], ["hang"]], opts={}, tx=[])
                else:
                    spec = dict(kind="term", script=[["out", 16], ["hang"]], opts={}, tx=[],
                                size=None, ctrl=[])
                u = self.op_use(spec)
                if u is None:
                    return
                u.final = True
                us.append(u)
            self.final_uses[pool] = us
        self.run_for(15)
        self.final_state = {}
        for pool, us in self.final_uses.items():
            self.final_state[pool] = [(self.refused(u), self.served(u), u.sess.alive) for u in us]
        self.close_all()
        self.run_for(35)

    # ================================================================ judging
    def bad(self, u, props, key, msg=""):
        if isinstance(props, str):
            props = (props,)
        text = "%s #%d (use %d, session %d)%s: %s" % (
            u.kind, u.number, u.key, u.sess.idx, " reused number" if u.reused else "", msg)
        for p in props:
            self.violate(p, key, text)
        if u.reused and "C06" not in props:
            self.violate("C06", "reuse:" + key, text)

    def good_until(self, s):
        c = getattr(s, "_good", None)
        if c is not None:
            return c
        t = min(self.broken.get(s.idx, INF), s.t_end if s.t_end is not None else INF)
        for x in self.m2m.sessions[s.idx + 1:s.idx + 2]:
            t = min(t, x.t_accept)
        for a, b in self.holes + self.congs:
            b = b if b is not None else self.t_judge
            if b - a > 60 * SEC and b > s.t_accept:
                t = min(t, max(a, s.t_accept))
        s._good = t
        return t

    def noticed(self, s):
        """(earliest, latest) time at which the agent knew that session s was over."""
        g = self.good_until(s)
        if g == INF:
            return INF, INF
        silent = True
        if s.end_why in ("server reset", "server closed", "fin from agent", "reset"):
            silent = False
        hi = g + (200 if silent else 15) * SEC
        lo = g
        for a, b in self.holes:
            b = b if b is not None else self.t_judge
            if a < g + 15 * SEC and b > g - 200 * SEC:
                hi = max(hi, g + 200 * SEC)
                lo = min(lo, a)
        for x in self.m2m.sessions[s.idx + 1:s.idx + 2]:
            hi = min(hi, x.t_accept + 1 * SEC)
        return lo, hi

    def notice(self, u):
        """(earliest, latest) time at which the agent knew that use u was over."""
        lo, hi = self.noticed(u.sess)
        if u.t_close is not None:
            lo = min(lo, u.t_close)
            if u.close_acked is not None:
                hi = min(hi, u.close_acked)
        return lo, hi

    def slack(self, a, b):
        tot = 0
        for x, y in self.holes + self.congs:
            y = (y if y is not None else self.t_judge) + 5 * SEC
            lo, hi = max(a, x), min(b, y)
            if hi > lo:
                tot += hi - lo
        return tot

    def stalls_in(self, a, b):
        """How long threads were stalled by the scheduler between a and b, in all."""
        return sum(d for t, d in self.sim.stalls if a - 3 * SEC <= t <= b)

    def overdue(self, t0, t1, bound):
        if t1 is None:
            t1 = self.t_judge
        if t1 <= t0:
            return False
        return t1 - t0 - self.slack(t0, t1) > int((bound + GRACE) * SEC)

    def end_of(self, u):
        return min(u.t_close if u.t_close is not None else INF, self.good_until(u.sess),
                   self.t_judge)

    def near_fault(self, u):
        return any(a - SEC <= u.t_open <= b + 15 * SEC or a <= self.end_of(u) + 15 * SEC and
                   b >= u.t_open for a, b in self.faulty)

    def refused(self, u):
        if u.kind in ("fwd", "redir", "file"):
            return bytes(u.rx).startswith(BUSY) and getattr(u, "data", b"")[:12] != BUSY
        if u.kind == "term":
            return bytes(u.rx).startswith(NOLAUNCH)
        if u.kind == "cmd":
            return any(b'"error"' in c for _, c in u.ctrl)
        return False

    def served(self, u):
        if u.kind in ("fwd", "redir"):
            return u.conn is not None
        if u.kind == "cmd":
            return u.key in self.cmd_kid_by_use()
        if u.kind == "term":
            return bool(u.rx) and not self.refused(u)
        if u.kind == "file":
            return not self.refused(u) and (bool(u.rx) or bool(u.close_req))
        return True

    def cmd_kid_by_use(self):
        out = {}
        for c in self.k.children:
            u = c.opts.get("owner")
            if u is not None and c.kind == "popen":
                out.setdefault(u.key, []).append(c)
        return out

    def judge(self, ok):
        if self.prop == "C04":
            self.check_pings()
        self.cmdk = self.cmd_kid_by_use()
        self.map_terms()
        for u in self.uses:
            getattr(self, "judge_" + u.kind)(u)
            self.judge_late(u)
        self.judge_links()
        self.judge_kids()
        self.judge_limits()
        self.judge_instructions()

    def content(self, u, got, want, props, what):
        """got must be a prefix of want. Returns True if it is."""
        if want[:len(got)] == got:
            return True
        n = 0
        for n in range(min(len(got), len(want)) + 1):
            if got[n:n + 1] != want[n:n + 1]:
                break
        self.bad(u, props, what + "_altered", "%d bytes, expected a prefix of %d; differs at %d: "
                 "%r instead of %r" % (len(got), len(want), n, got[n:n + 30], want[n:n + 30]))
        return False

    def judge_late(self, u):
        late = []
        for x in u.late:
            # without a thread held up or a congested link, nothing can still be on its way
            bound = GRACE * SEC if self.stalls_in(u.close_acked, x[0]) else 0.4 * SEC
            if x[0] - u.close_acked > int(bound) + self.slack(u.close_acked, x[0]):
                late.append(x)
        if late:
            self.violate("C06", "late:" + late[0][1], "%r: %s %.3f s after the agent saw the close"
                         % (u, late[0][1], (late[0][0] - u.close_acked) / 1e9))
            own = {"file": "C12", "cmd": "C13"}.get(u.kind)
            if own:
                self.violate(own, "late:" + late[0][1], "%r" % u)
        elif len(u.late) > 4:
            self.violate("C06", "keeps_sending", "%r: %d packets after the close" % (
                u, len(u.late)))

    def judge_echo(self, u):
        if not self.content(u, bytes(u.rx), bytes(u.tx), ("C05",), "echo"):
            return
        if len(u.rx) < len(u.tx) and self.overdue(u.t_tx, self.end_of(u), 15):
            self.bad(u, "C05", "echo_lost", "%d of %d bytes echoed" % (len(u.rx), len(u.tx)))
        self.no_noise(u)

    def no_noise(self, u):
        if u.ctrl:
            self.bad(u, "C26", "unasked_control", "%r" % (u.ctrl[:2],))
        if u.close_req:
            self.bad(u, ("C05", "C06"), "closed_for_nothing", "")

    def judge_badsvc(self, u):
        if u.rx or u.ctrl or u.close_req:
            self.bad(u, ("C08", "C26"), "unknown_service_acts", "%r %r" % (bytes(u.rx[:40]), u.ctrl[:1]))

    def judge_bogus(self, u):
        odd = [c for _, c in u.ctrl if b'"error"' not in c]
        if u.rx or odd:
            self.bad(u, "C26", "bad_instruction_acts:" + u.info["what"], "%r %r" % (
                bytes(u.rx[:60]), odd[:1]))

    # ---- forwards
    def judge_fwd(self, u):
        self.judge_fw(u)

    def judge_redir(self, u):
        self.judge_fw(u)

    def judge_fw(self, u):
        end = self.end_of(u)
        c = u.conn
        nlo, nhi = self.notice(u)
        if self.refused(u):
            if c is not None and not self.near_fault(u):
                self.bad(u, ("C11", "C08"), "refused_after_start", "")
            return
        closed = u.info.get("verdict", "accept") != "accept" or \
            u.kind == "fwd" and u.port in self.cfg.get("closed_ports", ())
        req = u.close_req[0] if u.close_req else None
        if c is None:
            if u.rx:
                self.bad(u, ("C05", "C07"), "bytes_from_nowhere", "%r" % bytes(u.rx[:60]))
            if u.ctrl:
                self.bad(u, "C26", "unasked_control", "%r" % (u.ctrl[:2],))
            if closed:
                if req is None and self.overdue(u.t_open, end, 15):
                    self.bad(u, "C08", "failed_connect_not_reported", "port %d" % u.port)
            elif self.near_fault(u):
                pass
            elif (u.kind == "redir" or len(u.tx) >= 16):
                t0 = u.t_open if u.kind == "redir" else u.t_tx
                if self.overdue(t0, end, 15):
                    self.bad(u, "C08", "never_connected", "port %d, %d bytes sent, close requests %r"
                             % (u.port, len(u.tx), u.close_req))
            return
        # bytes to the server
        if not self.content(u, bytes(c.rx), bytes(u.tx), ("C05", "C07"), "up"):
            return
        if not self.content(u, bytes(u.rx), bytes(c.pushed), ("C05", "C07"), "down"):
            return
        le = c.t_local_end
        peer = c.end.peer
        stop = min(end, le if le is not None else INF, c.t_rst if c.t_rst is not None else INF,
                   c.t_fin if c.t_fin is not None else INF)
        if len(c.rx) < len(u.tx) and not c.end.paused:
            t0 = max(u.t_tx, c.t_accept, c.t_read or 0)
            if self.overdue(t0, stop, 15):
                self.bad(u, "C07", "up_lost", "the server got %d of %d bytes" % (
                    len(c.rx), len(u.tx)))
        if len(u.rx) < len(c.pushed) and c.t_push is not None:
            if self.overdue(c.t_push, min(end, c.t_reset if c.t_reset is not None else INF), 15) \
                    and not peer.rst_rcvd:
                self.bad(u, "C07", "down_lost", "the user got %d of %d bytes" % (
                    len(u.rx), len(c.pushed)))
            elif req is not None and u.rx_at_close < len(c.pushed) and \
                    (c.t_close is not None or c.t_shut is not None) and c.t_reset is None and \
                    not peer.rst_rcvd and req < end:
                self.bad(u, "C07", "down_cut_short", "%d of %d bytes before the close" % (
                    u.rx_at_close, len(c.pushed)))
        # all that was sent before the user closed reaches a server that reads
        tc = u.t_close
        if tc is not None and len(c.rx) < len(u.tx) and self.good_until(u.sess) > tc + 25 * SEC and \
                self.t_judge > tc + 25 * SEC and not self.near_fault(u) and c.t_rst is None and \
                (le is None or c.t_fin is not None and le >= c.t_fin) and \
                not self.slack(u.t_open - SEC, tc + 25 * SEC) and \
                not any(a[0] in ("pause", "reset") for a in u.info.get("srv") or ()) and \
                self.stalls_in(u.t_open, tc + 20 * SEC) <= 2 * SEC:
            self.bad(u, "C07", "up_cut_short", "the server got %d of %d bytes sent before the "
                     "close" % (len(c.rx), len(u.tx)))
        # ends
        if le is not None and req is None and self.overdue(le, end, 15):
            self.bad(u, "C08", "channel_left_open", "the local server ended %.1f s before" % (
                (end - le) / 1e9))
        if le is not None and req is not None and req > le and self.overdue(le, req, 15):
            self.bad(u, "C08", "channel_closed_late", "%.1f s after the local server ended" % (
                (req - le) / 1e9))
        if nhi < INF:
            gone = peer.t_app_closed
            if self.overdue(nhi, gone, 25):
                self.bad(u, "C08", "socket_left_open", "%s after the user or the link ended" % (
                    "%.1f s" % ((gone - nhi) / 1e9) if gone is not None else "still open %.1f s" % (
                        (self.t_judge - nhi) / 1e9)))
        cause = min(le if le is not None else INF, nlo, c.t_rst if c.t_rst is not None and
                    peer.t_app_closed is None else INF)
        if req is not None and req < cause and not self.near_fault(u):
            ps = ("C08", "C05", "C07") if len(c.rx) < len(u.tx) or len(u.rx) < len(c.pushed) else \
                ("C08", "C05")
            self.bad(u, ps, "closed_for_nothing", "close requested at %.3f s" % (
                (req - 1000 * SEC) / 1e9))
        act = min([t for t in (peer.t_app_closed, c.t_fin) if t is not None] or [INF])
        if act < cause and not self.near_fault(u):
            ps = ("C08", "C05", "C07") if len(c.rx) < len(u.tx) or len(u.rx) < len(c.pushed) else \
                ("C08", "C05")
            self.bad(u, ps, "disconnected_for_nothing", "at %.3f s" % ((act - 1000 * SEC) / 1e9))
        if u.ctrl:
            self.bad(u, "C26", "unasked_control", "%r" % (u.ctrl[:2],))

    def judge_links(self):
        """Connections the agent made, as a whole."""
        count = {}
        for t, ip, port in self.k.connect_log:
            if ip == self.m2m_link.name:
                continue
            if ip != LOCAL_IP:
                self.violate("C08", "connects_elsewhere", "%s:%d" % (ip, port))
                continue
            count[port] = count.get(port, 0) + 1
        for port, n in count.items():
            us = self.port_uses.get(port, ())
            if n > len(us):
                for p in ("C08", "C26"):
                    self.violate(p, "connects_unasked" if not us else "connects_twice",
                                 "%d connections to port %d, %d requests" % (n, port, len(us)))

    # ---- terminals
    def map_terms(self):
        """Which use each shell belongs to, by what it printed or got."""
        by_out = {}
        by_in = {}
        for u in self.uses:
            if u.kind != "term":
                continue
            by_in[stream("u%d" % u.key, 16)] = u
            if len(u.rx) >= 16:
                by_out[bytes(u.rx[:16])] = u
        for own, c in self.term_kids:
            tag = bytes(c.written["out"][:16])
            u = by_out.get(tag) if len(tag) == 16 else None
            if u is None:
                # an echoed or typed tag
                t2 = bytes(c.pty.total_in[:16])
                u = by_in.get(t2) if len(t2) == 16 else None
            if u is not None:
                if u.kid is None:
                    u.kid = c
                    c.user = u
                else:
                    self.bad(u, ("C09", "C26"), "two_shells", "")

    def judge_term(self, u):
        end = self.end_of(u)
        c = u.kid
        req = u.close_req[0] if u.close_req else None
        if self.refused(u):
            return
        if u.ctrl:
            self.bad(u, "C26", "unasked_control", "%r" % (u.ctrl[:2],))
        if c is None:
            if len(u.rx) >= 16:
                self.bad(u, ("C05", "C09"), "bytes_from_nowhere", "%r" % bytes(u.rx[:60]))
            return
        if not self.content(u, bytes(c.pty.total_in), bytes(u.tx), ("C05", "C09"), "typed"):
            return
        if not self.content(u, bytes(u.rx), bytes(c.written["out"]), ("C05", "C09"), "printed"):
            return
        alive = min(x for x in (c.exit_time, c.t_ttyclosed, INF) if x is not None)
        if len(c.pty.total_in) < len(u.tx) and len(c.pty.ibuf) < c.pty.icap // 2:
            if self.overdue(max(u.t_tx, c.started), min(end, alive), 15):
                self.bad(u, "C09", "typed_lost", "%d of %d bytes typed" % (
                    len(c.pty.total_in), len(u.tx)))
        t_out = c.t_out or c.started
        if len(u.rx) < len(c.written["out"]):
            if self.overdue(t_out, min(end, req if req is not None else INF), 15):
                self.bad(u, "C09", "printed_lost", "%d of %d bytes shown" % (
                    len(u.rx), len(c.written["out"])))
            elif req is not None and req < end and alive < INF and \
                    not [x for x in c.signals if x[0] <= alive] and req > alive:
                self.bad(u, "C09", "last_words_lost", "%d of %d bytes shown before the channel was "
                         "closed" % (u.rx_at_close, len(c.written["out"])))
        # sizes
        size = u.info.get("size") or [80, 24]
        want = [(size[1], size[0])]
        for b in u.tx_ctrl:
            z = self.valid_resize(b)
            if z == "odd":
                want = None
                break
            if z is not None:
                want.append((z[1], z[0]))
        if want is not None:
            got = []
            for z in c.pty.sizes:
                z = (z[0], z[1])
                if not got or got[-1] != z:
                    got.append(z)
            i = 0
            for z in got:
                while i < len(want) and want[i] != z:
                    i += 1
                if i >= len(want):
                    self.bad(u, "C09", "wrong_size", "sizes %r, asked %r" % (got, want))
                    break
            else:
                if (not got or got[-1] != want[-1]) and \
                        self.overdue(max(u.t_ctrl, c.started), min(end, alive), 15):
                    self.bad(u, "C09", "not_resized", "sizes %r, asked %r" % (got, want))
        # ends
        if alive < INF and req is None and self.overdue(alive, end, 15):
            self.bad(u, "C10", "channel_left_open", "the shell exited %.1f s before" % (
                (end - alive) / 1e9))
        if req is not None and alive < INF and req > alive and self.overdue(alive, req, 15):
            self.bad(u, "C10", "channel_closed_late", "%.1f s after the shell exited" % (
                (req - alive) / 1e9))
        nlo, nhi = self.notice(u)
        if req is not None and req < min(nlo, alive) and not self.near_fault(u):
            self.bad(u, ("C10", "C09"), "closed_for_nothing", "")
        for t, sig, by in c.signals:
            if by in ("agent", "tty") and t < nlo and t < alive and not self.near_fault(u):
                self.bad(u, ("C10", "C09"), "signalled_for_nothing", "signal %d (%s)" % (sig, by))
                break

    @staticmethod
    def valid_resize(b):
        """[cols, rows], None (must be ignored) or "odd" (unspecified)."""
        try:
            o = json.loads(b.decode("utf-8"))
        except (ValueError, RecursionError):
            return None
        if not isinstance(o, dict) or o.get("type") != "window_resize":
            return None
        z = o.get("size")
        if isinstance(z, list) and len(z) == 2 and all(
                isinstance(v, int) and not isinstance(v, bool) and 0 < v < 32768 for v in z):
            return z
        return None

    def judge_kids(self):
        """C10 for every shell, mapped to a use or not."""
        killed_agent = None
        for own, c in self.term_kids:
            u = c.user
            ex = c.exit_time
            if u is not None:
                lo, hi = self.notice(u)
            else:
                # any of the terminals it may belong to
                cand = [v for v in self.uses if v.kind == "term" and v.kid is None]
                if not cand:
                    self.violate("C26", "shell_unasked", "a shell nobody asked for")
                    continue
                hi = max(self.notice(v)[1] for v in cand)
            if u is not None and self.near_fault(u) or u is None and self.faulty:
                continue
            name = "shell %s" % c.argv0
            start = max(hi, c.started)
            if hi < INF:
                hup = [t for t, s, by in c.signals if s == SIGHUP]
                first = hup[0] if hup else None
                upto = min(x for x in (first, ex, self.t_judge) if x is not None)
                if self.overdue(start, upto, 5):
                    self.violate("C10", "not_hung_up", "%s: %.1f s after its channel ended" % (
                        name, (upto - start) / 1e9))
                if first is not None:
                    kills = [t for t, s, by in c.signals if s == SIGKILL]
                    if kills and kills[0] < first + 13 * SEC and by_agent(c, SIGKILL):
                        self.violate("C10", "killed_early", "%s: SIGKILL %.1f s after the hangup" % (
                            name, (kills[0] - first) / 1e9))
                    k0 = kills[0] if kills else None
                    upto = min(x for x in (k0, ex, self.t_judge) if x is not None)
                    if self.overdue(first, upto, 25):
                        self.violate("C10", "not_killed", "%s: still running %.1f s after the "
                                     "hangup" % (name, (upto - first) / 1e9))
            if ex is not None:
                # output on its way over a dead link may hold its thread up
                dead = any(self.good_until(v.sess) < ex + (15 + GRACE) * SEC
                           for v in ([u] if u is not None else cand))
                if self.overdue(max(ex, hi) if dead else ex, c.t_reaped, 15):
                    self.violate("C10", "not_reaped", "%s: %s" % (
                        name, "reaped %.1f s late" % ((c.t_reaped - ex) / 1e9)
                        if c.t_reaped is not None else "a zombie for %.1f s" % (
                            (self.t_judge - ex) / 1e9)))
        for st in self.k.strangers:
            if any(sig for _, sig in st.signals):
                self.violate("C10", "stranger_signalled", "an unrelated process got signals %r" % (
                    [sig for _, sig in st.signals],))
        for t, pid, sig, what in self.k.kill_log:
            if what == "Proc" and sig:
                self.violate("C10", "stranger_signalled", "the agent signals itself")

    # ---- files
    def judge_file(self, u):
        if self.refused(u):
            return
        end = self.end_of(u)
        bad = u.info.get("bad", "")
        req = u.close_req[0] if u.close_req else None
        want = u.data if bad in ("", "eio") else b""
        least = u.least if bad in ("", "eio") else 0
        if bad in ("", "eio") and len(u.datas) > 1:
            # which one was opened
            if not u.datas[0].startswith(bytes(u.rx)):
                want = u.datas[1]
                least = len(want)
            elif u.datas[1].startswith(bytes(u.rx)):
                least = min(len(x) for x in u.datas)
        if not self.content(u, bytes(u.rx), want, ("C05", "C12"), "file"):
            return
        errs = [c for _, c in u.ctrl]
        for e in errs:
            try:
                d = json.loads(e.decode("utf-8"))
                good = d.get("service") == "remote-file" and d.get("type") == "error"
            except Exception:
                good = False
            if not good:
                self.bad(u, "C12", "odd_control", "%r" % e)
        if self.near_fault(u):
            return
        due = self.overdue(u.t_open, end, 20)
        eio = bad == "eio" and self.hit_eio(u)
        full = bad in ("", "eio") and not eio
        if req is None and due:
            self.bad(u, "C12", "not_closed", "%d of %d bytes, %d errors" % (
                len(u.rx), len(want), len(errs)))
        if req is not None and req <= end or due:
            if full:
                if len(u.rx) < least:
                    self.bad(u, "C12", "cut_short", "%d of %d bytes sent before the close" % (
                        len(u.rx), least))
                if errs:
                    self.bad(u, "C12", "error_for_nothing", "%r" % errs[0])
            elif not errs:
                self.bad(u, "C12", "no_error", "a failing read (%s) ends without an error message, "
                         "%d bytes sent" % (bad, len(u.rx)))
        if len(errs) > 1:
            self.bad(u, "C12", "several_errors", "%r" % errs[:3])
        if errs and full and u.t_close is None and self.good_until(u.sess) == INF:
            self.bad(u, "C12", "error_for_nothing", "%r" % errs[0])
        if req is not None and u.t_close is not None and u.t_close > req:
            if u.rx_at_close != len(u.rx) or u.ctrl_at_close != len(u.ctrl):
                self.bad(u, "C12", "sends_after_close", "")

    def hit_eio(self, u):
        for r in self.k.fs.rules:
            if r["match"] == "/srv/files/f%d.bin" % u.key and r["times"] < 1 << 30:
                return True
        return False

    # ---- commands
    def judge_cmd(self, u):
        kids = self.cmdk.get(u.key, [])
        end = self.end_of(u)
        req = u.close_req[0] if u.close_req else None
        if len(kids) > 1:
            self.bad(u, ("C13", "C26"), "run_twice", "%d times" % len(kids))
        if self.refused(u):
            if kids and not self.near_fault(u):
                self.bad(u, "C13", "error_for_nothing", "%r" % (u.ctrl[0][1],))
            if u.rx and not kids:
                self.bad(u, ("C05", "C13"), "bytes_from_nowhere", "%r" % bytes(u.rx[:60]))
            return
        if not kids:
            if u.rx or u.ctrl:
                self.bad(u, ("C05", "C13"), "bytes_from_nowhere", "%r" % bytes(u.rx[:60]))
            if self.overdue(u.t_open, end, 15) and not self.near_fault(u):
                self.bad(u, ("C13", "C26"), "not_run", "")
            return
        c = kids[0]
        if not self.content(u, bytes(u.rx), bytes(c.written["out"]), ("C05", "C13"), "output"):
            return
        nlo, nhi = self.notice(u)
        done = []
        for t, b in u.ctrl:
            try:
                d = json.loads(b.decode("utf-8"))
                if d.get("service") == "command" and d.get("type") == "complete":
                    done.append((t, d))
                    continue
            except Exception:
                pass
            self.bad(u, "C13", "odd_control", "%r" % b)
        if len(done) > 1:
            self.bad(u, "C13", "completed_twice", "")
        hard = self.near_fault(u)
        code = None
        if c.exit_time is not None:
            code = c.status >> 8 if not c.status & 0x7f else -(c.status & 0x7f)
        own_exit = c.exit_time is not None and not any(by == "agent" for _, _, by in c.signals)
        over = max(c.exit_time or INF, c.t_outclosed or INF) if own_exit else INF
        if done:
            t, d = done[0]
            if c.exit_time is None or t < c.exit_time:
                self.bad(u, "C13", "completed_early", "completion reported while it runs")
            elif d.get("returncode") != code:
                self.bad(u, "C13", "wrong_status", "reported %r, was %r" % (
                    d.get("returncode"), code))
            if t <= nlo and own_exit:
                if len(u.rx) < len(c.written["out"]):
                    self.bad(u, "C13", "output_lost", "%d of %d bytes" % (
                        len(u.rx), len(c.written["out"])))
                if u.t_rx is not None and u.t_rx > t:
                    self.bad(u, "C13", "output_after_completion", "")
        for _, sig, by in c.signals:
            if by == "agent" and _ < nlo and not hard:
                self.bad(u, "C13", "killed_for_nothing", "signal %d" % sig)
                break
        if over < INF and not hard:
            if self.overdue(over, min(end, done[0][0] if done else INF), 10):
                self.bad(u, "C13", "not_completed", "no completion %.1f s after it ended" % (
                    (end - over) / 1e9))
            if self.overdue(over, min(end, req if req is not None else INF), 10):
                self.bad(u, "C13", "not_closed", "channel still open %.1f s after it ended" % (
                    (end - over) / 1e9))
            if req is not None and req <= end and not done:
                self.bad(u, "C13", "closed_without_completion", "")
        if req is not None and done and done[0][0] > req:
            self.bad(u, "C13", "completed_after_close", "")
        if req is not None and req < min(nlo, over) and not hard:
            self.bad(u, "C13", "closed_for_nothing", "")
        t_out = c.t_out or c.started
        if len(u.rx) < len(c.written["out"]) and own_exit is False and c.exit_time is None and \
                self.overdue(t_out, end, 15):
            self.bad(u, "C13", "output_lost", "%d of %d bytes of a running command" % (
                len(u.rx), len(c.written["out"])))
        elif len(u.rx) < len(c.written["out"]) and self.overdue(
                t_out, min(end, c.exit_time or INF), 15):
            self.bad(u, "C13", "output_late", "%d of %d bytes" % (len(u.rx), len(c.written["out"])))
        if nhi < INF and not hard:
            start = max(nhi, c.started)
            kd = (c.opts.get("kill_delay") or 0)
            if self.overdue(start, c.exit_time, 10 + kd):
                self.bad(u, "C13", "not_killed", "still runs %.1f s after the channel was closed" % (
                    ((c.exit_time or self.t_judge) - start) / 1e9))
        if c.exit_time is not None and not hard:
            t0 = c.exit_time
            if own_exit:
                t0 = max(nhi, c.exit_time)
                if over < t0 and over + (15 + GRACE) * SEC < self.good_until(u.sess):
                    t0 = over       # else its output may be held up by a dead link
            if t0 < INF and self.overdue(t0, c.t_reaped, 10):
                self.bad(u, "C13", "not_reaped", "")

    # ---- raw channels
    def judge_raw(self, u):
        if u.rx or u.ctrl or u.close_req:
            self.bad(u, "C26", "unasked_data", "")
        lo, hi = self.notice(u)
        if getattr(u, "reader", False) and hi < INF:
            n = u.closed_calls
            if n > 1:
                self.bad(u, "C06", "told_twice", "%d close callbacks" % n)
            elif n == 0 and self.overdue(hi, self.t_judge, 5):
                self.bad(u, "C06", "not_told", "no close callback")
            elif n == 1 and u.t_told < lo:
                self.bad(u, "C06", "told_early", "")
        pos = 0
        tx = bytes(u.tx)
        for op, t0, t1, res in u.reads:
            before = max([c for a, c, t in u.avail if a is not None and a <= t0] or [0])
            most = max([c for a, c, t in u.avail if t <= t1] or [0])
            have = before - pos
            if op[0] == "read":
                if not isinstance(res, bytes):
                    self.bad(u, "C25", "not_bytes", "%r" % (res,))
                    return
                if len(res) > op[1]:
                    self.bad(u, "C25", "too_much", "read(%d) returned %d bytes" % (op[1], len(res)))
                    return
                if tx[pos:pos + len(res)] != res:
                    self.bad(u, ("C25", "C05"), "altered", "at %d: %r instead of %r" % (
                        pos, res[:40], tx[pos:pos + 40]))
                    return
                if len(res) < min(op[1], have):
                    self.bad(u, "C25", "withheld", "read(%d) returned %d bytes, %d were buffered" % (
                        op[1], len(res), have))
                    return
                if op[3]:
                    lim = int(GRACE * SEC)
                    if have > 0 and op[1] > 0 and t1 - t0 > lim:
                        self.bad(u, "C25", "blocked", "read blocks %.1f s with data there" % (
                            (t1 - t0) / 1e9))
                        return
                    ar = [a for a, c, t in u.avail if a is not None and c > pos and a >= t0]
                    if ar and op[1] > 0 and t1 > min(ar) + lim:
                        self.bad(u, "C25", "slept_on", "data arrived %.1f s before the read "
                                 "returned" % ((t1 - min(ar)) / 1e9))
                        return
                    if not res and op[1] > 0 and t1 - t0 < int(op[2] * SEC) - 5 * MS:
                        self.bad(u, "C25", "gave_up", "read returned nothing after %.3f of %.3f s" % (
                            (t1 - t0) / 1e9, op[2]))
                        return
                    if t1 - t0 > int((op[2] + GRACE) * SEC):
                        self.bad(u, "C25", "overslept", "timeout %.1f s, took %.1f s" % (
                            op[2], (t1 - t0) / 1e9))
                        return
                elif t1 - t0 > int(GRACE * SEC):
                    self.bad(u, "C25", "blocked", "non-blocking read took %.1f s" % ((t1 - t0) / 1e9))
                    return
                pos += len(res)
            elif op[0] == "size":
                if not have <= res <= most - pos:
                    self.bad(u, "C25", "wrong_size", "size %r, %d to %d bytes are buffered" % (
                        res, have, most - pos))
                    return
            else:
                if have > 0 and not res or most - pos <= 0 and res:
                    self.bad(u, "C25", "wrong_emptiness", "bool %r, %d to %d bytes buffered" % (
                        res, have, most - pos))
                    return

    # ---- limits
    def interval(self, u):
        """(start, end) during which u certainly ran, or None."""
        if u.kind in ("fwd", "redir") and u.conn is not None:
            e = u.conn.end.peer.t_app_closed
            return u.conn.t_accept, min(e if e is not None else INF, self.t_judge)
        if u.kind == "cmd" and u.key in self.cmdk:
            c = self.cmdk[u.key][0]
            return c.started, min(c.exit_time or INF, self.t_judge)
        if u.kind == "term" and u.kid is not None:
            c = u.kid
            return c.started, min(c.exit_time or INF, c.t_ttyclosed or INF, self.t_judge)
        return None

    def may_run_until(self, u):
        """A time after which u certainly holds no slot."""
        req = u.close_req[0] if u.close_req else INF
        hi = self.notice(u)[1]
        t = min(req, hi)
        if self.refused(u):
            return min(t, u.t_first or INF) + 5 * SEC
        if t == INF:
            return INF
        extra = 0
        if u.conn is not None:
            e = u.conn.end.peer.t_app_closed
            extra = e if e is not None else INF
        elif u.kind == "cmd" and u.key in self.cmdk:
            extra = self.cmdk[u.key][0].t_reaped or INF
        elif u.kind == "term":
            extra = u.kid.t_reaped or INF if u.kid is not None else t + 60 * SEC
        return max(t, extra) + 30 * SEC

    def judge_limits(self):
        lim = self.cfg.get("limits") or [500, 100]
        for pool, n, kinds in (("services", lim[0], ("fwd", "redir", "cmd", "file")),
                               ("terminals", lim[1], ("term",))):
            us = [u for u in self.uses if u.kind in kinds]
            ev = []
            for u in us:
                i = self.interval(u)
                if i is not None and i[1] > i[0]:
                    ev.append((i[0], 1, u))
                    ev.append((i[1], -1, u))
            ev.sort(key=lambda e: (e[0], e[1]))
            cur = 0
            for t, d, u in ev:
                cur += d
                if cur > n:
                    self.violate("C11", "limit_exceeded:" + pool, "%d %s run at once at %.3f s, "
                                 "limit %d" % (cur, pool, (t - 1000 * SEC) / 1e9, n))
                    break
            for u in us:
                end = self.end_of(u)
                if u.kind == "term" and u.info.get("size") == "bad":
                    continue
                ref = self.refused(u)
                if ref and not self.near_fault(u):
                    others = [v for v in us if v is not u and v.t_open <= u.t_open and
                              self.may_run_until(v) > u.t_open]
                    if len(others) < n:
                        self.bad(u, "C11", "refused_within_limit:" + pool, "%d others can be "
                                 "running, limit %d (%r)" % (len(others), n,
                                                             [v.key for v in others]))
                if ref and not u.close_req and self.overdue(u.t_first or u.t_open, end, 15):
                    self.bad(u, "C11", "refused_not_closed", "")
                if not ref and not u.close_req and not self.served(u) and \
                        self.overdue(u.t_open, end, 20):
                    if u.kind == "term" and self.term_silent(u):
                        continue
                    if u.kind == "fwd" and len(u.tx) < 16:
                        continue
                    self.bad(u, "C11", "vanished", "neither served nor refused after %.1f s" % (
                        (end - u.t_open) / 1e9))
        fs = getattr(self, "final_state", None)
        if fs:
            for pool, st in fs.items():
                if not all(x[2] for x in st):
                    continue
                n = lim[0] if pool == "services" else lim[1]
                served = sum(1 for r, s, _ in st if s and not r)
                ref = sum(1 for r, s, _ in st if r)
                if served < n:
                    self.violate("C11", "slots_lost:" + pool, "after everything ended only %d of %d "
                                 "%s can run (%d refused)" % (served, n, pool, ref))
                elif served > n:
                    self.violate("C11", "limit_exceeded:" + pool, "%d run, limit %d" % (served, n))
                elif ref < 1:
                    self.violate("C11", "not_refused:" + pool, "request %d of %d gets no answer" % (
                        n + 1, n))

    def term_silent(self, u):
        """A terminal whose program may simply have printed nothing yet."""
        return any(c.user is None and not c.written["out"] for _, c in self.term_kids)

    # ---- instructions
    def judge_instructions(self):
        n = len(self.reboot_kids)
        hi = len(self.reboots)
        lo = sum(1 for r in self.reboots if r["ack"] is not None)
        if n > hi:
            self.violate("C26", "reboot_unasked", "%d reboots, %d requests" % (n, hi))
        if n < lo and not self.cfg.get("fork_fail"):
            self.violate("C26", "reboot_ignored", "%d reboots, %d acknowledged requests" % (n, lo))
        for t, argv in self.reboot_kids:
            if argv != ("/usr/bin/sudo", "/sbin/reboot"):
                self.violate("C26", "reboot_command", "%r" % (argv,))
        for t, argv in self.odd_kids:
            self.violate("C26", "program_unasked", "%r" % (argv,))
        nt = len([u for u in self.uses if u.kind == "term"])
        if len(self.term_kids) > nt:
            self.violate("C26", "shell_unasked", "%d shells, %d requests" % (
                len(self.term_kids), nt))
        for own, c in self.term_kids:
            if own is None:
                self.violate("C26", "shell_unasked", "")
        if "meta_fails_until" in self.cfg:
            reqs = [r for r in self.api.reqs if "device.set_agent_version" in r.methods]
            okd = [r.t1 for r in reqs if r.t1 is not None and r.kind == "ok"]
            t_ok = min(okd) if okd else INF
            for y in self.syncs:
                # (the metadata may be acknowledged while the instruction waits)
                if y["ack"] is None or y["ack"] >= t_ok:
                    continue
                if not any(y["t"] <= r.t0 <= y["ack"] + 40 * SEC for r in reqs):
                    self.violate("C26", "sync_ignored", "sync at %.1f s" % (
                        (y["t"] - 1000 * SEC) / 1e9))
            if len(self.procs) == 1:
                # one attempt for every poll and every sync instruction
                t0 = self.procs[0].t_boot
                for i, r in enumerate(sorted(reqs, key=lambda r: r.t0)):
                    polls = (r.t0 - t0) // (60 * SEC) + 1
                    if i + 1 > polls + sum(y["t"] <= r.t0 for y in self.syncs):
                        self.violate("C26", "sync_unasked", "metadata sent at %.1f s for the "
                                     "%dth time" % ((r.t0 - t0) / 1e9, i + 1))
                        break
        us = [u for u in self.uses if u.kind == "term"]
        for u in us:
            if u.kid is None and not self.refused(u) and not self.near_fault(u) and \
                    self.overdue(u.t_open, self.end_of(u), 20) and not self.term_silent(u) and \
                    not u.close_req:
                self.bad(u, "C26", "no_terminal", "")


def by_agent(c, sig):
    return any(s == sig and by == "agent" for _, s, by in c.signals)
