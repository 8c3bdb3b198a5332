"""Losing, corrupting and regaining the m2m link; identity reports; hostile messages; pings.

Decides C01, C02, C03, C04 (with `busy`).
"""
import random

from .. import core
from ..core import SEC, MS, US
from ..m2mserver import T, NAME, benc, bdec, BadBencode, FROM_AGENT
from .base import Scenario, compress_cfg, GRACE

REGAIN = 300


def lenient(data, p=0, depth=0):
    """What a forgiving decoder may take the message for: the leading object, or raises."""
    from ..m2mserver import _bdec
    return _bdec(data, p)[0]


class Link(Scenario):
    span = 8000

    @classmethod
    def gen(cls, rng, prop):
        dur = rng.choice([60, 150, 300, 600])
        cfg = dict(dur=dur, compress=compress_cfg(rng, 0.3), seg_p=rng.choice([0, 0.1, 0.5]),
                   frag_p=rng.choice([0, 0.05, 0.5]), join_delay=rng.choice([0, 0, 0.2, 3]),
                   api_p=0.0, sessions=[], attempts=[], same_identity=rng.random() < 0.2,
                   crashes=0)
        ops = []

        def t():
            return round(rng.uniform(0, dur), 3)

        if prop == "C01":
            n = rng.randint(1, 8)
            if rng.random() < 0.12:
                # long outages
                cfg["dur"] = dur = rng.choice([1500, 3600])
                n = rng.randint(1, 4)
                ops.append([t(), "down", rng.choice([400, 900, 1500]),
                            rng.choice(["fin", "reset"])])
            kinds = ["reset", "fin", "wsclose", "vanish", "vanish", "freeze", "garbage", "badframe",
                     "blackhole", "down", "nodns", "fin", "ident", "echo", "crash"]
            for _ in range(n):
                ops.append(cls.mk(rng, t(), rng.choice(kinds)))
            for _ in range(rng.choice([0, 0, 2, 5])):
                hs = rng.choice(["ok", "500", "403", "302", "badaccept", "garbage", "close", "reset",
                                 "partial", "ok", "500stay", "stall"])
                p = {"hs": hs.replace("stay", "")}
                if hs == "500stay":
                    p["hs_close"] = False
                if rng.random() < 0.3:
                    p["hs_delay"] = rng.choice([0.5, 4, 20])
                cfg["sessions"].append(p)
            for _ in range(rng.choice([0, 0, 2, 4, 12])):
                cfg["attempts"].append(rng.choice(["accept", "refuse", "timeout", "unreach"]))
            cfg["api_p"] = rng.choice([0, 0, 0.3])
            cfg["scan"] = rng.random() < 0.4
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                ops.append([t(), "gatescan", rng.choice(["reset", "fin", "wsclose"]),
                            rng.choice([0.05, 0.2, 1]), rng.randrange(4)])
        elif prop == "C02":
            for _ in range(rng.randint(0, 4)):
                ops.append(cls.mk(rng, t(), rng.choice(["reset", "fin", "ident", "ident", "crash",
                                                        "vanish", "sync", "down", "reident",
                                                        "oldident"])))
            cfg["api_p"] = rng.choice([0.0, 0.3, 0.6, 0.9])
        elif prop == "C03":
            cfg["dur"] = dur = rng.choice([40, 90, 200])
            for _ in range(rng.randint(1, 12)):
                ops.append([t(), "bad", rng.randrange(1 << 30)])
            for _ in range(rng.randint(1, 4)):
                ops.append([t(), "echo", rng.randint(1, 3000)])
            for _ in range(rng.randint(0, 3)):
                ops.append([t(), "ping", rng.choice([0, 1, 1024, 1025, 5000])])
            if rng.random() < 0.3:
                ops.append(cls.mk(rng, t(), rng.choice(["reset", "fin", "ident"])))
            if rng.random() < 0.3:
                # everything close together
                b = rng.uniform(1, dur - 5)
                for o in ops:
                    o[0] = round(b + o[0] / dur * rng.choice([0.01, 1.0]), 4)
        else:
            for _ in range(rng.randint(3, 25)):
                ops.append([t(), "ping", rng.choice([0, 1, 10, 1023, 1024, 1025, 3000, 70000])])
            for _ in range(rng.randint(0, 6)):
                ops.append(cls.mk(rng, t(), rng.choice(["sync", "echo", "ident", "wsping", "reset",
                                                        "fin", "bad"])))
            if rng.random() < 0.4:
                b = rng.uniform(1, dur - 5)
                for o in ops:
                    o[0] = round(b + o[0] / dur * rng.choice([0.01, 1.0]), 4)
            cfg["api_p"] = rng.choice([0.0, 0.5, 1.0])
            if rng.random() < 0.5:
                cfg["api_kinds"] = ["hang", "conn_hang", "read_hang", "slow"]
            if rng.random() < 0.4:
                # the m2m thread waits for an API server that never answers
                cfg["api_p"] = rng.choice([0.8, 1.0, 1.0])
                cfg["api_kinds"] = [rng.choice(["hang", "conn_hang", "read_hang"])] + \
                    rng.choice([[], ["hang", "slow"]])
                for _ in range(rng.randint(1, 4)):
                    at = rng.uniform(0.5, dur - 1)
                    ops.append([round(at, 3), rng.choice(["sync", "sync", "ident"])])
                    for _ in range(rng.randint(1, 3)):
                        ops.append([round(at + rng.choice([0.001, 0.1, 3, 20]) * rng.random(), 3),
                                    "ping", rng.choice([0, 1, 1024, 2000])])
        ops.sort(key=lambda o: o[0])
        return dict(cfg=cfg, ops=ops)

    @classmethod
    def mk(cls, rng, t, k):
        if k == "vanish":
            return [t, "vanish", rng.choice(["blackhole", "reboot"])]
        if k == "wsclose":
            return [t, "wsclose", rng.choice([1000, 1001, 1011, 0])]
        if k == "garbage":
            return [t, "garbage", rng.randint(1, 4000), rng.randrange(1 << 30)]
        if k == "badframe":
            return [t, "badframe", rng.randrange(8)]
        if k == "blackhole":
            return [t, "blackhole", rng.choice([1, 20, 60, 130, 280])]
        if k == "down":
            return [t, "down", rng.choice([1, 10, 60, 200]), rng.choice(["fin", "reset", "keep"])]
        if k == "nodns":
            return [t, "nodns", rng.choice([5, 60, 150])]
        if k == "echo":
            return [t, "echo", rng.randint(1, 3000)]
        if k == "bad":
            return [t, "bad", rng.randrange(1 << 30)]
        if k == "ping":
            return [t, "ping", rng.randint(0, 2000)]
        return [t, k]

    # ------------------------------------------------------------ set-up
    def setup(self):
        self.m2m.plan_for = self._plan
        self.m2m.verdict_for = self._verdict
        self.m2m.same_identity = self.cfg["same_identity"]
        self.api.plan_for = self.api_fault
        self.assigns = []
        self.gated = []
        self.bads = []
        self.chan = 100
        self.holes = []             # (start, end) ns of blackholes
        self.broken = {}            # session idx -> time it stopped working, server side
        self.expect = []            # echo expectations: (use, bytes)
        fs = self.k.fs
        for i in range(5):
            fs.put(self.remote_dir + "/f%d" % i, b"x" * i)

    def _plan(self, idx):
        p = dict(self.base_plan)
        if not self.faults_over and idx < len(self.cfg["sessions"]):
            p.update(self.cfg["sessions"][idx])
        return p

    def _verdict(self, n):
        a = self.cfg["attempts"]
        if not self.faults_over and n < len(a):
            return a[n]
        return "accept"

    # ------------------------------------------------------------ operations
    def _brk(self, s, how):
        self.broken.setdefault(s.idx, self.sim.now)
        self.sim.fault("link_" + how)

    def op_reset(self):
        s = self._any()
        if s:
            self._brk(s, "reset")
            s.reset()

    def op_fin(self):
        s = self._any()
        if s:
            self._brk(s, "fin")
            s.fin()

    def op_wsclose(self, code):
        s = self.ready_session()
        if s:
            self._brk(s, "close_frame")
            s.send_frame(8, b"" if not code else bytes([code >> 8, code & 255]) + b"bye")
            s.state = "closing"
            self.sim.after(2 * SEC, s.fin)

    def op_vanish(self, how):
        s = self.ready_session()
        if s:
            self._brk(s, "vanish_" + how)
            s.vanish(how)

    def op_freeze(self):
        s = self.ready_session()
        if s:
            self._brk(s, "freeze")
            s.stop_answering()
            s.alive = False
            s.t_end = self.sim.now

    def op_garbage(self, n, seed):
        s = self.ready_session()
        if s:
            self._brk(s, "garbage")
            r = random.Random(seed)
            s.write(bytes([r.choice([0xc0, 0xff, 0x83, 0x0f])]) +
                    bytes(r.randrange(256) for _ in range(n)))
            s.state = "closing"
            self.sim.after(5 * SEC, s.fin)

    def op_badframe(self, kind):
        s = self.ready_session()
        if not s:
            return
        self._brk(s, "bad_frame")
        f = [b"\xf2\x01x",                       # reserved bits
             b"\x89\x7e\x00\x80" + b"p" * 128,   # oversized control frame
             b"\x80\x01x",                       # continuation of nothing
             b"\x02\x01a\x82\x01b",              # new message inside a fragmented one
             b"\x81\x02\xff\xfe",                # text that is not UTF-8
             b"\x8b\x00",                        # unknown control opcode
             b"\x09\x01x",                       # fragmented control frame
             b"\xc2\x05\xff\xff\xff\xff\xff",    # compressed rubbish
             ][kind]
        s.write(f)
        s.state = "closing"
        self.sim.after(5 * SEC, s.fin)

    def op_blackhole(self, dur):
        self.sim.fault("blackhole")
        if self.m2m_link.blackhole:
            return
        t = self.sim.now
        self.k.set_blackhole(self.m2m_link, True)
        self.holes.append([t, None])
        self.sim.after(int(dur * SEC), self._heal)

    def _heal(self):
        if self.m2m_link.blackhole:
            self.k.set_blackhole(self.m2m_link, False)
            self.holes[-1][1] = self.sim.now

    def op_down(self, dur, how):
        self.sim.fault("server_down")
        self.m2m.up = False
        for s in self.m2m.sessions:
            if s.alive and how != "keep":
                self._brk(s, "down")
                s.fin() if how == "fin" else s.reset()
        self.sim.after(int(dur * SEC), self._up)

    def _up(self):
        self.m2m.up = True

    def op_nodns(self, dur):
        self.k.dns.pop("m2m.sim", None)
        self.sim.after(int(dur * SEC), self._dns)

    def _dns(self):
        from ..world import M2M_IP
        self.k.dns["m2m.sim"] = M2M_IP

    def op_crash(self):
        self.crash()

    def op_ident(self):
        s = self.session()
        if s:
            s.assign(self.m2m.new_identity())

    def op_reident(self):
        """The same identity once more."""
        s = self.session()
        if s and s.identity:
            s.assign(s.identity)

    def op_oldident(self):
        """An identity that was assigned earlier."""
        s = self.session()
        if s and self.assigns:
            old = self.assigns[self.sim.choose("oldident", len(self.assigns))]["ident"]
            if old != s.identity:
                s.assign(old)

    def op_sync(self):
        s = self.session()
        if s:
            s.instruct(action="sync")

    def op_scan(self):
        s = self.session()
        if s:
            s.packet("scan_remote_directory")

    def op_gatescan(self, how, gap, where):
        """A scan that the disk holds up until the next session is accepted."""
        s = self.session()
        if s is None:
            return
        ops, match = ((["scandir"], self.remote_dir), (["open_w"], "scan"), (["write"], "scan"),
                      (["rename"], "scan"))[where]
        self.k.fs.rules.append(dict(ops=ops, match=match, skip=0, times=1, stall="gate",
                                    gate=self.gated))
        s.packet("scan_remote_directory")
        self.sim.after(int(gap * SEC), self.op_wsclose if how == "wsclose" else
                       self.op_fin if how == "fin" else self.op_reset,
                       *([1001] if how == "wsclose" else []))

    def on_upgrade(self, s):
        if self.gated:
            s.end.peer.rx_hook = self._ungate

    def _ungate(self):
        g, self.gated[:] = list(self.gated), []
        for t in g:
            self.sim.wake(t)

    def op_ping(self, n):
        s = self.session()
        if s:
            s.ping(bytes((i * 7 + n) & 255 for i in range(n)))

    def op_wsping(self):
        s = self.session()
        if s:
            s.send_frame(9, b"hello")

    def op_echo(self, n):
        s = self.session()
        if not s:
            return
        self.chan += 1
        u = s.open_use(self.chan, "echo")
        s.packet("notify_open", u.number)
        s.instruct(action="open-echo", port=u.number)
        self.expect.append(u)
        d = bytes((i * 11 + n) & 255 for i in range(n))
        u.send(d[:n // 2])
        # the rest a little later, possibly after a bad message
        self.sim.after(int(self.sim.logdur("echo.gap", 1 * MS, 20 * SEC)), self._echo2, u, d[n // 2:])

    def _echo2(self, u, d):
        if u.sess.alive:
            u.send(d)

    def _any(self):
        for s in reversed(self.m2m.sessions):
            if s.alive:
                return s
        return None

    # -- hostile messages
    def op_bad(self, seed):
        s = self.session()
        if not s:
            return
        r = random.Random(seed)
        for _ in range(20):
            data = self.hostile(r)
            effect = self.effect(data)
            if effect is not None:
                break
        else:
            return
        what, pdata = effect
        self.sim.fault("hostile_message")
        self.sim.note("hostile %s %r" % (what, data[:100]))
        rec = dict(t=self.sim.now, s=s, what=what, data=data, n=len(s.packets), ok=None)
        self.bads.append(rec)
        if what == "ping":
            s.pings.append((self.sim.now, pdata))
        s.message(data)
        s.marker(lambda: rec.__setitem__("ok", self.sim.now))

    def effect(self, data):
        """('none'|'ping', ping data), or None when the message may legitimately do things."""
        try:
            o = lenient(data)
        except (BadBencode, RecursionError):
            return ("undecodable", None)
        if not isinstance(o, list) or not o or not isinstance(o[0], int):
            return ("none", None)
        n = NAME.get(o[0])
        if n in (None, "null", "welcome", "log", "notify_login_success", "notify_login_fail",
                 "keep_alive", "response", "request_join", "pong", "request_send"):
            return ("none", None)
        if n == "ping":
            if len(o) > 1 and isinstance(o[1], bytes):
                return ("ping", o[1])
            return ("none", None)
        sig = {"route": (int, bytes), "route_control": (int, bytes), "set_identity": (bytes,),
               "notify_open": (int,), "notify_close": (int,), "instruction": (bytes, dict),
               "open_remote_file": (bytes, bytes), "close_remote_file": (bytes,),
               "read_remote_file": (bytes, int, int), "scan_remote_directory": (),
               "write_remote_file": (bytes, bytes, bytes, int, bytes, int)}.get(n)
        if sig is None:
            return ("none", None)
        if len(o) - 1 < len(sig) or not all(isinstance(a, b) for a, b in zip(o[1:], sig)):
            return ("none", None)
        if n in ("route", "route_control", "notify_open", "notify_close") and o[1] > 5000:
            return ("none", None)
        if n == "instruction":
            a = o[2].get(b"action")
            if not isinstance(a, bytes) or a.decode("utf-8", "ignore") not in (
                    "sync", "open-terminal", "open-echo", "open-portforward", "open-portredirect",
                    "reboot-device", "read-file", "run-command", "scan-directory"):
                return ("none", None)
        return None

    TEMPLATES = [
        lambda r: [T["ping"], b"p" * r.randint(0, 40)],
        lambda r: [T["instruction"], b"hub", {b"action": b"sync"}],
        lambda r: [T["instruction"], b"hub", {b"action": b"open-echo", b"port": 77}],
        lambda r: [T["route"], 101, b"data" * r.randint(1, 10)],
        lambda r: [T["set_identity"], b"zzzz"],
        lambda r: [T["notify_close"], 101],
        lambda r: [T["open_remote_file"], b"id", b"/f1"],
        lambda r: [T["read_remote_file"], b"id", 0, 10],
        lambda r: [T["write_remote_file"], b"id", b"x", b"", 0, b"abc", 1],
        lambda r: [T["log"], b"hello"],
        lambda r: [T["response"], 5, {b"a": 1}],
        lambda r: [T["welcome"]],
    ]
    LITERAL = [b"", b"5", b"12", b"99999999999999999999", b"3:ab", b"i", b"i5", b"i-e", b"ie", b"l",
               b"d", b"li7e", b"li7e5", b"li7e5:a", b"li7e99999:a", b"e", b"le", b"de", b"x",
               b"li7ei5ee", b"li7ee", b"li16e3:hub3:abce", b"li16e3:hubdee", b"li999ee",
               b"li-1ee", b"l4:pinge", b"li7e1:a1:b1:ce", b"d1:ai1ee", b"i7e", b"0:",
               b"li6e1:a1:be", b"li6ei5ee", b"li9ei5ee", b"li19e1:xe", b"li24e2:ide",
               b"li31e1:ae", b"li27e1:a1:b1:ce", b"li7ed1:ai1eee", b"li16e3:hubdi5e1:aee",
               b"li16e3:hubd6:actioni5eee", b"li16e3:hubd6:actionl1:aeee", b"l" * 3000,
               b"d1:a" * 3000, b"l" * 2000 + b"e" * 2000, b"i" + b"9" * 5000 + b"e", b"-5:abc",
               b"li7e-1:e", b"\xff\xfe", b"\x00" * 50, b"li4e4:%s%de", b"li17e3:joee", b"li18e3:joee",
               b"li16ei1edee", b"li7eli1eeee", b"li30ee", b"1" * 2000, b"li7e" + b"4" * 400 + b":"]

    def hostile(self, r):
        k = r.random()
        if k < 0.35:
            return r.choice(self.LITERAL)
        d = bytearray(benc(r.choice(self.TEMPLATES)(r)))
        m = r.randrange(6)
        if k > 0.9:
            # a string instead of a list, perhaps cut off
            d = bytes([r.choice(sorted(NAME))]) + bytes(r.choice([100, 101, 102, 0, 1, 77])
                                                        for _ in range(r.randint(0, 3)))
            return b"%d:" % (len(d) + r.choice([0, 0, 1, 50])) + d
        if m == 0:
            return bytes(d[:r.randrange(len(d))])
        if m == 1:
            for _ in range(r.randint(1, 3)):
                d[r.randrange(len(d))] = r.randrange(256)
        elif m == 2:
            i = r.randrange(len(d))
            del d[i:i + r.randint(1, 4)]
        elif m == 3:
            i = r.randrange(len(d) + 1)
            d[i:i] = bytes(r.choice(b"0123456789:ilde-x") for _ in range(r.randint(1, 4)))
        elif m == 4:
            return bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
        else:
            i = r.randrange(len(d))
            d[i] = r.choice(b"0123456789:ilde-")
        return bytes(d)

    # ------------------------------------------------------------ history
    def on_assign(self, s, ident):
        a = dict(t=self.sim.now, s=s, ident=ident, ack=None, inc=self.incarnation, end=None)
        for b in self.assigns:
            if b["s"] is s and b["end"] is None:
                b["end"] = self.sim.now
        self.assigns.append(a)

        def acked():
            a["ack"] = self.sim.now
        s.marker(acked)

    def on_joined(self, s):
        self.sim.after(10 * MS, self._after_join, s)

    def _after_join(self, s):
        if self.cfg.get("scan") and s.alive and self.sim.chance("scan", 0.7):
            s.packet("scan_remote_directory")

    def on_packet(self, s, name, f):
        Scenario.on_packet(self, s, name, f)
        if self.bads and self.bads[-1]["s"] is s:
            b = self.bads[-1]
            if name in ("pong", "request_send", "request_join"):
                return
            self.violate("C03", "sent:" + name, "%s %r after the %s message %r" % (
                name, [str(x)[:40] for x in f], b["what"], b["data"][:60]))

    # ------------------------------------------------------------ the end
    def end_faults(self):
        Scenario.end_faults(self)
        self._heal()
        self._up()
        self._dns()
        self._ungate()

    def drive(self):
        self.boot()
        self.schedule()
        self.run_for(self.cfg["dur"])
        self.end_faults()
        ok = self.wait_working(REGAIN + GRACE)
        if not ok:
            st = self.why_not()
            self.violate("C01", "not_regained:" + st, "no working session %d s after the faults "
                         "ended (%s)" % (REGAIN, st))
        # let reports and echoes settle
        self.run_for(45)
        self.final(ok)

    def why_not(self):
        if self.wedged_agent():
            return "wedged"
        if self.proc is None or not self.proc.alive:
            return "dead"
        ss = self.m2m.sessions
        if ss and ss[-1].plan.get("hs") == "stall" and ss[-1].state == "dead" and not \
                ss[-1].end.rst:
            return "handshake_stall"
        if ss and ss[-1].t_ready is None:
            return "no_handshake"
        if ss and ss[-1].frozen:
            return "silent_link"
        if ss and ss[-1].end.gone:
            return "vanished_link"
        if ss and ss[-1].alive and ss[-1].t_join is None:
            return "no_join"
        if ss and not ss[-1].alive:
            return "no_attempt"
        return "no_answer"

    def final(self, ok):
        self.check_attempts()
        self.check_pings()
        if self.prop == "C02" or not self.cfg.get("crashes"):
            self.check_identity(ok)
        self.check_echo(ok)
        self.check_bads()

    def check_attempts(self):
        """C01: attempts at least 4 seconds apart (per incarnation of the agent)."""
        ev = [(t, "l") for t, h in self.k.lookup_log if h == "m2m.sim"] + \
             [(t, "c") for t, ip, port in self.k.connect_log if ip == self.m2m_link.name]
        ev.sort()
        att = []
        pend = False
        for t, k in ev:
            if k == "l":
                att.append(t)
                pend = True
            elif pend:
                pend = False
            else:
                att.append(t)
        boots = [p.t_boot for p in self.procs]
        for a, b in zip(att, att[1:]):
            if b - a < 4 * SEC and not any(a < x <= b for x in boots):
                self.violate("C01", "hammering", "connection attempts %.3f s apart at %.1f s" % (
                    (b - a) / 1e9, (b - 1000 * SEC) / 1e9))

    def hole_time(self, a, b):
        tot = 0
        for x, y in self.holes:
            y = y if y is not None else self.sim.now
            lo, hi = max(a, x), min(b, y)
            if hi > lo:
                tot += hi - lo
        return tot

    def check_pings(self):
        for s in self.m2m.sessions:
            end = self.broken.get(s.idx, s.t_end if s.t_end is not None else self.sim.now)
            for i, (t, d) in enumerate(s.pings):
                if i < len(s.pongs):
                    dt = s.pongs[i][0] - t
                    upto = s.pongs[i][0]
                else:
                    dt = end - t
                    upto = end
                if self.hole_time(t - SEC, upto):
                    continue
                if dt > 90 * SEC:
                    self.violate("C04", "slow_pong" if i < len(s.pongs) else "no_pong",
                                 "session %d: ping at %.1f s answered %s" % (
                                     s.idx, (t - 1000 * SEC) / 1e9,
                                     "after %.1f s" % (dt / 1e9) if i < len(s.pongs) else
                                     "never (%.0f s)" % (dt / 1e9)))
                    break

    def check_bads(self):
        for b in self.bads:
            s = b["s"]
            end = self.broken.get(s.idx)
            if b["ok"] is not None:
                continue
            if end is not None and end - b["t"] < 120 * SEC:
                continue
            w = self.wedged_agent()
            self.violate("C03", "wedged" if w else "ignored_after" if s.alive else "dropped_link",
                         "after the %s message %r the agent %s" % (
                             b["what"], b["data"][:60],
                             "spins for ever in %s" % w if w else
                             "answers nothing any more" if s.alive else "dropped the link"))
            return
        # the agent must not end sessions on its own in runs without link faults
        if self.prop == "C03":
            for s in self.m2m.sessions:
                if not s.alive and s.idx not in self.broken and s.end_why == "fin from agent" and \
                        any(b["s"] is s for b in self.bads):
                    self.violate("C03", "dropped_link", "session %d was closed by the agent" % s.idx)

    def check_echo(self, ok):
        for u in self.expect:
            if bytes(u.rx) != bytes(u.tx[:len(u.rx)]):
                self.violate("C05", "echo_altered", "%r: echo differs" % u)
                continue
            s = u.sess
            if s.alive and s.idx not in self.broken and ok and len(u.rx) < len(u.tx):
                self.violate("C03" if self.bads else "C05", "echo_lost",
                             "%r: %d of %d bytes echoed" % (u, len(u.rx), len(u.tx)))

    def check_identity(self, ok):
        """C02 over the recorded history."""
        sim = self.sim
        reqs = [r for r in self.api.reqs if "m2m.associate" in r.methods]
        names = {}
        for r in reqs:
            p = r.call("m2m.associate").get("params", {})
            ident = p.get("identity")
            names[r.n] = ident
            auth = r.call("device.check_auth")
            ap = auth.get("params", {}) if auth else {}
            if auth is None or ap.get("serial") != self.serial or \
                    ap.get("auth_token") != self.token or r.calls[0] is not auth:
                self.violate("C02", "no_credentials", "request %d: %r" % (r.n, r.calls))
            # the identity must be one the agent may believe to be current
            cand = [a for a in self.assigns if a["t"] <= r.t0 and a["inc"] == r.incarnation]
            good = False
            for a in cand:
                if a["ident"].decode() != ident:
                    continue
                newer = [b for b in cand if b["t"] > a["t"] and b["ack"] is not None and
                         b["ack"] < r.t0 - GRACE * SEC]
                if not newer:
                    good = True
            if not good:
                self.violate("C02", "wrong_identity", "request %d reports %r at %.1f s" % (
                    r.n, ident, (r.t0 - 1000 * SEC) / 1e9))
        for a in self.assigns:
            if a["ack"] is None:
                continue
            name = a["ident"].decode()
            s = a["s"]
            end = a["end"]
            if end is None:
                end = self.broken.get(s.idx, s.t_end if s.t_end is not None else sim.now)
            proc = self.procs[a["inc"] - 1]
            if not proc.alive:
                end = min(end, proc.exit_status[2])
            end -= int(1 * SEC)
            prev = [r for r in reqs if r.incarnation == a["inc"] and r.t1 is not None and
                    r.t1 <= a["t"]]
            state = False
            if prev:
                state = prev[-1].acked() if names[prev[-1].n] == name else False
            mine = [r for r in reqs if r.incarnation == a["inc"] and names[r.n] == name and
                    a["t"] <= r.t0 <= end]
            if state is None:
                continue
            t_free = a["t"]         # since when the next report is due
            flying = [r for r in reqs if r.incarnation == a["inc"] and r.t0 < a["t"] and
                      (r.t1 is None or r.t1 > a["t"])]
            if flying:
                if flying[-1].t1 is None:
                    continue
                t_free = flying[-1].t1
                state = flying[-1].acked() if names[flying[-1].n] == name else False
                if state is None:
                    continue
            k = 0
            bad = None
            while True:
                if state:
                    if k < len(mine):
                        bad = ("reported_again", "identity %s was acknowledged and is reported "
                               "again at %.1f s" % (name, (mine[k].t0 - 1000 * SEC) / 1e9))
                    break
                lim = t_free + int((15 + GRACE) * SEC)
                nxt = mine[k].t0 if k < len(mine) else None
                upto = nxt if nxt is not None else end
                busy = self.api_busy(t_free, upto) + self.hole_time(t_free, upto)
                if upto > lim + busy:
                    bad = ("not_retried" if k else "not_reported",
                           "identity %s: no report between %.1f s and %.1f s" % (
                               name, (t_free - 1000 * SEC) / 1e9, (upto - 1000 * SEC) / 1e9))
                    break
                if nxt is None:
                    break
                r = mine[k]
                k += 1
                if r.t1 is None or r.t1 - r.t0 > 100 * SEC:
                    till = r.t1 if r.t1 is not None else end
                    if till - r.t0 > 100 * SEC:
                        bad = ("report_hangs", "the report of %s at %.1f s hangs (%s)" % (
                            name, (r.t0 - 1000 * SEC) / 1e9, r.kind))
                    break
                state = r.acked()
                if state is None:
                    break
                t_free = r.t1
            if bad:
                self.violate("C02", *bad)
        if ok:
            s = self.m2m.current
            if s is not None and s.t_join is not None and \
                    sim.now - s.t_join > 40 * SEC and self.api.identity != s.identity.decode():
                busy = self.api_busy(sim.now - 40 * SEC, sim.now)
                if busy < 15 * SEC:
                    self.violate("C02", "not_converged", "the API server knows %r, the session's "
                                 "identity is %r" % (self.api.identity, s.identity))
