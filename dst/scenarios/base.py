"""Common parts of all scenarios: operations, generic monitors, working-session probe."""
import random

from .. import core
from ..core import SEC, MS, US
from ..world import World

GRACE = 5.0         # seconds of scheduling slack any time bound gets


def compress_cfg(rng, p=0.5):
    if rng.random() > p:
        return None
    c = {"opts": [], "cbits": 15, "sbits": 15, "c_reset": False, "s_reset": False}
    if rng.random() < 0.3:
        c["c_reset"] = True
        c["opts"].append("client_no_context_takeover")
    if rng.random() < 0.3:
        c["s_reset"] = True
        c["opts"].append("server_no_context_takeover")
    if rng.random() < 0.2:
        b = rng.choice([9, 10, 12, 15])
        c["sbits"] = b
        c["opts"].append("server_max_window_bits=%d" % b)
    if rng.random() < 0.2:
        b = rng.choice([9, 10, 12, 15])
        c["cbits"] = b
        c["opts"].append("client_max_window_bits=%d" % b)
    return c


class Scenario(World):
    span = 8000
    settle = 30.0
    strict_pongs = True

    def __init__(self, sim, plan, prop):
        self.plan = plan
        self.cfg = plan["cfg"]
        self.prop = prop
        World.__init__(self, sim)
        self.pong_due = {}          # session idx -> list of [t, expected, answered]
        self.faults_over = False
        self.t_faults_end = None
        c = self.cfg.get("compress")
        if c is not None:
            c = dict(c, opts=[o.encode() for o in c["opts"]])
        self.m2m.default_plan = {"compress": c, "frag_p": self.cfg.get("frag_p", 0.05),
                                 "join_delay": self.cfg.get("join_delay", 0)}
        self.m2m_link.seg_p = self.cfg.get("seg_p", 0.0)
        self.base_plan = self.m2m.default_plan
        self.setup()

    def setup(self):
        pass

    # ---------------------------------------------------------------- ops
    def schedule(self):
        t0 = self.sim.now
        for op in self.plan.get("ops", ()):
            self.sim.at(t0 + int(op[0] * SEC), self._do, op)

    def _do(self, op):
        if self.stopping:
            return
        self.sim.log("op", op[1], *op[2:])
        getattr(self, "op_" + op[1])(*op[2:])

    def drive(self):
        self.boot()
        self.schedule()
        self.run_for(self.cfg["dur"])
        self.end_faults()
        self.run_for(self.settle)
        self.final()

    def end_faults(self):
        """From here on the environment behaves."""
        self.faults_over = True
        self.t_faults_end = self.sim.now
        self.sim.log("faults end")

    def final(self):
        pass

    # ---------------------------------------------------------------- helpers
    def session(self, ready=True):
        s = self.m2m.current
        return s

    def ready_session(self):
        """A session past its handshake, from the server's point of view."""
        for s in reversed(self.m2m.sessions):
            if s.alive and s.state == "ws":
                return s
        return None

    def violate(self, prop, key, msg=""):
        self.sim.violate(prop, key, msg)

    def wedged_agent(self):
        return [t.name for t in self.sim.wedged if t.proc is self.proc]

    def working(self):
        """State machine polled by run_until: a joined session answered a marker sent
        after the call that started it."""
        s = self.m2m.current
        if s is None:
            self._wk = None
            return False
        wk = getattr(self, "_wk", None)
        if wk is None or wk[0] is not s:
            wk = self._wk = [s, False]
            s.marker(lambda: wk.__setitem__(1, True))
            return False
        return wk[1]

    def wait_working(self, limit):
        self._wk = None
        return self.run_until(self.working, limit)

    # ---------------------------------------------------------------- API faults
    API_KINDS = ("dns", "refuse", "unreach", "conn_hang", "reset", "reset_after", "remote_closed",
                 "closed_after", "badstatus", "hang", "hang_after", "http", "http_after", "slow",
                 "read_hang", "read_reset", "incomplete", "body", "body", "body", "error", "error",
                 "error", "drop", "order", "extra")

    def api_fault(self, r, stream="api"):
        """Plan of one request; 0 in the stream is the benign choice."""
        sim = self.sim
        p = self.cfg.get("api_p", 0.0)
        if self.faults_over or not sim.chance(stream + ".fail", p):
            return {}
        kinds = self.cfg.get("api_kinds") or self.API_KINDS
        k = kinds[sim.choose(stream + ".kind", len(kinds))]
        if k.endswith("_after"):
            base = {"reset_after": "reset", "closed_after": "remote_closed", "hang_after": "hang",
                    "http_after": "http"}[k]
            return {"kind": base, "apply": True}
        if k == "http":
            return {"kind": "http", "code": (500, 502, 503, 404, 401, 429)[
                sim.choose(stream + ".code", 6)]}
        if k == "slow":
            return {"kind": "ok", "delay": (1, 3, 8, 14, 25)[sim.choose(stream + ".slow", 5)]}
        if k == "body":
            from ..apiserver import HOWS
            return {"kind": "body", "how": HOWS[sim.choose(stream + ".how", len(HOWS))],
                    "cut": sim.choose(stream + ".cut", 20) / 20.0}
        if k == "auth_error" and "device.check_auth" in r.methods:
            sim.fault("api_auth_error")
            return {"errors": {"device.check_auth": {"code": 1, "message": "auth failed"}}}
        if k in ("error", "drop") and r.methods:
            m = r.methods[sim.choose(stream + ".which", len(r.methods))]
            if k == "drop":
                sim.fault("api_reply_entry_missing")
                return {"drop": (m,)}
            sim.fault("api_rpc_error")
            e = ({"code": -32603, "message": "Internal error"}, {"code": 7, "message": "no"},
                 {"code": -32602}, {"code": 12, "message": "nope", "data": {"x": 1}},
                 {"code": -32601, "message": "Method not found", "data": None}, {})[
                sim.choose(stream + ".err", 6)]
            return {"errors": {m: e}}
        if k == "order":
            return {"order": 1 + sim.choose(stream + ".order", 2)}
        if k == "extra":
            return ({"extra": True}, {"extra_err": True}, {"noid_err": True})[
                sim.choose(stream + ".extra", 3)]
        if k in ("error", "drop", "auth_error"):
            return {}
        return {"kind": k}

    def api_busy(self, a, b):
        """Seconds of API request time (all tasks) overlapping [a, b] ns."""
        tot = 0
        for r in self.api.reqs:
            t1 = r.t1 if r.t1 is not None else self.sim.now
            lo, hi = max(a, r.t0), min(b, t1)
            if hi > lo:
                tot += hi - lo
        return tot

    # ---------------------------------------------------------------- monitors
    def on_packet(self, s, name, f):
        if s.packets[0][1] != "request_join":
            self.violate("C01", "first_packet:" + s.packets[0][1],
                         "session %d starts with %s" % (s.idx, s.packets[0][1]))
        if name == "request_join" and s.joins > 1:
            self.violate("C01", "joined_twice", "session %d" % s.idx)
        if name == "request_identify":
            self.violate("C01", "identify", "session %d resumes an old identity" % s.idx)
        if name == "pong":
            self._pong(s, f[0])
        fn = getattr(self, "pk_" + name, None)
        if fn is not None:
            fn(s, *f)

    def _pong(self, s, data):
        # pings in order; s.pings holds (t, data)
        i = len(s.pongs) - 1
        if i >= len(s.pings):
            self.violate("C04", "pong_unasked", "session %d: pong %r without a ping" % (
                s.idx, data[:40]))
            return
        want = s.pings[i][1][:1024]
        if data != want:
            self.violate("C04", "pong_wrong", "session %d: pong %d is %r, ping was %r" % (
                s.idx, i, data[:40], want[:40]))

    def on_protocol_error(self, s, what):
        self.violate("C05", "bad_frame:" + what.split(" ")[0], "session %d: %s" % (s.idx, what))

    def on_stray(self, s, name, f):
        self.violate("C06", "stray:" + name, "session %d: %s on channel %r that was never "
                     "opened in this session" % (s.idx, name, f[0]))

    def on_late(self, use, name, f):
        pass

    def agent_returned(self, p):
        if p.failed and "can't start new thread" in p.failed:
            return          # no thread to be had at start-up: the supervisor starts it again
        if not self.allow_exit:
            self.violate("C24", "agent_stopped", "main loop ended: %s" % p.failed)
