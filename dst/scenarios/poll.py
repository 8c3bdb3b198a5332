"""Polling: metadata, tags, disk reports, RPC results, clock jumps, exit.

Decides C19 - C24.  The API server, the tag script, the disk and the clock are driven by the plan; the
history of requests, script runs and deaths is judged against small reference models afterwards.
"""
import errno
import json
import re

from .. import core
from ..core import SEC, MS, US
from .base import Scenario, compress_cfg, GRACE
from .link import Link, REGAIN

META = {
    "device.set_agent_version": ("agent_version", None),
    "device.set_machine_revision": ("revision_code", "a02082"),
    "device.set_model_name": ("model_name", "Raspberry Pi 3 Model B Rev 1.2"),
    "device.set_os_version": ("os_version", "Raspbian GNU/Linux 10 buster"),
    "device.set_uname": ("uname", None),
    "device.set_ip_addresses": ("ip_list", ["127.0.0.1", "192.168.1.20"]),
}
TAGS = "device.set_machine_defined_tags"
DISK = "device.set_disk_space"
SCRIPT = "/root/dataplicity_tags"
TAGTIME = 31            # longest time the agent waits for the script
BIG = (200, -200, 190, -190, 1000, -1000, 86400, -86400, 1e8, -3e8, 500, -400)
SMALL = (0.01, -0.01, 1, -1, 10, -10, 60, -60, 120, -120, 170, -170)


def split_tags(data):
    text = data.decode("utf-8", "ignore")
    return [t[:25] for t in re.split(r"[,\s]", text) if t]


class Poll(Link):
    span = 5000

    # ============================================================ generation
    @classmethod
    def gen(cls, rng, prop):
        dur = rng.choice([150, 250, 400])
        if prop == "C21":
            dur = rng.choice([3700, 4000, 7500, 11500])
        elif prop == "C22":
            dur = rng.choice([20, 60, 100])
        elif prop == "C23":
            dur = rng.choice([40, 100, 250])
        elif prop == "C24":
            dur = rng.choice([100, 250, 400])
        cfg = dict(dur=dur, compress=None, seg_p=0, frag_p=0, join_delay=0,
                   api_p=rng.choice([0, 0.3, 0.6, 0.9]), sessions=[], attempts=[],
                   same_identity=False, script=None, disk=[rng.choice([1000, 2000000, 8000000]),
                                                           rng.randint(0, 900), rng.choice([0, 50]),
                                                           rng.choice([1, 1, 4, 8])],
                   fork_p=rng.choice([0, 0, 0, 0.3]), api_kinds=None)
        if prop in ("C21", "C23"):
            cfg["api_p"] = rng.choice([0, 0, 0.2, 0.7])
        if rng.random() < 0.25:
            cfg["api_kinds"] = ["hang", "conn_hang", "read_hang", "slow", "hang_after"]
        ops = []

        def t(lo=0.0, hi=None):
            return round(rng.uniform(lo, hi or dur), 3)

        if rng.random() < {"C20": 0.85, "C24": 0.95}.get(prop, 0.4):
            cfg["script"] = cls.script_spec(rng, prop)
        nt = {"C20": rng.randint(1, 6), "C24": rng.choice([0, 1, 3])}.get(prop, rng.choice([0, 0, 1]))
        for _ in range(nt):
            s = cls.script_spec(rng, prop)
            if prop != "C24" and rng.random() < 0.2:
                s = None
            ops.append([t(), "tags", s])
        if prop in ("C19", "C20", "C24"):
            for _ in range(rng.choice([0, 1, 3, 8])):
                ops.append([t(), "sync"])
            if prop == "C19" and rng.random() < 0.4:
                # around a poll
                b = 60 * rng.randint(0, max(1, dur // 60 - 1)) + rng.choice([0, 0.5, 5])
                for _ in range(rng.randint(1, 5)):
                    ops.append([round(b + rng.uniform(0, rng.choice([0.1, 1, 20])), 4), "sync"])
        for _ in range(rng.choice([0, 1, 3]) if prop == "C21" else rng.choice([0, 0, 1])):
            ops.append([t(), "disk", rng.randint(0, 900)])
        if prop == "C21":
            for _ in range(rng.choice([0, 0, 1, 4])):
                ops.append([t(), "jump", rng.choice(SMALL)])
        if prop == "C22":
            for i in range(rng.randint(3, 20)):
                ops.append([t(1.0), "rpc", cls.rpc_spec(rng)])
        if prop == "C23":
            times = []
            x = rng.choice([0.0, 6.0, 30.0])
            while x < dur:
                x += rng.choice([12, 15, 30, 60]) + rng.random() * 3
                times.append(round(x, 4))
            big = rng.random() < 0.6
            for x in times:
                if rng.random() < 0.7:
                    ops.append([x, "jump", rng.choice(BIG if big and rng.random() < 0.4 else SMALL)])
            if rng.random() < 0.3:
                for i in range(int(dur)):
                    ops.append([i + 0.5, "jump", rng.choice([0.05, -0.05]) if not big else 0.05])
        if prop == "C24":
            if rng.random() < 0.5:
                ops.append([t(3.0), "exit"])
            if rng.random() < 0.3:
                ops.append([t(), "rule", dict(ops=["statvfs"], match="", skip=0, times=rng.choice(
                    [1, 100]), errno=errno.EIO), 1000])
            if rng.random() < 0.3:
                ops.append([t(), "rule", dict(ops=[rng.choice(["stat", "open_r", "read"])],
                                              match=rng.choice(["tags", "proc"]), skip=0,
                                              times=rng.choice([1, 100]), errno=errno.EIO), 1000])
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            ops.append([t(), rng.choice(["reset", "fin", "crash"] if prop != "C24" else
                                        ["reset", "fin"])])
        ops.sort(key=lambda o: o[0])
        return dict(cfg=cfg, ops=ops)

    @classmethod
    def script_spec(cls, rng, prop=None):
        words = ["a", "red", "blue", "x" * 24, "y" * 25, "z" * 26, "w" * 60, "caf\u00e9", "t-1", "t_2",
                 "red", "\u00e9" * 30, "#c", "-", "k=v", "a:b", "\"q\"", "'s'", "a;b", "A", "0", "None",
                 "\\n", "$X", "a/b", "<t>", "\U0001f600"]
        seps = [",", " ", "\n", "\t", ", ", "\r\n", ",,", "  \n", "\x0b"]
        n = rng.choice([0, 0, 1, 2, 3, 5])
        text = ""
        for i in range(n):
            text += rng.choice(words) + rng.choice(seps)
        if rng.random() < 0.3:
            text = rng.choice(seps) + text
        if rng.random() < 0.05:
            text = "word " * 20000
        s = dict(text=text, code=0, delay=0, hold=0, how="run")
        r = rng.random()
        if r < 0.12:
            s["code"] = rng.choice([1, 2, 255])
        elif r < 0.17:
            s["how"] = "signal"
        elif r < 0.22:
            s["how"] = rng.choice(["enoent", "eacces", "enoexec"])
        elif r < 0.30:
            s["how"] = "hang"
        elif r < 0.42:
            s["delay"] = rng.choice([0.2, 3, 20, 45, 200])
        elif r < 0.46:
            s["hold"] = rng.choice([2, 90])
        elif r < 0.5:
            s["how"] = "binary"
        return s

    ERRS = ({"code": -32603, "message": "Internal error"}, {"code": -32600, "message": "Invalid"},
            {"code": 7, "message": "no"}, {"code": -32602}, {"code": 12, "message": "nope",
                                                            "data": {"x": 1}},
            {"code": -32601, "message": "Method not found", "data": None},
            {"code": 0, "message": ""}, {"code": -32700, "message": "p\u00e9"}, {})
    RESULTS = (True, False, None, 0, 1, "", "ok", [], [1, 2], {}, {"error": "x"}, {"id": 3}, 1.5,
               "x" * 3000)

    @classmethod
    def rpc_spec(cls, rng):
        mode = rng.choice(["batch", "batch", "batch", "batch", "call", "call", "notify"])
        n = rng.choice([1, 1, 2, 3, 5]) if mode == "batch" else 1
        calls = []
        for i in range(n):
            k = rng.choice(["id", "id", "id", "auto", "notify"]) if mode == "batch" else mode
            calls.append([k, rng.choice(["a", "b", "authenticate_result", "1", ""]) + str(i),
                          rng.choice([{}, {"x": i}, {"s": "\u00e9\"", "l": [1, {"a": None}]}])])
        reply = []
        for i in range(n):
            reply.append(rng.choice(["r", "r", "r", "e", "e", "-", "rr", "re", "n", "er"])
                         if rng.random() < 0.8 else "r")
        odd = rng.choice([None] * 12 + ["extra", "extra_err", "noid_err", "err_no_id", "res_no_id",
                                        "number", "null", "string", "list", "idlist", "wrongver",
                                        "strid", "emptydict"])
        form = rng.choice(["list"] * 14 + ["dict", "null", "number", "string", "cut", "html",
                                           "empty", "utf8", "trailing", "bom", "nan"])
        return dict(mode=mode, calls=calls, reply=reply, order=rng.choice(["same", "same", "rev",
                                                                            "rot"]),
                    odd=odd, form=form, cut=rng.random(), pick=rng.randrange(1000),
                    net=rng.choice([None] * 9 + [dict(kind=k) for k in (
                        "dns", "refuse", "hang", "read_hang", "read_reset", "incomplete", "reset",
                        "remote_closed", "badstatus", "conn_hang")] +
                        [dict(kind="http", code=500), dict(kind="http", code=404),
                         dict(kind="ok", delay=8), dict(kind="ok", delay=40)]),
                    default=rng.random() < 0.3, shared=rng.random() < 0.5)

    # ============================================================ set-up
    def setup(self):
        Link.setup(self)
        self.k.fs.makedirs("/root")
        self.script = None
        self.script_log = []        # (t, spec or None)
        self.set_script(self.cfg["script"])
        self.runs = []              # script runs: dict(t, inc, want, spec, child)
        b, u, res, io = self.cfg["disk"]
        d = self.k.fs.root_dev
        d.blocks = b
        d.reserved = b * res // 1000
        d.iofactor = io
        self.disk_log = []
        self.set_disk(u)
        self.jumps = []             # (t, dt)
        self.exits = []             # (t, proc)
        self.rpcs = []
        self.syncs = []
        self.api.plan_for = self.plan_request
        self.k.fork_fail = self.fork_fails
        self.forkfails = []
        self.kill_t = []

    def set_script(self, spec):
        fs = self.k.fs
        self.script = spec
        self.script_log.append((self.sim.now, spec))
        if spec is None:
            if fs.lookup(SCRIPT) is not None:
                fs.unlink(SCRIPT)
        else:
            fs.put(SCRIPT, b"#!/bin/sh\n")

    def set_disk(self, permille):
        d = self.k.fs.root_dev
        d.base_used = d.blocks * permille // 1000
        self.disk_log.append((self.sim.now, d.blocks * d.bsize, d))
        self.note_disk()

    def note_disk(self):
        d = self.k.fs.root_dev
        now = (d.blocks * d.bsize, min(d.blocks, d.used_blocks) * d.bsize)
        if not hasattr(self, "disk_hist"):
            self.disk_hist = []
        if not self.disk_hist or self.disk_hist[-1][1] != now:
            self.disk_hist.append((self.sim.now, now))

    def fork_fails(self, kind, argv):
        if self.faults_over or not self.sim.chance("fork", self.cfg["fork_p"]):
            return False
        self.forkfails.append(self.sim.now)
        return True

    def plan_request(self, r):
        self.note_disk()
        for m in r.methods:
            if isinstance(m, str) and m.startswith("t."):
                return self.rpcs[int(m.split(".")[1])].plan(r)
        return self.api_fault(r)

    def api_call(self, m, p, r):
        return True

    # ============================================================ operations
    def op_tags(self, spec):
        self.set_script(spec)

    def op_disk(self, permille):
        self.note_disk()
        self.set_disk(permille)

    def op_jump(self, dt):
        self.k.jump_clock(dt)
        p = self.proc
        self.jumps.append((self.sim.now, dt, p if p is not None and p.alive else None))

    def op_sync(self):
        s = self.session()
        if s:
            rec = dict(t=self.sim.now, s=s, done=None, inc=self.incarnation)
            self.syncs.append(rec)
            s.instruct(action="sync")
            s.marker(lambda: rec.__setitem__("done", self.sim.now))

    def op_exit(self):
        p = self.proc
        if p is None or not p.alive or getattr(p, "client", None) is None or self.exits:
            return
        self.allow_exit = True
        self.restart = False
        self.sim.fault("exit_requested")
        self.exits.append((self.sim.now, p))
        self.in_agent(lambda: p.client.exit(), "exit")

    def op_rule(self, rule, dur):
        r = dict(rule)
        self.k.fs.rules.append(r)
        self.sim.after(int(dur * SEC), r.__setitem__, "times", 0)

    def op_rpc(self, spec):
        p = self.proc
        if p is None or not p.alive or getattr(p, "client", None) is None:
            return
        r = Rpc(self, len(self.rpcs), spec)
        self.rpcs.append(r)
        self.in_agent(r.run, "rpc%d" % r.n)

    def popen_program(self, argv):
        from ..simmods import ExecFails
        if argv[0] != SCRIPT and argv[-1] != SCRIPT:
            return [("exit", 0)], {"tag": "odd"}
        spec = self.script
        run = dict(t=self.sim.now, inc=self.incarnation, spec=spec, want=Ellipsis)
        self.runs.append(run)
        if spec is None:
            run["want"] = "any"
            raise ExecFails(errno.ENOENT)
        self.sim.probe("tag_script_runs")
        how = spec["how"]
        text = spec["text"].encode("utf-8")
        if how in ("enoent", "eacces", "enoexec"):
            run["want"] = "any"
            self.sim.fault("script_" + how)
            raise ExecFails({"enoent": errno.ENOENT, "eacces": errno.EACCES,
                             "enoexec": errno.ENOEXEC}[how])
        if how == "binary":
            text = b"\xff\xfe\x00," + text
        opts = {"tag": "tags"}
        acts = []
        if spec["delay"]:
            acts.append(("sleep", spec["delay"]))
        h = len(text) // 2
        acts += [("out", text[:h]), ("out", text[h:])]
        want = split_tags(text)
        if how == "hang":
            self.sim.fault("script_hangs")
            acts.append(("hang",))
            want = None
        elif how == "signal":
            run["signal"] = True
            acts.append(("touch", lambda c: c._die(signal=11)))
            want = None
        else:
            acts.append(("exit", spec["code"]))
            if spec["code"]:
                self.sim.fault("script_fails")
                want = None
        if spec["hold"]:
            self.sim.fault("script_output_held_open")
            opts["bg_hold"] = spec["hold"]
            if spec["hold"] > 20 and want is not None:
                run["or_none"] = True
        if spec["delay"] > 40:
            self.sim.fault("script_slow")
            want = None
        if how == "binary" and want is not None:
            run["or_none"] = True
        run["want"] = want
        return acts, opts

    def agent_died(self, p):
        self.kill_t.append(self.sim.now)

    # ============================================================ running
    def end_faults(self):
        Link.end_faults(self)
        for r in self.k.fs.rules:
            r["times"] = 0

    def drive(self):
        self.boot()
        self.schedule()
        if self.prop == "C24":
            self.run_until(lambda: bool(self.exits), self.cfg["dur"], 5.0)
            if self.exits:
                self.run_for(200)
                self.end_faults()
                self.judge()
                return
        else:
            self.run_for(self.cfg["dur"])
        self.end_faults()
        if not self.wait_working(REGAIN + GRACE):
            self.violate("C01", "not_regained:" + self.why_not(), "")
            if any(abs(d) > 181 for _, d, _ in self.jumps):
                self.violate("C23", "not_working_after", "the agent does not work after the clock "
                             "jump")
        self.run_for(30 if self.prop in ("C22", "C23", "C21") else 260)
        self.judge()

    def judge(self):
        self.note_disk()
        for p in self.procs:
            self.judge_meta(p)
            self.judge_tags(p)
            self.judge_disk(p)
            self.judge_polls(p)
        self.judge_clock()
        self.judge_exit()
        for r in self.rpcs:
            r.judge()
        if not self.jumps:      # lomond's poll events follow the wall clock
            self.check_identity(False)

    # ---- helpers
    def reqs(self, p, method):
        return [r for r in self.api.reqs if r.incarnation == p.incarnation and method in r.methods]

    def life(self, p):
        """(start, end) of an incarnation; the end is when it died, was asked to exit, or now."""
        end = self.sim.now
        if not p.alive:
            end = min(end, p.exit_status[2])
        for t, q in self.exits:
            if q is p:
                end = min(end, t)
        return p.t_boot, end

    def creds(self, r, prop):
        auth = r.call("device.check_auth")
        ap = auth.get("params", {}) if auth else {}
        if auth is None or ap.get("serial") != self.serial or ap.get("auth_token") != self.token or \
                r.calls[0] is not auth or ap.get("device_class") != "tuxtunnel":
            self.violate(prop, "no_credentials", "request %d: %r" % (r.n, r.methods))

    def sec(self, t):
        return (t - 1000 * SEC) / 1e9

    # ---- C19
    def judge_meta(self, p):
        start, end = self.life(p)
        sent = [r for r in self.api.reqs if r.incarnation == p.incarnation and
                any(m in META for m in r.methods)]
        fsbad = bool(self.k.fs.fired)
        done = False            # True once acknowledged, None when that is unclear
        due = start
        nact = 0
        for r in sent:
            self.creds(r, "C19")
            for m, (field, want) in META.items():
                c = r.call(m)
                if c is None or field not in c.get("params", {}):
                    self.violate("C19", "incomplete", "request %d lacks %s" % (r.n, m))
                elif not fsbad:
                    v = c["params"][field]
                    if want is not None and v != want or want is None and not v:
                        self.violate("C19", "wrong_value", "%s is %r" % (field, v))
        prev = None
        for r in sent:
            if prev is not None and (prev.t1 is None or prev.t1 > r.t0):
                self.violate("C19", "two_at_once", "at %.1f s" % self.sec(r.t0))
            if done:
                self.violate("C19", "sent_again", "request %d at %.1f s, although request %d was "
                             "acknowledged" % (r.n, self.sec(r.t0), prev.n))
                break
            if done is False:
                self.meta_gap(due, r.t0, prev)
            prev = r
            if r.t1 is None:
                break
            a = r.acked()
            if a is not False and done is False:
                done = a
            elif a is not False and done is None:
                done = a or None
            due = r.t1
        t_done = None
        if prev is not None and prev.t1 is None:
            if end - prev.t0 > 120 * SEC:
                self.violate("C19", "hangs", "request %d" % prev.n)
        elif done is False:
            self.meta_gap(due, end, prev)
        # sync instructions
        for s in self.syncs:
            if s["inc"] != p.incarnation or s["done"] is None:
                continue
            ok = [r for r in sent if s["t"] <= r.t0 <= s["done"] + 60 * SEC or
                  r.t0 <= s["done"] and r.t1 is not None and r.acked() is not False]
            busy = self.api_busy(s["t"], s["done"])
            if not ok and end - s["done"] > 62 * SEC:
                self.violate("C19", "sync_ignored", "instruction at %.1f s" % self.sec(s["t"]))

    def meta_gap(self, a, b, prev):
        lim = (60 + TAGTIME + 2 * GRACE) * SEC + self.api_busy(a, b)
        if b - a > lim:
            self.violate("C19", "not_sent" if prev is None else "not_retried",
                         "no metadata between %.1f s and %.1f s" % (self.sec(a), self.sec(b)))

    # ---- C20
    def missing(self, a, b):
        """Was the script away at some time between a and b?"""
        out = False
        for i, (t, s) in enumerate(self.script_log):
            e = self.script_log[i + 1][0] if i + 1 < len(self.script_log) else self.sim.now + 1
            if s is None and t <= b and e >= a:
                out = True
        return out

    def judge_tags(self, p):
        start, end = self.life(p)
        sent = self.reqs(p, TAGS)
        runs = [r for r in self.runs if r["inc"] == p.incarnation]
        fsbad = self.fired_any("tags")
        ev = sorted([(r["t"], 0, i, r) for i, r in enumerate(runs)] +
                    [(r.t0, 1, r.n, r) for r in sent], key=lambda e: e[:3])
        acked = None            # the list the agent knows the server to have
        sure = True
        last = None             # latest run
        pend = None             # run whose list has to be sent
        t_idle = start          # since when a missing script has to be noticed
        TL = (TAGTIME + 2 * GRACE) * SEC
        for t, kind, _, x in ev:
            if kind == 0:
                if pend is not None and sure:
                    self.violate("C20", "not_sent", "script run at %.1f s, %r was not sent" % (
                        self.sec(pend["t"]), pend["want"][:5]))
                    return
                last = x
                pend = None
                w = x["want"]
                if isinstance(w, list) and sure and w != acked and not x.get("or_none") and \
                        not any(abs(f - x["t"]) < SEC for f in self.forkfails):
                    pend = x
                continue
            r = x
            self.creds(r, "C20")
            lst = r.call(TAGS).get("params", {}).get("tag_list")
            if not isinstance(lst, list) or not all(isinstance(y, str) for y in lst):
                self.violate("C20", "wrong_tags", "%r" % (lst,))
                return
            ok = []
            if last is not None and isinstance(last["want"], list):
                ok.append(last["want"])
            if last is not None and last["want"] == "any" or fsbad or \
                    self.missing(t - 100 * SEC - self.api_busy(t - 100 * SEC, t), t) or \
                    any(t - 100 * SEC < f <= t for f in self.forkfails):
                ok.append([])
            if lst not in ok:
                self.violate("C20", "wrong_tags", "sent %r; the script's run says %r" % (
                    lst[:6], last and last["want"] if not last or not isinstance(
                        last["want"], list) else last["want"][:6]))
                return
            if sure and acked is not None and lst == acked:
                self.violate("C20", "resent", "%r was acknowledged" % lst[:5])
                return
            pend = None
            if r.t1 is None:
                if end - r.t0 > 120 * SEC:
                    self.violate("C20", "hangs", "request %d" % r.n)
                return
            ids = [c["id"] for c in r.calls if c.get("method") == TAGS]
            a = r.acked(ids)
            if a is False:
                pass
            elif r.acked() is True:
                acked = lst
                sure = True
            else:
                sure = False        # (unclear, until the next clear acknowledgement)
        if pend is not None and sure and end - pend["t"] > TL + self.api_busy(pend["t"], end):
            self.violate("C20", "not_sent", "script run at %.1f s, %r was not sent" % (
                self.sec(pend["t"]), pend["want"][:5]))
            return
        # a script that is not there: an empty list has to reach the server
        for i, (a, s) in enumerate(self.script_log):
            if s is not None or not sure or fsbad:
                continue
            b = self.script_log[i + 1][0] if i + 1 < len(self.script_log) else end
            a, b = max(a, start), min(b, end)
            state = None
            known = True
            free = a
            for r in sent:
                # including one that is under way while the script goes
                if r.t0 < a:
                    if r.t1 is None or r.t1 > a:
                        free = b if r.t1 is None else max(free, r.t1)
                    ids = [c["id"] for c in r.calls if c.get("method") == TAGS]
                    if r.acked(ids) is False:
                        continue
                    known = r.acked() is True
                    state = r.call(TAGS)["params"]["tag_list"]
            for r in [r for r in sent if r.t0 >= a] + [None]:
                upto = min(b, r.t0) if r is not None else b
                if known and state != []:
                    if upto - free > (60 + TAGTIME + 2 * GRACE) * SEC + self.api_busy(free, upto):
                        self.violate("C20", "not_sent", "the script is gone, no empty list between "
                                     "%.1f s and %.1f s" % (self.sec(free), self.sec(upto)))
                        return
                if r is None or r.t1 is None or r.t0 > b:
                    break
                ids = [c["id"] for c in r.calls if c.get("method") == TAGS]
                if r.acked(ids) is not False:
                    known = r.acked() is True
                    state = r.call(TAGS)["params"]["tag_list"]
                free = max(free, r.t1)

    def fired_any(self, word):
        return [f for f in self.k.fs.fired if word in f[2]]

    # ---- C21
    def judge_disk(self, p):
        start, end = self.life(p)
        sent = self.reqs(p, DISK)
        bad = [f for f in self.k.fs.fired if f[1] == "statvfs"]
        for r in sent:
            self.creds(r, "C21")
            q = r.call(DISK).get("params", {})
            got = (q.get("disk_capacity"), q.get("disk_used"))
            ok = [v for i, (t, v) in enumerate(self.disk_hist)
                  if t <= r.t0 and (i + 1 == len(self.disk_hist) or
                                    self.disk_hist[i + 1][0] >= r.t0 - 5 * SEC)]
            if got not in ok:
                self.violate("C21", "wrong_usage", "reported %r, the disk has %r" % (got, ok))
        if bad:
            return
        prev = None
        for r in sent + [None]:
            t = r.t0 if r is not None else end
            if prev is None:
                if t - start > 3 * GRACE * SEC:
                    self.violate("C21", "not_reported", "nothing by %.1f s" % self.sec(t))
                    return
            else:
                j = sum(abs(d) for x, d, _ in self.jumps if prev.t0 - SEC <= x <= t)
                if r is not None and t - prev.t0 < (3599 - j) * SEC:
                    self.violate("C21", "too_often", "%.1f s apart" % ((t - prev.t0) / 1e9))
                    return
                busy = self.api_busy(t - 200 * SEC, t)
                if t - prev.t0 > (3600 + 60 + TAGTIME + 3 * GRACE + j) * SEC + busy:
                    self.violate("C21", "not_reported", "between %.1f s and %.1f s" % (
                        self.sec(prev.t0), self.sec(t)))
                    return
            prev = r

    # ---- C24
    def judge_polls(self, p):
        start, end = self.life(p)
        runs = [r for r in self.runs if r["inc"] == p.incarnation]
        if p.returned is not None and p.failed is None and not any(q is p for _, q in self.exits):
            self.violate("C24", "agent_stopped", "the main loop ended by itself")
        prev = None
        for r in runs + [None]:
            t = r["t"] if r is not None else end
            if prev is None:
                a = start
                lim = 2 * GRACE
            else:
                a = prev["t"]
                lim = 60 + 2 * GRACE
                if r is not None and t - a < 59.5 * SEC:
                    self.violate("C24", "too_fast", "two polls %.2f s apart" % ((t - a) / 1e9))
                    return
            if prev is not None:
                spec = prev["spec"]
                lim += TAGTIME if spec and (spec["delay"] or spec["hold"] or spec["how"] == "hang") \
                    else 0
            if t - a > lim * SEC + self.api_busy(a, t) and not self.missing(a, t) and \
                    not self.fired_any("tags") and \
                    not any(a < f <= t for f in self.forkfails):
                self.violate("C24", "not_polling", "no poll between %.1f s and %.1f s" % (
                    self.sec(a), self.sec(t)))
                return
            prev = r

    def judge_exit(self):
        for t, p in self.exits:
            back = p.returned if p.returned is not None else self.sim.now
            if not p.alive and p.returned is None:
                continue
            lim = (TAGTIME + 2 + 2 * GRACE) * SEC + self.api_busy(t, back)
            if back - t > lim:
                self.violate("C24", "not_exiting" if p.returned is None else "slow_exit",
                             "asked to exit at %.1f s" % self.sec(t))
            elif p.returned is not None and p.failed:
                self.violate("C24", "agent_stopped", p.failed)
            elif p.alive and self.sim.now - p.returned > 30 * SEC:
                self.violate("C24", "lingers", "run_forever() returned, the process stays")

    # ---- C23
    def judge_clock(self):
        big = [(t, d, p) for t, d, p in self.jumps if abs(d) > 181]
        for t, d, p in big:
            if p is None or t - p.t_boot < 2 * GRACE * SEC or any(q is p for _, q in self.exits):
                continue
            died = p.exit_status[2] if not p.alive else self.sim.now
            if died - t > (3 + GRACE) * SEC:
                self.violate("C23", "not_killed", "the clock jumped by %s s at %.1f s, the agent "
                             "goes on" % (d, self.sec(t)))
        for p in self.procs:
            if p.alive or p.exit_status[0] != "signal":
                continue
            t = p.exit_status[2]
            if not any(x <= t and t - x < 15 * SEC for x, _, _ in big):
                self.violate("C23", "killed_for_nothing", "the agent killed itself at %.1f s; "
                             "jumps %r" % (self.sec(t), [(round(self.sec(x)), d) for x, d, _ in
                                                         self.jumps if t - 10 * SEC < x <= t]))


class Rpc(object):
    """One use of the JSON-RPC client with a prepared answer."""

    def __init__(self, w, n, spec):
        self.w = w
        self.n = n
        self.spec = spec
        self.req = None
        self.out = {}               # call index -> ("ok", value) | ("err", exception)
        self.sent = None            # exception of the request itself
        self.t0 = w.sim.now
        self.t1 = None
        self.ids = {}

    def method(self, i):
        return "t.%d.%d" % (self.n, i)

    def run(self):
        w = self.w
        p = w.proc
        mod = p.loader.get("dataplicity.jsonrpc")
        cl = p.client.remote if self.spec["shared"] else mod.JSONRPC(w.api_url)
        self.mod = mod
        calls = self.spec["calls"]
        try:
            self._run(cl, calls)
        except core.SimDead:
            raise
        except Exception as e:
            self.sent = e
        self.t1 = w.sim.now

    def _run(self, cl, calls):
        mode = self.spec["mode"]
        if mode == "call":
            self.out[0] = ("ok", cl.call(self.method(0), **calls[0][2]))
            return
        if mode == "notify":
            cl.notify(self.method(0), **calls[0][2])
            return
        with cl.batch() as batch:
            for i, (k, cid, params) in enumerate(calls):
                if k == "id":
                    self.ids[i] = cid
                    batch.call_with_id(cid, self.method(i), **params)
                elif k == "auto":
                    batch.call(self.method(i), **params)
                    self.ids[i] = batch.calls[-1]["id"]
                else:
                    batch.notify(self.method(i), **params)
        for i in self.ids:
            try:
                self.out[i] = ("ok", batch.get_result(self.ids[i]))
            except core.SimDead:
                raise
            except Exception as e:
                self.out[i] = ("err", e)
            if self.spec["default"]:
                try:
                    v = batch.get_result(self.ids[i], default=self)
                    self.out[i] += (v,)
                except core.SimDead:
                    raise
                except Exception:
                    pass
            try:
                batch.check(self.ids[i])
                chk = "ok"
            except core.SimDead:
                raise
            except Exception:
                chk = "err"
            if chk != self.out[i][0]:
                self.bad("check_disagrees", "call %d: check() says %s, get_result() %s" % (
                    i, chk, self.out[i][0]))

    def bad(self, key, msg):
        self.w.violate("C22", key, "rpc %d: %s" % (self.n, msg))

    # ---- the server's answer
    def plan(self, r):
        self.req = r
        self.w.sim.probe("rpc_requests")
        self.check_request(r)
        p = dict(self.spec["net"] or {})
        if p.get("kind", "ok") == "ok":
            p["kind"] = "body"
            p["how"] = "custom"
            p["make"] = self.body
        p["auth_optional"] = True
        return p

    def check_request(self, r):
        calls = self.spec["calls"]
        if r.single != (self.spec["mode"] != "batch"):
            self.bad("wrong_request", "%r" % r.raw[:100])
            return
        if len(r.calls) != len(calls):
            self.bad("wrong_request", "%d calls, expected %d" % (len(r.calls), len(calls)))
            return
        seen = set()
        for i, c in enumerate(r.calls):
            k, cid, params = calls[i]
            if c.get("method") != self.method(i) or c.get("params") != params or \
                    c.get("jsonrpc") != "2.0":
                self.bad("wrong_request", "call %d is %r" % (i, c))
            if (k == "notify") != ("id" not in c):
                self.bad("wrong_request", "id of %r" % c)
            if k == "id" and c.get("id") != cid:
                self.bad("wrong_request", "id of %r" % c)
            if "id" in c:
                if c["id"] in seen:
                    self.bad("same_id_twice", "%r" % c["id"])
                seen.add(c["id"])

    def body(self, r, resp):
        s = self.spec
        sim = self.w.sim
        out = []
        for i, c in enumerate(r.calls):
            if "id" not in c:
                continue
            for j, ch in enumerate(s["reply"][i]):
                x = s["pick"] + 7 * i + 3 * j
                e = dict(jsonrpc="2.0", id=c["id"])
                if ch == "r":
                    e["result"] = Poll.RESULTS[x % len(Poll.RESULTS)]
                elif ch == "n":
                    e["result"] = None
                elif ch == "e":
                    e["error"] = Poll.ERRS[x % len(Poll.ERRS)]
                else:
                    continue
                out.append(e)
        if s["order"] == "rev":
            out.reverse()
        elif s["order"] == "rot":
            out = out[1:] + out[:1]
        odd = s["odd"]
        err = {"code": -32600, "message": "Invalid Request"}
        if odd:
            sim.fault("rpc_odd_" + odd)
            e = {"extra": dict(jsonrpc="2.0", id="zzz", result=1),
                 "extra_err": dict(jsonrpc="2.0", id="zzz", error=err),
                 "noid_err": dict(jsonrpc="2.0", id=None, error=err),
                 "err_no_id": dict(jsonrpc="2.0", error=err),
                 "res_no_id": dict(jsonrpc="2.0", result=1), "number": 5, "null": None,
                 "string": "x", "list": [], "idlist": dict(jsonrpc="2.0", id=[1], result=1),
                 "emptydict": {}}.get(odd)
            if odd == "wrongver":
                out = [dict(x, jsonrpc="1.0") for x in out]
            elif odd == "strid":
                out = [dict(x, id=str(x["id"]) + " ") for x in out]
            else:
                out.insert(s["pick"] % (len(out) + 1), e)
        obj = out if not r.single else (out[0] if out else {})
        f = s["form"]
        if f != "list":
            sim.fault("rpc_body_" + f)
        good = json.dumps(obj).encode("utf-8")
        if f == "cut":
            return good[:min(len(good) - 1, int(len(good) * s["cut"]))]
        if f == "trailing":
            return good + b"]"
        if f == "bom":
            return b"\xef\xbb\xbf" + good
        if f == "utf8":
            return b"\xff" + good
        if f == "nan":
            return b'[{"jsonrpc": "2.0", "id": "a0", "result": N'
        return {"list": good, "dict": json.dumps({"jsonrpc": "2.0", "id": "a0", "result": True}
                                                 ).encode(), "null": b"null", "number": b"42",
                "string": b'"ok"', "html": b"<html></html>", "empty": b""}[f]

    # ---- judging
    def verdicts(self):
        """Per call id: ("ok", value), ("err", error), "fail" (any failure) or None (unclear);
        and whether the whole may also fail."""
        r = self.req
        if r.outcome != "delivered":
            return None, False
        try:
            obj = json.loads(r.body.decode("utf-8"))
        except ValueError:
            return None, False
        ids = [c["id"] for c in r.calls if "id" in c]
        if self.spec["mode"] != "batch":
            obj = [obj]
        elif not isinstance(obj, list):
            return None, False
        odd = False
        ver = {}
        for e in obj:
            if not isinstance(e, dict) or "id" not in e or isinstance(e["id"], (list, dict)):
                odd = True
                continue
            if e.get("jsonrpc") != "2.0":
                odd = True
            i = e["id"]
            if i not in ids:
                continue
            if "error" in e:
                v = ("err", e["error"])
            elif "result" in e:
                v = ("ok", e["result"])
            else:
                v = None
            if i in ver and ver[i] != v:
                v = None
            ver[i] = v
        return {i: ver.get(i, "fail") for i in ids}, odd

    def judge(self):
        w = self.w
        if self.t1 is None:
            alive = w.proc is not None and w.proc.alive and self.req is not None and \
                self.req.incarnation == w.incarnation
            if alive and w.sim.now - self.t0 > 90 * SEC:
                self.bad("hangs", "the request never returns (%s)" % self.req.kind)
            return
        if self.t1 - self.t0 > 75 * SEC:
            self.bad("hangs", "the request took %.0f s (%s)" % ((self.t1 - self.t0) / 1e9,
                                                                self.req.kind))
        if self.req is None:
            self.bad("not_sent", "%r" % self.sent)
            return
        ver, odd = self.verdicts()
        mode = self.spec["mode"]
        if mode == "notify":
            if self.req.outcome != "delivered" and self.sent is None:
                self.bad("failure_hidden", "notify: %s" % self.req.outcome)
            return
        if ver is None:
            if self.sent is None and (mode == "call" or self.ids) and \
                    any(o[0] == "ok" for o in self.out.values()):
                self.bad("failure_hidden", "%s, body %r" % (
                    self.req.outcome, (self.req.body or b"")[:60]))
            elif self.sent is None and mode == "batch" and self.req.outcome != "delivered":
                self.bad("failure_hidden", "%s" % self.req.outcome)
            return
        if mode == "call":
            v = list(ver.values())[0]
            if self.sent is not None:
                self.one(0, v, ("err", self.sent), odd)
            else:
                self.one(0, v, self.out[0], odd)
            return
        if self.sent is not None:
            if not odd:
                self.bad("good_reply_refused", "%r: %r" % (self.sent, self.req.body[:200]))
            return
        for i, cid in self.ids.items():
            self.one(i, ver[cid], self.out[i], odd)

    def one(self, i, v, got, odd):
        what = "call %d (%s): %r gave %r" % (i, v and v[0], v, got[:2])
        if v is None:
            return
        if v == "fail":
            if got[0] == "ok":
                self.bad("missing_reply_accepted", what)
            return
        if v[0] == "ok":
            if got[0] == "ok":
                if got[1] != v[1] or type(got[1]) is not type(v[1]):
                    self.bad("wrong_result", what)
            elif not odd:
                self.bad("result_lost", what)
            return
        if got[0] == "ok":
            self.bad("error_hidden", what)
            return
        e = got[1]
        if odd and not isinstance(e, self.mod.JSONRPCError):
            return
        if not isinstance(e, self.mod.JSONRPCError):
            self.bad("error_misreported", what)
            return
        err = v[1]
        if e.code != err.get("code") or "message" in err and e.message != err["message"] or \
                e.method != self.method(i) or e.data != err.get("data"):
            self.bad("error_misattributed", what + " %r %r %r %r" % (e.method, e.code, e.message,
                                                                     e.data))
        if len(got) > 2 and got[2] is not self:
            self.bad("default_ignored", what)
