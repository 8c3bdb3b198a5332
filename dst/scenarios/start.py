"""Starts of the agent from its command line, environment and stored identity.

C27: which servers it talks to, as which device, for which directory and within which limits.  The
supervisor starts it again after every end; files, options and environment change between starts,
files also while it runs, and reading them fails at times.
"""
import errno
import json

from .. import core
from ..core import SEC, MS
from .base import GRACE, compress_cfg
from .link import Link, REGAIN
from .traffic import LocalServer, LOCAL_IP
from ..world import M2M_IP

SERIAL = "/opt/dataplicity/tuxtunnel/serial"
AUTH = "/opt/dataplicity/tuxtunnel/auth"
STORE = {"serial": SERIAL, "auth": AUTH}
API = "https://api.dataplicity.com"
M2M = "wss://m2m.dataplicity.com/m2m/"
REMOTE = "/home/dataplicity/remote"
APIS = ["http://api.sim/", "https://api2.sim/json/", "http://10.1.1.1:8000/rpc", "http://api.sim:81"]
M2MS = ["ws://m2m.sim/m2m/", "ws://m2m2.sim/m2m/", "ws://m2m.sim:8080/x/y", "wss://m2m.sim/m2m/",
        "ws://m2m2.sim/m2m/?features=scan", "ws://m2m.sim:8080/m2m/?a=1&b=2", "ws://10.0.0.1:8080/",
        "wss://m2m3.sim:8080/m2m/"]
DIRS = ["/srv/share", "/data/remote dir", "~/pub", REMOTE]
LIMITS = ["1", "2", "3", "4", "6", " 5 ", "ten", "", "1.5", "0x10"]
PAD = ["", "", "\n", " \n", "\r\n", "\t"]
PORT = 9000


def split_url(url):
    scheme, _, rest = url.partition("://")
    hp, slash, path = rest.partition("/")
    host, _, port = hp.partition(":")
    return scheme == "wss", host, int(port or (443 if scheme == "wss" else 80)), slash + path


class Start(Link):
    span = 3000
    settle = 30

    # ============================================================ generation
    @classmethod
    def gen(cls, rng, prop):
        dur = rng.choice([20, 60, 150])
        cfg = dict(dur=dur, compress=compress_cfg(rng, 0.2), seg_p=0, frag_p=0, join_delay=0,
                   api_p=rng.choice([0, 0, 0.3, 0.5]),
                   api_kinds=rng.choice([None, ["auth_error"], ["error", "auth_error", "http"]]),
                   sessions=[], attempts=[],
                   same_identity=False)
        for _ in range(rng.choice([0, 0, 1, 2])):
            cfg["attempts"].append(rng.choice(["accept", "refuse", "unreach"]))

        def pick(p, values):
            return rng.choice(values) if rng.random() < p else None

        def ident(what):
            return "%s-%04d%s" % (what, rng.randint(0, 9999), rng.choice(["", "", "/x+y=", " z",
                                                                          "-\u00e9"]))

        def start():
            return dict(
                api=pick(0.4, APIS), m2m=pick(0.4, M2MS), serial=pick(0.3, [ident("optserial")]),
                auth=pick(0.3, [ident("optauth")]), dir=pick(0.5, DIRS),
                env_api=pick(0.4, APIS), env_m2m=pick(0.4, M2MS), env_services=pick(0.5, LIMITS),
                env_terminals=pick(0.5, LIMITS), equals=rng.random() < 0.3,
                order=rng.randint(0, 1 << 16))
        starts = [start()]
        for _ in range(rng.choice([0, 0, 1, 3])):
            starts.append(start() if rng.random() < 0.6 else dict(starts[-1]))
        if len(starts) == 1 or rng.random() < 0.5:
            cfg["cycle"] = True
        cfg["starts"] = starts
        cfg["store"] = {w: None if rng.random() < 0.12 else rng.choice(PAD) + ident(w) +
                        rng.choice(PAD) for w in ("serial", "auth")}
        ops = []

        def t(hi=None):
            return round(rng.uniform(0, hi or dur), 3)
        for _ in range(rng.choice([0, 1, 3, 6])):
            w = rng.choice(["serial", "auth"])
            ops.append([t(), "store", w, None if rng.random() < 0.3 else
                        rng.choice(PAD) + ident("new" + w) + rng.choice(PAD)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            w = rng.choice(["serial", "auth"])
            ops.append([rng.choice([0.0, 0.0, t()]), "rule", dict(
                ops=[rng.choice(["open_r", "read"])], match=STORE[w], skip=rng.choice([0, 0, 1]),
                times=rng.choice([1, 2, 100]), errno=rng.choice([errno.EIO, errno.EACCES,
                                                                 errno.EMFILE])),
                rng.choice([3, 15, 1000])])
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append([t(), rng.choice(["crash", "crash", "reset", "fin", "sync"])])
        for _ in range(rng.choice([1, 3, 6])):
            ops.append([t(), "who", rng.choice(["file", "listing"])])
        ops.sort(key=lambda o: o[0])
        return dict(cfg=cfg, ops=ops)

    # ============================================================ set-up
    def setup(self):
        Link.setup(self)
        self.scanning = []
        self.wants = {}             # uid -> (what, incarnation, session)
        self.tls = []               # (t, host)
        self.starts = []
        self.nreq = 0
        k, fs = self.k, self.k.fs
        for h in ("m2m.sim", "m2m2.sim", "m2m3.sim", "m2m.dataplicity.com"):
            k.dns[h] = M2M_IP
        for p in (443, 8080):
            k.listeners[(M2M_IP, p)] = self.m2m
        self.conns = []
        k.listeners[(LOCAL_IP, PORT)] = LocalServer(self, PORT)
        for i, d in enumerate(DIRS):
            d = d.replace("~", "/root")
            fs.put(d + "/who.txt", ("this is " + d).encode())
            fs.put(d + "/only_in_%d" % i, b"")
        self.values = {w: [] for w in STORE}        # (t, content or None)
        for w, v in sorted(self.cfg["store"].items()):
            self.op_store(w, v)

    def map_conn(self, conn):
        pass

    def op_store(self, w, v):
        if self.faults_over:
            return
        fs = self.k.fs
        self.values[w].append((self.sim.now, v))
        fs.remove_tree(STORE[w])
        if v is None:
            self.sim.fault("identity_file_missing")
        else:
            self.sim.fault("identity_file_replaced")
            fs.put(STORE[w], v.encode("utf-8"))

    def op_rule(self, rule, dur):
        r = dict(rule)
        self.k.fs.rules.append(r)

        def end():
            r["times"] = 0
        self.sim.after(int(dur * SEC), end)

    def end_faults(self):
        for r in self.k.fs.rules:
            r["times"] = 0
        for w in sorted(STORE):
            if self.values[w][-1][1] is None:
                self.op_store(w, "late%s\n" % w)
        Link.end_faults(self)

    # ============================================================ the program
    def boot(self):
        st = self.cfg["starts"]
        i = self.incarnation
        st = st[i % len(st)] if self.cfg.get("cycle") else st[min(i, len(st) - 1)]
        env = self.env
        for n in ("API_URL", "M2M_URL", "LIMIT_SERVICES", "LIMIT_TERMINALS"):
            env.pop("DATAPLICITY_" + n, None)
        for n, key in (("API_URL", "env_api"), ("M2M_URL", "env_m2m"),
                       ("LIMIT_SERVICES", "env_services"), ("LIMIT_TERMINALS", "env_terminals")):
            if st[key] is not None:
                env["DATAPLICITY_" + n] = st[key]
        self.start = st
        p = Link.boot(self)
        p.start = st
        p.code = p.t_ended = p.t_running = None
        p.nreq = 0
        p.seen = {}
        p.api = st["api"] or st["env_api"] or API
        p.m2m = st["m2m"] or st["env_m2m"] or M2M
        p.dir = (st["dir"] or REMOTE).replace("~", "/root")
        self.sim.probe("start_m2m_" + ("option" if st["m2m"] else "env" if st["env_m2m"] else
                                       "default"))
        return p

    def argv(self, st):
        a = []
        for key, names in (("api", ("-s", "--server-url")), ("m2m", ("-m", "--m2m-url")),
                           ("serial", ("--serial",)), ("auth", ("--auth",)),
                           ("dir", ("--remote-dir",))):
            if st[key] is None:
                continue
            n = names[(st["order"] >> 1) % len(names)]
            if st["equals"] and n.startswith("--"):
                a.append([n + "=" + st[key]])
            else:
                a.append([n, st[key]])
        o = st["order"]
        out = []
        while a:
            out += a.pop(o % len(a))
            o //= 3
        return ["/usr/bin/dataplicity"] + out + ["run"]

    def _main(self, p, loader):
        sim = self.sim
        p.failed = p.returned = None
        code = 0
        try:
            self.load(p, loader).main()
        except (core.SimDead, core.HarnessGap, core.HarnessError, GeneratorExit):
            raise
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            if type(e).__name__ == "GreenletExit":
                raise
            p.failed = "%s: %s" % (type(e).__name__, e)
            code = 1
        p.code = code
        p.t_ended = sim.now
        sim.log("agent_ended", code, p.failed)
        loader.get("threading")._shutdown()
        p.kill("exit", code & 255)

    def load(self, p, loader):
        sim = self.sim
        sim.noyield += 1
        save = core._yc.n
        core._yc.n = core.HUGE
        try:
            loader.get("threading")
            loader.get("sys").argv = self.argv(p.start)
            app = loader.get("dataplicity.app")
            cls = loader.get("dataplicity.client").Client
            run = cls.run_forever

            def run_forever(client):
                self.client = p.client = client
                p.t_running = sim.now
                return run(client)
            cls.run_forever = run_forever
            return app
        finally:
            sim.noyield -= 1
            core._yc.n = save

    # ============================================================ monitors
    def bad(self, key, msg):
        self.violate("C27", key, "start %d: %s" % (self.incarnation, msg))

    def allowed(self, p, w):
        """Values of the stored file the start could have read."""
        end = p.t_running if p.t_running is not None else p.t_ended
        if end is None:
            end = self.sim.now
        vals = []
        for i, (t, v) in enumerate(self.values[w]):
            nxt = self.values[w][i + 1][0] if i + 1 < len(self.values[w]) else None
            if t <= end and (nxt is None or nxt >= p.t_boot):
                vals.append(v)
        return vals

    def on_request(self, r):
        p = self.proc
        p.nreq += 1
        if r.url != p.api:
            self.bad("api_url", "request to %s, configured is %s" % (r.url, p.api))
        auth = r.call("device.check_auth")
        if auth is None:
            return
        a = auth.get("params") or {}
        for w, got in (("serial", a.get("serial")), ("auth", a.get("auth_token"))):
            if p.start[w] is not None:
                want = [p.start[w]]
            else:
                want = [v.strip() for v in self.allowed(p, w) if v is not None]
            if got not in want:
                self.bad("identity_" + w, "%s is %r, it was given %r" % (w, got, want))
            elif p.seen.setdefault(w, got) != got:
                self.bad("identity_changed", "%s was %r and is now %r" % (w, p.seen[w], got))
        # the server knows this device under any of its identities
        self.api.serial, self.api.token = a.get("serial"), a.get("auth_token")

    def on_tls(self, host):
        p = self.proc
        self.sim.probe("tls")
        secure, h, _, _ = split_url(p.m2m)
        if not secure:
            self.bad("tls_unasked", "with %s" % p.m2m)
        if host != h:
            self.bad("tls_name", "%r, the server is %r" % (host, h))
        p.ntls = getattr(p, "ntls", 0) + 1

    def on_upgrade(self, s):
        Link.on_upgrade(self, s)
        p = self.proc
        secure, host, port, path = split_url(p.m2m)
        line = s.request_line.decode("latin-1").split(" ")
        if len(line) != 3 or line[0] != "GET":
            return self.bad("request_line", repr(s.request_line))
        got = line[1]
        if "?" in path:
            ok = got == path
        else:
            base, _, q = got.partition("?")
            ok = base == path and q.startswith("features=") and \
                sorted(q[9:].split(",")) == ["downloads", "scan"]
        if not ok:
            self.bad("m2m_path", "%s asked for, configured is %s" % (got, p.m2m))
        hh = s.handshake_headers.get(b"host", b"").decode("latin-1")
        if hh.split(":")[0] != host:
            self.bad("m2m_host_header", "%r, configured is %s" % (hh, p.m2m))
        if secure and not getattr(p, "ntls", 0):
            self.bad("no_tls", "with %s" % p.m2m)
        p.ntls = 0

    def agent_died(self, p):
        self.check_start(p)

    def check_start(self, p):
        """Where it connected to, and whether it ought to have started at all."""
        t0, t1 = p.t_boot, self.sim.now
        if getattr(p, "checked", False):
            return
        p.checked = True
        secure, host, port, path = split_url(p.m2m)
        hosts = [h for t, h in self.k.lookup_log if t0 <= t <= t1]
        for h in hosts:
            if h not in (host, "127.0.0.1", "localhost"):
                self.bad("m2m_host", "%r looked up, configured is %s" % (h, p.m2m))
        cons = [(ip, pt) for t, ip, pt in self.k.connect_log if t0 <= t <= t1 and ip != LOCAL_IP]
        for ip, pt in cons:
            if ip != M2M_IP or pt != port:
                self.bad("m2m_port", "connection to %s:%d, configured is %s" % (ip, pt, p.m2m))
        must_fail = False
        may_fail = False
        for w in sorted(STORE):
            if p.start[w] is not None:
                continue
            vals = self.allowed(p, w)
            end = p.t_running or p.t_ended or t1
            fired = [f for f in self.k.fs.fired if t0 <= f[0] <= end and f[2] == STORE[w]]
            if fired or None in vals:
                may_fail = True
                if len(vals) == 1:
                    must_fail = True
        if p.t_running is not None:
            if must_fail:
                self.bad("started_without_identity", "it could not be read")
        elif p.t_ended is not None:
            self.sim.probe("failed_starts")
            if not may_fail:
                self.bad("did_not_start", "%s" % p.failed)
            if not p.code:
                self.bad("failure_unreported", "the exit code of a failed start is %r" % p.code)
            if p.nreq or hosts or cons:
                self.bad("failed_but_contacted", "%d requests, connections %r" % (p.nreq, cons))
        if p.t_ended is not None and p.t_running is not None:
            self.bad("stopped", "exit code %r, %s" % (p.code, p.failed))

    # ============================================================ the directory
    def op_who(self, what):
        s = self.m2m.current
        if s is None or self.proc.client is None:
            return
        self.nreq += 1
        uid = b"who-%d" % self.nreq
        self.wants[uid] = (what, self.proc, s)
        if what == "file":
            s.packet("open_remote_file", uid, b"who.txt")
        else:
            self.scanning.append(uid)
            s.packet("scan_remote_directory")

    def pk_scan_remote_directory_result(self, s, error):
        if error:
            self.bad("scan", repr(error))
            return
        for uid in self.scanning:
            if self.wants[uid][2] is s:
                self.scanning.remove(uid)
                s.packet("open_remote_file", uid, b"\0scan.json")
                return

    def pk_open_remote_file_result(self, s, uid, size, fail, reason):
        w = self.wants.get(uid)
        if w is None:
            return
        if fail:
            self.bad("wrong_directory", "%s of %s cannot be opened: %r" % (
                w[0], self.proc.dir, reason))
            return
        s.packet("read_remote_file", uid, 0, 100000)

    def pk_read_remote_file_result(self, s, uid, offset, size, data, fail, reason):
        w = self.wants.pop(uid, None)
        if w is None:
            return
        d = self.proc.dir
        self.sim.probe("directory_" + w[0])
        if w[0] == "file":
            ok = data == b"this is " + d.encode()
        else:
            try:
                j = json.loads(data.decode("utf-8"))
                i = [x.replace("~", "/root") for x in DIRS].index(d)
                ok = j.get("root") == d and b"only_in_%d" % i in data
            except ValueError:
                ok = False
        if fail or not ok:
            self.bad("wrong_directory", "configured is %s, its %s is %r %r" % (
                d, w[0], data[:80], reason))
        s.packet("close_remote_file", uid)

    # ============================================================ the limits
    def pty_program(self, argv):
        return [("out", b"$ "), ("hang",)], {}

    def drive(self):
        self.boot()
        self.schedule()
        self.run_for(self.cfg["dur"])
        self.end_faults()
        ok = self.wait_working(REGAIN + 20)
        if not ok:
            self.violate("C27", "does_not_work", "start %d, options %r" % (
                self.incarnation, self.start))
            return
        self.op_who("file")
        self.run_for(3)
        self.op_who("listing")
        self.run_for(10)
        if [u for u in self.wants if self.wants[u][2].alive]:
            self.bad("directory_unanswered", repr(sorted(self.wants)))
        self.limits()
        p = self.proc
        self.stopping = True
        self.check_start(p)
        if p.nreq == 0:
            self.bad("no_request", "to %s" % p.api)

    def limits(self):
        s = self.m2m.current
        st = self.proc.start
        num = 5000
        for what, key, default in (("services", "env_services", 500),
                                   ("terminals", "env_terminals", 100)):
            v = st[key]
            try:
                lim = default if v is None else int(v)
            except ValueError:
                lim = default
            n = lim + 1 if lim < 20 else 9
            if lim == default and self.sim.chance("limit.full", 0.02):
                n = lim + 1
            before = len(self.conns), len(self.ptys)
            us = []
            for i in range(n):
                num += 1
                if what == "services":
                    us.append(s.open_use(num, "redir"))
                    s.instruct(action="open-portredirect", m2m_port=num, device_port=PORT)
                else:
                    us.append(s.open_use(num, "term"))
                    s.instruct(action="open-terminal", port=num, name="shell")
            self.run_for(10)
            if not s.alive:
                return
            got = (len(self.conns), len(self.ptys))[what == "terminals"] - \
                before[what == "terminals"]
            self.sim.probe("limit_%s_%s" % (what, "default" if lim == default else "given"))
            if got != min(n, lim):
                self.bad("limit_" + what, "%d of %d opened, configured is %r" % (got, n, v))
            for u in us:
                if u.open:
                    u.close()
            self.run_for(1)
