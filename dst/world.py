"""The simulated world around the agent: boot, crash, restart, servers, programs."""
import errno
import os as _os
import sys as _sys

from . import core
from .core import SEC, MS, US, Sim
from .kernel import Kernel, Proc, Listener
from .simmods import Mods, ExecFails
from .loader import Loader, install
from .m2mserver import M2MServer
from .apiserver import ApiServer

M2M_IP = "10.0.0.1"
LOCAL_IP = "127.0.0.1"


class World(object):
    """Base of all scenarios."""
    props = ()

    def __init__(self, sim):
        self.sim = sim
        self.k = k = Kernel(sim)
        self.serial = "serial-0001"
        self.token = "token-abcdef"
        self.api_url = "http://api.sim/"
        self.m2m_url = "ws://m2m.sim/m2m/"
        self.remote_dir = "/home/dataplicity/remote"
        self.env = {"HOME": "/root", "PATH": "/usr/bin:/bin", "SHELL": "/bin/bash"}
        self.pty_ibuf = 65536
        self.pty_obuf = 8192
        self.incarnation = 0
        self.proc = None
        self.procs = []
        self.restart = True
        self.restart_delay = 2.0
        self.deaths = []            # (t, why, sig)
        self.returned = []          # times run_forever() returned
        self.mods = None
        self.loader = None
        self.client = None
        self.ptys = []
        self.allow_exit = False
        self.stopping = False
        k.programs = self.programs
        link = k.make_link(M2M_IP, lo=200 * US, hi=40 * MS)
        self.m2m_link = link
        k.dns["m2m.sim"] = M2M_IP
        self.m2m = M2MServer(self, link)
        k.listeners[(M2M_IP, 80)] = self.m2m
        self.local = k.make_link(LOCAL_IP, lo=10 * US, hi=200 * US)
        self.api = ApiServer(self, self.api_url)
        self.files()

    # ---------------------------------------------------------------- files
    def files(self):
        fs = self.k.fs
        fs.makedirs("/tmp")
        fs.makedirs("/var/tmp")
        fs.makedirs("/root")
        fs.makedirs("/etc")
        fs.makedirs("/dev")
        fs.makedirs(self.remote_dir)
        fs.put("/proc/cpuinfo", b"processor\t: 0\nRevision\t: a02082\nSerial\t\t: 00\n")
        fs.put("/proc/device-tree/model", b"Raspberry Pi 3 Model B Rev 1.2")
        fs.put("/proc/uptime", b"86400.00 172800.00\n")
        fs.put("/proc/loadavg", b"0.10 0.10 0.10 1/80 400\n")
        fs.put("/proc/meminfo", b"MemTotal:        1048576 kB\nMemFree:          524288 kB\n")
        fs.put("/proc/self/status", b"Name:\tdataplicity\nVmRSS:\t   20480 kB\n")
        fs.put("/etc/passwd", b"root:x:0:0:secret:/root:/bin/bash\n")
        fs.put("/etc/secret", b"TOP-SECRET-OUTSIDE")

    def interfaces(self):
        return [("lo", "127.0.0.1"), ("eth0", "192.168.1.20")]

    # ---------------------------------------------------------------- agent
    def boot(self):
        """Start an incarnation of the agent."""
        sim = self.sim
        self.incarnation += 1
        k = self.k
        pid = k.new_pid()
        p = Proc(k, pid, dict(self.env))
        p.incarnation = self.incarnation
        p.t_boot = sim.now
        k.pids[pid] = p
        k.procs.append(p)
        self.proc = p
        self.procs.append(p)
        p.on_dead = self._dead
        mods = Mods(k, p, self)
        loader = Loader(mods)
        self.mods = mods
        self.loader = loader
        self.loader = loader
        p.mods = mods
        p.loader = loader
        sim.log("boot", self.incarnation)
        p.spawn(lambda: self._main(p, loader), "main")
        return p

    def _main(self, p, loader):
        sim = self.sim
        sim.noyield += 1
        save = core._yc.n
        core._yc.n = core.HUGE
        try:
            loader.get("threading")
            mod = loader.get("dataplicity.client")
            self.loaded(p, loader)
        finally:
            sim.noyield -= 1
            core._yc.n = save
        p.returned = None
        p.failed = None
        try:
            client = mod.Client(rpc_url=self.api_url, m2m_url=self.m2m_url, serial=self.serial,
                                auth_token=self.token, remote_directory_path=self.remote_dir)
            p.client = self.client = client
            self.started(p, client)
            client.run_forever()
        except (core.SimDead, core.HarnessGap, core.HarnessError, GeneratorExit):
            raise
        except BaseException as e:
            if type(e).__name__ == "GreenletExit":
                raise
            import traceback
            p.failed = "%s: %s" % (type(e).__name__, e)
            sim.note("agent main failed: " + traceback.format_exc())
        p.returned = sim.now
        sim.log("agent_returned", p.failed)
        self.agent_returned(p)
        # interpreter shutdown: join non-daemon threads, then the process is gone
        loader.get("threading")._shutdown()
        if "atexit" in loader.modules:
            loader.get("atexit")._run_exitfuncs()
        p.kill("exit", 0)

    def loaded(self, p, loader):
        pass

    def on_tls(self, host):
        pass

    def on_upgrade(self, s):
        """The m2m server accepts a session."""

    def started(self, p, client):
        pass

    def agent_returned(self, p):
        pass

    def _dead(self, p):
        self.deaths.append((self.sim.now,) + tuple(p.exit_status[:2]))
        self.k.pids.pop(p.pid, None)
        self.agent_died(p)
        if self.restart and not self.stopping:
            self.sim.after(int(self.restart_delay * SEC), self.boot)

    def agent_died(self, p):
        pass

    def crash(self, why="crash"):
        """SIGKILL the agent now (from the hub)."""
        if self.proc is not None and self.proc.alive:
            self.sim.fault("agent_kill")
            self.proc.kill(why, 9)

    def in_agent(self, fn, name):
        """Run fn as a thread of the agent process (harness thread)."""
        return self.proc.spawn(fn, "h:" + name)

    def tasks_of(self, prefix):
        return [t for t in self.proc.tasks if t.state != core.DEAD and t.name.startswith(prefix)]

    # ---------------------------------------------------------------- hooks
    def http(self, mods, url, data, headers, method, timeout):
        return self.api.http(mods, url, data, headers, method, timeout)

    def api_call(self, m, p, r):
        return True

    def on_request(self, r):
        pass

    def on_applied(self, r):
        pass

    def on_session(self, s):
        pass

    def on_session_end(self, s):
        pass

    def on_assign(self, s, ident):
        pass

    def on_joined(self, s):
        pass

    def on_packet(self, s, name, f):
        pass

    def on_stray(self, s, name, f):
        pass

    def on_late(self, use, name, f):
        pass

    def on_protocol_error(self, s, what):
        pass

    def fork_info(self):
        return None

    def pty_started(self, p, c):
        c.pty_obj = p
        self.ptys.append((p, c))

    def programs(self, kind, argv, info):
        if kind == "pty":
            return self.pty_program(argv)
        return self.popen_program(argv)

    def pty_program(self, argv):
        return [("echo",)], {}

    def popen_program(self, argv):
        return [("exit", 0)], {}

    # ---------------------------------------------------------------- running
    def run_for(self, seconds):
        self.sim.run(self.sim.now + int(seconds * SEC))

    def run_until(self, cond, limit, step=1.0):
        end = self.sim.now + int(limit * SEC)
        while self.sim.now < end:
            if cond():
                return True
            self.sim.run(min(end, self.sim.now + int(step * SEC)))
            if self.sim.stop_flag:
                return False
        return cond()


def stack_room(size=256 << 20):
    """Deep recursion of the agent must end in its RecursionError, not on the end of the stack."""
    try:
        import resource
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        inf = resource.RLIM_INFINITY
        if soft != inf and soft < size:
            resource.setrlimit(resource.RLIMIT_STACK,
                               (size if hard == inf else min(size, hard), hard))
    except (ImportError, ValueError, OSError):
        pass


def prepare():
    stack_room()
    install()

    def unraisable(x, old=_sys.unraisablehook):
        # finalizers of objects of a finished run have nothing left to act on
        if not isinstance(x.exc_value, core.SimDead):
            old(x)
    _sys.unraisablehook = unraisable
