"""Simulated kernel: processes, descriptors, TCP, pipes, ptys, children."""
import errno
import select as _select
from collections import deque

from . import core
from .core import SEC, MS, US
from .fs import FS, err

POLLIN, POLLPRI, POLLOUT = _select.POLLIN, _select.POLLPRI, _select.POLLOUT
POLLERR, POLLHUP, POLLNVAL = _select.POLLERR, _select.POLLHUP, _select.POLLNVAL
POLLRDHUP = getattr(_select, "POLLRDHUP", 0x2000)

SIGHUP, SIGKILL, SIGTERM, SIGPIPE, SIGINT = 1, 9, 15, 13, 2


class Desc(object):
    """An open file description."""
    kind = "?"

    def __init__(self, k):
        self.k = k
        self.sim = k.sim
        self.waiters = []
        self.refs = 0
        self.closed = False
        self.nonblock = False

    def notify(self):
        if self.waiters:
            sim = self.sim
            for t in self.waiters:
                sim.wake(t)

    def poll_mask(self):
        return 0

    def unref(self):
        self.refs -= 1
        if self.refs <= 0 and not self.closed:
            self.closed = True
            self.on_close()
            self.notify()

    def on_close(self):
        pass


def wait_on(sim, descs, timeout, why):
    """Park the current task until one of descs changes. True if notified."""
    t = sim.cur
    for d in descs:
        d.waiters.append(t)
    try:
        return sim.park(timeout, why) is not None
    finally:
        for d in descs:
            try:
                d.waiters.remove(t)
            except ValueError:
                pass


# ------------------------------------------------------------------ regular files
class FileDesc(Desc):
    kind = "file"

    def __init__(self, k, inode, path, readable, writable, append):
        Desc.__init__(self, k)
        self.inode = inode
        self.path = path
        self.readable = readable
        self.writable = writable
        self.append = append
        self.pos = 0
        inode.opens += 1

    def poll_mask(self):
        return POLLIN | POLLOUT

    def on_close(self):
        self.inode.opens -= 1
        self.k.fs.unref(self.inode)

    def read(self, n):
        if not self.readable:
            raise err(errno.EBADF)
        if self.inode.kind == "d":
            raise err(errno.EISDIR)
        r = self.k.fs.check_fault(self.sim, "read", self.path)
        if r is not None:
            self.k.fs_fault(r, "read", self.path)
        data = self.inode.data
        if n is None or n < 0:
            n = len(data)
        out = bytes(data[self.pos:self.pos + n])
        self.pos += len(out)
        return out

    def write(self, data):
        if not self.writable:
            raise err(errno.EBADF)
        ino = self.inode
        n = len(data)
        fs = self.k.fs
        r = fs.check_fault(self.sim, "write", self.path)
        if r is not None:
            if r.get("short") and n > 1:
                n = 1 + self.sim.choose("fs.short", n - 1)
                self.sim.fault("short_write")
            else:
                if r.get("torn") and n > 1:
                    k = self.sim.choose("fs.torn", n)
                    self._store(bytes(data[:k]))
                self.k.fs_fault(r, "write", self.path)
        pos = len(ino.data) if self.append else self.pos
        grow = pos + n - len(ino.data)
        if grow > 64 << 20:
            self.sim.fault("efbig")     # the simulated file size limit
            fs.fired.append((self.sim.now, "write", self.path, None))
            raise err(errno.EFBIG)
        if grow > 0 and grow > ino.dev.free_bytes:
            n -= grow - ino.dev.free_bytes
            fs.fired.append((self.sim.now, "write", self.path, None))
            if n <= 0:
                self.sim.fault("enospc")
                raise err(errno.ENOSPC)
            self.sim.fault("short_write_full_disk")
        self._store(bytes(data[:n]))
        return n

    def _store(self, data):
        ino = self.inode
        if self.append:
            self.pos = len(ino.data)
        end = self.pos + len(data)
        if end > len(ino.data):
            self.k.fs.resize(ino, end)
        ino.data[self.pos:end] = data
        self.pos = end
        ino.mtime = self.k.wall_ns()
        self.k.mutated("write", self.path)

    def seek(self, off, whence):
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        else:
            p = len(self.inode.data) + off
        if p < 0:
            raise err(errno.EINVAL)
        if p > (1 << 63) - 1:
            raise err(errno.EINVAL)
        self.pos = p
        return p


class NullDesc(Desc):
    kind = "null"

    def poll_mask(self):
        return POLLIN | POLLOUT

    def read(self, n):
        return b""

    def write(self, data):
        return len(data)


# ------------------------------------------------------------------ pipes
class Pipe(object):
    def __init__(self, k, cap=65536):
        self.k = k
        self.buf = bytearray()
        self.cap = cap
        self.readers = 0
        self.writers = 0
        self.rd = PipeEnd(k, self, False)
        self.wr = PipeEnd(k, self, True)
        self.on_space = []      # child writers waiting for room
        self.total_in = 0
        self.total_out = 0

    def changed(self):
        self.rd.notify()
        self.wr.notify()


class PipeEnd(Desc):
    kind = "pipe"

    def __init__(self, k, pipe, w):
        Desc.__init__(self, k)
        self.pipe = pipe
        self.w = w
        if w:
            pipe.writers += 1
        else:
            pipe.readers += 1

    def on_close(self):
        p = self.pipe
        if self.w:
            p.writers -= 1
        else:
            p.readers -= 1
        p.changed()
        for fn in list(p.on_space):
            fn()

    def poll_mask(self):
        p = self.pipe
        m = 0
        if self.w:
            if len(p.buf) < p.cap:
                m |= POLLOUT
            if p.readers <= 0:
                m |= POLLERR
        else:
            if p.buf:
                m |= POLLIN
            if p.writers <= 0:
                m |= POLLHUP
        return m

    def read(self, n):
        p = self.pipe
        if self.w:
            raise err(errno.EBADF)
        if not p.buf:
            if p.writers <= 0:
                return b""
            return None
        if n is None or n < 0:
            n = len(p.buf)
        out = bytes(p.buf[:n])
        del p.buf[:len(out)]
        p.total_out += len(out)
        for fn in list(p.on_space):
            self.sim.after(10 * US, fn)
        p.wr.notify()
        return out

    def write(self, data):
        p = self.pipe
        if not self.w:
            raise err(errno.EBADF)
        if p.readers <= 0:
            raise err(errno.EPIPE)
        n = min(len(data), p.cap - len(p.buf))
        if n <= 0:
            return None
        p.buf.extend(data[:n])
        p.total_in += n
        p.rd.notify()
        return n


# ------------------------------------------------------------------ pty
class Pty(object):
    """Master/slave pair with a raw-mode program on the slave side."""

    def __init__(self, k, ibuf=65536, obuf=8192):
        self.k = k
        self.ibuf = bytearray()     # to the program
        self.obuf = bytearray()     # from the program
        self.icap = ibuf
        self.ocap = obuf
        self.slaves = 0
        self.master = PtyMaster(k, self)
        self.on_input = None
        self.on_space = []
        self.on_hangup = None
        self.sizes = []             # TIOCSWINSZ history: (rows, cols)
        self.total_in = bytearray()
        self.master_closed = False


class PtyMaster(Desc):
    kind = "pty"

    def __init__(self, k, pty):
        Desc.__init__(self, k)
        self.pty = pty

    def on_close(self):
        self.pty.master_closed = True
        if self.pty.on_hangup is not None:
            self.pty.on_hangup()

    def poll_mask(self):
        p = self.pty
        m = 0
        if p.obuf:
            m |= POLLIN
        if len(p.ibuf) < p.icap:
            m |= POLLOUT
        if p.slaves <= 0:
            m |= POLLHUP
        return m

    def read(self, n):
        p = self.pty
        if not p.obuf:
            if p.slaves <= 0:
                raise err(errno.EIO)
            return None
        out = bytes(p.obuf[:min(n, 4095)])
        del p.obuf[:len(out)]
        for fn in list(p.on_space):
            self.sim.after(10 * US, fn)
        return out

    def write(self, data):
        p = self.pty
        if p.slaves <= 0:
            raise err(errno.EIO)
        n = min(len(data), p.icap - len(p.ibuf))
        if n <= 0:
            return None
        if n > 1 and self.sim.chance("pty.short", 0.05):
            n = 1 + self.sim.choose("pty.shortn", n - 1)
            self.sim.fault("pty_short_write")
        p.ibuf.extend(data[:n])
        p.total_in.extend(data[:n])
        if p.on_input is not None:
            self.sim.after(20 * US, p.on_input)
        return n


# ------------------------------------------------------------------ TCP
class Link(object):
    """Network path between the device and one host."""

    def __init__(self, name, lo=50 * US, hi=400 * US, seg_p=0.0):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.seg_p = seg_p          # chance that a write is split further
        self.blackhole = False
        self.conns = []             # live connections


class TcpEnd(Desc):
    kind = "tcp"

    def __init__(self, k, link, name):
        Desc.__init__(self, k)
        self.link = link
        self.name = name
        self.peer = None
        self.rbuf = bytearray()
        self.rcap = 128 * 1024
        self.sndcap = 128 * 1024
        self.q = deque()            # to the peer: [arrive, data|'FIN'|'RST']
        self.undelivered = 0
        self.last_arrive = 0
        self.pumping = None
        self.fin = False            # FIN received
        self.fin_sent = False
        self.rd_shut = False
        self.so_error = 0
        self.rst = False
        self.connected = False
        self.connecting = False     # non-blocking connect under way
        self.gone = False           # this host forgot the connection silently
        self.actor = None           # callbacks for simulated peers
        self.paused = False         # actor does not read
        self.ever_sent = 0
        self.ever_rcvd = 0
        self.app_closed = False     # close() was called
        self.t_app_closed = None
        self.rst_rcvd = False
        self.hold_since = None
        self.rx_hook = None         # called once, when the next data arrives

    # -- sending
    def sendable(self):
        return self.sndcap - self.undelivered

    def push(self, data):
        """Queue bytes to the peer (already within the window)."""
        sim = self.sim
        link = self.link
        self.ever_sent += len(data)
        self.undelivered += len(data)
        pieces = [data]
        if link.seg_p and len(data) > 1 and sim.chance("net.seg", link.seg_p):
            pieces = []
            rest = data
            for _ in range(1 + sim.choose("net.nseg", 4)):
                if len(rest) < 2:
                    break
                cut = 1 + sim.choose("net.cut", min(len(rest) - 1, 5000))
                pieces.append(rest[:cut])
                rest = rest[cut:]
            pieces.append(rest)
        for p in pieces:
            self._enqueue(p)

    def _delay(self):
        link = self.link
        return self.sim.logdur("net.delay", link.lo, link.hi)

    def _enqueue(self, item):
        t = max(self.sim.now + self._delay(), self.last_arrive)
        self.last_arrive = t
        self.q.append([t, item])
        self._sched()

    def _sched(self):
        if self.pumping is None and self.q:
            self.pumping = self.sim.at(max(self.q[0][0], self.sim.now), self._pump)

    def holding(self):
        return self.link.blackhole or self.peer.gone == "blackhole"

    def _pump(self):
        self.pumping = None
        q = self.q
        now = self.sim.now
        peer = self.peer
        while q:
            if q[0][0] > now:
                self._sched()
                return
            if self.holding():
                if self.hold_since is None:
                    self.hold_since = now
                    self.sim.after(924 * SEC, self._rto, now)
                return
            self.hold_since = None
            item = q[0][1]
            if item == "RST":
                q.popleft()
                peer._got_rst()
                continue
            if peer.gone:           # rebooted host: answers with RST
                q.clear()
                self.undelivered = 0
                self._got_rst_later()
                return
            if item == "FIN":
                q.popleft()
                peer._got_fin()
                continue
            if peer.app_closed or peer.rst:
                # data for a closed socket
                q.clear()
                self.undelivered = 0
                if not peer.rst:
                    self._got_rst_later()
                self.notify()
                return
            if peer.actor is not None and not peer.paused:
                room = len(item)
            else:
                room = peer.rcap - len(peer.rbuf)
            if room <= 0:
                return              # resumed by the reader
            if room < len(item):
                data = item[:room]
                q[0][1] = item[room:]
            else:
                data = item
                q.popleft()
            self.undelivered -= len(data)
            peer._got_data(data)
            self._window_open()
        return

    def _rto(self, since):
        if self.hold_since == since and self.q and not self.rst:
            self.sim.log("rto", self.name)
            self._got_rst(errno.ETIMEDOUT)

    def _window_open(self):
        if self.actor is not None:
            fn = getattr(self.actor, "on_writable", None)
            if fn is not None:
                fn(self)
        else:
            self.notify()

    def _got_rst_later(self):
        self.sim.after(self._delay(), self._got_rst)

    def _got_data(self, data):
        self.ever_rcvd += len(data)
        if self.actor is not None and not self.paused:
            self.actor.on_data(self, data)
        else:
            self.rbuf.extend(data)
            self.notify()
        if self.rx_hook is not None:
            fn, self.rx_hook = self.rx_hook, None
            fn()

    def _got_fin(self):
        if self.rst or self.app_closed:
            return
        self.fin = True
        self.sim.log("fin", self.name)
        if self.actor is not None:
            if not self.paused:
                self.actor.on_fin(self)
        else:
            self.notify()

    def _got_rst(self, e=errno.ECONNRESET):
        if self.rst or self.gone:
            return
        self.rst = True
        self.rst_rcvd = True
        if not self.so_error:
            self.so_error = e if not (self.fin and self.fin_sent) else 0
        self.q.clear()
        self.undelivered = 0
        self.sim.log("rst", self.name)
        if self.actor is not None:
            self.actor.on_rst(self)
        else:
            self.notify()

    def resume_peer(self):
        """Room in rbuf again: let the peer's queue continue."""
        p = self.peer
        if p is not None and p.pumping is None and p.q:
            p.pumping = self.sim.after(20 * US, p._pump)

    # -- actor API
    def unpause(self):
        if not self.paused:
            return
        self.paused = False
        if self.rbuf:
            data = bytes(self.rbuf)
            del self.rbuf[:]
            self.actor.on_data(self, data)
        if self.fin and not self.rst:
            self.actor.on_fin(self)
        self.resume_peer()

    def shut_write(self):
        if not self.fin_sent and not self.rst:
            self.fin_sent = True
            self._enqueue("FIN")

    def app_close(self):
        """close(): FIN, or RST when data was not read."""
        if self.app_closed:
            return
        self.app_closed = True
        self.t_app_closed = self.sim.now
        if self.rst or self.peer is None:
            return
        if self.rbuf:
            self.abort()
        else:
            self.shut_write()

    def abort(self):
        """Send RST."""
        if not self.app_closed:
            self.app_closed = True
            self.t_app_closed = self.sim.now
        if self.rst:
            return
        self.rst = True
        # what the kernel had not transmitted yet is lost
        for _ in range(self.sim.choose("net.rstkeep", len(self.q) + 1)):
            self.q.pop()
        while self.q and self.q[-1][1] == "FIN":
            self.q.pop()
        self._enqueue("RST")

    # -- descriptor API
    def on_close(self):
        self.k.sock_closed(self)
        self.app_close()

    def poll_mask(self):
        if self.connecting:
            return 0
        if not self.connected:
            return (POLLOUT | POLLHUP) | (POLLERR if self.so_error else 0)
        m = 0
        if self.rbuf:
            m |= POLLIN
        if self.fin or self.rd_shut or self.rst:
            m |= POLLIN | POLLRDHUP
        if self.rst or ((self.fin or self.rd_shut) and self.fin_sent):
            m |= POLLHUP
        if self.so_error:
            m |= POLLERR
        if self.rst or self.fin_sent or self.sendable() > self.sndcap // 3:
            m |= POLLOUT
        return m

    def read(self, n):
        """None: would block."""
        if self.rbuf:
            out = bytes(self.rbuf[:n])
            del self.rbuf[:len(out)]
            self.resume_peer()
            return out
        if self.so_error:
            e, self.so_error = self.so_error, 0
            raise err(e)
        if self.fin or self.rd_shut or self.rst:
            return b""
        if not self.connected:
            raise err(errno.ENOTCONN)
        return None

    def write(self, data):
        if self.so_error:
            e, self.so_error = self.so_error, 0
            raise err(e)
        if self.rst or self.fin_sent:
            raise err(errno.EPIPE)
        if not self.connected:
            raise err(errno.EPIPE)
        n = min(len(data), self.sendable())
        if n <= 0:
            return None
        self.push(bytes(data[:n]))
        return n


class Listener(object):
    """A simulated host:port. Override accept()."""
    backlog = True

    def __init__(self, k, link):
        self.k = k
        self.link = link

    def decide(self):
        """'accept' | 'refuse' | 'timeout' ; called per connection attempt."""
        return "accept"

    def accepted(self, end):
        pass


# ------------------------------------------------------------------ children
class Child(object):
    """A simulated external process running a script of actions.

    Actions: ("out", bytes) ("err", bytes) ("sleep", s) ("exit", code)
             ("closeout",) ("closeerr",) ("echo",)  # consume input, echo it back
             ("recv",)  # consume input silently from now on
             ("noread",) ("hang",) ("need", n)  # wait until n bytes were consumed
    """

    def __init__(self, k, pid, argv, script, out=None, errd=None, inp=None, pty=None,
                 parent=None, opts=None):
        self.k = k
        self.sim = k.sim
        self.pid = pid
        self.argv = argv
        self.script = deque(script)
        self.out = out
        self.errd = errd
        self.inp = inp
        self.pty = pty
        self.parent = parent
        self.state = "run"
        self.status = None
        self.opts = opts or {}
        self.pending = b""
        self.pending_to = None
        self.written = {"out": bytearray(), "err": bytearray()}
        self.received = bytearray()
        self.reading = False
        self.echo = False
        self.signals = []
        self.exit_time = None
        self.t_out = None           # last time it wrote anything
        self.t_reaped = None
        self.t_outclosed = None     # nobody can write its output any more
        self.reaped = False
        self.blocked = False
        self.sleeping = None
        self.stopped = False
        self.started = self.sim.now
        self.tag = self.opts.get("tag")
        self.t_ttyclosed = None
        if pty is not None:
            pty.slaves += 1
            pty.on_input = self._on_input
            pty.on_hangup = self._on_master_close
            pty.on_space.append(self._space)
        for d in (out, errd):
            if d is not None and isinstance(d, PipeEnd):
                d.pipe.on_space.append(self._space)
        self.sim.after(self.sim.logdur("proc.start", 300 * US, 20 * MS), self._step)

    def _on_input(self):
        if self.state != "run" or not self.reading or self.stopped:
            return
        p = self.pty
        if p.ibuf and self.t_ttyclosed is None:
            data = bytes(p.ibuf)
            del p.ibuf[:]
            self.received.extend(data)
            p.master.notify()
            if self.opts.get("on_input"):
                self.opts["on_input"](self, data)
            if self.echo:
                self.script.appendleft(("out", data))
                if not self.pending and self.sleeping is None:
                    self._step()
            elif self.script and self.script[0][0] == "need" and not self.pending and \
                    self.sleeping is None:
                self._step()

    def _space(self):
        if self.state == "run" and self.pending:
            self._write_more()
            if not self.pending:
                self._step()

    def _write_more(self):
        data = self.pending
        self.t_out = self.sim.now
        which = self.pending_to
        if self.pty is not None:
            p = self.pty
            if p.master_closed or self.t_ttyclosed is not None:
                self.pending = b""
                return
            n = min(len(data), p.ocap - len(p.obuf))
            if n > 0:
                p.obuf.extend(data[:n])
                self.written["out"].extend(data[:n])
                self.pending = data[n:]
                p.master.notify()
            return
        d = self.out if which == "out" else self.errd
        if d is None or d.closed:
            self.pending = b""
            return
        if isinstance(d, NullDesc):
            self.written[which].extend(data)
            self.pending = b""
            return
        try:
            n = d.write(data)
        except OSError:
            self.pending = b""
            self.sim.probe("child_sigpipe")
            self._die(signal=SIGPIPE)
            return
        if n:
            self.written[which].extend(data[:n])
            self.pending = data[n:]

    def _step(self):
        if self.state != "run" or self.stopped:
            return
        self.sleeping = None
        while self.script and self.state == "run":
            if self.pending:
                self._write_more()
                if self.pending:
                    return
                if self.state != "run":
                    return
            a = self.script.popleft()
            op = a[0]
            if op in ("out", "err"):
                self.pending = bytes(a[1])
                self.pending_to = op
                self._write_more()
                if self.pending:
                    return
            elif op == "sleep":
                self.sleeping = self.sim.after(int(a[1] * SEC), self._step)
                return
            elif op == "exit":
                self._die(code=a[1])
                return
            elif op == "closeout":
                self._close_one("out")
            elif op == "closeerr":
                self._close_one("errd")
            elif op == "closetty":
                self._close_tty()
            elif op == "recv":
                self.reading = True
                self.sim.after(0, self._on_input)
            elif op == "echo":
                self.reading = True
                self.echo = True
                self.sim.after(0, self._on_input)
            elif op == "noread":
                self.reading = False
            elif op == "need":
                if len(self.received) < a[1]:
                    self.script.appendleft(a)
                    return
            elif op == "touch":
                a[1](self)
            elif op == "hang":
                return
            else:
                raise core.HarnessError("child action %r" % (a,))

    def poke(self, *actions):
        """Append actions to the script (driven by the scenario)."""
        idle = not self.script and not self.pending and self.sleeping is None
        self.script.extend(actions)
        if idle:
            self.sim.after(0, self._step)

    def _close_one(self, name):
        d = getattr(self, name)
        if name == "out" and self.t_outclosed is None:
            self.t_outclosed = self.sim.now
        if d is not None:
            setattr(self, name, None)
            d.unref()

    def _die(self, code=0, signal=0):
        if self.state != "run":
            return
        self.state = "zombie"
        self.status = (code & 0xff) << 8 | (signal & 0x7f)
        self.exit_time = self.sim.now
        self.sim.log("exit", self.argv0, code, signal)
        hold = self.opts.get("bg_hold")
        if hold and not signal:
            # a background job keeps the output open
            self.sim.after(int(hold * SEC), self._close_fds)
        else:
            self._close_fds()
        if self.parent is None or not self.parent.alive:
            self.reap()
        else:
            self.parent.child_exited(self)

    @property
    def argv0(self):
        return self.tag or (self.argv[-1] if self.argv else "?")

    def _close_fds(self):
        for name in ("out", "errd", "inp"):
            self._close_one(name)
        self._close_tty()

    def _close_tty(self):
        if self.pty is not None and self.t_ttyclosed is None:
            self.t_ttyclosed = self.sim.now
            self.pty.slaves -= 1
            # no longer anybody's controlling terminal
            self.pty.on_input = self.pty.on_hangup = None
            self.pty.master.notify()

    def _on_master_close(self):
        if self.state == "run":
            self.signal(SIGHUP, "tty")

    def signal(self, sig, by):
        self.signals.append((self.sim.now, sig, by))
        self.sim.log("signal", self.argv0, sig, by)
        if self.state != "run":
            return
        if sig == 0:
            return
        if sig != SIGKILL:
            h = self.opts.get("handlers", {}).get(sig, "default")
            if h == "ignore":
                return
            if isinstance(h, (int, float)):
                self.sim.after(int(h * SEC), self._die, 0, sig)
                return
        else:
            d = self.opts.get("kill_delay", 0)
            if d:
                self.sim.after(int(d * SEC), self._die, 0, sig)
                return
        self._die(signal=sig)

    def reap(self):
        self.t_reaped = self.sim.now
        self.state = "gone"
        self.reaped = True
        self.k.pid_free(self.pid)


class Stranger(object):
    """An unrelated process that got a recycled pid."""
    def __init__(self, pid):
        self.pid = pid
        self.signals = []


# ------------------------------------------------------------------ processes
class Proc(object):
    """One incarnation of the agent."""

    def __init__(self, k, pid, env):
        self.k = k
        self.sim = k.sim
        self.pid = pid
        self.env = env
        self.fds = {}
        self.alive = True
        self.tasks = []
        self.children = {}
        self.cwd = "/"
        self.maxfd = 1024
        self.wait_tasks = []
        self.exit_status = None
        self.on_dead = None
        self.wsize = {}
        null = NullDesc(k)
        for fd in (0, 1, 2):
            null.refs += 1
            self.fds[fd] = null
        self.uncaught = []

    def spawn(self, fn, name):
        t = self.sim.spawn(fn, name, self)
        t.is_agent = True
        self.tasks.append(t)
        return t

    def newfd(self, desc, lowest=3):
        fd = lowest
        fds = self.fds
        while fd in fds:
            fd += 1
        if fd >= self.maxfd:
            if desc.refs <= 0:
                desc.refs = 1
                desc.unref()
            raise err(errno.EMFILE)
        desc.refs += 1
        fds[fd] = desc
        return fd

    def desc(self, fd):
        d = self.fds.get(fd)
        if d is None:
            raise err(errno.EBADF)
        return d

    def closefd(self, fd):
        d = self.fds.pop(fd, None)
        if d is None:
            raise err(errno.EBADF)
        d.unref()

    def child_exited(self, child):
        for t in self.wait_tasks:
            self.sim.wake(t)

    def kill(self, why, sig=SIGKILL):
        """The process dies now; only the kernel's state survives."""
        if not self.alive:
            return
        self.alive = False
        sim = self.sim
        sim.log("agent_killed", why, sig)
        self.exit_status = (why, sig, sim.now)
        me = sim.cur
        for t in self.tasks:
            if t.state != core.DEAD:
                t.state = core.DEAD
                sim.tasks.discard(t)
        for fd in sorted(self.fds):
            d = self.fds[fd]
            d.unref()
        self.fds.clear()
        for pid in sorted(self.children):
            c = self.children[pid]
            c.parent = None
            if c.state == "zombie":
                c.reap()
        if self.on_dead is not None:
            sim.after(0, self.on_dead, self)
        if me is not None and me.proc is self:
            sim.hub.switch()      # never returns


class Kernel(object):
    _pair = None

    def __init__(self, sim):
        self.sim = sim
        self.fs = FS()
        self.hosts = {}          # name -> Link
        self.dns = {}            # hostname -> ip or callable
        self.listeners = {}      # (ip, port) -> Listener
        self.links = {}          # ip -> Link
        self.pids = {}           # pid -> Child | Proc | Stranger
        self.next_pid = 300
        self.free_pids = []
        self.recycle = False
        self.strangers = []
        self.programs = None     # callback(kind, argv, info) -> (script, opts) or OSError
        self.children = []
        self.wall_off = 0        # clock jumps, ns
        self.all_conns = []
        self.kill_log = []
        self.thread_fail = None  # callback() -> bool
        self.mut_hook = None
        self.seam_counts = {}
        self.seam_trigger = None
        self.procs = []
        self.fork_fail = None
        self.connect_log = []
        self.lookup_log = []

    # ---- time
    def wall_ns(self):
        return self.sim.now + self.sim.wall0 - 1000 * SEC + self.wall_off

    def jump_clock(self, dt):
        self.wall_off += int(dt * SEC)
        self.sim.fault("clock_jump")
        self.sim.log("clock_jump", dt)

    # ---- seams
    def seam(self, kind, detail=""):
        """Entry of every simulated system call made by agent code."""
        sim = self.sim
        if core.SIM is not sim or sim.cur is None:
            raise core.SimDead("late call")
        sim.pause_point()
        tr = self.seam_trigger
        if tr is not None:
            tr(kind, detail)

    def mutated(self, op, path):
        if self.mut_hook is not None:
            self.mut_hook(op, path)

    def fs_fault(self, rule, op, path):
        if rule.get("kill"):
            self.sim.fault("kill_at_fs_op")
            self.sim.cur.proc.kill("fault at %s %s" % (op, path))
            raise core.HarnessError("dead task runs")
        if "stall" in rule:
            # a disk that does not answer for a while: the call itself then succeeds
            if not self.sim.noyield and self.sim.cur is not None:
                self.sim.fault("fs_stall")
                d = rule["stall"]
                if d == "gate":
                    g = rule["gate"]
                    g.append(self.sim.cur)
                    d = 200
                self.sim.park(int(d * SEC), "disk " + op)
                if rule["stall"] == "gate":
                    for _ in range(self.sim.choose("gate.n", 60)):
                        self.sim._requeue(self.sim.cur)
            return
        self.sim.fault("fs_" + errno.errorcode.get(rule["errno"], "err").lower())
        raise err(rule["errno"], path)

    # ---- pids
    def new_pid(self):
        if self.recycle and self.free_pids:
            return self.free_pids.pop(0)
        self.next_pid += 1
        return self.next_pid

    def pid_free(self, pid):
        self.pids.pop(pid, None)
        if self.recycle:
            # an unrelated process takes the number at once
            s = Stranger(pid)
            self.strangers.append(s)
            self.pids[pid] = s
            self.sim.probe("pid_recycled")

    def spawn_child(self, proc, kind, argv, out=None, errd=None, inp=None, pty=None, info=None):
        if self.fork_fail is not None and self.fork_fail(kind, argv):
            self.sim.fault("fork_eagain")
            raise err(errno.EAGAIN)
        script, opts = self.programs(kind, argv, info)
        pid = self.new_pid()
        c = Child(self, pid, argv, script, out, errd, inp, pty, proc, opts)
        self.pids[pid] = c
        proc.children[pid] = c
        self.children.append(c)
        c.kind = kind
        self.sim.log("spawn", kind, argv)
        return c

    def kill(self, proc, pid, sig):
        """kill(2) from the agent."""
        t = self.pids.get(pid)
        self.kill_log.append((self.sim.now, pid, sig, type(t).__name__))
        if t is None:
            raise err(errno.ESRCH)
        if isinstance(t, Stranger):
            t.signals.append((self.sim.now, sig))
            self.sim.log("stranger_signalled", sig)
            self.sim.probe("stranger_signalled")
            return
        if isinstance(t, Proc):
            if sig == 0:
                return
            t.kill("signal", sig)
            return
        t.signal(sig, "agent")

    def waitpid(self, proc, pid, options):
        sim = self.sim
        while True:
            if pid == -1:
                cand = [proc.children[p] for p in sorted(proc.children)
                        if proc.children[p].state in ("run", "zombie")]
            else:
                c = proc.children.get(pid)
                cand = [c] if c is not None and c.state in ("run", "zombie") else []
            if not cand:
                raise err(errno.ECHILD)
            for c in cand:
                if c.state == "zombie":
                    st = c.status
                    c.reap()
                    proc.children.pop(c.pid, None)
                    sim.log("reap", c.argv0)
                    return c.pid, st
            if options & 1:
                return 0, 0
            proc.wait_tasks.append(sim.cur)
            try:
                sim.park(None, "waitpid")
            finally:
                proc.wait_tasks.remove(sim.cur)

    # ---- net
    def sock_closed(self, end):
        pass

    def make_link(self, ip, **kw):
        link = Link(ip, **kw)
        self.links[ip] = link
        return link

    def pair_link(self):
        """The path inside a socket pair."""
        if self._pair is None:
            self._pair = Link("pair", 1 * US, 20 * US)
        return self._pair

    def set_blackhole(self, link, on):
        if link.blackhole == on:
            return
        link.blackhole = on
        self.sim.log("blackhole", link.name, on)
        if not on:
            # retransmission after the heal
            for e in self.all_conns:
                if e.link is link:
                    e.hold_since = None
                    if e.q and e.pumping is None:
                        e.pumping = self.sim.after(
                            self.sim.logdur("net.rtx", 200 * MS, 3 * SEC), e._pump)

    def connect(self, proc, sock_end, ip, port, timeout):
        """Blocking connect by the current task. Returns or raises OSError."""
        sim = self.sim
        self.connect_log.append((sim.now, ip, port))
        deadline = None if timeout is None else sim.now + timeout
        link = self.links.get(ip)
        if link is None:
            raise err(errno.ENETUNREACH)
        lst = self.listeners.get((ip, port))
        t0 = sim.now
        syn_limit = sim.now + 127 * SEC
        verdict = None
        backoff = 1 * SEC
        while True:
            if not link.blackhole:
                rtt = sim.logdur("net.conn", 2 * link.lo, 2 * link.hi)
                if deadline is not None and sim.now + rtt > deadline:
                    rtt = deadline - sim.now
                sim.park(max(rtt, 1), "connect")
                if deadline is not None and sim.now >= deadline:
                    sim.fault("connect_timeout")
                    return "timeout"
                if not link.blackhole:
                    verdict = lst.decide() if lst is not None else "refuse"
                    if verdict == "accept":
                        break
                    if verdict == "refuse":
                        sim.fault("connect_refused")
                        raise err(errno.ECONNREFUSED)
                    if verdict == "unreach":
                        sim.fault("connect_unreach")
                        raise err(errno.EHOSTUNREACH)
            # SYN lost: retry with backoff
            lim = min(syn_limit, deadline) if deadline is not None else syn_limit
            nxt = min(sim.now + backoff, lim)
            backoff *= 2
            sim.park(nxt - sim.now, "syn")
            if sim.now >= lim:
                if deadline is not None and sim.now >= deadline:
                    sim.fault("connect_timeout")
                    return "timeout"
                sim.fault("connect_etimedout")
                raise err(errno.ETIMEDOUT)
        srv = TcpEnd(self, link, "%s:%d" % (link.name, port))
        sock_end.link = link
        sock_end.name = "dev>%s:%d" % (link.name, port)
        sock_end.peer = srv
        srv.peer = sock_end
        srv.refs = 1
        sock_end.connected = srv.connected = True
        self.all_conns.append(sock_end)
        self.all_conns.append(srv)
        sim.log("connected", sock_end.name)
        lst.accepted(srv)
        return None
