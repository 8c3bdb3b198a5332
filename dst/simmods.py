"""Simulated stdlib modules, one set per incarnation of the agent process."""
import builtins
import errno
import functools
import io as _io
import os as _os
import select as _rselect
import socket as _rsocket
import stat as _stat
import struct as _struct
import sys as _sys
import time as _rtime
import types
import weakref as _weakref
import signal as _rsignal

from . import core
from .core import SEC, MS, US, HarnessGap, SimDead
from .fs import err, mkstat
from .kernel import (Desc, FileDesc, NullDesc, Pipe, PipeEnd, Pty, PtyMaster, TcpEnd, wait_on,
                     POLLIN, POLLOUT, POLLERR, POLLHUP, POLLNVAL)


def newmod(name, /, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__dict__["__sim__"] = True
    return m


REALS = {"os": _os, "time": _rtime, "socket": _rsocket, "select": _rselect, "signal": _rsignal}


def builtin_like(m):
    """Functions of built-in modules do not turn into methods when put into a class."""
    for n, v in list(m.__dict__.items()):
        if type(v) is types.FunctionType:
            m.__dict__[n] = functools.partial(v)
    return m


class GapModule(types.ModuleType):
    """A simulated module: touching what is not modelled, from agent code, is a gap."""

    def __getattr__(self, name):
        if name.startswith("__") or name in self.__dict__.get("__absent__", ()):
            raise AttributeError(name)
        real = REALS.get(self.__name__)
        if real is not None and not hasattr(real, name):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, name))
        f = _sys._getframe(1)
        mod = f.f_globals.get("__name__", "")
        if mod.startswith(("dataplicity", "lomond")) and core.SIM is not None:
            core.SIM.gap("%s.%s (used by %s)" % (self.__name__, name, mod))
        raise AttributeError("module %r has no attribute %r" % (self.__name__, name))


def gapmod(name, /, **kw):
    m = GapModule(name)
    m.__dict__.update(kw)
    m.__dict__["__sim__"] = True
    return m


def own(proc, fd, obj):
    """obj closes fd when it is no longer referenced (for the census of open descriptors)."""
    d = proc.fds.get(fd)
    if d is not None and not isinstance(d, NullDesc):
        d.__dict__.setdefault("owners", []).append(_weakref.ref(obj))


class SimRaw(_io.RawIOBase):
    """Raw file over a simulated descriptor."""

    def __init__(self, mods, fd, name, mode, closefd=True):
        self._m = mods
        self._fd = fd
        self.name = name
        self.mode = mode
        self._closefd = closefd
        own(mods.proc, fd, self)
        self._r = "r" in mode or "+" in mode
        self._w = "w" in mode or "a" in mode or "x" in mode or "+" in mode

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        d = self._m.proc.fds.get(self._fd)
        return isinstance(d, FileDesc)

    def isatty(self):
        return False

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._r:
            raise _io.UnsupportedOperation("not readable")
        data = self._m.os_read(self._fd, len(b))
        n = len(data)
        b[:n] = data
        return n

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._w:
            raise _io.UnsupportedOperation("not writable")
        return self._m.os_write(self._fd, bytes(b))

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._m.os_lseek(self._fd, off, whence)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._m.os_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                _io.RawIOBase.close(self)
            finally:
                if self._closefd:
                    s = core.SIM
                    if s is None or s.cur is None or s.cur.proc is not self._m.proc:
                        return          # late finalizer
                    self._m.os_close(self._fd)

    def __del__(self):
        pass


class DirEntry(object):
    __slots__ = ("_m", "name", "path", "_node", "_kind")

    def __init__(self, m, name, path, node):
        self._m = m
        self.name = name
        self.path = path
        self._node = node
        self._kind = node.kind

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name

    def _target(self, follow):
        if self._kind != "l" or not follow:
            return self._kind
        try:
            return self._m.k.fs.get(self.path, True, self._m.proc.cwd).kind
        except FileNotFoundError:
            return None

    def is_dir(self, follow_symlinks=True):
        self._m.fault("isdir", self.path)
        return self._target(follow_symlinks) == "d"

    def is_file(self, follow_symlinks=True):
        self._m.fault("isfile", self.path)
        return self._target(follow_symlinks) == "f"

    def is_symlink(self):
        return self._kind == "l"

    def inode(self):
        return self._node.ino

    def stat(self, follow_symlinks=True):
        self._m.fault("stat", self.path)
        return mkstat(self._m.k.fs.get(self.path, follow_symlinks, self._m.proc.cwd))


class ScandirIterator(object):
    def __init__(self, m, path, node):
        self._m = m
        base = _os.fspath(path)
        if isinstance(base, bytes):
            base = base.decode("utf-8", "surrogateescape")
        names = list(node.entries)
        order = m.sim.choose("fs.order", 4)
        if order == 1:
            names.reverse()
        elif order == 2:
            names.sort()
        elif order == 3:
            k = m.sim.choose("fs.rot", max(1, len(names)))
            names = names[k:] + names[:k]
        self._items = [(n, node) for n in names]
        self._base = base
        self._i = 0
        self._closed = False

    def __iter__(self):
        return self

    def __next__(self):
        if self._closed:
            raise StopIteration
        self._m.fault("scandir_next", self._base)
        while self._i < len(self._items):
            name, node = self._items[self._i]
            self._i += 1
            n = node.entries.get(name)
            if n is None:
                continue            # removed meanwhile
            path = self._base + name if self._base.endswith("/") else self._base + "/" + name
            return DirEntry(self._m, name, path, n)
        raise StopIteration

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Mods(object):
    """Builds the simulated modules for one process."""

    def __init__(self, k, proc, world):
        self.k = k
        self.sim = k.sim
        self.proc = proc
        self.world = world
        self.loader = None
        self._cache = {}

    def get(self, name):
        m = self._cache.get(name)
        if m is None:
            fn = getattr(self, "mod_" + name.replace(".", "_"), None)
            if fn is None:
                return None
            m = fn()
            if name in ("os", "time", "select", "fcntl", "_thread", "socket", "signal", "pty"):
                builtin_like(m)
            self._cache[name] = m
        return m

    NAMES = ("time", "_thread", "os", "posix", "socket", "_socket", "select", "ssl", "pty", "fcntl",
             "termios", "signal", "_signal", "_posixsubprocess", "io", "_io", "sys", "logging",
             "logging.config", "logging.handlers",
             "urllib", "urllib.request", "_random", "distro", "platform", "pwd", "grp", "gc",
             "atexit", "tty", "faulthandler", "resource", "syslog")

    # ---------------------------------------------------------------- helpers
    def path(self, p):
        if isinstance(p, int):
            return self.proc.desc(p).path
        p = _os.fspath(p)
        return p

    def fault(self, op, path):
        k = self.k
        k.seam("fs." + op, path)
        r = k.fs.check_fault(self.sim, op, path)
        if r is not None:
            k.fs_fault(r, op, path)

    def mut(self, op, path):
        fs = self.k.fs
        try:
            d, name, n = fs.walk(path, False, self.proc.cwd)
        except (OSError, ValueError):
            pass
        self.k.mutated(op, self.abspath(path))

    def abspath(self, p):
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        p = str(p)
        if not p.startswith("/"):
            p = self.proc.cwd.rstrip("/") + "/" + p
        # normalised, links in the directory part resolved
        parts = []
        try:
            d, name, n = self.k.fs.walk(p, False)
        except (OSError, ValueError):
            return _os.path.normpath(p)
        dp = self.inode_path(d)
        if name in (".", "..", "/"):
            return self.inode_path(n) if n is not None else p
        return dp.rstrip("/") + "/" + name

    def inode_path(self, target):
        def rec(n, pre):
            if n is target:
                return pre or "/"
            for name, c in n.entries.items():
                if c.kind == "d":
                    r = rec(c, pre + "/" + name)
                    if r is not None:
                        return r
            return None
        return rec(self.k.fs.root, "") or "?"

    # ---------------------------------------------------------------- os: fds
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        path = self.path(path)
        write = (flags & 3) != 0
        self.fault("open_w" if write else "open_r", path)
        fs = self.k.fs
        cwd = self.proc.cwd
        fs.split(path)
        if path in ("/dev/null", b"/dev/null"):
            return self.proc.newfd(NullDesc(self.k))
        try:
            d, name, n = fs.walk(path, True, cwd)
        except OSError as e:
            e.filename = path
            raise
        if n is None:
            if not flags & _os.O_CREAT:
                # a dangling link, or simply not there
                raise err(errno.ENOENT, path)
            if d.kind != "d":
                raise err(errno.ENOTDIR, path)
            ap = path if isinstance(path, str) else path.decode("utf-8", "surrogateescape")
            if ap.endswith("/"):
                raise err(errno.EISDIR, path)
            # creating through a dangling symlink is resolved by walk(): (dir, name, None)
            n = fs.create(d, name, "f", mode & ~0o022)
            n.mtime = self.k.wall_ns()
            self.mut("create", path)
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise err(errno.EEXIST, path)
            if n.kind == "d" and write:
                raise err(errno.EISDIR, path)
            if flags & getattr(_os, "O_DIRECTORY", 0) and n.kind != "d":
                raise err(errno.ENOTDIR, path)
            if n.kind == "x":
                raise err(errno.EACCES, path)
        if n.kind == "f" and flags & _os.O_TRUNC and write:
            if len(n.data):
                fs.resize(n, 0)
            n.mtime = self.k.wall_ns()
            self.mut("trunc", path)
        acc = flags & 3
        desc = FileDesc(self.k, n, self.abspath(path), acc in (0, 2), acc in (1, 2),
                        bool(flags & _os.O_APPEND))
        return self.proc.newfd(desc)

    def os_read(self, fd, n):
        d = self.proc.desc(fd)
        self.k.seam("read", d.kind)
        d = self.proc.desc(fd)
        if isinstance(d, (FileDesc, NullDesc)):
            return d.read(n)
        if not hasattr(d, "read"):
            raise err(errno.EBADF)
        while True:
            r = d.read(n)
            if r is not None:
                if self.sim.cur is not None:
                    self.sim.cur.spin = 0
                return r
            if d.nonblock:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            wait_on(self.sim, [d], None, "read " + d.kind)

    def os_write(self, fd, data):
        d = self.proc.desc(fd)
        self.k.seam("write", d.kind)
        d = self.proc.desc(fd)
        data = bytes(data)
        if isinstance(d, (FileDesc, NullDesc)):
            return d.write(data)
        if not hasattr(d, "write"):
            raise err(errno.EBADF)
        done = 0
        while True:
            r = d.write(data[done:])
            if r is not None:
                if not isinstance(d, (PipeEnd, PtyMaster)) or d.nonblock:
                    return r
                # blocking pipes and ptys take everything (ptys may return early)
                done += r
                if done >= len(data) or isinstance(d, PtyMaster):
                    return done
                continue
            if d.nonblock:
                if done:
                    return done
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            self.sim.probe("blocked_write_" + d.kind)
            wait_on(self.sim, [d], None, "write " + d.kind)

    def os_close(self, fd):
        if self.sim.cur is not None:
            self.k.seam("close", "")
        self.proc.closefd(fd)

    def os_lseek(self, fd, off, whence):
        d = self.proc.desc(fd)
        if not isinstance(d, FileDesc):
            raise err(errno.ESPIPE)
        self.k.seam("lseek", "")
        if off > (1 << 63) - 1 or off < -(1 << 63):
            raise OverflowError("integer out of range")
        return d.seek(off, whence)

    def os_ftruncate(self, fd, size):
        d = self.proc.desc(fd)
        self.fault("truncate", d.path)
        if not d.writable:
            raise err(errno.EINVAL)
        grow = size - len(d.inode.data)
        if grow > 0 and grow > d.inode.dev.free_bytes:
            raise err(errno.ENOSPC)
        self.k.fs.resize(d.inode, size)
        self.k.mutated("trunc", d.path)

    def os_fstat(self, fd):
        d = self.proc.desc(fd)
        self.k.seam("fstat", "")
        if isinstance(d, FileDesc):
            return mkstat(d.inode)
        return _os.stat_result((_stat.S_IFIFO | 0o600, 1, 1, 1, 0, 0, 0, 0, 0, 0))

    # ---------------------------------------------------------------- open()
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not isinstance(file, int):
            file = self.path(file)
        modes = set(mode)
        if modes - set("axrwb+tU") or len(mode) > len(modes):
            raise ValueError("invalid mode: %r" % mode)
        creating, reading, writing, appending = ("x" in modes, "r" in modes, "w" in modes,
                                                 "a" in modes)
        updating, text, binary = "+" in modes, "t" in modes, "b" in modes
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of read/write/append mode")
        if isinstance(file, int):
            fd = file
            self.proc.desc(fd)
        else:
            fl = _os.O_RDWR if updating else (_os.O_RDONLY if reading else _os.O_WRONLY)
            if creating:
                fl |= _os.O_EXCL | _os.O_CREAT
            elif writing:
                fl |= _os.O_CREAT | _os.O_TRUNC
            elif appending:
                fl |= _os.O_APPEND | _os.O_CREAT
            if opener is not None:
                fd = opener(file, fl)
            else:
                fd = self.os_open(file, fl, 0o666)
            d = self.proc.fds[fd]
            if isinstance(d, FileDesc) and d.inode.kind == "d":
                self.proc.closefd(fd)
                raise err(errno.EISDIR, file)
        rawmode = ("r" if reading else "w" if writing else "a" if appending else "x") + \
            ("+" if updating else "")
        raw = SimRaw(self, fd, file, rawmode, closefd)
        if appending:
            try:
                raw.seek(0, 2)
            except OSError:
                pass
        line = False
        if buffering == 1:
            buffering = -1
            line = True
        if buffering < 0:
            buffering = 8192
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buf = _io.BufferedRandom(raw, buffering)
        elif reading:
            buf = _io.BufferedReader(raw, buffering)
        else:
            buf = _io.BufferedWriter(raw, buffering)
        if binary:
            return buf
        t = _io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
        t.mode = mode
        return t

    # ---------------------------------------------------------------- modules
    def mod_posix(self):
        return self.get("os")

    def mod_os(self):
        m = GapModule("os")
        g = m.__dict__
        g["__sim__"] = True
        fs = self.k.fs
        proc = self.proc
        k = self.k
        cwd = lambda: proc.cwd
        for n in dir(_os):
            v = getattr(_os, n)
            if n.isupper() or n.startswith(("O_", "SEEK_", "EX_", "W")) and n != "walk":
                if isinstance(v, int) or n.startswith(("WIF", "WEXIT", "WTERM", "WSTOP", "WCORE")):
                    g[n] = v
        for n in ("fspath", "fsencode", "fsdecode", "strerror", "PathLike", "stat_result",
                  "statvfs_result", "uname_result", "terminal_size", "error", "linesep", "sep",
                  "altsep", "pathsep", "curdir", "pardir", "extsep", "devnull", "name", "defpath",
                  "waitstatus_to_exitcode", "_exit", "makedev", "major", "minor", "times_result"):
            if hasattr(_os, n):
                g[n] = getattr(_os, n)

        def _exit(code):
            proc.kill("_exit", 0)
        g["_exit"] = _exit

        def abort():
            proc.kill("abort", 6)
        g["abort"] = abort
        g["open"] = self.os_open
        g["read"] = self.os_read
        g["write"] = self.os_write
        g["close"] = self.os_close
        g["lseek"] = self.os_lseek
        g["ftruncate"] = self.os_ftruncate
        g["fstat"] = self.os_fstat

        def closerange(a, b):
            for fd in range(a, b):
                if fd in proc.fds:
                    proc.closefd(fd)
        g["closerange"] = closerange

        def _st(path, follow):
            if isinstance(path, int):
                return self.os_fstat(path)
            path = self.path(path)
            self.fault("stat", path)
            fs.split(path)
            return mkstat(fs.get(path, follow, cwd()))

        def stat(path, *, dir_fd=None, follow_symlinks=True):
            return _st(path, follow_symlinks)

        def lstat(path, *, dir_fd=None):
            return _st(path, False)
        g["stat"] = stat
        g["lstat"] = lstat

        def access(path, mode, **kw):
            try:
                n = fs.get(self.path(path), True, cwd())
            except OSError:
                return False
            if mode & 1 and n.kind == "f" and not n.mode & 0o111:
                return False
            return True
        g["access"] = access

        def unlink(path, *, dir_fd=None):
            path = self.path(path)
            self.fault("unlink", path)
            fs.split(path)
            ap = self.abspath(path)
            fs.unlink(path, cwd())
            k.mutated("unlink", ap)
        g["unlink"] = g["remove"] = unlink

        def mkdir(path, mode=0o777, *, dir_fd=None):
            path = self.path(path)
            self.fault("mkdir", path)
            fs.split(path)
            fs.mkdir(path, mode & ~0o022, cwd())
            self.mut("mkdir", path)
        g["mkdir"] = mkdir

        def rmdir(path, *, dir_fd=None):
            path = self.path(path)
            self.fault("rmdir", path)
            ap = self.abspath(path)
            fs.rmdir(path, cwd())
            k.mutated("rmdir", ap)
        g["rmdir"] = rmdir

        def rename(src, dst, **kw):
            src, dst = self.path(src), self.path(dst)
            fs.split(src)
            fs.split(dst)
            self.fault("rename", dst)
            a, b = self.abspath(src), self.abspath(dst)
            fs.rename(src, dst, cwd())
            k.mutated("rename_from", a)
            k.mutated("rename_to", b)
        g["rename"] = g["replace"] = rename

        def renames(a, b):
            rename(a, b)
        g["renames"] = renames

        def link(src, dst, **kw):
            src, dst = self.path(src), self.path(dst)
            self.fault("link", dst)
            fs.link(src, dst, cwd())
            self.mut("link", dst)
        g["link"] = link

        def symlink(src, dst, target_is_directory=False, **kw):
            self.fault("symlink", self.path(dst))
            fs.symlink(self.path(src), self.path(dst), cwd())
            self.mut("symlink", dst)
        g["symlink"] = symlink

        def readlink(path, **kw):
            path = self.path(path)
            n = fs.get(path, False, cwd())
            if n.kind != "l":
                raise err(errno.EINVAL, path)
            return n.target if isinstance(path, str) else n.target.encode()
        g["readlink"] = readlink

        def listdir(path="."):
            path = self.path(path)
            self.fault("scandir", path)
            fs.split(path)
            n = fs.get(path, True, cwd())
            if n.kind != "d":
                raise err(errno.ENOTDIR, path)
            return [e.name for e in ScandirIterator(self, path, n)]
        g["listdir"] = listdir

        def scandir(path="."):
            path = self.path(path)
            self.fault("scandir", path)
            fs.split(path)
            n = fs.get(path, True, cwd())
            if n.kind != "d":
                raise err(errno.ENOTDIR, path)
            return ScandirIterator(self, path, n)
        g["scandir"] = scandir
        g["DirEntry"] = DirEntry

        def truncate(path, length):
            fd = self.os_open(path, _os.O_WRONLY)
            try:
                self.os_ftruncate(fd, length)
            finally:
                self.os_close(fd)
        g["truncate"] = truncate

        def chmod(path, mode, **kw):
            self.fault("chmod", self.path(path))
            fs.get(self.path(path), True, cwd()).mode = mode & 0o7777
        g["chmod"] = chmod

        def fchmod(fd, mode):
            d = proc.desc(fd)
            if isinstance(d, FileDesc):
                d.inode.mode = mode & 0o7777
        g["fchmod"] = fchmod
        g["chown"] = lambda *a, **kw: None
        g["lchown"] = g["fchown"] = g["chown"]

        def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
            n = fs.get(self.path(path), follow_symlinks, cwd())
            if ns is not None:
                n.mtime = ns[1]
            elif times is not None:
                n.mtime = int(times[1] * 1e9)
            else:
                n.mtime = k.wall_ns()
        g["utime"] = utime

        def fsync(fd):
            d = proc.desc(fd)
            self.fault("fsync", getattr(d, "path", ""))
        g["fsync"] = g["fdatasync"] = fsync
        g["sync"] = lambda: k.seam("sync", "")

        def statvfs(path):
            if isinstance(path, int):
                path = proc.desc(path).path
            path = self.path(path)
            self.fault("statvfs", path)
            n = fs.get(path, True, cwd())
            d = n.dev
            free = d.blocks - d.used_blocks
            if free < 0:
                free = 0
            return _os.statvfs_result((d.bsize * d.iofactor, d.bsize, d.blocks, free,
                                       max(0, free - d.reserved), 1000000, 900000, 900000, 0, 255))
        g["statvfs"] = statvfs

        def pipe():
            k.seam("pipe", "")
            p = Pipe(k)
            r = proc.newfd(p.rd)
            try:
                w = proc.newfd(p.wr)
            except OSError:
                proc.closefd(r)
                raise
            return r, w
        g["pipe"] = pipe
        g["pipe2"] = lambda flags: pipe()

        def dup(fd):
            return proc.newfd(proc.desc(fd))
        g["dup"] = dup

        def dup2(fd, fd2, inheritable=True):
            d = proc.desc(fd)
            if fd2 in proc.fds:
                if fd == fd2:
                    return fd2
                proc.closefd(fd2)
            d.refs += 1
            proc.fds[fd2] = d
            return fd2
        g["dup2"] = dup2

        def pread(fd, n, off):
            d = proc.desc(fd)
            k.seam("read", "pread")
            p = d.pos
            d.seek(off, 0)
            try:
                return d.read(n)
            finally:
                d.pos = p
        g["pread"] = pread

        def pwrite(fd, data, off):
            d = proc.desc(fd)
            k.seam("write", "pwrite")
            p = d.pos
            d.seek(off, 0)
            try:
                return d.write(bytes(data))
            finally:
                d.pos = p
        g["pwrite"] = pwrite

        def sendfile(out_fd, in_fd, offset, count, *a, **kw):
            if offset is None:
                data = self.os_read(in_fd, min(count, 1 << 20))
            else:
                data = pread(in_fd, min(count, 1 << 20), offset)
            return self.os_write(out_fd, data) if data else 0
        g["sendfile"] = sendfile

        def copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
            count = min(count, 1 << 20)
            data = self.os_read(src, count) if offset_src is None else pread(src, count, offset_src)
            if not data:
                return 0
            return self.os_write(dst, data) if offset_dst is None else pwrite(dst, data, offset_dst)
        g["copy_file_range"] = copy_file_range
        def posix_fallocate(fd, offset, length):
            if offset + length > len(proc.desc(fd).inode.data):
                self.os_ftruncate(fd, offset + length)
        g["posix_fallocate"] = posix_fallocate
        g["posix_fadvise"] = lambda *a: None
        g["getlogin"] = lambda: "root"
        g["getgroups"] = lambda: [0]
        g["sched_yield"] = lambda: k.seam("sched_yield", "")
        g["sched_getaffinity"] = lambda pid: {0, 1, 2, 3}
        g["getpriority"] = lambda *a: 0

        def forkpty():
            return self.loader.get("pty").fork()
        g["forkpty"] = forkpty

        def isatty(fd):
            return isinstance(proc.fds.get(fd), PtyMaster)
        g["isatty"] = isatty
        g["set_inheritable"] = lambda fd, v: None
        g["get_inheritable"] = lambda fd: False

        def set_blocking(fd, v):
            proc.desc(fd).nonblock = not v
        g["set_blocking"] = set_blocking
        g["get_blocking"] = lambda fd: not proc.desc(fd).nonblock

        def getpid():
            return proc.pid
        g["getpid"] = getpid
        g["getppid"] = lambda: 1
        g["getpgid"] = lambda pid: pid
        g["getpgrp"] = lambda: proc.pid
        g["getsid"] = lambda pid: pid
        g["setsid"] = lambda: proc.pid
        g["setpgid"] = lambda pid, pgrp: None
        g["setpgrp"] = lambda: None
        g["sysconf"] = lambda name: {"SC_CLK_TCK": 100, "SC_PAGESIZE": 4096, "SC_PAGE_SIZE": 4096,
                                     "SC_OPEN_MAX": 1024, "SC_NPROCESSORS_ONLN": 4,
                                     "SC_NPROCESSORS_CONF": 4, "SC_PHYS_PAGES": 262144,
                                     "SC_ARG_MAX": 2097152}.get(name, -1)
        g["getuid"] = g["geteuid"] = g["getgid"] = g["getegid"] = lambda: 0

        def kill(pid, sig):
            k.seam("kill", "")
            k.kill(proc, pid, int(sig))
        g["kill"] = kill

        def killpg(pgid, sig):
            k.seam("kill", "pg")
            k.kill(proc, pgid, int(sig))
        g["killpg"] = killpg

        def waitpid(pid, options):
            k.seam("waitpid", "")
            return k.waitpid(proc, pid, options)
        g["waitpid"] = waitpid
        g["wait"] = lambda: waitpid(-1, 0)

        def wait4(pid, options):
            p, st = waitpid(pid, options)
            return p, st, None
        g["wait4"] = wait4

        environ = proc.env
        g["environ"] = environ
        g["getenv"] = lambda key, default=None: environ.get(key, default)
        g["putenv"] = lambda a, b: None
        g["unsetenv"] = lambda a: None
        g["environb"] = {}
        g["get_exec_path"] = lambda env=None: ["/usr/bin", "/bin"]
        g["getcwd"] = lambda: proc.cwd
        g["getcwdb"] = lambda: proc.cwd.encode()

        def chdir(path):
            proc.cwd = self.abspath(path)
        g["chdir"] = chdir

        def urandom(n):
            sim = self.sim
            if core.SIM is not sim:
                return b"\0" * n
            return world_random(sim).getrandbits(8 * n).to_bytes(n, "big") if n else b""
        g["urandom"] = urandom
        g["getrandom"] = lambda n, flags=0: urandom(n)

        def uname():
            return _os.uname_result(("Linux", "simdev", "5.10.0", "#1 SMP sim", "armv7l"))
        g["uname"] = uname
        g["cpu_count"] = lambda: 4
        g["getloadavg"] = lambda: (0.1, 0.1, 0.1)
        g["umask"] = lambda m: 0o022
        g["nice"] = lambda n: 0
        g["times"] = lambda: _os.times_result((0, 0, 0, 0, self.k.sim.now / 1e9))

        def get_terminal_size(*a):
            raise err(errno.ENOTTY)
        g["get_terminal_size"] = get_terminal_size
        g["register_at_fork"] = lambda **kw: None
        g["fork"] = self._nofork
        g["supports_bytes_environ"] = True
        g["supports_dir_fd"] = set()
        g["supports_fd"] = set()
        g["supports_follow_symlinks"] = {stat}
        g["supports_effective_ids"] = set()
        # python-level helpers
        path = self.loader.load_copy("posixpath", m, {"os": m})
        g["path"] = path

        def makedirs(name, mode=0o777, exist_ok=False):
            head, tail = path.split(name)
            if not tail:
                head, tail = path.split(head)
            if head and tail and not path.exists(head):
                try:
                    makedirs(head, exist_ok=exist_ok)
                except FileExistsError:
                    pass
                if tail == ".":
                    return
            try:
                mkdir(name, mode)
            except OSError:
                if not exist_ok or not path.isdir(name):
                    raise
        g["makedirs"] = makedirs

        def removedirs(name):
            rmdir(name)
        g["removedirs"] = removedirs

        def walk(top, topdown=True, onerror=None, followlinks=False):
            top = self.path(top)
            dirs, nondirs = [], []
            try:
                it = list(scandir(top))
            except OSError as e:
                if onerror is not None:
                    onerror(e)
                return
            for e in it:
                (dirs if e.is_dir() else nondirs).append(e.name)
            if topdown:
                yield top, dirs, nondirs
            for d in dirs:
                p = path.join(top, d)
                if followlinks or not path.islink(p):
                    for x in walk(p, topdown, onerror, followlinks):
                        yield x
            if not topdown:
                yield top, dirs, nondirs
        g["walk"] = walk

        def fdopen(fd, *a, **kw):
            return self.open(fd, *a, **kw)
        g["fdopen"] = fdopen

        class wrap_close(object):
            def __init__(self, stream, p):
                self._stream = stream
                self._proc = p

            def close(self):
                self._stream.close()
                rc = self._proc.wait()
                if rc == 0:
                    return None
                return rc << 8 if rc > 0 else rc

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __getattr__(self, n):
                return getattr(self._stream, n)

            def __iter__(self):
                return iter(self._stream)

        def popen(cmd, mode="r", buffering=-1):
            sp = self.loader.get("subprocess")
            if mode == "r":
                p = sp.Popen(cmd, shell=True, stdout=sp.PIPE, bufsize=buffering)
                f = p.stdout
            else:
                p = sp.Popen(cmd, shell=True, stdin=sp.PIPE, bufsize=buffering)
                f = p.stdin
            return wrap_close(_io.TextIOWrapper(f), p)
        g["popen"] = popen

        def system(cmd):
            rc = self.loader.get("subprocess").Popen(cmd, shell=True).wait()
            return -rc if rc < 0 else rc << 8
        g["system"] = system
        return m

    def _nofork(self, *a):
        raise HarnessGap("os.fork")

    # ---------------------------------------------------------------- time
    def mod_time(self):
        k = self.k
        sim = self.sim

        def wall():
            sim.tick()
            return k.wall_ns()

        def time():
            return wall() / 1e9

        def monotonic():
            sim.tick()
            return sim.now / 1e9

        def sleep(s):
            k.seam("sleep", "")
            if s < 0:
                raise ValueError("sleep length must be non-negative")
            d = int(s * SEC)
            over = sim.choose("sleep.over", 8)
            sim.park(d + 1 * US + over * 150 * US, "sleep")

        def _t(s):
            return time() if s is None else s
        m = gapmod("time", time=time, monotonic=monotonic, sleep=sleep, perf_counter=monotonic,
                   time_ns=wall, get_clock_info=_rtime.get_clock_info, monotonic_ns=lambda: int(sim.now), perf_counter_ns=lambda: int(sim.now),
                   process_time=lambda: 0.5, thread_time=lambda: 0.5,
                   gmtime=lambda s=None: _rtime.gmtime(_t(s)),
                   localtime=lambda s=None: _rtime.gmtime(_t(s)),
                   strftime=lambda f, t=None: _rtime.strftime(f, _rtime.gmtime(time()) if t is None else t),
                   ctime=lambda s=None: _rtime.asctime(_rtime.gmtime(_t(s))),
                   asctime=lambda t=None: _rtime.asctime(_rtime.gmtime(time()) if t is None else t),
                   mktime=_rtime.mktime, strptime=_rtime.strptime, struct_time=_rtime.struct_time,
                   timezone=0, altzone=0, daylight=0, tzname=("UTC", "UTC"), CLOCK_MONOTONIC=1,
                   CLOCK_REALTIME=0)

        def clock_gettime(c):
            return time() if c == 0 else monotonic()
        m.clock_gettime = clock_gettime
        return m

    # ---------------------------------------------------------------- _thread
    def mod__thread(self):
        k = self.k
        sim = self.sim
        proc = self.proc
        sentinels = {}

        class lock(object):
            __slots__ = ("_l", "_w", "__weakref__")

            def __init__(self):
                self._l = False
                self._w = []

            def acquire(self, blocking=True, timeout=-1):
                s = core.SIM
                if s is not sim or s.cur is None:
                    # outside of a task: harness or a late finalizer
                    if s is sim and s is not None:
                        if self._l:
                            return False
                        self._l = True
                        return True
                    raise SimDead("lock")
                k.seam("lock", "")
                if not self._l:
                    self._l = True
                    return True
                if not blocking:
                    return False
                deadline = None
                if timeout is not None and timeout >= 0:
                    deadline = sim.now + int(timeout * SEC)
                t = sim.cur
                while True:
                    left = None
                    if deadline is not None:
                        left = deadline - sim.now
                        if left <= 0:
                            return False
                    self._w.append(t)
                    got = sim.park(left, "lock")
                    if t in self._w:
                        self._w.remove(t)
                    if not self._l:
                        self._l = True
                        return True
                    if got is None and deadline is not None:
                        return False

            __enter__ = acquire

            def acquire_lock(self, *a, **kw):
                return self.acquire(*a, **kw)

            def release(self):
                if not self._l:
                    raise RuntimeError("release unlocked lock")
                self._l = False
                if self._w:
                    w = self._w
                    i = sim.choose("lock.wake", len(w)) if len(w) > 1 and sim.strategy["kind"] != "rtb" else 0
                    sim.wake(w.pop(i))
                s = core.SIM
                if s is sim and s.cur is not None:
                    sim.pause_point()

            release_lock = release

            def __exit__(self, *a):
                self.release()

            def locked(self):
                if core.SIM is sim and sim.cur is not None:
                    sim.pause_point()
                return self._l

            locked_lock = locked

            def _at_fork_reinit(self):
                self._l = False
                self._w = []

        class RLock(object):
            def __init__(self):
                self._b = lock()
                self._o = None
                self._c = 0

            def acquire(self, blocking=True, timeout=-1):
                s = core.SIM
                me = s.cur if s is sim and s is not None else None
                if me is None:
                    me = "hub"
                if self._o is me:
                    self._c += 1
                    return True
                rc = self._b.acquire(blocking, timeout)
                if rc:
                    self._o = me
                    self._c = 1
                return rc

            __enter__ = acquire

            def release(self):
                s = core.SIM
                me = s.cur if s is sim and s is not None else None
                if me is None:
                    me = "hub"
                if self._o is not me:
                    raise RuntimeError("cannot release un-acquired lock")
                self._c -= 1
                if not self._c:
                    self._o = None
                    self._b.release()

            def __exit__(self, *a):
                self.release()

            def _is_owned(self):
                return self._o is (sim.cur or "hub")

            def _release_save(self):
                if self._c == 0:
                    raise RuntimeError("cannot release un-acquired lock")
                c, self._c = self._c, 0
                o, self._o = self._o, None
                self._b.release()
                return (c, o)

            def _acquire_restore(self, st):
                self._b.acquire()
                self._c, self._o = st

            def _at_fork_reinit(self):
                self._b._at_fork_reinit()
                self._o = None
                self._c = 0

        def get_ident():
            s = core.SIM
            if s is None or s.cur is None:
                return 1
            return s.cur.ident

        def start_new_thread(fn, args, kwargs=None):
            k.seam("thread_start", "")
            if k.thread_fail is not None and k.thread_fail():
                sim.fault("thread_start_fails")
                raise RuntimeError("can't start new thread")

            def run():
                t = sim.cur
                try:
                    fn(*args, **(kwargs or {}))
                except SystemExit:
                    pass
                finally:
                    if core.SIM is sim:
                        s = sentinels.pop(t.ident, None)
                        if s is not None and s._l:
                            s.release()
            name = "thread"
            self_ = getattr(fn, "__self__", None)
            if self_ is not None:
                name = type(self_).__name__
                tgt = self_.__dict__.get("_target")
                if tgt is not None:
                    name += ":" + getattr(tgt, "__qualname__", getattr(tgt, "__name__", "?"))
            t = proc.spawn(run, name)
            return t.ident

        def _set_sentinel():
            l = lock()
            sentinels[get_ident()] = l
            return l

        def interrupt_main():
            raise HarnessGap("interrupt_main")

        class _ExceptHookArgs(object):
            def __init__(self, a):
                self.exc_type, self.exc_value, self.exc_traceback, self.thread = a

        def _excepthook(args):
            et, ev = args.exc_type, args.exc_value
            if et is SystemExit:
                return
            if issubclass(et, (SimDead,)):
                raise ev
            if issubclass(et, HarnessGap):
                sim.gap(str(ev))
            sim.probe("thread_exception")
            name = args.thread.name if args.thread is not None else "?"
            proc.uncaught.append((type(args.thread).__name__, et.__name__, str(ev)))
            sim.note("uncaught in thread %s: %s: %s" % (name, et.__name__, ev))
            if sim.verbose:
                import traceback
                sim.note("".join(traceback.format_exception(et, ev, args.exc_traceback)))

        def exit():
            raise SystemExit
        m = newmod("_thread", allocate_lock=lock, allocate=lock, LockType=lock, lock=lock,
                   RLock=RLock, get_ident=get_ident, get_native_id=get_ident,
                   start_new_thread=start_new_thread, start_new=start_new_thread,
                   _set_sentinel=_set_sentinel, TIMEOUT_MAX=4294967.0, error=RuntimeError,
                   stack_size=lambda n=0: 0, _count=lambda: len(proc.tasks), exit=exit,
                   exit_thread=exit, _excepthook=_excepthook, _ExceptHookArgs=_ExceptHookArgs,
                   interrupt_main=interrupt_main)
        return m

    # ---------------------------------------------------------------- socket
    def mod__socket(self):
        return self.get("socket")

    def mod_socket(self):
        k = self.k
        sim = self.sim
        proc = self.proc
        world = self.world
        m = GapModule("socket")
        g = m.__dict__
        g["__sim__"] = True
        for n in dir(_rsocket):
            v = getattr(_rsocket, n)
            if isinstance(v, int) and n.isupper() or n.startswith(("AF_", "SOCK_", "SO_", "IPPROTO_",
                                                                   "TCP_", "SHUT_", "SOL_", "MSG_",
                                                                   "AI_", "EAI_", "INADDR")):
                g[n] = v
        for n in ("inet_ntoa", "inet_aton", "inet_ntop", "inet_pton", "htons", "ntohs", "htonl",
                  "ntohl", "error", "herror", "gaierror", "timeout", "has_ipv6"):
            g[n] = getattr(_rsocket, n)
        default_timeout = [None]

        def setdefaulttimeout(t):
            default_timeout[0] = t
        g["setdefaulttimeout"] = setdefaulttimeout
        g["getdefaulttimeout"] = lambda: default_timeout[0]
        g["gethostname"] = lambda: "simdev"
        g["getfqdn"] = lambda n="": "simdev"
        g["_GLOBAL_DEFAULT_TIMEOUT"] = object()

        def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
            k.seam("dns", "")
            if isinstance(host, bytes):
                host = host.decode()
            k.lookup_log.append((sim.now, host))
            ip = k.dns.get(host, None)
            if callable(ip):
                ip = ip()
            if ip is None and host and all(c.isdigit() or c == "." for c in host):
                ip = host
            if ip is None:
                sim.park(sim.logdur("net.dns", 1 * MS, 200 * MS), "dns")
                sim.fault("dns_failure")
                raise _rsocket.gaierror(-2, "Name or service not known")
            sim.park(sim.logdur("net.dns", 1 * MS, 200 * MS), "dns")
            return [(_rsocket.AF_INET, _rsocket.SOCK_STREAM, 6, "", (ip, int(port)))]
        g["getaddrinfo"] = getaddrinfo
        g["gethostbyname"] = lambda h: getaddrinfo(h, 0)[0][4][0]

        class Sock(object):
            def __init__(self, family=-1, type=-1, proto_=-1, fileno=None, **kw):
                k.seam("socket", "")
                self.family = _rsocket.AF_INET if family == -1 else family
                self.type = _rsocket.SOCK_STREAM if type == -1 else type
                self.proto = 0 if proto_ == -1 else proto_
                if fileno is not None:
                    self._fd = fileno
                    self._d = proc.desc(fileno)
                else:
                    self._d = TcpEnd(k, None, "socket")
                    self._fd = proc.newfd(self._d)
                own(proc, self._fd, self)
                self._to = default_timeout[0]
                self._closed = False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if not self._closed:
                    self.close()

            def __del__(self):
                pass

            def _chk(self):
                if self._closed:
                    raise err(errno.EBADF)
                return self._d

            def fileno(self):
                return -1 if self._closed else self._fd

            def settimeout(self, t):
                if t is not None and t < 0:
                    raise ValueError("Timeout value out of range")
                self._to = t
                self._d.nonblock = t == 0

            def gettimeout(self):
                return self._to

            timeout = property(gettimeout)

            def setblocking(self, v):
                self.settimeout(None if v else 0.0)

            def getblocking(self):
                return self._to != 0

            def setsockopt(self, *a):
                self._chk()

            def getsockopt(self, level, opt, *a):
                d = self._chk()
                if opt == _rsocket.SO_ERROR:
                    e, d.so_error = d.so_error, 0
                    return e
                return 0

            def getpeername(self):
                d = self._chk()
                if not d.connected:
                    raise err(errno.ENOTCONN)
                return (d.link.name, 1)

            def getsockname(self):
                return ("127.0.0.1", 40000 + self._fd)

            def connect(self, addr):
                k.seam("connect", "")
                d = self._chk()
                if d.connected:
                    raise err(errno.EISCONN)
                host, port = addr[0], addr[1]
                if not isinstance(port, int):
                    raise TypeError("an integer is required")
                if not 0 <= port <= 65535:
                    raise OverflowError("connect(): port must be 0-65535.")
                ip = k.dns.get(host, host)
                if callable(ip):
                    ip = ip()
                    if ip is None:
                        raise _rsocket.gaierror(-2, "Name or service not known")
                if not all(c.isdigit() or c == "." for c in ip):
                    raise _rsocket.gaierror(-2, "Name or service not known")
                if self._to == 0:
                    if d.connecting:
                        raise err(errno.EALREADY)
                    if d.so_error:
                        e, d.so_error = d.so_error, 0
                        raise err(e)
                    d.connecting = True

                    def connecting():
                        try:
                            k.connect(proc, d, ip, port, None)
                        except OSError as e:
                            d.so_error = e.errno
                        d.connecting = False
                        d.notify()
                    proc.spawn(connecting, "k:connect")
                    raise BlockingIOError(errno.EINPROGRESS, "Operation now in progress")
                to = None if self._to is None else int(self._to * SEC)
                r = k.connect(proc, d, ip, port, to)
                if r == "timeout":
                    raise _rsocket.timeout("timed out")

            def connect_ex(self, addr):
                try:
                    self.connect(addr)
                except _rsocket.timeout:
                    return errno.EAGAIN
                except OSError as e:
                    return e.errno
                return 0

            def _io(self, fn, why, deadline=None):
                d = self._chk()
                if deadline is None and self._to is not None:
                    deadline = sim.now + int(self._to * SEC)
                while True:
                    r = fn()
                    if r is not None:
                        sim.cur.spin = 0
                        return r
                    if self._to == 0:
                        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                    left = None
                    if deadline is not None:
                        left = deadline - sim.now
                        if left <= 0:
                            sim.probe("sock_timeout_" + why)
                            raise _rsocket.timeout("timed out")
                    wait_on(sim, [d], left, why + " tcp")

            def recv(self, n, flags=0):
                k.seam("recv", "")
                d = self._chk()
                if n < 0:
                    raise ValueError("negative buffersize in recv")
                if flags & _rsocket.MSG_PEEK:
                    r = self._io(lambda: bytes(d.rbuf[:n]) if d.rbuf else d.read(n), "recv")
                    return r
                short = n
                if d.rbuf and n > 1 and sim.chance("net.rshort", 0.02):
                    short = 1 + sim.choose("net.rshortn", min(n, len(d.rbuf)))
                return self._io(lambda: d.read(short), "recv")

            def recv_into(self, buf, n=0, flags=0):
                mv = memoryview(buf)
                n = n or len(mv)
                data = self.recv(min(n, len(mv)))
                mv[:len(data)] = data
                return len(data)

            def recvfrom(self, n, flags=0):
                return self.recv(n, flags), None

            def send(self, data, flags=0):
                k.seam("send", "")
                d = self._chk()
                data = bytes(data)
                if not data:
                    return 0
                return self._io(lambda: d.write(data), "send")

            def sendall(self, data, flags=0):
                k.seam("send", "")
                d = self._chk()
                data = memoryview(bytes(data))
                deadline = None
                if self._to is not None:
                    deadline = sim.now + int(self._to * SEC)
                pos = 0
                while pos < len(data):
                    pos += self._io(lambda: d.write(data[pos:]), "send", deadline)

            def shutdown(self, how):
                k.seam("shutdown", "")
                d = self._chk()
                if not d.connected or d.rst:
                    raise err(errno.ENOTCONN)
                if d.fin and d.fin_sent and not d.q and d.peer.app_closed:
                    raise err(errno.ENOTCONN)
                if how in (_rsocket.SHUT_RD, _rsocket.SHUT_RDWR):
                    d.rd_shut = True
                if how in (_rsocket.SHUT_WR, _rsocket.SHUT_RDWR):
                    d.shut_write()
                d.notify()

            def close(self):
                if not self._closed:
                    self._closed = True
                    s = core.SIM
                    if s is None or s.cur is None or s.cur.proc is not proc:
                        return
                    k.seam("close", "sock")
                    if proc.fds.get(self._fd) is self._d:
                        proc.closefd(self._fd)

            def detach(self):
                self._closed = True
                return self._fd

            def dup(self):
                s = Sock(self.family, self.type, self.proto, proc.newfd(self._d))
                s._to = self._to
                return s

            _io_refs = 0

            def _decref_socketios(self):
                self._io_refs -= 1

            def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None,
                         newline=None):
                w = "w" in mode
                r = "r" in mode or not w
                raw = _rsocket.SocketIO(self, ("r" if r else "") + ("w" if w else ""))
                self._io_refs += 1
                if buffering is None or buffering < 0:
                    buffering = 8192
                if buffering == 0:
                    return raw
                buf = _io.BufferedRWPair(raw, raw, buffering) if r and w else \
                    _io.BufferedReader(raw, buffering) if r else _io.BufferedWriter(raw, buffering)
                if "b" in mode:
                    return buf
                return _io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

            def get_inheritable(self):
                return False

            def set_inheritable(self, v):
                pass

            def bind(self, *a):
                raise HarnessGap("socket.bind")
            listen = accept = bind

        Sock.__name__ = "socket"
        g["socket"] = g["SocketType"] = Sock

        def create_connection(address, timeout=g["_GLOBAL_DEFAULT_TIMEOUT"], source_address=None):
            s = Sock()
            try:
                if timeout is not g["_GLOBAL_DEFAULT_TIMEOUT"]:
                    s.settimeout(timeout)
                s.connect(address)
                return s
            except BaseException:
                s.close()
                raise
        g["create_connection"] = create_connection
        g["SocketIO"] = _rsocket.SocketIO
        g["SocketKind"] = _rsocket.SocketKind
        g["AddressFamily"] = _rsocket.AddressFamily

        def socketpair(family=None, type=_rsocket.SOCK_STREAM, proto=0):
            k.seam("socketpair", "")
            a, b = Sock(_rsocket.AF_UNIX), Sock(_rsocket.AF_UNIX)
            for x, y in ((a._d, b._d), (b._d, a._d)):
                x.link = k.pair_link()
                x.name = "pair"
                x.peer = y
                x.connected = True
            return a, b
        g["socketpair"] = socketpair
        return m

    # ---------------------------------------------------------------- select
    def mod_select(self):
        k = self.k
        sim = self.sim
        proc = self.proc

        def ready(reg):
            out = []
            descs = []
            for fd, ev in reg.items():
                d = proc.fds.get(fd)
                if d is None:
                    out.append((fd, POLLNVAL))
                    continue
                mk = d.poll_mask() & (ev | POLLERR | POLLHUP)
                if mk:
                    out.append((fd, mk))
                descs.append(d)
            return out, descs

        def dopoll(reg, timeout):
            """timeout in ns or None."""
            k.seam("poll", "")
            t = sim.cur
            deadline = None if timeout is None else sim.now + timeout
            first = True
            while True:
                out, descs = ready(reg)
                if out:
                    if first:
                        # busy loops make no progress: slow them down
                        t.spin += 1
                        if t.spin > 300:
                            if t.spin == 301:
                                sim.probe("spin")
                                sim.log("spin", t.name)
                            sim.park(50 * MS if t.spin < 1000 else 1 * SEC, "spin")
                    return out
                first = False
                left = None
                if deadline is not None:
                    left = deadline - sim.now
                    if left <= 0:
                        return []
                if not wait_on(sim, descs, left, "poll") and left is not None:
                    if sim.now >= deadline:
                        out, descs = ready(reg)
                        return out

        class poll(object):
            def __init__(self):
                self._r = {}

            def register(self, fd, events=POLLIN | _rselect.POLLPRI | POLLOUT):
                if not isinstance(fd, int):
                    fd = fd.fileno()
                if fd < 0:
                    raise ValueError("file descriptor cannot be a negative integer (%d)" % fd)
                self._r[fd] = events

            def modify(self, fd, events):
                if not isinstance(fd, int):
                    fd = fd.fileno()
                if fd not in self._r:
                    raise err(errno.ENOENT)
                self._r[fd] = events

            def unregister(self, fd):
                if not isinstance(fd, int):
                    fd = fd.fileno()
                del self._r[fd]

            def poll(self, timeout=None):
                if timeout is None or timeout < 0:
                    ns = None
                else:
                    ns = int(timeout * MS)
                return dopoll(self._r, ns)

        def select(r, w, x, timeout=None):
            reg = {}
            fdno = lambda f: f if isinstance(f, int) else f.fileno()
            for f in r:
                reg[fdno(f)] = POLLIN
            for f in w:
                reg[fdno(f)] = reg.get(fdno(f), 0) | POLLOUT
            for fd in reg:
                if fd not in proc.fds:
                    raise err(errno.EBADF)
            got = dict(dopoll(reg, None if timeout is None else int(timeout * SEC)))
            return ([f for f in r if got.get(fdno(f), 0) & (POLLIN | POLLHUP | POLLERR)],
                    [f for f in w if got.get(fdno(f), 0) & (POLLOUT | POLLERR)], [])

        m = GapModule("select")
        class epoll(poll):
            def __init__(self, sizehint=-1, flags=0):
                poll.__init__(self)
                self.closed = False

            def register(self, fd, eventmask=_rselect.EPOLLIN | _rselect.EPOLLPRI |
                         _rselect.EPOLLOUT):
                if not isinstance(fd, int):
                    fd = fd.fileno()
                if fd in self._r:
                    raise err(errno.EEXIST)
                if fd not in proc.fds:
                    raise err(errno.EBADF)
                poll.register(self, fd, eventmask & 0xffff)

            def unregister(self, fd):
                if not isinstance(fd, int):
                    fd = fd.fileno()
                if fd not in self._r:
                    raise err(errno.ENOENT)
                del self._r[fd]

            def poll(self, timeout=None, maxevents=-1):
                if self.closed:
                    raise ValueError("I/O operation on closed epoll object")
                for fd in [f for f in self._r if f not in proc.fds]:
                    del self._r[fd]
                ns = None if timeout is None or timeout < 0 else int(timeout * SEC)
                out = dopoll(self._r, ns)
                return out[:maxevents] if maxevents > 0 else out

            def close(self):
                self.closed = True

            def fileno(self):
                return 1023

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        m.__dict__["__absent__"] = ("kqueue", "kevent", "devpoll")
        m.__dict__["__sim__"] = True
        for n in dir(_rselect):
            if n.startswith(("POLL", "EPOLL")):
                m.__dict__[n] = getattr(_rselect, n)
        m.__dict__.update(poll=poll, epoll=epoll, select=select, error=OSError, PIPE_BUF=4096)
        return m

    # ---------------------------------------------------------------- misc
    def mod_ssl(self):
        world = self.world

        class SSLContext(object):
            def __init__(self, *a):
                self.check_hostname = False
                self.verify_mode = 0

            def wrap_socket(self, sock, *a, **kw):
                world.on_tls(kw.get("server_hostname"))
                return sock

            def load_default_certs(self, *a):
                pass

            def __setattr__(self, n, v):
                object.__setattr__(self, n, v)

        class SSLError(OSError):
            pass
        return gapmod("ssl", SSLContext=SSLContext, HAS_SNI=True, PROTOCOL_TLS=2, PROTOCOL_SSLv23=2,
                      PROTOCOL_TLS_CLIENT=16, CERT_NONE=0, CERT_REQUIRED=2, SSLError=SSLError,
                      create_default_context=lambda *a, **kw: SSLContext())

    def mod_fcntl(self):
        import fcntl as rf
        proc = self.proc
        world = self.world
        k = self.k

        def ioctl(fd, req, arg=0, mutate=True):
            k.seam("ioctl", "")
            if not isinstance(fd, int):
                fd = fd.fileno()
            d = proc.desc(fd)
            import termios as rt
            if req == rt.TIOCSWINSZ and isinstance(d, PtyMaster):
                rows, cols, _a, _b = _struct.unpack("hhhh", bytes(arg)[:8])
                d.pty.sizes.append((rows, cols))
                self.sim.log("winsize", rows, cols)
                return 0 if not isinstance(arg, bytes) else arg
            if req == rt.TIOCGWINSZ and isinstance(d, PtyMaster):
                r, c = d.pty.sizes[-1] if d.pty.sizes else (24, 80)
                return _struct.pack("hhhh", r, c, 0, 0)
            if req == 0x8912:
                size, ptr = _struct.unpack("iL", arg)
                out = b""
                for name, ip in world.interfaces():
                    ent = name.encode().ljust(16, b"\0")[:16] + _struct.pack("HH", 2, 0) + \
                        _rsocket.inet_aton(ip)
                    out += ent.ljust(40, b"\0")
                import ctypes
                ctypes.memmove(ptr, out, min(len(out), size))
                return _struct.pack("iL", len(out), ptr)
            raise err(errno.ENOTTY)

        def fcntl(fd, cmd, arg=0):
            k.seam("fcntl", "")
            if not isinstance(fd, int):
                fd = fd.fileno()
            d = proc.desc(fd)
            if cmd == rf.F_SETFL:
                d.nonblock = bool(arg & _os.O_NONBLOCK)
                return 0
            if cmd == rf.F_GETFL:
                return _os.O_NONBLOCK if d.nonblock else 0
            return 0
        def flock(fd, op):
            k.seam("flock", "")
            if not isinstance(fd, int):
                fd = fd.fileno()
            d = proc.desc(fd)
            locks = d.inode.__dict__.setdefault("flocks", {}) if hasattr(d, "inode") and \
                hasattr(d.inode, "__dict__") else k.__dict__.setdefault("flocks", {}).setdefault(
                    getattr(getattr(d, "inode", None), "ino", 0), {})
            if op & rf.LOCK_UN:
                locks.pop(d, None)
                return
            ex = bool(op & rf.LOCK_EX)
            while True:
                busy = [o for o, e in locks.items() if o is not d and o.refs > 0 and (e or ex)]
                if not busy:
                    locks[d] = ex
                    return
                if op & rf.LOCK_NB:
                    raise BlockingIOError(errno.EWOULDBLOCK, "Resource temporarily unavailable")
                k.sim.park(20 * MS, "flock")
        m = GapModule("fcntl")
        m.__dict__["__sim__"] = True
        for n in dir(rf):
            if n.isupper():
                m.__dict__[n] = getattr(rf, n)
        m.__dict__.update(ioctl=ioctl, fcntl=fcntl, flock=flock,
                          lockf=lambda fd, cmd, *a: k.seam("lockf", ""))
        return m

    def mod_termios(self):
        import termios as rt
        m = GapModule("termios")
        m.__dict__["__sim__"] = True
        for n in dir(rt):
            if n.isupper():
                m.__dict__[n] = getattr(rt, n)
        m.__dict__["error"] = rt.error
        return m

    def mod_tty(self):
        return gapmod("tty")

    def mod_pty(self):
        k = self.k
        proc = self.proc
        sim = self.sim

        def fork():
            k.seam("fork", "")
            p = Pty(k, self.world.pty_ibuf, self.world.pty_obuf)
            d = p.master
            d.refs = 0
            fd = proc.newfd(d)
            try:
                c = k.spawn_child(proc, "pty", ["bash", "-i"], pty=p, info=self.world.fork_info())
            except OSError:
                proc.closefd(fd)
                raise
            self.world.pty_started(p, c)
            # fork takes a while, the child may be done before we return
            sim.park(sim.logdur("proc.fork", 100 * US, 60 * MS), "fork")
            return c.pid, fd
        return gapmod("pty", fork=fork, CHILD=0, STDIN_FILENO=0, STDOUT_FILENO=1, STDERR_FILENO=2)

    def mod__signal(self):
        return self.get("signal")

    def mod_signal(self):
        m = GapModule("signal")
        m.__dict__["__sim__"] = True
        for n in dir(_rsignal):
            if n.startswith(("SIG", "ITIMER")):
                m.__dict__[n] = getattr(_rsignal, n)
        for n in ("Signals", "Handlers", "strsignal"):
            if hasattr(_rsignal, n):
                m.__dict__[n] = getattr(_rsignal, n)
        m.__dict__.update(signal=lambda s, h: None, getsignal=lambda s: None,
                          default_int_handler=None, set_wakeup_fd=lambda *a, **k: -1,
                          siginterrupt=lambda *a: None)

        def pthread_kill(*a):
            raise HarnessGap("pthread_kill")
        m.__dict__["pthread_kill"] = pthread_kill
        return m

    def mod__posixsubprocess(self):
        k = self.k
        proc = self.proc
        sim = self.sim

        def fork_exec(args, executable_list, close_fds, fds_to_keep, cwd, env_list,
                      p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite,
                      errpipe_read, errpipe_write, restore_signals, start_new_session,
                      gid=None, groups=None, uid=None, umask=-1, preexec_fn=None, *rest):
            k.seam("fork_exec", "")
            argv = [_os.fsdecode(a) for a in args]
            info = {"start_new_session": bool(start_new_session)}

            def take(fd):
                if fd == -1:
                    return None
                d = proc.desc(fd)
                d.refs += 1
                return d
            try:
                sim.park(sim.logdur("proc.fork", 100 * US, 60 * MS), "fork")
                out = take(c2pwrite)
                errd = take(errwrite)
                inp = take(p2cread)
                try:
                    c = k.spawn_child(proc, "popen", argv, out, errd, inp, info=info)
                except OSError:
                    for d in (out, errd, inp):
                        if d is not None:
                            d.unref()
                    raise
                except ExecFails as e:
                    # fork worked, exec did not: report through the error pipe
                    for d in (out, errd, inp):
                        if d is not None:
                            d.unref()
                    pid = k.new_pid()
                    from .kernel import Child
                    c = Child(k, pid, argv, [("exit", 255)], parent=proc)
                    k.pids[pid] = c
                    proc.children[pid] = c
                    k.children.append(c)
                    c.kind = "failed"
                    d = proc.desc(errpipe_write)
                    d.write(b"OSError:%x:" % e.errno)
                    return pid
                return c.pid
            finally:
                pass
        return newmod("_posixsubprocess", fork_exec=fork_exec,
                      cloexec_pipe=lambda: self.get("os").pipe())

    def mod__io(self):
        return self.get("io")

    def mod_io(self):
        m = types.ModuleType("io")
        for n in dir(_io):
            if not n.startswith("__"):
                m.__dict__[n] = getattr(_io, n)
        m.__dict__["open"] = self.open
        m.__dict__["open_code"] = lambda p: self.open(p, "rb")

        def FileIO(file, mode="r", closefd=True, opener=None):
            return self.open(file, mode.replace("b", "") + "b", 0, closefd=closefd, opener=opener)
        m.__dict__["FileIO"] = FileIO
        m.__dict__["__sim__"] = True
        return m

    def mod_sys(self):
        m = types.ModuleType("sys")
        for n in dir(_sys):
            if not n.startswith("__"):
                m.__dict__[n] = getattr(_sys, n)

        class Sink(object):
            encoding = "utf-8"

            def write(self, s):
                return len(s)

            def flush(self):
                pass

            def isatty(self):
                return False

            def fileno(self):
                return 1

            @property
            def buffer(self):
                return self
        m.__dict__.update(stdout=Sink(), stderr=Sink(), stdin=Sink(), argv=["dataplicity", "run"],
                          executable="/usr/bin/python3", modules=self.loader.modules,
                          meta_path=list(_sys.meta_path), version="3.9.18 (sim)", __sim__=True)

        def exit(code=None):
            raise SystemExit(code)
        m.__dict__["exit"] = exit
        return m

    def mod_logging(self):
        sim = self.sim
        proc = self.proc
        levels = dict(CRITICAL=50, FATAL=50, ERROR=40, WARNING=30, WARN=30, INFO=20, DEBUG=10,
                      NOTSET=0)

        class Logger(object):
            def __init__(self, name):
                self.name = name
                self.level = 0
                self.handlers = []
                self.filters = []
                self.disabled = False
                self.propagate = True
                self.parent = None

            def _emit(self, lvl, msg, args, exc_info):
                s = core.SIM
                if s is not sim:
                    return
                sim.probe("log_" + lvl)
                if not (lvl in ("error", "exception", "warning", "critical") or sim.verbose):
                    return
                from .core import _yc
                save = _yc.n
                sim.noyield += 1
                _yc.n = core.HUGE
                try:
                    try:
                        if len(args) == 1 and isinstance(args[0], dict) and args[0]:
                            text = msg % args[0]
                        else:
                            text = (msg % args) if args else str(msg)
                    except Exception as e:
                        text = "%r (%r)" % (msg, e)
                    if sim.verbose:
                        sim.note("log %s %s: %s" % (self.name, lvl, text))
                        if exc_info or lvl == "exception":
                            import traceback
                            sim.note(traceback.format_exc())
                    if lvl == "exception" and _sys.exc_info()[0] is not None and \
                            issubclass(_sys.exc_info()[0], HarnessGap):
                        sim.gap(str(_sys.exc_info()[1]))
                finally:
                    sim.noyield -= 1
                    _yc.n = save

            def debug(self, msg, *args, **kw):
                self._emit("debug", msg, args, kw.get("exc_info"))

            def info(self, msg, *args, **kw):
                self._emit("info", msg, args, kw.get("exc_info"))

            def warning(self, msg, *args, **kw):
                self._emit("warning", msg, args, kw.get("exc_info"))
            warn = warning

            def error(self, msg, *args, **kw):
                self._emit("error", msg, args, kw.get("exc_info"))

            def critical(self, msg, *args, **kw):
                self._emit("critical", msg, args, kw.get("exc_info"))
            fatal = critical

            def exception(self, msg, *args, **kw):
                self._emit("exception", msg, args, True)

            def log(self, level, msg, *args, **kw):
                self._emit("debug" if level < 30 else "warning", msg, args, kw.get("exc_info"))

            def isEnabledFor(self, level):
                return level >= 20

            def getEffectiveLevel(self):
                return 20

            def setLevel(self, level):
                self.level = level

            def addHandler(self, h):
                self.handlers.append(h)

            def removeHandler(self, h):
                if h in self.handlers:
                    self.handlers.remove(h)

            def addFilter(self, f):
                self.filters.append(f)

            def removeFilter(self, f):
                if f in self.filters:
                    self.filters.remove(f)

            def hasHandlers(self):
                return True

            def getChild(self, suffix):
                return getLogger(self.name + "." + suffix)

        loggers = {}

        def getLogger(name="root"):
            l = loggers.get(name)
            if l is None:
                l = loggers[name] = Logger(name or "root")
            return l

        class Any(object):
            def __init__(self, *a, **kw):
                pass

            def __getattr__(self, n):
                return lambda *a, **kw: None
        root = getLogger("root")
        m = gapmod("logging", getLogger=getLogger, Logger=Logger, Handler=Any, StreamHandler=Any,
                   NullHandler=Any, FileHandler=Any, Formatter=Any, Filter=object,
                   LoggerAdapter=Any, root=root,
                   basicConfig=lambda *a, **kw: None, debug=root.debug, info=root.info,
                   warning=root.warning, error=root.error, exception=root.exception,
                   critical=root.critical, disable=lambda *a: None, shutdown=lambda *a: None,
                   captureWarnings=lambda *a: None, addLevelName=lambda *a: None,
                   getLevelName=lambda l: str(l), raiseExceptions=False, **levels)
        m._loggers = loggers
        m.config = newmod("logging.config", fileConfig=lambda *a, **kw: None,
                          dictConfig=lambda *a, **kw: None)
        m.handlers = newmod("logging.handlers", RotatingFileHandler=Any, SysLogHandler=Any)
        return m

    def mod_logging_config(self):
        return self.get("logging").config

    def mod_logging_handlers(self):
        return self.get("logging").handlers

    def mod_urllib(self):
        import urllib.parse
        import urllib.error
        m = newmod("urllib")
        m.parse = urllib.parse
        m.error = urllib.error
        m.request = self.get("urllib.request")
        m.__path__ = []
        return m

    def mod_urllib_request(self):
        import urllib.request as r
        import urllib.error as e
        import urllib.parse as p
        world = self.world
        k = self.k
        default = object()

        def urlopen(url, data=None, timeout=default, **kw):
            k.seam("urlopen", "")
            method = None
            headers = {}
            if isinstance(url, r.Request):
                req = url
                if data is None:
                    data = req.data
                headers = dict(req.header_items())
                method = req.get_method()
                url = req.full_url
            to = None if timeout is default else timeout
            if to is None:
                to = self.get("socket").getdefaulttimeout()
            if data is not None and not isinstance(data, (bytes, bytearray)):
                raise TypeError("POST data should be bytes")
            return world.http(self, url, data, headers, method, to)

        def opener(*a):
            class O(object):
                addheaders = []

                def open(self, url, data=None, timeout=default):
                    return urlopen(url, data, timeout)
            return O()
        return gapmod("urllib.request", urlopen=urlopen, Request=r.Request, HTTPError=e.HTTPError,
                      URLError=e.URLError, quote=p.quote, unquote=p.unquote, urlparse=p.urlparse,
                      build_opener=opener, install_opener=lambda o: None)

    def mod__random(self):
        import _random
        sim = self.sim

        class Random(_random.Random):
            def seed(self, a=None):
                if a is None:
                    if core.SIM is sim:
                        a = world_random(sim).getrandbits(64)
                    else:
                        a = 0
                return _random.Random.seed(self, a)

            def __new__(cls, *a, **kw):
                o = _random.Random.__new__(cls)
                return o

            def __init__(self, x=None):
                self.seed(x)
        return newmod("_random", Random=Random)

    def mod_distro(self):
        return gapmod("distro", name=lambda *a, **k: "Raspbian GNU/Linux",
                      version=lambda *a, **k: "10", codename=lambda *a, **k: "buster",
                      id=lambda: "raspbian")

    def mod_platform(self):
        return gapmod("platform",
                      uname=lambda: ("Linux", "simdev", "5.10.0", "#1 SMP sim", "armv7l", ""),
                      system=lambda: "Linux", machine=lambda: "armv7l", node=lambda: "simdev",
                      release=lambda: "5.10.0", python_version=lambda: "3.9.18",
                      python_implementation=lambda: "CPython", platform=lambda *a: "Linux-sim",
                      processor=lambda: "", version=lambda: "#1 SMP sim")

    def mod_pwd(self):
        class P(object):
            pw_name = "root"
            pw_uid = 0
            pw_gid = 0
            pw_dir = "/root"

        def getpwnam(n):
            if n not in ("root", "dataplicity"):
                raise KeyError("getpwnam(): name not found: %r" % n)
            return P()
        return gapmod("pwd", getpwnam=getpwnam, getpwuid=lambda u: P())

    def mod_grp(self):
        class G(object):
            gr_name = "root"
            gr_gid = 0
        return gapmod("grp", getgrnam=lambda n: G(), getgrgid=lambda g: G())

    def mod_gc(self):
        return gapmod("gc", collect=lambda *a: 0, disable=lambda: None, enable=lambda: None)

    def mod_atexit(self):
        handlers = []

        def register(f, *a, **k):
            handlers.append((f, a, k))
            return f

        def unregister(f):
            handlers[:] = [h for h in handlers if h[0] != f]

        def run():
            while handlers:
                f, a, k = handlers.pop()
                try:
                    f(*a, **k)
                except Exception as e:
                    self.sim.note("atexit: %r" % (e,))
        return gapmod("atexit", register=register, unregister=unregister, _handlers=handlers,
                      _run_exitfuncs=run, _clear=handlers.clear,
                      _ncallbacks=lambda: len(handlers))

    def mod_faulthandler(self):
        return gapmod("faulthandler", enable=lambda *a, **k: None)

    def mod_resource(self):
        return gapmod("resource", getrlimit=lambda r: (1024, 4096), RLIMIT_NOFILE=7)

    def mod_syslog(self):
        return gapmod("syslog", syslog=lambda *a: None)


class ExecFails(Exception):
    def __init__(self, e):
        self.errno = e


def world_random(sim):
    r = getattr(sim, "_entropy", None)
    if r is None:
        import random
        r = sim._entropy = random.Random("%s/entropy" % (sim.seed,))
    return r
