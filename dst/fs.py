"""Simulated filesystem: inodes, devices with capacity, symlinks, fault rules."""
import errno
import os as _real_os
import stat as _stat

from . import core


class Inode(object):
    __slots__ = ("ino", "dev", "kind", "data", "entries", "target", "mode", "nlink",
                 "mtime", "uid", "opens", "exec_prog", "nosize")

    def __init__(self, ino, dev, kind, mode):
        self.ino = ino
        self.dev = dev
        self.kind = kind
        self.mode = mode
        self.data = bytearray() if kind == "f" else None
        self.entries = {} if kind == "d" else None
        self.target = None
        self.nlink = 2 if kind == "d" else 1
        self.mtime = 0
        self.uid = 0
        self.opens = 0
        self.exec_prog = None
        self.nosize = False     # like the files of /proc: the size is said to be 0


class Device(object):
    def __init__(self, num, blocks, used, bsize=4096):
        self.num = num
        self.bsize = bsize
        self.blocks = blocks          # capacity in blocks
        self.base_used = used         # blocks used by files not modelled
        self.bytes = 0                # bytes used by modelled files
        self.reserved = 0             # blocks only root may use
        self.iofactor = 1             # preferred I/O size, in blocks

    @property
    def used_blocks(self):
        return self.base_used + (self.bytes + self.bsize - 1) // self.bsize

    @property
    def free_bytes(self):
        return max(0, (self.blocks - self.base_used) * self.bsize - self.bytes)


def err(e, path=None, path2=None):
    if path2 is not None:
        return OSError(e, _real_os.strerror(e), path, None, path2)
    if path is not None:
        return OSError(e, _real_os.strerror(e), path)
    return OSError(e, _real_os.strerror(e))


class FS(object):
    def __init__(self):
        self.next_ino = 100
        self.devs = {}
        self.root_dev = self.new_dev(8 * 1000 * 1000, 1000 * 1000)
        self.root = self._inode(self.root_dev, "d", 0o755)
        self.rules = []             # fault rules
        self.fired = []             # (t, op, path, rule) of the rules that took effect
        self.writes = []            # (op, path) mutations log: for containment oracles
        self.on_mutate = None       # callback(op, abspath, proc)

    def new_dev(self, blocks, used):
        num = 2049 + len(self.devs)
        d = self.devs[num] = Device(num, blocks, used)
        return d

    def _inode(self, dev, kind, mode):
        self.next_ino += 1
        return Inode(self.next_ino, dev, kind, mode)

    # ---- resolution -----------------------------------------------------
    def split(self, path):
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        if "\0" in path:
            raise ValueError("embedded null byte")
        return path

    def walk(self, path, follow=True, cwd="/"):
        """Return (parent_inode, name, inode or None)."""
        opath = path
        path = self.split(path)
        if path == "":
            raise err(errno.ENOENT, opath)
        if not path.startswith("/"):
            path = cwd.rstrip("/") + "/" + path
        if len(path) > 4095:
            raise err(errno.ENAMETOOLONG, opath)
        stack = [self.root]
        want_dir = path.endswith("/") or path.endswith("/.")
        parts = [p for p in path.split("/") if p]
        parts.reverse()
        nlinks = 0
        while parts:
            p = parts.pop()
            d = stack[-1]
            if d.kind != "d":
                raise err(errno.ENOTDIR, opath)
            if p == ".":
                if not parts:
                    return (stack[-2] if len(stack) > 1 else d), p, d
                continue
            if p == "..":
                if len(stack) > 1:
                    stack.pop()
                if not parts:
                    d = stack[-1]
                    return (stack[-2] if len(stack) > 1 else d), p, d
                continue
            if len(p.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, opath)
            n = d.entries.get(p)
            last = not parts
            if n is None:
                if last:
                    return d, p, None
                raise err(errno.ENOENT, opath)
            if n.kind == "l" and (not last or follow or want_dir):
                nlinks += 1
                if nlinks > 40:
                    raise err(errno.ELOOP, opath)
                tgt = n.target
                if tgt.startswith("/"):
                    del stack[1:]
                parts.extend(reversed([q for q in tgt.split("/") if q]))
                if not parts:
                    return stack[0], "/", stack[-1]
                continue
            if last:
                if want_dir and n.kind != "d":
                    raise err(errno.ENOTDIR, opath)
                return d, p, n
            stack.append(n)
        return self.root, "/", self.root

    def get(self, path, follow=True, cwd="/"):
        n = self.walk(path, follow, cwd)[2]
        if n is None:
            raise err(errno.ENOENT, path)
        return n

    def lookup(self, path, follow=True):
        """Inode or None; for harness use."""
        try:
            return self.walk(path, follow)[2]
        except OSError:
            return None

    # ---- operations (no seams; raise OSError) ---------------------------
    def create(self, parent, name, kind, mode, dev=None):
        n = self._inode(dev or parent.dev, kind, mode)
        parent.entries[name] = n
        if kind == "d":
            parent.nlink += 1
        return n

    def resize(self, n, size):
        cur = len(n.data)
        if size > cur:
            n.dev.bytes += size - cur
            n.data.extend(b"\0" * (size - cur))
        elif size < cur:
            n.dev.bytes -= cur - size
            del n.data[size:]

    def unref(self, n):
        if n.nlink <= 0 and n.opens <= 0 and n.data is not None:
            n.dev.bytes -= len(n.data)
            n.data = bytearray()

    def unlink(self, path, cwd="/"):
        d, name, n = self.walk(path, False, cwd)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "d":
            raise err(errno.EISDIR, path)
        del d.entries[name]
        n.nlink -= 1
        self.unref(n)

    def mkdir(self, path, mode=0o777, cwd="/"):
        d, name, n = self.walk(path, True, cwd)
        if n is not None:
            raise err(errno.EEXIST, path)
        return self.create(d, name, "d", mode)

    def rmdir(self, path, cwd="/"):
        d, name, n = self.walk(path, False, cwd)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        if n is self.root or name in (".", "..", "/"):
            raise err(errno.EBUSY, path)
        del d.entries[name]
        d.nlink -= 1

    def rename(self, a, b, cwd="/"):
        da, na, ia = self.walk(a, False, cwd)
        if ia is None:
            raise err(errno.ENOENT, a, b)
        db, nb, ib = self.walk(b, False, cwd)
        if na in (".", "..", "/") or nb in (".", "..", "/"):
            raise err(errno.EBUSY, a, b)
        if da.dev is not db.dev or ia.dev is not db.dev:
            raise err(errno.EXDEV, a, b)
        if ib is ia:
            return
        if ib is not None:
            if ib.kind == "d":
                if ia.kind != "d":
                    raise err(errno.EISDIR, a, b)
                if ib.entries:
                    raise err(errno.ENOTEMPTY, a, b)
            elif ia.kind == "d":
                raise err(errno.ENOTDIR, a, b)
            ib.nlink -= 1
            self.unref(ib)
        del da.entries[na]
        db.entries[nb] = ia

    def link(self, a, b, cwd="/"):
        ia = self.get(a, False, cwd)
        db, nb, ib = self.walk(b, False, cwd)
        if ib is not None:
            raise err(errno.EEXIST, a, b)
        if ia.kind == "d":
            raise err(errno.EPERM, a, b)
        if ia.dev is not db.dev:
            raise err(errno.EXDEV, a, b)
        db.entries[nb] = ia
        ia.nlink += 1

    def symlink(self, target, path, cwd="/"):
        d, name, n = self.walk(path, False, cwd)
        if n is not None:
            raise err(errno.EEXIST, target, path)
        n = self.create(d, name, "l", 0o777)
        n.target = target if isinstance(target, str) else target.decode("utf-8", "surrogateescape")
        return n

    # ---- harness helpers --------------------------------------------------
    def makedirs(self, path, dev=None):
        cur = self.root
        for p in [q for q in path.split("/") if q]:
            n = cur.entries.get(p)
            if n is None:
                n = self.create(cur, p, "d", 0o755)
            while n.kind == "l":
                n = self.get("/" + n.target.lstrip("/"))
            cur = n
        if dev is not None:
            cur.dev = dev
        return cur

    def put(self, path, data, mode=0o644):
        dirname, name = path.rsplit("/", 1)
        d = self.makedirs(dirname)
        n = d.entries.get(name)
        if n is None:
            n = self.create(d, name, "f", mode)
        self.resize(n, 0)
        n.data.extend(data)
        n.dev.bytes += len(data)
        n.mode = mode
        return n

    def resize_to(self, n, data):
        """Another process writes to the end."""
        m = len(data) - len(n.data)
        n.data.extend(data[len(n.data):])
        n.dev.bytes += m

    def replace(self, path, data):
        """Another process puts a new file in its place."""
        self.put(path + ".new", data)
        self.rename(path + ".new", path)

    def read(self, path):
        n = self.lookup(path)
        return None if n is None or n.kind != "f" else bytes(n.data)

    def remove_tree(self, path):
        try:
            d, name, n = self.walk(path, False)
        except OSError:
            return
        if n is not None:
            del d.entries[name]

    def tree(self, top="/", _n=None, _pre=None):
        """Flat {path: ('f', bytes) | ('d',) | ('l', target)} of everything below top."""
        out = {}
        n = _n if _n is not None else self.lookup(top, follow=False)
        if n is None:
            return out
        pre = _pre if _pre is not None else top.rstrip("/")
        for name in sorted(n.entries):
            c = n.entries[name]
            p = pre + "/" + name
            if c.kind == "d":
                out[p] = ("d",)
                out.update(self.tree(p, c, p))
            elif c.kind == "f":
                out[p] = ("f", bytes(c.data))
            else:
                out[p] = (c.kind, c.target)
        return out

    # ---- faults -------------------------------------------------------------
    def check_fault(self, sim, op, path):
        """Fault rules: dicts {ops, match, skip, times, errno | kill}."""
        if not self.rules:
            return None
        p = path if isinstance(path, str) else repr(path)
        for r in self.rules:
            if r["times"] <= 0 or (r["ops"] is not None and op not in r["ops"]):
                continue
            if r["match"] and r["match"] not in p:
                continue
            if r["skip"] > 0:
                r["skip"] -= 1
                continue
            r["times"] -= 1
            self.fired.append((sim.now, op, p, r))
            return r
        return None


def mkstat(n):
    """os.stat_result for an inode."""
    kinds = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK, "c": _stat.S_IFCHR,
             "p": _stat.S_IFIFO}
    if n.kind == "f":
        size = 0 if n.nosize else len(n.data)
    elif n.kind == "l":
        size = len(n.target)
    else:
        size = 4096
    mt = n.mtime / 1e9
    kind = kinds.get(n.kind, _stat.S_IFREG)
    vals = (kind | n.mode, n.ino, n.dev.num, n.nlink, n.uid, 0, size)
    sec, ns = divmod(int(n.mtime), 10 ** 9)
    # PyPy's full sequence: integer times, float times, blksize, blocks, rdev, nanoseconds
    return _real_os.stat_result(vals + (sec,) * 3 + (mt,) * 3 + (
        4096, (size + 511) // 512, 0, ns, ns, ns))
