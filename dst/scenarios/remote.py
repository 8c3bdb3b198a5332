"""The shared remote directory: uploads, downloads, hostile requests and scans.

Decides C14 - C18.  The m2m server side runs small clients (one per upload, download or scan)
that send requests, wait or pipeline, resume after a lost link or a killed agent, and compare every
reply with a reference model; the disk is watched at every change the agent makes to it.
"""
import errno
import json
import os.path as _p
import random
import re

from .. import core
from ..core import SEC, MS, US
from .base import Scenario, compress_cfg, GRACE
from .link import Link, REGAIN
from .traffic import stream

INF = 1 << 62
MARGIN = 50 * 1000 * 1000
SECRET = b"TOP-SECRET-OUTSIDE"
REPLY = 15              # seconds within which a request is answered
MAXDEPTH = 9            # directories nested deeper are not listed

VICTIMS = {
    "/etc/shadow": SECRET + b"-shadow", "/root/.ssh/id": SECRET + b"-id",
    "/home/dataplicity/remote-private/key": SECRET + b"-prefix",
    "/home/dataplicity/remote2": SECRET + b"-r2", "/home/dataplicity/notes.txt": SECRET + b"-notes",
    "/var/tmp/backup.tar": SECRET + b"-backup", "/var/tmp/other/data": SECRET + b"-other",
    "/tmp/sock": SECRET + b"-sock", "/opt/dataplicity/tuxtunnel/auth": SECRET + b"-auth",
    "/victim": SECRET + b"-root",
    "/var/tmp/dataplicity_remote_downloads2/x": SECRET + b"-dl2",
    "/var/tmp/dataplicity_remote_downloads-old/y": SECRET + b"-dlold",
    "/var/tmp/dataplicity_remote2/z": SECRET + b"-snap2", "/notes.txt": SECRET + b"-rootnotes",
    "/home/dataplicity/.ssh": SECRET + b"-ssh",
}
HOSTILE = ["../remote2", "../notes.txt", "../remote-private/key", "../../../etc/shadow",
           "/../../../etc/shadow", "a/../../notes.txt", "../remote-private", "..", "../",
           "../../root/.ssh/id", "d1/../../remote2", "./../notes.txt", "//../notes.txt",
           "../../../victim", "../../../tmp/sock", "../../../var/tmp/backup.tar", "x/../../../../victim",
           "../../../opt/dataplicity/tuxtunnel/auth", "../.ssh", "d1/../../.ssh", "../remote/../notes.txt",
           "../../../notes.txt", "../../../var/tmp/dataplicity_remote2/z"]
# names nothing in the directory; wherever it ends up has to be inside
ODD = ["//etc/shadow", "///root/.ssh/id", "//home/dataplicity/notes.txt", "//victim", "//tmp/sock",
       "//home/dataplicity/remote-private/key", "//var/tmp/other/data", "//etc/newfile",
       "//var/tmp/backup.tar", "////opt/dataplicity/tuxtunnel/auth", "//home/dataplicity/new",
       "~/notes.txt", "~root/.ssh/id", "%2e%2e/notes.txt", "..%2fnotes.txt", "...",
       "\0/etc/shadow", "\0scan.json/../../etc/shadow", "\0../etc/shadow", "\0/tmp/sock",
       "\0notes.txt", "-private/key", "2", "/-private/key", "//home/dataplicity/remote/../notes.txt",
       "$HOME/notes.txt", "/tmp/sock", "/etc/shadow", "/etc/new", "/root/.ssh/id"]
BADIDS = ["../dataplicity_remote2/z", "../dataplicity_remote_downloads2/x", "//var/tmp/backup.tar", "../dataplicity_remote/../backup.tar", "//etc/shadow",
          "../backup.tar", "../other/data", "../../tmp/sock", "../../../etc/shadow", "/etc/shadow",
          "/home/dataplicity/notes.txt", "..", ".", "", "../../victim", "a/../../backup.tar",
          "../../../root/.ssh/id", "/victim", "/var/tmp/backup.tar", "./../backup.tar",
          "../../../../home/dataplicity/remote-private/key"]
BADDEV = ["//var/tmp/dataplicity_remote_downloads/../backup.tar", "//etc/shadow",
          "/var/tmp/dataplicity_remote_downloads/..", "/var/tmp/dataplicity_remote_downloads2/x",
          "/var/tmp/dataplicity_remote_downloads-old/y",
          "/var/tmp/dataplicity_remote_downloads/../other/data", "/var/tmp/dataplicity_remote2/z",
          "/home/dataplicity/.ssh", "~/notes.txt", "/etc/shadow", "/victim", "/root/.ssh/id", "/var/tmp/backup.tar", "/var/tmp/other/data",
          "/home/dataplicity/notes.txt", "/home/dataplicity/remote-private/key", "../../etc/shadow",
          "/var/tmp/dataplicity_remote_downloads/../backup.tar", "/tmp/sock",
          "/var/tmp/dataplicity_remote_downloads/../../../etc/shadow",
          "/var/tmp/dataplicity_remote/../backup.tar", "/opt/dataplicity/tuxtunnel/auth",
          "/var/tmp/dataplicity_remote_downloads/x/../../backup.tar",
          "/proc/cpuinfo", "relative", "/home/dataplicity/remote/../notes.txt"]


class Remote(Link):
    span = 4000

    # ============================================================ generation
    @classmethod
    def gen(cls, rng, prop):
        dur = rng.choice([15, 30, 60])
        cfg = dict(dur=dur, compress=compress_cfg(rng, 0.2), seg_p=rng.choice([0, 0.1]),
                   frag_p=rng.choice([0, 0.05]), join_delay=0, api_p=0.0, sessions=[], attempts=[],
                   same_identity=False, files=[], dirs=[], links=[], exdev=rng.random() < 0.35,
                   tmpdev=None, rules=[])
        ops = []

        def t(lo=1.0, hi=None):
            return round(rng.uniform(lo, hi or dur), 4)

        # the tree
        ndirs = rng.choice([0, 2, 5, 12]) if prop in ("C17", "C18") else rng.choice([1, 2, 4])
        dirs = [""]
        for i in range(ndirs):
            d = rng.choice(dirs)
            if prop == "C17" and rng.random() < 0.3:
                d = max(dirs, key=lambda x: x.count("/"))
            n = rng.choice(["d%d", "dir %d", "D%d.x", "d%d"]) % i
            if rng.random() < 0.08:
                n = "." + n
            dirs.append((d + "/" + n).lstrip("/"))
        if prop == "C17" and rng.random() < 0.25:
            d = rng.choice(dirs)
            for i in range(rng.choice([9, 11, 13])):
                d = (d + "/n%d" % i).lstrip("/")
                dirs.append(d)
        cfg["dirs"] = dirs[1:]
        nfiles = rng.choice([0, 3, 8, 20]) if prop in ("C17", "C18") else rng.choice([1, 3, 6])
        files = []
        for i in range(nfiles):
            n = rng.choice(["f%d.txt", "f%d", "f %d.tar.gz", "F%d.", "f%d.d.e"]) % i
            r = rng.random()
            if prop == "C17" and r < 0.1:
                n = "." + n
            elif prop in ("C17", "C18") and r < 0.2:
                n = n + rng.choice(["\u00e9", "\u4e2d", "\udcff", "\n", "\""])
            f = (rng.choice(dirs) + "/" + n).lstrip("/")
            files.append([f, cls.size(rng)])
        cfg["files"] = files
        if prop == "C17" and rng.random() < 0.35:
            for i in range(rng.randint(1, 4)):
                at = (rng.choice(dirs) + "/l%d" % i).lstrip("/")
                what = rng.choice(["dir", "dir", "up", "file", "broken", "self", "root"])
                cfg["links"].append([at, what, rng.randrange(1000)])
        if rng.random() < 0.25:
            cfg["tmpdev"] = rng.choice([-1000000, -70000, 100, 5000, 200000, 3000000])
        vis = [f for f, _ in files if not any(c.startswith(".") for c in f.split("/")) and
               "\udcff" not in f]
        vdirs = [d for d in dirs if not any(c.startswith(".") for c in d.split("/"))]

        nup = {"C14": rng.randint(1, 5), "C15": rng.choice([0, 0, 1]), "C16": rng.choice([0, 1, 2]),
               "C17": 0, "C18": rng.choice([0, 0, 1])}[prop]
        ndl = {"C14": rng.choice([0, 0, 1]), "C15": rng.randint(1, 5), "C16": rng.choice([0, 1, 2]),
               "C17": rng.choice([0, 0, 0, 1]), "C18": rng.choice([0, 0, 1])}[prop]
        nsc = {"C14": rng.choice([0, 0, 1]), "C15": rng.choice([0, 0, 1]), "C16": 0,
               "C17": rng.randint(1, 3), "C18": rng.randint(1, 6)}[prop]
        nho = {"C16": rng.randint(2, 14)}.get(prop, rng.choice([0, 0, 0, 1]))
        for i in range(nup):
            ops.append([t(), "upload", cls.upload(rng, i, vis)])
        for i in range(ndl):
            ops.append([t(), "download", cls.download(rng, i, vis, vdirs)])
        # ids that something careless takes for each other
        if rng.random() < 0.3:
            for kind, pre in (("upload", "up"), ("download", "down")):
                alike = cls.alike(rng, pre)
                for o in ops:
                    if o[1] == kind:
                        o[2]["id"] = next(alike)
        # names that are taken already
        if ndl and rng.random() < 0.2:
            path = rng.choice([o for o in ops if o[1] == "download"])[2]["path"].lstrip("/")
            if path.split("/")[0] != "nosuchdir":
                b, e = _p.splitext(path)
                n = rng.choice([1, 2, 3, 9, 10, 11, 12, 20, 40])
                gap = rng.choice([0, 0, n, rng.randint(1, n)])
                have = set(f for f, _ in files)
                for f in [path] + ["%s(%d)%s" % (b, k, e) for k in range(1, n + 1) if k != gap]:
                    if f not in have:
                        files.append([f, 1])
        for i in range(nsc):
            ops.append([t(), "scan", dict(
                n=rng.choice([1, 1, 2, 3]), gap=rng.choice([0, 0.001, 0.02, 1]),
                via=rng.choice(["packet", "packet", "packet", "instr"]),
                fetch=rng.choice([True, True, True, False]), mark=rng.random() < 0.6,
                chunk=rng.choice([7, 200, 4096, 100000]),
                # asks again as soon as it is answered
                again=[] if prop != "C18" or rng.random() < 0.6 else
                [rng.choice([0, 0.0002, 0.001, 0.003])] * rng.choice([1, 3, 10]))])
        if prop == "C18":
            for i in range(rng.choice([0, 1, 4, 10])):
                ops.append([t(), "listing", rng.choice([50, 1000, 100000])])
        for i in range(nho):
            ops.append([t(), "hostile", cls.hostile_op(rng)])
        # somebody else works in the directory
        next_ = {"C14": rng.randint(0, 6), "C17": rng.choice([0, 0, 1, 4]),
                 "C18": rng.choice([0, 0, 2, 5])}.get(prop, rng.choice([0, 0, 2]))
        for i in range(next_):
            k = rng.choice(["put", "put", "del", "grow", "trunc", "mkdir"])
            if k == "mkdir":
                a = (rng.choice(vdirs) + "/x%d" % i).lstrip("/")
            elif vis and (k != "put" or rng.random() < 0.6):
                a = rng.choice(vis)
            else:
                k = "put"
                a = (rng.choice(vdirs) + "/new%d" % i).lstrip("/")
            ops.append([t(), "ext", k, a, cls.size(rng)])
        # trouble
        tr = rng.random()
        if tr < 0.35:
            pass
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                kind = rng.choice(["rule", "rule", "rule", "killrule", "killrule", "reset", "fin",
                                   "crash", "nothread"])
                if kind in ("rule", "killrule"):
                    match = rng.choice(["dataplicity", "dataplicity_remote/", "downloads", "__data",
                                        "/remote/", "", ".dataplicity-download"])
                    opsel = rng.choice([None, ["write"], ["write"], ["read"], ["open_r"],
                                        ["open_w"], ["rename"], ["stat"], ["unlink"], ["mkdir"],
                                        ["statvfs"], ["scandir"], ["scandir_next"],
                                        ["isdir", "isfile"], ["write", "rename"]])
                    if opsel is None or "stat" in opsel:
                        # (a file that is there but cannot be seen does not count as there)
                        match = rng.choice(["dataplicity_remote/", "downloads", "__data"])
                    if prop == "C17":
                        match = rng.choice(["/d0", "/d1", "/f1", "/f2", "/dir", "/D", "/remote", "f"])
                        opsel = rng.choice([["scandir"], ["scandir_next"], ["stat"],
                                            ["isdir", "isfile"], ["isdir"]])
                        if opsel[0] == "stat" and ndl:
                            opsel = ["scandir"]
                    r = dict(ops=opsel, match=match, skip=rng.choice([0, 0, 1, 2, 3, 5, 9, 15]),
                             times=rng.choice([1, 1, 1, 2, 1000]))
                    if kind == "killrule":
                        r["kill"] = True
                        r["torn"] = rng.random() < 0.5
                        r["times"] = 1
                        r["skip"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 30])
                    else:
                        r["errno"] = rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES])
                        if opsel == ["write"]:
                            r["short"] = rng.random() < 0.3
                            r["torn"] = rng.random() < 0.5
                    ops.append([t(0.5), "rule", r, rng.choice([1, 5, 30])])
                elif kind == "nothread":
                    if prop in ("C17", "C18"):
                        ops.append([t(0.5), "nothread", rng.choice([0.5, 5])])
                else:
                    ops.append([t(), kind])
        if rng.random() < 0.4 and ops:
            # close together
            b = rng.uniform(1, dur - 3)
            sq = rng.choice([0.002, 0.02, 0.2])
            for o in ops:
                o[0] = round(b + o[0] * sq, 4)
        ops.sort(key=lambda o: o[0])
        return dict(cfg=cfg, ops=ops)

    @staticmethod
    def alike(rng, pre):
        kind = rng.choice(["case", "long", "blank", "accent", "dot", "tail", "number"])
        i = rng.randrange(1000)
        while True:
            yield pre + {"case": "-%x" % (0xabcd + i), "long": "-" + "q" * 120 + "%d" % i,
                         "blank": "-%d" % i, "accent": "-%d\u00e9" % i, "dot": "-%d" % i,
                         "tail": "-%d" % i, "number": "-%d" % i}[kind]
            yield pre + {"case": "-%X" % (0xabcd + i), "long": "-" + "q" * 120 + "%dz" % i,
                         "blank": "-%d " % i, "accent": "-%de\u0301" % i, "dot": "-%d.bin" % i,
                         "tail": "-%d.new" % i, "number": "-0%d" % i}[kind]
            i += 1

    @staticmethod
    def size(rng):
        return rng.choice([0, 1, 16, 17, 500, 5000, 8191, 8192, 8193, 70000, 300000])

    @classmethod
    def upload(cls, rng, i, vis):
        """Steps of one upload client."""
        path = rng.choice(vis) if vis and rng.random() < 0.85 else rng.choice(
            ["missing", "d0", "", "d0/nothing"])
        if rng.random() < 0.3:
            path = "/" + path
        steps = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            steps.append(["open", path])
            for _ in range(rng.choice([0, 1, 2, 6, 12])):
                r = rng.random()
                if r < 0.8:
                    steps.append(["read", rng.choice([0, 0, 1, 5, 100, 4096, 8192, 69990, 400000]),
                                  rng.choice([0, 1, 10, 4096, 8192, 65536, 1000000])])
                elif r < 0.9:
                    steps.append(["wait", rng.choice([0.01, 0.5, 3])])
                elif r < 0.93:
                    steps.append(["read", -1, 10])
                else:
                    steps.append(["all", rng.choice([1000, 8192, 100000])])
            if rng.random() < 0.8:
                steps.append(["close"])
                if rng.random() < 0.4:
                    steps.append(["read", 0, 100])
            if rng.random() < 0.3 and vis:
                path = rng.choice(vis)
        return dict(steps=steps, pipe=rng.random() < 0.6, gap=rng.choice([0, 0.001, 0.05, 0.5]))

    @classmethod
    def download(cls, rng, i, vis, vdirs):
        size = cls.size(rng)
        d = rng.choice(vdirs)
        names = ["new%d.bin" % rng.randrange(3), "same.txt", "same", "a.b.c", "x%d" % i]
        path = (d + "/" + rng.choice(names)).lstrip("/")
        if vis and rng.random() < 0.3:
            path = rng.choice(vis)
        if rng.random() < 0.06:
            path = "nosuchdir/" + path
        if rng.random() < 0.3:
            path = "/" + path
        n = rng.choice([1, 1, 2, 3, 6, 12])
        cuts = sorted(rng.randint(0, size) for _ in range(n - 1))
        b = [0] + cuts + [size]
        chunks = [[b[k], b[k + 1] - b[k]] for k in range(n)]
        if rng.random() < 0.3 and n > 1:
            body = chunks[1:]
            rng.shuffle(body)
            chunks = chunks[:1] + body
        if rng.random() < 0.2:
            chunks.insert(rng.randint(1, len(chunks)), list(rng.choice(chunks)))
        if rng.random() < 0.15:
            # the same place again with other bytes
            c = rng.choice(chunks)
            chunks.insert(rng.randint(1, len(chunks)), [c[0], max(1, c[1]), 1])
        if rng.random() < 0.2:
            chunks.append([size, 0])
        if rng.random() < 0.04:
            chunks.insert(rng.randint(1, len(chunks)), [rng.choice([-1, -100, 1 << 40, 1 << 70]), 3])
        return dict(path=path, size=size, chunks=chunks, pipe=rng.random() < 0.6,
                    gap=rng.choice([0, 0.001, 0.05, 0.5]), retry=rng.choice([0, 1, 3]),
                    abandon=rng.random() < 0.08)

    @classmethod
    def hostile_op(cls, rng):
        k = rng.choice(["open", "openid", "read", "close", "wid", "wdev", "wdev", "wdevfinal",
                        "wpath", "wpath", "wsnap", "oddopen", "oddwrite", "oddwrite"])
        return [k, rng.choice(ODD if k.startswith("odd") else HOSTILE), rng.choice(BADIDS), rng.choice(BADDEV),
                rng.random() < 0.5, rng.choice([0, 5, 3000])]

    # ============================================================ set-up
    def setup(self):
        Link.setup(self)
        fs = self.k.fs
        for n in list(fs.lookup(self.remote_dir).entries):
            fs.unlink(self.remote_dir + "/" + n)
        self.root = self.remote_dir
        if self.cfg["exdev"]:
            fs.makedirs(self.root, fs.new_dev(1000 * 1000, 1000))
        if self.cfg["tmpdev"] is not None:
            total = 40 * 1000                           # blocks: 164 MB
            want = MARGIN + self.cfg["tmpdev"]
            fs.makedirs("/var/tmp", fs.new_dev(total, total - max(0, want) // 4096))
        for d in self.cfg["dirs"]:
            fs.makedirs(self.root + "/" + d)
        for i, (f, n) in enumerate(self.cfg["files"]):
            fs.put(self.root + "/" + f, stream("f%d" % i, n))
        dirs = [""] + self.cfg["dirs"]
        for at, what, x in self.cfg["links"]:
            p = self.root + "/" + at
            if fs.lookup(p, False) is not None:
                continue
            if what == "dir":
                fs.symlink(self.root + "/" + dirs[x % len(dirs)], p)
            elif what == "up":
                fs.symlink("..", p)
            elif what == "file":
                fs.symlink(self.root + "/" + (self.cfg["files"][x % len(self.cfg["files"])][0]
                                              if self.cfg["files"] else "zz"), p)
            elif what == "broken":
                fs.symlink("/nowhere", p)
            elif what == "self":
                fs.symlink(_p.basename(at), p)
            else:
                fs.symlink(self.root, p)
        for p, data in VICTIMS.items():
            fs.put(p, data)
        fs.makedirs("/home/dataplicity/remote-private")
        self.outside0 = self.outside()
        self.k.mut_hook = self.mutation
        self.ups = []
        self.dls = []
        self.ids = set()
        self.queue = {}             # session idx -> list of pending Req
        self.lost = []
        self.vers = 0
        self.hist = {}              # absolute path -> [(t, bytes | None)]
        self.known = {}             # files of the remote directory -> bytes (None: not watched)
        for p, e in fs.tree(self.root).items():
            if e[0] == "f":
                self.hist[p] = [(0, e[1])]
                self.known[p] = True
        self.views = []             # (t, {relpath: ('d',) | ('f', size)})
        self.view()
        self.scans = []             # scan requests
        self.listings = []          # (t_open, t_reply, bytes)
        self.odd = {}               # other new names in the remote directory
        self.odd_data = set()       # what requests with odd names stored
        self.nreq = 0
        self.nothreads = []
        self.kills = []

    def agent_died(self, p):
        self.kills.append(self.sim.now)

    def outside(self):
        return {p: e for p, e in self.k.fs.tree("/").items() if not p.startswith(self.root + "/")}

    def view(self):
        out = {}

        def rec(n, pre, depth):
            for name, c in n.entries.items():
                if name.startswith("."):
                    continue
                if c.kind == "d":
                    if depth < MAXDEPTH:
                        out[pre + name] = ("d",)
                        rec(c, pre + name + "/", depth + 1)
                elif c.kind == "f":
                    out[pre + name] = ("f", len(c.data))
        rec(self.k.fs.lookup(self.root), "", 0)
        if not self.views or self.views[-1][1] != out:
            self.views.append((self.sim.now, out))

    # ============================================================ disk monitor
    OWN = re.compile(r"^((/var/tmp|/tmp)/dataplicity[^/]*(/[^/]+)?|"
                     r"(/tmp|/var/tmp|/usr/tmp|)/([a-z0-9_]{8}|tmp[^/]*|[._]*dataplicity[^/]*))$")

    def mutation(self, op, path):
        self.sim.probe("disk_changes")
        inside = path.startswith(self.root + "/")
        if not inside:
            if not self.OWN.match(path):
                self.violate("C16", "outside:" + op, "the agent did %s on %s" % (op, path))
            return
        rel = path[len(self.root) + 1:]
        if not any(c.startswith(".") for c in rel.split("/")):
            self.inside(op, path)
        self.view()

    def inside(self, op, path):
        fs = self.k.fs
        sim = self.sim
        if op in ("unlink", "rename_from", "rmdir"):
            if path in self.known:
                self.violate("C15", "file_removed", "%s %s" % (op, path))
                self.known.pop(path)
            self.odd.pop(path, None)
            return
        if op in ("write", "trunc") or op in ("create", "rename_to", "link") and path in self.known:
            if path in self.known:
                self.violate("C15", "existing_changed:" + op, path)
                return
        n = fs.lookup(path, False)
        if n is None or n.kind != "f":
            self.odd[path] = op
            return
        cands = [a for d in self.dls for a in d.attempts if d.is_name(path)]
        if not cands:
            self.odd[path] = op
            return
        data = bytes(n.data)
        fresh = [a for a in cands if a.landing is None]
        for a in reversed(fresh):
            if data == a.exp:
                break
        else:
            if op == "rename_to" and fresh:
                a = fresh[-1]
            else:
                self.violate("C15", "partial_visible", "%s stands there with %d of %d bytes" % (
                    path, len(data), len(cands[0].exp)))
                self.known[path] = True
                return
        want = a.d.free_name()
        if want != path and not self.fired(a.t, sim.now, ("isdir", "stat")):
            self.violate("C15", "wrong_name", "%s stored as %s, expected %s" % (
                a.d.spec["path"], path, want))
        a.landing = (sim.now, path, data)
        self.known[path] = True
        self.hist.setdefault(path, []).append((sim.now, data))
        self.odd.pop(path, None)

    def fired(self, a, b, ops=None):
        return [f for f in self.k.fs.fired if a <= f[0] <= b and (ops is None or f[1] in ops)]

    # ============================================================ requests
    def send(self, cl, kind, fields, cb, **kw):
        """Send a request on the current session; None when there is none."""
        s = self.m2m.current
        if s is None:
            return None
        self.nreq += 1
        r = Req(self, cl, kind, fields, cb, s)
        r.__dict__.update(kw)
        if kind != "close":
            self.queue.setdefault(s.idx, []).append(r)
        s.packet({"open": "open_remote_file", "read": "read_remote_file",
                  "close": "close_remote_file", "write": "write_remote_file"}[kind], *fields)
        if kind == "close":
            s.marker(r.done)
            self.queue.setdefault(s.idx, []).append(r)
        return r

    def on_session_end(self, s):
        Link.on_session_end(self, s)
        for r in self.queue.pop(s.idx, []):
            r.t_reply = self.sim.now
            self.lost.append(r)
            self.sim.after(0, r.cl.on_lost, r)

    def reply(self, s, kind, key, res):
        q = self.queue.get(s.idx, [])
        for r in q:
            if r.kind == kind and r.key() == key:
                q.remove(r)
                r.t_reply = self.sim.now
                r.res = res
                if self.late(r, s):
                    pass
                r.cb(r)
                return
        self.violate({"open": "C14", "read": "C14", "write": "C15"}[kind], "reply_unasked",
                     "%s result %r" % (kind, key))

    def late(self, r, s):
        return False

    def pk_open_remote_file_result(self, s, uid, size, fail, reason):
        self.reply(s, "open", (uid,), (size, fail, reason))

    def pk_read_remote_file_result(self, s, uid, offset, size, data, fail, reason):
        if SECRET in data:
            self.violate("C16", "leak", "read of %r returned %r" % (uid, data[:60]))
        self.reply(s, "read", (uid, offset, size), (data, fail, reason))

    def pk_write_remote_file_result(self, s, did, pos, size, dev, fail, reason):
        q = self.queue.get(s.idx, [])
        for r in q:
            if r.kind == "write" and r.fields[0] == did:
                off, n = r.fields[3], len(r.fields[4])
                want = off if fail else off + n
                if pos != want or size != n:
                    self.violate("C15", "wrong_reply", "chunk of %d bytes at %d answered with "
                                 "position %d, size %d, fail %d" % (n, off, pos, size, fail))
                q.remove(r)
                r.t_reply = self.sim.now
                r.res = (pos, size, dev, fail, reason)
                r.cb(r)
                return
        self.violate("C15", "reply_unasked", "write result %r" % did)

    def pk_scan_remote_directory_result(self, s, error):
        for r in self.scans:
            if r.s is s and r.res is None and r.packet:
                r.res = error
                r.t_reply = self.sim.now
                self.scan_answered(r)
                return
        for r in self.scans:
            if r.res is None and r.packet and r.s.idx < s.idx:
                r.res = error           # an answer to a request of a session that is gone
                r.t_reply = self.sim.now
                return
        self.violate("C18", "reply_unasked", "scan result %r" % error)

    # ============================================================ operations
    def fresh_id(self, spec, other):
        i = spec.get("id") or other
        if i in self.ids:
            i += "~%d" % len(self.ids)
        self.ids.add(i)
        return i

    def op_upload(self, spec):
        u = Up(self, self.fresh_id(spec, "up-%d" % len(self.ups)), spec)
        self.ups.append(u)
        u.go()

    def op_download(self, spec):
        d = Down(self, self.fresh_id(spec, "down-%d" % len(self.dls)), spec)
        self.dls.append(d)
        d.go()

    def op_ext(self, how, rel, n):
        fs = self.k.fs
        p = self.root + "/" + rel
        node = fs.lookup(p, False)
        if how == "mkdir":
            if node is None and fs.lookup(_p.dirname(p)) is not None:
                fs.makedirs(p)
            self.view()
            return
        if node is not None and node.kind != "f" or fs.lookup(_p.dirname(p)) is None:
            return
        if how == "put":
            if node is None and any(d.is_name(p) for d in self.dls):
                return
            self.vers += 1
            data = stream("v%d" % self.vers, n)
            fs.put(p, data)
        elif node is None:
            return
        elif how == "del":
            fs.unlink(p)
            self.known.pop(p, None)
            self.hist.setdefault(p, []).append((self.sim.now, None))
            self.view()
            return
        elif how == "grow":
            data = bytes(node.data) + stream("g%d" % n, n)
            fs.put(p, data)
        else:
            data = bytes(node.data)[:len(node.data) // 2]
            fs.put(p, data)
        self.sim.probe("file_changed_by_others")
        self.known[p] = True
        self.hist.setdefault(p, []).append((self.sim.now, data))
        self.view()

    def op_rule(self, rule, dur):
        r = dict(rule)
        self.k.fs.rules.append(r)
        self.sim.after(int(dur * SEC), r.__setitem__, "times", 0)

    def op_nothread(self, dur):
        sim = self.sim
        end = sim.now + int(dur * SEC)
        self.nothreads.append((sim.now, end))

        def fail():
            if sim.now >= end or self.faults_over or self.m2m.current is None:
                return False
            sim.fault("thread_start_fails")
            return True
        self.k.thread_fail = fail

    def op_scan(self, spec=None):
        if spec is None:
            return
        for i in range(spec["n"]):
            self.sim.after(int(i * spec["gap"] * SEC), self._scan, spec)

    def _scan(self, spec):
        s = self.m2m.current
        if s is None:
            return
        if spec["mark"]:
            self.vers += 1
            p = self.root + "/mark%d" % self.vers
            data = stream("m%d" % self.vers, self.vers % 40)
            self.k.fs.put(p, data)
            self.known[p] = True
            self.hist[p] = [(0, None), (self.sim.now, data)]
            self.view()
        r = ScanReq(self, s, spec["via"] == "packet", spec)
        self.scans.append(r)
        if r.packet:
            s.packet("scan_remote_directory")
        else:
            s.instruct(action="scan-directory")

    def scan_answered(self, r):
        again = r.spec.get("again")
        if again and not self.faults_over:
            self.sim.after(int(again[0] * SEC), self._scan, dict(r.spec, again=again[1:]))
        if r.spec["fetch"] and not r.res:
            Fetch(self, r.spec["chunk"]).go()

    def op_listing(self, chunk):
        Fetch(self, chunk).go()

    def op_hostile(self, spec):
        Hostile(self, spec).go()

    # ============================================================ running
    def drive(self):
        self.boot()
        self.schedule()
        self.run_for(self.cfg["dur"])
        self.end_faults()
        if not self.wait_working(REGAIN + GRACE):
            self.violate("C01", "not_regained:" + self.why_not(), "")
            return
        self.run_for(40)
        # everything that is still open gets closed
        for u in self.ups:
            u.finish()
        self.run_for(20)
        self.t_judge = self.sim.now
        if self.prop in ("C17", "C18"):
            r = dict(n=1, gap=0, via="packet", fetch=True, mark=False, chunk=100000)
            self.op_scan(r)
            self.run_for(25)
        self.t_judge = self.sim.now
        self.judge()

    def end_faults(self):
        Link.end_faults(self)
        for r in self.k.fs.rules:
            r["times"] = 0
        self.k.thread_fail = None

    def judge(self):
        for s in self.m2m.sessions:
            if not s.alive:
                continue
            for r in self.queue.get(s.idx, []):
                if self.t_judge - r.t_send > (REPLY + GRACE) * SEC:
                    self.violate({"open": "C14", "read": "C14", "close": "C14", "write": "C15"}[
                        r.kind] if not r.hostile else "C16", "unanswered", "%s %r" % (
                        r.kind, r.fields[:2]))
        for r in self.scans:
            if not r.packet:
                continue
            end = min(r.s.t_end or INF, self.broken.get(r.s.idx, INF), self.t_judge)
            if min(r.t_reply or INF, end) - r.t_send > (30 + GRACE) * SEC:
                self.violate("C18", "unanswered" if r.t_reply is None else "answered_late",
                             "scan request %.1f s ago" % ((end - r.t_send) / 1e9))
            if r.res and not any(a <= r.t_reply and b >= r.t_send for a, b in self.nothreads):
                hit = self.fired(r.t_send - 60 * SEC, r.t_reply)
                if not hit:
                    self.violate("C18", "failed", "scan failed for no reason: %r" % r.res)
                if all(f[1] in ("scandir", "scandir_next", "isdir", "isfile", "stat") and
                       f[2].startswith(self.root + "/") and len(f[2].rstrip("/")) > len(self.root)
                       for f in hit):
                    self.violate("C17", "aborted", "scan failed: %r (%r)" % (r.res, hit[:2]))
        for u in self.ups:
            u.judge()
        for d in self.dls:
            d.judge()
        for p, op in self.odd.items():
            n = self.k.fs.lookup(p, False)
            if n is not None and not (n.kind == "f" and bytes(n.data) in self.odd_data):
                self.violate("C15", "stray_file", "%s (%s)" % (p, op))
        now = self.outside()
        for p, e in self.outside0.items():
            if p not in now and e != ("d",):
                self.violate("C16", "victim_gone", p)
            elif e[0] == "f" and now.get(p) != e:
                self.violate("C16", "victim_changed", p)
        for p in now:
            if p not in self.outside0 and not self.OWN.match(p):
                self.violate("C16", "new_outside", p)
        for p in self.known:
            h = self.hist.get(p)
            if h and h[-1][1] is not None and self.k.fs.read(p) != h[-1][1]:
                self.violate("C15", "existing_changed", p)
        for l in self.listings:
            self.judge_listing(*l)

    # ============================================================ listings
    def judge_listing(self, t_open, t_reply, data):
        try:
            d = json.loads(data.decode("utf-8"))
            dirs = d["directories"]
            assert d["root"] == self.root and isinstance(dirs, dict)
        except Exception as e:
            self.violate("C18", "torn", "the listing is not complete: %s: %r...%r" % (
                e, data[:60], data[-60:]))
            return
        # the newest request known to be answered before the listing was opened
        since = 0
        for r in self.scans:
            if r.t_reply is not None and r.res == b"" and r.t_reply <= t_open and r.packet:
                since = max(since, r.t_send)
        views = [v for i, (t, v) in enumerate(self.views)
                 if t <= t_reply and (i + 1 >= len(self.views) or self.views[i + 1][0] >= since)]
        listed = {}
        twice = []
        for path, info in dirs.items():
            for name in info.get("dirs", ()):
                p = path + "/" + name if path else name
                twice.append(p) if p in listed else listed.__setitem__(p, ("d",))
            for name, size in info.get("files", ()):
                p = path + "/" + name if path else name
                twice.append(p) if p in listed else listed.__setitem__(p, ("f", size))
        bad = [f[2].rstrip("/") for f in self.fired(since, t_reply) if f[1] in (
            "scandir", "scandir_next", "stat", "isdir", "isfile", "open_r")]

        def excused(p):
            a = self.root + "/" + p
            return any(a == b or a.startswith(b + "/") for b in bad)
        if twice:
            self.violate("C17", "listed_twice", repr(twice[:3]))
        stable = dict(views[0])
        ever = {}
        for v in views:
            for p, e in v.items():
                ever.setdefault(p, set()).add(e)
            for p in list(stable):
                if v.get(p) != stable[p]:
                    del stable[p]
        key = "stale" if since and len(self.views) > 1 else "missing"
        if self.cfg["links"]:
            self.judge_linked(listed, stable, excused, dirs)
            return
        for p, e in stable.items():
            if excused(p):
                continue
            # an unreadable or changing parent hides it
            if listed.get(p) != e:
                if p in listed and e[0] == "f" and listed[p][0] == "f":
                    self.violate("C17", "wrong_size", "%r listed with %r, has %r" % (
                        p, listed[p], e))
                elif p in listed:
                    self.violate("C17", "wrong_kind", repr(p))
                else:
                    newest = max([t for t, v in self.views if t <= since] or [0])
                    fresh = any(p not in v for t, v in self.views if t < since)
                    self.violate("C18" if fresh else "C17", "stale" if fresh else "missing",
                                 "%r is not listed" % p)
                return
            if e[0] == "d" and p not in dirs and not excused(p):
                self.violate("C17", "not_entered", repr(p))
                return
        for p, e in listed.items():
            if p not in ever:
                was = any(p in v for t, v in self.views)
                self.violate("C18" if was and since else "C17", "stale" if was and since else
                             "invented", "%r is listed" % p)
                return
            if e not in ever[p] and not excused(p):
                self.violate("C17", "wrong_entry", "%r listed as %r" % (p, e))
                return
        for p in dirs:
            if p and listed.get(p) != ("d",):
                self.violate("C17", "unlisted_directory", repr(p))
                return

    def judge_linked(self, listed, stable, excused, dirs):
        fs = self.k.fs
        got = set()
        for p, e in listed.items():
            n = fs.lookup(self.root + "/" + p)
            if n is None:
                if len(self.views) == 1:
                    self.violate("C17", "invented", "%r is listed" % p)
                    return
                continue
            if len(self.views) == 1 and not excused(p):
                if n.kind != e[0] or n.kind == "f" and len(n.data) != e[1]:
                    self.violate("C17", "wrong_entry", "%r listed as %r" % (p, e))
                    return
            got.add((n.kind, n.ino))
        if any(p.count("/") > 4 for p in list(listed) + list(stable)):
            return              # the depth limit may cut the ways through links
        for p, e in stable.items():
            n = fs.lookup(self.root + "/" + p)
            if n is not None and (n.kind, n.ino) not in got and not self.k.fs.fired:
                self.violate("C17", "missing", "%r is not listed under any name" % p)
                return


class Req(object):
    hostile = False

    def __init__(self, w, cl, kind, fields, cb, s):
        self.w = w
        self.cl = cl
        self.kind = kind
        self.fields = fields
        self.cb = cb
        self.s = s
        self.t_send = w.sim.now
        self.t_reply = None
        self.res = None

    def key(self):
        if self.kind == "open":
            return (self.fields[0],)
        if self.kind == "read":
            return (self.fields[0], self.fields[1], self.fields[2])
        return None

    def done(self):
        """A close was handled (the marker came back)."""
        q = self.w.queue.get(self.s.idx, [])
        if self in q:
            q.remove(self)
            self.t_reply = self.w.sim.now
            self.cb(self)


class ScanReq(object):
    def __init__(self, w, s, packet, spec):
        self.s = s
        self.packet = packet
        self.spec = spec
        self.t_send = w.sim.now
        self.t_reply = None
        self.res = None


class Client(object):
    """Sends steps one after the other, or pipelined where the protocol allows it."""

    def __init__(self, w):
        self.w = w
        self.sim = w.sim
        self.waiting = 0
        self.over = False

    def again(self, dt=0.2):
        self.sim.after(int(dt * SEC), self.go)

    def on_lost(self, r):
        pass


class Up(Client):
    def __init__(self, w, uid, spec):
        Client.__init__(self, w)
        self.uid = uid.encode()
        self.spec = spec
        self.steps = [list(s) for s in spec["steps"]]
        self.i = 0
        self.state = "closed"       # closed | open | unknown
        self.content = None
        self.learn = None           # size, {offset: byte} when the content is not known
        self.log = []

    # ---- driving
    def go(self):
        w = self.w
        if self.over or self.waiting:
            return
        if self.i >= len(self.steps):
            return
        st = self.steps[self.i]
        if st[0] == "wait":
            self.i += 1
            return self.again(st[1])
        if w.m2m.current is None:
            return self.again(0.5)
        if st[0] == "all":
            self.i += 1
            if self.state == "open":
                n = len(self.content) if self.content is not None else self.learn[0]
                self.steps[self.i:self.i] = [["read", o, st[1]] for o in
                                             range(0, min(n, 40 * st[1]) + 1, st[1])]
            return self.go()
        if st[0] == "open":
            self.i += 1
            self.waiting += 1
            w.send(self, "open", (self.uid, st[1].encode("utf-8", "surrogateescape")), self.opened,
                   path=st[1])
            return
        # reads, and the close behind them, may go out together
        while self.i < len(self.steps):
            st = self.steps[self.i]
            if st[0] not in ("read", "close"):
                break
            if self.sent == "unknown" and st[0] == "read":
                self.i += 1
                continue
            self.i += 1
            self.waiting += 1
            if st[0] == "read":
                w.send(self, "read", (self.uid, st[1], st[2]), self.read_done, after=self.sent)
            else:
                r = w.send(self, "close", (self.uid,), self.close_done)
                self.sent = "closed"
                break
            if not self.spec["pipe"]:
                break
        if not self.waiting and self.i < len(self.steps):
            self.again(0.01)

    sent = "closed"

    def answered(self):
        self.waiting -= 1
        if self.waiting == 0:
            self.again(self.spec["gap"])

    def bad(self, key, msg):
        self.w.violate("C14", key, "upload %s: %s" % (self.uid.decode(), msg))

    # ---- replies
    def versions(self, path, a, b):
        """Contents the file may have had between a and b; None stands for no file."""
        w = self.w
        p = w.root + "/" + path.lstrip("/")
        h = w.hist.get(p)
        if h is None:
            return [None]
        out = []
        for i, (t, c) in enumerate(h):
            e = h[i + 1][0] if i + 1 < len(h) else INF
            if t <= b and e >= a:
                out.append(c)
        if h[0][0] > a:
            out.insert(0, None)
        return out or [None]

    def snapshot_files(self):
        w = self.w
        out = []
        for p, e in w.outside().items():
            if p in w.outside0:
                continue
            if e[0] == "f" and _p.basename(p) == self.uid.decode():
                out.append(p)
        return out

    def opened(self, r):
        w = self.w
        size, fail, reason = r.res
        vs = self.versions(r.path, r.t_send, r.t_reply)
        faults = w.fired(r.t_send, r.t_reply)
        dev = w.k.fs.lookup("/var/tmp").dev
        if fail:
            # a refused second open may or may not have ended the first
            self.state = self.sent = "closed" if self.sent == "closed" else "unknown"
            if None not in vs and not faults and not self.low(max(len(v) for v in vs)):
                self.bad("open_refused", "%r refused: %r" % (r.path, reason))
            if w.fired(r.t_send, r.t_reply, ("unlink", "stat", "mkdir")):
                self.state = self.sent = "unknown"
            elif self.state == "closed":
                left = self.snapshot_files()
                if left:
                    self.bad("failed_open_leaves_snapshot", repr(left))
        else:
            self.state = "open"
            self.sent = "open"
            known = [v for v in vs if v is not None]
            if not known:
                self.bad("opened_missing", "%r" % r.path)
                self.learn = (size, {})
                self.content = None
            elif len(vs) == 1:
                self.content = vs[0]
                self.learn = None
                if size != len(self.content):
                    self.bad("wrong_size", "%r: size %d, the file has %d" % (
                        r.path, size, len(self.content)))
                if not faults and dev.free_bytes < MARGIN - 1000000 and \
                        w.cfg["tmpdev"] is not None and not w.kills:
                    self.bad("low_space_ignored", "%d bytes left" % dev.free_bytes)
            else:
                self.content = None
                self.learn = (size, {})
        self.answered()

    def low(self, n):
        w = self.w
        return w.cfg["tmpdev"] is not None and \
            w.k.fs.lookup("/var/tmp").dev.free_bytes < MARGIN + n + 1000000

    def read_done(self, r):
        w = self.w
        data, fail, reason = r.res
        off, size = r.fields[1], r.fields[2]
        if r.after == "closed" or off < 0:
            if not fail:
                self.bad("read_after_close" if off >= 0 else "bad_offset_served",
                         "%d bytes at %d" % (len(data), off))
        elif fail:
            if not w.fired(r.t_send, r.t_reply):
                self.bad("read_failed", "at %d: %r" % (off, reason))
        elif self.content is not None:
            want = self.content[off:off + size]
            if data != want:
                self.bad("wrong_data", "read(%d, %d) of %d bytes: %r... instead of %r..." % (
                    off, size, len(self.content), data[:30], want[:30]))
        else:
            total, got = self.learn
            if len(data) != min(size, max(0, total - off)):
                self.bad("wrong_length", "read(%d, %d) of %d bytes gave %d" % (
                    off, size, total, len(data)))
            for i in range(0, len(data), 97):
                if got.setdefault(off + i, data[i]) != data[i]:
                    self.bad("snapshot_changed", "at %d" % (off + i))
                    break
            for i in range(len(data)):
                if off + i in got and got[off + i] != data[i]:
                    self.bad("snapshot_changed", "at %d" % (off + i))
                    break
        self.answered()

    def close_done(self, r):
        w = self.w
        self.state = "closed"
        if not w.fired(r.t_send, r.t_reply):
            left = self.snapshot_files()
            if left:
                self.bad("snapshot_left", "%r after the close" % left)
        else:
            self.state = self.sent = "unknown"
        self.answered()

    def on_lost(self, r):
        """The link or the agent went away before the answer."""
        self.waiting -= 1
        if r.kind in ("open", "close"):
            self.state = "unknown"
            self.sent = "unknown"
        if r.kind == "open":
            # ask again; what is there now may be a part of the file
            self.steps[self.i:self.i] = [["open", r.path]]
        elif r.kind == "close":
            self.steps[self.i:self.i] = [["close"]]
        if self.waiting == 0:
            self.again(0.5)

    def finish(self):
        """Close for good, with nothing in the way."""
        del self.steps[self.i:]
        if self.waiting:
            self.bad("stuck", "no answer") if False else None
            return
        self.steps.append(["close"])
        self.go()

    def judge(self):
        if self.waiting == 0:
            left = self.snapshot_files()
            if left:
                self.bad("snapshot_left", "%r at the end" % left)


class Down(Client):
    def __init__(self, w, did, spec):
        Client.__init__(self, w)
        self.did = did.encode()
        self.spec = spec
        self.payload = stream("d%s" % did, max(spec["size"], 1))[:spec["size"]]
        self.alt = stream("a%s" % did, max(spec["size"], 400000))
        self.i = 0
        self.dev = b""
        self.exp = bytearray()      # what the file must hold
        self.sure = True            # no chunk failed or is uncertain
        self.attempts = []
        self.tries = 0
        self.inflight = []

    # ---- names
    def dest(self):
        return self.w.root + "/" + self.spec["path"].lstrip("/")

    def is_name(self, path):
        d = self.dest()
        if path == d:
            return True
        b, e = _p.splitext(_p.basename(d))
        if self.w.fired(0, self.sim.now, ("isdir", "stat")) and re.match(
                re.escape(self.w.root + "/" + b) + r"\(\d+\)" + re.escape(e) + "$", path):
            return True             # its directory could not be seen
        return re.match(re.escape(_p.dirname(d) + "/" + b) + r"\(\d+\)" + re.escape(e) + "$",
                        path) is not None

    def free_name(self):
        """Where it belongs, the lowest number that is free (looking before it landed)."""
        fs = self.w.k.fs
        d = self.dest()

        def taken(p):
            return p in self.w.known or (fs.lookup(p, False) is not None and
                                         fs.lookup(p, False).kind == "d")
        if not taken(d):
            return d
        b, e = _p.splitext(_p.basename(d))
        n = 1
        while taken("%s/%s(%d)%s" % (_p.dirname(d), b, n, e)):
            n += 1
        return "%s/%s(%d)%s" % (_p.dirname(d), b, n, e)

    # ---- driving
    def chunk(self, c):
        off, n = c[0], c[1]
        if len(c) > 2 or off < 0 or off > 1 << 30:
            return self.alt[:n]
        return self.payload[off:off + n]

    def go(self):
        w = self.w
        if self.over or self.inflight:
            return
        chunks = self.spec["chunks"]
        if self.i >= len(chunks):
            return
        if w.m2m.current is None:
            return self.again(0.5)
        while self.i < len(chunks):
            c = chunks[self.i]
            final = self.i == len(chunks) - 1
            if final and self.spec["abandon"]:
                self.over = True
                return
            data = self.chunk(c)
            fresh = not self.dev
            if fresh:
                self.exp = bytearray()
                self.sure = True
            if 0 <= c[0] < 1 << 30 and data:
                if len(self.exp) < c[0]:
                    self.exp.extend(b"\0" * (c[0] - len(self.exp)))
                self.exp[c[0]:c[0] + len(data)] = data
            path = self.spec["path"].encode("utf-8")
            r = w.send(self, "write", (self.did, path, self.dev, c[0], data, int(final)),
                       self.answer, n=self.i, final=final, fresh=fresh)
            self.inflight.append(r)
            r.attempt = None
            if final:
                r.attempt = Attempt(self, bytes(self.exp))
                self.attempts.append(r.attempt)
            self.i += 1
            if fresh or not self.spec["pipe"]:
                return

    def bad(self, key, msg):
        self.w.violate("C15", key, "download %s to %r: %s" % (
            self.did.decode(), self.spec["path"], msg))

    def answer(self, r):
        w = self.w
        if r in self.inflight:
            self.inflight.remove(r)
        pos, size, dev, fail, reason = r.res
        off = r.fields[3]
        if not fail:
            if off < 0:
                self.bad("bad_offset_stored", "offset %d" % off)
            if not dev:
                self.bad("no_device_path", "")
            if r.fresh:
                self.dev = dev
            elif dev != r.fields[2]:
                self.bad("device_path_changed", "%r to %r" % (r.fields[2], dev))
            if r.final:
                self.stored(r)
        else:
            ok = w.fired(r.t_send, r.t_reply) or off < 0 or off > 1 << 30 or not self.sure
            if r.final and not w.k.fs.lookup(_p.dirname(self.dest())):
                ok = True
            if any(a.lost for a in self.attempts):
                ok = True               # an earlier final chunk may have been stored
            if not ok:
                self.bad("refused", "chunk at %d: fail %d %r" % (off, fail, reason))
            if r.final and r.attempt.landing is not None:
                self.bad("stored_but_failed", "%r" % reason)
            self.sure = False
            if not self.inflight:
                self.restart()
            return
        if not self.inflight:
            self.again(self.spec["gap"])

    def restart(self):
        self.dev = b""
        self.i = 0
        self.tries += 1
        if self.tries > self.spec["retry"]:
            self.over = True
            return
        self.again(0.3)

    def stored(self, r):
        self.over = True
        a = r.attempt
        a.acked = True
        if a.landing is None:
            for d in self.w.dls:
                for b in d.attempts:
                    if b.landing is not None and not b.acked and b.landing[2] == a.exp and \
                            self.is_name(b.landing[1]) and a.landing is None:
                        a.landing, b.landing = b.landing, None
        if a.landing is None:
            self.bad("not_there", "acknowledged, but no new file")
            return
        if self.sure:
            a.check()

    def on_lost(self, r):
        if r not in self.inflight:
            return
        self.inflight.remove(r)
        if r.final:
            # it may have been stored, or may yet be
            r.attempt.lost = self.sure
            if r.attempt.landing is not None:
                self.over = True
                return
        if r.fresh:
            self.i = 0
            self.dev = b""
        else:
            self.i = min(self.i, r.n)
        if not self.inflight:
            self.again(0.5)

    def judge(self):
        for a in self.attempts:
            if a.lost and a.landing is not None:
                a.check()


class Attempt(object):
    """A final chunk that was sent."""
    acked = False
    lost = False                # no answer to it was seen
    landing = None              # (time, path, content) of the file that appeared

    def __init__(self, d, exp):
        self.d = d
        self.exp = exp
        self.t = d.sim.now

    def check(self):
        t, path, data = self.landing
        exp = self.exp
        if data != exp:
            n = next((i for i in range(min(len(data), len(exp))) if data[i] != exp[i]),
                     min(len(data), len(exp)))
            self.d.bad("wrong_content", "%s has %d bytes, expected %d; differs at %d" % (
                path, len(data), len(exp), n))


class Fetch(Client):
    """Opens and reads the listing."""
    seq = 0

    def __init__(self, w, chunk):
        Client.__init__(self, w)
        w.nfetch = getattr(w, "nfetch", 0) + 1
        self.uid = b"list-%d" % w.nfetch
        self.chunk = chunk
        self.data = bytearray()

    def go(self):
        if self.w.m2m.current is None:
            return
        self.t_open = self.sim.now
        self.w.send(self, "open", (self.uid, b"\0scan.json"), self.opened)

    def opened(self, r):
        w = self.w
        size, fail, reason = r.res
        self.t_reply = self.sim.now
        if fail:
            if any(q.res == b"" and q.t_reply <= r.t_send and q.packet for q in w.scans) and \
                    not w.fired(r.t_send, r.t_reply) and w.cfg["tmpdev"] is None:
                w.violate("C18", "no_listing", "cannot be opened: %r" % reason)
            return
        self.size = size
        self.next()

    def next(self):
        chunk = max(self.chunk, self.size // 40 + 1)
        self.w.send(self, "read", (self.uid, len(self.data), chunk), self.got)

    def got(self, r):
        data, fail, reason = r.res
        w = self.w
        if fail:
            if not w.fired(r.t_send, r.t_reply):
                w.violate("C14", "read_failed", "listing at %d: %r" % (r.fields[1], reason))
            return
        self.data += data
        if len(self.data) >= self.size or not data:
            if len(self.data) != self.size:
                w.violate("C14", "wrong_length", "listing: %d of %d bytes" % (
                    len(self.data), self.size))
                return
            w.listings.append((self.t_open, self.t_reply, bytes(self.data)))
            w.sim.probe("listings")
            w.send(self, "close", (self.uid,), lambda r: None)
            return
        self.next()


class Hostile(Client):
    def __init__(self, w, spec):
        Client.__init__(self, w)
        self.spec = spec

    def go(self):
        w = self.w
        s = w.m2m.current
        if s is None:
            return
        k, path, uid, dev, final, n = self.spec
        e = lambda x: x.encode("utf-8")
        w.nhost = getattr(w, "nhost", 0) + 1
        me = "host-%d" % w.nhost
        w.sim.fault("hostile_request")
        data = stream("h" + me, n) if n else b""
        if k == "open":
            w.send(self, "open", (e(me), e(path)), self.must_fail, hostile=True)
        elif k == "oddopen":
            def opened(r):
                if not r.res[1]:
                    w.send(self, "read", (e(me), 0, 1000), lambda r: w.send(
                        self, "close", (e(me),), lambda r: None, hostile=True), hostile=True)
            w.send(self, "open", (e(me), e(path)), opened, hostile=True)
        elif k == "oddwrite":
            w.odd_data.add(data or b"x")
            w.send(self, "write", (e(me), e(path), b"", 0, data or b"x", 1), lambda r: None,
                   hostile=True)
        elif k == "openid":
            f = [f for f, v in w.hist.items() if v[-1][1] is not None]
            p = f[0][len(w.root):] if f else "missing"
            w.send(self, "open", (e(uid), e(p) if "\udcff" not in p else b"x"), self.must_fail,
                   hostile=True)
        elif k == "read":
            w.send(self, "read", (e(uid), 0, 1000), self.must_fail, hostile=True)
        elif k == "close":
            w.send(self, "close", (e(uid),), lambda r: None, hostile=True)
        elif k == "wid":
            w.send(self, "write", (e(uid), e(me), b"", 0, data, int(final)), self.must_fail_w,
                   hostile=True)
        elif k == "wdev":
            w.send(self, "write", (e(me), e(me), e(dev), 0, data or b"x", 0), self.must_fail_w,
                   hostile=True)
        elif k == "wdevfinal":
            w.send(self, "write", (e(me), e(me), e(dev), 0, data, 1), self.must_fail_w, hostile=True)
        elif k == "wsnap":
            # somebody's snapshot or unfinished download by its full name
            own = sorted(p for p, x in w.outside().items()
                         if p not in w.outside0 and x[0] == "f" and p.startswith("/var/tmp/"))
            own = [p for p in own if _p.basename(p).startswith(("up-", "list-"))]
            if not own:
                return
            w.send(self, "write", (e(me), e(me), e(own[n % len(own)]), 0, data or b"x", int(final)),
                   self.must_fail_w, hostile=True)
        else:
            w.send(self, "write", (e(me), e(path), b"", 0, data or b"x", 1), self.must_fail_w,
                   hostile=True)

    def must_fail(self, r):
        fail = r.res[1]
        if not fail:
            self.w.violate("C16", "obeyed:" + self.spec[0], "%r was answered with success" % (
                r.fields,))

    def must_fail_w(self, r):
        if not r.res[3]:
            self.w.violate("C16", "obeyed:" + self.spec[0], "%r was answered with success" % (
                r.fields[:4],))
