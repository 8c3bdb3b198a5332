"""An independent model of the m2m server: websocket, deflate, bencode, packets.

Shares no code with the agent or with lomond.
"""
import base64
import hashlib
import struct
import zlib

from . import core
from .core import SEC, MS, US
from .kernel import Listener

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

T = dict(null=0, request_join=1, request_identify=2, welcome=3, log=4, request_send=5, route=6,
         ping=7, pong=8, set_identity=9, request_open=10, request_close=11, request_close_all=12,
         keep_alive=13, notify_open=14, request_login=15, instruction=16, notify_login_success=17,
         notify_login_fail=18, notify_close=19, request_leave=20, route_control=21,
         request_send_control=22, open_remote_file=24, open_remote_file_result=25,
         close_remote_file=26, read_remote_file=27, read_remote_file_result=28,
         scan_remote_directory=29, scan_remote_directory_result=30, write_remote_file=31,
         write_remote_file_result=32, response=100, command_add_route=101,
         command_send_instruction=102)
NAME = {v: k for k, v in T.items()}

# what the server accepts from an agent: name -> types of the fields
FROM_AGENT = {
    "request_join": (), "request_identify": (bytes,), "request_send": (int, bytes),
    "pong": (bytes,), "request_close": (int,), "request_send_control": (int, bytes),
    "keep_alive": (), "request_leave": (), "request_login": (bytes, bytes),
    "open_remote_file_result": (bytes, int, int, bytes),
    "read_remote_file_result": (bytes, int, int, bytes, int, bytes),
    "scan_remote_directory_result": (bytes,),
    "write_remote_file_result": (bytes, int, int, bytes, int, bytes),
}


# ------------------------------------------------------------------ bencode
class BadBencode(Exception):
    pass


def benc(o):
    if isinstance(o, bool):
        raise TypeError(o)
    if isinstance(o, int):
        return b"i%de" % o
    if isinstance(o, str):
        o = o.encode("utf-8")
    if isinstance(o, (bytes, bytearray)):
        return b"%d:" % len(o) + bytes(o)
    if isinstance(o, (list, tuple)):
        return b"l" + b"".join(benc(x) for x in o) + b"e"
    if isinstance(o, dict):
        items = sorted((k.encode("utf-8") if isinstance(k, str) else k, v) for k, v in o.items())
        return b"d" + b"".join(benc(k) + benc(v) for k, v in items) + b"e"
    raise TypeError(o)


def bdec(data):
    o, p = _bdec(data, 0)
    if p != len(data):
        raise BadBencode("trailing data")
    return o


def _bdec(d, p):
    c = d[p:p + 1]
    if c == b"i":
        e = d.find(b"e", p)
        if e < 0:
            raise BadBencode("int")
        try:
            return int(d[p + 1:e]), e + 1
        except ValueError:
            raise BadBencode("int")
    if c == b"l":
        out = []
        p += 1
        while True:
            if d[p:p + 1] == b"e":
                return out, p + 1
            v, p = _bdec(d, p)
            out.append(v)
    if c == b"d":
        out = {}
        p += 1
        while True:
            if d[p:p + 1] == b"e":
                return out, p + 1
            k, p = _bdec(d, p)
            if not isinstance(k, bytes):
                raise BadBencode("key")
            v, p = _bdec(d, p)
            out[k] = v
    if c.isdigit():
        e = d.find(b":", p)
        if e < 0 or not d[p:e].isdigit():
            raise BadBencode("size")
        n = int(d[p:e])
        if e + 1 + n > len(d):
            raise BadBencode("short string")
        return d[e + 1:e + 1 + n], e + 1 + n
    raise BadBencode("type %r" % c)


def mask(key, data):
    if not data:
        return b""
    n = len(data)
    k = (key * (n // 4 + 1))[:n]
    return (int.from_bytes(data, "big") ^ int.from_bytes(k, "big")).to_bytes(n, "big")


# ------------------------------------------------------------------ channels
class Use(object):
    """One use of a channel number, as the server sees it."""

    def __init__(self, sess, number, kind):
        self.sess = sess
        self.number = number
        self.kind = kind
        self.t_open = sess.sim.now
        self.rx = bytearray()           # data from the agent
        self.chunks = []                # (t, len)
        self.ctrl = []                  # (t, bytes)
        self.tx = bytearray()           # data routed to the agent
        self.tx_ctrl = []
        self.close_req = []             # times of request_close
        self.t_close = None             # notify_close sent
        self.close_acked = None         # the agent is known to have seen it
        self.closed_by = None
        self.late = []                  # (t, kind, data) after close_acked
        self.after_close = 0            # packets between t_close and ack
        self.info = {}
        self.on_data = None
        self.on_close_req = None

    def __repr__(self):
        return "<use %s #%d s%d>" % (self.kind, self.number, self.sess.idx)

    @property
    def open(self):
        return self.t_close is None and self.sess.alive

    def send(self, data):
        self.tx.extend(data)
        self.sess.packet("route", self.number, bytes(data))

    def control(self, data):
        self.tx_ctrl.append(bytes(data))
        self.sess.packet("route_control", self.number, bytes(data))

    def close(self, by="server"):
        if self.t_close is None and self.sess.alive:
            self.t_close = self.sess.sim.now
            self.closed_by = by
            self.sess.packet("notify_close", self.number)
            self.sess.marker(lambda: self._acked())

    def _acked(self):
        self.close_acked = self.sess.sim.now


class Session(object):
    """One TCP connection accepted by the m2m server."""

    def __init__(self, srv, end, idx, plan):
        self.srv = srv
        self.sim = srv.sim
        self.end = end
        self.idx = idx
        self.plan = plan                # dict: faults of this connection
        self.buf = bytearray()
        self.state = "http"
        self.t_accept = self.sim.now
        self.t_ready = None
        self.t_join = None
        self.t_end = None
        self.end_why = None
        self.alive = True               # server's point of view
        self.sendable = True
        self.packets = []               # (t, name, fields)
        self.errors = []                # protocol errors by the agent
        self.identity = None
        self.uses = {}                  # number -> current Use
        self.all_uses = []
        self.joins = 0
        self.inflate = None
        self.deflate = None
        self.frag = None
        self.frames_in = 0
        self.markers = {}
        self.marker_seq = 0
        self.pings = []                 # (t_sent, data, marker?)
        self.pongs = []                 # (t, data)
        self.out = bytearray()
        self.sent_packets = 0
        self.handshake_headers = None
        self.mute_pong = False
        self.close_frame = None
        self.rx_bytes = 0
        self.frozen = False             # the server stopped reading
        end.actor = self

    # ---- transport
    def on_data(self, end, data):
        self.rx_bytes += len(data)
        self.buf.extend(data)
        try:
            self._parse()
        except core.HarnessGap:
            raise

    def on_fin(self, end):
        self._ended("fin from agent")
        end.app_close()

    def on_rst(self, end):
        self._ended("reset")

    def on_writable(self, end):
        self._flush()

    def _ended(self, why):
        if self.alive:
            self.alive = False
            self.t_end = self.sim.now
            self.end_why = why
            self.sim.log("m2m_end", self.idx, why)
            self.srv.session_ended(self)

    def error(self, what):
        self.errors.append((self.sim.now, what))
        self.sim.log("m2m_protocol_error", self.idx, what)
        self.srv.world.on_protocol_error(self, what)

    def write(self, data):
        if not self.alive or not self.sendable:
            return
        self.out.extend(data)
        self._flush()

    def _flush(self):
        while self.out and self.alive:
            n = min(len(self.out), self.end.sendable())
            if n <= 0:
                return
            if self.end.rst or self.end.fin_sent:
                return
            self.end.push(bytes(self.out[:n]))
            del self.out[:n]
            if self.end.pumping is None:
                self.end._sched()

    def reset(self):
        """RST from the server."""
        if self.alive:
            self.end.abort()
            self._ended("server reset")

    def fin(self):
        if self.alive:
            self.end.shut_write()
            self._ended("server closed")
            # the agent's remaining data is discarded (a server that is done does not leave the
            # connection congested)
            self.end.actor = Sink()
            if not self.frozen:
                self.end.unpause()

    def vanish(self, how="blackhole"):
        """The path or the server disappears without a word."""
        if self.alive:
            self.end.gone = how         # 'blackhole' or 'reboot'
            self._ended("vanished (%s)" % how)

    def stop_answering(self):
        """Connection stays up at TCP level, server application hangs."""
        self.frozen = True
        self.end.paused = True

    # ---- handshake
    def _parse(self):
        if self.state == "http":
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                return
            head = bytes(self.buf[:i])
            del self.buf[:i + 4]
            self._handshake(head)
        if self.state == "ws":
            self._frames()

    def _handshake(self, head):
        lines = head.split(b"\r\n")
        hd = {}
        for l in lines[1:]:
            k, _, v = l.partition(b":")
            hd[k.strip().lower()] = v.strip()
        self.handshake_headers = hd
        self.request_line = lines[0]
        hs = self.plan.get("hs", "ok")
        delay = self.plan.get("hs_delay", 0)
        if hs == "stall":
            self.state = "dead"
            self.sim.fault("handshake_stall")
            return
        self.state = "wait"
        self.sim.after(int(delay * SEC), self._answer, hd, hs)

    def _answer(self, hd, hs):
        if not self.alive:
            return
        if hs != "ok":
            self.sim.fault("handshake_" + hs)
        key = hd.get(b"sec-websocket-key", b"")
        acc = base64.b64encode(hashlib.sha1(key + GUID).digest())
        if hs in ("500", "403", "302"):
            code = {"500": b"500 Internal Server Error", "403": b"403 Forbidden",
                    "302": b"302 Found"}[hs]
            self.write(b"HTTP/1.1 " + code + b"\r\nContent-Length: 0\r\n\r\n")
            self.state = "dead"
            if self.plan.get("hs_close", True):
                self.sim.after(50 * MS, self.fin)
            return
        if hs == "badaccept":
            acc = base64.b64encode(hashlib.sha1(b"x" + key).digest())
        if hs == "garbage":
            self.write(b"\x00\x01\x02garbage\r\n\r\n" * 3)
            self.state = "dead"
            self.sim.after(50 * MS, self.fin)
            return
        if hs == "close":
            self.fin()
            return
        if hs == "reset":
            self.reset()
            return
        resp = (b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\n"
                b"Connection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n")
        comp = self.plan.get("compress")
        if comp is not None and b"permessage-deflate" in hd.get(b"sec-websocket-extensions", b""):
            ext = b"permessage-deflate"
            for o in comp.get("opts", ()):
                ext += b"; " + o
            resp += b"Sec-WebSocket-Extensions: " + ext + b"\r\n"
            self.comp = comp
            self._new_inflate()
            self._new_deflate()
        if hs == "partial":
            self.write(resp[:40])
            self.sim.after(200 * MS, self.reset)
            self.state = "dead"
            return
        if hs == "ok":
            self.srv.world.on_upgrade(self)
        self.write(resp + b"\r\n")
        if hs == "badaccept":
            self.state = "dead"
            return
        self.state = "ws"
        self.t_ready = self.sim.now
        self.sim.log("m2m_ready", self.idx)
        if self.buf:
            self._frames()

    def _new_inflate(self):
        self.inflate = zlib.decompressobj(-self.comp.get("cbits", 15))

    def _new_deflate(self):
        self.deflate = zlib.compressobj(6, zlib.DEFLATED, -self.comp.get("sbits", 15))

    # ---- frames in
    def _frames(self):
        b = self.buf
        while self.state == "ws" and self.alive:
            if len(b) < 2:
                return
            b0, b1 = b[0], b[1]
            ln = b1 & 0x7f
            p = 2
            if ln == 126:
                if len(b) < 4:
                    return
                ln = struct.unpack(">H", bytes(b[2:4]))[0]
                p = 4
            elif ln == 127:
                if len(b) < 10:
                    return
                ln = struct.unpack(">Q", bytes(b[2:10]))[0]
                p = 10
            if not b1 & 0x80:
                self.error("unmasked frame")
                self.state = "broken"
                return
            op = b0 & 15
            if b0 & 0x30 or op not in (0, 1, 2, 8, 9, 10) or ln > (1 << 27):
                self.error("bad frame header %02x %02x" % (b0, b1))
                self.state = "broken"
                return
            if len(b) < p + 4 + ln:
                return
            key = bytes(b[p:p + 4])
            payload = mask(key, bytes(b[p + 4:p + 4 + ln]))
            del b[:p + 4 + ln]
            self.frames_in += 1
            self._frame(b0 >> 7, (b0 >> 6) & 1, op, payload)

    def _frame(self, fin, rsv1, op, payload):
        if op >= 8:
            if not fin or len(payload) > 125 or rsv1:
                self.error("bad control frame")
                self.state = "broken"
                return
            if op == 8:
                self.close_frame = payload
                self.sim.log("m2m_close_frame", self.idx)
                self.send_frame(8, payload[:2])
                self.sim.after(20 * MS, self.fin)
            elif op == 9:
                if not self.mute_pong:
                    self.send_frame(10, payload)
            return
        if op == 0:
            if self.frag is None:
                self.error("unexpected continuation")
                self.state = "broken"
                return
            self.frag[2].append(payload)
        else:
            if self.frag is not None:
                self.error("interleaved message")
                self.state = "broken"
                return
            self.frag = [op, rsv1, [payload]]
        if not fin:
            return
        op, rsv1, parts = self.frag
        self.frag = None
        data = b"".join(parts)
        if rsv1:
            if self.inflate is None:
                self.error("compressed frame without agreement")
                self.state = "broken"
                return
            try:
                data = self.inflate.decompress(data + b"\x00\x00\xff\xff")
            except zlib.error as e:
                self.error("undecompressible frame")
                self.state = "broken"
                return
            if self.comp.get("c_reset"):
                self._new_inflate()
        if op == 1:
            self.error("text message")
            return
        self._message(data)

    def _message(self, data):
        try:
            p = bdec(data)
        except (BadBencode, RecursionError):
            self.error("undecodable packet %r" % data[:60])
            return
        if not isinstance(p, list) or not p or not isinstance(p[0], int):
            self.error("badly formed packet %r" % (p,))
            return
        name = NAME.get(p[0])
        spec = FROM_AGENT.get(name)
        if spec is None or len(p) - 1 != len(spec) or \
                not all(isinstance(v, t) for v, t in zip(p[1:], spec)):
            self.error("unexpected packet %s %r" % (name, p[1:]))
            return
        self.packets.append((self.sim.now, name, p[1:]))
        self.sim.log("<", self.idx, name, *[_brief(x) for x in p[1:]])
        self._handle(name, p[1:])
        self.srv.world.on_packet(self, name, p[1:])

    def _handle(self, name, f):
        now = self.sim.now
        if name in ("request_join", "request_identify"):
            self.joins += 1
            if self.t_join is None:
                self.t_join = now
                self.identity = self.srv.new_identity()
                if not self.plan.get("no_identity"):
                    self.sim.after(int(self.plan.get("join_delay", 0) * SEC), self._joined)
        elif name == "pong":
            self.pongs.append((now, f[0]))
            fn = self.markers.pop(f[0], None)
            if fn is not None:
                fn()
        elif name in ("request_send", "request_send_control", "request_close"):
            use = self.uses.get(f[0])
            if use is None:
                self.srv.world.on_stray(self, name, f)
                return
            if use.close_acked is not None:
                use.late.append((now, name, f[1] if len(f) > 1 else b""))
                self.srv.world.on_late(use, name, f)
                return
            if use.t_close is not None:
                use.after_close += 1
            if name == "request_send":
                use.rx.extend(f[1])
                use.chunks.append((now, len(f[1])))
                if use.on_data is not None:
                    use.on_data(use, f[1])
            elif name == "request_send_control":
                use.ctrl.append((now, f[1]))
            else:
                use.close_req.append(now)
                if use.on_close_req is not None:
                    use.on_close_req(use)
                if use.t_close is None and not self.plan.get("ignore_close"):
                    self.sim.after(self.sim.logdur("m2m.close", 10 * US, 50 * MS),
                                   self._close_use, use)

    def _close_use(self, use):
        if self.alive:
            use.close("agent")

    def _joined(self):
        if not self.alive:
            return
        self.assign(self.identity)
        self.packet("welcome")
        self.srv.world.on_joined(self)

    def assign(self, ident):
        self.identity = ident
        self.packet("set_identity", ident)
        self.srv.world.on_assign(self, ident)

    # ---- frames out
    def send_frame(self, op, payload, fin=1, rsv1=0):
        n = len(payload)
        h = bytearray([fin << 7 | rsv1 << 6 | op])
        if n < 126:
            h.append(n)
        elif n < 65536:
            h.append(126)
            h += struct.pack(">H", n)
        else:
            h.append(127)
            h += struct.pack(">Q", n)
        self.write(bytes(h) + payload)

    def message(self, data):
        """A binary message, possibly compressed and fragmented."""
        if not self.alive or self.state != "ws":
            return
        sim = self.sim
        rsv1 = 0
        if self.deflate is not None and sim.chance("ws.compress", 0.8):
            data = (self.deflate.compress(data) + self.deflate.flush(zlib.Z_SYNC_FLUSH))[:-4]
            rsv1 = 1
            if self.comp.get("s_reset"):
                self._new_deflate()
        self.sent_packets += 1
        if len(data) > 1 and sim.chance("ws.frag", self.plan.get("frag_p", 0.05)):
            cut = 1 + sim.choose("ws.cut", len(data) - 1)
            self.send_frame(2, data[:cut], fin=0, rsv1=rsv1)
            if sim.chance("ws.midping", 0.3):
                self.send_frame(9, b"mid")
            self.send_frame(0, data[cut:], fin=1)
        else:
            self.send_frame(2, data, rsv1=rsv1)

    def packet(self, name, *fields):
        if not self.alive:
            return
        self.sim.log(">", self.idx, name, *[_brief(x) for x in fields])
        self.message(benc([T[name]] + list(fields)))

    def ping(self, data):
        self.pings.append((self.sim.now, data))
        self.packet("ping", data)

    def marker(self, fn):
        """fn() runs when the agent has handled everything sent so far."""
        self.marker_seq += 1
        d = b"\xffmark-%d-%d" % (self.idx, self.marker_seq)
        self.markers[d] = fn
        self.ping(d)

    # ---- instructions
    def instruct(self, **data):
        self.packet("instruction", b"hub", {k.replace("_", "-") if k in () else k: v
                                            for k, v in data.items()})

    def open_use(self, number, kind):
        use = Use(self, number, kind)
        self.uses[number] = use
        self.all_uses.append(use)
        return use


class Sink(object):
    def on_data(self, end, data):
        pass

    def on_fin(self, end):
        end.app_close()

    def on_rst(self, end):
        pass

    def on_writable(self, end):
        pass


def _brief(x):
    if isinstance(x, (bytes, bytearray)) and len(x) > 48:
        return "%r..%d#%08x" % (bytes(x[:16]), len(x), zlib.crc32(bytes(x)))
    return x


class M2MServer(Listener):
    def __init__(self, world, link):
        Listener.__init__(self, world.k, link)
        self.world = world
        self.sim = world.sim
        self.sessions = []
        self.attempts = []          # (t, verdict)
        self.ident_seq = 0
        self.up = True
        self.plan_for = None        # callback(idx) -> plan dict
        self.verdict_for = None     # callback(n) -> verdict
        self.default_plan = {}
        self.same_identity = False

    def decide(self):
        n = len(self.attempts)
        v = "accept"
        if not self.up:
            v = "refuse"
        elif self.verdict_for is not None:
            v = self.verdict_for(n)
        self.attempts.append((self.sim.now, v))
        return v

    def accepted(self, end):
        idx = len(self.sessions)
        plan = self.plan_for(idx) if self.plan_for is not None else self.default_plan
        s = Session(self, end, idx, plan)
        self.sessions.append(s)
        self.sim.log("m2m_accept", idx)
        self.world.on_session(s)

    def session_ended(self, s):
        self.world.on_session_end(s)

    def new_identity(self):
        if self.same_identity and self.ident_seq:
            return b"ident-0001"
        self.ident_seq += 1
        return b"ident-%04d" % self.ident_seq

    @property
    def current(self):
        for s in reversed(self.sessions):
            if s.alive and s.t_join is not None and s.identity is not None:
                return s
        return None
