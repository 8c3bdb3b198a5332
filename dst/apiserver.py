"""Model of the JSON-RPC API server, standing in behind urllib's urlopen."""
import errno
import http.client
import io
import json
import socket as _rs
import urllib.error

from . import core
from .core import SEC, MS, US


class Req(object):
    __slots__ = ("n", "t0", "t1", "calls", "single", "kind", "applied", "outcome", "results",
                 "errors", "raw", "incarnation", "task", "authed", "timeout", "methods", "phase",
                 "url", "bad", "body")

    def acked(self, ids=None):
        """What the agent can know once the request is over: True, False or None (the
        reply contradicts itself)."""
        if self.outcome != "delivered":
            return False
        try:
            resp = json.loads(self.body.decode("utf-8"))
        except ValueError:
            return False
        if not isinstance(resp, list):
            return False
        if ids is None:
            ids = [c.get("id") for c in self.calls]
        ok = {}
        odd = False
        for e in resp:
            if not isinstance(e, dict):
                odd = True
                continue
            i = e.get("id")
            if isinstance(i, (list, dict)):
                odd = True
                continue
            if "result" not in e and "error" not in e:
                odd = True
                continue
            good = "error" not in e
            if i not in [c.get("id") for c in self.calls]:
                odd = True
                continue
            if ok.get(i, good) != good:
                odd = True
            ok[i] = good
        if not all(ok.get(i) for i in ids):
            return False
        return None if odd else True

    def call(self, method):
        for c in self.calls:
            if c.get("method") == method:
                return c
        return None

    def __repr__(self):
        return "<req %d %s %s %s>" % (self.n, [c.get("method") for c in self.calls], self.kind,
                                      self.outcome)


class Resp(object):
    def __init__(self, api, req, body, mode):
        self.api = api
        self.req = req
        self.body = body
        self.mode = mode
        self.pos = 0
        self.status = self.code = 200
        self.headers = {}
        self.closed = False
        self.msg = "OK"
        self.reason = "OK"

    def read(self, n=None):
        sim = self.api.sim
        self.api.k.seam("urlread", "")
        if self.closed:
            return b""
        d = self.api.read_delay(self.req)
        to = self.req.timeout
        if self.mode == "read_hang":
            sim.fault("api_read_hang")
            self.api._hang(to)
            self.req.outcome = "timeout"
            self.req.t1 = sim.now
            raise _rs.timeout("The read operation timed out")
        if d:
            sim.park(d, "api body")
        if self.mode == "read_reset":
            sim.fault("api_read_reset")
            self.req.outcome = "reset"
            self.req.t1 = sim.now
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if self.mode == "incomplete":
            sim.fault("api_incomplete_body")
            cut = max(0, len(self.body) // 2)
            self.req.outcome = "incomplete"
            self.req.t1 = sim.now
            raise http.client.IncompleteRead(self.body[:cut], len(self.body) - cut)
        if n is None or n < 0:
            out = self.body[self.pos:]
        else:
            out = self.body[self.pos:self.pos + n]
        self.pos += len(out)
        if self.pos >= len(self.body) and self.req.outcome == "pending":
            self.req.outcome = "delivered"
            self.req.t1 = sim.now
        return out

    def __iter__(self):
        return iter(io.BytesIO(self.read()))

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def getcode(self):
        return 200

    def info(self):
        return self.headers

    def geturl(self):
        return self.api.url

    def getheader(self, name, default=None):
        return default


class ApiServer(object):
    def __init__(self, world, url):
        self.world = world
        self.sim = world.sim
        self.k = world.k
        self.url = url
        self.reqs = []
        self.plan_for = None        # callback(req) -> plan dict
        self.up = True
        self.serial = world.serial
        self.token = world.token
        self.identity = None
        self.tags = None
        self.meta = {}
        self.disk = []
        self.hung = []
        self.delay = (2 * MS, 300 * MS)
        self.inflight = {}

    def read_delay(self, req):
        return 0

    def _hang(self, timeout):
        """Block the caller for `timeout` seconds, or until the run ends."""
        t = self.sim.cur
        if timeout is None:
            self.hung.append(t)
            self.sim.probe("request_without_timeout_hangs")
            self.sim.park(None, "api hang")
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self.sim.park(int(timeout * SEC), "api hang")

    def http(self, mods, url, data, headers, method, timeout):
        sim = self.sim
        r = Req()
        r.n = len(self.reqs)
        r.t0 = sim.now
        r.t1 = None
        r.url = url
        r.timeout = timeout
        r.incarnation = self.world.incarnation
        r.task = sim.cur
        r.outcome = "pending"
        r.applied = False
        r.results = {}
        r.errors = {}
        r.raw = data
        r.kind = "ok"
        r.authed = False
        r.phase = None
        r.bad = None
        r.body = None
        r.methods = []
        try:
            body = json.loads((data or b"").decode("utf-8"))
        except ValueError:
            body = None
            r.bad = "request is not JSON"
        r.single = isinstance(body, dict)
        r.calls = body if isinstance(body, list) else [body] if r.single else []
        r.methods = [c.get("method") for c in r.calls]
        self.reqs.append(r)
        plan = self.plan_for(r) if self.plan_for is not None else {}
        if not self.up:
            plan = {"kind": "refuse"}
        kind = r.kind = plan.get("kind", "ok")
        sim.log("api>", r.n, kind, r.methods)
        if kind != "ok":
            sim.fault("api_" + kind)
        self.world.on_request(r)
        try:
            return self._serve(r, plan, kind, timeout, url)
        finally:
            if r.outcome != "pending" and r.t1 is None:
                r.t1 = sim.now
            sim.log("api<", r.n, r.outcome)

    def _serve(self, r, plan, kind, timeout, url):
        sim = self.sim
        # connecting
        if kind == "dns":
            sim.park(sim.logdur("api.dns", 1 * MS, 4 * SEC), "api dns")
            r.outcome = "dns"
            raise urllib.error.URLError(_rs.gaierror(-3, "Temporary failure in name resolution"))
        if kind == "refuse":
            sim.park(sim.logdur("api.conn", 1 * MS, 100 * MS), "api connect")
            r.outcome = "refused"
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED,
                                                               "Connection refused"))
        if kind == "unreach":
            r.outcome = "unreach"
            raise urllib.error.URLError(OSError(errno.ENETUNREACH, "Network is unreachable"))
        if kind == "conn_hang":
            if timeout is not None and timeout < 127:
                self._hang(timeout)
                r.outcome = "timeout"
                raise urllib.error.URLError(_rs.timeout("timed out"))
            self._hang(127)
            r.outcome = "timeout"
            raise urllib.error.URLError(TimeoutError(errno.ETIMEDOUT, "Connection timed out"))
        d = plan.get("delay")
        if d is None:
            d = sim.logdur("api.delay", *self.delay)
        else:
            d = int(d * SEC)
        if timeout is not None and d > timeout * SEC:
            # the server is slower than the client's patience
            if plan.get("apply", True):
                sim.after(d // 2, self._apply_late, r, plan)
            sim.park(int(timeout * SEC), "api slow")
            sim.probe("api_client_timeout")
            r.outcome = "timeout"
            raise _rs.timeout("The read operation timed out")
        sim.park(d // 2, "api request")
        if kind == "reset":
            if plan.get("apply"):
                self.apply(r, plan)
            r.outcome = "reset"
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if kind == "remote_closed":
            if plan.get("apply"):
                self.apply(r, plan)
            r.outcome = "closed"
            raise http.client.RemoteDisconnected("Remote end closed connection without response")
        if kind == "badstatus":
            r.outcome = "badstatus"
            raise http.client.BadStatusLine("\x16\x03\x01")
        if kind == "hang":
            if plan.get("apply"):
                self.apply(r, plan)
            self._hang(timeout)
            r.outcome = "timeout"
            raise _rs.timeout("The read operation timed out")
        if kind == "http":
            if plan.get("apply"):
                self.apply(r, plan)
            sim.park(d - d // 2, "api reply")
            r.outcome = "http"
            code = plan.get("code", 500)
            raise urllib.error.HTTPError(url, code, "Error %d" % code, {}, io.BytesIO(b"oops"))
        resp = self.apply(r, plan)
        sim.park(d - d // 2, "api reply")
        obj = resp if not r.single else (resp[0] if resp else {})
        mode = kind if kind in ("read_hang", "read_reset", "incomplete") else None
        if kind == "body":
            body = self.mutate(r, resp, plan)
        else:
            body = json.dumps(obj).encode("utf-8")
        r.body = body
        return Resp(self, r, body, mode)

    def _apply_late(self, r, plan):
        if not r.applied:
            self.apply(r, plan)

    # ------------------------------------------------------------- semantics
    def apply(self, r, plan):
        """Carry out the calls; returns the list of response entries."""
        r.applied = True
        out = []
        errs = plan.get("errors", {})       # method -> error object
        drop = plan.get("drop", ())         # methods without an entry
        for c in r.calls:
            m = c.get("method")
            p = c.get("params", {})
            cid = c.get("id")
            err = errs.get(m)
            res = None
            if err is None:
                if m == "device.check_auth":
                    if p.get("serial") == self.serial and p.get("auth_token") == self.token and \
                            p.get("device_class") == "tuxtunnel":
                        r.authed = True
                        res = True
                    else:
                        err = {"code": 1, "message": "auth failed"}
                elif not r.authed and not plan.get("auth_optional"):
                    err = {"code": 2, "message": "not authenticated"}
                else:
                    res = self._do(m, p, r)
            if cid is None:
                continue
            if err is not None:
                e = dict(jsonrpc="2.0", id=cid, error=err)
                r.errors[cid] = err
                if m not in drop:
                    out.append(e)
            else:
                if m not in drop:
                    r.results[cid] = res
                    out.append(dict(jsonrpc="2.0", id=cid, result=res))
        self.world.on_applied(r)
        order = plan.get("order", 0)
        if order == 1:
            out.reverse()
        elif order == 2 and len(out) > 1:
            out = out[1:] + out[:1]
        if plan.get("extra"):
            out.insert(len(out) // 2, dict(jsonrpc="2.0", id="something_else", result=True))
        if plan.get("extra_err"):
            out.append(dict(jsonrpc="2.0", id="unknown_call",
                            error={"code": -32603, "message": "what?"}))
        if plan.get("noid_err"):
            out.append(dict(jsonrpc="2.0", id=None, error={"code": -32600,
                                                           "message": "Invalid Request"}))
        return out

    def _do(self, m, p, r):
        if m == "m2m.associate":
            self.identity = p.get("identity")
            self.sim.log("associate", self.identity)
            return True
        if m == "device.set_machine_defined_tags":
            self.tags = p.get("tag_list")
            return True
        if m == "device.set_disk_space":
            self.disk.append((self.sim.now, p.get("disk_capacity"), p.get("disk_used")))
            return True
        if m and m.startswith("device.set_"):
            self.meta[m] = p
            return True
        return self.world.api_call(m, p, r)

    def mutate(self, r, resp, plan):
        """Replies that are not a proper batch response."""
        how = plan.get("how", "empty")
        if how == "custom":
            return plan["make"](r, resp)
        good = json.dumps(resp).encode("utf-8")
        if how == "empty":
            return b""
        if how == "html":
            return b"<html><body>502 Bad Gateway</body></html>"
        if how == "cut":
            n = plan.get("cut", 0.5)
            return good[:max(0, min(len(good) - 1, int(len(good) * n)))]
        if how == "null":
            return b"null"
        if how == "number":
            return b"42"
        if how == "string":
            return b'"ok"'
        if how == "dict":
            return json.dumps({"jsonrpc": "2.0", "id": "authenticate_result",
                               "result": True}).encode()
        if how == "errdict":
            return json.dumps({"jsonrpc": "2.0", "id": None,
                               "error": {"code": -32700, "message": "Parse error"}}).encode()
        if how == "emptylist":
            return b"[]"
        if how == "nonsense":
            return b'[1, "a", null]'
        if how == "mixed":
            return json.dumps(resp[:1] + [None]).encode()
        if how == "noid":
            return json.dumps([{k: v for k, v in e.items() if k != "id"} for e in resp]).encode()
        if how == "errnoid":
            return json.dumps([{"jsonrpc": "2.0", "error": {"code": -32600, "message": "bad"}}
                               ] + resp[1:]).encode()
        if how == "utf8":
            return b"\xff\xfe" + good
        if how == "first":
            return json.dumps(resp[:1]).encode()
        if how == "auth_only":
            return json.dumps([e for e in resp if e["id"] == "authenticate_result"]).encode()
        if how == "not_auth":
            return json.dumps([e for e in resp if e["id"] != "authenticate_result"]).encode()
        if how == "otherids":
            return json.dumps([dict(e, id="x%s" % e["id"]) for e in resp]).encode()
        raise core.HarnessError("how " + how)


HOWS = ("empty", "html", "cut", "null", "number", "string", "dict", "errdict", "emptylist",
        "nonsense", "mixed", "noid", "errnoid", "utf8", "first", "otherids", "not_auth",
        "auth_only")
