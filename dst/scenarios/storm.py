"""Threads of the agent's process hammering one of its small shared objects.

C25: a channel's buffer between the thread the data arrives on and reader threads.
C11: a limiter between threads that take and give back slots.
Order is judged by a counter of calls and returns, not by the (hardly moving) clock.
"""
from ..core import SEC, MS
from .base import Scenario, GRACE


class Storm(Scenario):
    span = 1500
    settle = 0

    @classmethod
    def gen(cls, rng, prop):
        cfg = dict(dur=1, compress=None, seg_p=0, frag_p=0)
        if prop == "C11":
            limit = rng.choice([1, 1, 2, 3, 5, 8])
            threads = []
            for _ in range(rng.randint(2, limit + 5)):
                s = []
                for _ in range(rng.randint(1, 6)):
                    s.append([rng.choice(["keep", "keep", "fail", "plain", "failthen"]),
                              rng.choice([0, 0, 0, 0.001, 1])])
                threads.append([rng.choice([0, 0, 0, 0.001, 0.5]), s])
            return dict(cfg=cfg, ops=[[2.0, "limiter", limit, threads]])
        msgs = []
        left = 256
        while left > 0 and len(msgs) < 40:
            n = min(left, rng.choice([1, 1, 1, 2, 3, 7, 16, 60, 200, 0]))
            left -= n
            msgs.append([n, rng.choice([0, 0, 0, 0, 0.0001, 0.001, 0.5, 3])])
            if rng.random() < 0.1:
                break
        readers = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = []
            for _ in range(rng.randint(1, 40)):
                k = rng.random()
                if k < 0.5:
                    r.append(["wait", rng.choice([1, 2, 3, 10, 300, 100000]),
                              rng.choice([0.0001, 0.01, 1, 10, 20])])
                elif k < 0.7:
                    r.append(["take", rng.choice([0, 1, 2, 3, 10, 300])])
                elif k < 0.8:
                    r.append(["size"])
                elif k < 0.93:
                    r.append(["bool"])
                else:
                    r.append(["sleep", rng.choice([0, 0.001, 0.5])])
            readers.append(r)
        return dict(cfg=cfg, ops=[[2.0, "buffer", msgs, readers]])

    def setup(self):
        self.count = 0
        self.todo = 0

    def next(self):
        self.count += 1
        return self.count

    def spawn(self, fn, name):
        self.todo += 1

        def run():
            fn()
            self.todo -= 1
        self.in_agent(run, name)

    def drive(self):
        self.boot()
        self.run_until(lambda: self.client is not None, 20)
        self.schedule()
        self.run_for(3)
        self.run_until(lambda: self.todo == 0, 2000)
        if self.todo:
            self.violate(self.prop, "stuck", "%d threads never came back" % self.todo)
        self.judge()

    # ================================================================ channel buffer
    def op_buffer(self, msgs, readers):
        wsc = self.client.m2m.m2m_client
        ch = wsc.get_channel(61234)
        wsc.channels.pop(61234, None)       # nobody else's
        sent = self.sent = []               # [call, return, total after, t of return]
        reads = self.reads = []

        def writer():
            pos = 0
            for n, gap in msgs:
                if gap:
                    self.sim.park(int(gap * SEC), "storm gap")
                e = [self.next(), None, pos + n, None]
                sent.append(e)
                ch.on_data(bytes(range(pos, pos + n)))
                e[1], e[3] = self.next(), self.sim.now
                pos += n
                self.sim.probe("storm_writes")

        def reader(k, ops):
            for op in ops:
                if op[0] == "sleep":
                    self.sim.park(int(op[1] * SEC), "storm sleep")
                    continue
                e = dict(k=k, op=op, c=self.next(), t=self.sim.now, r=None, t1=None, res=None)
                reads.append(e)
                if op[0] == "wait":
                    res = ch.read(op[1], timeout=op[2], block=True)
                elif op[0] == "take":
                    res = ch.read(op[1])
                elif op[0] == "size":
                    res = ch.size
                else:
                    res = bool(ch)
                e["res"], e["r"], e["t1"] = res, self.next(), self.sim.now
                self.sim.probe("storm_reads")
        self.spawn(writer, "w")
        for k, ops in enumerate(readers):
            self.spawn(lambda k=k, ops=ops: reader(k, ops), "r%d" % k)
        self.nreaders = len(readers)
        self.judge = self.judge_buffer

    def judge_buffer(self):
        bad = lambda key, e, msg: self.violate("C25", key, "reader %d, %r returned %r: %s" % (
            e["k"], e["op"], e["res"], msg))
        got = set()
        done = [e for e in self.reads if e["r"] is not None]
        chunks = []
        for e in done:
            res, op = e["res"], e["op"]
            if op[0] in ("wait", "take"):
                if not isinstance(res, (bytes, bytearray)):
                    return bad("not_bytes", e, "")
                res = e["res"] = bytes(res)
                if len(res) > op[1]:
                    return bad("too_much", e, "")
                if res:
                    if res != bytes(i & 255 for i in range(res[0], res[0] + len(res))):
                        return bad("altered", e, "not consecutive bytes of what was sent")
                    if got & set(res):
                        return bad("twice", e, "bytes returned before")
                    got |= set(res)
                    chunks.append(e)
        for a in chunks:
            for b in chunks:
                if a["r"] < b["c"] and a["res"][0] > b["res"][0]:
                    return bad("out_of_order", b, "a read over before it began returned later "
                               "bytes")
        last = max(got) + 1 if got else 0
        if len(got) != last:
            miss = min(set(range(last)) - got)
            e = [e for e in chunks if e["res"][0] > miss][0]
            if not any(r["r"] is None for r in self.reads):
                return bad("skipped", e, "byte %d was never returned" % miss)
        for e in done:
            op, res = e["op"], e["res"]
            before = max([s[2] for s in self.sent if s[1] is not None and s[1] <= e["c"]] or [0])
            most = max([s[2] for s in self.sent if s[0] <= e["r"]] or [0])
            # bytes certainly taken before the call, and those that may have been by its return
            taken = sum(len(c["res"]) for c in chunks if c["r"] < e["c"])
            gone = sum(len(c["res"]) for c in chunks if c["c"] < e["r"] and c is not e)
            low, high = max(0, before - gone), most - taken
            if op[0] in ("wait", "take"):
                n = len(res)
                if n < min(op[1], low):
                    return bad("withheld", e, "at least %d bytes were buffered" % low)
                if op[1] == 0:
                    continue
                took = e["t1"] - e["t"]
                if op[0] == "wait" and took > (op[2] + GRACE) * SEC:
                    return bad("overslept", e, "it took %.1f s" % (took / 1e9))
                if op[0] == "wait" and low > 0 and took > GRACE * SEC:
                    return bad("blocked", e, "it took %.1f s with data there" % (took / 1e9))
                if self.nreaders > 1:
                    continue        # others may have been faster
                if op[0] == "wait" and not n and took < op[2] * SEC - 5 * MS:
                    return bad("gave_up", e, "after %.4f s" % (took / 1e9))
                if op[0] == "wait":
                    ar = [s[3] for s in self.sent if s[1] is not None and s[2] > taken and
                          s[1] > e["c"]]
                    if ar and e["t1"] > min(ar) + GRACE * SEC:
                        return bad("slept_on", e, "data arrived %.1f s before it returned" % (
                            (e["t1"] - min(ar)) / 1e9))
            elif op[0] == "size":
                if not low <= res <= high:
                    return bad("wrong_size", e, "%d to %d bytes were buffered" % (low, high))
            elif low > 0 and not res or high <= 0 and res:
                return bad("wrong_emptiness", e, "%d to %d bytes were buffered" % (low, high))

    # ================================================================ limiter
    def op_limiter(self, limit, threads):
        mod = self.loader.get("dataplicity.limiter")
        lim = mod.Limiter("storm", limit)
        self.held = self.claims = 0
        self.maxheld = 0
        sim = self.sim
        calls = {}

        class Boom(Exception):
            pass

        def hold():
            self.held += 1
            if self.held > limit:
                self.violate("C11", "over_limit", "limiter: %d of %d slots in use" % (
                    self.held, limit))

        def drop():
            self.held -= 1
            try:
                lim.decrement()
            except Exception as e:
                self.violate("C11", "give_back_fails", "giving back a held slot: %r" % e)
            self.claims -= 1

        def worker(delay, script):
            if delay:
                sim.park(int(delay * SEC), "storm")
            for how, t in script:
                self.claims += 1
                for o in calls.values():
                    o[0] = max(o[0], self.claims)
                me = [self.claims]
                calls[id(me)] = me
                took = False
                try:
                    if how == "plain":
                        lim.increment()
                        took = True
                        hold()
                    else:
                        with lim():
                            took = True
                            hold()
                            if how == "fail":
                                self.held -= 1
                                raise Boom()
                except mod.LimitReached:
                    sim.probe("storm_refused")
                    if took:
                        self.violate("C11", "odd", "LimitReached after the slot was given")
                    if me[0] - 1 < limit:
                        self.violate("C11", "refused_below", "refused with at most %d of %d slots "
                                     "in use" % (me[0] - 1, limit))
                    self.claims -= 1
                    continue
                except Boom:
                    self.claims -= 1
                    continue
                finally:
                    del calls[id(me)]
                sim.probe("storm_slots")
                if t:
                    sim.park(int(t * SEC), "storm hold")
                drop()

        for i, (delay, script) in enumerate(threads):
            self.spawn(lambda d=delay, s=script: worker(d, s), "l%d" % i)

        def judge():
            if self.todo:
                return
            n = []

            def probe():
                try:
                    for _ in range(limit + 1):
                        lim.increment()
                        n.append(1)
                except mod.LimitReached:
                    pass
            self.spawn(probe, "probe")
            self.run_until(lambda: self.todo == 0, 20)
            if len(n) != limit:
                self.violate("C11", "slot_lost" if len(n) < limit else "over_limit",
                             "limiter: %d of %d slots can be taken afterwards" % (len(n), limit))
        self.judge = judge
