"""Simulated SNMP agents (the remote engines)."""

from . import wire
from .kernel import MS, SEC, US, derive

TAG_PREFIX = (1, 3, 6, 1, 4, 1, 53535)
STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
UNSUPPORTED_LEVEL = STATS + (1, 0)
NOT_IN_WINDOW = STATS + (2, 0)
UNKNOWN_USER = STATS + (3, 0)
UNKNOWN_ENGINE = STATS + (4, 0)
WRONG_DIGEST = STATS + (5, 0)
DECRYPTION = STATS + (6, 0)
UNKNOWN_CONTEXT = (1, 3, 6, 1, 6, 3, 12, 1, 5, 0)
MAXINT = (1 << 31) - 1


def tag_of(vbs):
    """The number identifying the application request inside its first OID."""
    for o, _ in vbs[:1]:
        if o[:len(TAG_PREFIX)] == TAG_PREFIX and len(o) > len(TAG_PREFIX):
            return o[len(TAG_PREFIX)]
    return None


INTS = (0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769,
        8388607, 8388608, MAXINT, -MAXINT - 1)
UINTS = (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 23, (1 << 24) - 1,
         1 << 24, MAXINT, MAXINT + 1, (1 << 32) - 1)
U64 = UINTS + (1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)


def gen_oid(rng, long=False):
    first = rng.randrange(3)
    second = rng.choice((0, 1, 8, 16, 39, rng.randrange(40)))
    n = rng.choice((0, 1, 2, 5, 9)) if not long else rng.randrange(60, 126)
    subs = [rng.choice((0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 1 << 28,
                        (1 << 32) - 1, rng.randrange(1 << rng.randrange(1, 33))))
            for _ in range(n)]
    return (first, second) + tuple(subs)


def gen_value(rng, v1=False, budget=60):
    kinds = ["int", "int", "str", "str", "str", "oid", "ip", "c32", "g32", "tt",
             "opq", "null"]
    if not v1:
        kinds += ["c64", "nso", "nsi", "eom"]
    if budget >= 5000:
        kinds = ["str", "str", "opq", "int"]
    kind = rng.choice(kinds)
    if kind == "int":
        return (kind, rng.choice(INTS) if rng.random() < .6
                else rng.randint(-MAXINT - 1, MAXINT))
    if kind in ("c32", "g32", "tt"):
        return (kind, rng.choice(UINTS) if rng.random() < .6 else rng.randrange(1 << 32))
    if kind == "c64":
        return (kind, rng.choice(U64) if rng.random() < .6 else rng.randrange(1 << 64))
    if kind in ("str", "opq"):
        n = rng.choice((0, 1, 8, 20, 127, 128, 129, 255, 256, 300, 600) if budget < 5000 else
                       (300, 4096, 16384, 32767, 32768, 33000, 50000, 64000))
        n = min(n, budget)
        return (kind, rng.randbytes(n))
    if kind == "oid":
        return (kind, gen_oid(rng, budget > 700 and rng.random() < .1))
    if kind == "ip":
        return (kind, rng.randbytes(4))
    return (kind,)


class Response:
    """One message an agent produced, as the oracles see it."""
    __slots__ = ("id", "agent", "tag", "kind", "status", "index", "vbs", "level",
                 "t", "seq", "reqid", "msgid", "user", "boots", "time", "version",
                 "req_pkt", "pkt", "oid", "engine_id", "community", "epoch", "data",
                 "pkts")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.pop(s, None))
        assert not kw, kw


class Agent:
    def __init__(self, world, spec):
        self.w = world
        self.k = world.k
        self.net = world.net
        self.spec = spec
        self.id = spec["id"]
        self.addr = (spec["addr"], spec["port"])
        self.net.agents[self.addr] = self
        self.engine_id = bytes.fromhex(spec["engine_id"])
        self.boots = spec.get("boots", 1)
        self.rate = spec.get("rate", 1.0)
        self.time0 = spec.get("time", 100)
        self.epoch_at = self.k.now
        self.paused = None
        self.users = {u["name"].encode(): world.mkuser(u) for u in spec.get("users", [])}
        self.communities = {c.encode() for c in spec.get("communities", [])}
        self.q = spec.get("quirks", {})
        self.enc = wire.Enc(self.q.get("longform", 0))
        self.down = False
        self.moved = False          # has ever changed its engine ID
        self.life = 0
        self.stalled = None
        self.serial = 0
        self.handled = []           # decoded requests
        self.rng = derive(self.k.seed, "agent", self.id)
        self.salt = self.rng.getrandbits(64)
        self.history = []           # (t, boots) of restarts
        self.proc_lo, self.proc_hi = spec.get("proc", (50 * US, 800 * US))
        self.counters = {}
        self.slow = spec.get("slow")        # [probability, longest delay]
        self.limit = spec.get("limit", 1472)

    # ---- clock
    def engine_time(self):
        now = self.paused if self.paused is not None else self.k.now
        time = self.time0 + int((now - self.epoch_at) * self.rate / SEC)
        if time > MAXINT:
            # the clock starts over, which counts as a restart
            self.boots = min(self.boots + 1, MAXINT)
            self.epoch_at += int((MAXINT + 1 - self.time0) * SEC / self.rate)
            self.time0 = 0
            self.epoch_at = min(self.epoch_at, now)
            time = int((now - self.epoch_at) * self.rate / SEC)
        return time

    # ---- faults
    def restart(self, lose_boots=False, gap=0, time0=0):
        self.k.note("restart", self.id)
        self.down = gap > 0
        if not lose_boots:
            self.boots = min(self.boots + 1, MAXINT)    # where it stays
        self.time0 = time0
        self.epoch_at = self.k.now + gap
        self.stalled = None
        self.paused = None
        self.life += 1
        life = self.life
        if gap:
            def up():
                if self.life != life:
                    return          # restarted again meanwhile
                self.down = False
                self.k.note("up", self.id)
            self.k.after(gap, up)

    def change_engine_id(self, new):
        self.k.note("engineid", self.id, new.hex())
        self.engine_id = new
        self.moved = True
        self.boots = 1
        self.time0 = 0
        self.epoch_at = self.k.now
        if self.paused is not None:
            self.paused = self.k.now

    def stall(self, duration, keep=True, clock=False):
        """Stop answering; queue requests (keep) or lose them; maybe stop the clock."""
        self.k.note("agent_stall", self.id, duration, keep, clock)
        self.stalled = [] if keep else False
        if clock:
            self.paused = self.k.now

        def resume():
            queue, self.stalled = self.stalled, None
            if self.paused is not None:
                self.epoch_at += self.k.now - self.paused
                self.paused = None
            self.k.note("agent_resume", self.id)
            for pkt in queue or []:
                self.handle(pkt)
        self.k.after(duration, resume)

    # ---- input
    def receive(self, pkt):
        if self.down:
            pkt.fate = "down"
            self.k.note("drop", pkt.id, "down")
            return
        if self.stalled is not None:
            if self.stalled is not False:
                self.stalled.append(pkt)
            return
        d = self.proc_lo + int((self.proc_hi - self.proc_lo) * self.rng.random())
        if self.slow and self.rng.random() < self.slow[0]:
            d += int(self.slow[1] * self.rng.random())
        epoch = self.boots

        def go():
            if self.down or self.boots != epoch:
                return
            if self.stalled is not None:
                if self.stalled is not False:
                    self.stalled.append(pkt)
                return
            self.handle(pkt)
        self.k.after(d, go)

    def handle(self, pkt):
        self.k.note("agent", self.id, pkt.id)
        try:
            version = wire.dec_version(pkt.data)
            if version in (0, 1):
                self.community(pkt, wire.dec_community(pkt.data))
            elif version == 3:
                self.v3(pkt, wire.dec_v3(pkt.data))
            else:
                raise wire.WireError("version")
        except wire.WireError as err:
            if "damaged" not in pkt.meta and "forged" not in pkt.meta:
                self.w.bad_requests.append((self.k.now, self.id, pkt, str(err)))

    # ---- answers
    def build(self, pdu, version):
        """-> (status, index, varbinds) and whether to stay silent"""
        self.serial += 1
        tag = tag_of(pdu["vbs"])
        rng = derive(self.k.seed, "value", self.id, self.serial)
        v1 = version == 0
        behave = self.w.behaviour(tag, self)
        if behave.get("silent"):
            return None
        n_err = behave.get("error", 0.0)
        vbs = pdu["vbs"]
        if rng.random() < n_err:
            status = rng.randint(1, 5 if v1 else 18)
            index = rng.randint(0, len(vbs))
            return status, index, list(vbs)
        budget = behave.get("budget", 40)
        out = []
        kind = pdu["type"]
        if kind == "set":
            return 0, 0, list(vbs)
        if kind == "get":
            out = [(o, self.val(rng, v1, budget, i)) for i, (o, _) in enumerate(vbs)]
        elif kind == "getNext":
            out = [(o + (1,), self.val(rng, v1, budget, i))
                   for i, (o, _) in enumerate(vbs)]
        elif kind == "getBulk":
            nr = max(0, min(pdu["a"], len(vbs)))
            reps = max(0, pdu["b"])
            for i, (o, _) in enumerate(vbs[:nr]):
                out.append((o + (1,), self.val(rng, v1, budget, i)))
            for r in range(min(reps, 20)):
                for i, (o, _) in enumerate(vbs[nr:]):
                    out.append((o + (r + 1,), self.val(rng, v1, budget, i + r)))
        out = [(o[:128], v) for o, v in out]
        return 0, 0, out

    def val(self, rng, v1, budget, i):
        if i == 0:
            # the first value identifies this very answer
            return ("str", b"%s#%d" % (self.id.encode(), self.serial))
        return gen_value(rng, v1, budget)

    def community(self, pkt, m):
        version, pdu = m["version"], m["pdu"]
        allowed = {"get", "getNext", "set"} | ({"getBulk"} if version == 1 else set())
        rec = dict(m, t=self.k.now, pkt=pkt, tag=tag_of(pdu["vbs"]), agent=self.id)
        self.handled.append(rec)
        if m["community"] not in self.communities or pdu["type"] not in allowed:
            rec["ignored"] = True
            return
        answer = self.build(pdu, version)
        if answer is None:
            rec["ignored"] = True
            return
        status, index, vbs = answer

        def make(status, index, vbs):
            return wire.enc_community(
                version, m["community"],
                self.enc.pdu(wire.RESPONSE, pdu["reqid"], status, index, vbs), self.enc)
        data = make(status, index, vbs)
        if len(data) > self.limit:
            status, index = 1, 0
            vbs = list(pdu["vbs"]) if version == 0 else []
            data = make(status, index, vbs)
        self.reply(pkt, data, Response(
            agent=self.id, tag=rec["tag"], kind="response", status=status, index=index,
            vbs=vbs, level=0, reqid=pdu["reqid"], version=version, req_pkt=pkt.id,
            community=m["community"]))

    def reply(self, pkt, data, resp):
        resp.id = len(self.w.responses)
        resp.t = self.k.now
        resp.seq = self.k.seq
        resp.data = data
        resp.epoch = self.boots
        self.w.responses.append(resp)
        p = self.net.agent_send(self, data, self.reply_addr(), pkt.src, {"resp": resp.id})
        resp.pkt = p.id

    def reply_addr(self):
        return tuple(self.q.get("reply_from", self.addr))

    def report(self, pkt, m, oid, flags, user):
        """A Report PDU, at security level flags & 3"""
        n = self.counters[oid] = self.counters.get(oid, 0) + 1
        reqid = m["pdu"]["reqid"] if "pdu" in m else self.q.get("noreqid", MAXINT)
        vbs = [(oid, ("c32", n))]
        pdu = self.enc.pdu(wire.REPORT, reqid, 0, 0, vbs)
        time = self.engine_time()
        boots = self.boots
        if not flags & 1 and self.q.get("hint0"):
            boots = time = 0
        self.salt = (self.salt + 1) % (1 << 64)
        data = wire.enc_v3(
            self.enc, m["msgid"], self.limit, flags & 3, self.engine_id, boots, time,
            m["user"], wire.enc_scoped(self.enc, self.engine_id, b"", pdu), user,
            self.salt.to_bytes(8, "big"))
        self.reply(pkt, data, Response(
            agent=self.id, tag=None, kind="report", oid=oid, level=flags & 3,
            msgid=m["msgid"], user=m["user"], boots=boots, time=time, version=3,
            req_pkt=pkt.id, engine_id=self.engine_id, vbs=vbs))

    def v3(self, pkt, m):
        rec = dict(m, t=self.k.now, pkt=pkt, agent=self.id, agent_time=self.engine_time(),
                   agent_boots=self.boots, tag=None)
        self.handled.append(rec)
        flags = m["flags"]
        if m["model"] != 3 or flags & 3 == 2:
            rec["ignored"] = True
            return
        if m["engine_id"] != self.engine_id:
            rec["outcome"] = "unknown_engine"
            if "pdu" in m:
                rec["tag"] = tag_of(m["pdu"]["vbs"])
            if flags & 4:
                self.report(pkt, m, UNKNOWN_ENGINE, 0, None)
            return
        user = self.users.get(m["user"])
        if user is None:
            rec["outcome"] = "unknown_user"
            if flags & 4:
                self.report(pkt, m, UNKNOWN_USER, 0, None)
            return
        if flags & 3 & ~user.level:
            rec["outcome"] = "level"
            if flags & 4:
                self.report(pkt, m, UNSUPPORTED_LEVEL, 0, None)
            return
        if flags & 1:
            if not wire.check_mac(m, user):
                rec["outcome"] = "digest"
                if flags & 4:
                    self.report(pkt, m, WRONG_DIGEST, 0, None)
                return
            now = self.engine_time()
            if m["boots"] != self.boots or abs(m["time"] - now) > 150 \
                    or self.boots == MAXINT:
                rec["outcome"] = "window"
                if flags & 4:
                    self.report(pkt, m, NOT_IN_WINDOW, 1, user)
                return
        if flags & 2:
            try:
                wire.open_scoped(m, user)
            except wire.WireError:
                rec["outcome"] = "decrypt"
                if flags & 4:
                    self.report(pkt, m, DECRYPTION, self.q.get("decrypt_level", 0), user)
                return
        rec.update(pdu=m["pdu"], tag=tag_of(m["pdu"]["vbs"]),
                   ctx_engine=m["ctx_engine"], ctx_name=m["ctx_name"])
        rec["outcome"] = "ok"
        if m["ctx_engine"] != self.engine_id or m["ctx_name"] != b"":
            rec["outcome"] = "context"
            if flags & 4:
                self.report(pkt, m, UNKNOWN_CONTEXT, flags & 3, user)
            return
        behave = self.w.behaviour(rec["tag"], self)
        if behave.get("report"):
            oid, level = behave["report"]
            if level <= (flags & 3):
                rec["outcome"] = "report"
                self.report(pkt, m, tuple(oid), level, user)
                if not behave.get("also_answer"):
                    return
        if m["pdu"]["type"] not in ("get", "getNext", "getBulk", "set"):
            rec["ignored"] = True
            return
        answer = self.build(m["pdu"], 3)
        if answer is None:
            rec["ignored"] = True
            return
        self.respond(pkt, m, user, answer)

    def respond(self, pkt, m, user, answer):
        status, index, vbs = answer
        level = m["flags"] & 3
        self.salt = (self.salt + 1) % (1 << 64)
        time = self.engine_time()
        boots = self.boots

        def make(status, index, vbs):
            pdu = self.enc.pdu(wire.RESPONSE, m["pdu"]["reqid"], status, index, vbs)
            return wire.enc_v3(
                self.enc, m["msgid"], self.limit, level, self.engine_id, boots, time,
                m["user"], wire.enc_scoped(self.enc, m["ctx_engine"], m["ctx_name"], pdu),
                user, self.salt.to_bytes(8, "big"), pad=self.q.get("pad", 0))
        data = make(status, index, vbs)
        if len(data) > min(self.limit, m["maxsize"]):
            status, index, vbs = 1, 0, []
            data = make(status, index, vbs)
        self.reply(pkt, data, Response(
            agent=self.id, tag=tag_of(m["pdu"]["vbs"]), kind="response", status=status,
            index=index, vbs=vbs, level=level, reqid=m["pdu"]["reqid"],
            msgid=m["msgid"], user=m["user"], boots=boots, time=time, version=3,
            req_pkt=pkt.id, engine_id=self.engine_id))
