"""An active attacker on the path.

It sees every datagram, can inject, alter, replay and suppress datagrams, and
holds (a) the credentials of users marked "insider" and (b) the keys of engines
marked "hostile".  It never holds an honest user's key.  Everything it makes up
carries the marker FORGED, so an accepted forgery is recognisable.
"""

from . import agent as A
from . import wire
from .kernel import MS, SEC, US, derive

FORGED = b"FORGED"

PRE = ("forge_plain", "forge_mac", "forge_zero", "forge_empty", "forge_short",
       "wrong_key", "insider_user", "insider_engine", "forge_report",
       "forge_window", "fake_engine", "replay", "swap_msgid", "reflect",
       "poison", "privonly", "forge_discovery", "forge_nokey", "forge_community",
       "prefix_mac", "flood_engines", "malform", "downgrade")
ONPATH = ("tamper", "strip", "suppress", "tamper_hdr")

REPORT_OIDS = (A.UNSUPPORTED_LEVEL, A.UNKNOWN_USER, A.WRONG_DIGEST, A.DECRYPTION,
               A.UNKNOWN_CONTEXT, (1, 3, 6, 1, 6, 3, 11, 2, 1, 1, 0))


class Attacker:
    def __init__(self, world, spec):
        self.w = world
        self.k = world.k
        self.net = world.net
        self.rate = spec["rate"]
        self.peek = spec.get("peek", True)
        self.until = spec.get("until")
        self.enc = wire.Enc(0)
        self.seen = []          # genuine responses (data, msgid)
        self.requests = []
        self.probes = {}        # (client, agent) -> id of the last discovery message
        self.insiders = [world.mkuser(u) for u in spec.get("insiders", [])]
        self.hostile = [bytes.fromhex(e) for e in spec.get("hostile", [])]
        self.rng = derive(self.k.seed, "attacker")
        self.count = 0
        self.budget = spec.get("budget", 150)

    def live(self):
        return self.until is None or self.k.now - self.k.start < self.until

    def fires(self, name):
        if not self.rate.get(name) or self.count >= self.budget:
            return None
        return self.k.faults.decide("atk_" + name, self.rate[name])

    def send(self, agent, pkt, data, p, kind, resp=None):
        """Inject towards the client, timed around the genuine answer."""
        self.count += 1
        delay = int(20 * US * (4000 ** ((p * 31) % 1.0)))      # 20 us .. 80 ms
        self.k.note("attack", kind, pkt.id)
        meta = {"forged": kind}
        if resp is not None:
            meta["resp"] = resp         # a genuine datagram, unaltered
        self.net.inject(data, agent.addr, pkt.src, delay, meta)

    # ---- client -> agent
    def on_out(self, pkt, agent):
        if agent is None or not self.live():
            return
        try:
            version = wire.dec_version(pkt.data)
            m = wire.dec_v3(pkt.data) if version == 3 else wire.dec_community(pkt.data)
        except wire.WireError:
            return
        if version != 3:
            self.community(pkt, agent, m)
            return
        self.requests.append((pkt.data, m["msgid"]))
        for name in PRE:
            p = None if name == "forge_community" else self.fires(name)
            if p is not None:
                getattr(self, name)(pkt, agent, m, p)

    def community(self, pkt, agent, m):
        # without knowing the community string (off path)
        p = self.fires("forge_community")
        if p is not None:
            pdu = self.enc.pdu(wire.RESPONSE, m["pdu"]["reqid"], 0, 0, self.vbs(m))
            comm = (b"", b"public ", b"publi", m["community"] + b"x", b"PUBLIC")
            data = wire.enc_community(m["version"], comm[int(p * 5)], pdu, self.enc)
            self.send(agent, pkt, data, p, "forge_community")

        p = self.fires("malform")
        if p is not None:
            rng = derive(self.k.seed, "malform", self.count)
            pdu = self.bad_pdu(rng, m["pdu"])
            data = wire.enc_community(m["version"], m["community"], pdu, self.enc)
            self.send(agent, pkt, self.bad_frame(rng, data), p, "malform")

    # -- messages that belong to a request of ours and make no sense
    def bad_pdu(self, rng, sent):
        e = self.enc
        tag = rng.choice((wire.RESPONSE, wire.RESPONSE, wire.REPORT, wire.REPORT, wire.GET,
                          wire.SET, wire.BULK, wire.TRAP2, wire.INFORM, 0xa9, 0x30, 0xa4))
        reqid = sent["reqid"] if sent else rng.getrandbits(31)
        if rng.random() < .1:
            reqid = rng.choice((0, -1, -A.MAXINT, 1 << 31, 1 << 40, reqid ^ 1))
        odd = lambda: rng.choice((0, 0, 0, 1, 2, 5, 18, 19, 127, 255, -1, A.MAXINT, 1 << 33))
        val = lambda: rng.choice((("int", 1), ("int", 1 << 40), ("str", FORGED), ("null",),
                                  ("oid", (1, 3)), ("ip", b"\1\2\3\4"), ("ip", b"\1"),
                                  ("c32", 1), ("c32", -1), ("c32", 1 << 32), ("g32", 7),
                                  ("tt", 7), ("opq", b""), ("c64", 1 << 63), ("nso",),
                                  ("nsi",), ("eom",), ("str", b"\xff" * 200)))
        name = lambda: rng.choice(tuple(REPORT_OIDS) + (
            A.NOT_IN_WINDOW, A.UNKNOWN_ENGINE, A.TAG_PREFIX + (0,), (0, 0), (2, 999),
            (1, 3) + (1 << 32,) * 2, (1,) + (3,) * 130))
        names = [o for o, _ in (sent["vbs"] if sent else [])]
        how = rng.randrange(8)
        if how < 2:
            vbs = e.seq()                                       # no variables at all
        elif how == 2 and names:
            vbs = e.varbinds([(o, val()) for o in names])       # the right names
        elif how == 3 and names:
            vbs = e.varbinds([(o, val()) for o in names[:-1]] or [(name(), val())] * 3)
        elif how == 4:
            vbs = e.varbinds([(name(), val()) for _ in range(rng.choice((1, 2, 5, 100)))])
        elif how == 5:
            vbs = e.seq(e.seq(e.tlv(6, b""), e.value(val())))   # an empty name
        elif how == 6:
            vbs = e.seq(e.seq(e.tlv(6, b"\x2b\x80"), e.value(val())),
                        e.seq(e.oid(name())), e.octets(b"x"))
        else:
            vbs = e.varbinds([(name(), val())])
        parts = [e.integer(reqid), e.integer(odd()), e.integer(odd()), vbs]
        if rng.random() < .1:
            parts.insert(rng.randrange(5), e.octets(b"extra"))
        if rng.random() < .1:
            del parts[rng.randrange(len(parts))]
        return e.seq(*parts, tag=tag)

    def bad_frame(self, rng, data):
        q = rng.random()
        if q < .85:
            return data
        if q < .9:
            return data + rng.randbytes(rng.choice((1, 2, 100)))
        if q < .95:
            return data[:rng.randrange(len(data))]
        return data[:2] + data[2:][::-1]

    def malform(self, pkt, agent, m, p):
        rng = derive(self.k.seed, "malform", self.count)
        e = self.enc
        sent = self.plain(pkt, m)
        pdu = self.bad_pdu(rng, sent)
        eid = self.victim_engine(agent, m)
        flags = 0
        creds = None
        boots, time = m["boots"], m["time"]
        user = m["user"]
        if rng.random() < .4:
            # a faulty agent: everything is signed as it should be
            creds = agent.users.get(user)
        if creds is not None and m["engine_id"] and creds.level & 1:
            flags = m["flags"] & 3 & creds.level or 1
            boots, time = agent.boots, agent.engine_time()
        else:
            creds = None
            if rng.random() < .3:
                boots, time = rng.choice(((-1, -1), (1 << 31, 0), (0, 1 << 31), (0, 0),
                                          (1 << 70, 1 << 70), (A.MAXINT, A.MAXINT)))
            if rng.random() < .2:
                user = rng.choice((b"", b"\xff\xfe", b"x" * 33, b"nobody"))
        ctx = rng.choice((eid, eid, eid, b"", b"\0", b"\xff" * 40))
        scoped = e.seq(e.octets(ctx), e.octets(rng.choice((b"", b"", b"\xff", b"other"))), pdu)
        q = rng.random()
        if q < .1:
            scoped = scoped[:rng.randrange(len(scoped))]
        elif q < .2:
            scoped = e.octets(rng.randbytes(rng.choice((0, 1, 7, 8, 15, 64))))
        elif q < .25:
            scoped = b""
        kw = {}
        if flags & 1 and rng.random() < .15:
            kw["mac_len"] = rng.choice((0, 1, 11, 13, 64))
        salt = self.rng.randbytes(8)
        if rng.random() < .1:
            salt = rng.randbytes(rng.choice((0, 7, 9)))
            if len(salt) != 8:
                flags &= 1
        size = rng.choice((1472, 1472, 484, 0, -1, A.MAXINT, 1 << 31))
        fl = flags
        if not flags and rng.random() < .2:
            fl = rng.choice((4, 8, 0x80))
        data = wire.enc_v3(e, m["msgid"], size, fl, eid, boots, time, user, scoped, creds,
                           salt, model=rng.choice((3, 3, 3, 3, 3, 2, 0, 4, -1)), **kw)
        self.send(agent, pkt, self.bad_frame(rng, data), p, "malform")

    def vbs(self, m, sent=None):
        vbs = sent["vbs"] if sent is not None else m.get("pdu", {}).get("vbs") or []
        out = [(o, ("str", FORGED)) for o, _ in vbs]
        return out or [(A.TAG_PREFIX + (0,), ("str", FORGED))]

    def plain(self, pkt, m):
        """What the attacker knows of the request inside m."""
        if "pdu" in m:
            return m["pdu"]
        if self.peek:
            return self.w.peek(m)
        return None

    def response(self, pkt, m, p, engine_id=None, user=None, flags=0, creds=None,
                 error=None, ctx=None, **kw):
        sent = self.plain(pkt, m)
        reqid = sent["reqid"] if sent else self.rng.getrandbits(31)
        engine_id = m["engine_id"] if engine_id is None else engine_id
        ctx = engine_id if ctx is None else ctx
        user = m["user"] if user is None else user
        status = 5 if (p * 7919) % 1.0 < .2 else 0
        pdu = self.enc.pdu(wire.RESPONSE, reqid, status, 1 if status else 0,
                           self.vbs(m, sent))
        boots = kw.pop("boots", m["boots"])
        time = kw.pop("time", m["time"])
        return wire.enc_v3(
            self.enc, m["msgid"], 1472, flags, engine_id, boots, time, user,
            wire.enc_scoped(self.enc, ctx, b"", pdu), creds,
            self.rng.randbytes(8), **kw)

    def victim_engine(self, agent, m):
        return m["engine_id"] or agent.engine_id

    # -- strategies
    def forge_plain(self, pkt, agent, m, p):
        self.send(agent, pkt, self.response(pkt, m, p), p, "forge_plain")

    def forge_discovery(self, pkt, agent, m, p):
        key = pkt.src, agent.id
        if m["engine_id"]:
            # the probe was answered; answer it again, with the request it was for
            if key in self.probes:
                probe = dict(m, msgid=self.probes[key])
                data = self.response(pkt, probe, p, engine_id=b"", user=b"", ctx=b"",
                                     boots=0, time=0)
                self.send(agent, pkt, data, p, "forge_discovery")
            return
        self.probes[key] = m["msgid"]
        q = (p * 101) % 1.0
        eid = b"" if q < .6 else agent.engine_id
        self.send(agent, pkt, self.response(pkt, m, p, engine_id=eid, user=b""), p,
                  "forge_discovery")

    def _mac(self, pkt, agent, m, p, mac, kind):
        flags = m["flags"] & 3 or 1
        creds = wire.User(m["user"], "HmacSha", "AesCfb128", b"guessguess", b"guessguess")
        if flags & 2:
            flags = 3 if (p * 37) % 1.0 < .5 else 1
        data = self.response(pkt, m, p, engine_id=self.victim_engine(agent, m),
                             flags=flags, creds=creds, forge_mac=mac)
        self.send(agent, pkt, data, p, kind)

    def forge_mac(self, pkt, agent, m, p):
        n = len(m["sig"]) or 12
        self._mac(pkt, agent, m, p, self.rng.randbytes(n), "forge_mac")

    def forge_zero(self, pkt, agent, m, p):
        n = len(m["sig"]) or 12
        self._mac(pkt, agent, m, p, bytes(n), "forge_zero")

    def forge_empty(self, pkt, agent, m, p):
        self._mac(pkt, agent, m, p, b"", "forge_empty")

    def forge_short(self, pkt, agent, m, p):
        n = max(1, int(p * (len(m["sig"]) or 12)))
        self._mac(pkt, agent, m, p, self.rng.randbytes(n), "forge_short")

    def prefix_mac(self, pkt, agent, m, p):
        # a one byte tag: a verifier comparing prefixes accepts 1 in 256; try
        # the byte a verifier truncating to the received length would accept
        user = agent.users.get(m["user"])
        if user is None or not user.auth:
            return
        # an exhaustive search over one byte is within any attacker's reach, so
        # compute its outcome instead of sending 256 datagrams
        engine = self.victim_engine(agent, m)
        sent = self.plain(pkt, m)
        reqid = sent["reqid"] if sent else 0
        pdu = self.enc.pdu(wire.RESPONSE, reqid, 0, 0, self.vbs(m, sent))
        scoped = wire.enc_scoped(self.enc, engine, b"", pdu)
        args = (self.enc, m["msgid"], 1472, 1, engine, m["boots"], m["time"], m["user"],
                scoped)
        ak, _ = user.keys(engine)
        tag = wire.mac(user.auth, ak, wire.enc_v3(*args, forge_mac=b"\0"))[:1]
        self.send(agent, pkt, wire.enc_v3(*args, forge_mac=tag), p, "prefix_mac")

    def wrong_key(self, pkt, agent, m, p):
        u = wire.User(m["user"], "HmacSha", "AesCfb128", b"wrongpassword", b"wrongpassword")
        real = agent.users.get(m["user"])
        if real is not None and real.auth:
            u.auth = real.auth
            u.priv = real.priv or u.priv
        flags = m["flags"] & 3 or 1
        data = self.response(pkt, m, p, engine_id=self.victim_engine(agent, m),
                             flags=flags, creds=u)
        self.send(agent, pkt, data, p, "wrong_key")

    def forge_nokey(self, pkt, agent, m, p):
        # MAC with an all-zero / empty key
        real = agent.users.get(m["user"])
        if real is None or not real.auth:
            return
        class Z:
            name = m["user"]
            auth = real.auth
            priv = None
            def keys(self, e):
                return (b"" if p < .5 else bytes(20)), None
        data = self.response(pkt, m, p, flags=1, creds=Z())
        self.send(agent, pkt, data, p, "forge_nokey")

    def insider_user(self, pkt, agent, m, p):
        if not self.insiders:
            return
        u = self.insiders[int(p * len(self.insiders))]
        flags = min(m["flags"] & 3 or 1, u.level)
        # signed with the insider's key, under its own or the victim's name
        name = u.name if (p * 53) % 1.0 < .6 else m["user"]
        data = self.response(pkt, m, p, engine_id=self.victim_engine(agent, m),
                             user=name, flags=flags, creds=u)
        self.send(agent, pkt, data, p, "insider_user")

    def downgrade(self, pkt, agent, m, p):
        """Someone who holds the user's authentication key, not the privacy key."""
        user = agent.users.get(m["user"])
        if m["flags"] & 3 != 3 or user is None or not user.auth \
                or m["engine_id"] != agent.engine_id:
            return
        data = self.response(pkt, m, p, flags=1, creds=user, boots=agent.boots,
                             time=agent.engine_time())
        self.send(agent, pkt, data, p, "downgrade")

    def insider_engine(self, pkt, agent, m, p):
        """A compromised engine: knows the victim user's key localized to itself."""
        user = agent.users.get(m["user"])
        if not self.hostile or user is None or not user.auth or not m["engine_id"]:
            return
        e = self.hostile[int(p * len(self.hostile))]
        if m["engine_id"] == e:
            return
        flags = m["flags"] & 3 or 1
        q = (p * 71) % 1.0
        ctx = m["engine_id"] if q < .5 else e
        data = self.response(pkt, m, p, engine_id=e, flags=flags, creds=user, ctx=ctx,
                             boots=1, time=1000)
        self.send(agent, pkt, data, p, "insider_engine")
        if q < .3:
            # claim the victim's engine id, sign with the hostile engine's key
            data = self.response(pkt, m, p, flags=flags, creds=user, key_engine=e)
            self.send(agent, pkt, data, p, "insider_engine")

    def _report(self, pkt, agent, m, oid, p, engine_id=None, boots=None, time=None,
                user=None):
        sent = self.plain(pkt, m)
        reqid = sent["reqid"] if sent else 0
        eid = self.victim_engine(agent, m) if engine_id is None else engine_id
        pdu = self.enc.pdu(wire.REPORT, reqid, 0, 0, [(tuple(oid), ("c32", 1))])
        return wire.enc_v3(
            self.enc, m["msgid"], 1472, 0, eid,
            m["boots"] if boots is None else boots, m["time"] if time is None else time,
            m["user"] if user is None else user,
            wire.enc_scoped(self.enc, eid, b"", pdu))

    def forge_report(self, pkt, agent, m, p):
        oid = REPORT_OIDS[int(p * len(REPORT_OIDS))]
        self.send(agent, pkt, self._report(pkt, agent, m, oid, p), p, "forge_report")

    def forge_window(self, pkt, agent, m, p):
        self.send(agent, pkt, self._report(pkt, agent, m, A.NOT_IN_WINDOW, p), p,
                  "forge_window")

    def fake_engine(self, pkt, agent, m, p):
        eid = b"\x80\0\0\0\x05" + self.rng.randbytes(8)
        self.send(agent, pkt, self._report(pkt, agent, m, A.UNKNOWN_ENGINE, p, eid,
                                           boots=3, time=7), p, "fake_engine")

    def flood_engines(self, pkt, agent, m, p):
        """Unauthenticated reports naming ever more engines."""
        for _ in range(int(4 * 64 ** p)):
            eid = b"\x80\0\0\0\x05" + self.rng.randbytes(8)
            self.send(agent, pkt, self._report(pkt, agent, m, A.UNKNOWN_USER, p, eid,
                                               boots=3, time=7), p, "flood_engines")
            self.count -= 1
        self.count += 5

    def poison(self, pkt, agent, m, p):
        """Unauthenticated messages lying about the engine's clock."""
        big = wire_max = A.MAXINT
        boots, time = ((0, 0), (big, 0), (0, big), (big, big), (7, 100000),
                       (-1, 5), (5, -1), (-big, -big))[int(p * 8)]
        q = (p * 89) % 1.0
        oid = A.NOT_IN_WINDOW if q < .5 else A.UNKNOWN_USER
        self.send(agent, pkt, self._report(pkt, agent, m, oid, p, boots=boots,
                                           time=time), p, "poison")

    def privonly(self, pkt, agent, m, p):
        u = wire.User(m["user"], "HmacSha", "AesCfb128", b"guessguess", b"guessguess")
        data = self.response(pkt, m, p, flags=2, creds=u)
        self.send(agent, pkt, data, p, "privonly")

    def replay(self, pkt, agent, m, p):
        if self.seen:
            data, _, resp = self.seen[int(p * len(self.seen))]
            self.send(agent, pkt, data, p, "replay", resp)

    def swap_msgid(self, pkt, agent, m, p):
        if self.seen:
            data, old, _ = self.seen[int(p * len(self.seen))]
            a, b = self.enc.integer(old), self.enc.integer(m["msgid"])
            new = data.replace(a, b, 1)
            if len(a) == len(b) and new != data:
                self.send(agent, pkt, new, p, "swap_msgid")

    def reflect(self, pkt, agent, m, p):
        self.send(agent, pkt, pkt.data, p, "reflect")

    # ---- agent -> client
    def on_in(self, pkt, agent):
        if not self.live():
            return False
        try:
            if wire.dec_version(pkt.data) != 3:
                return False
            m = wire.dec_v3(pkt.data)
        except wire.WireError:
            return False
        if len(self.seen) < 200:
            self.seen.append((pkt.data, m["msgid"], pkt.meta.get("resp")))
        for name in ONPATH:
            p = self.fires(name)
            if p is None:
                continue
            self.count += 1
            if name == "suppress":
                self.k.note("attack", name, pkt.id)
                return True
            data = getattr(self, name)(pkt, m, p)
            if data is not None and data != pkt.data:
                self.k.note("attack", name, pkt.id)
                self.net.inject(data, pkt.src, pkt.dst, int(300 * US + p * MS),
                                {"forged": name})
                if p < .5:
                    return True
        return False

    def tamper(self, pkt, m, p):
        if not m["flags"] & 1:
            return None
        data = bytearray(pkt.data)
        q = (p * 997) % 1.0
        if q < .5:
            # inside the payload
            i = len(data) - 1 - int(q * 2 * min(40, len(data) - 1))
        else:
            i = int(q * len(data))
        data[i] ^= 1 << int((p * 7) % 1.0 * 8)
        return bytes(data)

    def tamper_hdr(self, pkt, m, p):
        """Shift an authenticated message's boots or time."""
        if not m["flags"] & 1:
            return None
        data = pkt.data
        old = self.enc.integer(m["time"])
        new = self.enc.integer(max(0, m["time"] + (1 if p < .5 else -1)))
        if len(old) != len(new):
            return None
        return data.replace(old, new, 1)

    def strip(self, pkt, m, p):
        """Remove the protection of an authenticated response."""
        if not m["flags"] & 1 or "pdu" not in m:
            return None
        vbs = [(o, ("str", FORGED)) for o, _ in m["pdu"]["vbs"]]
        pdu = self.enc.pdu(m["pdu"]["tag"], m["pdu"]["reqid"], 0, 0, vbs)
        scoped = wire.enc_scoped(self.enc, m["ctx_engine"], m["ctx_name"], pdu)
        if p < .5:
            return wire.enc_v3(self.enc, m["msgid"], m["maxsize"], 0, m["engine_id"],
                               m["boots"], m["time"], m["user"], scoped)
        return wire.enc_v3(self.enc, m["msgid"], m["maxsize"], 1, m["engine_id"],
                           m["boots"], m["time"], m["user"], scoped, forge_mac=m["sig"])
