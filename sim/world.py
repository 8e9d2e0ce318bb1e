"""One simulated execution: interprets a plan and records its history.

The plan is plain JSON.  The application side calls only the library's public
interface; everything else (agents, network, faults, attacker) is simulated.
"""

import collections
import gc
import random
import threading
import time as _time
import types
import weakref

from . import agent as A
from . import kernel as K
from . import seams, wire
from .attacker import Attacker
from .boot import reset_hash
from .kernel import MS, SEC, US, derive
from .net import Net


def canon(value):
    """A library value in the wire module's neutral form."""
    name = type(value).__name__
    if name in ("Integer32", "Integer", "INTEGER"):
        return ("int", value.value)
    if name in ("OctetString", "OCTET_STRING"):
        return ("str", bytes(value.data))
    if name in ("Null", "NULL"):
        return ("null",)
    if name == "OID":
        return ("oid", tuple(value))
    if name == "IpAddress":
        return ("ip", bytes(value.data))
    kinds = {"Counter32": "c32", "Gauge32": "g32", "Unsigned32": "g32",
             "TimeTicks": "tt", "Counter64": "c64"}
    if name in kinds:
        return (kinds[name], value.value)
    if name == "Opaque":
        return ("opq", bytes(value.data))
    return ({"NoSuchObject": "nso", "NoSuchInstance": "nsi",
             "EndOfMibView": "eom"}.get(name, name),)


def canon_vbs(vbl):
    return tuple((tuple(vb.name), canon(vb.value)) for vb in vbl)


def to_snmp(v):
    from snmp import smi
    kind = v[0]
    if kind == "int":
        return smi.Integer32(v[1])
    if kind == "str":
        return smi.OctetString(v[1])
    if kind == "oid":
        return smi.OID(*v[1])
    if kind == "ip":
        return smi.IpAddress(".".join(str(b) for b in v[1]))
    if kind == "c32":
        return smi.Counter32(v[1])
    if kind == "g32":
        return smi.Gauge32(v[1])
    if kind == "tt":
        return smi.TimeTicks(v[1])
    if kind == "opq":
        return smi.Opaque(v[1])
    if kind == "c64":
        return smi.Counter64(v[1])
    return smi.Null()


def thaw(v):
    """JSON -> value tuple (bytes travel as latin-1 text)."""
    if v[0] in ("str", "ip", "opq"):
        return (v[0], v[1].encode("latin-1"))
    if v[0] == "oid":
        return (v[0], tuple(v[1]))
    return tuple(v)


LEVELS = {0: "noAuthNoPriv", 1: "authNoPriv", 3: "authPriv"}


class Req:
    """An application request and everything that happened to it."""

    def __init__(self, rid, mid, tag, spec):
        self.rid = rid
        self.mid = mid
        self.tag = tag
        self.spec = spec
        self.t_call = self.t_sent = None
        self.seq_call = None
        self.tid = None
        self.stall0 = 0
        self.wait_calls = []        # [t0, t1, stall, outcome, seq0, seq1]
        self.outcome = None         # first outcome of wait()
        self.failed = None          # sendRequest raised
        self.dropped = None
        self.done_t = None
        self.done_seq = None
        self.oids = None
        self.sent_vbs = None


class AppError(Exception):
    pass


class World:
    def __init__(self, plan, allow=None, log=False):
        self.plan = plan
        seed = plan["seed"]
        self.seed = seed
        self.k = K.Kernel(seed, plan["cfg"], allow)
        if log:
            self.k.log = []
        k = self.k
        k.fds = seams.FdTable()
        k.draws = {}
        self.net = k.net = Net(k, plan["cfg"])
        k.rand = derive(seed, "rand")
        random.seed(derive(seed, "app").getrandbits(64))
        self.responses = []
        self.bad_requests = []
        self.agents = {a["id"]: A.Agent(self, a) for a in plan["agents"]}
        self.attacker = None
        if plan.get("attack"):
            self.attacker = Attacker(self, plan["attack"])
            self.net.taps.append(self.attacker)
        self.engines = {}
        self.engine_spec = {}
        self.mgrs = {}
        self.mgr_info = {}
        self.handles = {}
        self.reqs = {}
        self.tags = plan.get("tags", {})
        self.threads = {}
        self.censuses = []
        self.errors = []            # unexpected exceptions in application ops
        self.mk_errors = []
        self.creds = []             # every (ns, User) the client was given
        self.lifecycle = []
        self.events = []            # environment events that happened
        self.shutdowns = []
        self.finished = False
        self.probes = []

    # ---- plan helpers
    def mkuser(self, u):
        s = u.get("secret", "")
        e = lambda x: (u.get(x) or s or "").encode()
        return wire.User(u["name"].encode(), u.get("auth"), u.get("priv"),
                         e("authSecret"), e("privSecret"))

    def behaviour(self, tag, agent):
        if tag is None:
            return {}
        b = self.tags.get(str(tag), {})
        only = b.get("first")
        if only is not None:
            # applies to the first n times an agent sees the request
            key = (tag, agent.id)
            self._seen[key] = self._seen.get(key, 0) + 1
            if self._seen[key] > only:
                return b.get("then", {})
        return b

    _seen = None

    def peek(self, m):
        """Decrypt a client message (simulation-side knowledge)."""
        for _, user in self.creds:
            if user.name != m["user"]:
                continue
            if m["flags"] & 1 and not (user.auth and wire.check_mac(m, user)):
                continue
            if not m["flags"] & 2:
                return m.get("pdu")
            if not user.priv:
                continue
            try:
                return wire.open_scoped(dict(m), user)["pdu"]
            except wire.WireError:
                continue
        return None

    def rel(self):
        return self.k.now - self.k.start

    # ---- environment
    def schedule_env(self):
        k = self.k
        q = self.plan.get("quiet")
        if q is not None:
            k.faults.quiet_after = k.start + q

            def heal():
                self.net.cut.clear()
                k.note("quiet")
            k.at(k.start + q, heal)
        for i, ev in enumerate(self.plan.get("env", [])):
            fn = self.env_fn(i, ev)
            if "pkt" in ev:
                self.net.send_triggers.setdefault(ev["pkt"], []).append(fn)
            else:
                k.at(k.start + ev["at"], fn)

    def env_fn(self, i, ev):
        do = ev["do"]
        k = self.k

        def fire():
            f = k.faults
            if f.allow is not None and ("env", i) not in f.allow:
                return
            if f.quiet_after is not None and k.now >= f.quiet_after \
                    and do not in ("heal", "note", "local"):
                return
            f.fired.append(("env", i))
            f.fired_by_kind["env_" + do] = f.fired_by_kind.get("env_" + do, 0) + 1
            k.note("env", do)
            self.events.append((k.now, do, ev))
            getattr(self, "env_" + do)(ev)
        return fire

    def env_partition(self, ev):
        self.net.cut.add(ev["agent"])
        if "for" in ev:
            self.k.after(ev["for"], lambda: self.net.cut.discard(ev["agent"]))

    def env_heal(self, ev):
        self.net.cut.clear()

    def env_restart(self, ev):
        self.agents[ev["agent"]].restart(
            gap=ev.get("gap", 0), time0=ev.get("time0", 0))

    def env_engineid(self, ev):
        self.agents[ev["agent"]].change_engine_id(bytes.fromhex(ev["engine_id"]))

    def env_agent_stall(self, ev):
        self.agents[ev["agent"]].stall(ev["for"], ev.get("keep", True),
                                       ev.get("clock", False))

    def env_clockrate(self, ev):
        a = self.agents[ev["agent"]]
        a.time0 = a.engine_time()
        a.epoch_at = self.k.now
        if a.paused is not None:
            a.paused = self.k.now
        a.rate = ev["rate"]

    def env_clockskip(self, ev):
        """The agent's clock runs ahead suddenly (within one boot it may not go back)."""
        self.agents[ev["agent"]].time0 += ev["by"]

    def env_wall(self, ev):
        self.k.wall_offset += ev["by"]

    def env_sigint(self, ev):
        if self.in_ops:
            self.k.interrupt(self.k.threads[0])

    def env_garbage(self, ev):
        rng = derive(self.seed, "garbage", ev.get("n", 0))
        for i in range(ev.get("count", 1)):
            data = self.garbage(rng)
            socks = [(h, s) for (f, p), lst in sorted(
                self.net.bound.items(), key=lambda x: (x[0][0], x[0][1]))
                for h, r in lst if (s := r()) is not None and h not in ("127.0.0.1", "::1")]
            if not socks:
                return
            _, s = socks[rng.randrange(len(socks))]
            fam = s.family
            import socket as S
            src = ("203.0.113.9", rng.randrange(1, 65536)) if fam == S.AF_INET \
                else ("2001:db8::9", rng.randrange(1, 65536))
            dst = ("192.0.2.10" if fam == S.AF_INET else "2001:db8::10", s._addr[1])
            if s._addr[0] not in ("0.0.0.0", "::"):
                dst = s._addr
            self.net.inject(data, src, dst, int(rng.random() * 2 * MS),
                            {"forged": "garbage"})

    def env_local(self, ev):
        """Another process on this host sends to a loopback port, not its own."""
        import socket as S
        rng = derive(self.seed, "local", ev.get("n", 0))
        taken = {p for (f, p), lst in self.net.bound.items()}
        for i in range(ev.get("count", 1)):
            socks = [(h, p, s) for (f, p), lst in sorted(
                self.net.bound.items(), key=lambda x: (x[0][0], x[0][1]))
                for h, r in lst if (s := r()) is not None and h in ("127.0.0.1", "::1")]
            if not socks:
                return
            host, port, s = socks[rng.randrange(len(socks))]
            data = rng.choice((bytes(1), bytes(1), b"", b"\x01", bytes(2),
                               rng.randbytes(rng.randrange(1, 60))))
            sport = rng.randrange(1024, 65536)
            while sport in taken:
                sport = rng.randrange(1024, 65536)
            pkt = self.net.packet(data, (host, sport), (host, port), "loop")
            self.k.note("local", pkt.id, len(data))
            s._deliver(self.k, pkt)

    def garbage(self, rng):
        how = rng.randrange(11)
        e = wire.Enc(0)
        if how == 0:
            return rng.randbytes(rng.randrange(0, 80))
        if how == 1:
            return b""
        if how == 2:
            # absurd lengths
            return bytes((0x30, rng.choice((0x80, 0x84, 0xff, 0x7f)))) + \
                b"\xff" * rng.randrange(0, 12)
        if how == 3:
            depth = rng.randrange(20, 400)
            return (b"\x30\x82\x05\x00" * depth)[:1400]
        if how == 4:
            return e.seq(e.integer(rng.choice((0, 1, 3))), e.octets(b"x"))
        if how == 5:
            return e.seq(e.integer(rng.choice((2, 4, 7, -1, 1 << 40, 255))),
                         e.octets(b"public"), e.pdu(0xa2, 1, 0, 0, []))
        # a plausible message with something wrong
        vbs = [((1, 3, 6, 1, 2), ("int", 5))]
        pdu = e.pdu(rng.choice((0xa0, 0xa2, 0xa2, 0xa4, 0xa6, 0xa7, 0xa8, 0xa9, 0xaf)),
                    rng.choice((0, 1, -1, 1 << 31, rng.getrandbits(40))),
                    rng.choice((0, 5, 99, -3)), rng.choice((0, 1, 77)), vbs)
        if how in (6, 7):
            data = wire.enc_community(rng.choice((0, 1)), b"public", pdu, e)
        else:
            flags = rng.choice((0, 1, 2, 3, 4, 7, 0xf8, 0xff))
            u = wire.User(b"nobody", "HmacSha", "AesCfb128", b"guessguess", b"guessguess")
            try:
                data = wire.enc_v3(
                    e, rng.choice((0, 1, -5, 1 << 33, rng.getrandbits(31))),
                    rng.choice((1472, 484, 0, -1, 1 << 35)), flags,
                    rng.choice((b"", b"\x80\0\0\0\1x", rng.randbytes(40))),
                    rng.choice((0, 1, -1, (1 << 31) - 1)),
                    rng.choice((0, 7, -9, (1 << 31) - 1)), b"nobody",
                    wire.enc_scoped(e, b"x", b"", pdu), u, bytes(8),
                    model=rng.choice((3, 3, 3, 0, 1, 2, 9)))
            except (OverflowError, ValueError):
                data = b"\x30\x03\x02\x01\x03"
        if how in (7, 9, 10):
            from .net import corrupt
            for _ in range(rng.randrange(1, 5)):
                data = corrupt(data, rng.random()) or b"\x30"
        return data

    def env_note(self, ev):
        pass

    # ---- application
    def run(self):
        self._seen = {}
        self.in_ops = False
        reset_hash()
        self.schedule_env()
        verdict = self.k.run(self.main)
        self.verdict = verdict
        # let go of everything while no run is active
        self.after_live = None
        return verdict

    def main(self):
        for spec in self.plan.get("engines", [{}]):
            self.op_engine(spec.get("id", 0), spec)
        self.run_ops(self.plan["ops"], main=True)
        for th in list(self.threads.values()):
            th.join()
        if self.plan.get("final", True):
            self.handles.clear()
            for idx in sorted(self.engines):
                self.op_shutdown(idx)
        self.finished = True

    def run_ops(self, ops, main=False):
        for op in ops:
            self.k.yield_point("op")
            if main:
                # the user presses ^C only while waiting for something
                self.in_ops = op[0] in ("req", "wait", "sleep", "until")
            try:
                getattr(self, "op_" + op[0])(*op[1:])
            except KeyboardInterrupt:
                self.k.note("kbd", op[0])
                self.lifecycle.append((self.k.now, "interrupt", op[0]))
            except K.SimKill:
                raise
            except Exception as err:
                import traceback
                self.errors.append((op, repr(err), traceback.format_exc()))
                err.__traceback__ = None
        if main:
            self.in_ops = False

    def op_engine(self, idx, spec):
        from snmp.engine import Engine
        kw = {}
        if "maxsize" in spec:
            kw["msgMaxSize"] = spec["maxsize"]
        if "community" in spec:
            kw["defaultCommunity"] = spec["community"].encode()
        if "autowait" in spec:
            kw["autowait"] = spec["autowait"]
        if "version" in spec:
            from snmp.message import ProtocolVersion
            kw["defaultVersion"] = {0: ProtocolVersion.SNMPv1, 1: ProtocolVersion.SNMPv2c,
                                    3: ProtocolVersion.SNMPv3}[spec["version"]]
        if spec.get("v6"):
            from snmp.transport import TransportDomain
            kw["defaultDomain"] = TransportDomain.UDP_IPv6
        self.engines[idx] = Engine(**kw)
        self.engine_spec[idx] = dict(spec)
        for u in spec.get("users", []):
            self.op_user(idx, u)

    def op_user(self, idx, u):
        from snmp.security import usm
        from snmp.security.usm import auth, priv
        from snmp.security import levels
        kw = {}
        if u.get("auth"):
            kw["authProtocol"] = getattr(auth, u["auth"])
        if u.get("priv"):
            kw["privProtocol"] = getattr(priv, u["priv"])
        for f in ("authSecret", "privSecret", "secret"):
            if u.get(f):
                kw[f] = u[f].encode()
        if "default" in u:
            kw["default"] = u["default"]
        if u.get("level") is not None:
            kw["defaultSecurityLevel"] = getattr(levels, LEVELS[u["level"]])
        if u.get("ns"):
            kw["namespace"] = u["ns"]
        t0 = self.k.now
        try:
            self.engines[idx].usm.addUser(u["name"], **kw)
        except Exception as err:
            if u.get("expect") == "refused" and isinstance(err, ValueError):
                self.k.note("user refused", u["name"])
                self.probes.append(("user", u["name"], "refused"))
                err.__traceback__ = None
                return
            self.mk_errors.append((self.k.now, "user", u["name"], repr(err)))
            err.__traceback__ = None
            return
        if u.get("expect"):
            # a user the engine has already
            self.probes.append(("user", u["name"], "replaced" if u["expect"] == "refused"
                                else "again"))
            return
        self.creds.append((u.get("ns", ""), self.mkuser(u)))
        self.k.note("user", u["name"])

    def op_mk(self, mid, spec):
        from snmp.message import ProtocolVersion
        from snmp.security import levels
        from snmp.transport import TransportDomain
        a = self.agents[spec["agent"]]
        eng = self.engines[spec.get("eng", 0)]
        kw = {}
        v = spec["version"]
        if not spec.get("default_version"):
            kw["version"] = {0: ProtocolVersion.SNMPv1, 1: ProtocolVersion.SNMPv2c,
                             3: ProtocolVersion.SNMPv3}[v]
        addr = a.addr
        v6 = ":" in addr[0]
        if not spec.get("default_domain"):
            if v6:
                kw["domain"] = TransportDomain.UDP_IPv6
            elif self.engine_spec[spec.get("eng", 0)].get("v6"):
                kw["domain"] = TransportDomain.UDP_IPv4
            if spec.get("numbers") and "version" in kw:
                kw["version"] = int(kw["version"])
        if v == 3 and spec.get("model") is not None:
            from snmp.security.models import SecurityModel
            kw["securityModel"] = 3 if spec["model"] == "number" else SecurityModel.USM
        if spec.get("local") is not None:
            loc = spec["local"]
            kw["localAddress"] = tuple(loc) if isinstance(loc, list) else loc
        if "autowait" in spec:
            kw["autowait"] = spec["autowait"]
        if v == 3:
            if spec.get("eid"):
                kw["engineID"] = bytes.fromhex(
                    spec["eid"]) if isinstance(spec["eid"], str) else a.engine_id
            if spec.get("user"):
                kw["defaultUserName"] = spec["user"]
            if spec.get("ns"):
                kw["namespace"] = spec["ns"]
            if spec.get("level") is not None:
                kw["defaultSecurityLevel"] = getattr(levels, LEVELS[spec["level"]])
        elif spec.get("community") is not None:
            kw["community"] = spec["community"].encode()
        target = addr if a.addr[1] != 161 else addr[0]
        info = dict(spec, mid=mid, t0=self.k.now, error=None, seq0=self.k.seq)
        self.mgr_info[mid] = info
        try:
            self.mgrs[mid] = eng.Manager(target, **kw)
        except Exception as err:
            info["error"] = (type(err).__name__, str(err))
            err.__traceback__ = None
        info["t1"] = self.k.now
        self.k.note("mk", mid, info["error"])

    def op_mkbad(self, spec):
        """A Manager() call that must fail cleanly."""
        eng = self.engines[spec.get("eng", 0)]
        from snmp.transport import TransportDomain
        kw = {k: (tuple(v) if isinstance(v, list) else v)
              for k, v in spec.get("kw", {}).items()}
        if ":" in spec["addr"]:
            kw["domain"] = TransportDomain.UDP_IPv6
        # the operating system refuses resources, during this call only
        fault = spec.get("fault", {})
        saved = dict(self.k.cfg)
        self.k.cfg.update(fault)
        try:
            try:
                eng.Manager(spec["addr"] if isinstance(spec["addr"], str)
                            else tuple(spec["addr"]), **kw)
            finally:
                for name in fault:
                    self.k.cfg[name] = saved.get(name, 0.0)
            self.probes.append(("mkbad", spec, None))
        except Exception as err:
            self.probes.append(("mkbad", spec, type(err).__name__))
            err.__traceback__ = None

    def op_connect(self, idx, v6, port):
        """A socket of the application's own making, handed to the engine."""
        from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket
        eng = self.engines[idx]
        try:
            sock = (UdpIPv6Socket if v6 else UdpIPv4Socket)("::" if v6 else "0.0.0.0", port)
        except OSError:
            return
        err = None
        try:
            eng.connectTransport(sock)
        except Exception as e:
            err = (type(e).__name__, str(e))
            e.__traceback__ = None
            sock.close()
        self.probes.append(("connect", (idx, v6, port), err))
        self.k.note("connect", idx, v6, err)

    def op_delm(self, mid, cyclic=False):
        if cyclic and mid in self.mgrs:
            ring = [self.mgrs[mid]]
            ring.append(ring)
        self.mgr_info.get(mid, {})["deleted"] = self.k.now
        self.mgr_info.get(mid, {})["del_seq"] = self.k.seq
        self.mgrs.pop(mid, None)
        self.k.note("delm", mid)

    def op_settle(self):
        """Let the library's own threads finish whatever they are doing."""
        k = self.k
        for _ in range(2000):
            busy = any(t is not k.cur and t.state != 2 and t.waiting_on not in
                       ("poll", "recvfrom", "pipe read", "sleep") for t in k.threads)
            seams.sim_sleep(.0005)
            if not busy:
                break

    def op_req(self, rid, mid, spec):
        from snmp.security import levels
        from snmp.smi import OID
        tag = spec["tag"]
        r = Req(rid, mid, tag, spec)
        self.reqs[rid] = r
        m = self.mgrs.get(mid)
        if m is None:
            r.failed = ("nomgr", "")
            return
        kind = spec["type"]
        kw = {}
        for f in ("timeout", "refreshPeriod"):
            if f in spec:
                kw[f] = spec[f]
        if "wait" in spec:
            kw["wait"] = spec["wait"]
        if spec.get("level") is not None:
            kw["securityLevel"] = getattr(levels, LEVELS[spec["level"]])
        if spec.get("user") is not None:
            kw["user"] = spec["user"].encode()
        if spec.get("community") is not None:
            kw["community"] = spec["community"].encode()
        oids = [A.TAG_PREFIX + (tag, 1)]
        for i, o in enumerate(spec.get("oids", [])):
            oids.append(tuple(o))
        r.oids = oids
        if kind == "set":
            vals = [("str", b"v%d" % tag)] + [thaw(v) for v in spec.get("vals", [])]
            oids = oids[:len(vals)]
            r.sent_vbs = list(zip(oids, vals))
            args = [(OID(*o), to_snmp(v)) for o, v in r.sent_vbs]
        else:
            r.sent_vbs = [(o, ("null",)) for o in oids]
            if spec.get("text"):
                args = [".".join(map(str, o)) for o in oids]
            else:
                args = [OID(*o) for o in oids]
        if kind == "getBulk":
            kw["nonRepeaters"] = spec.get("nr", 0)
            kw["maxRepetitions"] = spec.get("mr", 0)
        waits = kw.get("wait")
        if waits is None:
            waits = self.autowait(mid)
        r.wait = waits
        r.t_call = self.k.now
        r.seq_call = self.k.note("req", rid)
        r.tid = self.k.cur.tid
        r.stall0 = self.k.cur.stalled_ns
        fn = getattr(m, kind)
        if waits:
            self.outcome_of(r, lambda: fn(*args, **kw), r.t_call, r.seq_call, True)
            r.t_sent = r.t_call
            return
        try:
            h = fn(*args, **kw)
        except K.SimKill:
            raise
        except BaseException as err:
            r.failed = self.classify(err)
            err.__traceback__ = None
            if isinstance(err, KeyboardInterrupt):
                r.failed = ("interrupt",)
        else:
            self.handles[rid] = h
            del h
        r.t_sent = self.k.now
        self.k.note("sent", rid, r.failed)

    def autowait(self, mid):
        info = self.mgr_info[mid]
        if "autowait" in info:
            return info["autowait"]
        return self.engine_spec[info.get("eng", 0)].get("autowait", True)

    def classify(self, err):
        name = type(err).__name__
        if name == "ErrorResponse":
            return ("error", int(err.status), self.err_index(err))
        if name == "Timeout":
            return ("timeout",)
        if isinstance(err, KeyboardInterrupt):
            return ("interrupt",)
        if hasattr(err, "name") and hasattr(err, "value") and name.endswith("Report"):
            return ("report", name, tuple(err.name), canon(err.value))
        if isinstance(err, OSError):
            return ("oserror", err.errno)
        return ("exc", name, str(err))

    @staticmethod
    def err_index(err):
        """errorIndex is not kept as such; the cause variable-binding is."""
        cause = getattr(err, "cause", None)
        if cause is None:
            return None
        if isinstance(cause, int):
            return ("int", cause)
        try:
            return ("vb", tuple(cause.name), canon(cause.value))
        except AttributeError:
            return ("pdu",)

    def outcome_of(self, r, call, t0, seq0, sync=False):
        k = self.k
        s0 = k.cur.stalled_ns
        exc = None
        try:
            vbs = call()
        except K.SimKill:
            raise
        except BaseException as err:
            out = self.classify(err)
            if out[0] == "exc":
                import traceback
                r.tb = traceback.format_exc()
            err.__traceback__ = None
            c = err.__cause__ or err.__context__
            if c is not None:
                c.__traceback__ = None
        else:
            out = ("ok", canon_vbs(vbs))
            del vbs
        seq1 = k.note("outcome", r.rid, out[0])
        r.wait_calls.append((t0, k.now, k.cur.stalled_ns - s0, out, seq0, seq1, sync))
        if r.outcome is None:
            r.outcome = out
            r.done_t = k.now
            r.done_seq = seq1

    def op_wait(self, rid):
        r = self.reqs.get(rid)
        h = self.handles.get(rid)
        if h is None:
            return
        t0 = self.k.now
        seq0 = self.k.note("wait", rid)
        self.outcome_of(r, h.wait, t0, seq0)

    def op_drop(self, rid, cyclic=False):
        if cyclic and rid in self.handles:
            # the application kept it in a structure that refers to itself
            ring = [self.handles[rid]]
            ring.append(ring)
        r = self.reqs.get(rid)
        if r is not None and r.dropped is None:
            r.dropped = self.k.now
            r.drop_seq = self.k.note("dropreq", rid)
        self.handles.pop(rid, None)

    def op_sleep(self, ns):
        _time.sleep(ns / 1e9)

    def op_move(self, agent, engine_id):
        self.agents[agent].change_engine_id(bytes.fromhex(engine_id))

    def op_cfg(self, change):
        self.k.cfg = dict(self.k.cfg, **change)

    def op_until(self, ns):
        t = self.k.start + ns
        if t > self.k.now:
            _time.sleep((t - self.k.now) / 1e9)

    def op_spawn(self, name):
        ops = self.plan["threads"][name]
        th = threading.Thread(target=self.run_ops, args=(ops,), name=name)
        self.threads[name] = th
        th.start()

    def op_join(self, name):
        th = self.threads.get(name)
        if th is not None:
            th.join()

    def op_gc(self):
        self.k.note("opgc")
        gc.collect()

    def op_shutdown(self, idx, via="shutdown"):
        eng = self.engines.get(idx)
        if eng is None:
            return
        t0 = self.k.now
        err = None
        try:
            if via == "exit":
                eng.__exit__(None, None, None)
            elif via == "raise":
                # the application leaves its "with" block through an error of its own
                try:
                    with eng as same:
                        if same is not eng:
                            raise TypeError("the with statement yields another object")
                        raise AppError()
                except AppError:
                    pass
                else:
                    raise TypeError("the application's own error was swallowed")
            else:
                eng.shutdown()
        except Exception as e:
            err = (type(e).__name__, str(e))
            e.__traceback__ = None
        self.shutdowns.append((idx, t0, self.k.now, err, sorted(self.k.fds.open),
                               self.alive_listeners()))
        self.k.note("shutdown", idx, err)

    def op_openfd(self, name):
        """The application itself opens a descriptor (it may reuse a number)."""
        import os
        r, w = os.pipe()
        self.probes.append(("openfd", name, (r, w)))

    def op_checkfd(self, name):
        for kind, n, fds in self.probes:
            if kind == "openfd" and n == name:
                for fd in fds:
                    if fd not in self.k.fds.open:
                        self.probes.append(("stolenfd", name, fd))

    def alive_listeners(self):
        return [t.name for t in self.k.threads
                if t.state != K.DONE and t.tid != 0
                and t.name not in self.threads and t.name.startswith("thread-")]

    # ---- census of the library's memory
    def op_census(self, label):
        gc.collect()
        self.censuses.append((label, self.k.now, census(self)))


SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
        types.CodeType, types.FrameType, weakref.ref)


def census(world):
    """Objects reachable from the live engines and managers, by kind."""
    roots = [world.engines[i] for i in sorted(world.engines)]
    roots += [world.mgrs[m] for m in sorted(world.mgrs)]
    roots += [world.handles[h] for h in sorted(world.handles)]
    seen = {}
    todo = list(roots)
    count = collections.Counter()
    sizes = 0
    threads = set()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        t = type(o)
        if isinstance(o, SKIP) and not isinstance(o, weakref.ref):
            continue
        mod = t.__module__
        container = t in (dict, list, set, tuple, frozenset, collections.deque)
        if isinstance(o, weakref.ref):
            seen[id(o)] = o
            count["weakref"] += 1
            continue
        if not container and not mod.startswith("snmp") and t is not types.MethodType:
            if t in (int, bytes, str, float, bool, type(None)):
                continue
            seen[id(o)] = o
            count[t.__name__] += 1
            continue
        seen[id(o)] = o
        count[t.__name__] += 1
        if container:
            sizes += len(o)
        todo.extend(gc.get_referents(o))
    count["__elements__"] = sizes
    return dict(count)
