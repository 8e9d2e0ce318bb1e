"""A manual-clock rig around the real library, for the demonstrations.

The library's sockets, its listening thread and its clock are replaced: datagrams go
to python functions, time passes only while the library waits.
"""

import heapq
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OPENSSL_CONF", os.path.join(HERE, "legacy.cnf"))
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.path.insert(0, HERE)

import wire

real_monotonic = time.monotonic


class Clock:
    now = 1000.0
    wall = 1.7e9
    queue = []
    serial = 0


def at(delay, fn, *args):
    Clock.serial += 1
    heapq.heappush(Clock.queue, (Clock.now + delay, Clock.serial, fn, args))


def run(until, stop=lambda: False):
    """Let time pass until the given time, or until stop() holds."""
    while not stop():
        if Clock.queue and Clock.queue[0][0] <= until:
            t, _, fn, args = heapq.heappop(Clock.queue)
            Clock.now = max(Clock.now, t)
            fn(*args)
        else:
            Clock.now = max(Clock.now, until)
            return


def sleep(seconds):
    run(Clock.now + seconds)


time.monotonic = lambda: Clock.now
time.time = lambda: Clock.wall + Clock.now
RealEvent = threading.Event


class Event(RealEvent):
    def wait(self, timeout=None):
        caller = sys._getframe(1).f_globals.get("__name__", "")
        if not caller.startswith("snmp"):
            return super().wait(timeout)
        if timeout is None:
            timeout = 1e6
        if timeout <= 0.0 and not self.is_set():
            Clock.now += 1e-5           # nothing takes no time at all
        run(Clock.now + max(0.0, timeout), self.is_set)
        return self.is_set()


threading.Event = Event
if os.environ.get("DEMO_BACKEND") == "pycryptodome":
    class Block:
        def find_spec(self, name, path=None, target=None):
            if name.startswith("snmp.openssl"):
                raise ImportError(name)
            return None
    sys.meta_path.insert(0, Block())

import snmp
assert os.path.abspath(snmp.__file__).startswith(os.getcwd()), snmp.__file__
from snmp import *
from snmp.exception import *
from snmp.smi import *
from snmp.pdu import *
from snmp.message import ProtocolVersion
from snmp.security.levels import *
from snmp.security.usm.auth import *
from snmp.security.usm.priv import *
from snmp.transport.udp import UdpIPv4Socket

V1, V2C, V3 = ProtocolVersion.SNMPv1, ProtocolVersion.SNMPv2c, ProtocolVersion.SNMPv3


class Mux:
    def __init__(self):
        self.sockets = []

    def register(self, sock):
        self.sockets.append(sock)

    def listen(self, listener):
        pass

    def stop(self):
        pass

    def close(self):
        pass


class Net:
    """Where datagrams go: address -> function(rig, data, address)"""

    def __init__(self, **kw):
        self.engine = Engine(**kw)
        self.engine.dispatcher.multiplexor = Mux()
        self.sent = []
        self.hosts = {}
        self.fail = None
        net = self

        class Transport(UdpIPv4Socket):
            def __init__(self, host="", port=0):
                pass

            fileno = 7

            def send(self, address, data):
                if net.fail is not None:
                    net.fail(address, data)
                net.sent.append((Clock.now, address, data))
                host = net.hosts.get(address[0])
                if host is not None:
                    host(net, data, address)

            def close(self):
                pass

        self.engine.TRANSPORTS = {Transport.DOMAIN: Transport}
        self.transport = Transport()

    def deliver(self, data, address=("10.0.0.1", 161), delay=None):
        if delay is None:
            self.engine.dispatcher.hear(self.transport, address, data)
        else:
            at(delay, self.deliver, data, address)


ENC = wire.Enc()


class Agent:
    """Answers like a remote engine; override hooks to misbehave."""

    def __init__(self, engine_id=b"\x80\x00\x1f\x88\x04demo", users=(), communities=(b"public",),
                 boots=3, time0=500, delay=0.01):
        self.engine_id = engine_id
        self.users = {u.name.encode(): u for u in users}
        self.communities = set(communities)
        self.boots = boots
        self.time0 = time0
        self.born = Clock.now
        self.delay = delay
        self.salt = 1 << 40
        self.seen = []              # (time, decoded message)
        self.replies = []           # bytes
        self.serial = 0

    def time(self):
        return self.time0 + int(Clock.now - self.born)

    def restart(self):
        self.boots += 1
        self.time0 = 0
        self.born = Clock.now

    def __call__(self, net, data, address):
        m = self.read(data)
        self.seen.append((Clock.now, m))
        self.handle(net, m, address)

    def read(self, data):
        if wire.dec_version(data) < 3:
            return wire.dec_community(data)
        m = wire.dec_v3(data)
        user = self.users.get(m["user"])
        if m["flags"] & 2 and user is not None and user.priv and m["engine_id"] == self.engine_id:
            wire.open_scoped(m, user)
        return m

    def handle(self, net, m, address):
        data = self.answer(m)
        if data is not None:
            self.replies.append(data)
            net.deliver(data, address, self.delay)

    def values(self, m):
        """-> status, index, varbinds"""
        self.serial += 1
        pdu = m["pdu"]
        if pdu["type"] == "set":
            return 0, 0, pdu["vbs"]
        nxt = () if pdu["type"] == "get" else (1,)
        return 0, 0, [(o + nxt, ("int", self.serial)) for o, _ in pdu["vbs"]]

    def answer(self, m):
        if m["version"] < 3:
            if m["community"] not in self.communities:
                return None
            return self.community(m, *self.values(m))
        if m["engine_id"] != self.engine_id:
            return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), 0)
        user = self.users.get(m["user"])
        level = m["flags"] & 3
        if user is None:
            return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0), 0)
        if level & ~user.level:
            return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 1, 0), 0)
        if level & 1:
            if not wire.check_mac(m, user):
                return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0), 0)
            if m["boots"] != self.boots or abs(m["time"] - self.time()) > 150:
                return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), 1)
        return self.response(m, *self.values(m))

    def community(self, m, status, index, vbs):
        return wire.enc_community(m["version"], m["community"], ENC.pdu(
            wire.RESPONSE, m["pdu"]["reqid"], status, index, vbs), ENC)

    def pack(self, m, pdu, level, **kw):
        self.salt += 1
        user = kw.pop("user", self.users.get(m["user"]))
        name = kw.pop("name", m["user"])
        args = dict(engine_id=self.engine_id, boots=self.boots, time=self.time(),
                    msgid=m["msgid"])
        args.update(kw)
        eid = args["engine_id"]
        return wire.enc_v3(ENC, args["msgid"], 1472, level, eid, args["boots"],
                           args["time"], name,
                           wire.enc_scoped(ENC, args.get("ctx", eid), b"", pdu),
                           user, self.salt.to_bytes(8, "big"))

    def report(self, m, oid, level, **kw):
        reqid = m["pdu"]["reqid"] if "pdu" in m else 0
        return self.pack(m, ENC.pdu(wire.REPORT, reqid, 0, 0, [(oid, ("c32", 1))]), level, **kw)

    def response(self, m, status, index, vbs, level=None, **kw):
        return self.pack(m, ENC.pdu(wire.RESPONSE, m["pdu"]["reqid"], status, index, vbs),
                         m["flags"] & 3 if level is None else level, **kw)


def user(name, auth=None, priv=None, secret=b"maplesyrup", priv_secret=None):
    return wire.User(name, auth, priv, secret, priv_secret or secret)


PROTO = {c.__name__: c for c in (HmacMd5, HmacSha, HmacSha256, HmacSha512)}
PRIV = {"AesCfb128": AesCfb128, "DesCbc": DesCbc}


def add(net, u, **kw):
    args = {}
    if u.auth:
        args.update(authProtocol=PROTO[u.auth], authSecret=u.auth_secret)
    if u.priv:
        args.update(privProtocol=PRIV[u.priv], privSecret=u.priv_secret)
    net.engine.addUser(u.name, **args, **kw) if hasattr(net.engine, "addUser") \
        else net.engine.usm.addUser(u.name, **args, **kw)


class Failed(Exception):
    pass


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


def outcome(fn, *args, **kw):
    """What a call does, as something to compare."""
    try:
        r = fn(*args, **kw)
    except Exception as err:
        return type(err).__name__
    return r
