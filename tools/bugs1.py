BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


V3M = "snmp/manager/v3.py"
V1M = "snmp/manager/v1.py"
V2M = "snmp/manager/v2c.py"
MSG3 = "snmp/message/v3.py"
MSG2 = "snmp/message/v2c.py"
USM = "snmp/security/usm/implementation.py"
TK = "snmp/security/usm/timekeeper.py"
USERS = "snmp/security/usm/users.py"
DISP = "snmp/dispatcher.py"

# ---------------------------------------------------------------- C01
bug("c01-stale-callback", "C01", [(MSG3, """    def uncache(self, msgID: int) -> None:
        with self.cacheLock:
            try:
                del self.outstanding[msgID]
            except KeyError:
                pass
""", """    def uncache(self, msgID: int) -> None:
        with self.cacheLock:
            try:
                del self.outstanding[msgID]
            except KeyError:
                pass
            else:
                # keep the identifiers dense
                self.generator.previous -= self.generator.step

                if self.generator.previous < self.generator.wrap - self.generator.wrap:
                    self.generator.previous += self.generator.range
""")], "several messages in flight, closed in an order other than the last first",
    "freeing any identifier steps the generator back by one, so identifiers of messages that "
    "are still in the network are used again for new ones", """
net = Net()
add(net, user("bob"))
a = Agent(users=[user("bob")])
net.hosts["10.0.0.1"] = a
m = net.engine.Manager("10.0.0.1", autowait=False)
m.get("1.3.6.1.1").wait()
ids = []
for i in range(20):
    r = m.get(f"1.3.6.1.2.{i}", timeout=0.001)
    outcome(r.wait)
    del r
seen = [x["msgid"] for _, x in a.seen]
check(len(set(seen)) == len(seen), f"message identifiers repeat: {seen}")
""")

# ---------------------------------------------------------------- C02
bug("c02-recv-size", "C02", [("snmp/engine.py",
    "self.dispatcher = Dispatcher(UdpMultiplexor(self.msgMaxSize))",
    "self.dispatcher = Dispatcher(UdpMultiplexor())")],
    "an engine configured for messages larger than 1472 bytes, and an agent that sends one",
    "large answers are cut off at the default size and dropped", """
import socket, threading
e = Engine(msgMaxSize=8000)
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
s.bind(("127.0.0.1", 0))
def serve():
    while True:
        data, addr = s.recvfrom(9000)
        if not data: return
        m = wire.dec_community(data)
        vbs = [(m["pdu"]["vbs"][0][0], ("str", b"x" * 3000))]
        s.sendto(wire.enc_community(1, b"public", ENC.pdu(wire.RESPONSE, m["pdu"]["reqid"], 0, 0, vbs), ENC), addr)
threading.Thread(target=serve, daemon=True).start()
time.monotonic = real_monotonic
threading.Event.wait = RealEvent.wait
with e:
    m = e.Manager(("127.0.0.1", s.getsockname()[1]), version=V2C, community=b"public")
    r = outcome(m.get, "1.3.6.1.2", timeout=3.0)
check(r != "Timeout" and len(r[0].value.data) == 3000, f"large answer: {r}")
""")

bug("c02-bulk-repeat", "C02", [(V2M, """            # Calculating it like this mitigates over-delay
            periodsElapsed""", """            if isinstance(self.pdu, BulkPDU) and self.pdu.maxRepetitions > 1:
                # the response may have been too large to get through
                self.pdu.maxRepetitions //= 2

            # Calculating it like this mitigates over-delay
            periodsElapsed""")],
    "a getBulk request whose first copy is lost",
    "a repeated bulk request asks for fewer repetitions than the application did", """
net = Net()
class A(Agent):
    def handle(self, net, m, address):
        if len(self.seen) > 1:
            super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public")
m.getBulk("1.3.6.1.2", maxRepetitions=10)
check([x["pdu"]["b"] for _, x in a.seen] == [10, 10], [x["pdu"]["b"] for _, x in a.seen])
""")

bug("c02-community-refresh", "C02", [(V1M, """            self.nextRefresh += periodsElapsed * self.period
            self.reallySend()
""", """            self.nextRefresh += periodsElapsed * self.period
            self.manager.sendPdu(
                self.pdu,
                self,
                self.manager.defaultCommunity,
            )
""")], "an SNMPv1 request with its own community that is repeated",
    "repeats of a request carry the manager's default community", """
net = Net()
class A(Agent):
    def handle(self, net, m, address):
        if len(self.seen) > 1:
            super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(communities=[b"private"])
m = net.engine.Manager("10.0.0.1", version=V1, community=b"public")
r = outcome(m.get, "1.3.6.1.2", community=b"private")
check([x["community"] for _, x in a.seen] == [b"private"] * 2, [x["community"] for _, x in a.seen])
""")

# ---------------------------------------------------------------- C03
bug("c03-short-digest", "C03", [(USM, """        padding = user.auth.msgAuthenticationParameters
        if len(securityParameters.signature) != len(padding):
            raise WrongDigest("Invalid signature length")
""", """        # the remote engine may truncate the digest further
        padding = bytes(len(securityParameters.signature))
"""), (USM, """        if user.auth.sign(wholeMsg) != securityParameters.signature:
            raise WrongDigest("Invalid signature")
""", """        if not user.auth.sign(wholeMsg).startswith(securityParameters.signature):
            raise WrongDigest("Invalid signature")
""")], "a forged message whose authentication parameters are shorter than the algorithm's",
    "a message with an empty digest passes for authenticated", """
net = Net()
al = user("alice", "HmacSha", None, b"alicesecret")
add(net, al)
a = Agent(users=[al])
def host(net, data, address):
    m = a.read(data)
    if m["engine_id"] == a.engine_id and m["flags"] & 1 and m["boots"] == a.boots:
        pdu = ENC.pdu(wire.RESPONSE, m["pdu"]["reqid"], 0, 0, [(m["pdu"]["vbs"][0][0], ("int", 666))])
        net.deliver(wire.enc_v3(ENC, m["msgid"], 1472, 1, a.engine_id, a.boots, a.time(), b"alice",
            wire.enc_scoped(ENC, a.engine_id, b"", pdu), None, forge_mac=b""), address, 0.001)
    a(net, data, address)
net.hosts["10.0.0.1"] = host
r = net.engine.Manager("10.0.0.1").get("1.3.6.1.2")
check(r[0].value != Integer(666), "accepted a message without a digest")
""")

bug("c03-report-ends", "C03", [(V3M, """        elif self.exception is None:
            self.exception = exception
""", """        elif self.exception is None:
            self.exception = exception
        else:
            # the remote engine insists
            self.event.set()
""")], "two unauthenticated error reports for the same request, e.g. from an attacker",
    "forged reports end an authenticated request before its timeout", """
net = Net()
al = user("alice", "HmacSha", None, b"alicesecret")
add(net, al)
class A(Agent):
    def handle(self, net, m, address):
        if m["engine_id"] == self.engine_id and m["flags"] & 1:
            for i in range(3):
                net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0), 0), address, 0.001)
            self.delay = 0.5
        super().handle(net, m, address)
net.hosts["10.0.0.1"] = A(users=[al])
r = outcome(net.engine.Manager("10.0.0.1").get, "1.3.6.1.2")
check(not isinstance(r, str), f"request ended with {r}")
""")

# ---------------------------------------------------------------- C04
bug("c04-level-fallback", "C04", [(V3M, """    def processNotInTimeWindow(self, engineID: bytes) -> None:
        self.manager.onReport(self, engineID)
""", """    def processNotInTimeWindow(self, engineID: bytes) -> None:
        if self.manager.defaultSecurityLevel < self.securityLevel:
            self.securityLevel = self.manager.defaultSecurityLevel

        self.manager.onReport(self, engineID)
""")], "a request with a level above the manager's default that runs into a restart of the agent",
    "after a notInTimeWindow report the request is sent again at the manager's default level", """
net = Net()
al = user("alice", "HmacSha", "AesCfb128")
add(net, al)
a = Agent(users=[al]); net.hosts["10.0.0.1"] = a
m = net.engine.Manager("10.0.0.1", defaultSecurityLevel=authNoPriv)
m.get("1.3.6.1.2")
a.restart()
n = len(a.seen)
m.get("1.3.6.1.2", securityLevel=authPriv)
levels = [x["flags"] & 3 for _, x in a.seen[n:]]
check(set(levels) == {3}, f"levels sent: {levels}")
""")

bug("c04-discovery-user", "C04", [(V3M, """                    pdu = GetRequestPDU()
                    engineID = b""
                    user = b""
                    securityLevel = noAuthNoPriv""", """                    pdu = GetRequestPDU()
                    engineID = b""
                    securityLevel = noAuthNoPriv

                    if self._nextRefresh < self.expiration:
                        user = b\"\"""")],
    "a request whose timeout is shorter than its refresh period, on an undiscovered manager",
    "the discovery message names the user", """
net = Net()
al = user("alice", "HmacSha", "AesCfb128")
add(net, al)
class A(Agent):
    def handle(self, net, m, address): pass
a = A(users=[al]); net.hosts["10.0.0.1"] = a
m = net.engine.Manager("10.0.0.1")
outcome(m.get, "1.3.6.1.2", timeout=0.9)
check(all(x["user"] == b"" for _, x in a.seen), [x["user"] for _, x in a.seen])
""")

bug("c04-shared-flags", "C04", [(V3M, """            if engineID is None:
                if self.engineID is None:
                    pdu = GetRequestPDU()
                    engineID = b""
                    user = b""
                    securityLevel = noAuthNoPriv
                else:
                    engineID = self.engineID
            else:
                self.engineID = engineID
""", """            if engineID is None:
                if self.engineID is None:
                    pdu = GetRequestPDU()
                    engineID = b""
                    user = b""
                    securityLevel = noAuthNoPriv
                else:
                    engineID = self.engineID
            else:
                if self.engineID is not None and engineID != self.engineID:
                    # probe the new engine before trusting it with any secrets
                    securityLevel = noAuthNoPriv

                self.engineID = engineID
""")], "a request that has been sent to one engine and is then redirected to another one by an "
    "unknownEngineID report, e.g. after the agent changed its engine identifier or by a forgery",
    "the whole request is sent in the clear and unsigned", """
net = Net()
al = user("alice", "HmacSha", "AesCfb128")
add(net, al)
a = Agent(users=[al]); net.hosts["10.0.0.1"] = a
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.2")
a.engine_id = b"\\x80\\x00\\x1f\\x88\\x04changed"
n = len(a.seen)
outcome(m.get, "1.3.6.1.2")
bad = [x for _, x in a.seen[n:] if x["flags"] & 3 != 3]
check(not bad, "a request left in the clear")
""")

# ---------------------------------------------------------------- C05
bug("c05-salt-zero", "C05", [("snmp/security/usm/priv/openssl/des.py",
    "self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)", "self.salt = 0"),
    ("snmp/security/usm/priv/pycryptodome/des.py",
    "self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)", "self.salt = 0")],
    "a manager for an engine that is released and created again while the agent keeps running",
    "every new set of localized DES credentials starts from the same salt, so vectors repeat", """
net = Net()
al = user("alice", "HmacMd5", "DesCbc")
add(net, al)
a = Agent(users=[al]); net.hosts["10.0.0.1"] = a
ivs = []
for i in range(2):
    m = net.engine.Manager("10.0.0.1")
    m.get("1.3.6.1.2")
    del m
ivs = [x["salt"] for _, x in a.seen if x["flags"] & 2]
check(len(ivs) == len(set(ivs)), f"salts {[s.hex() for s in ivs]}")
""")

bug("c05-salt-narrow", "C05", [("snmp/security/usm/priv/openssl/aes.py",
    "self.salt = (self.salt + 1) % self.SALTWRAP", "self.salt = (self.salt + 1) % (self.SALTWRAP - 1) & ~0xff | (self.salt + 1) & 0x3f"),
    ("snmp/security/usm/priv/pycryptodome/aes.py",
    "self.salt = (self.salt + 1) % self.SALTWRAP", "self.salt = (self.salt + 1) % (self.SALTWRAP - 1) & ~0xff | (self.salt + 1) & 0x3f")],
    "more than 64 encrypted messages within one second of the remote clock",
    "the salt repeats after 64 messages, so bursts reuse initialisation vectors", """
net = Net()
al = user("alice", "HmacMd5", "AesCfb128")
add(net, al)
a = Agent(users=[al], delay=0.0001); net.hosts["10.0.0.1"] = a
m = net.engine.Manager("10.0.0.1")
for i in range(100):
    m.get("1.3.6.1.2")
ivs = [(x["boots"], x["time"], x["salt"]) for _, x in a.seen if x["flags"] & 2]
check(len(ivs) == len(set(ivs)), "initialisation vectors repeat")
""")


bug("c01-unlocked-ids", "C01", [(MSG3, """            with self.cacheLock:
                msgID = next(self.generator)
                if msgID == 0:
                    self.generator = self.newGenerator()
                elif msgID not in self.outstanding:
                    self.outstanding[msgID] = entry
                    return msgID
""", """            msgID = next(self.generator)
            if msgID == 0:
                self.generator = self.newGenerator()
            elif msgID not in self.outstanding:
                with self.cacheLock:
                    self.outstanding[msgID] = entry

                return msgID
""")], "two threads sending SNMPv3 messages, preempted inside the number generator",
    "message identifiers are drawn and checked outside of the lock, so two messages in flight "
    "can carry the same identifier and one request receives the other's answer or none", """
import threading
from snmp.message.v3 import SNMPv3MessageProcessor, CacheEntry
from snmp.security.models import SecurityModel

# two threads meet at the worst moments, as preemption can arrange
mp = SNMPv3MessageProcessor(1472)
meet = threading.Barrier(2)
def rendezvous():
    try:
        meet.wait(0.5)
    except threading.BrokenBarrierError:
        pass
class Meeting:
    def __init__(self, gen):
        self.gen = gen
    def __next__(self):
        next(self.gen)
        rendezvous()
        return self.gen.previous
class Table(dict):
    def __contains__(self, key):
        present = super().__contains__(key)
        rendezvous()
        return present
mp.generator = Meeting(mp.generator)
mp.outstanding = Table()
class Handle: pass
hs = [Handle(), Handle()]
ids = []
def work(h):
    ids.append(mp.cache(CacheEntry(b"e", b"", h, b"u", SecurityModel.USM, noAuthNoPriv)))
ts = [threading.Thread(target=work, args=(h,)) for h in hs]
for t in ts: t.start()
for t in ts: t.join()
check(len(set(ids)) == 2, f"identifiers of two messages in flight: {ids}")
""")

bug("c05-salt-saturates", "C05", [("snmp/security/usm/priv/openssl/des.py",
    "self.salt = (self.salt + 1) % self.SALTWRAP", "self.salt = min(self.salt + 1, self.SALTWRAP - 1)"),
    ("snmp/security/usm/priv/pycryptodome/des.py",
    "self.salt = (self.salt + 1) % self.SALTWRAP", "self.salt = min(self.salt + 1, self.SALTWRAP - 1)")],
    "a random initial salt close to the top of the range, followed by a few messages",
    "the DES salt stays at its maximum instead of wrapping around", """
from snmp.security.usm.priv import DesCbc
p = DesCbc(bytes(range(16)))
p.salt = p.SALTWRAP - 3
seen = [p.encrypt(b"x" * 8, 1, 5000)[1] for _ in range(5)]
check(len(set(seen)) == 5, [s.hex() for s in seen])
""")
