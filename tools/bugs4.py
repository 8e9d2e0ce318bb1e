import importlib.util, os
_s = importlib.util.spec_from_file_location("_b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: getattr(_m, k) for k in ("V3M", "V1M", "V2M", "MSG3", "MSG2", "MSG1", "USM",
                                              "TK", "USERS", "DISP", "POSIX", "GENERIC", "BOB",
                                              "ALICE")})
ENGINE = "snmp/engine.py"
SMI = "snmp/smi.py"
UDP = "snmp/transport/udp.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


# ---------------------------------------------------------------- C02
bug("c02-long-strings", "C02", [(SMI, "if len(data) > 0xffff:", "if len(data) > 0x7fff:")],
    "a value of more than 32767 bytes, on an engine whose message size allows it",
    "the answer is discarded and the request times out", """
net = Net(msgMaxSize=65507)
a = net.hosts["10.0.0.1"] = Agent()
big = bytes(range(256)) * 200
a.values = lambda m: (0, 0, [(m["pdu"]["vbs"][0][0], ("str", big))])
m = net.engine.Manager("10.0.0.1", V2C, community=b"public")
r = outcome(m.get, "1.3.6.1.1", timeout=2.0)
check(not isinstance(r, str), r)
check(r[0].value.data == big, "wrong value")
""")

# ---------------------------------------------------------------- C04
bug("c04-level-namespace", "C04", [(ENGINE, """                defaultSecurityLevel = self.usm.getDefaultSecurityLevel(
                    defaultUserName,
                    namespace,
                )""", """                defaultSecurityLevel = self.usm.getDefaultSecurityLevel(
                    defaultUserName,
                )""")],
    "a manager in a namespace whose user has the same name as one of the default namespace, "
    "but another default security level", "requests are sent at the other user's level, in the "
    "clear if that one is weaker", """
net = Net()
weak, strong = user("bob"), user("bob", "HmacSha", "AesCfb128")
add(net, weak)
add(net, strong, namespace="lab")
a = net.hosts["10.0.0.1"] = Agent(users=[strong])
m = net.engine.Manager("10.0.0.1", namespace="lab")
m.get("1.3.6.1.1", timeout=3.0)
for t, s in a.seen:
    if s["engine_id"] == a.engine_id:
        check(s["flags"] & 3 == 3, f"sent at level {s['flags'] & 3}")
""")

bug("c04-default-sticky", "C04", [(V3M, """        if securityLevel is None:
            securityLevel = self.defaultSecurityLevel

        if user is None:""", """        if securityLevel is None:
            securityLevel = self.defaultSecurityLevel
        elif securityLevel < self.defaultSecurityLevel:
            # not worth the effort any more
            self.defaultSecurityLevel = securityLevel

        if user is None:""")],
    "a request at an explicitly lower level, followed by one that relies on the default",
    "later requests that ask for nothing in particular go out at the lower level", ALICE + """
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
m.get("1.3.6.1.1", securityLevel=noAuthNoPriv)
n = len(a.seen)
m.get("1.3.6.1.2")
check(all(s["flags"] & 3 == 3 for _, s in a.seen[n:]), "sent in the clear")
""")

# ---------------------------------------------------------------- C08
bug("c08-echo", "C08", [(V3M, """        if engineID != self.engineID:
            self.manager.onReport(self, engineID)
""", """        self.manager.onReport(self, engineID)
""")], "a report of the engine's identifier that arrives more than once",
    "each copy of the report causes another transmission of the request", BOB + """
class Twice(Agent):
    def handle(self, net, m, address):
        data = self.answer(m)
        if m["engine_id"] == self.engine_id:
            net.deliver(data, address, 0.2)
        else:
            for i in range(5):
                net.deliver(data, address, 0.01 + i * 0.01)
a = net.hosts["10.0.0.1"] = Twice(users=[user("bob")])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1", timeout=5.0)
real = [s for _, s in a.seen if s["engine_id"] == a.engine_id]
check(len(real) == 1, f"the request was sent {len(real)} times within 0.2 seconds")
""")

bug("c08-ping-pong", "C08", [(V3M, """        self.manager.onReport(self, engineID)
        self.synchronized.makeTrue()
        self.synchronized = SharedBool(False)
""", """        self.synchronized.makeTrue()
        self.synchronized = SharedBool(False)
        self.manager.onReport(self, engineID)
""")], "an agent that answers every message with another notInTimeWindows report, for example "
    "because its clock jumps",
    "reports and copies of the request chase each other as fast as the network carries them", ALICE + """
class Confused(Agent):
    def answer(self, m):
        if m["engine_id"] == self.engine_id:
            return self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), 1)
        return super().answer(m)
a = net.hosts["10.0.0.1"] = Confused(users=[al])
m = net.engine.Manager("10.0.0.1", engineID=a.engine_id)
r = outcome(m.get, "1.3.6.1.1", timeout=4.5, refreshPeriod=1.0)
check(r == "Timeout", r)
check(len(a.seen) <= 11, f"sent {len(a.seen)} times in 4.5 seconds")
""")

# ---------------------------------------------------------------- C14
bug("c14-anyone-stops", "C14", [(GENERIC,
    "done = addr == self.w.getsockname() and data == STOPMSG", "done = data == STOPMSG")],
    "another process on this host that sends one zero byte to the wake-up socket of the generic "
    "multiplexor", "the listening thread ends and no answer is received any more", """
import gc, socket
from snmp.transport.generic.udp import GenericUdpMultiplexor
got = []
class Listener:
    def hear(self, transport, address, data):
        got.append(data)
mux = GenericUdpMultiplexor()
sock = UdpIPv4Socket("127.0.0.1", 0)
mux.register(sock)
t = threading.Thread(target=mux.listen, args=(Listener(),), daemon=True)
t.start()
mine = sock.port
out = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
out.bind(("127.0.0.1", 0))
others = [s for s in gc.get_objects() if isinstance(s, socket.socket) and s is not out
          and s.fileno() >= 0 and s.family == socket.AF_INET]
for s in others:
    if s.getsockname()[1] not in (0, mine):
        out.sendto(bytes(1), s.getsockname())
until = real_monotonic() + 1.0
while t.is_alive() and real_monotonic() < until:
    t.join(0.1)
check(t.is_alive(), "the listener was stopped by a stranger")
out.sendto(b"hello", ("127.0.0.1", mine))
until = real_monotonic() + 5.0
while not got and real_monotonic() < until:
    t.join(0.05)
check(got == [b"hello"], got)
mux.stop()
t.join(5.0)
check(not t.is_alive(), "does not stop")
mux.close()
""")

# ---------------------------------------------------------------- C17
bug("c17-late-default", "C17", [(USERS, "            if engine.namespace == namespace:\n                engine.addUser",
                                 "            if engine.namespace == namespace and not default:\n                engine.addUser")],
    "a user added as the namespace's new default after an engine has been registered",
    "requests of that user to that engine fail", """
net = Net()
bob, eve = user("bob", "HmacSha"), user("eve", "HmacSha", None, b"evessecret")
add(net, bob)
a = net.hosts["10.0.0.1"] = Agent(users=[bob, eve])
m = net.engine.Manager("10.0.0.1", engineID=a.engine_id)
m.get("1.3.6.1.1")
add(net, eve, default=True)
r = outcome(m.get, "1.3.6.1.1", user=b"eve", securityLevel=authNoPriv, timeout=2.0)
check(not isinstance(r, str), r)
""")

# ---------------------------------------------------------------- C07
bug("c07-second-answer", "C07", [(MSG1, "            return self.outstanding[requestID]",
                                  "            return self.outstanding.pop(requestID)")],
    "an SNMPv1 answer that is refused (somebody else's community) before the right one arrives",
    "the refused message uses up the request's slot and the right answer is discarded", """
net = Net()
class Odd(Agent):
    def handle(self, net, m, address):
        wrong = dict(m, community=b"someone")
        net.deliver(self.community(wrong, *self.values(m)), address, 0.01)
        net.deliver(self.community(m, *self.values(m)), address, 0.02)
a = net.hosts["10.0.0.1"] = Odd()
m = net.engine.Manager("10.0.0.1", V1, community=b"public")
r = outcome(m.get, "1.3.6.1.1", timeout=0.9)
check(not isinstance(r, str), r)
""")

# ---------------------------------------------------------------- C06
bug("c06-extends", "C06", [(V3M, """        self.nextRefresh = now + self.period
        self.reallySend(engineID)""", """        if engineID is not None:
            self.expiration = max(self.expiration, now + self.period)

        self.nextRefresh = now + self.period
        self.reallySend(engineID)""")],
    "a report that arrives late in a request's life, with a long refresh period",
    "the request waits for longer than its timeout", BOB + """
class Late(Agent):
    def handle(self, net, m, address):
        if m["engine_id"] != self.engine_id:
            net.deliver(self.answer(m), address, 0.8)
a = net.hosts["10.0.0.1"] = Late(users=[user("bob")])
m = net.engine.Manager("10.0.0.1")
t0 = Clock.now
r = outcome(m.get, "1.3.6.1.1", timeout=1.0, refreshPeriod=3.0)
check(r == "Timeout", r)
check(Clock.now - t0 < 1.1, f"took {Clock.now - t0} s")
""")
