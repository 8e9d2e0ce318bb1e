import importlib.util, os
_s = importlib.util.spec_from_file_location("_b5", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs5.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: getattr(_m, k) for k in ("V3M", "V1M", "V2M", "MSG3", "MSG2", "MSG1", "USM",
                                              "TK", "USERS", "DISP", "POSIX", "GENERIC", "BOB",
                                              "ALICE", "ASIDE")})
ENG = "snmp/engine.py"
CRED = "snmp/security/usm/credentials.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


bug("c13-exit-error", "C13", [(ENG, """    def __exit__(self, *args: Any) -> None:
        self.shutdown()
""", """    def __exit__(self, *args: Any) -> None:
        # Leave everything as it is for a debugger
        if args[0] is None:
            self.shutdown()
""")], "a with block that is left by an exception of the application's",
    "the receiving thread goes on and its sockets stay open", """
import threading
time.monotonic = real_monotonic
threading.Event.wait = RealEvent.wait
before = set(threading.enumerate())
try:
    with Engine() as e:
        e.Manager("127.0.0.1", version=V2C, community=b"public")
        raise LookupError("application")
except LookupError:
    pass
time.sleep(.3)
left = [t for t in threading.enumerate() if t not in before and t.is_alive()]
for t in left:
    e.shutdown()
check(not left, f"still running: {left}")
""")

bug("c02-local-port", "C02", [(ENG, """            transport = transports[localAddress]
        except KeyError:
            transport = transportClass(*localAddress)
            self.dispatcher.connectTransport(transport)
            transports[localAddress] = transport
""", """            # one socket for each port is plenty
            transport = transports[localAddress[1]]
        except KeyError:
            transport = transportClass(*localAddress)
            self.dispatcher.connectTransport(transport)
            transports[localAddress[1]] = transport
""")], "two managers of one engine with different local addresses and the same local port",
    "the second manager's requests leave from the first one's address", """
import socket, threading
time.monotonic = real_monotonic
threading.Event.wait = RealEvent.wait
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
s.bind(("127.0.0.1", 0))
s.settimeout(5)
with Engine() as e:
    got = []
    for local in ("127.0.0.2", "127.0.0.3"):
        m = e.Manager(("127.0.0.1", s.getsockname()[1]), version=V2C, community=b"public",
                      localAddress=local)
        r = m.get("1.3.6.1.2", wait=False)
        got.append(s.recvfrom(9000)[1][0])
check(got == ["127.0.0.2", "127.0.0.3"], f"sent from {got}")
""")

bug("c17-readd", "C17", [(CRED, """            and self.authKey == other.authKey
            and self.privKey == other.privKey
""", """            and self.authKey == other.authKey
""")], "a user is added a second time, with the same authentication secret and another privacy "
    "secret", "the change is not refused: engines in use sign with one key and encrypt with another",
    ALICE + """
from snmp.security.usm.auth import HmacSha256
from snmp.security.usm.priv import AesCfb128
kw = dict(authProtocol=HmacSha256, authSecret=b"maplesyrup", privProtocol=AesCfb128)
usm = net.engine.usm
usm.addUser("zoe", privSecret=b"maplesyrup", **kw)
usm.addUser("zoe", privSecret=b"maplesyrup", **kw)
try:
    usm.addUser("zoe", privSecret=b"something else", **kw)
except ValueError:
    pass
else:
    check(False, "another privacy secret was accepted")
""")

bug("c09-unsent-max", "C09", [(V3M, """        self.unsent: Deque[ComparableWeakRef[Request, float]] = deque()
""", """        self.unsent: Deque[ComparableWeakRef[Request, float]] = deque(maxlen=8)
""")], "more than eight requests made before the engine has been discovered",
    "the oldest of them are forgotten and time out although the agent answers at once", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1", autowait=False)
reqs = [m.get(f"1.3.6.1.{i}", timeout=4.0) for i in range(1, 31)]
got = [outcome(r.wait) for r in reqs]
check("Timeout" not in got, f"ended with {got}")
""")

bug("c17-assert-register", "C17", [(V3M, """        if not self.usm.registerRemoteEngine(engineID, self.namespace):
            errmsg = f"Failed to register engineID {engineID!r}"

            if self.namespace:
                errmsg += f" under namespace \\"{self.namespace}\\""

            raise DiscoveryError(errmsg)
""", """        errmsg = f"Failed to register engineID {engineID!r}"

        if self.namespace:
            errmsg += f" under namespace \\"{self.namespace}\\""

        try:
            assert self.usm.registerRemoteEngine(engineID, self.namespace)
        except AssertionError as err:
            raise DiscoveryError(errmsg) from err
""")], "a Python interpreter that ignores assert statements (python -O)",
    "the credentials are not made available for the engine: requests cannot be sent", """
import subprocess
if __debug__:
    sys.exit(subprocess.run([sys.executable, "-O", "-B", __file__]).returncode)
net = Net()
al = user("alice", "HmacSha")
add(net, al)
net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
got = outcome(lambda: m.get("1.3.6.1.1", timeout=4.0))
check(isinstance(got, list) or "VarBind" in repr(got), f"ended with {got!r}")
""")
