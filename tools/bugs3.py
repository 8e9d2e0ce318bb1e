import importlib.util, os
_s = importlib.util.spec_from_file_location("_b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: getattr(_m, k) for k in ("V3M", "V1M", "V2M", "MSG3", "MSG2", "MSG1", "USM",
                                              "TK", "USERS", "DISP", "POSIX", "GENERIC", "BOB",
                                              "ALICE")})
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


# ---------------------------------------------------------------- C04
bug("c04-two-clocks", "C04", [(USM, """                message.encryptedPDU = OctetString(ciphertext)

        else:""", """                message.encryptedPDU = OctetString(ciphertext)

                # encryption takes a while, send the freshest clock there is
                with self.timeLock:
                    engineTime = self.timekeeper.getEngineTime(
                        engineID,
                        monotonic(),
                    )

                snmpEngineBoots, snmpEngineTime = engineTime

        else:""")], "an AES-encrypted request during whose encryption the remote engine's clock "
    "passes from one second to the next",
    "the message names another engine time than the one in its initialisation vector, so that "
    "it cannot be decrypted", ALICE + """
from snmp.security.usm import implementation as impl
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
def slow():
    Clock.now += 0.3
    return Clock.now
impl.monotonic = slow
for i in range(12):
    try:
        r = m.get("1.3.6.1.1", timeout=2.0)
    except Exception as err:
        check(False, f"request {i}: {type(err).__name__} {err}")
    vbs = a.seen[-1][1]["pdu"]["vbs"]
    check(vbs[0][0] == (1, 3, 6, 1, 1), vbs)
""")

# ---------------------------------------------------------------- C09
bug("c09-discovery-stuck", "C09", [(V3M, """    def onInactive(self) -> None:
        self.manager.nextState = Inactive(self)
""", """    def onInactive(self) -> None:
        # The discovery message is still being refreshed
        pass
""")], "a first request (without engine ID) whose discovery messages are all lost until it times "
    "out, before the next request is made",
    "the manager waits for ever for an answer to a discovery message nobody repeats any more", """
net = Net()
add(net, user("bob"))
m = net.engine.Manager("10.0.0.1")
outcome(m.get, "1.3.6.1.1", timeout=2.0)
net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
r = outcome(m.get, "1.3.6.1.1", timeout=3.0)
check(r != "Timeout", "the manager is stuck")
""")

bug("c09-sync-stuck", "C09", [(V3M, """    def onInactive(self) -> None:
        self.manager.nextState = Unsynchronized(self)
""", """    def onInactive(self) -> None:
        # The synchronizing message is still being refreshed
        pass
""")], "a manager created with an engine ID, whose first authenticated request times out without "
    "any word from the agent, before the next request is made",
    "the manager waits for ever for an answer to a synchronising message", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
eid = Agent().engine_id
m = net.engine.Manager("10.0.0.1", engineID=eid)
outcome(m.get, "1.3.6.1.1", timeout=2.0)
net.hosts["10.0.0.1"] = Agent(users=[al])
r = outcome(m.get, "1.3.6.1.1", timeout=3.0)
check(r != "Timeout", "the manager is stuck")
""")

bug("c09-unsent-lost", "C09", [(V3M, """                        active = True
                    else:
                        self.unsent.appendleft(reference)

        return active
""", """                        active = True
                    else:
                        # It is sent as soon as the state changes
                        break

        return active
""")], "three authenticated requests of a manager with a given engine ID, the first of which "
    "times out without any answer while the other two are held back",
    "one of the requests that are held back is forgotten and never sent", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
a = Agent(users=[al])
m = net.engine.Manager("10.0.0.1", engineID=a.engine_id, autowait=False)
one = m.get("1.3.6.1.1", timeout=2.0)
two = m.get("1.3.6.1.2", timeout=20.0)
three = m.get("1.3.6.1.3", timeout=20.0)
outcome(one.wait)
net.hosts["10.0.0.1"] = a
r = outcome(two.wait)
check(r != "Timeout", "the second was not sent")
r = outcome(three.wait)
check(r != "Timeout", "the third was not sent")
""")

# ---------------------------------------------------------------- C10
bug("c10-table-bound", "C10", [(TK, """        except KeyError as err:
            et = EngineTime(msgBoots, msgTime, timestamp, authenticated)
            self.table[engineID] = et

        return et
""", """        except KeyError as err:
            # Bound the size of the table
            if len(self.table) >= 64:
                del self.table[next(iter(self.table))]

            et = EngineTime(msgBoots, msgTime, timestamp, authenticated)
            self.table[engineID] = et

        return et
""")], "a flood of unauthenticated reports that name 64 different engines, followed by the replay "
    "of an authenticated message",
    "what was learned about the remote clock is thrown away, and old messages count as fresh", ALICE + """
from snmp.security.usm.timekeeper import TimeKeeper
class A(Agent):
    flood = False
    def handle(self, net, m, address):
        if not self.flood:
            return super().handle(net, m, address)
        for i in range(70):
            data = self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0), 0, user=None,
                               engine_id=b"\\x80fake" + bytes([i]))
            net.deliver(data, address)
        # what was recorded in an earlier boot, addressed to this very message
        net.deliver(self.response(m, 0, 0, [(o, ("int", 666)) for o, _ in m["pdu"]["vbs"]],
                                  boots=self.boots - 1, time=100), address, 0.01)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.flood = True
r = outcome(m.get, "1.3.6.1.1", timeout=2.0, refreshPeriod=5.0)
check(isinstance(r, str), f"accepted a message of an earlier boot: {r}")
""")

# ---------------------------------------------------------------- C11
bug("c11-request-level", "C11", [(V3M, """                auth = response.header.flags.authFlag
                self.request.processException(exception, auth)
""", """                auth = self.request.securityLevel.auth
                self.request.processException(exception, auth)
""")], "an unauthenticated report that arrives for an authenticated request before the answer",
    "the forged report ends the request before the genuine answer arrives", ALICE + """
class A(Agent):
    lie = False
    def handle(self, net, m, address):
        if self.lie:
            net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0), 0, user=None), address)
        super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.lie = True
r = outcome(m.get, "1.3.6.1.1", timeout=2.0)
check(not isinstance(r, str), f"a forged report ended the request: {r}")
""")

bug("c11-first-report-wins", "C11", [(V3M, """        if auth:
            if not self.event.is_set():
                self.exception = exception
                self.event.set()
""", """        if auth:
            if not self.event.is_set():
                if self.exception is None:
                    self.exception = exception

                self.event.set()
""")], "a forged unauthenticated report followed by an authenticated report of another kind",
    "the request ends with the exception of the forged report", ALICE + """
class A(Agent):
    lie = False
    def handle(self, net, m, address):
        if not self.lie:
            return super().handle(net, m, address)
        net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0), 0, user=None), address)
        net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 12, 1, 5, 0), 1), address, 0.1)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.lie = True
r = outcome(m.get, "1.3.6.1.1", timeout=2.0)
check(r == "UnrecognizedReport", f"the forged report decided: {r}")
""")

# ---------------------------------------------------------------- C16
bug("c16-stale-latest", "C16", [(TK, """            elif engineBoots > self.snmpEngineBoots:
                self.snmpEngineBoots = engineBoots
                self.setEngineTime(engineTime, timestamp)
        else:""", """            elif engineBoots > self.snmpEngineBoots:
                self.snmpEngineBoots = engineBoots
                self.latestBootTime = timestamp - engineTime
        else:""")], "an agent whose clock is slow, after a restart from a high engine time",
    "the slow clock is no longer followed: its messages are refused as outdated", ALICE + """
a = net.hosts["10.0.0.1"] = Agent(users=[al], time0=100000)
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.restart()
m.get("1.3.6.1.1")
a.time = lambda: int((Clock.now - a.born) * 0.5)
for i in range(6):
    sleep(100)
    r = outcome(m.get, "1.3.6.1.1", timeout=5.0)
    check(not isinstance(r, str), f"request {i}: {r}")
""")

bug("c16-wall-clock", "C16", [(USM, """from time import monotonic
""", """from time import time as monotonic
""")], "a step of the system's wall clock after the remote clock has been learned",
    "outgoing messages carry an engine time that is off by the step of the local wall clock", ALICE + """
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
Clock.wall += 3600
r = m.get("1.3.6.1.1")
late = [x for _, x in a.seen if x["flags"] & 1 and abs(x["time"] - a.time()) > 5]
check(not late, f"sent engine time {late and late[0]['time']}, the agent's is {a.time()}")
""")

# ---------------------------------------------------------------- C17
bug("c17-refused-count", "C17", [(USERS, """        match = False
        if namespace == self.namespace:
            match = True
            self.count += 1

        return match
""", """        self.count += 1
        return namespace == self.namespace
""")], "a manager that is refused because its engine belongs to another namespace",
    "the refused attempt counts as a user of the engine, which therefore never becomes free", """
net = Net()
add(net, user("bob", "HmacSha"), namespace="a")
add(net, user("bob", "HmacSha", None, b"othersecret"), namespace="b")
a = net.hosts["10.0.0.1"] = Agent(users=[user("bob", "HmacSha")])
m = net.engine.Manager("10.0.0.1", namespace="a", engineID=a.engine_id)
r = outcome(net.engine.Manager, "10.0.0.1", namespace="b", engineID=a.engine_id)
check(r == "DiscoveryError", r)
del m
import gc; gc.collect()
r = outcome(net.engine.Manager, "10.0.0.1", namespace="b", engineID=a.engine_id)
check(r != "DiscoveryError", "the engine did not become available")
""")

bug("c16-monotone-clock", "C16", [(USM, """            with self.timeLock:
                engineTime = self.timekeeper.getEngineTime(engineID, timestamp)

            snmpEngineBoots""", """            with self.timeLock:
                engineTime = self.timekeeper.getEngineTime(engineID, timestamp)

                # Never let the clock run backwards
                engineTime = max(engineTime, self.sent.get(engineID, engineTime))
                self.sent[engineID] = engineTime

            snmpEngineBoots"""), (USM, """        self.timekeeper = TimeKeeper()
""", """        self.timekeeper = TimeKeeper()
        self.sent: Dict[bytes, Tuple[int, int]] = {}
""")], "an authenticated request sent with the clock of a forged hint that is ahead of the agent's, "
    "before the first authenticated message of the agent arrives",
    "the forged clock stays in use after the true one has been learned", ALICE + """
class A(Agent):
    lied = False
    def handle(self, net, m, address):
        if not self.lied:
            self.lied = True
            return net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), 0,
                                           boots=9999, time=5), address, 0.01)
        super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
r = outcome(m.get, "1.3.6.1.1", timeout=3.0)
r = outcome(m.get, "1.3.6.1.1", timeout=3.0)
last = a.seen[-1][1]
check(last["boots"] == a.boots, f"still sends the forged boot counter {last['boots']}")
check(not isinstance(r, str), r)
""")


# ---------------------------------------------------------------- C14
bug("c14-narrow-catch", "C14", [(DISP, """        except AssertionError:
            pass
        except Exception:
            pass
""", """        except (AssertionError, AttributeError, ReferenceError):
            pass
        except (TypeError, ValueError, SNMPException):
            pass
""")], "a Report without any variable binding, in reply to an outstanding message",
    "such a datagram kills the listening thread", BOB + """
a = net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
m = net.engine.Manager("10.0.0.1", autowait=False)
m.get("1.3.6.1.1").wait()
class Odd(Agent):
    def handle(self, net, m, address):
        net.deliver(self.pack(m, ENC.pdu(wire.REPORT, 0, 0, 0, []), 0), address, 0.01)
net.hosts["10.0.0.1"] = Odd(users=[user("bob")])
r = m.get("1.3.6.1.1", timeout=1.0)
try:
    outcome(r.wait) if False else sleep(0.5)
except LookupError:
    check(False, "an exception reached the listening thread")
""")
