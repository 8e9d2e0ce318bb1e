BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


V3M = "snmp/manager/v3.py"
V1M = "snmp/manager/v1.py"
V2M = "snmp/manager/v2c.py"
MSG3 = "snmp/message/v3.py"
MSG2 = "snmp/message/v2c.py"
MSG1 = "snmp/message/v1.py"
USM = "snmp/security/usm/implementation.py"
TK = "snmp/security/usm/timekeeper.py"
USERS = "snmp/security/usm/users.py"
DISP = "snmp/dispatcher.py"
POSIX = "snmp/transport/posix/udp.py"
GENERIC = "snmp/transport/generic/udp.py"

BOB = """
net = Net()
add(net, user("bob"))
"""
ALICE = """
net = Net()
al = user("alice", "HmacSha", "AesCfb128")
add(net, al)
"""

# ---------------------------------------------------------------- C06
bug("c06-late-refresh", "C06", [(V1M, """            timeLeft = max(self.expiration - time.monotonic(), 0.0)

            if timeout is None or timeout > timeLeft:
                timeout = timeLeft
""", """            timeLeft = max(self.expiration - time.monotonic(), 0.0)

            if timeout is None:
                timeout = timeLeft
""")], "a request whose timeout ends between two refreshes of another request on the manager, "
    "none of whose timers falls on the first one's deadline, i.e. a request that was popped "
    "from the heap (answered or waited for already) before",
    "wait() sleeps until the next refresh of another request, beyond its own deadline", """
net = Net()
class A(Agent):
    def handle(self, net, m, address): pass
net.hosts["10.0.0.1"] = A()
m = net.engine.Manager("10.0.0.1", version=V1, community=b"public", autowait=False)
a = m.get("1.3.6.1.1", timeout=30.0, refreshPeriod=10.0)
b = m.get("1.3.6.1.2", timeout=2.0, refreshPeriod=5.0)
m.requests.pop(0) if m.requests[0]() is b else m.requests.remove([r for r in m.requests if r() is b][0])
t = time.monotonic()
outcome(b.wait)
check(time.monotonic() - t <= 2.001, f"returned after {time.monotonic() - t}")
""")

bug("c06-expired-strict", "C06", [(V3M, """    def nextRefresh(self, value: float) -> None:
        self._nextRefresh = min(self.expiration, value)
""", """    def nextRefresh(self, value: float) -> None:
        self._nextRefresh = value
"""), (V3M, """                timeLeft = self.expiration - time.monotonic()
                timeout = max(min(timeout, timeLeft), 0.0)
""", """                timeout = max(timeout, 0.0)
""")], "a timeout that is not a multiple of the refresh period",
    "wait() sleeps until the refresh that follows the deadline", """
net = Net()
add(net, user("bob"))
m = net.engine.Manager("10.0.0.1")
t = time.monotonic()
outcome(m.get, "1.3.6.1.1", timeout=2.5)
check(time.monotonic() - t <= 2.501, f"returned after {time.monotonic() - t}")
""")

bug("c06-early-timeout", "C06", [(V2M, """            # Calculating it like this mitigates over-delay
            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
            self.nextRefresh += periodsElapsed * self.period
""", """            # Calculating it like this mitigates over-delay
            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
            self.nextRefresh += periodsElapsed * self.period

            if periodsElapsed > 1:
                # there is no use in repeating it for longer than planned
                self.expiration -= (periodsElapsed - 1) * self.period
                self.nextRefresh = self.nextRefresh
""")], "an application that starts waiting more than one refresh period after sending",
    "the periods spent elsewhere are taken off the timeout, so Timeout is raised early", """
net = Net()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public", autowait=False)
t = time.monotonic()
r = m.get("1.3.6.1.1", timeout=10.0)
sleep(4.2)
outcome(r.wait)
check(time.monotonic() - t >= 9.999, f"timed out after {time.monotonic() - t}")
""")

bug("c06-unsent-wait", "C06", [(V3M, """                if request is not None and not request.expired:
                    if self.state.onRequest""", """                if request is not None:
                    if self.state.onRequest"""),
    (V3M, """            while not self.expired:
                timeout = self.manager.refresh()
                timeLeft = self.expiration - time.monotonic()
                timeout = max(min(timeout, timeLeft), 0.0)
""", """            while not self.expired or self.manager.unsent:
                timeout = self.manager.refresh()
                timeLeft = self.expiration - time.monotonic()

                if timeLeft > 0.0:
                    timeout = min(timeout, timeLeft)

                timeout = max(timeout, 0.0)
""")], "several requests issued before the engine is discovered, and an agent that is silent",
    "a request keeps waiting past its timeout while others are queued for discovery", """
net = Net()
add(net, user("bob"))
m = net.engine.Manager("10.0.0.1", autowait=False)
t = time.monotonic()
a = m.get("1.3.6.1.1", timeout=2.0)
b = m.get("1.3.6.1.2", timeout=60.0)
outcome(a.wait)
check(time.monotonic() - t <= 2.001, f"returned after {time.monotonic() - t}")
""")

# ---------------------------------------------------------------- C07
bug("c07-v3-late-wait", "C07", [(V3M, """            if self.event.is_set() and self.response is not None:
                assert""", """            if not self.expired and self.response is not None:
                assert""")],
    "an answer that arrives in time, and an application that waits for it after the timeout",
    "wait() raises Timeout although the answer is there", """
net = Net()
add(net, user("bob"))
net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
m = net.engine.Manager("10.0.0.1", autowait=False)
r = m.get("1.3.6.1.1", timeout=2.0)
sleep(3.0)
x = outcome(r.wait)
check(not isinstance(x, str), f"{x}")
""")

bug("c07-second-wait", "C07", [(V2M, """        self.close()
        if self.response is None:
            raise Timeout()
        else:
            pdu = cast(ResponsePDU, self.response.pdu)
""", """        self.close()
        response, self.response = self.response, None
        if response is None:
            raise Timeout()
        else:
            pdu = cast(ResponsePDU, response.pdu)
""")], "waiting a second time for a request that has been answered",
    "the second wait() raises Timeout", """
net = Net()
net.hosts["10.0.0.1"] = Agent()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public", autowait=False)
r = m.get("1.3.6.1.1")
a, b = outcome(r.wait), outcome(r.wait)
check(a == b, f"{a} then {b}")
""")

bug("c07-old-copy", "C07", [(V3M, """            self.nextRefresh += periodsElapsed * self.period
            self.reallySend()
            return 0.0
""", """            self.nextRefresh += periodsElapsed * self.period

            # an answer to one of the latest copies is all that is needed
            while len(self.messages) > 2:
                self.messages.pop().close()

            self.reallySend()
            return 0.0
""")], "an agent slower than two refresh periods, so that the answer belongs to an earlier copy",
    "answers to earlier copies of the request are dropped", """
net = Net()
add(net, user("bob"))
net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a = net.hosts["10.0.0.1"]
n = len(a.seen)
class Once(Agent):
    def handle(self, net, m, address):
        if len(self.seen) == 1:
            super().handle(net, m, address)
net.hosts["10.0.0.1"] = Once(users=[user("bob")], delay=5.5)
ok = 0
for i in range(8):
    net.hosts["10.0.0.1"].seen.clear()
    ok += not isinstance(outcome(m.get, "1.3.6.1.1", timeout=10.0), str)
check(ok == 8, f"{ok} of 8 slow answers delivered")
""")

bug("c07-clear-event", "C07", [(V1M, """            self.event.wait(timeout=timeout)

        self.close()
""", """            if self.event.wait(timeout=timeout):
                self.event.clear()
                break

        self.close()
"""), (V1M, """    def wait(self) -> VarBindList:
        while not self.event.is_set() and not self.expired:
""", """    def wait(self) -> VarBindList:
        while not self.expired:
            if self.event.is_set():
                break

""")], "a second wait() for an SNMPv1 request, before its timeout",
    "the second wait() only returns at the timeout instead of at once", """
net = Net()
net.hosts["10.0.0.1"] = Agent()
m = net.engine.Manager("10.0.0.1", version=V1, community=b"public", autowait=False)
r = m.get("1.3.6.1.1")
outcome(r.wait)
t = time.monotonic()
outcome(r.wait)
check(time.monotonic() - t < 0.001, f"second wait took {time.monotonic() - t}")
""")

# ---------------------------------------------------------------- C08
bug("c08-refresh-drift", "C08", [(V2M, """                    else:
                        pass
""", "")] if False else [(V2M, """                elif wait > 0.0:
                    return wait
                else:
                    heapq.heapreplace(self.requests, reference)
""", """                elif wait > 0.0:
                    return wait
                else:
                    heapq.heapify(self.requests)
                    return request.period
""")], "several requests with different periods on one manager",
    "after sending one request, wait() sleeps for a whole period of it without looking at the "
    "timers of the other requests", """
net = Net()
class A(Agent):
    def handle(self, net, m, address): pass
a = net.hosts["10.0.0.1"] = A()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public", autowait=False)
slow = m.get("1.3.6.1.1", timeout=12.0, refreshPeriod=3.5)
fast = m.get("1.3.6.1.2", timeout=12.0, refreshPeriod=1.0)
outcome(slow.wait)
t = [x for x, mm in a.seen if mm["pdu"]["vbs"][0][0][-1] == 2]
gaps = [b - a for a, b in zip(t, t[1:])]
check(max(gaps) < 1.5, f"gaps {gaps}")
""")

bug("c08-answered-resend", "C08", [(V3M, """    def refresh(self) -> Optional[float]:
        if self.event.is_set():
            return None

""", """    def refresh(self) -> Optional[float]:
        if self.event.is_set() and self.exception is None:
            return None

""")], "a request that was first refused by an unauthenticated report and then answered, while "
    "the application waits for another request of the manager",
    "the answered request keeps being sent", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
class A(Agent):
    def handle(self, net, m, address):
        if m["engine_id"] == self.engine_id and m.get("pdu") and m["pdu"]["vbs"] and m["pdu"]["vbs"][0][0][-1] == 9:
            return
        if m["flags"] & 1:
            net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0), 0), address, 0.001)
        super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1", autowait=False)
m.get("1.3.6.1.1").wait()
r = m.get("1.3.6.1.2", timeout=20.0)
s = m.get("1.3.6.1.9", timeout=8.0)
outcome(s.wait)
n = len([1 for _, x in a.seen if x.get("pdu") and x["pdu"]["vbs"] and x["pdu"]["vbs"][0][0][-1] == 2])
check(n == 1, f"sent {n} times")
""")

bug("c08-unsent-order", "C08", [(V3M, """            with self.activeLock:
                self.trySend(request, engineID)
                heapq.heapify(self.active)
""", """            with self.activeLock:
                self.trySend(request, engineID)
""")], "a report that reschedules a request that is not the one due next, among several",
    "the heap of timers is left in disorder, so another request is repeated late", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
class A(Agent):
    mute = False
    def handle(self, net, m, address):
        if not self.mute:
            super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1", autowait=False)
m.get("1.3.6.1.1").wait()
a.mute = True
first = m.get("1.3.6.1.1", timeout=40.0, refreshPeriod=7.0)
other = m.get("1.3.6.1.2", timeout=40.0, refreshPeriod=8.0)
third = m.get("1.3.6.1.3", timeout=40.0, refreshPeriod=30.0)
sleep(1.0)
# the first is told, late, that it is outside of the time window
a.boots += 1
req = [x for _, x in a.seen if x["pdu"]["vbs"] and x["pdu"]["vbs"][0][0][-1] == 1][-1]
def late():
    net.deliver(a.report(req, (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), 1))
at(5.9, late)
outcome(third.wait)
t = [x for x, mm in a.seen if mm["pdu"]["vbs"] and mm["pdu"]["vbs"][0][0][-1] == 2]
gaps = [b - a for a, b in zip(t, t[1:])]
check(max(gaps) < 8.5, f"gaps {gaps}")
""")

# ---------------------------------------------------------------- C09
bug("c09-no-rediscovery", "C09", [(V3M, """    def processUnknownEngineID(self, engineID: bytes) -> None:
        if engineID != self.engineID:
            self.manager.onReport(self, engineID)
""", """    def processUnknownEngineID(self, engineID: bytes) -> None:
        if self.engineID is None:
            self.manager.onReport(self, engineID)
""")], "an agent that is replaced, so that its engine identifier changes under a live manager",
    "the manager never learns the new engine identifier", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.engine_id = b"\\x80\\x00\\x1f\\x88\\x04changed"
check(outcome(m.get, "1.3.6.1.2") != "Timeout", "never recovers from a changed engine identifier")
""")

# ---------------------------------------------------------------- C10
bug("c10-unregister-forgets", "C10", [(USM, """        with self.userLock:
            _ = self.users.release(engineID, namespace)
""", """        with self.userLock:
            released = self.users.release(engineID, namespace)

        if released:
            with self.timeLock:
                self.timekeeper.table.pop(engineID, None)
""")], "the last manager of an engine goes away and a new one is created; old messages are "
    "replayed during its discovery", "everything learned about the engine's clock is forgotten, "
    "so recorded messages of any age are accepted again", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
del m
usm = net.engine.usm
check(usm.timekeeper.getEngineTime(a.engine_id, Clock.now)[0] == 3, "what was learned of the clock is forgotten")
""")

# ---------------------------------------------------------------- C11
bug("c11-auth-report-late", "C11", [(V3M, """        if auth:
            if not self.event.is_set():
                self.exception = exception
                self.event.set()
""", """        if auth:
            if not self.event.is_set() and self.exception is None:
                self.exception = exception
                self.event.set()
""")], "an unauthenticated report followed by an authenticated one for the same request",
    "the authenticated report is ignored and the request goes on until its timeout", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
class A(Agent):
    def handle(self, net, m, address):
        if m["engine_id"] == self.engine_id and m["flags"] & 1 and m["boots"] == self.boots:
            net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0), 0), address, 0.001)
            net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 12, 1, 5, 0), 1), address, 0.002)
        else:
            super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
t = time.monotonic()
r = outcome(m.get, "1.3.6.1.1")
check(time.monotonic() - t < 1.0 and r == "UnrecognizedReport", f"{r} after {time.monotonic() - t}")
""")

bug("c11-exception-wins", "C11", [(V3M, """            if self.event.is_set() and self.response is not None:
                assert""", """            if self.response is not None and (
                self.exception is None or self.securityLevel.auth
            ):
                assert""")],
    "a request without authentication that receives a (forged) report before its answer",
    "the report is raised although a genuine answer arrived", """
net = Net()
add(net, user("bob"))
class A(Agent):
    def handle(self, net, m, address):
        if m["engine_id"] == self.engine_id:
            net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0), 0), address, 0.001)
        super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[user("bob")])
r = outcome(net.engine.Manager("10.0.0.1").get, "1.3.6.1.1")
check(not isinstance(r, str), f"{r}")
""")

bug("c11-window-surfaced", "C11", [(V3M, """                if not self.synchronized:
                    engineID = response.securityEngineID
                    self.request.processNotInTimeWindow(engineID)
""", """                if not self.synchronized:
                    engineID = response.securityEngineID
                    self.request.processNotInTimeWindow(engineID)
                else:
                    exc = UnrecognizedReport(varbind)
                    self.request.processException(exc, False)
""")], "two copies of a request in flight when the agent reports that its clock has changed, and "
    "no answer afterwards",
    "a synchronisation report is raised instead of a timeout", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
class A(Agent):
    gone = False
    def handle(self, net, m, address):
        if self.gone:
            if m["flags"] & 1 and m["boots"] != self.boots:
                net.deliver(self.report(m, (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), 1), address, 1.5)
        else:
            super().handle(net, m, address)
a = net.hosts["10.0.0.1"] = A(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
a.restart()
a.gone = True
r = outcome(m.get, "1.3.6.1.2", timeout=5.0)
check(r == "Timeout", f"{r}")
""")

# ---------------------------------------------------------------- C12
bug("c12-uncache-answered", "C12", [(V3M, """    def close(self) -> None:
        with self.lock:
            while self.messages:
                self.messages.pop().close()

            self.engineID = None
""", """    def close(self) -> None:
        with self.lock:
            if self.response is None:
                while self.messages:
                    self.messages.pop().close()

            self.messages.clear()
            self.engineID = None
""")], "many requests that are answered", "the identifiers of answered requests stay in the "
    "table of outstanding messages for good", """
net = Net()
add(net, user("bob"))
net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
m = net.engine.Manager("10.0.0.1")
for i in range(30): m.get("1.3.6.1.1")
n = len(net.engine.mpv3.outstanding)
check(n == 0, f"{n} identifiers left")
""")

bug("c12-heap-keeps", "C12", [(V2M, """                if wait is None:
                    heapq.heappop(self.requests)
                    continue
""", """                if wait is None:
                    heapq.heappop(self.requests)

                    if not self.requests:
                        return None

                    continue
"""), (V2M, """        with self.lock:
            request.send()
            heapq.heappush(self.requests, reference)
""", """        with self.lock:
            self.sent.append(reference)
            request.send()
            heapq.heappush(self.requests, reference)
"""), (V2M, """        self.requests: List[ComparableWeakRef[Request, float]] = []
""", """        self.requests: List[ComparableWeakRef[Request, float]] = []
        self.sent: List[ComparableWeakRef[Request, float]] = []
""")], "many requests on one manager", "the manager keeps a record of every request it ever sent", """
import gc
net = Net()
net.hosts["10.0.0.1"] = Agent()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public")
for i in range(10): m.get("1.3.6.1.1")
gc.collect(); a = len(gc.get_objects())
for i in range(200): m.get("1.3.6.1.1")
net.sent.clear(); net.hosts["10.0.0.1"].seen.clear(); net.hosts["10.0.0.1"].replies.clear()
gc.collect(); b = len(gc.get_objects())
check(b - a < 150, f"{b - a} more objects")
""")

bug("c12-failed-send", "C12", [(V1M, """    def addCallback(self,
        callback: Callable[[int], None],
        requestID: int,
    ) -> None:
        assert requestID == self.pdu.requestID
        assert self.callback is None

        self.callback = callback
""", """    def addCallback(self,
        callback: Callable[[int], None],
        requestID: int,
    ) -> None:
        assert requestID == self.pdu.requestID
        assert self.callback is None

        self.pending = callback
"""), (V1M, """    def reallySend(self) -> None:
        self.manager.sendPdu(self.pdu, self, self.community)
""", """    def reallySend(self) -> None:
        self.pending: Optional[Callable[[int], None]] = None
        self.manager.sendPdu(self.pdu, self, self.community)

        # nothing to clean up unless the message was sent
        if self.pending is not None:
            self.callback = self.pending
""")], "requests whose datagram cannot be sent (no route, buffer full)",
    "the identifier of a request that could not be sent is never released", """
net = Net()
def fail(address, data): raise OSError("no route to host")
net.fail = fail
m = net.engine.Manager("10.0.0.1", version=V1, community=b"public")
for i in range(20):
    outcome(m.get, "1.3.6.1.1")
n = len(net.engine.mpv1.outstanding)
check(n <= 1, f"{n} identifiers left")
""")

bug("c12-registration", "C12", [(V3M, """        if self._engineID is not None:
            self.manager.unregisterRemoteEngine(self._engineID)

        self._engineID = engineID

    @property
    def expired""", """        if self._engineID is not None and (
            engineID is None or not self.messages
        ):
            self.manager.unregisterRemoteEngine(self._engineID)

        self._engineID = engineID

    @property
    def expired""")], "a request that is redirected from one engine identifier to another one",
    "the registration of the former engine is never released", """
net = Net()
al = user("alice", "HmacSha")
add(net, al)
a = net.hosts["10.0.0.1"] = Agent(users=[al])
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
for i in range(4):
    a.engine_id = b"\\x80\\x00\\x1f\\x88\\x04changed%d" % i
    a.boots, a.born = 1, Clock.now
    m.get("1.3.6.1.2")
n = len(net.engine.usm.users.engines)
check(n <= 1, f"{n} engines registered for one manager")
""")

# ---------------------------------------------------------------- C13
bug("c13-stop-flag", "C13", [(GENERIC, """                        done = addr == self.w.getsockname() and data == STOPMSG
""", """                        done = addr == self.w.getsockname() and data == STOPMSG
                        break
"""), (POSIX, """            ready = poller.poll()
            for fd, _ in ready:
                try:""", """            ready = poller.poll()
            for fd, _ in sorted(ready, key=lambda r: r[0] == self.r):
                done = False
                try:"""), (POSIX, """                        os.read(fd, 1)
                        done = True
""", """                        os.read(fd, 1)
                        done = len(ready) == 1
""")], "shutdown at a moment when a datagram is waiting to be read",
    "the stop request is consumed without stopping the thread, and shutdown hangs", """
import os, socket, threading
from snmp.transport.posix.udp import PosixUdpMultiplexor
threading.Event.wait = RealEvent.wait
time.monotonic = real_monotonic
mux = PosixUdpMultiplexor()
sock = UdpIPv4Socket("127.0.0.1")
mux.register(sock)
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
s.sendto(b"x", ("127.0.0.1", sock.port))
mux.stop()
class L:
    def hear(self, *a): pass
t = threading.Thread(target=mux.listen, args=(L(),), daemon=True)
t.start(); t.join(3.0)
check(not t.is_alive(), "the listening thread does not stop")
os._exit(0)
""")

bug("c13-socket-leak", "C13", [("snmp/engine.py", """            self.dispatcher.connectTransport(transport)
            transports[localAddress] = transport
""", """            transports[localAddress] = transport
            self.dispatcher.connectTransport(transport)
"""), (GENERIC, """        while self.sockets:
            _, sock = self.sockets.popitem()
            sock.close()
""", """        for sock in self.sockets.values():
            sock.close()
"""), (POSIX, """        while self.sockets:
            _, sock = self.sockets.popitem()
            sock.close()
""", """        for fd, sock in self.sockets.items():
            if fd == sock.fileno:
                sock.close()
                continue

            break
"""), (DISP, """        if self.thread is not None:
            self.multiplexor.stop()
            self.thread.join()

        self.multiplexor.close()
        self.thread = None
""", """        if self.thread is not None:
            self.multiplexor.stop()
            self.thread.join()
            self.thread = None
            self.multiplexor.close()
""")], "an engine that is shut down although it never had a manager, or whose listening thread "
    "could not be started", "descriptors of the wake-up channel stay open", """
import os
before = set(os.listdir("/proc/self/fd"))
for i in range(3):
    e = Engine(); e.shutdown()
after = set(os.listdir("/proc/self/fd"))
check(len(after) <= len(before), f"{len(after) - len(before)} descriptors left")
""")

bug("c13-second-transport", "C13", [(DISP, """        if self.thread is not None:
            self.multiplexor.stop()
            self.thread.join()
            self.thread = None

        self.multiplexor.register(transport)
""", """        if self.thread is not None:
            self.multiplexor.stop()
            self.thread = None

        self.multiplexor.register(transport)
""")], "a second local address (or IPv6 next to IPv4) on an engine in use",
    "two listening threads run at once; one of them may take the other's stop request", """
import threading
joined = []
from snmp.dispatcher import Dispatcher
class M(Mux):
    live = 0; most = 0
    def __init__(self): super().__init__(); self.ev = RealEvent()
    def listen(self, listener):
        M.live += 1; M.most = max(M.most, M.live)
        self.ev.wait(5); self.ev.clear()
        import time as t; t.sleep(0.3)
        M.live -= 1
    def stop(self): self.ev.set()
d = Dispatcher(M())
class T: DOMAIN = None
import time as tm
d.connectTransport(T()); tm.sleep(0.2)
d.connectTransport(T()); tm.sleep(0.1)
d.shutdown()
check(M.most == 1, f"{M.most} listening threads at once")
""")

# ---------------------------------------------------------------- C14
bug("c14-empty-datagram", "C14", [(POSIX, """                    listener.hear(sock, addr, data)
""", """                    if not data:
                        # the other side has closed the connection
                        poller.unregister(fd)
                        continue

                    listener.hear(sock, addr, data)
"""), (GENERIC, """                    listener.hear(sock, addr, data)
""", """                    if not data:
                        # the other side has closed the connection
                        readfds.remove(fd)
                        continue

                    listener.hear(sock, addr, data)
""")], "a datagram without any payload",
    "an empty datagram makes the engine deaf on that socket", """
import socket, threading
threading.Event.wait = RealEvent.wait
time.monotonic = real_monotonic
from snmp.transport.udp import UdpMultiplexor
mux = UdpMultiplexor()
sock = UdpIPv4Socket("127.0.0.1")
mux.register(sock)
got = []
class L:
    def hear(self, t, a, data): got.append(data)
t = threading.Thread(target=mux.listen, args=(L(),), daemon=True); t.start()
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
s.sendto(b"", ("127.0.0.1", sock.port)); s.sendto(b"x", ("127.0.0.1", sock.port))
import os, select
for i in range(100):
    if b"x" in got: break
    select.select([], [], [], 0.02)
mux.stop(); t.join(2)
check(b"x" in got, "deaf after an empty datagram")
""")

bug("c14-lock-leak", "C14", [(DISP, """            with self.lock:
                try:
                    mp = self.msgProcessors[msgVersion]
                except KeyError:
                    return

            try:
""", """            self.lock.acquire()
            mp = self.msgProcessors.get(msgVersion)
            if mp is None:
                return
            self.lock.release()

            try:
""")], "a datagram of a protocol version for which the engine has no manager yet",
    "the dispatcher's lock stays locked: the next datagram and the next send block for good", """
net = Net()
net.hosts["10.0.0.1"] = Agent()
m = net.engine.Manager("10.0.0.1", version=V2C, community=b"public", autowait=False)
net.deliver(wire.enc_community(0, b"public", ENC.pdu(wire.RESPONSE, 1, 0, 0, []), ENC))
check(net.engine.dispatcher.lock.acquire(timeout=1), "the dispatcher is locked")
""")

# ---------------------------------------------------------------- C15
bug("c15-lock-order", "C15", [(V3M, """    def close(self) -> None:
        with self.lock:
            while self.messages:
                self.messages.pop().close()

            self.engineID = None
""", """    def close(self) -> None:
        with self.lock:
            while self.messages:
                self.messages.pop().close()

            # wait for the listener to finish with this request
            with self.manager.lock:
                self.engineID = None
""")], "the listening thread handling a report for a request while its thread closes it",
    "the two locks are taken in opposite orders by the two threads, which can deadlock", """
import threading
net = Net()
add(net, user("bob"))
a = net.hosts["10.0.0.1"] = Agent(users=[user("bob")])
m = net.engine.Manager("10.0.0.1", autowait=False)
r = m.get("1.3.6.1.1", timeout=0.05)
outcome(r.wait)
r = m.get("1.3.6.1.1", timeout=1.0)
# a listener that holds the manager's lock and is about to send the request
inside, go = RealEvent(), RealEvent()
def listener():
    with m.lock:
        inside.set()
        go.wait(0.5)
        ok = r.lock.acquire(timeout=2.0)
        result.append(ok)
        if ok: r.lock.release()
result = []
t = threading.Thread(target=listener, daemon=True); t.start(); inside.wait()
c = threading.Thread(target=r.close, daemon=True); c.start()
t.join(); 
check(result == [True], "deadlock between closing and the listener")
""")

bug("c15-user-lock", "C15", [(USM, """        self.userLock = threading.RLock()
""", """        self.userLock = threading.Lock()
""")] if False else [(USERS, """        for engineID, engine in list(self.engines.items()):
            if engine.namespace == namespace:
                engine.addUser(engineID, userName, credentials)
""", """        for engineID in self.engines:
            if self.engines[engineID].namespace == namespace:
                self.engines[engineID].addUser(engineID, userName, credentials)
""")], "a finalizer releasing an engine (or another thread registering one) while a user is added",
    "adding a user fails because the table of engines changes while it is iterated", """
net = Net()
add(net, user("bob"))
usm = net.engine.usm
for i in range(4): usm.registerRemoteEngine(b"engine%d" % i)
from snmp.security.usm.credentials import Credentials
real = Credentials.localize
def localize(self, engineID):
    # a garbage collection happens here and finalizes a manager
    if b"engine3" in usm.users.engines:
        usm.unregisterRemoteEngine(b"engine3")
    return real(self, engineID)
Credentials.localize = localize
r = outcome(add, net, user("alice", "HmacMd5"))
check(r is None, f"adding a user failed: {r}")
""")

bug("c15-shared-buffer", "C15", [("snmp/security/usm/auth.py", """        context = hmac.new(self.key, digestmod=self.ALGORITHM)
        context.update(data)
        return context.digest()[:self.N]
""", """        # computing the padded key is half of the work for a short message
        if self.context is None:
            self.context = hmac.new(self.key, digestmod=self.ALGORITHM)

        context = self.context
        self.context = None
        initial = context.copy()
        context.update(data)
        digest = context.digest()[:self.N]
        self.context = initial
        return digest
"""), ("snmp/security/usm/auth.py", """        self.key = key

""", """        self.key = key
        self.context: Any = None

""")], "two threads signing or verifying with the same credentials, preempted between two lines",
    "two threads can use one digest context at the same time, so a signature is wrong or None "
    "is dereferenced", """
import threading
a = HmacSha(bytes(20))
want = a.sign(b"hello"), a.sign(b"world")
# preempt after each line of sign(), and run another call in between
import itertools
bad = []
for stop in range(1, 12):
    count = [0]
    def other():
        try:
            r = a.sign(b"world")
        except Exception as err:
            r = err
        if r != want[1]: bad.append(r)
    def trace(frame, event, arg):
        if frame.f_code.co_name != "sign": return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=other); t.start(); t.join()
        return trace
    sys.settrace(trace)
    try:
        r = a.sign(b"hello")
    except Exception as err:
        r = err
    sys.settrace(None)
    if r != want[0]: bad.append(r)
check(not bad, f"wrong signatures: {bad[:2]}")
""")

# ---------------------------------------------------------------- C16
bug("c16-rounding", "C16", [(TK, """    def setEngineTime(self, engineTime: int, timestamp: float) -> None:
        self.latestReceivedEngineTime = engineTime
        self.latestBootTime = timestamp - engineTime
""", """    def setEngineTime(self, engineTime: int, timestamp: float) -> None:
        self.latestReceivedEngineTime = engineTime
        self.latestBootTime = timestamp - (engineTime & 0xffffff)
""")], "an agent that has been up for more than 194 days",
    "engine times of 2**24 seconds and more wrap around", """
from snmp.security.usm.timekeeper import TimeKeeper
tk = TimeKeeper()
tk.updateAndVerify(b"e", 5, (1 << 24) + 7, 10.0)
check(tk.getEngineTime(b"e", 11.0) == (5, (1 << 24) + 8), tk.getEngineTime(b"e", 11.0))
""")

# ---------------------------------------------------------------- C17
bug("c17-late-user", "C17", [(USERS, """        for engineID, engine in list(self.engines.items()):
            if engine.namespace == namespace:
                engine.addUser(engineID, userName, credentials)
""", """        for engineID, engine in list(self.engines.items()):
            if engine.namespace == namespace or userName not in engine.users:
                engine.addUser(engineID, userName, credentials)
""")], "a user added to another namespace while an engine is registered",
    "engines of other namespaces get credentials of a user that is not theirs", """
net = Net()
add(net, user("bob", "HmacSha"), namespace="a")
a = net.hosts["10.0.0.1"] = Agent(users=[user("bob", "HmacSha"), user("eve", "HmacSha", None, b"evesecret")])
m = net.engine.Manager("10.0.0.1", namespace="a")
m.get("1.3.6.1.1")
add(net, user("eve", "HmacSha", None, b"evesecret"), namespace="b")
r = outcome(m.get, "1.3.6.1.1", user=b"eve", securityLevel=authNoPriv)
check(isinstance(r, str), "a request in one namespace was signed with another's user")
""")

bug("c17-release-any", "C17", [(USERS, """        if self.namespace == namespace:
            assert self.count > 0
            self.count -= 1

        return self.count == 0
""", """        assert self.count > 0
        self.count -= 1
        return self.count == 0
"""), (V3M, """        if engineID is not None:
            self.registerRemoteEngine(engineID)

        if self._engineID is not None:
            self.unregisterRemoteEngine(self._engineID)

        self._engineID = engineID

    def generateRequestID""", """        previous, self._engineID = self._engineID, engineID

        if engineID is not None:
            self.registerRemoteEngine(engineID)

        if previous is not None:
            self.unregisterRemoteEngine(previous)

    def generateRequestID""")], "a manager created for an engine identifier that belongs to "
    "another namespace, which is refused and then discarded",
    "discarding the refused manager releases the rightful owner's registration", """
net = Net()
add(net, user("bob", "HmacSha"), namespace="a")
add(net, user("bob", "HmacSha", None, b"othersecret"), namespace="b")
a = net.hosts["10.0.0.1"] = Agent(users=[user("bob", "HmacSha")])
m = net.engine.Manager("10.0.0.1", namespace="a", engineID=a.engine_id)
m.get("1.3.6.1.1")
for i in range(3):
    r = outcome(net.engine.Manager, "10.0.0.1", namespace="b", engineID=a.engine_id)
    check(r == "DiscoveryError", f"attempt {i}: {r}")
import gc; gc.collect()
check(outcome(m.get, "1.3.6.1.1") != "InvalidEngineID" and not isinstance(outcome(m.get, "1.3.6.1.1"), str), "the owner lost its registration")
""")

