import importlib.util, os
_s = importlib.util.spec_from_file_location("_b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: getattr(_m, k) for k in ("V3M", "V1M", "V2M", "MSG3", "MSG2", "MSG1", "USM",
                                              "TK", "USERS", "DISP", "POSIX", "GENERIC", "BOB",
                                              "ALICE")})
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo="from rig import *\n" + demo, **kw))


ASIDE = """
def aside(fn):
    # let another thread try it now; with a lock in its way it finishes later
    t = threading.Thread(target=fn, daemon=True)
    t.start()
    t.join(0.5)
    return t
"""

bug("c15-release-unlocked", "C15", [(USM, """        with self.userLock:
            _ = self.users.release(engineID, namespace)
""", """        _ = self.users.release(engineID, namespace)
""")], "the last request that uses an engine ends while the listener learns that engine's ID for "
    "another request",
    "the registration of the other request is lost; it cannot be sent, or cannot be closed",
    ALICE + ASIDE + """
usm = net.engine.usm
eid = b"\\x80\\0\\0\\0\\1x"
usm.registerRemoteEngine(eid)
threads = []


class Engines(dict):
    def __delitem__(self, key):
        threads.append(aside(lambda: usm.registerRemoteEngine(eid)))
        super().__delitem__(key)


usm.users.engines = Engines(usm.users.engines)
usm.unregisterRemoteEngine(eid)
for t in threads:
    t.join()
if not threads:
    usm.registerRemoteEngine(eid)
usm.users.engines = dict(usm.users.engines)
check(usm.users.getCredentials(eid, b"alice") is not None, "no credentials")
usm.unregisterRemoteEngine(eid)
""")

bug("c06-assign-unlocked", "C06", [(USM, """        with self.userLock:
            return self.users.assign(engineID, namespace)
""", """        return self.users.assign(engineID, namespace)
""")], "the listener learns an engine ID for one request while another request that used that "
    "engine ends in the application's thread",
    "wait() fails with an internal error instead of one of the documented outcomes",
    ALICE + ASIDE + """
from snmp.security.usm import users as U
usm = net.engine.usm
eid = b"\\x80\\0\\0\\0\\1x"
usm.registerRemoteEngine(eid)
threads = []
real = U.RemoteEngine.assign


def assign(self, namespace):
    if not threads:
        threads.append(aside(lambda: usm.unregisterRemoteEngine(eid)))
    return real(self, namespace)


U.RemoteEngine.assign = assign
usm.registerRemoteEngine(eid)
for t in threads:
    t.join()
if not threads:
    usm.unregisterRemoteEngine(eid)
check(usm.users.getCredentials(eid, b"alice") is not None, "no credentials")
usm.unregisterRemoteEngine(eid)
""")

bug("c16-time-unlocked", "C16", [(USM, """            with self.timeLock:
                engineTime = self.timekeeper.getEngineTime(engineID, timestamp)
""", """            engineTime = self.timekeeper.getEngineTime(engineID, timestamp)
""")], "a request is sent at the very moment the listener learns of a restart of the engine",
    "the message carries the new boots with the time of the previous boot",
    ALICE + ASIDE + """
from snmp.security.usm import timekeeper as T
a = net.hosts["10.0.0.1"] = Agent(users=[al], time0=5000)
m = net.engine.Manager("10.0.0.1")
m.get("1.3.6.1.1")
seen = len(a.seen)
a.restart()
threads = []
real = T.EngineTime.setEngineTime


def setEngineTime(self, *args):
    if a.boots == 4 and not threads:
        threads.append(aside(lambda: m.get("1.3.6.1.2", wait=False)))
    return real(self, *args)


T.EngineTime.setEngineTime = setEngineTime
m.get("1.3.6.1.1", timeout=3.0)
for t in threads:
    t.join(5)
for t, s in a.seen[seen:]:
    if s["flags"] & 1 and s["boots"] == 4:
        check(s["time"] < 100, f"sent boots {s['boots']} time {s['time']}")
""")
