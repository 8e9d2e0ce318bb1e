#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w}
                                    for n, m, w in state]}})


MGR = "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py"

prop("C01", "A request completes only with an answer its agent gave to that request",
     """Whatever is in flight at the same time - several requests on one manager, several
     managers, protocol versions, agents and engines, retransmissions, duplicates, late and
     reordered datagrams, dropped requests - a request that completes does so with an answer
     that its own agent sent in reply to that very request, and with the protocol version of
     that request. While a message waits for its answer, no other message of the same engine
     carries the same message identifier (SNMPv3) or request identifier (the other versions),
     and no other request of the same manager the same request identifier.""",
     "schedules fault_sequences histories",
     """every interleaving of application threads and the receiving thread, every order, loss,
     duplication and delay of datagrams, every mix of concurrent requests""",
     """Tests push one hand-made response at a time into a mocked dispatcher; which request an
     answer reaches depends on the interleaving of sends, closes, retransmissions and receipt.""",
     MGR + " snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py snmp/dispatcher.py",
     [("identifier allocation", "snmp/message/v3.py:SNMPv3MessageProcessor.cache; snmp/message/v1.py, v2c.py: cache"),
      ("matching an answer to its request", "prepareDataElements of each message processor; Request.push / processResponse of each manager"),
      ("release of an identifier", "RequestHandle callbacks: Request.close, RequestMessage.close")],
     [("outstanding", "identifier -> request awaiting an answer", "message processors")])

prop("C02", "What was asked is what is sent, and what was answered is what is returned",
     """Every datagram sent for a request is a well-formed SNMP message of the requested version
     addressed to the manager's agent and leaving from the manager's local address, carrying exactly the requested operation, object
     identifiers, values, bulk parameters, community or user, and retransmissions repeat it
     unchanged. Every well-formed answer of the agent, whatever legal encoding it uses, is
     returned with exactly the names, types and values, or raised with exactly the error status
     and the object at fault, that the agent sent.""",
     "inputs histories configurations",
     """all operations, object identifiers and SMI values (including boundary values), message
     sizes, encodings, users and engine configurations, alone or in conversation with agents
     that lose, reorder or repeat messages""",
     """Unit tests compare a few literal encodings per class; none sends a request through the
     whole stack and decodes it with an independent implementation.""",
     MGR + " snmp/pdu.py snmp/ber.py snmp/asn1.py snmp/smi.py snmp/message/v3.py"
     " snmp/message/core.py snmp/security/usm/implementation.py",
     [("request construction", "get/getNext/getBulk/set of each manager"),
      ("encoding and decoding", "snmp/ber.py, snmp/asn1.py, snmp/smi.py, snmp/pdu.py, snmp/message/*"),
      ("error mapping", "Request.wait: ErrorResponse")])

prop("C03", "An authenticated request never returns data its agent did not authenticate",
     """A request made with authentication returns values or an error status only if its agent
     produced exactly that content, in answer to it, under the user's keys and at no less than
     the requested security level; anything an attacker without the keys can send - forged,
     altered, truncated, re-flagged, downgraded, reflected, replayed under another identifier,
     signed with another user's or another engine's keys - is never returned. Nor can such a
     datagram end the request before its timeout.""",
     "fault_sequences inputs schedules",
     """every sequence of attacker datagrams interleaved at any point with the genuine exchange,
     with and without the attacker seeing the traffic or holding keys of other users and
     engines""",
     """Tests feed a handful of literal messages to the security module; the attack is a sequence
     against the state of discovery, of the time table and of outstanding requests.""",
     "snmp/security/usm/implementation.py snmp/security/usm/auth.py snmp/message/v3.py snmp/manager/v3.py",
     [("signature verification", "UserBasedSecurityModule.processIncoming; AuthProtocol.sign"),
      ("response to request matching", "SNMPv3MessageProcessor.prepareDataElements"),
      ("level and state checks", "Request.processResponse, processException; State.onResponse")])

prop("C04", "Requests leave exactly as protected as they were asked to be",
     """Every datagram that carries an SNMPv3 request, including every retransmission and whatever
     discovery or time synchronisation preceded it, is protected exactly at the requested
     security level, verifiably signed with and encrypted under the named user's keys for the
     engine it names. Messages sent before the engine is known reveal neither the user nor any
     of the request's content.""",
     "histories fault_sequences schedules",
     """every history of discovery, reports, restarts and forged reports, every user and level
     combination, all algorithms and both cipher back ends""",
     """Tests look at single messages in a fixed state; a downgrade would happen on a particular
     path through discovery, resynchronisation or retransmission.""",
     "snmp/manager/v3.py snmp/message/v3.py snmp/security/usm/implementation.py"
     " snmp/security/usm/auth.py snmp/security/usm/credentials.py snmp/security/usm/priv",
     [("sending", "Request.reallySend; SNMPv3MessageProcessor.prepareOutgoingMessage"),
      ("protection", "UserBasedSecurityModule.prepareOutgoing; DesCbc/AesCfb128.encrypt; AuthProtocol")])

prop("C05", "No initialisation vector is used twice under one privacy key",
     """No two encrypted messages sent under the same localized privacy key use the same
     initialisation vector, across retransmissions, managers, users, engine restarts at the
     remote end and the wrap-around of the salt counter.""",
     "histories schedules inputs",
     """every sequence of encrypted messages within the period of the salt, every starting point
     of the salt, every history of remote clocks""",
     """Tests encrypt one or two blocks; reuse needs a counter edge, a shared or recreated
     credential, or a repeated clock reading.""",
     "snmp/security/usm/priv/openssl/aes.py snmp/security/usm/priv/openssl/des.py"
     " snmp/security/usm/priv/pycryptodome/aes.py snmp/security/usm/priv/pycryptodome/des.py"
     " snmp/security/usm/credentials.py",
     [("salt generation", "AesCfb128 / DesCbc: newSalt, packSalt"),
      ("lifetime of the cipher object", "credentials.py localize; users.py")],
     [("salt", "next 32- or 64-bit salt", "privacy protocol objects")])

prop("C06", "A waiting call ends by its timeout, and reports a timeout no earlier",
     """Waiting for a request returns or raises no later than the request's timeout (or
     immediately, if that has passed), whatever the network, the agents, other requests on the
     manager, other threads or the wall clock do, and signals a timeout only once the full
     timeout has elapsed. Sending never blocks, and neither raises an exception other than the
     documented ones.""",
     "schedules fault_sequences configurations",
     """every interleaving, message loss and delay pattern, wall-clock jump, send failure,
     timeout and refresh period, any number of concurrent requests per manager""",
     """Tests use a few fixed timings with the real clock; lateness depends on other requests'
     timers, spurious wake-ups, clock steps and failures at a particular instant.""",
     MGR, [("waiting", "Request.wait of each manager"),
           ("refreshing", "SNMPv3UsmManager.refresh/poke; SNMPv1Manager.refresh; SNMPv2cManager.refresh; Request.refresh")],
     [("active", "heap of requests ordered by next refresh", "managers"),
      ("expiration", "end of the request", "Request")])

prop("C07", "An answer that arrives in time is delivered, without delay",
     """If a genuine answer to a request reaches the process while the request is still open,
     waiting for that request returns that answer - even if waiting starts only after the
     timeout has passed, even after other requests have been waited for, and again on a second
     wait - and it returns as soon as the answer has been received.""",
     "schedules fault_sequences",
     """every interleaving of receipt with the waiting thread's checks and timers, answers to any
     of the retransmitted copies, duplicates, answers arriving in any order""",
     """Lost wake-ups and discarded answers need an exact interleaving of the receiving and the
     waiting thread, which tests cannot choose.""",
     MGR + " snmp/dispatcher.py snmp/transport/posix/udp.py snmp/transport/generic/udp.py",
     [("delivery", "Dispatcher.hear; Request.push; RequestMessage.push; Request.processResponse"),
      ("waking", "Request.wait")])

prop("C08", "Unanswered requests are repeated once per refresh period until they end",
     """A request is sent as soon as it is made (under SNMPv3, once the manager has learned the
     agent's engine). While an application waits on a manager, each of its unanswered requests is sent again
     once per refresh period: no period passes without a copy and no two periodic copies fall
     into one period. Outside that rhythm a request is sent again only when a report told something
     new (which engine to address, or that engine's clock), never for a duplicate or belated
     report, and an agent that keeps reporting its clock gets one such copy per regular copy at
     most. Once a request has been answered, has expired or has been given up, it is
     never sent again.""",
     "schedules fault_sequences configurations",
     """all combinations of concurrent requests, refresh periods and timeouts, delayed wake-ups,
     clock granularities, answers arriving at any point""",
     """Tests check one or two refreshes of one request; the order of several requests' timers,
     overdue wake-ups and coarse clocks produce the failing cases.""",
     MGR + " snmp/utils.py",
     [("refresh schedule", "Request.refresh, nextRefresh; manager refresh(); ComparableWeakRef ordering")],
     [("nextRefresh", "time of the next copy", "Request"), ("active", "heap of requests", "managers")])

prop("C09", "Requests succeed again once faults stop",
     """After message loss, partitions, agent restarts, changes of the agent's engine identifier
     or clock, forged datagrams and system-call failures have ceased, a new request on an
     existing manager to a reachable agent completes within its timeout; nothing that happened
     before leaves the manager permanently unable to communicate.""",
     "fault_sequences crash_points histories",
     """every sequence of faults followed by a quiet period, with the manager in any state of
     discovery and synchronisation when the faults stop""",
     """Tests cover the straight discovery sequence; getting stuck requires a particular fault at
     a particular step of discovery or resynchronisation.""",
     "snmp/manager/v3.py snmp/manager/v2c.py snmp/manager/v1.py snmp/security/usm/timekeeper.py"
     " snmp/security/usm/implementation.py snmp/dispatcher.py",
     [("discovery state machine", "snmp/manager/v3.py: State subclasses"),
      ("resynchronisation", "processNotInTimeWindow, processUnknownEngineID; EngineTime.update, hint")],
     [("state", "discovery state", "SNMPv3UsmManager"), ("table", "remote clocks", "TimeKeeper")])

prop("C10", "Replayed and outdated authenticated messages are rejected",
     """An authenticated message whose boot counter is below, or whose time lies more than 150
     seconds behind, what has been learned from authenticated messages of the same engine is not
     accepted as an answer, nor is a message with the maximum boot counter; no sequence of such
     messages moves the local notion of the remote clock backwards.""",
     "fault_sequences histories inputs",
     """every recorded message replayed at every later time, across agent restarts, clock steps,
     boundaries of the window and of the counters""",
     """Tests probe single calls at a few offsets; the property is about histories of accepted
     messages and elapsed time.""",
     "snmp/security/usm/timekeeper.py snmp/security/usm/implementation.py",
     [("time window", "EngineTime.update, computeAge; TimeKeeper.updateAndVerify")],
     [("snmpEngineBoots, latestBootTime, latestReceivedEngineTime", "what is known of the remote clock", "EngineTime")])

prop("C11", "Reports end a request only as they should",
     """An authenticated error report from the agent ends the request at once with the exception
     that corresponds to it; an unauthenticated one never ends it early and never prevents a
     genuine answer that still arrives from being returned, but is what the application sees
     instead of a plain timeout if nothing better comes. Reports that only serve discovery and
     time synchronisation are never surfaced.""",
     "schedules fault_sequences inputs",
     """every kind of report at every level, genuine or forged, arriving before, between or after
     answers, on any copy of the request""",
     """The outcome depends on the order of reports, answers, duplicates and expiry, of which
     tests exercise a handful.""",
     "snmp/manager/v3.py",
     [("report handling", "RequestMessage.push; Request.processException, processResponse, wait")])

prop("C12", "Finished requests and managers leave nothing behind",
     """Repeating the same work - requests that are answered, refused, time out, are dropped
     without waiting or fail to be sent, and managers that come and go, with discovery and
     reports under way - does not make the library keep more and more objects, identifiers,
     registrations or descriptors.""",
     "histories fault_sequences schedules",
     """every repeated mixture of request outcomes and manager lifetimes, with answers arriving
     after the request is gone""",
     """A leak shows only by counting what is reachable after many rounds whose last references
     disappear in different threads and orders.""",
     MGR + " snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py snmp/security/usm/users.py",
     [("release", "Request.close/__del__, RequestMessage.close, uncache"),
      ("heap clean-up", "manager refresh()"),
      ("engine registration", "UserRegistry.assign/release; SNMPv3UsmManager.__del__")],
     [("outstanding", "identifiers", "message processors"), ("active, unsent", "weak references", "managers"),
      ("engines", "registered remote engines", "UserRegistry")])

prop("C13", "Engines start, fail and shut down cleanly",
     """Shutting an engine down - at any moment, also while requests are outstanding and datagrams
     keep arriving, more than once, after creating a manager failed, or by leaving its with
     block through an error - returns promptly without
     an error, ends every thread and closes every descriptor the library opened, and no
     descriptor it does not own. When the system refuses a socket or an address, the failure is
     raised to the caller and everything else keeps working.""",
     "schedules crash_points fault_sequences configurations",
     """every point at which shutdown is called, every interleaving with the receiving thread,
     failure of any system call during start-up, IPv4 and IPv6, both event loops""",
     """Tests shut down an idle engine; races with arriving datagrams, reused descriptor numbers
     and partial start-up are never produced.""",
     "snmp/engine.py snmp/dispatcher.py snmp/transport/udp.py snmp/transport/posix/udp.py snmp/transport/generic/udp.py",
     [("start and stop of the receiving thread", "Dispatcher.connectTransport, shutdown"),
      ("wake-up channel", "UdpMultiplexor.register, listen, stop, close")],
     [("thread", "receiving thread", "Dispatcher"), ("r, w", "wake-up channel", "UdpMultiplexor")])

prop("C14", "No datagram or receive error can stop the engine from listening",
     """Whatever bytes arrive from whomever, and whatever error the operating system reports on
     receiving, the engine keeps reading and processing every later datagram without looping or
     dying, and requests made afterwards on any of its managers succeed.""",
     "inputs fault_sequences schedules",
     """arbitrary byte strings (random, truncated, corrupted and structurally hostile messages of
     every version), floods, transient receive errors and spurious readiness""",
     """Tests decode a few malformed strings; the property quantifies over all byte strings in all
     states and over the life of the receiving thread.""",
     "snmp/dispatcher.py snmp/transport/udp.py snmp/transport/posix/udp.py snmp/transport/generic/udp.py"
     " snmp/message/v3.py snmp/message/v1.py snmp/message/v2c.py snmp/ber.py snmp/security/usm/implementation.py",
     [("containment", "Dispatcher.hear"), ("receive loop", "UdpMultiplexor.listen; UdpSocket.receive")])

prop("C15", "Threads and finalizers never deadlock or disturb one another",
     """When several threads use the managers of one engine (each manager by one thread) while
     the receiving thread runs and the garbage collector may run finalizers at any instruction in
     any thread, no call deadlocks, no thread dies, no finalizer fails, and every thread's
     requests still complete or time out as they would alone.""",
     "schedules",
     """every preemption between any two source lines or locking operations, and garbage
     collection at any of these points""",
     """Tests run a single thread against mocks; the outcome depends on preemption points no test
     controls.""",
     MGR + " snmp/dispatcher.py snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py"
     " snmp/security/usm/implementation.py snmp/security/usm/users.py",
     [("locks", "Request.lock, SNMPv3UsmManager.lock/activeLock, cacheLock, userLock, timeLock, Dispatcher.lock"),
      ("finalizers", "Request.__del__, SNMPv3UsmManager.__del__")])

prop("C16", "Authenticated requests carry the remote engine's current clock",
     """Every authenticated request carries the boot counter and time that follow from the
     authenticated messages received so far and the time elapsed since, in range and never
     influenced by unauthenticated or replayed messages once an authenticated one has been
     accepted. The library follows restarts, fast and slow clocks and counters near their
     maximum without raising errors to the application.""",
     "histories fault_sequences inputs",
     """every history of agent clocks (restarts, drift, steps, extreme values), attacker lies and
     wall-clock jumps""",
     """Tests call the time table with a few numbers; the property relates outgoing messages to
     the whole history of received ones and to elapsed time.""",
     "snmp/security/usm/timekeeper.py snmp/security/usm/implementation.py snmp/manager/v3.py",
     [("clock estimate", "EngineTime.snmpEngineTime, update, hint; TimeKeeper.getEngineTime")],
     [("table", "remote clocks", "TimeKeeper")])

prop("C17", "Credentials stay within their namespace and follow the engine's registration",
     """Requests in one namespace are signed only with that namespace's credentials, also when
     another namespace has users of the same name, other secrets or algorithms, or added them
     later. A remote engine belongs to one namespace at a time: it is refused to another while a
     manager holds it, and becomes usable again, in any namespace, once the last manager and
     request that used it are gone. Adding a user again changes nothing, and is refused when
     its secrets or algorithms differ.""",
     "histories schedules configurations",
     """every order of adding users, creating, discovering and releasing managers across
     namespaces, with message loss and any interleaving with the receiving thread""",
     """Tests exercise the registry's methods one by one; leakage or a stuck registration appears
     over lifetimes of managers and requests that end in different threads.""",
     "snmp/security/usm/users.py snmp/security/usm/implementation.py snmp/security/usm/credentials.py"
     " snmp/manager/v3.py snmp/engine.py",
     [("ownership of engines", "UserRegistry.assign, release; RemoteEngine"),
      ("credential lookup", "UserRegistry.getCredentials; NamespaceConfig.findUser")],
     [("engines", "engine id -> namespace, reference count, credentials", "UserRegistry")])

prop("C18", "Object identifiers order, index and parse consistently",
     """Comparing, extending, matching and converting object identifiers to and from text and
     table indices agree with one another for all identifiers and all index types.""",
     "inputs", "all pairs of object identifiers and all index values",
     """Tests use a few literals; the property is algebraic over all inputs.""",
     "snmp/smi.py snmp/asn1.py",
     [("object identifier algebra", "snmp/asn1.py / snmp/smi.py: OID")])

prop("C19", "Decoding inverts encoding for every value type, at every length",
     """Every value of every SMI and ASN.1 type decodes from its own encoding to an equal value,
     every non-minimal but legal encoding decodes to the same value, and every malformed encoding
     is refused with a parse error.""",
     "inputs", "all values and all byte strings, of each codec taken alone",
     """Tests use literals around a few boundaries.""",
     "snmp/ber.py snmp/asn1.py snmp/smi.py snmp/pdu.py",
     [("BER", "snmp/ber.py: encode, decode, ParseError")])

prop("C20", "Password-to-key localization follows RFC 3414 for every password",
     """For every password and engine identifier and every algorithm, the derived and localized
     keys are those that RFC 3414 and RFC 7860 define.""",
     "inputs", "all passwords, engine identifiers and algorithms",
     """Tests check the published example vectors.""",
     "snmp/security/usm/auth.py snmp/security/usm/credentials.py",
     [("key derivation", "AuthProtocol.computeKey, localize")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        f.write(json.dumps(p) + "\n")
