From d156462c9e18575fa9beecd0ee62b1bbab72b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 01/20] fix: encode the first two sub-identifiers as 40 * first
 + second

The encoder combined them with a bitwise OR, which produces a different
OID whenever the two operands share a bit (e.g. 1.8 became 1.0).
---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 36a5e463de9691c704654e18d7f4d0cc161397b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 02/20] fix: use only the bytes that OpenSSL actually wrote

EnvelopeContext.process() returned the whole output buffer, so AES
ciphertexts and plaintexts carried trailing zero bytes, and the final
block of every DES-encrypted message was replaced with zeros, because
OpenSSL withholds it until it sees another block.
---
 snmp/security/usm/priv/openssl/__init__.py | 2 +-
 snmp/security/usm/priv/openssl/des.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..d5cfb92 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -64,7 +64,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output)[:outl[0]]
 
 class Decryptor(Envelope):
     ENCRYPT = False
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..ef5232d 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -43,7 +43,8 @@ class DesCbc(PrivProtocol):
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
         iv = self.computeIV(salt)
-        return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
+        # OpenSSL withholds the last complete block, so add an extra one
+        return Decryptor(self.CIPHER).decrypt(self.pad(data), self.key, iv)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 1cd498c28c06fcd776a682460a099e63f66f5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 03/20] fix: push a request onto the heap only once its key is
 final

send() sets nextRefresh, the key by which the heap is ordered, so pushing
the request before calling send() broke the heap invariant, and delayed
the retransmission of other requests on the same manager.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..b116622 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -184,8 +184,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..6e99d87 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -184,8 +184,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From 5dd209c5110f0697cb6884ca523ea98afa9ec5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 04/20] fix: always schedule the next refresh in the future

When the clock reads exactly nextRefresh, or a whole number of periods
later, ceil() scheduled the following refresh for the current instant.
On a clock with a coarse resolution, the manager would re-send the
request in a tight loop until the clock moved on.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index b116622..d0dd642 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 6e99d87..85d3eb2 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..e03c03b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From 057546a016b4871c165f9939c824ac5124080a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 05/20] fix: measure timeouts and engine times with a monotonic
 clock

Setting the system clock while a request was outstanding made it expire
early, or wait for as long as the clock had been set back. It also made
the estimate of a remote engine's snmpEngineTime wrong, even negative.
---
 snmp/manager/v1.py                  | 8 ++++----
 snmp/manager/v2c.py                 | 8 ++++----
 snmp/manager/v3.py                  | 8 ++++----
 snmp/security/usm/implementation.py | 6 +++---
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index d0dd642..5d7e173 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -23,7 +23,7 @@ class Request(RequestHandle[Message]):
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         self.community = community
         self.manager = manager
@@ -43,7 +43,7 @@ class Request(RequestHandle[Message]):
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def nextRefresh(self) -> float:
@@ -79,7 +79,7 @@ class Request(RequestHandle[Message]):
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -95,7 +95,7 @@ class Request(RequestHandle[Message]):
             return timeToNextRefresh
 
     def send(self) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend()
 
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 85d3eb2..5232983 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -23,7 +23,7 @@ class Request(RequestHandle[Message]):
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         self.community = community
         self.manager = manager
@@ -43,7 +43,7 @@ class Request(RequestHandle[Message]):
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def nextRefresh(self) -> float:
@@ -79,7 +79,7 @@ class Request(RequestHandle[Message]):
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -95,7 +95,7 @@ class Request(RequestHandle[Message]):
             return timeToNextRefresh
 
     def send(self) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend()
 
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e03c03b..866b224 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -280,7 +280,7 @@ class Request:
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
@@ -322,7 +322,7 @@ class Request:
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def nextRefresh(self) -> float:
@@ -389,7 +389,7 @@ class Request:
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -405,7 +405,7 @@ class Request:
             return timeToNextRefresh
 
     def send(self, engineID: Optional[bytes] = None) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend(engineID)
 
diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 84068b5..ab2d12f 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -1,7 +1,7 @@
 __all__ = ["InvalidSecurityLevel", "UserBasedSecurityModule"]
 
 import threading
-from time import time
+from time import monotonic
 
 from snmp.exception import *
 from snmp.message.v3 import *
@@ -106,7 +106,7 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
         timestamp: Optional[float] = None,
     ) -> bytes:
         if timestamp is None:
-            timestamp = time()
+            timestamp = monotonic()
 
         if message.header.flags.authFlag:
             with self.userLock:
@@ -173,7 +173,7 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
         timestamp: Optional[float] = None,
     ) -> None:
         if timestamp is None:
-            timestamp = time()
+            timestamp = monotonic()
 
         securityParameters = UsmSecurityParameters.decode(
             message.securityParameters.original,
-- 
2.43.0


From 6275725d77ad71c6f17e41705e5c0930d9568583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 06/20] fix: make wait() return on time, with the response if
 there is one

In the v1 and v2c managers, wait() raised Timeout for a response that had
arrived before the deadline if it was called after the deadline. It could
also wait forever, if the deadline passed just before refresh() looked at
the request, leaving nothing to wait for. Calling it a second time failed
with an AssertionError.
---
 snmp/manager/v1.py  | 25 +++++++++++++------------
 snmp/manager/v2c.py | 25 +++++++++++++------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 5d7e173..713eb47 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -38,8 +38,7 @@ class Request(RequestHandle[Message]):
         self.period = refreshPeriod
 
     def __del__(self) -> None:
-        if self.callback is not None:
-            self.close()
+        self.close()
 
     @property
     def expired(self) -> bool:
@@ -54,9 +53,9 @@ class Request(RequestHandle[Message]):
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        assert self.callback is not None
-        self.callback(self.pdu.requestID)
-        self.callback = None
+        if self.callback is not None:
+            self.callback(self.pdu.requestID)
+            self.callback = None
 
     def addCallback(self,
         callback: Callable[[int], None],
@@ -100,18 +99,20 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
-        while not self.expired:
+        while not self.event.is_set() and not self.expired:
             timeout = self.manager.refresh()
-            if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
-                break
+            timeLeft = max(self.expiration - time.monotonic(), 0.0)
+
+            if timeout is None or timeout > timeLeft:
+                timeout = timeLeft
+
+            self.event.wait(timeout=timeout)
 
         self.close()
-        if pdu is None:
+        if self.response is None:
             raise Timeout()
         else:
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 5232983..cf81a5f 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -38,8 +38,7 @@ class Request(RequestHandle[Message]):
         self.period = refreshPeriod
 
     def __del__(self) -> None:
-        if self.callback is not None:
-            self.close()
+        self.close()
 
     @property
     def expired(self) -> bool:
@@ -54,9 +53,9 @@ class Request(RequestHandle[Message]):
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        assert self.callback is not None
-        self.callback(self.pdu.requestID)
-        self.callback = None
+        if self.callback is not None:
+            self.callback(self.pdu.requestID)
+            self.callback = None
 
     def addCallback(self,
         callback: Callable[[int], None],
@@ -100,18 +99,20 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
-        while not self.expired:
+        while not self.event.is_set() and not self.expired:
             timeout = self.manager.refresh()
-            if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
-                break
+            timeLeft = max(self.expiration - time.monotonic(), 0.0)
+
+            if timeout is None or timeout > timeLeft:
+                timeout = timeLeft
+
+            self.event.wait(timeout=timeout)
 
         self.close()
-        if pdu is None:
+        if self.response is None:
             raise Timeout()
         else:
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
-- 
2.43.0


From 078dffdcb5a9abb3ad1bdf1914658b072e8ab7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 07/20] fix: do not wait for another request's refresh past the
 deadline

In the v3 manager, wait() slept until the next refresh among all active
requests, even if its own request, not being one of them, expired first.
---
 snmp/manager/v3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 866b224..215aa36 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -414,6 +414,8 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
+                timeLeft = self.expiration - time.monotonic()
+                timeout = max(min(timeout, timeLeft), 0.0)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From c189c8c075f489d29ed0cc094c80e8c44e4806b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 08/20] fix: accept only a response that matches the request
 and its security level

---
 snmp/manager/v3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 215aa36..36960d7 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -359,6 +359,13 @@ class Request:
         #if random.randint(1, 3) % 3 != 0:
         #    return
 
+        # The message may have been a discovery message, sent on behalf of this
+        # request, with a lower security level, and a different PDU
+        assert response.scopedPDU is not None
+        if (response.scopedPDU.pdu.requestID != self.pdu.requestID
+        or response.header.flags.securityLevel < self.securityLevel):
+            return
+
         if self.manager.processResponse(self, response):
             if not self.event.is_set():
                 self.response = response
-- 
2.43.0


From f6e7ebae2d369478807a38e79550d5ba868d4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 09/20] fix: keep listening after an error while receiving a
 packet

---
 snmp/transport/generic/udp.py | 12 ++++++++++--
 snmp/transport/posix/udp.py   |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..6d97831 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -49,10 +49,18 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                     assert self.r is not None
                     assert self.w is not None
                     if fd == self.r.fileno():
-                        data, addr = self.r.recvfrom(len(STOPMSG))
+                        try:
+                            data, addr = self.r.recvfrom(len(STOPMSG))
+                        except OSError:
+                            continue
+
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..f0d5afd 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,11 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From 3a3f723c4dfdbdd5db164238553840413c2d934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 10/20] fix: let finalizers run in a thread that holds a lock
 they need

---
 snmp/message/v1.py                  | 2 +-
 snmp/message/v2c.py                 | 2 +-
 snmp/message/v3.py                  | 2 +-
 snmp/security/usm/implementation.py | 2 +-
 snmp/security/usm/users.py          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/snmp/message/v1.py b/snmp/message/v1.py
index 3c31139..5cc2ef2 100644
--- a/snmp/message/v1.py
+++ b/snmp/message/v1.py
@@ -40,7 +40,7 @@ class SNMPv1MessageProcessor(MessageProcessor[Message, PDU]):
     VERSION = ProtocolVersion.SNMPv1
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v2c.py b/snmp/message/v2c.py
index 192ec5a..a65978f 100644
--- a/snmp/message/v2c.py
+++ b/snmp/message/v2c.py
@@ -42,7 +42,7 @@ class SNMPv2cMessageProcessor(MessageProcessor[Message, AnyPDU]):
     VERSION = ProtocolVersion.SNMPv2c
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v3.py b/snmp/message/v3.py
index 129ce3e..15b5452 100644
--- a/snmp/message/v3.py
+++ b/snmp/message/v3.py
@@ -485,7 +485,7 @@ class SNMPv3MessageProcessor(MessageProcessor[SNMPv3Message, AnyPDU]):
     def __init__(self, msgMaxSize: int) -> None:
         self.msgMaxSize = msgMaxSize
 
-        self.cacheLock = threading.Lock()
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index ab2d12f..9d7dbc2 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -40,7 +40,7 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
 
     def __init__(self) -> None:
         self.timeLock = threading.Lock()
-        self.userLock = threading.Lock()
+        self.userLock = threading.RLock()
 
         self.timekeeper = TimeKeeper()
         self.users = UserRegistry()
diff --git a/snmp/security/usm/users.py b/snmp/security/usm/users.py
index 1302071..60ccb3c 100644
--- a/snmp/security/usm/users.py
+++ b/snmp/security/usm/users.py
@@ -153,7 +153,7 @@ class UserRegistry:
 
         config.addUser(userName, credentials, defaultSecurityLevel, default)
 
-        for engineID, engine in self.engines.items():
+        for engineID, engine in list(self.engines.items()):
             if engine.namespace == namespace:
                 engine.addUser(engineID, userName, credentials)
 
-- 
2.43.0


From 0af2123d887e2ed934f4bcf57bc9cbd6c331357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 11/20] fix: keep track of every request when an attempt to
 send one fails

---
 snmp/manager/v1.py  |  6 +++++-
 snmp/manager/v2c.py |  6 +++++-
 snmp/manager/v3.py  | 37 +++++++++++++++++++++++++------------
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 713eb47..9ba79f2 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -144,7 +144,11 @@ class SNMPv1Manager(Generic[T]):
                 if request is None:
                     wait = None
                 else:
-                    wait = request.refresh()
+                    try:
+                        wait = request.refresh()
+                    except Exception:
+                        heapq.heapreplace(self.requests, reference)
+                        raise
 
                 if wait is None:
                     heapq.heappop(self.requests)
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index cf81a5f..6a4653b 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -144,7 +144,11 @@ class SNMPv2cManager(Generic[T]):
                 if request is None:
                     wait = None
                 else:
-                    wait = request.refresh()
+                    try:
+                        wait = request.refresh()
+                    except Exception:
+                        heapq.heapreplace(self.requests, reference)
+                        raise
 
                 if wait is None:
                     heapq.heappop(self.requests)
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 36960d7..c1aee44 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -536,20 +536,21 @@ class SNMPv3UsmManager(Generic[T]):
             self.state.onInactive()
             self.updateState()
 
-            unsent = self.unsent
-            self.unsent = deque()
-            while unsent:
-                reference = unsent.pop()
+            for _ in range(len(self.unsent)):
+                reference = self.unsent.pop()
                 request = reference()
 
                 if request is not None:
                     if self.state.onRequest(request.securityLevel.auth):
+                        self.updateState()
+
                         with self.activeLock:
-                            request.send(self.engineID)
-                            heapq.heappush(self.active, reference)
-                            active = True
+                            try:
+                                request.send(self.engineID)
+                            finally:
+                                heapq.heappush(self.active, reference)
 
-                        self.updateState()
+                        active = True
                     else:
                         self.unsent.appendleft(reference)
 
@@ -566,7 +567,11 @@ class SNMPv3UsmManager(Generic[T]):
                     if request is None:
                         wait = None
                     else:
-                        wait = request.refresh()
+                        try:
+                            wait = request.refresh()
+                        except Exception:
+                            heapq.heapreplace(self.active, reference)
+                            raise
 
                     if wait is None:
                         heapq.heappop(self.active)
@@ -598,22 +603,30 @@ class SNMPv3UsmManager(Generic[T]):
     def onReport(self, request: Request, engineID: bytes) -> None:
         with self.lock:
             sendAll = self.state.onReport(engineID)
+            self.updateState()
 
             with self.activeLock:
-                request.send(engineID)
+                self.trySend(request, engineID)
                 heapq.heapify(self.active)
 
             if sendAll:
-                self.updateState()
                 while self.unsent:
                     reference = self.unsent.pop()
                     req = reference()
 
                     if req is not None:
                         with self.activeLock:
-                            req.send(engineID)
+                            self.trySend(req, engineID)
                             heapq.heappush(self.active, reference)
 
+    # This runs in the listener thread, where there is no one to handle an
+    # exception. If the error persists, then the next refresh will raise it.
+    def trySend(self, request: Request, engineID: bytes) -> None:
+        try:
+            request.send(engineID)
+        except Exception:
+            pass
+
     def processResponse(self,
         request: Request,
         response: SNMPv3Message,
-- 
2.43.0


From 8b4815780063b8c68555cae12ce4a3acf580b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 12/20] fix: do not let the listener send a request while it is
 being closed

---
 snmp/manager/v3.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index c1aee44..2f5d6b3 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -282,6 +282,8 @@ class Request:
     ) -> None:
         now = time.monotonic()
 
+        # protects self.engineID and self.messages
+        self.lock = threading.RLock()
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
 
@@ -333,10 +335,11 @@ class Request:
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        while self.messages:
-            self.messages.pop().close()
+        with self.lock:
+            while self.messages:
+                self.messages.pop().close()
 
-        self.engineID = None
+            self.engineID = None
 
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
@@ -377,20 +380,23 @@ class Request:
         user = self.userName
         securityLevel = self.securityLevel
 
-        if engineID is None:
-            if self.engineID is None:
-                pdu = GetRequestPDU()
-                engineID = b""
-                user = b""
-                securityLevel = noAuthNoPriv
+        # This could be running in the listener thread,
+        # in parallel with a call to self.close()
+        with self.lock:
+            if engineID is None:
+                if self.engineID is None:
+                    pdu = GetRequestPDU()
+                    engineID = b""
+                    user = b""
+                    securityLevel = noAuthNoPriv
+                else:
+                    engineID = self.engineID
             else:
-                engineID = self.engineID
-        else:
-            self.engineID = engineID
+                self.engineID = engineID
 
-        message = RequestMessage(self, self.synchronized)
-        self.messages.add(message)
-        self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
+            message = RequestMessage(self, self.synchronized)
+            self.messages.add(message)
+            self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
 
     def refresh(self) -> Optional[float]:
         if self.event.is_set():
-- 
2.43.0


From 2f4e972babdadd6db342ba8ed14f763479bf2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 13/20] fix: reject and avoid out-of-range engine boots and
 engine time

---
 snmp/security/usm/parameters.py | 8 ++++++++
 snmp/security/usm/timekeeper.py | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..837cc1e 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,14 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            errmsg = f"Invalid msgAuthoritativeEngineBoots: {engineBoots.value}"
+            raise ParseError(errmsg)
+
+        if engineTime.value < 0:
+            errmsg = f"Invalid msgAuthoritativeEngineTime: {engineTime.value}"
+            raise ParseError(errmsg)
+
         return cls(
             engineID.data,
             engineBoots.value,
diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..f30e8eb 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -4,6 +4,7 @@ from snmp.typing import *
 
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self,
         engineBoots: int,
@@ -28,7 +29,8 @@ class EngineTime:
         return self.snmpEngineBoots < self.MAX_ENGINE_BOOTS
 
     def snmpEngineTime(self, timestamp: float) -> int:
-        return int(timestamp - self.latestBootTime)
+        engineTime = int(timestamp - self.latestBootTime)
+        return min(engineTime, self.MAX_ENGINE_TIME)
 
     def setEngineTime(self, engineTime: int, timestamp: float) -> None:
         self.latestBootTime = timestamp - engineTime
-- 
2.43.0


From 68bebddac32dc74947d9ac099bdf1e2249fc8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 14/20] fix: allow an engine to be shut down more than once

---
 snmp/transport/generic/udp.py |  3 ++-
 snmp/transport/posix/udp.py   | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 6d97831..c828d0b 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -69,7 +69,8 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
             self.w.sendto(STOPMSG, self.r.getsockname())
 
     def close(self) -> None:
-        for sock in self.sockets.values():
+        while self.sockets:
+            _, sock = self.sockets.popitem()
             sock.close()
 
         if self.w is not None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index f0d5afd..639f8fe 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -45,10 +45,16 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         os.write(self.w, bytes(1))
 
     def close(self) -> None:
-        for sock in self.sockets.values():
+        while self.sockets:
+            _, sock = self.sockets.popitem()
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        # The numbers may be reused as soon as these descriptors are closed
+        r, w = self.r, self.w
+        self.r = self.w = -1
+
+        if w != -1:
+            os.close(w)
+            os.close(r)
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From f43347dedeb818712df180dd3d91753102bb5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 15/20] fix: do not send a request that has already expired

---
 snmp/manager/v3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 2f5d6b3..56d0bb6 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -546,7 +546,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = self.unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         self.updateState()
 
@@ -628,6 +628,10 @@ class SNMPv3UsmManager(Generic[T]):
     # This runs in the listener thread, where there is no one to handle an
     # exception. If the error persists, then the next refresh will raise it.
     def trySend(self, request: Request, engineID: bytes) -> None:
+        # It's too late to send a request that the caller has given up on
+        if request.event.is_set() or request.expired:
+            return
+
         try:
             request.send(engineID)
         except Exception:
-- 
2.43.0


From 1add995538df5e1a6d48fcf98e1672af7bcb39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 16/20] fix: resynchronize when the remote clock falls behind
 by more than the time window

---
 snmp/security/usm/timekeeper.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index f30e8eb..debfc55 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -5,6 +5,7 @@ from snmp.typing import *
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
     MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
+    TIME_WINDOW_SIZE: ClassVar[int] = 150
 
     def __init__(self,
         engineBoots: int,
@@ -33,6 +34,7 @@ class EngineTime:
         return min(engineTime, self.MAX_ENGINE_TIME)
 
     def setEngineTime(self, engineTime: int, timestamp: float) -> None:
+        self.latestReceivedEngineTime = engineTime
         self.latestBootTime = timestamp - engineTime
 
     def computeAge(self, engineTime: int, timestamp: float) -> int:
@@ -54,8 +56,15 @@ class EngineTime:
     ) -> None:
         if self.authenticated:
             if engineBoots == self.snmpEngineBoots:
-                if engineTime > self.snmpEngineTime(timestamp):
-                    self.setEngineTime(engineTime, timestamp)
+                age = self.computeAge(engineTime, timestamp)
+
+                # If the newest message yet is outside of the time window, then
+                # it's the remote clock that is slow, rather than the message
+                if engineTime > self.latestReceivedEngineTime:
+                    if age < 0 or age > self.TIME_WINDOW_SIZE:
+                        self.setEngineTime(engineTime, timestamp)
+                    else:
+                        self.latestReceivedEngineTime = engineTime
             elif engineBoots > self.snmpEngineBoots:
                 self.snmpEngineBoots = engineBoots
                 self.setEngineTime(engineTime, timestamp)
@@ -65,7 +74,7 @@ class EngineTime:
             self.authenticated = True
 
 class TimeKeeper:
-    TIME_WINDOW_SIZE: ClassVar[int] = 150
+    TIME_WINDOW_SIZE: ClassVar[int] = EngineTime.TIME_WINDOW_SIZE
 
     def __init__(self) -> None:
         self.table: Dict[bytes, EngineTime] = {}
-- 
2.43.0


From 2e9b6ad0438f19d3bdcdb918ca91af7950f8fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 17/20] fix: set up the wake-up sockets completely or not at
 all

---
 snmp/transport/generic/udp.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index c828d0b..e41e4c7 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -21,12 +21,24 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
             address_family = sock.DOMAIN.address_family
             loopback_address = sock.DOMAIN.loopback_address
 
-            self.r = socket(address_family, SOCK_DGRAM)
-            self.w = socket(address_family, SOCK_DGRAM)
+            r = socket(address_family, SOCK_DGRAM)
 
-            self.r.setblocking(False)
-            self.r.bind((loopback_address, 0))
-            self.w.bind((loopback_address, 0))
+            try:
+                w = socket(address_family, SOCK_DGRAM)
+
+                try:
+                    r.setblocking(False)
+                    r.bind((loopback_address, 0))
+                    w.bind((loopback_address, 0))
+                except BaseException:
+                    w.close()
+                    raise
+            except BaseException:
+                r.close()
+                raise
+
+            self.r = r
+            self.w = w
 
         self.sockets[sock.fileno] = sock
 
-- 
2.43.0


From 638fd9e120dc048aa1683686de9e07d3285c1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 18/20] fix: do not update the engine time from a message that
 is not a response

---
 snmp/security/usm/implementation.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 9d7dbc2..a525f69 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -5,6 +5,7 @@ from time import monotonic
 
 from snmp.exception import *
 from snmp.message.v3 import *
+from snmp.pdu import Response
 from snmp.security import *
 from snmp.security.levels import *
 from snmp.security.models import *
@@ -230,6 +231,23 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
         if user.auth.sign(wholeMsg) != securityParameters.signature:
             raise WrongDigest("Invalid signature")
 
+        if message.header.flags.privFlag:
+            try:
+                message.plaintext = cast(PrivProtocol, user.priv).decrypt(
+                    cast(OctetString, message.encryptedPDU).data,
+                    securityParameters.engineBoots,
+                    securityParameters.engineTime,
+                    securityParameters.salt,
+                )
+            except ValueError as err:
+                raise DecryptionError(str(err)) from err
+
+        # A copy of an outgoing message also has a valid signature, but it says
+        # nothing about the clock of the remote engine
+        assert message.scopedPDU is not None
+        if not isinstance(message.scopedPDU.pdu, Response):
+            raise UnsupportedFeature("Received a non-response PDU type")
+
         try:
             with self.timeLock:
                 withinTimeWindow = self.timekeeper.updateAndVerify(
@@ -247,14 +265,3 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
                 ))
         except InvalidEngineID as err:
             raise UnknownEngineID(securityParameters.engineID) from err
-
-        if message.header.flags.privFlag:
-            try:
-                message.plaintext = cast(PrivProtocol, user.priv).decrypt(
-                    cast(OctetString, message.encryptedPDU).data,
-                    securityParameters.engineBoots,
-                    securityParameters.engineTime,
-                    securityParameters.salt,
-                )
-            except ValueError as err:
-                raise DecryptionError(str(err)) from err
-- 
2.43.0


From 8c79349ed5f3e944e88b0cabbeea28b71877b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 19/20] fix: let an engine shut down after its thread could not
 be started

---
 snmp/dispatcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/dispatcher.py b/snmp/dispatcher.py
index aee4628..3702b15 100644
--- a/snmp/dispatcher.py
+++ b/snmp/dispatcher.py
@@ -35,14 +35,16 @@ class Dispatcher(TransportListener[T]):
         if self.thread is not None:
             self.multiplexor.stop()
             self.thread.join()
+            self.thread = None
 
         self.multiplexor.register(transport)
-        self.thread = threading.Thread(
+        thread = threading.Thread(
             target=self.multiplexor.listen,
             args=(self,)
         )
 
-        self.thread.start()
+        thread.start()
+        self.thread = thread
 
     def hear(self, transport: Transport[T], address: T, data: bytes) -> None:
         try:
-- 
2.43.0


From 87686728ea1cf6e827a9d943851dc88bf33ad97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 20/20] fix: send the requests that waited for the first answer

---
 snmp/manager/v3.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 56d0bb6..254592a 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -616,14 +616,17 @@ class SNMPv3UsmManager(Generic[T]):
                 heapq.heapify(self.active)
 
             if sendAll:
-                while self.unsent:
-                    reference = self.unsent.pop()
-                    req = reference()
+                self.sendUnsent(engineID)
 
-                    if req is not None:
-                        with self.activeLock:
-                            self.trySend(req, engineID)
-                            heapq.heappush(self.active, reference)
+    def sendUnsent(self, engineID: bytes) -> None:
+        while self.unsent:
+            reference = self.unsent.pop()
+            req = reference()
+
+            if req is not None:
+                with self.activeLock:
+                    self.trySend(req, engineID)
+                    heapq.heappush(self.active, reference)
 
     # This runs in the listener thread, where there is no one to handle an
     # exception. If the error persists, then the next refresh will raise it.
@@ -648,6 +651,7 @@ class SNMPv3UsmManager(Generic[T]):
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
+                self.sendUnsent(engineID)
 
             return True
 
-- 
2.43.0

