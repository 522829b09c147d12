From 7c59a4959871a989c8b181442950a53c266b7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 01/23] fix: encode the first two OID sub-identifiers as 40 * X
 + Y

A bitwise OR loses bits whenever first * 40 and second overlap; for example,
1.8 was encoded as 1.0.
---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 032f1026e2c5cba492db473e3d416e680ebe9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/23] fix: raise IndexDecodeError for index octets outside
 0-255

bytes() raised a bare ValueError for a sub-identifier larger than 255.
---
 snmp/asn1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..0a40abe 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,10 +185,16 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            values = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            values = [next(nums) for _ in range(length)]
+
+        try:
+            data = bytes(values)
+        except ValueError as err:
+            errmsg = f"Invalid {typename(cls)} field in index"
+            raise OBJECT_IDENTIFIER.IndexDecodeError(errmsg) from err
 
         try:
             return cls.construct(data)
-- 
2.43.0


From e3876eb58eabd32902db9b93df7dc97e59eaf130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/23] fix: raise IndexDecodeError for an incomplete OID index
 field

StopIteration inside a generator expression turns into RuntimeError.
---
 snmp/asn1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 0a40abe..81e09ef 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -337,10 +337,10 @@ class OBJECT_IDENTIFIER(Primitive):
         implied: bool = False,
     ) -> TOID:
         if implied:
-            subidentifiers = nums
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From 1c1c689f2ad50df93754858177eb13bcc4fdfff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/23] fix: decode IpAddress index fields the way they are
 encoded

---
 snmp/smi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..48c7235 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -121,6 +121,15 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(
+        cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        octets = iter([next(nums) for _ in range(4)])
+        return super().fromOID(octets, implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From 59ab99c2cb260b8824ce98c74efbc66cab7c7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/23] fix: reject an OID whose last sub-identifier is cut off
 after zero bits

---
 snmp/asn1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 81e09ef..3cc1cca 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -423,6 +423,7 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        byte = 0
         for byte in stream:
             value |= byte & 0x7f
             if byte & 0x80:
@@ -431,7 +432,7 @@ class OBJECT_IDENTIFIER(Primitive):
                 oid.append(value)
                 value = 0
 
-        if value:
+        if byte & 0x80:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From 3f0076804f9121566b7c749ba0e54adf754ae6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 06/23] fix: make subbytes empty when start is beyond stop

The length was negative, so that len() raised ValueError, where the documented
equivalent data[start:stop] is empty.
---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From e1ce116ec580f01e78d42fc01c05a87323dcc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/23] fix: slice subbytes with a negative step within its
 bounds

---
 snmp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snmp/utils.py b/snmp/utils.py
index e9f4a6d..e74a414 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -179,6 +179,9 @@ class subbytes:
         elif isinstance(key, slice):
             start, stop = key.start, key.stop
 
+            if key.step is not None and key.step < 0:
+                return self.data[self.start:self.stop][key]
+
             key = slice(
                 self.start if start is None else self.translate(start, True),
                 self.stop  if stop  is None else self.translate(stop, True),
-- 
2.43.0


From e2e0f646447ea0a639f9f8288717dbfc074dfcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 08/23] fix: refuse negative engine boots and engine time

---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..06a248b 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("msgAuthoritativeEngineBoots may not be negative")
+        elif engineTime.value < 0:
+            raise ParseError("msgAuthoritativeEngineTime may not be negative")
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From 62c036dc8e04b627a70400e41d756bbeb76fef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 09/23] fix: keep the estimated engine time within 31 bits

---
 snmp/security/usm/timekeeper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..f30e8eb 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -4,6 +4,7 @@ from snmp.typing import *
 
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self,
         engineBoots: int,
@@ -28,7 +29,8 @@ class EngineTime:
         return self.snmpEngineBoots < self.MAX_ENGINE_BOOTS
 
     def snmpEngineTime(self, timestamp: float) -> int:
-        return int(timestamp - self.latestBootTime)
+        engineTime = int(timestamp - self.latestBootTime)
+        return min(engineTime, self.MAX_ENGINE_TIME)
 
     def setEngineTime(self, engineTime: int, timestamp: float) -> None:
         self.latestBootTime = timestamp - engineTime
-- 
2.43.0


From 3aeb5c6509fdfedba149e808265cdfb85a3b5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 10/23] fix: decrypt the last block of DES messages with
 OpenSSL

---
 snmp/security/usm/priv/openssl/des.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..789bd73 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -43,7 +43,7 @@ class DesCbc(PrivProtocol):
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
         iv = self.computeIV(salt)
-        return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
+        return Decryptor(self.CIPHER).decrypt(self.pad(data), self.key, iv)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From aabab59bb827919df2f666dd9c6deedfe2278d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 11/23] fix: drop the unused end of the OpenSSL output buffer

---
 snmp/security/usm/priv/openssl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..d5cfb92 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -64,7 +64,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output)[:outl[0]]
 
 class Decryptor(Envelope):
     ENCRYPT = False
-- 
2.43.0


From 02e672f289e3541e8e882652372f1b8d164df653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 12/23] fix: refuse a DES salt that is not eight octets long

---
 snmp/security/usm/priv/openssl/des.py      | 3 +++
 snmp/security/usm/priv/pycryptodome/des.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 789bd73..e3e89b3 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -42,6 +42,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         iv = self.computeIV(salt)
         return Decryptor(self.CIPHER).decrypt(self.pad(data), self.key, iv)
 
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..fb609e4 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -45,6 +45,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
 
     def encrypt(self,
-- 
2.43.0


From e8b6ea08db9fa5c5b7ec713f7257e33fa7ef4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 13/23] fix: do not wait forever for a request that expires
 meanwhile

---
 snmp/manager/v1.py  | 4 ++--
 snmp/manager/v2c.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..5cfef38 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -134,7 +134,7 @@ class SNMPv1Manager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +153,7 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return 0.0
 
     def sendPdu(self,
         pdu: PDU,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..93daaca 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -134,7 +134,7 @@ class SNMPv2cManager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +153,7 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return 0.0
 
     def sendPdu(self,
         pdu: AnyPDU,
-- 
2.43.0


From 404d12e7b760bd48b1acf984cf316e8efe46cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 14/23] fix: queue a request by the time of its first refresh

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 5cfef38..4990739 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -184,8 +184,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 93daaca..bd0fc25 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -184,8 +184,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From 65b0f526658fe1135c9cc0ccbd7c204a25bd3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 15/23] fix: do not retransmit twice at the same instant

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 4990739..bfd034c 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = 1 + math.floor(-timeToNextRefresh / self.period)
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index bd0fc25..342e0cc 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = 1 + math.floor(-timeToNextRefresh / self.period)
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..f2020f7 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = 1 + math.floor(-timeToNextRefresh / self.period)
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From ebd89d3f4f06d6188027246274c6446cfe012232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 16/23] fix: return a response that arrived before a late call
 to wait

---
 snmp/manager/v1.py  | 6 ++++--
 snmp/manager/v2c.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index bfd034c..39be386 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 342e0cc..f034be4 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
-- 
2.43.0


From b8e73570fbd54a2fa1a0934f26cd18e9a89aaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 17/23] fix: let an SNMPv3 request that is not yet sent time
 out on time

---
 snmp/manager/v3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index f2020f7..0506ab2 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -414,6 +414,7 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
+                timeout = min(timeout, self.expiration - time.time())
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From b357d4d2899ee11da67ab13e488a742357ddcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 18/23] fix: do not take a response to a discovery message for
 the result

---
 snmp/manager/v3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0506ab2..5f68b44 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -359,6 +359,11 @@ class Request:
         #if random.randint(1, 3) % 3 != 0:
         #    return
 
+        # An answer to a discovery message does not answer the request itself
+        if (response.securityName != self.userName
+        or response.header.flags.securityLevel < self.securityLevel):
+            return
+
         if self.manager.processResponse(self, response):
             if not self.event.is_set():
                 self.response = response
-- 
2.43.0


From 8597ecabcd72843eb6a01499c8ac39f936a17340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 19/23] fix: raise ValueError for an unsupported transport
 domain

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From 7d868e4f9154af58bb62da65e785dd49065d4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 20/23] fix: do not send an SNMPv3 request that has expired or
 been answered

---
 snmp/manager/v3.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 5f68b44..a2a9f65 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -324,6 +324,10 @@ class Request:
     def expired(self) -> bool:
         return self.expiration <= time.time()
 
+    @property
+    def pending(self) -> bool:
+        return not self.event.is_set() and not self.expired
+
     @property
     def nextRefresh(self) -> float:
         return self._nextRefresh
@@ -539,7 +543,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and request.pending:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
@@ -596,9 +600,10 @@ class SNMPv3UsmManager(Generic[T]):
         with self.lock:
             sendAll = self.state.onReport(engineID)
 
-            with self.activeLock:
-                request.send(engineID)
-                heapq.heapify(self.active)
+            if request.pending:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heapify(self.active)
 
             if sendAll:
                 self.updateState()
@@ -606,7 +611,7 @@ class SNMPv3UsmManager(Generic[T]):
                     reference = self.unsent.pop()
                     req = reference()
 
-                    if req is not None:
+                    if req is not None and req.pending:
                         with self.activeLock:
                             req.send(engineID)
                             heapq.heappush(self.active, reference)
-- 
2.43.0


From 25e08f671f73e4ffb00bff96abb5f717aac35b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 21/23] fix: keep listening when a datagram turns out to be
 missing

---
 snmp/transport/generic/udp.py | 12 ++++++++++--
 snmp/transport/posix/udp.py   |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..ab4b15f 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -49,10 +49,18 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                     assert self.r is not None
                     assert self.w is not None
                     if fd == self.r.fileno():
-                        data, addr = self.r.recvfrom(len(STOPMSG))
+                        try:
+                            data, addr = self.r.recvfrom(len(STOPMSG))
+                        except BlockingIOError:
+                            continue
+
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except BlockingIOError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..7b02c28 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,11 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except BlockingIOError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From 010bd4f5308eb4f4aed9a58a610d0277d034289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 22/23] fix: never use a salt twice when threads share a user's
 key

---
 snmp/security/usm/priv/openssl/aes.py      |  9 +++++++--
 snmp/security/usm/priv/openssl/des.py      | 11 +++++++++--
 snmp/security/usm/priv/pycryptodome/aes.py |  9 +++++++--
 snmp/security/usm/priv/pycryptodome/des.py | 11 +++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/aes.py b/snmp/security/usm/priv/openssl/aes.py
index 1bfe000..f228ac9 100644
--- a/snmp/security/usm/priv/openssl/aes.py
+++ b/snmp/security/usm/priv/openssl/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -22,6 +23,9 @@ class AesCfb128(PrivProtocol):
             raise ValueError(errmsg)
 
         self.key = key[:self.KEYLEN]
+
+        # protects self.salt
+        self.saltLock = threading.Lock()
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def packIV(self, engineBoots: int, engineTime: int, salt: bytes) -> bytes:
@@ -52,9 +56,10 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
 
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = Encryptor(self.CIPHER).encrypt(data, self.key, iv)
 
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index e3e89b3..a33e4ef 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -23,6 +24,9 @@ class DesCbc(PrivProtocol):
 
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
+
+        # protects self.salt
+        self.saltLock = threading.Lock()
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def computeIV(self, salt: bytes) -> bytes:
@@ -53,10 +57,13 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            localSalt = self.salt
+
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            localSalt.to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
diff --git a/snmp/security/usm/priv/pycryptodome/aes.py b/snmp/security/usm/priv/pycryptodome/aes.py
index bcadae9..4a41b2a 100644
--- a/snmp/security/usm/priv/pycryptodome/aes.py
+++ b/snmp/security/usm/priv/pycryptodome/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from Crypto.Cipher import AES
 from Crypto.Cipher._mode_cfb import CfbMode
@@ -25,6 +26,9 @@ class AesCfb128(PrivProtocol):
             raise ValueError(errmsg)
 
         self.key = key[:self.KEYLEN]
+
+        # protects self.salt
+        self.saltLock = threading.Lock()
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def newCipher(self, iv: bytes) -> CfbMode:
@@ -63,9 +67,10 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
 
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = self.newCipher(iv).encrypt(data)
 
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fb609e4..fd6ff91 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from Crypto.Cipher import DES
 from Crypto.Cipher._mode_cbc import CbcMode
@@ -23,6 +24,9 @@ class DesCbc(PrivProtocol):
 
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
+
+        # protects self.salt
+        self.saltLock = threading.Lock()
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def computeIV(self, salt: bytes) -> bytes:
@@ -55,10 +59,13 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            localSalt = self.salt
+
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            localSalt.to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
-- 
2.43.0


From c55bc24e78b18659a8659172e8dbc852a24d6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 23/23] fix: do not send and end an SNMPv3 request at the same
 time

---
 snmp/manager/v3.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index a2a9f65..ad8d8d4 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -290,6 +290,9 @@ class Request:
         self.securityLevel = securityLevel
         self.userName = userName
 
+        # protects self.closed, self.engineID, and self.messages
+        self.lock = threading.Lock()
+        self.closed = False
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
@@ -337,10 +340,13 @@ class Request:
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        while self.messages:
-            self.messages.pop().close()
+        with self.lock:
+            self.closed = True
 
-        self.engineID = None
+            while self.messages:
+                self.messages.pop().close()
+
+            self.engineID = None
 
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
@@ -375,6 +381,11 @@ class Request:
 
     # Always update self.nextRefresh right before calling this method
     def reallySend(self, engineID: Optional[bytes] = None) -> None:
+        with self.lock:
+            if not self.closed:
+                self.sendMessage(engineID)
+
+    def sendMessage(self, engineID: Optional[bytes] = None) -> None:
         pdu = self.pdu
         user = self.userName
         securityLevel = self.securityLevel
-- 
2.43.0

