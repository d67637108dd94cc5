From 2247ed88c925bf10aaee639846da1e903c4d8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 01/67] fix: decode messages from a bytearray like from bytes

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..d85bedd 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -8,7 +8,7 @@ class BitStreamReader:
 
     def __init__(self, value):
         self._start = 0
-        self._value = value
+        self._value = bytes(value)
 
     def advance(self, length):
         """Advance the stream length bits"""
-- 
2.43.0


From a9d26741550834c3123495cf258069c87007aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 02/67] fix: write every reserved field with its own width and
 as zeros

---
 pyzwave/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..07c021d 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,7 +25,8 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
-            if name not in self._attributes:
+            if name not in self._attributes or name in ("-", "_"):
+                # Several reserved fields may share one name, they are always written as zeros
                 default = getattr(attrType, "default", None)
                 if default is not None:
                     attrType(default).serialize(stream)
-- 
2.43.0


From 01c55750d20c36beaea30913d4b4cb340d0eede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 03/67] fix: refuse to encode bit fields that do not fit
 instead of corrupting their neighbours

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index d85bedd..b855baa 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -70,6 +70,8 @@ class BitStreamWriter(bytearray):
 
     def addBits(self, value, size):
         """Add size number of bits to the stream"""
+        if not 0 <= value < (1 << size):
+            raise OverflowError("{} does not fit in {} bits".format(value, size))
         byte = 0
         if self._start == 0:
             # Start new byte
-- 
2.43.0


From de8e5a1ccc2f1b19041f63c4eb6e05a46b0f2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 04/67] fix: encode the length of the command encapsulated in
 Supervision.Get

---
 pyzwave/commandclass/Supervision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..ff99c75 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,12 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bits_t,
+    flag_t,
+    reserved_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +30,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        data = self.command.compose()
+        stream.addBytes(len(data), 1, False)
+        stream.extend(data)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From 75d5264c0fd6dcd76d8ac4dc15add05aade40f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 05/67] fix: bit position of the local flag in
 ZipInvNodeSolicitation

---
 pyzwave/commandclass/ZipND.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/ZipND.py b/pyzwave/commandclass/ZipND.py
index f121a96..a6eb8c6 100644
--- a/pyzwave/commandclass/ZipND.py
+++ b/pyzwave/commandclass/ZipND.py
@@ -25,9 +25,9 @@ class ZipInvNodeSolicitation(Message):
 
     NAME = "ZIP_INV_NODE_SOLICITATION"
     attributes = (
-        ("-", reserved_t(4)),
+        ("-", reserved_t(5)),
         ("local", flag_t),
-        ("-", reserved_t(3)),
+        ("-", reserved_t(2)),
         ("nodeId", uint8_t),
     )
 
-- 
2.43.0


From 0049757e3708da80ee07321e30789c3463c24d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 06/67] fix: decode Configuration.Set

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..8b44d09 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the variable size value"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From 131d889c852434d828c7dbddfbcb49b9c537586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 07/67] fix: ignore unknown header extension options instead of
 dropping the packet

---
 pyzwave/commandclass/Zip.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..e872d5f 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,14 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            try:
+                imeType = IMEType(imeType)
+            except ValueError:
+                # Added in a later version of the protocol
+                continue
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
@@ -169,6 +174,9 @@ class ZIPPacketOption(AttributesMixin):
         elif self.optionType == ZIPPacketOptionType.EXPECTED_DELAY:
             clsType = ZIPPacketOptionExpectedDelay
         cls = clsType()
+        if clsType is ZIPPacketOptionData:
+            # Not implemented option
+            return cls
         if hasattr(cls, "parseAttributes"):
             cls.parseAttributes(BitStreamReader(data))
         elif hasattr(cls, "__setstate__"):
@@ -204,6 +212,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if type(option.optionData) is ZIPPacketOptionData:
+                # Not implemented option, ignore it
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From a21fe14c65180146fc99c0f0d87bfe550923829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 08/67] fix: decode supported sensor masks of several bytes and
 with unknown sensor types

---
 pyzwave/commandclass/SensorMultilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..ce2bc76 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,11 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                supported.add(SensorType_t(i))
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From 99e2db34ba58b5cd53038255a03a45b33360ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 09/67] fix: allow the user entered part of a DSK in
 NodeAddDSKSet

---
 .../NetworkManagementInclusion.py             | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..5e0c503 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -151,6 +151,26 @@ class NodeAddDSKReport(Message):
     )
 
 
+class InputDSK(dsk_t):
+    """The leading part of the DSK, as entered by the user. Up to 16 bytes"""
+
+    default = b""
+
+    def __getstate__(self):
+        return super().__getstate__() if len(self._dsk) % 2 == 0 else self._dsk.hex()
+
+    def __setstate__(self, state):
+        if isinstance(state, bytes) and len(state) < 16:
+            self._dsk = state
+            return
+        super().__setstate__(state)
+
+    @classmethod
+    def deserialize(cls, stream: BitStreamReader):
+        """Deserialize the rest of the message"""
+        return stream.remaining()
+
+
 @ZWaveMessage(COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION, NODE_ADD_DSK_SET)
 class NodeAddDSKSet(Message):
     """Command Class message COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION NODE_ADD_DSK_SET"""
@@ -162,7 +182,7 @@ class NodeAddDSKSet(Message):
         ("accept", flag_t),
         ("-", reserved_t(3)),
         ("inputDSKLength", uint4_t),
-        ("dsk", dsk_t),
+        ("dsk", InputDSK),
     )
 
 
-- 
2.43.0


From c72e93c904cd0c57de773d65f8ea19680103c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 10/67] fix: compare two bit fields by value

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index b855baa..10ff391 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -217,6 +217,8 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
+        if isinstance(other, BitsBase):
+            other = int(other)
         return self._value.__eq__(other)
 
     def __int__(self):
-- 
2.43.0


From c5e996a1103e4ba0dd0b1b53d435e76eb3d6586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 11/67] fix: keep scale and DSK of typed values passed to the
 constructor

---
 pyzwave/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..4b80b5b 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -23,8 +23,8 @@ class AttributesMixin:
             if attrName not in kwargs:
                 continue
             value = kwargs[attrName]
-            if isinstance(value, AttributesMixin):
-                # Is a subclass of ourself, not not wrap it
+            if isinstance(value, (AttributesMixin, attrType)):
+                # Is a subclass of ourself or has the correct type, not not wrap it
                 self._attributes[attrName] = value
             elif hasattr(attrType, "__setstate__"):
                 self._attributes[attrName] = attrType()
-- 
2.43.0


From 8ea115e46bd6a3827d55b10570733527eca6c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 12/67] fix: write protocol specific reserved bits as zeros,
 too

---
 pyzwave/message.py | 2 +-
 pyzwave/types.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 07c021d..669a958 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,7 +25,7 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
-            if name not in self._attributes or name in ("-", "_"):
+            if name not in self._attributes or getattr(attrType, "reserved", False):
                 # Several reserved fields may share one name, they are always written as zeros
                 default = getattr(attrType, "default", None)
                 if default is not None:
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 10ff391..6e656f5 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -331,6 +331,7 @@ def reserved_t(size):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
         default = 0
+        reserved = True
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From b278eedd2d07202f1f6a8ddcac8c9e8791d3a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 13/67] fix: let concurrent waiters for the same message type
 end independently

---
 pyzwave/util.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 4b80b5b..05089f6 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -174,20 +174,26 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
-            session.set_result(message)
-            return True
-        return False
+        handled = False
+        for session in self._sessions.pop(message.hid(), []):
+            if not session.done():
+                session.set_result(message)
+                handled = True
+        return handled
+
+    def removeWaitingSession(self, msgType, session):
+        """Remove a session setup by addWaitingSession. Other sessions are not affected"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
+        if not sessions:
+            self._sessions.pop(msgType.hid(), None)
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
@@ -199,5 +205,5 @@ class MessageWaiter:
             _LOGGER.warning("Timeout waiting for message %s", msgType)
             raise
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From 5aafcae454c0c63c5dc11e62fe030f0d96955db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 14/67] fix: return replies arriving before the ack and drop
 the session of failed or cancelled requests

---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..db6764e 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,8 +211,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..80784b6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
-- 
2.43.0


From 6ad7641089898e9d5fe1b233a7b07dead8228bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 15/67] fix: release the ack id of cancelled sends

---
 pyzwave/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index db6764e..c0ff0ce 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -236,5 +236,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From 95ffe96ebfd2786e256e0adb505d42c23644c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 16/67] fix: handle waiting nacks without a header extension

---
 pyzwave/commandclass/Zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index e872d5f..e7afca2 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -219,6 +219,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         return retval
 
 
+HeaderExtension.default = HeaderExtension()
+
+
 @ZWaveMessage(COMMAND_CLASS_ZIP, COMMAND_ZIP_KEEP_ALIVE)
 class ZipKeepAlive(Message):
     """
-- 
2.43.0


From 21bb5938d054658ef2d95ea3f191a42130c99ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 17/67] fix: do not reuse the sequence number of a pending
 command

---
 pyzwave/zipconnection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..56dc9e0 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -139,6 +139,9 @@ class ZIPConnection(Adapter):
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
         self._seq = (self._seq + 1) & 0xFF
+        while self._seq in self._ackQueue and len(self._ackQueue) < 256:
+            # Still in use by a command to a sleeping node
+            self._seq = (self._seq + 1) & 0xFF
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 097ca6f301c4f60ec10f354234c6917d6cfd0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 18/67] fix: wrap the network management sequence number

---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..9948fac 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -206,7 +206,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -221,7 +221,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -233,7 +233,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 7a6475580f8f4e5d1062e97d576bff07891693fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 19/67] fix: only use the advertised address of the requested
 node

---
 pyzwave/zipgateway.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9948fac..3fe43f1 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._ipLookups = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -199,9 +200,25 @@ class ZIPGateway(ZIPConnection):
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
-        self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
-        return response.ipv6
+        lookup = asyncio.get_event_loop().create_future()
+        lookups = self._ipLookups.setdefault(nodeId, [])
+        lookups.append(lookup)
+        try:
+            self._conn.send(msg.compose())
+            return await asyncio.wait_for(lookup, timeout=3)
+        finally:
+            lookups.remove(lookup)
+
+    def messageReceived(self, message: Message) -> bool:
+        """Called when a message is received from the gateway"""
+        handled = super().messageReceived(message)
+        if isinstance(message, ZipND.ZipNodeAdvertisement):
+            # Several lookups may be active, only end those for the advertised node
+            for lookup in self._ipLookups.get(message.nodeId, []):
+                if not lookup.done():
+                    lookup.set_result(message.ipv6)
+                    handled = True
+        return handled
 
     async def removeFailedNode(
         self, nodeId: int
-- 
2.43.0


From 6ab05c6d7ffec8ed8ad207c1d29ff2dd8d0f319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 20/67] fix: do not open several connections to a node used
 concurrently

---
 pyzwave/zipgateway.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 3fe43f1..0465e68 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._ipLookups = {}
         self._nodes = {}
         self._nmSeq = 0
@@ -95,16 +96,17 @@ class ZIPGateway(ZIPConnection):
 
     async def connectToNode(self, nodeId) -> ZIPConnection:
         """Returns a connection to the node"""
-        if nodeId in self._connections:
-            return self._connections[nodeId]
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
+            ipv6 = await self.ipOfNode(nodeId)
 
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From 90884c29bdfb3b89e8d742e4388d26d992889ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 21/67] fix: decode all 232 nodes of a node list

---
 pyzwave/commandclass/NetworkManagementProxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..26ba916 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,8 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        # One bit for each of the 232 possible nodes
+        for i in range(min(29, stream.bytesLeft())):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From 60fd088b263c97a49276f06d0a7906fa01b9280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 22/67] fix: handle node list reports in order and survive
 address lookups that fail

---
 pyzwave/zipgateway.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 0465e68..92b1348 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -31,6 +31,7 @@ class ZIPGateway(ZIPConnection):
         self._connectLocks = {}
         self._ipLookups = {}
         self._nodes = {}
+        self._nodeListLock = asyncio.Lock()
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
@@ -163,7 +164,7 @@ class ZIPGateway(ZIPConnection):
             # No response
             return set()
         self._nodeId = report.nodeListControllerId
-        self._nodes = {x: {} for x in report.nodes}
+        self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
         return report.nodes
 
     async def getNodeInfo(
@@ -185,19 +186,36 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
+        # Several reports may be received at once, handle them in order
+        async with self._nodeListLock:
+            self._nodeId = report.nodeListControllerId
+            await self.__updateNodes__(report.nodes)
+        self.speak("nodeListUpdated")
+
+    async def __updateNodes__(self, nodes: set):
+        """Update nodes from a list of node ids"""
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
-            if nodeId in report.nodes:
+            if nodeId in nodes:
                 continue
             del self._nodes[nodeId]
 
         # Find new nodes
-        for nodeId in report.nodes:
+        for nodeId in nodes:
             if nodeId in self._nodes:
                 continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
-        self.speak("nodeListUpdated")
+            self._nodes[nodeId] = {}
+        await self.__retrieveNodeIps__()
+
+    async def __retrieveNodeIps__(self):
+        """Retrieve the ip of all nodes where it is not known"""
+        for nodeId, node in list(self._nodes.items()):
+            if node.get("ip"):
+                continue
+            try:
+                node["ip"] = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Could not retrieve the ip of node %s", nodeId)
 
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
@@ -346,6 +364,6 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.getNodeList()
+        async with self._nodeListLock:
+            await self.__retrieveNodeIps__()
-- 
2.43.0


From a82392fb5445c93cf8a7bb8e96c8d58d6fa20a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 23/67] fix: handle node list updates one at a time

---
 pyzwave/application.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..72aef79 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,7 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        self._nodeListLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,6 +99,12 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
+        # Several updates may be received at once, handle them one at a time
+        async with self._nodeListLock:
+            await self.__updateNodes__()
+
+    async def __updateNodes__(self):
+        """Remove and load nodes according to the current node list"""
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
@@ -167,6 +175,11 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
+        async with self._nodeListLock:
+            await self.__loadNodes__()
+
+    async def __loadNodes__(self):
+        """Load all nodes in the node list"""
         for nodeId in await self.adapter.getNodeList():
             await self.loadNode(nodeId)
 
@@ -174,5 +187,5 @@ class Application(Listenable):
             _LOGGER.warning("FAILED node %s", nodeId)
 
         await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
+        for node in list(self._nodes.values()):
             await self.ask("nodeAdded", node)
-- 
2.43.0


From c8006c0c3445dc13234acf7adbf626c5681cb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 24/67] fix: ignore malformed packets at the unsolicited
 listener

---
 pyzwave/zipgateway.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 92b1348..cd16abd 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -300,11 +300,21 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message: %s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.command is None:
+            _LOGGER.warning("Received unknown unsolicited packet: %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.command.nodes is None:
+                _LOGGER.warning("Received a node list report without nodes")
+                return False
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 38e75acfd8a75b40fca5ce1851e6fceb63313a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 25/67] fix: ignore packets announcing a command they do not
 contain

---
 pyzwave/zipconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 56dc9e0..1d13f05 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
-- 
2.43.0


From 66f7d03aaacd878bfee3df99c32fab91747a4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 26/67] fix: ignore node advertisements without an address

---
 pyzwave/zipgateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index cd16abd..017da60 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -232,7 +232,7 @@ class ZIPGateway(ZIPConnection):
     def messageReceived(self, message: Message) -> bool:
         """Called when a message is received from the gateway"""
         handled = super().messageReceived(message)
-        if isinstance(message, ZipND.ZipNodeAdvertisement):
+        if isinstance(message, ZipND.ZipNodeAdvertisement) and message.ipv6:
             # Several lookups may be active, only end those for the advertised node
             for lookup in self._ipLookups.get(message.nodeId, []):
                 if not lookup.done():
-- 
2.43.0


From 3e43bcd20a465fca8280daf0d88d63e1f54c4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 27/67] fix: one failing async listener must not affect the
 other listeners

---
 pyzwave/util.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 05089f6..eb3ddc6 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -120,6 +120,12 @@ class AttributesMixin:
             self._attributes[attrName] = value
 
 
+def logListenerError(future):
+    """Log the exception, if any, from an async listener"""
+    if not future.cancelled() and future.exception():
+        _LOGGER.warning("Error calling async listener: %s", repr(future.exception()))
+
+
 class Listenable:
     """Inheritable class to implement listaner interface between classes"""
 
@@ -136,7 +142,11 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        responses = await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        )
+        # Listeners that failed have no response
+        return [x for x in responses if not isinstance(x, BaseException)]
 
     def speak(self, message, *args) -> list:
         """
@@ -151,7 +161,9 @@ class Listenable:
                 continue
             if inspect.iscoroutinefunction(method):
                 # Listener is a coroutine, call async
-                retval.append(asyncio.ensure_future(method(self, *args)))
+                future = asyncio.ensure_future(method(self, *args))
+                future.add_done_callback(logListenerError)
+                retval.append(future)
                 continue
             try:
                 future = asyncio.get_event_loop().create_future()
-- 
2.43.0


From 2a9dcb9006c0c7f88afbfab19e65900a254fe8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 28/67] fix: incomplete commands from a node must not end
 message handling with an exception

---
 pyzwave/commandclass/CommandClass.py | 10 +++++++---
 pyzwave/node.py                      |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..741f1cf 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -111,9 +111,13 @@ class CommandClass(AttributesMixin, Listenable):
         hid = message.hid()
         if self.__messageHandlers__:
             handler = self.__messageHandlers__.get(hid)
-            if handler and await handler(self, message, flags):
-                # Message was handled, stop further processing
-                return True
+            try:
+                if handler and await handler(self, message, flags):
+                    # Message was handled, stop further processing
+                    return True
+            except Exception as error:  # pylint: disable=broad-except
+                # Such as an incomplete message
+                _LOGGER.warning("Error handling %s: %s", message, repr(error))
 
         components = message.NAME.lower().split("_")
         name = "".join(["on", *map(str.title, components)])
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 80784b6..ed89c70 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -24,7 +24,7 @@ def supervision(func):
     """Decoratior for handling calls wrapped in supervision messages"""
 
     async def __wrapper__(self, message: Message, flags):
-        if not isinstance(message, Supervision.Get):
+        if not isinstance(message, Supervision.Get) or message.command is None:
             return await func(self, message, flags)
         # Handle supervision calls
         if await func(self, message.command, flags):
-- 
2.43.0


From 1bdd4902f1a29d8d5dca3e199fdc6ca8f0608a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 29/67] fix: sending to a node without a known address fails
 instead of raising

---
 pyzwave/zipgateway.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 017da60..d0e738e 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -340,7 +340,11 @@ class ZIPGateway(ZIPConnection):
         return False
 
     async def sendToNode(self, nodeId: int, cmd: Message, **kwargs) -> bool:
-        conn = await self.connectToNode(nodeId)
+        try:
+            conn = await self.connectToNode(nodeId)
+        except asyncio.TimeoutError:
+            _LOGGER.warning("Could not find the address of node %s", nodeId)
+            return False
         return await conn.send(cmd, **kwargs)
 
     async def setGatewayMode(self, mode: int, timeout: int = 3) -> bool:
-- 
2.43.0


From 8212bebc3cee93eb162946f879ee1e41b231eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 30/67] fix: do not announce nodes again at startup

---
 pyzwave/application.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 72aef79..a9553b2 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -33,6 +33,7 @@ class Application(Listenable):
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
         self._nodeListLock = asyncio.Lock()
+        self._announced = set()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -113,6 +114,7 @@ class Application(Listenable):
             nodesToRemove.append(nodeId)
         for nodeId in nodesToRemove:
             del self._nodes[nodeId]
+            self._announced.discard(nodeId)
             await self.ask("nodeRemoved", nodeId)
         # For clients supporting batch removing
         if nodesToRemove:
@@ -124,6 +126,7 @@ class Application(Listenable):
             if "{}:0".format(nodeId) in self._nodes:
                 continue
             newNodes.extend(await self.loadNode(nodeId))
+        self._announced.update(node.nodeId for node in newNodes)
 
         if newNodes:
             await self.ask("nodesAdded", newNodes)
@@ -180,12 +183,17 @@ class Application(Listenable):
 
     async def __loadNodes__(self):
         """Load all nodes in the node list"""
+        # The node list may already have been updated before we were started
         for nodeId in await self.adapter.getNodeList():
+            if "{}:0".format(nodeId) in self._announced:
+                continue
             await self.loadNode(nodeId)
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for node in list(self._nodes.values()):
+        newNodes = [x for x in self._nodes.values() if x.nodeId not in self._announced]
+        self._announced.update(node.nodeId for node in newNodes)
+        await self.ask("nodesAdded", newNodes)
+        for node in newNodes:
             await self.ask("nodeAdded", node)
-- 
2.43.0


From eb69692ba36ac2e5ee2fded4a90c21212442c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 31/67] fix: load nodes with an incomplete security mark

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index ed89c70..baa0d7b 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -85,7 +85,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if cmdClass == 0xF1 and list(cmdClasses[i + 1 : i + 2]) == [0x00]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From c3496a7d181cf0931ddddaaeb7ca8518ecfc0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 32/67] fix: tolerate truncated network management replies

---
 pyzwave/zipgateway.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d0e738e..74a0783 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -118,7 +118,7 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
-        return report.failedNodeList
+        return report.failedNodeList or set()
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -132,7 +132,7 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
@@ -164,8 +164,9 @@ class ZIPGateway(ZIPConnection):
             # No response
             return set()
         self._nodeId = report.nodeListControllerId
-        self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
-        return report.nodes
+        nodes = report.nodes or set()
+        self._nodes = {x: self._nodes.get(x, {}) for x in nodes}
+        return nodes
 
     async def getNodeInfo(
         self, nodeId: int
-- 
2.43.0


From b47ab97b36f4ecc49f4c1334a5c6645754ee80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 33/67] fix: do not load end points that cannot be addressed

---
 pyzwave/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index a9553b2..715b953 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -66,6 +66,8 @@ class Application(Listenable):
 
         if node.supports(COMMAND_CLASS_MULTI_CHANNEL_V2):
             endpoints = await self.adapter.getMultiChannelEndPoints(nodeId)
+            # An end point is addressed by 7 bits
+            endpoints = min(endpoints, 127)
             for endpoint in range(1, endpoints + 1):
                 nodes.append(await self.loadEndPointNode(node, endpoint))
         return nodes
-- 
2.43.0


From 19e006278d975b6ee8904f100888a460d12b2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 34/67] fix: remove the node that became the controller

---
 pyzwave/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 715b953..e8495ac 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -111,7 +111,7 @@ class Application(Listenable):
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
-            if node.rootNodeId in nodeList:
+            if node.rootNodeId in nodeList and node.rootNodeId != self.adapter.nodeId:
                 continue
             nodesToRemove.append(nodeId)
         for nodeId in nodesToRemove:
-- 
2.43.0


From 0d872ac424212f6ece8486b8f39258af51612362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 35/67] fix: do not take the version of another command class
 as the reply

---
 pyzwave/adapter.py              |  2 +-
 pyzwave/commandclass/Version.py |  1 +
 pyzwave/message.py              | 10 ++++++++++
 pyzwave/node.py                 |  2 +-
 pyzwave/util.py                 | 13 ++++++++++++-
 5 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index c0ff0ce..22d063a 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -210,7 +210,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(waitFor, cmd)
         try:
             await self.send(cmd, **kwargs)
             return await self.waitForMessage(waitFor, session=session, timeout=timeout)
diff --git a/pyzwave/commandclass/Version.py b/pyzwave/commandclass/Version.py
index fd4a3cb..404f645 100644
--- a/pyzwave/commandclass/Version.py
+++ b/pyzwave/commandclass/Version.py
@@ -69,6 +69,7 @@ class VersionCommandClassReport(Message):
     """Command Class message COMMAND_CLASS_VERSION VERSION_COMMAND_CLASS_REPORT"""
 
     NAME = "VERSION_COMMAND_CLASS_REPORT"
+    REPLY_ATTRIBUTES = ("requestedCommandClass",)
 
     attributes = (
         ("requestedCommandClass", uint8_t),
diff --git a/pyzwave/message.py b/pyzwave/message.py
index 669a958..f1f6a78 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -10,6 +10,8 @@ class Message(AttributesMixin):
     """Base class for all Z-Wave messages. This class should not be initiated manually"""
 
     NAME = None
+    # Names of the attributes a reply has in common with its request
+    REPLY_ATTRIBUTES = ()
 
     def cmdClass(self) -> int:
         """Return the command class id for this message"""
@@ -43,6 +45,14 @@ class Message(AttributesMixin):
             self._attributes[name].serialize(stream)
         return bytes(stream)
 
+    def isReplyTo(self, request) -> bool:
+        """Returns if this message can be the reply to a request and not to another one"""
+        for name in self.REPLY_ATTRIBUTES:
+            value, requested = getattr(self, name), getattr(request, name, None)
+            if value is not None and requested is not None and value != requested:
+                return False
+        return True
+
     def serialize(self, stream: BitStreamWriter):
         """Write the message as binary into the bitstream. See compose()"""
         stream.extend(self.compose())
diff --git a/pyzwave/node.py b/pyzwave/node.py
index baa0d7b..dab3786 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,7 +244,7 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(waitFor, cmd)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
diff --git a/pyzwave/util.py b/pyzwave/util.py
index eb3ddc6..0a927b0 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -180,13 +180,18 @@ class MessageWaiter:
     def __init__(self):
         super().__init__()
         self._sessions = {}
+        self._requests = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, request=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
+
+        If a request is supplied only replies to that request are waited for.
         """
         session = asyncio.get_event_loop().create_future()
+        if request is not None:
+            self._requests[session] = request
         self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
@@ -194,6 +199,11 @@ class MessageWaiter:
         """Called when a message is received directed to this node"""
         handled = False
         for session in self._sessions.pop(message.hid(), []):
+            request = self._requests.get(session)
+            if request is not None and not message.isReplyTo(request):
+                # Reply to another request, keep waiting
+                self._sessions.setdefault(message.hid(), []).append(session)
+                continue
             if not session.done():
                 session.set_result(message)
                 handled = True
@@ -201,6 +211,7 @@ class MessageWaiter:
 
     def removeWaitingSession(self, msgType, session):
         """Remove a session setup by addWaitingSession. Other sessions are not affected"""
+        self._requests.pop(session, None)
         sessions = self._sessions.get(msgType.hid(), [])
         if session in sessions:
             sessions.remove(session)
-- 
2.43.0


From 5ea88ba380ef3a94176234ad4506131752d4fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 36/67] fix: do not take the scales of another sensor type as
 the reply

---
 pyzwave/commandclass/SensorMultilevel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index ce2bc76..3cf7b54 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -128,6 +128,7 @@ class SupportedScaleReport(Message):
     """
 
     NAME = "SUPPORTED_SCALE_REPORT"
+    REPLY_ATTRIBUTES = ("sensorType",)
     attributes = (
         ("sensorType", SensorType_t),
         ("-", reserved_t(4)),
-- 
2.43.0


From f2ffb7d50aa8b57eb16a1d21537a0a823b77bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 37/67] fix: do not take the associations of another group as
 the reply

---
 pyzwave/commandclass/Association.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..416f012 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -203,6 +203,7 @@ class Report(Message):
     """Command Class message COMMAND_CLASS_ASSOCIATION ASSOCIATION_GROUPINGS_REPORT"""
 
     NAME = "REPORT"
+    REPLY_ATTRIBUTES = ("groupingIdentifier",)
 
     attributes = (
         ("groupingIdentifier", uint8_t),
-- 
2.43.0


From 45db78dd09be09ae78e730dd64e834b79849e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 38/67] fix: do not take the value of another configuration
 parameter as the reply

---
 pyzwave/commandclass/Configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 8b44d09..84f4032 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -76,6 +76,7 @@ class Report(Message):
     """Command Class message COMMAND_CLASS_CONFIGURATION CONFIGURATION_REPORT"""
 
     NAME = "REPORT"
+    REPLY_ATTRIBUTES = ("parameterNumber",)
 
     attributes = (
         ("parameterNumber", uint8_t),
-- 
2.43.0


From fc1ee0cbb4fa336460cf6efefad83fef4b6ee786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 39/67] fix: do not take the report for another node as the
 reply

---
 pyzwave/commandclass/NetworkManagementInclusion.py | 1 +
 pyzwave/commandclass/NetworkManagementProxy.py     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 5e0c503..627790d 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -58,6 +58,7 @@ class FailedNodeRemoveStatus(Message):
     """Command Class message COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION FAILED_NODE_REMOVE_STATUS"""
 
     NAME = "FAILED_NODE_REMOVE_STATUS"
+    REPLY_ATTRIBUTES = ("nodeID",)
 
     class Status(IntEnum):
         """Failed node remove status"""
diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index 26ba916..dc6395c 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -96,6 +96,7 @@ class MultiChannelCapabilityReport(Message):
     """
 
     NAME = "NM_MULTI_CHANNEL_CAPABILITY_REPORT"
+    REPLY_ATTRIBUTES = ("nodeID", "endPoint")
 
     attributes = (
         ("seqNo", uint8_t),
@@ -132,6 +133,7 @@ class MultiChannelEndPointReport(Message):
     """
 
     NAME = "NM_MULTI_CHANNEL_END_POINT_REPORT"
+    REPLY_ATTRIBUTES = ("nodeID",)
 
     attributes = (
         ("seqNo", uint8_t),
-- 
2.43.0


From 425a882c12364281639a688140f79004d5471f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 40/67] fix: do not take the late info of another node as the
 reply

---
 pyzwave/commandclass/NetworkManagementProxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index dc6395c..3623587 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -188,6 +188,12 @@ class NodeInfoCachedReport(Message):
         ("commandClass", bytes_t),
     )
 
+    def isReplyTo(self, request) -> bool:
+        """The report does not name its node, tell late replies by their sequence number"""
+        if not isinstance(request, NodeInfoCachedGet) or self.seqNo is None:
+            return True
+        return not 0 < (request.seqNo - self.seqNo) & 0xFF < 128
+
 
 @ZWaveMessage(COMMAND_CLASS_NETWORK_MANAGEMENT_PROXY, NODE_LIST_GET)
 class NodeListGet(Message):
-- 
2.43.0


From 481b24a62cefbe1cf62eb4e24a17f2f614e40c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 41/67] fix: continue interviewing after an incomplete reply

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index dab3786..1784986 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -189,6 +189,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception as error:  # pylint: disable=broad-except
+                # Such as an incomplete reply
+                _LOGGER.warning("Error interviewing %s: %s", cmdClass.name, repr(error))
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From 08c2f36bf259fa51562915d94bbd7f2031f54d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 42/67] fix: do not mark association group info as interviewed
 if the node was not reached

---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..fe102d9 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -195,9 +195,12 @@ class AssociationGrpInfo(CommandClass):
     async def interview(self):
         # We may get several reports from this command. At this point we do not know how many so
         # it is easier to handle them all in groupInfoReport than waiting here
-        await self.send(
+        sent = await self.send(
             GroupInfoGet(refreshCache=False, listMode=True, groupingIdentifier=0)
         )
+        if sent is False:
+            # The node will not report anything
+            return False
         # We do not know when we have received everything so we mark the command class
         # as interviewed...
         return True
-- 
2.43.0


From 88075ae3b6363fb41b53e5c4caf91cd01dbbfbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 43/67] fix: set up the lifeline to the controller, whatever
 its node id

---
 pyzwave/commandclass/Association.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 416f012..87e7f09 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -166,7 +166,8 @@ class Association(CommandClass):
             # Non Z-Wave Plus does not have a fixed defined lifeline.
             # Setup the lifeline like association groups in quirks instead.
             return
-        controllerId = 1  # TODO: Get this dynamically
+        # The controller is node 1 unless the adapter knows better
+        controllerId = getattr(self.node.adapter, "nodeId", 0) or 1
         grouping = self.groupings.get(groupingIdentifier)
         if not grouping:
             # No associations set. Bail.
-- 
2.43.0


From 1f5805de94802034ab30084ce826ffcc3a2f1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 44/67] fix: keep plain values when saving state

---
 pyzwave/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 0a927b0..af593ba 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,15 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def hasOwnState(value) -> bool:
+    """
+    Returns if the value defines how its state is saved. All objects have __getstate__
+    since Python 3.11 but the default is of no use for plain values.
+    """
+    getstate = getattr(type(value), "__getstate__", None)
+    return getstate is not getattr(object, "__getstate__", None)
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,7 +89,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
+            if hasOwnState(value):
                 values[attr] = value.__getstate__()
             else:
                 values[attr] = value
-- 
2.43.0


From d4e78952825e8058e35c1e2e61e477e47c0f0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 45/67] fix: do not restore command classes that were not
 interviewed as interviewed

---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 741f1cf..aaab22c 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -205,7 +205,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # Settings loaded from file are plain text
+        self._interviewed = str(state.get("interviewed", False)).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From 4576384b9c688ffe2dffe1e7b6ec0070a7cea5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 46/67] fix: restore the commands of an association group as
 numbers

---
 pyzwave/commandclass/AssociationGrpInfo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index fe102d9..e4aa41c 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -34,6 +34,12 @@ class Group(DictAttribute):
         ("commands", list),
     )
 
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        if "commands" in state:
+            # Settings loaded from file are plain text
+            self.commands = [[int(x) for x in command] for command in self.commands]
+
 
 class Groupings(dict):
     """Helper class for storing association groups"""
-- 
2.43.0


From 3c307ff235a4fec6e7e606ff000cb9de19a2df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 47/67] fix: create the directory for node settings

---
 pyzwave/persistantstorage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..c5afd72 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -46,7 +46,9 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
+        path: pathlib.Path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        with open(path, "w") as fd:
             yaml.dump(settings, fd)
 
     @property
-- 
2.43.0


From df10e35f07293019736d7eda23171e92cafe478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 48/67] fix: save association group information when it is
 reported

---
 pyzwave/commandclass/AssociationGrpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index e4aa41c..4695137 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -177,12 +177,14 @@ class AssociationGrpInfo(CommandClass):
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
         for group in report.groups:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -196,6 +198,7 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
-- 
2.43.0


From 6ad13f47d657546909fbe720d2afb50748aebf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 49/67] fix: save that a command class is no longer interviewed

---
 pyzwave/commandclass/CommandClass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index aaab22c..088e687 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -80,7 +80,11 @@ def interviewDecorator(interview):
             retval = await interview()
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
+            commandClass.speak("commandClassUpdated")
             return False
+        except Exception:
+            commandClass.speak("commandClassUpdated")
+            raise
         if retval is not False:
             commandClass._interviewed = True  # pylint: disable=protected-access
         commandClass.speak("commandClassUpdated")
-- 
2.43.0


From 2d315bda6feeb96bc686b26b705781a7f2491d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 50/67] fix: keep the storage lock until the last user has
 released it

---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 1784986..836c353 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,7 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -276,13 +277,19 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
+        self._storageLocks += 1
         try:
-            self._storageStatus = StorageStatus.LOCKED_CLEAN
+            if self._storageStatus == StorageStatus.CLEAN:
+                self._storageStatus = StorageStatus.LOCKED_CLEAN
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                # Other tasks may hold the lock, too
+                status = self._storageStatus
+                self._storageStatus = StorageStatus.CLEAN
+                if status == StorageStatus.LOCKED_DIRTY:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 25434571f86f5ce712c728fe30a2dc79520169aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 51/67] fix: load the settings of the other command classes if
 one is damaged

---
 pyzwave/persistantstorage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c5afd72..1030c8e 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -40,7 +40,12 @@ class YamlStorage(PersistantStorage):
         for cmdClassId, cmdClass in node.supported.items():
             if str(cmdClassId) not in supported:
                 continue
-            cmdClass.__setstate__(supported[str(cmdClassId)])
+            try:
+                cmdClass.__setstate__(supported[str(cmdClassId)])
+            except Exception as error:  # pylint: disable=broad-except
+                _LOGGER.warning("Could not load %s: %s", cmdClass.name, repr(error))
+                # Use the defaults, it needs to be interviewed again
+                cmdClass.__setstate__({})
 
     def nodeUpdated(self, node: Node):
         settings = {"supported": {}}
-- 
2.43.0


From 8b38a082ae779d42de0e890a1049644ee586ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 52/67] fix: deliver mailbox entries oldest first and keep them
 until delivered

---
 pyzwave/mailbox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..3bd1e9c 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -98,11 +98,11 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
+        queueItem = self._queue[queueHandle][0]
         ret = await self._adapter.sendToNode(
             nodeId,
             Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
+                last=len(self._queue[queueHandle]) == 1,
                 operation=Mailbox.Queue.Operation.POP,
                 queueHandle=queueHandle,
                 mailboxEntry=queueItem.data,
@@ -111,6 +111,7 @@ class MailboxService:
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
             queueItem.stop()
+            self._queue[queueHandle].remove(queueItem)
         return True
 
     async def __pushQueue__(self, nodeId: int, queueHandle: int, message: bytes):
-- 
2.43.0


From 9723b1c82fabfc354e93d7e6b4739a30dd336eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 53/67] fix: do not deliver a mailbox entry twice at the same
 time

---
 pyzwave/mailbox.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 3bd1e9c..dcdf76c 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -77,6 +77,7 @@ class MailboxService:
         self._adapter.addListener(self)
         self._lastQueueId = None
         self._queue = {}
+        self._popLocks = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
         """Initialize the mailbox"""
@@ -87,6 +88,11 @@ class MailboxService:
         )
         return await self._adapter.send(msg)
 
+    async def _popNext(self, nodeId: int, queueHandle: int):
+        # One at a time or the same entry would be sent more than once
+        async with self._popLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__popQueue__(nodeId, queueHandle)
+
     async def __popQueue__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
         if not self._queue.get(queueHandle, None):
@@ -146,14 +152,14 @@ class MailboxService:
         """Handle incoming mailbox messages"""
         if isinstance(message, Mailbox.WakeupNotification):
             self._lastQueueId = message.queueHandle
-            return await self.__popQueue__(rootNodeId, message.queueHandle)
+            return await self._popNext(rootNodeId, message.queueHandle)
 
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
             queueHandle = message.queueHandle or self._lastQueueId
-            return await self.__popQueue__(rootNodeId, queueHandle)
+            return await self._popNext(rootNodeId, queueHandle)
 
         if (
             isinstance(message, Mailbox.Queue)
-- 
2.43.0


From d1b9364d18be8c8ed744ad68eeebb6d9be62b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 54/67] fix: do not queue a mailbox entry twice if it is
 received again before it is acknowledged

---
 pyzwave/mailbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index dcdf76c..ef07ff7 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -137,6 +137,9 @@ class MailboxService:
             ),
         )
         if ret:
+            if any(item.checksum == checksum for item in self._queue[queueHandle]):
+                # The same message was queued while waiting for the acknowledgement
+                return False
             queueItem.start()
             self._queue[queueHandle].append(queueItem)
         return ret
-- 
2.43.0


From c2d0327640f7df1f636c62712aa716c476b7898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 55/67] fix: answer mailbox acknowledgements received before
 any wake-up

---
 pyzwave/mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index ef07ff7..94595c4 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -161,7 +161,7 @@ class MailboxService:
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
-            queueHandle = message.queueHandle or self._lastQueueId
+            queueHandle = message.queueHandle or self._lastQueueId or 0
             return await self._popNext(rootNodeId, queueHandle)
 
         if (
-- 
2.43.0


From a0a675974b3468e2a475280fbcd7ab0d0905199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 56/67] fix: continue mailbox notifications if one could not be
 sent

---
 pyzwave/mailbox.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 94595c4..2fdbd86 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -50,6 +50,13 @@ class QueueItem:
         if self._task:
             self._task.cancel()
 
+    async def _notify(self, nodeId: int, message: Message):
+        try:
+            await self._adapter.sendToNode(nodeId, message)
+        except Exception as error:  # pylint: disable=broad-except
+            # Keep on sending heartbeats until the entry is delivered
+            _LOGGER.warning("Could not send mailbox notification: %s", error)
+
     async def _runner(self):
         i = 0
         while True:
@@ -58,7 +65,7 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
+            await self._notify(
                 self._nodeId,
                 Mailbox.Queue(
                     last=False,
-- 
2.43.0


From 83a48c248e978673d5fcee25d358579ed71b3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 57/67] fix: do not store a configuration parameter for an
 incomplete report

---
 pyzwave/commandclass/Configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 84f4032..81dbd26 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -129,6 +129,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.value is None:
+            # Incomplete report
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
-- 
2.43.0


From cde873c9e64774b8972147f9f8379b509c4db05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 58/67] fix: report that an inclusion or exclusion command was
 not accepted

---
 pyzwave/zipgateway.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 74a0783..9f86942 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -43,7 +43,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -56,7 +57,8 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -72,7 +74,8 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -85,7 +88,8 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -265,7 +269,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -277,7 +282,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
-- 
2.43.0


From 87d53880d54e41514fb9862161d5da6ec146c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 59/67] fix: do not take the info of another node as the reply
 when several are requested

---
 pyzwave/zipgateway.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9f86942..e8a4a7a 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,6 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._ipLookups = {}
         self._nodes = {}
         self._nodeListLock = asyncio.Lock()
+        self._nodeInfoLock = asyncio.Lock()
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
@@ -175,6 +176,8 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
+        # The report does not name its node, so only one may be asked for at a time
+        await self._nodeInfoLock.acquire()
         self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
@@ -185,6 +188,8 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return NetworkManagementProxy.NodeInfoCachedReport()
+        finally:
+            self._nodeInfoLock.release()
         return report
 
     async def __handleNodeListReport__(
-- 
2.43.0


From 70df74cad980011c9d420d7e36c819e3707e2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 60/67] fix: do not take the unspecified address as the address
 of a node

---
 pyzwave/zipgateway.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index e8a4a7a..5e0739b 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -242,7 +242,11 @@ class ZIPGateway(ZIPConnection):
     def messageReceived(self, message: Message) -> bool:
         """Called when a message is received from the gateway"""
         handled = super().messageReceived(message)
-        if isinstance(message, ZipND.ZipNodeAdvertisement) and message.ipv6:
+        if (
+            isinstance(message, ZipND.ZipNodeAdvertisement)
+            and message.ipv6
+            and not message.ipv6.is_unspecified
+        ):
             # Several lookups may be active, only end those for the advertised node
             for lookup in self._ipLookups.get(message.nodeId, []):
                 if not lookup.done():
-- 
2.43.0


From 268c84345ccb5446c7d185578c2517af15dcc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 61/67] fix: read bit fields that have not been set as zero

---
 pyzwave/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 6e656f5..29ed96a 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -213,7 +213,7 @@ class BitsBase:
 
     sizeBits = 1
 
-    def __init__(self, value: int):
+    def __init__(self, value: int = 0):
         self._value = int(value)
 
     def __eq__(self, other):
@@ -255,7 +255,7 @@ class bytes_t(bytes):  # pylint: disable=invalid-name
 class flag_t(BitsBase):  # pylint: disable=invalid-name
     """Type represeting one bit"""
 
-    def __init__(self, value: int):
+    def __init__(self, value: int = 0):
         super().__init__(int(value) & 1)
 
     def __bool__(self):
-- 
2.43.0


From c323499492bc3f84bc7ee62ac777a9286b6cfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 62/67] fix: store an assigned value that is equal but has
 another scale

---
 pyzwave/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index af593ba..3746fd5 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -111,6 +111,8 @@ class AttributesMixin:
                 else:
                     newValue = attrType(value)
                 if oldValue == newValue:
+                    # Equal values may still differ, such as in the scale of a float
+                    self._attributes[name] = newValue
                     return
                 self._attributes[name] = newValue
                 self.attributeUpdated(name, newValue, oldValue)
-- 
2.43.0


From 773a5463b53d6e8dedc2f5c66e572246d7d29289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 63/67] fix: do not write more of the psk than the buffers have
 room for

---
 pyzwave/dtlsconnection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 133aef1..d79753e 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -104,17 +104,23 @@ class DTLSConnection(threading.Thread):
         """Stop the thread"""
         self._running = False
 
-    def clientPskCb(self, _ssl, _hint, identity, _maxIdenityLen, cpsk, _maxPskLen):
+    def clientPskCb(self, _ssl, _hint, identity, maxIdenityLen, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
-        memmove(cpsk, self._psk, length)
         iden = "Client_identity"
+        if length > maxPskLen or len(iden) > maxIdenityLen:
+            _LOGGER.error("The psk or identity is too long")
+            return 0
+        memmove(cpsk, self._psk, length)
         memmove(identity, iden.encode("utf-8"), len(iden))
         return length
 
-    def serverPskCb(self, _ssl, _identity, cpsk, _maxPskLen):
+    def serverPskCb(self, _ssl, _identity, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        if length > maxPskLen:
+            _LOGGER.error("The psk is too long")
+            return 0
         memmove(cpsk, self._psk, length)
         return length
 
-- 
2.43.0


From cbd5b107d818f7ed7d6eb8f9947b83eafe5b81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 64/67] fix: Forget association groups the device no longer has

---
 pyzwave/commandclass/Association.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 87e7f09..5017f77 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -113,6 +113,9 @@ class Groupings(dict):
                 group.maxNodes = 0
                 group.multiChannelMaxNodes = 0
                 self[i] = group
+        for i in [x for x in self if x > number]:
+            # The node does not have this group any longer
+            del self[i]
 
     def __getstate__(self):
         return {group: value.__getstate__() for group, value in self.items()}
-- 
2.43.0


From a07f3251a9d066616ebf02b91841f763908b2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 65/67] fix: Apply a requested node list after the reports
 received before it

---
 pyzwave/zipgateway.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 5e0739b..65d6495 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -168,9 +168,11 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
-        self._nodeId = report.nodeListControllerId
-        nodes = report.nodes or set()
-        self._nodes = {x: self._nodes.get(x, {}) for x in nodes}
+        # Unsolicited reports received before this one may still be handled
+        async with self._nodeListLock:
+            self._nodeId = report.nodeListControllerId
+            nodes = report.nodes or set()
+            self._nodes = {x: self._nodes.get(x, {}) for x in nodes}
         return nodes
 
     async def getNodeInfo(
-- 
2.43.0


From 0d4265e9c144f482aedb301f9087f2feeefc1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 66/67] fix: accept a dsk_t as the DSK in NodeAddDSKSet

---
 pyzwave/commandclass/NetworkManagementInclusion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 627790d..2306c94 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -161,6 +161,9 @@ class InputDSK(dsk_t):
         return super().__getstate__() if len(self._dsk) % 2 == 0 else self._dsk.hex()
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            self._dsk = state._dsk  # pylint: disable=protected-access
+            return
         if isinstance(state, bytes) and len(state) < 16:
             self._dsk = state
             return
-- 
2.43.0


From e0b0475ecf30f89445f56086ad2415ccbefe27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 67/67] fix: do not keep every saved node in memory

---
 pyzwave/persistantstorage.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index 1030c8e..c10cc95 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -10,6 +10,25 @@ from pyzwave.node import Node
 _LOGGER = logging.getLogger(__name__)
 
 
+class YAMLCommandClass:
+    """Wrapper for storing a command class tagged with its name"""
+
+    def __init__(self, cmdClass: CommandClass):
+        self._cmdClass = cmdClass
+
+    @staticmethod
+    def represent(dumper: yaml.Dumper, data: "YAMLCommandClass"):
+        """Represent the state of the command class"""
+        # pylint: disable=protected-access
+        return dumper.represent_mapping(
+            data._cmdClass.NAME, data._cmdClass.__getstate__()
+        )
+
+
+# A representer is kept forever by yaml, so there can only be one for all command classes
+yaml.add_representer(YAMLCommandClass, YAMLCommandClass.represent)
+
+
 class PersistantStorage:
     """Base class for implementing persistant storage for nodes"""
 
@@ -73,12 +92,4 @@ class YamlStorage(PersistantStorage):
     def cmdClassRepresenter(cmdClass: CommandClass):
         """Wrapper method for converting to YAML format"""
 
-        class YAMLCommandClass(
-            yaml.YAMLObject
-        ):  # pylint: disable=missing-class-docstring
-            yaml_tag = cmdClass.NAME
-
-            def __getstate__(self):
-                return cmdClass.__getstate__()
-
-        return YAMLCommandClass()
+        return YAMLCommandClass(cmdClass)
-- 
2.43.0

