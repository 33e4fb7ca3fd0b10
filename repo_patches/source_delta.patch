From 322bbaf1fa93a65e76d6c80d5dfb66eb72222678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 01/30] fix: name of the alert raised for oversized records

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..c1591ec 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From c56fb63b4b14e3390c7d2701c290ede80dd07453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 02/30] fix: do not pad a full extra chunk on records that are
 already aligned

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c1591ec..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 0b599042519109b2ffc2c28411faa75086d4cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 03/30] fix: enforce the fragment limit on decrypted records
 too

---
 src/siotls/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..5b8883c 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -235,6 +235,10 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
+        if len(innertext) > self.max_fragment_length + 1:
+            e =(f"the decrypted record is longer ({len(innertext)} bytes) than "
+                f"the allowed maximum ({self.max_fragment_length + 1} bytes)")
+            raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
                 break
-- 
2.43.0


From eb5a09164699560051f6ea301fe797eb4a74e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 04/30] fix: accept several handshakes per record, and tiny
 handshake fragments

---
 src/siotls/connection.py | 73 ++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5b8883c..1c444dc 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,8 +5,8 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -21,6 +21,16 @@ cipher_plaintext = types.SimpleNamespace(
     should_rekey=False,
 )
 
+# handshakes that can immediately preceed a key change, they cannot share
+# their last record with another handshake (RFC-8446 5.1)
+BEFORE_KEY_CHANGE = frozenset({
+    HandshakeType.CLIENT_HELLO,
+    HandshakeType.SERVER_HELLO,
+    HandshakeType.END_OF_EARLY_DATA,
+    HandshakeType.FINISHED,
+    HandshakeType.KEY_UPDATE,
+})
+
 def startswith_change_cipher_spec(data):
     return data[0:1] == b'\x14' and data[3:6] == b'\x00\x01\x01'
 
@@ -249,46 +259,43 @@ class TLSConnection:
 
     def _read_next_content(self):
         # handshakes can be fragmented over multiple following records,
-        # other content types are not subject to fragmentation
-
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        # and several of them can be packed together inside a single
+        # record, other content types are not subject to fragmentation
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
+        while not (content_data := self._pop_next_handshake()):
             record = self._read_next_record()
             if not record:
                 return None
+
             content_type, fragment = record
-            if content_type != ContentType.HANDSHAKE:
+            if content_type == ContentType.HANDSHAKE:
+                if not fragment:
+                    e = f"empty {ContentType.HANDSHAKE} record"
+                    raise alerts.UnexpectedMessage(e)
+                self._input_handshake += fragment
+            elif self._input_handshake:
                 e =(f"expected {ContentType.HANDSHAKE} continuation record "
                     f"but {content_type} found")
                 raise alerts.UnexpectedMessage(e)
-            self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
+            else:
+                return content_type, fragment
 
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+        return ContentType.HANDSHAKE, content_data
+
+    def _pop_next_handshake(self):
+        if len(self._input_handshake) < 4:  # noqa: PLR2004
+            return None
+        length = 4 + int.from_bytes(self._input_handshake[1:4], 'big')
+        if len(self._input_handshake) < length:
+            return None
+
+        content_data = self._input_handshake[:length]
+        self._input_handshake = self._input_handshake[length:]
+        if self._input_handshake and content_data[0] in BEFORE_KEY_CHANGE:
+            e =(f"{HandshakeType(content_data[0])} can preceed a key change, "
+                "it must be the last handshake of its record")
+            raise alerts.UnexpectedMessage(e)
+        return content_data
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
-- 
2.43.0


From a87a899dbacc3a7e20427f7e680cd30ed39795d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 05/30] fix: always enter the failed state upon failure, and
 ignore all input from there

---
 src/siotls/connection.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 1c444dc..54bd036 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -100,6 +100,8 @@ class TLSConnection:
         if not data:
             e = f"empty data: {data}"
             raise ValueError(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore everything
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
@@ -181,8 +183,13 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
-        self._move_to_state(states.Failed)
+        try:
+            if fatal_alert and self._state.can_send:
+                self._send_content(fatal_alert)
+        finally:
+            self._move_to_state(states.Failed)
+            self._input_data.clear()
+            self._input_handshake.clear()
 
     def is_post_handshake(self):
         return isinstance(self._state, states.Connected | states.Closed | states.Failed)
-- 
2.43.0


From fdf6e3838f48b9fb6c46c9c78cc2b6e2a7dc1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 06/30] fix: a closure during the handshake fails it, and a
 closed end ignores what follows

---
 src/siotls/connection.py      | 16 +++++++++++++---
 src/siotls/states/__init__.py |  3 +--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 54bd036..eed3c1d 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -103,11 +103,10 @@ class TLSConnection:
         if isinstance(self._state, states.Failed):
             return  # ignore everything
         if not self._state.can_receive:
-            e = f"cannot receive new messages in state {self._state.name()}"
-            raise alerts.UnexpectedMessage(e)
+            return  # ignore everything past the closure of the peer
         self._input_data += data
 
-        while True:
+        while self._state.can_receive:
             try:
                 next_content = self._read_next_content()
                 if not next_content:
@@ -166,11 +165,22 @@ class TLSConnection:
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
             return
+        if isinstance(self._state, states.Failed):
+            return
         if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
         self._state.can_receive = False
+        self._input_data.clear()
+        self._input_handshake.clear()
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            logger.warning("connection closed during handshake")
+            try:
+                self._send_content(alerts.CloseNotify())
+            finally:
+                self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..da01439 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,9 +36,8 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
                 logger.debug("%s closed its sending side", self.config.other_side)
+                self.close_receiving_end()
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
                      self.config.other_side, content.description.name)
-- 
2.43.0


From 3f1eca504f2634d132e3e5a0d9770b1135838bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 07/30] fix: every error alert received fails the connection,
 without echoing it back

---
 src/siotls/connection.py      |  2 ++
 src/siotls/states/__init__.py | 17 +++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index eed3c1d..a331f77 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -188,6 +188,8 @@ class TLSConnection:
             self._state.can_send = False
 
     def _fail(self, fatal_alert=None):
+        if isinstance(self._state, states.Failed):
+            return
         if fatal_alert:
             if fatal_alert.level != AlertLevel.FATAL:
                 e =("can only fail with a fatal alert which "
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index da01439..d144bdb 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,8 +1,8 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
-from siotls.iana import AlertDescription, AlertLevel, ContentType
+from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage
+from siotls.iana import AlertDescription, ContentType
 
 logger = logging.getLogger('siotls.connection')
 
@@ -38,12 +38,17 @@ class State(metaclass=abc.ABCMeta):
             if alert.description == AlertDescription.CLOSE_NOTIFY:
                 logger.debug("%s closed its sending side", self.config.other_side)
                 self.close_receiving_end()
-            elif alert.level == AlertLevel.WARNING:
-                logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+            elif alert.description == AlertDescription.USER_CANCELED:
+                logger.debug("%s canceled the handshake", self.config.other_side)
             else:
+                # all other alerts, unknown ones included, are errors
+                # regardless of their level (RFC-8446 6)
                 e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                self._fail()  # do not answer an alert with another one
+                if isinstance(alert, TLSFatalAlert):
+                    raise type(alert)(e)
+                e = f"{e}: {alert.description}"
+                raise TLSFatalAlert(e)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From a7e951fc8bb69247745682433d03cf198ef003f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 08/30] fix: no application data under the handshake keys of
 the server

---
 src/siotls/states/server/wait_finished.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index fcba4d2..6b87ce7 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -7,7 +7,7 @@ from .. import Connected, State
 class ServerWaitFinished(State):
     can_receive = True
     can_send = True
-    can_send_application_data = True
+    can_send_application_data = False
 
     def __init__(self, connection, server_finished_transcript_hash):
         super().__init__(connection)
-- 
2.43.0


From fbc7b4cb10a559805d46b52c15d843bb0ab834ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 09/30] fix: report the negotiated key exchange (client) and
 signature (server)

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 src/siotls/states/server/wait_client_hello.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..96d0e34 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -111,5 +111,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..8608cd7 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -282,6 +282,7 @@ class ServerWaitClientHello(State):
         suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
+                self.nconfig.signature_algorithm = server_suite
                 self._signature = suites[server_suite](self.config.private_key)
                 return [], []
         e = "no common signature algorithm found"
-- 
2.43.0


From 23d71c7241306fcf960d89149df8663f84eb4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 10/30] fix: length of internationalized host names

---
 src/siotls/contents/handshakes/extensions/server_name.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..4639f55 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        byte_host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(byte_host_name).to_bytes(2, 'big'),
+            byte_host_name,
         ])
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From 4a8e641926cbacd33afca9294a6cdfdd6e77511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 11/30] fix: wrapped socket losing data upon short writes

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 80bd246bc6fda44bc7c6d50a0cf5e5c5c14e1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 12/30] fix: HelloRetryRequest, client side

---
 src/siotls/states/client/start.py             |  6 ++--
 src/siotls/states/client/wait_server_hello.py | 33 +++++++++++--------
 src/siotls/states/server/wait_client_hello.py |  1 -
 src/siotls/transcript.py                      | 25 +++++++++-----
 4 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..8b5c1fb 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -27,9 +27,10 @@ class ClientStart(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, cookie=None):
+    def __init__(self, connection, cookie=None, key_exchange=None):
         super().__init__(connection)
         self._cookie = cookie
+        self._key_exchange = key_exchange
         self._key_shares = {}
 
     def initiate_connection(self):
@@ -65,7 +66,7 @@ class ClientStart(State):
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-        key_exchange = self.config.key_exchanges[0]
+        key_exchange = self._key_exchange or self.config.key_exchanges[0]
         private_key, my_key_share = TLSKeyExchange[key_exchange].init()
         self._key_shares[key_exchange] = private_key
         extensions.append(KeyShareRequest({key_exchange: my_key_share}))
@@ -76,7 +77,6 @@ class ClientStart(State):
         self._move_to_state(
             ClientWaitServerHello,
             key_shares=self._key_shares,
-            client_hello_transcript_hash=self._transcript.digest(),
         )
 
     def process(self, message):
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 96d0e34..c7c3fd2 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -1,5 +1,3 @@
-import dataclasses
-
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
@@ -14,7 +12,7 @@ class ClientWaitServerHello(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, key_shares, client_hello_transcript_hash):
+    def __init__(self, connection, key_shares, client_hello_transcript_hash=None):
         super().__init__(connection)
         self._is_first_server_hello = self.nconfig is None
         self._key_shares = key_shares
@@ -23,8 +21,8 @@ class ClientWaitServerHello(State):
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
-                and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                and not (content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST
+                         and self._is_first_server_hello))):
             super().process(content)
             return
 
@@ -32,6 +30,9 @@ class ClientWaitServerHello(State):
             e =(f"the server's selected {content.cipher_suite} wasn't offered "
                 f"in ClientHello: {self.config.cipher_suites}")
             raise alerts.IllegalParameter(e)
+        if not self._is_first_server_hello and content.cipher_suite != self.nconfig.cipher_suite:
+            e = "server's cipher suite cannot change in between Hellos"
+            raise alerts.IllegalParameter(e)
 
         if self._is_first_server_hello:
             self.nconfig = TLSNegotiatedConfiguration()
@@ -49,6 +50,8 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
@@ -57,17 +60,19 @@ class ClientWaitServerHello(State):
             e =(f"the server's selected {key_share.selected_group} wasn't "
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
+        if key_share.selected_group in self._key_shares:
+            e =(f"the server's selected {key_share.selected_group} was "
+                "already shared in ClientHello")
+            raise alerts.IllegalParameter(e)
 
-        # make sure we select the algorithms selected by the server
-        self.config = dataclasses.replace(self.config,
-            cipher_suites=[self.nconfig.cipher_suite],
-            key_exchanges=[key_share.selected_group],
-        )
-
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
-
+        # everything but the key share and the cookie must be the same
+        # in between the two ClientHello
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
-        self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
+        self._move_to_state(
+            ClientStart,
+            cookie=cookie_ext and cookie_ext.cookie,
+            key_exchange=key_share.selected_group,
+        )
         self.connection.initiate_connection()
 
     def _process_server_hello(self, server_hello):
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 8608cd7..d7d4fbf 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -120,7 +120,6 @@ class ServerWaitClientHello(State):
         )
 
         clear_extensions, _ = server_extensions
-        self._transcript.do_hrr_dance(self.config.side, self._transcript.digest())
         self._send_content(HelloRetryRequest(
             HelloRetryRequest.random,
             session_id,
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..4b529ee 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -49,7 +49,7 @@ otherwise the transcript wouldn't be right.
 import hashlib
 
 from siotls.contents import alerts
-from siotls.iana import HandshakeType
+from siotls.iana import HandshakeType, HandshakeType_
 
 ORDER = [
     ('server', HandshakeType.SERVER_HELLO, False),
@@ -65,6 +65,7 @@ ORDER = [
     ('client', HandshakeType.CERTIFICATE_VERIFY, True),   # skippable
     ('client', HandshakeType.FINISHED, False),
 ]
+FIRST_SH = 2
 
 
 class Transcript:
@@ -84,7 +85,7 @@ class Transcript:
         self._hashes.clear()
         self._hashes.append(hash_)
 
-    def do_hrr_dance(self, side, client_hello_transcript_hash):
+    def _do_hrr_dance(self):
         """
         Transcript-Hash(ClientHello1, HelloRetryRequest, ... Mn) =
             Hash(message_hash ||        /* Handshake type */
@@ -92,18 +93,24 @@ class Transcript:
                  Hash(ClientHello1) ||  /* Hash of ClientHello1 */
                  HelloRetryRequest  || ... || Mn)
         """
-        self._hashes[0] = hashlib.new(self._hashes[0].name, b''.join([
-            HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
-            b'\x00\x00',
-            self._hashes[0].digest_size.to_bytes(1, 'big'),
-            client_hello_transcript_hash,
-        ]))
-        self._order_i = (side == 'client')
+        self._hashes = [
+            hashlib.new(hash_.name, b''.join([
+                HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
+                b'\x00\x00',
+                hash_.digest_size.to_bytes(1, 'big'),
+                hash_.digest(),
+            ]))
+            for hash_ in self._hashes
+        ]
+        self._order_i = 0
 
     def update(self, handshake_data, side, handshake_type):
         if self._order_i == len(ORDER):
             return
 
+        if handshake_type is HandshakeType_.HELLO_RETRY_REQUEST and self._order_i == FIRST_SH:
+            self._do_hrr_dance()
+
         # extra safety net, the states should validate the incomming
         # messages and by construction always send valid handshakes
         expected_side, expected_handshake, is_skippable = ORDER[self._order_i]
-- 
2.43.0


From 13be394da4f551428cc23c796088935646508a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 13/30] fix: the client asks for the fragment limit of its
 configuration

---
 src/siotls/connection.py          | 21 +++++++++++++++++----
 src/siotls/states/client/start.py |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index a331f77..aa5f6dc 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,7 +5,13 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.iana import (
+    AlertLevel,
+    ContentType,
+    HandshakeType,
+    MaxFragmentLengthOctets,
+    TLSVersion,
+)
 from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
@@ -229,6 +235,13 @@ class TLSConnection:
             return self.nconfig.max_fragment_length
         return self.config.max_fragment_length
 
+    @property
+    def _max_input_fragment_length(self):
+        # the limit we ask for only applies once the server accepted it
+        if self.nconfig and self.nconfig.max_fragment_length is not None:
+            return self.nconfig.max_fragment_length
+        return MaxFragmentLengthOctets.MAX_16384
+
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
             self._input_data = self._input_data[6:]
@@ -239,7 +252,7 @@ class TLSConnection:
         content_type, _legacy_version, content_length = \
             struct.unpack('!BHH', self._input_data[:5])
 
-        max_fragment_length = self.max_fragment_length
+        max_fragment_length = self._max_input_fragment_length
         if self._cipher.must_decrypt:
             max_fragment_length += 256
         if content_length > max_fragment_length:
@@ -264,9 +277,9 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
-        if len(innertext) > self.max_fragment_length + 1:
+        if len(innertext) > self._max_input_fragment_length + 1:
             e =(f"the decrypted record is longer ({len(innertext)} bytes) than "
-                f"the allowed maximum ({self.max_fragment_length + 1} bytes)")
+                f"the allowed maximum ({self._max_input_fragment_length + 1} bytes)")
             raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 8b5c1fb..93e7297 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -63,6 +64,8 @@ class ClientStart(State):
             extensions.append(ServerCertificateTypeRequest(self.config.peer_certificate_types))
         if self.config.trust_store:
             extensions.append(OCSPStatusRequest([], b''))
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-- 
2.43.0


From 5de983a4cb97919afd846f7ebb4c5946a626e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 14/30] fix: clients ignore new session tickets

The NewSessionTicket handshake was a stub: every client connection to a
server that sends tickets (most do, right after the handshake) failed
with the first one.
---
 .../contents/handshakes/new_session_ticket.py | 59 ++++++++++++++++++-
 src/siotls/states/connected.py                |  7 ++-
 2 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..1222e70 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,12 +1,65 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
-from siotls.serial import SerializableBody
+from siotls.iana import ExtensionType, HandshakeType
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .extensions import Extension
 
 
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+    _struct = textwrap.dedent("""
+        struct {
+            uint32 ticket_lifetime;
+            uint32 ticket_age_add;
+            opaque ticket_nonce<0..255>;
+            opaque ticket<1..2^16-1>;
+            Extension extensions<0..2^16-2>;
+        } NewSessionTicket;
+    """).strip('\n')
+
+    ticket_lifetime: int
+    ticket_age_add: int
+    ticket_nonce: bytes
+    ticket: bytes
+    extensions: dict[ExtensionType | int, Extension]
+
+    def __init__(  # noqa: PLR0913
+        self, ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions
+    ):
+        self.ticket_lifetime = ticket_lifetime
+        self.ticket_age_add = ticket_age_add
+        self.ticket_nonce = ticket_nonce
+        self.ticket = ticket
+        self.extensions = {ext.extension_type: ext for ext in extensions}
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):
+        ticket_lifetime = stream.read_int(4)
+        ticket_age_add = stream.read_int(4)
+        ticket_nonce = stream.read_var(1)
+        ticket = stream.read_var(2)
+
+        extensions = []
+        list_stream = SerialIO(stream.read_var(2))
+        while not list_stream.is_eof():
+            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
+            extensions.append(extension)
+
+        return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
+
+    def serialize_body(self):
+        extensions = b''.join(ext.serialize() for ext in self.extensions.values())
+        return b''.join([
+            self.ticket_lifetime.to_bytes(4, 'big'),
+            self.ticket_age_add.to_bytes(4, 'big'),
+            len(self.ticket_nonce).to_bytes(1, 'big'),
+            self.ticket_nonce,
+            len(self.ticket).to_bytes(2, 'big'),
+            self.ticket,
+            len(extensions).to_bytes(2, 'big'),
+            extensions,
+        ])
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..282a3ef 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,4 +1,4 @@
-from siotls.iana import ContentType
+from siotls.iana import ContentType, HandshakeType
 
 from . import State
 
@@ -9,6 +9,11 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
+        if (message.content_type == ContentType.HANDSHAKE
+            and message.msg_type is HandshakeType.NEW_SESSION_TICKET
+            and self.config.side == 'client'):
+            return  # session resumption is not supported, ignore it
+
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
-- 
2.43.0


From 499243e476db3512b0fd61344c31be482738de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 15/30] fix: only sign handshakes with schemes that fit the key

The server picked any ECDSA scheme regardless of the curve of its key
(e.g. ecdsa_secp256r1_sha256 with a secp384r1 key), or RSA PKCS1 v1.5 when
listed, which conforming clients reject; the client accepted such
signatures. It also crashed on servers that only have a raw public key.
---
 src/siotls/crypto/signatures.py               | 50 ++++++++++++++++++-
 .../states/client/wait_certificate_verify.py  | 29 ++++++++---
 src/siotls/states/server/wait_client_hello.py |  7 ++-
 3 files changed, 75 insertions(+), 11 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..02c987d 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,7 +5,7 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
@@ -38,6 +38,29 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_handshake(cls, public_key, public_key_oid=None):
+        """
+        The suites that can be used with this key to sign a handshake,
+        RFC-8446 4.2.3: RSA PKCS1 v1.5 is only meant for certificates and
+        ECDSA suites only work with their own curve.
+
+        A RSA key alone doesn't tell wheter it is a RSASSA-PSS one, it is
+        assumed it isn't when the ``public_key_oid`` (of the certificate)
+        is missing.
+        """
+        return {
+            iana_id: suite
+            for iana_id, suite
+            in cls._pubkey_registry.get(
+                public_key_oid or _get_public_key_oid(public_key), {}).items()
+            if suite._can_handshake(public_key)
+        }
+
+    @classmethod
+    def _can_handshake(cls, public_key):  # noqa: ARG003
+        return True
+
     def __init__(self, key):
         self.key = key
 
@@ -50,10 +73,27 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
         raise NotImplementedError
 
 
+def _get_public_key_oid(public_key):
+    match public_key:
+        case rsa.RSAPublicKey():
+            return PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5
+        case ec.EllipticCurvePublicKey():
+            return PublicKeyAlgorithmOID.EC_PUBLIC_KEY
+        case ed25519.Ed25519PublicKey():
+            return PublicKeyAlgorithmOID.ED25519
+        case ed448.Ed448PublicKey():
+            return PublicKeyAlgorithmOID.ED448
+    return None
+
+
 class _RSAMixin:
     digestmod: hashes.Hash
     padding = padding.PKCS1v15()
 
+    @classmethod
+    def _can_handshake(cls, public_key):  # noqa: ARG003
+        return isinstance(cls.padding, padding.PSS)
+
     def sign(self, message):
         return self.key.sign(message, self.padding, self.digestmod)
 
@@ -123,6 +163,11 @@ class TLS_RSA_PSS_PSS_SHA512(_RSAMixin, TLSSignatureSuite):
 
 class _ECDSAMixin:
     digestmod: hashes.Hash
+    curve: type[ec.EllipticCurve]
+
+    @classmethod
+    def _can_handshake(cls, public_key):
+        return isinstance(public_key.curve, cls.curve)
 
     def sign(self, message):
         return self.key.sign(message, ec.ECDSA(self.digestmod))
@@ -135,18 +180,21 @@ class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
     digestmod = hashes.SHA256()
+    curve = ec.SECP256R1
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
     digestmod = hashes.SHA384()
+    curve = ec.SECP384R1
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
     digestmod = hashes.SHA512()
+    curve = ec.SECP521R1
 
 
 class _EDMixin:
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..a2c20f8 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -34,14 +36,25 @@ class ClientWaitCertificateVerify(State):
             raise alerts.IllegalParameter(e)
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        if self.nconfig.peer_public_key:
+            public_key = self.nconfig.peer_public_key
+            public_key_oid = None
+        else:
+            public_key = self.nconfig.peer_certificate.public_key()
+            public_key_oid = self.nconfig.peer_certificate.public_key_algorithm_oid
+        suites = TLSSignatureSuite.for_handshake(public_key, public_key_oid)
+        if content.algorithm not in suites:
+            e =(f"the server's selected {content.algorithm} cannot be used "
+                "with its public key")
+            raise alerts.IllegalParameter(e)
+        try:
+            suites[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            e = "invalid handshake signature"
+            raise alerts.DecryptError(e) from exc
 
         self._move_to_state(
             ClientWaitFinished,
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index d7d4fbf..d51ab06 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -277,8 +277,11 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        pubkey_oid = None
+        if self.config.certificate_chain:
+            pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
+        suites = TLSSignatureSuite.for_handshake(
+            self.config.private_key.public_key(), pubkey_oid)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self.nconfig.signature_algorithm = server_suite
-- 
2.43.0


From 19ade9e741c77dfe7cc3b93bcf719493726fda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/30] fix: raw public keys

The certificate types extensions couldn't be serialized, and the client
called the list of trusted keys instead of searching inside it.
---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 3 +--
 src/siotls/states/client/wait_certificate.py                  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..8632b21 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -124,7 +124,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
-- 
2.43.0


From 9de2ac0054841e8bfd4348de385bdeecff060c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 17/30] fix: the client rejects what it did not offer

Extensions, session id and certificate type the server may not send given
the ClientHello were silently accepted (or crashed).
---
 src/siotls/connection.py                              |  1 +
 src/siotls/states/__init__.py                         | 11 ++++++++++-
 src/siotls/states/client/start.py                     |  1 +
 src/siotls/states/client/wait_certificate.py          |  2 ++
 src/siotls/states/client/wait_encrypted_extensions.py |  5 +++++
 src/siotls/states/client/wait_server_hello.py         |  9 +++++++++
 6 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index aa5f6dc..b9964ba 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -47,6 +47,7 @@ class TLSConnection:
         self.ocsp_service = ocsp_service
         self.nconfig = None
         self._cipher = cipher_plaintext
+        self._offered_extensions = None
         self._signature = None
 
         self._transcript = Transcript({
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index d144bdb..d608a14 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,7 +1,7 @@
 import abc
 import logging
 
-from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage
+from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage, UnsupportedExtension
 from siotls.iana import AlertDescription, ContentType
 
 logger = logging.getLogger('siotls.connection')
@@ -31,6 +31,15 @@ class State(metaclass=abc.ABCMeta):
         e = f"cannot initiate connection in state {self.name()}"
         raise NotImplementedError(e)
 
+    def _check_extensions_offered(self, extensions):
+        if self._offered_extensions is None:
+            return
+        for extension_type in extensions:
+            if extension_type not in self._offered_extensions:
+                e =(f"the server sent {extension_type} which wasn't offered "
+                    "in ClientHello")
+                raise UnsupportedExtension(e)
+
     @abc.abstractmethod
     def process(self, content):
         if content.content_type == ContentType.ALERT:
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 93e7297..30dbc5d 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -74,6 +74,7 @@ class ClientStart(State):
         self._key_shares[key_exchange] = private_key
         extensions.append(KeyShareRequest({key_exchange: my_key_share}))
 
+        self._offered_extensions = {ext.extension_type for ext in extensions}
         self._send_content(ClientHello(
             self._client_unique, self.config.cipher_suites, extensions,
         ))
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 8632b21..794c524 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -37,6 +37,8 @@ class ClientWaitCertificate(State):
                 e = "missing certificate"
                 raise alerts.BadCertificate(e)
         self._check_certificate_types(content.certificate_list)
+        for entry in content.certificate_list:
+            self._check_extensions_offered(entry.extensions)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
                 self._process_x509(content)
diff --git a/src/siotls/states/client/wait_encrypted_extensions.py b/src/siotls/states/client/wait_encrypted_extensions.py
index 9d4ab8a..2e81398 100644
--- a/src/siotls/states/client/wait_encrypted_extensions.py
+++ b/src/siotls/states/client/wait_encrypted_extensions.py
@@ -23,6 +23,8 @@ class ClientWaitEncryptedExtensions(State):
             super().process(content)
             return
 
+        self._check_extensions_offered(content.extensions)
+
         def negociate(ext_name, *args, **kwargs):
             ext_type = getattr(ExtensionType, ext_name.upper())
             ext = content.extensions.get(ext_type)
@@ -83,6 +85,9 @@ class ClientWaitEncryptedExtensions(State):
 
     def _negociate_server_certificate_type(self, ext):
         if not ext:
+            if self.config.require_peer_authentication and not self.config.trust_store:
+                e = "the server doesn't support raw public keys"
+                raise alerts.UnsupportedCertificate(e)
             self.nconfig.server_certificate_type = CertificateType.X509
         elif ext.certificate_type in self.config.peer_certificate_types:
             self.nconfig.server_certificate_type = ext.certificate_type
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index c7c3fd2..f028fc0 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -34,6 +34,15 @@ class ClientWaitServerHello(State):
             e = "server's cipher suite cannot change in between Hellos"
             raise alerts.IllegalParameter(e)
 
+        if content.legacy_session_id_echo:
+            e = "the server's session id isn't the one offered in ClientHello"
+            raise alerts.IllegalParameter(e)
+        self._check_extensions_offered(
+            content.extensions.keys() - {ExtensionType.COOKIE}
+            if content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST else
+            content.extensions
+        )
+
         if self._is_first_server_hello:
             self.nconfig = TLSNegotiatedConfiguration()
             self.nconfig.cipher_suite = content.cipher_suite
-- 
2.43.0


From 909cc1a27a6d1ee56d78f7ea68fb92c698acf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 18/30] fix: check the revocation of the verified chain

The revocation list was given certificates instead of serial numbers and
always crashed. The statuses were verified against the certificate the
server sent next instead of the actual issuer: the status of the last
certificate sent (e.g. a lone leaf) was never looked at.
---
 src/siotls/states/client/wait_certificate.py | 40 ++++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 794c524..6be6b2d 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -67,16 +67,18 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
-            self._verify_chain(content.certificate_list)
-            self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            chain = self._verify_chain(content.certificate_list)
+            self._verify_revocation(chain)
+            self._verify_statuses(chain, content.certificate_list)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # the server verifier gives the chain, the client one an object
+        return getattr(verified, 'chain', verified)
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -92,30 +94,36 @@ class ClientWaitCertificate(State):
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
 
-    def _verify_revocation(self, certificate_entries):
+    def _verify_revocation(self, chain):
         if not self.config.revocation_list:
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
-        for entry in certificate_entries:
-            if is_revoked(entry.certificate):
-                e = f"{entry.certificate} found in revocation list"
+        for certificate in chain:
+            if is_revoked(certificate.serial_number):
+                e = f"{certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, chain, certificate_entries):
+        # the issuers are the ones of the verified chain, the server can
+        # send its certificates in any order and omit the root
+        statuses = {
+            entry.certificate: entry.extensions.get(ExtensionType.STATUS_REQUEST)
+            for entry in reversed(certificate_entries)
+        }
+        for certificate, issuer in pairwise(chain):
+            status = statuses.get(certificate)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
-- 
2.43.0


From 25301b1c3420905fdf5c8f6450d150392a06588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 19/30] fix: certificates without responder location

Looking for the OCSP url of a certificate without authority information
access extension crashed, client (with an OCSP service) and server side.
---
 src/siotls/crypto/ocsp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..ea4913d 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,14 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        access_descriptions = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
-            for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            for access_description in access_descriptions
             if access_description.access_method == OCSP
         ),
         None
-- 
2.43.0


From ed1bc3eac00af031c5aed70d2e55ab85bd3ff172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 20/30] fix: validation of certificate statuses

Statuses without next update (no expiry) crashed. Statuses with an invalid
signature raised IndexError instead of ValueError. The signature algorithm
of the status was compared with the one the issuer's own certificate is
signed with, which isn't related to the issuer's key: genuine statuses
were rejected whenever the issuer isn't self-signed.
---
 src/siotls/crypto/ocsp.py                     | 17 +++++++----------
 src/siotls/states/client/wait_certificate.py  |  3 ++-
 src/siotls/states/server/wait_client_hello.py |  3 ++-
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index ea4913d..121d90a 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -69,27 +69,24 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
-    if res.next_update < datetime.utcnow():  # noqa: DTZ003
+    if res.next_update is not None and res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
 
-    if res.signature_algorithm_oid != issuer.signature_algorithm_oid:
-        e = "request and response signature algorithm mismatch"
-        raise ValueError(e)
-
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
-        e = "request and response hash algorithm mismatch"
-        raise ValueError(e)
-
     try:
         Signature = TLSSignatureSuite.from_signature_oid(res.signature_algorithm_oid)  # noqa: N806
     except KeyError as exc:
         e = "unknown signature algorithm"
         raise ValueError(e) from exc
 
+    if Signature.pubkey_oid != issuer.public_key_algorithm_oid:
+        e = "response signature algorithm and issuer public key mismatch"
+        raise ValueError(e)
+
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+        e = "invalid response signature"
+        raise ValueError(e) from exc
 
     return res.next_update
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 6be6b2d..7031a9d 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -128,7 +128,8 @@ class ClientWaitCertificate(State):
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
                 else:
-                    self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+                    if valid_until:
+                        self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
 
     def _process_raw_public_key(self, content):
         public_key = content.certificate_list[0].public_key
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index d51ab06..7bca4c6 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -182,7 +182,8 @@ class ServerWaitClientHello(State):
                         "reject this connection: %s")
                     logger.warning(w, exc.args[0])
                 else:
-                    self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+                    if valid_until:
+                        self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
                     certificate_list[0].extensions[
                         ExtensionType.STATUS_REQUEST
                     ] = OCSPStatus(ocsp_res)
-- 
2.43.0


From b9b27a3216ca711452141c2f282e55ac08d74749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 21/30] fix: keep serving when the OCSP responder is
 unreachable

Any error of the responder (network, HTTP) failed the connections of all
the clients that support OCSP stapling.
---
 src/siotls/states/server/wait_client_hello.py | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 7bca4c6..a03c771 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -169,21 +169,8 @@ class ServerWaitClientHello(State):
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
             ):
-                subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
-                ocsp_req = make_ocsp_request(subject, issuer)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
-                try:
-                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
-                except ValueError as exc:
-                    self.ocsp_service.uncache(ocsp_req)
-                    w =("error while validating the online status of "
-                        "this server certificate, client likely to "
-                        "reject this connection: %s")
-                    logger.warning(w, exc.args[0])
-                else:
-                    if valid_until:
-                        self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+                ocsp_res = self._get_ocsp_status(*self.config.certificate_chain[:2])
+                if ocsp_res:
                     certificate_list[0].extensions[
                         ExtensionType.STATUS_REQUEST
                     ] = OCSPStatus(ocsp_res)
@@ -196,6 +183,34 @@ class ServerWaitClientHello(State):
             )
         ))
 
+    def _get_ocsp_status(self, subject, issuer):
+        # the connection must work without status too: the responder may
+        # be down, or answer garbage.
+        try:
+            ocsp_url = get_ocsp_url(subject)
+            if not ocsp_url:
+                return None
+            ocsp_req = make_ocsp_request(subject, issuer)
+            ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+        except Exception as exc:  # noqa: BLE001
+            w = "error while requesting the online status of this server certificate: %s"
+            logger.warning(w, exc)
+            return None
+
+        try:
+            valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
+        except Exception as exc:  # noqa: BLE001
+            self.ocsp_service.uncache(ocsp_req)
+            w =("error while validating the online status of "
+                "this server certificate, client likely to "
+                "reject this connection: %s")
+            logger.warning(w, exc)
+            return None
+
+        if valid_until:
+            self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+        return ocsp_res
+
     def _send_finished(self):
         self._send_content(Finished(
             self._cipher.sign_finish(self._transcript.digest())
-- 
2.43.0


From 4207870f6ef328125237e4ab58eb08bf11bb6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 22/30] fix: bookkeeping and thread safety of the OCSP cache

The entries removed from the cache (expired, invalid) remained in the
eviction heap: they counted as used slots and, once cached again, fresh
entries were evicted on behalf of their stale limit. Concurrent lookups of
an expired entry raised KeyError, and concurrent insertions could exceed
the maximum number of entries.
---
 src/siotls/ocsp_over_http.py | 39 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..7c4e39a 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -1,5 +1,5 @@
-import heapq
 import logging
+import threading
 from datetime import datetime
 from urllib.parse import urlsplit
 from urllib.request import Request, urlopen
@@ -14,18 +14,19 @@ USER_AGENT = f"python-siotls/{siotls.__version__}"
 TIMEOUT = 1
 
 _cache = {}
-_cache_limits = []
+_cache_lock = threading.Lock()
 
 def request(url, ocsp_req):
-    cached_ocsp_res, cached_until = _cache.get(ocsp_req, (None, None))
-    if cached_ocsp_res:
-        if datetime.utcnow() < cached_until:  # noqa: DTZ003
-            logger.debug('cache hit')
-            return cached_ocsp_res
-        logger.debug('cache expired')
-        del _cache[ocsp_req]
-    else:
-        logger.debug('cache miss')
+    with _cache_lock:
+        cached_ocsp_res, cached_until = _cache.get(ocsp_req, (None, None))
+        if cached_ocsp_res:
+            if datetime.utcnow() < cached_until:  # noqa: DTZ003
+                logger.debug('cache hit')
+                return cached_ocsp_res
+            logger.debug('cache expired')
+            del _cache[ocsp_req]
+        else:
+            logger.debug('cache miss')
 
     urlobj = urlsplit(url)
     if urlobj.scheme != 'http':
@@ -66,13 +67,15 @@ def request(url, ocsp_req):
 
 
 def cache(until, ocsp_req, ocsp_res):
-    if ocsp_req in _cache:
-        return
-    while len(_cache_limits) >= CACHE_ENTRIES:
-        uncache(heapq.heappop(_cache_limits)[1])
-    heapq.heappush(_cache_limits, (until, ocsp_req))
-    _cache[ocsp_req] = (ocsp_res, until)
+    with _cache_lock:
+        if ocsp_req in _cache:
+            return
+        while len(_cache) >= CACHE_ENTRIES:
+            # evict the one that expires first
+            del _cache[min(_cache, key=lambda req: _cache[req][1])]
+        _cache[ocsp_req] = (ocsp_res, until)
 
 
 def uncache(ocsp_req):
-    _cache.pop(ocsp_req, None)
+    with _cache_lock:
+        _cache.pop(ocsp_req, None)
-- 
2.43.0


From fc023a4f65a6d34c74650e1b34470fbc1182248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 23/30] fix: truncated or oversized OCSP responses

The body was silently truncated when it was larger than the maximum and
of unknown length, or when the connection was closed early. It was read
without limit when Content-Length was negative. The HTTP connection was
never closed.
---
 src/siotls/ocsp_over_http.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 7c4e39a..2f7fdb2 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -49,9 +49,12 @@ def request(url, ocsp_req):
             'User-Agent': USER_AGENT,
         }
     )
-    http_res = urlopen(http_req, timeout=TIMEOUT)  # noqa: S310
-    # timeout is per recv, not globally, it can be abused to DOS
+    with urlopen(http_req, timeout=TIMEOUT) as http_res:  # noqa: S310
+        # timeout is per recv, not globally, it can be abused to DOS
+        return _read_response(http_res)
 
+
+def _read_response(http_res):
     content_type = http_res.getheader('Content-Type', 'application/ocsp-response')
     if content_type != 'application/ocsp-response':
         e =(f"unsupported HTTP response type: {content_type}")
@@ -63,7 +66,15 @@ def request(url, ocsp_req):
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
 
-    return http_res.read(content_length)
+    ocsp_res = http_res.read(OCSP_MAX_RESPONSE_SIZE)
+    if http_res.length:
+        e = f"truncated OCSP response, {http_res.length} bytes are missing"
+        raise RuntimeError(e)
+    if http_res.read(1):
+        e = f"OCSP response body too large (over {OCSP_MAX_RESPONSE_SIZE} bytes)"
+        raise RuntimeError(e)
+
+    return ocsp_res
 
 
 def cache(until, ocsp_req, ocsp_res):
-- 
2.43.0


From b05a56c788d4c7b10795b90444b5d0870700c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 24/30] fix: the wrapped socket reports incomplete handshakes

Entering the context manager of a wrapped socket succeeded, as if the
connection was secured, when the peer closed during the handshake.
---
 src/siotls/wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index 4e09488..7c4b07f 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -1,3 +1,4 @@
+from siotls import TLSError, states
 
 
 class WrappedSocket:
@@ -25,6 +26,9 @@ class WrappedSocket:
                         self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
+        if isinstance(self.conn._state, states.Failed):
+            e = "the connection was closed during the handshake"
+            raise TLSError(e)
 
     def read(self):
         application_data = self.conn.data_to_read()
-- 
2.43.0


From 109293507e09f99312cb6383a0762cf1eb479e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 25/30] fix: use_srtp and certificate_authorities extensions

Both implemented serialize() instead of serialize_body(), they could not be
instantiated and every ClientHello carrying one of them was refused with an
internal error.
---
 .../extensions/certificate_authorities.py     | 24 +++++++++----------
 .../handshakes/extensions/use_srtp.py         |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..f6e3c5f 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -22,25 +22,25 @@ class CertificateAuthorities(Extension, SerializableBody):
             DistinguishedName authorities<3..2^16-1>;
         } CertificateAuthoritiesExtension;
     """).strip()
-    autorities: list[bytes]
+    authorities: list[bytes]
 
-    def __init__(self, autorities):
-        self.autorities = autorities
+    def __init__(self, authorities):
+        self.authorities = authorities
 
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
-        autorities = stream.read_listvar(2, 2)
-        return cls(autorities)
+        authorities = stream.read_listvar(2, 2)
+        return cls(authorities)
 
-    def serialize(self):
-        autorities = b''.join([
+    def serialize_body(self):
+        authorities = b''.join([
             b''.join([
-                len(autority).to_bytes(2, 'big'),
-                autority,
-            ]) for autority in self.autorities
+                len(authority).to_bytes(2, 'big'),
+                authority,
+            ]) for authority in self.authorities
         ])
 
         return b''.join([
-            len(autorities).to_bytes(2, 'big'),
-            autorities,
+            len(authorities).to_bytes(2, 'big'),
+            authorities,
         ])
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..d5293b8 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -42,9 +42,9 @@ class UseSRTP(Extension, SerializableBody):
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
-- 
2.43.0


From 22b1471eb46c12c5021e47c06015c0ef4c2bfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 26/30] fix: verify certificates of internationalized host
 names

The A-label form of the name, the one found in certificates and in the
server name extension, is the one to verify: DNSName refuses any other.
---
 src/siotls/states/client/wait_certificate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 7031a9d..1af95aa 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,6 +1,7 @@
 from ipaddress import ip_address
 from itertools import pairwise
 
+import idna
 from cryptography import x509
 
 from siotls.contents import alerts
@@ -89,7 +90,9 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(self.server_hostname)
+            # internationalized names are found ascii-encoded in certificates
+            hostname = idna.encode(self.server_hostname, uts46=True).decode()
+            subject = x509.DNSName(hostname)
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From 7495de980a83229d62b676b907a1abbf2f5f708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 27/30] fix: the server uses its application key right after
 its Finished

Alerts sent between its Finished and the one of the client were still
protected by the handshake key: conforming clients cannot decrypt them.
---
 src/siotls/crypto/ciphers.py                  | 31 ++++++++++++++++---
 src/siotls/states/server/wait_client_hello.py |  1 +
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..130a0ae 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -80,6 +80,12 @@ class _TLSSecrets:
             server_handshake_traffic,
         )
 
+    def derive_server_application_traffic(self, server_finished_transcript_hash):
+        assert self.state is CipherState.APPLICATION
+        derive_master_secret = self._make_deriver(
+            self._hashzeros, server_finished_transcript_hash, update_salt=False)
+        return derive_master_secret(b's ap traffic')
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -260,6 +266,22 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             key_logger.info("SERVER_HANDSHAKE_TRAFFIC_SECRET %s %s",
                 self._client_unique_hex, server_handshake_traffic.hex())
 
+    def derive_server_write_secret(self, server_finished_transcript_hash):
+        # the server uses its application key right after its Finished,
+        # it doesn't have to wait for the one of the client
+        assert self._side == 'server'
+        server_application_traffic = self._secrets.derive_server_application_traffic(
+            server_finished_transcript_hash)
+
+        server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
+        self._write_cipher = self._ciphermod(server_key)
+        self._write_iv = int.from_bytes(server_iv, 'big')
+        self._write_seq = peekable(iter(range(self.usage_limit)))
+
+        if self._client_unique_hex:
+            key_logger.info("SERVER_TRAFFIC_SECRET_0 %s %s",
+                self._client_unique_hex, server_application_traffic.hex())
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -283,9 +305,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             self._read_iv = int.from_bytes(server_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
         else:
-            self._write_cipher = self._ciphermod(server_key)
-            self._write_iv = int.from_bytes(server_iv, 'big')
-            self._write_seq = peekable(iter(range(self.usage_limit)))
+            # it already writes using its application key
             self._read_cipher = self._ciphermod(client_key)
             self._read_iv = int.from_bytes(client_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
@@ -297,8 +317,9 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         if self._client_unique_hex:
             key_logger.info("CLIENT_TRAFFIC_SECRET_0 %s %s",
                 self._client_unique_hex, client_application_traffic.hex())
-            key_logger.info("SERVER_TRAFFIC_SECRET_0 %s %s",
-                self._client_unique_hex, server_application_traffic.hex())
+            if self._side == 'client':
+                key_logger.info("SERVER_TRAFFIC_SECRET_0 %s %s",
+                    self._client_unique_hex, server_application_traffic.hex())
             key_logger.info("EXPORTER_SECRET %s %s",
                 self._client_unique_hex, exporter_master.hex())
 
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index a03c771..f40a3a8 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -86,6 +86,7 @@ class ServerWaitClientHello(State):
         self._send_finished()
 
         server_finished_transcript_hash = self._transcript.digest()
+        self._cipher.derive_server_write_secret(server_finished_transcript_hash)
         if self.config.require_peer_authentication:
             self._move_to_state(ServerWaitFlight2, server_finished_transcript_hash)
         else:
-- 
2.43.0


From 57f3cce311456e19d27049187315324a401953bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 28/30] fix: the OCSP fetcher does not follow redirections

A redirected POST became a GET without the OCSP request, to any location
the responder pleased, and the whole body of the redirection was read,
whatever its size.
---
 src/siotls/ocsp_over_http.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 2f7fdb2..2f0eac8 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -2,7 +2,7 @@ import logging
 import threading
 from datetime import datetime
 from urllib.parse import urlsplit
-from urllib.request import Request, urlopen
+from urllib.request import HTTPRedirectHandler, Request, build_opener
 
 import siotls
 
@@ -13,6 +13,15 @@ OCSP_MAX_RESPONSE_SIZE = 20480  # 20kiB, arbitrary
 USER_AGENT = f"python-siotls/{siotls.__version__}"
 TIMEOUT = 1
 
+class _NoRedirect(HTTPRedirectHandler):
+    def http_error_302(self, req, fp, code, msg, headers):
+        # following it would lose the OCSP request, contact any location
+        # and read the (possibly endless) body of the redirection
+        return None
+
+    http_error_301 = http_error_303 = http_error_307 = http_error_308 = http_error_302
+
+_opener = build_opener(_NoRedirect)
 _cache = {}
 _cache_lock = threading.Lock()
 
@@ -49,7 +58,7 @@ def request(url, ocsp_req):
             'User-Agent': USER_AGENT,
         }
     )
-    with urlopen(http_req, timeout=TIMEOUT) as http_res:  # noqa: S310
+    with _opener.open(http_req, timeout=TIMEOUT) as http_res:
         # timeout is per recv, not globally, it can be abused to DOS
         return _read_response(http_res)
 
-- 
2.43.0


From 01505da4f5ab69648e05206a78bba8cd8d68ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 29/30] fix: concurrent connections receiving a same unknown
 extension

Every unknown extension registered a new class when first parsed. Two
threads doing so at once made one of the two connections fail with an
internal error: 'another exist already'.
---
 src/siotls/contents/handshakes/extensions/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index 033f379..b23881c 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -89,6 +89,7 @@ class Extension(Serializable):
                 f'UnkonwnExtension{extension_type}',
                 (UnknownExtension, Extension),
                 {'extension_type': extension_type},
+                register=False,
             )
 
         extension_length = stream.read_int(2)
-- 
2.43.0


From b4b0f9be545293018b9208a4195740149b843736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 30/30] fix: an interruption while processing what was received
 fails the connection

---
 src/siotls/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index b9964ba..809c38a 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -141,7 +141,8 @@ class TLSConnection:
             except alerts.TLSFatalAlert as alert:
                 self._fail(alert)
                 raise
-            except Exception:
+            except BaseException:
+                # interruptions too, what was being processed is lost
                 self._fail(alerts.InternalError())
                 raise
 
-- 
2.43.0

