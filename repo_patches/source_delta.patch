From 6666416fba9f7cd55d598856d7c8ff2390b6515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 01/33] fix: marshal ABORT with its args and kwargs

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 37050a55d9ef19a11776a5536d4542f4afcc3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 02/33] fix: don't accept booleans as integers in messages

---
 wampproto/messages/util.py          | 3 ++-
 wampproto/serializers/serializer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..77d45d8 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -133,7 +133,8 @@ class Fields:
 
 
 def validate_int_or_raise(value: int, index: int, message: str):
-    if not isinstance(value, int):
+    # bool is a subclass of int, but it's not an integer on the wire.
+    if not isinstance(value, int) or isinstance(value, bool):
         return exceptions.InvalidDataTypeError.format(
             message=message, index=index, expected_type=INT, actual_type=type(value).__name__
         )
diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..2efe1e3 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -19,7 +19,7 @@ def to_message(message: list) -> messages.Message:
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
     message_type = message[0]
-    if not isinstance(message_type, int):
+    if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
 
     match message_type:
-- 
2.43.0


From 60f845f94fc10162b0a4811a150b6cdaf5508baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 03/33] fix: refuse an empty array with ValueError

---
 wampproto/serializers/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2efe1e3..26edda7 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,6 +18,9 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message, expected a non-empty list")
+
     message_type = message[0]
     if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
-- 
2.43.0


From 2e00242be8d2a249c5560f34c50800141558d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 04/33] fix: refuse a handshake with any non-zero reserved byte

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From f62ac0ebefe008cdf09029f755166c84d134699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 05/33] fix: refuse message lengths that don't fit the header

---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..dac7cd6 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -51,6 +51,9 @@ class MessageHeader:
         return self._length
 
     def to_bytes(self) -> bytes:
+        if not 0 <= self._length < PROTOCOL_MAX_MSG_SIZE:
+            raise ValueError(f"message length must be between 0 and {PROTOCOL_MAX_MSG_SIZE - 1}, got {self._length}")
+
         data = int_to_bytes(self._length)
         return bytes(
             [
-- 
2.43.0


From 6bdb7a7b4342d28d385eacd276d12410d11c803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 06/33] fix: refuse payloads that are not a list

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..8633f52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 234d59cb9e5ac005b354f286bf0b86f632652914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 07/33] fix: session IDs start at 1 and are not booleans

---
 wampproto/messages/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 77d45d8..9cbe6a7 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -70,12 +70,12 @@ def validate_details_or_raise(details: dict[str, Any], error_msg: str, field: st
 
 
 def validate_session_id_or_raise(session_id: int, error_msg: str, field: str | None = None) -> int:
-    if not isinstance(session_id, int):
+    if not isinstance(session_id, int) or isinstance(session_id, bool):
         raise exceptions.ProtocolError(f"session ID must be an integer for {error_msg}")
 
     # session id values lie between 1 and 2**53
     # https://wamp-proto.org/wamp_bp_latest_ietf.html#section-2.1.2-3
-    if session_id < 0 or session_id > 9007199254740992:
+    if session_id < 1 or session_id > 9007199254740992:
         if field is None:
             field = "Session ID"
         raise exceptions.ProtocolError(f"invalid {field} value for {error_msg}")
-- 
2.43.0


From e88a8d402168491bbf3c8a22e7949f28926b46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/33] fix: an application error without args doesn't expose
 its constructor's

---
 wampproto/exception.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..f4ca083 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,7 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        super().__init__(*(args or ()))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0


From 0ed20dac59a50739889c574eb02de8da0d666a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 09/33] fix: a progressive RESULT or YIELD doesn't end its call
 in a session

---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From a7fa1d5431382b0a9043a2b4a6698d4e2f751e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 10/33] fix: forward binary payloads of calls and their results

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..9bc43d5 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -105,6 +105,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -128,7 +129,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From 8746274113852cbc97cc3871856acd0742860858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 11/33] fix: refuse calls from sessions that haven't joined

---
 wampproto/dealer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 9bc43d5..5024e5d 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -66,6 +66,9 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
+            if session_id not in self.sessions:
+                raise ValueError(f"cannot call, session {session_id} doesn't exist")
+
             registration = self.registrations_by_procedure.get(message.procedure)
             if registration is None:
                 err = messages.Error(
-- 
2.43.0


From b8f4fd98ba78f7dfaf2d4a2fe4603302876fb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 12/33] fix: answering a call whose request ID was reused
 doesn't raise KeyError

---
 wampproto/dealer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 5024e5d..68cb576 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -64,6 +64,13 @@ class Dealer:
         self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
+    def _remove_call(self, invocation_id: int) -> None:
+        pending = self.pending_calls.pop(invocation_id)
+        # a later call of the caller may have taken over the request ID.
+        call = (pending.caller_id, pending.request_id)
+        if self.call_to_invocation_id.get(call) == invocation_id:
+            del self.call_to_invocation_id[call]
+
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
             if session_id not in self.sessions:
@@ -127,8 +134,7 @@ class Dealer:
             if receive_progress and invocation.receive_progress:
                 details.update({OPTION_PROGRESS: receive_progress})
             else:
-                del self.pending_calls[message.request_id]
-                del self.call_to_invocation_id[(invocation.caller_id, invocation.request_id)]
+                self._remove_call(message.request_id)
 
             result = messages.Result(
                 messages.ResultFields(
-- 
2.43.0


From e5a64766b26b1cb3c6bea2147b553fc299c758da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 13/33] fix: only the callee can answer a call with ERROR

---
 wampproto/dealer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 68cb576..aa6b130 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -196,10 +196,15 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id, None)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"received unexpected error from session={session_id}")
+
+            del self.pending_calls[message.request_id]
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 9ffd35bfb59c5463245227a5055558e492b02c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 14/33] fix: an ERROR closes the progressive call it answers

---
 wampproto/dealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index aa6b130..6123073 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -203,7 +203,7 @@ class Dealer:
             if session_id != pending.callee_id:
                 raise ValueError(f"received unexpected error from session={session_id}")
 
-            del self.pending_calls[message.request_id]
+            self._remove_call(message.request_id)
 
             err_msg = messages.Error(
                 messages.ErrorFields(
-- 
2.43.0


From 4d5ef2e6bc5ad86e7f17691c882092bab3dbfa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 15/33] fix: forget the pending calls of a session that left

---
 wampproto/dealer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 6123073..39711da 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,10 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid in (pending.caller_id, pending.callee_id):
+                self._remove_call(invocation_id)
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From 3455ae5fa8ce5f7b194da771ec34507f197b7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 16/33] fix: all parts of a progressive call go to one
 invocation

---
 wampproto/dealer.py | 62 ++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 39711da..9cea441 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -11,6 +11,7 @@ class PendingInvocation:
     request_id: int
     caller_id: int
     callee_id: int
+    registration_id: int
     progress: bool
     receive_progress: bool
 
@@ -63,9 +64,18 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        registration_id: int,
+        progress: bool,
+        receive_progress: bool,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, registration_id, progress, receive_progress
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def _remove_call(self, invocation_id: int) -> None:
@@ -80,28 +90,38 @@ class Dealer:
             if session_id not in self.sessions:
                 raise ValueError(f"cannot call, session {session_id} doesn't exist")
 
-            registration = self.registrations_by_procedure.get(message.procedure)
-            if registration is None:
-                err = messages.Error(
-                    messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
-                )
-                return types.MessageWithRecipient(err, session_id)
-
-            callee_id: int = 0
-            for session in registration.registrants.keys():
-                callee_id = session
-                break
-
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            pending = self.pending_calls.get(invocation_id)
+            if pending is not None and pending.progress:
+                # continues a progressive call, the last part is the one without progress.
+                pending.progress = progress
+                callee_id, registration_id = pending.callee_id, pending.registration_id
             else:
+                registration = self.registrations_by_procedure.get(message.procedure)
+                if registration is None:
+                    err = messages.Error(
+                        messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
+                    )
+                    return types.MessageWithRecipient(err, session_id)
+
+                callee_id: int = 0
+                for session in registration.registrants.keys():
+                    callee_id = session
+                    break
+
+                registration_id = registration.id
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id,
+                    invocation_id,
+                    session_id,
+                    callee_id,
+                    registration_id,
+                    progress,
+                    receive_progress,
+                )
 
             details = {}
             if receive_progress:
@@ -113,7 +133,7 @@ class Dealer:
             invocation = messages.Invocation(
                 messages.InvocationFields(
                     request_id=invocation_id,
-                    registration_id=registration.id,
+                    registration_id=registration_id,
                     args=message.args,
                     kwargs=message.kwargs,
                     details=details,
-- 
2.43.0


From b19f0b42497619e15ce9a119f3885a3a35286e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 17/33] fix: refuse a cryptosign HELLO without a public key
 with ValueError

---
 wampproto/acceptor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..40191f1 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -98,8 +98,8 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
-                    if public_key is None:
+                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
+                    if not isinstance(public_key, str):
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
                     request = auth.CryptoSignRequest(msg.realm, msg.authid, msg.authextra, public_key)
-- 
2.43.0


From 96f574fb15a0f7f985fa0ae68d7dd768fe3953e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 18/33] fix: accept a cryptosign signature only for the
 challenge that was sent

---
 wampproto/acceptor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 40191f1..f03d595 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -112,6 +112,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -145,7 +146,11 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    # the first 128 characters are the signature itself, what it signs follows.
+                    is_for_challenge = msg.signature[128:] == self._challenge
+                    if not is_for_challenge or not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key)
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
-- 
2.43.0


From 3b57422ca90678513ad7e27625081a45aef1b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 19/33] fix: a malformed cryptosign signature doesn't verify
 instead of raising

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..42418ce 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,7 @@ def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     return True
-- 
2.43.0


From bd86abf998f2aac7579f0e97d92c2ba26bf226e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 20/33] fix: a non-ASCII WAMP-CRA signature doesn't verify
 instead of raising

---
 wampproto/auth/wampcra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..8ffe322 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -76,7 +76,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 68f8efa843c15e9e7cde33355179c8e209a76b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 21/33] fix: a handshake refused by the authenticator is
 aborted

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index f03d595..ff586b2 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -120,6 +122,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -192,6 +195,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From 6a7262880733f657543253bb45eeb8a9c973235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 22/33] fix: the acceptor refuses messages that are not part of
 a handshake

---
 wampproto/acceptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index ff586b2..4c48572 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -211,6 +211,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unexpected message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From a95b47606add092ca5305417f800337cc26c5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 23/33] fix: an ABORT received by the acceptor has no answer

---
 wampproto/acceptor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 4c48572..c554668 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -44,9 +44,12 @@ class Acceptor:
         self._challenge: str = None
         self._secret: str = None
 
-    def receive(self, data: bytes) -> (bytes, bool):
+    def receive(self, data: bytes) -> (bytes | None, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            # received an ABORT, there is nothing to send.
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
-- 
2.43.0


From e2f5078e2ee548613040047d64a3028fa9632b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 24/33] fix: characters outside of base64 make a WAMP-CRA
 signature invalid

---
 wampproto/auth/wampcra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 8ffe322..ba0c45d 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -74,7 +74,7 @@ def sign_wampcra_challenge(challenge: str, key: bytes) -> str:
 
 def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool:
     try:
-        sig_bytes = base64.b64decode(signature)
+        sig_bytes = base64.b64decode(signature, validate=True)
         local_signature = sign_wampcra_challenge(challenge, key)
     except ValueError:
         return False
-- 
2.43.0


From 4058053a3b76c9031888f4d962deb02aad54defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 25/33] fix: endless recursion in WAMPCRASaltedResponse.salt

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From c0e846f72cffdc5be4c2e74a994191a017114233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 26/33] fix: send salt, iterations and keylen in a salted
 WAMP-CRA challenge

---
 wampproto/acceptor.py      | 8 +++++++-
 wampproto/auth/__init__.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index c554668..5d2bf93 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -140,7 +140,13 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        extra["salt"] = response.salt
+                        extra["iterations"] = response.iterations
+                        extra["keylen"] = response.keylen
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
-- 
2.43.0


From dba37570e23ef2fadca23f0ca41b9ed34c17e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 27/33] fix: a message that can't be serialized doesn't change
 the session

---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..41308e6 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # serialize first, a message that can't be sent must not change the state.
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +50,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From ac98d5b181a99c348f44321baed90242d41590ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 28/33] fix: a client whose join was aborted can't be joined
 anymore

---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 9f640d5633d3ce0cd41ff69cab6c806ec7ef5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 29/33] fix: make authentication challenges unpredictable

---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 42418ce..b373ff1 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index ba0c45d..135a06f 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From 2fd601a51ac507a03c615357ca896fe48b2e878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 30/33] fix: CryptoSignAuthenticator doesn't change the
 caller's auth_extra

---
 wampproto/auth/cryptosign.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index b373ff1..9f4b468 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -13,6 +13,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
     TYPE = "cryptosign"
 
     def __init__(self, authid: str, private_key: str, auth_extra: dict | None = None):
+        auth_extra = dict(auth_extra) if auth_extra is not None else None
         super().__init__(CryptoSignAuthenticator.TYPE, authid, auth_extra)
         self._private_key = nacl.signing.SigningKey(binascii.a2b_hex(private_key))
 
-- 
2.43.0


From 52d77f159ed16e623b5e686d60fb6fdabea63a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 31/33] fix: declaring a payload serializer doesn't change the
 given options

---
 wampproto/messages/call.py       | 2 +-
 wampproto/messages/invocation.py | 2 +-
 wampproto/messages/result.py     | 2 +-
 wampproto/messages/yield_.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..8eab000 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,7 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..c4949bf 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,7 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..7b117ff 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,7 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..3ac20e9 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,7 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From ebb554e5b2eeb998837edffc3247d300357b690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 32/33] fix: acceptors don't share the default roles

---
 wampproto/acceptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 5d2bf93..369b9e5 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -1,4 +1,5 @@
 import binascii
+import copy
 
 from wampproto import messages, auth, serializers, uris
 from wampproto.idgen import generate_session_id
@@ -30,7 +31,7 @@ class Acceptor:
     ):
         self._serializer = serializer
         self._authenticator = authenticator
-        self._roles = roles if roles is not None else ROUTER_ROLES
+        self._roles = roles if roles is not None else copy.deepcopy(ROUTER_ROLES)
 
         self._state = Acceptor.STATE_NONE
         self._session_id = generate_session_id()
-- 
2.43.0


From ac164ff77d7574600b4082f9d0502decdc4092c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 33/33] fix: a HELLO that cannot be serialized no longer counts
 as sent

---
 wampproto/joiner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index a10ca28..45b803d 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -47,8 +47,10 @@ class Joiner:
             )
         )
 
+        # serialize first, a HELLO that can't be sent must not change the state.
+        data = self._serializer.serialize(hello)
         self._state = Joiner.STATE_HELLO_SENT
-        return self._serializer.serialize(hello)
+        return data
 
     def receive(self, data: bytes) -> Optional[bytes]:
         received_message = self._serializer.deserialize(data)
-- 
2.43.0

