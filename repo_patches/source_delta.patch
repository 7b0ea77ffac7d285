From e7ab4664b8b9f6fd393ffa82ef7f3da3ec45238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 01/48] fix: a malformed RPC message no longer stops the server

A message with the wrong number of frames, a non-integer request id or
undecodable text raised out of _read_one() and ended the server loop (or the
Qt poller thread). There is no request to answer in such a message; log it
and go on.
---
 teleprox/qt_poll_thread.py |  3 ++-
 teleprox/server.py         | 30 +++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 80095a1..6dc10bc 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -58,7 +58,8 @@ class QtPollThread(qt.QThread):
             if self.rpc_socket in socks:
                 name, msg = RPCServer._read_one(self.rpc_socket)
                 #logger.debug("poller recv %s %s", name, msg)
-                self.new_request.emit(name, msg)
+                if msg is not None:
+                    self.new_request.emit(name, msg)
 
         #logger.error("poller exit.")
         
diff --git a/teleprox/server.py b/teleprox/server.py
index 1fce84d..bd4afa6 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -237,16 +237,22 @@ class RPCServer(object):
         
     @staticmethod
     def _read_one(socket):
+        # Return (caller, msg), or (None, None) if the message is malformed (in
+        # that case there is no request to answer).
         parts = socket.recv_multipart()
-        name, req_id, action, return_type, ser_type, opts = parts
-
-        msg = {
-            'req_id': int(req_id), 
-            'action': action.decode(), 
-            'return_type': return_type.decode(),
-            'ser_type': ser_type.decode(),
-            'opts': opts,
-        }
+        try:
+            name, req_id, action, return_type, ser_type, opts = parts
+
+            msg = {
+                'req_id': int(req_id), 
+                'action': action.decode(), 
+                'return_type': return_type.decode(),
+                'ser_type': ser_type.decode(),
+                'opts': opts,
+            }
+        except ValueError:
+            logger.warning("RPC ignoring malformed message: %r", parts)
+            return None, None
         return name, msg
         
     def _read_and_process_one(self):
@@ -257,7 +263,8 @@ class RPCServer(object):
             raise RuntimeError("RPC server socket is already closed.")
             
         name, msg = self._read_one(self._socket)
-        self._process_one(name, msg)
+        if msg is not None:
+            self._process_one(name, msg)
         
     def _process_one(self, caller, msg):
         """
@@ -451,7 +458,8 @@ class RPCServer(object):
         RPCServer.register_server(self)
         while self.running():
             name, msg = self._read_one(self._socket)
-            self._process_one(name, msg)
+            if msg is not None:
+                self._process_one(name, msg)
 
     def run_in_thread(self):
         """Call run_forever in a new thread.
-- 
2.43.0


From 646134c29c1f05c477d489e99ef63879830cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 02/48] fix: a request with an unsupported serializer no longer
 stops the server

The caller was recorded with the unsupported serializer before it was checked,
so sending the error back (and later the disconnect message on close) raised
KeyError out of the server loop.
---
 teleprox/server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index bd4afa6..5f41506 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -279,7 +279,8 @@ class RPCServer(object):
         return_type = msg.get('return_type', 'auto')
         
         # remember this caller so we can deliver a disconnect message later
-        self._clients[caller] = ser_type
+        if ser_type in self._serializers:
+            self._clients[caller] = ser_type
         
         # Attempt to read message and invoke requested action
         try:
@@ -342,8 +343,9 @@ class RPCServer(object):
         logger.info("RPC send result to %s [rpc_id=%s]", caller.decode(), result['req_id'])
         logger.debug("    => %s", result)
         
-        # Select the correct serializer for this client
-        serializer = self._serializers[self._clients[caller]]
+        # Select the correct serializer for this client (json is always available 
+        # for clients that ask for a serializer we do not have)
+        serializer = self._serializers[self._clients.get(caller, 'json')]
         
         # Serialize and return the result
         data = serializer.dumps(result, server=self, serialize_types=self.serialize_types)
-- 
2.43.0


From 1b257f5823c1c6c223aa1f0645ecfe45fb8db487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 03/48] fix: answer clients whose identity is not UTF-8 text

Decoding such an identity for a log message raised out of the server loop.
(zmq assigns a binary identity to every client that does not set its own.)
---
 teleprox/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 5f41506..94416b6 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -290,7 +290,7 @@ class RPCServer(object):
                 raise ValueError("Unsupported serializer '%s'" % ser_type)
             opts = msg.pop('opts', None)
             
-            logger.debug("RPC recv '%s' from %s [req_id=%s]", action, caller.decode(), req_id)
+            logger.debug("RPC recv '%s' from %s [req_id=%s]", action, caller.decode(errors='replace'), req_id)
             logger.debug("    => %s", msg)
             if opts == b'':
                 opts = None
@@ -331,7 +331,7 @@ class RPCServer(object):
             self._final_close()
     
     def _send_error(self, caller, req_id, exc):
-        exc_str = ["Error while processing request %s [%d]: " % (caller.decode(), req_id)]
+        exc_str = ["Error while processing request %s [%d]: " % (caller.decode(errors='replace'), req_id)]
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
@@ -340,7 +340,7 @@ class RPCServer(object):
     def _send_result(self, caller, req_id, rval=None, error=None):
         result = {'action': 'return', 'req_id': req_id,
                   'rval': rval, 'error': error}
-        logger.info("RPC send result to %s [rpc_id=%s]", caller.decode(), result['req_id'])
+        logger.info("RPC send result to %s [rpc_id=%s]", caller.decode(errors='replace'), result['req_id'])
         logger.debug("    => %s", result)
         
         # Select the correct serializer for this client (json is always available 
-- 
2.43.0


From d6c8973202f612a4fe5ffa686fbc05574c665f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 04/48] fix: a result or error that cannot be sent no longer
 stops the server

Making the proxy for a result was not covered by the handler that turns a
failure to send into an error response, and an error text containing
surrogates (e.g. a file name in an OSError) could not be serialized.
---
 teleprox/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 94416b6..32364cd 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -307,12 +307,12 @@ class RPCServer(object):
         if req_id >= 0:
             if exc is None:
                 #print "returnValue:", returnValue, result
-                if return_type == 'auto':
-                    result = self.auto_proxy(result, self.serialize_types)
-                elif return_type == 'proxy':
-                    result = self.get_proxy(result)
-                
                 try:
+                    if return_type == 'auto':
+                        result = self.auto_proxy(result, self.serialize_types)
+                    elif return_type == 'proxy':
+                        result = self.get_proxy(result)
+
                     self._send_result(caller, req_id, rval=result)
                 except:
                     logger.warning("    => Failed to send result for %d", req_id) 
@@ -335,6 +335,8 @@ class RPCServer(object):
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
+        # exception messages may contain surrogates, which cannot be serialized
+        exc_str = [line.encode(errors='backslashreplace').decode() for line in exc_str]
         self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))
     
     def _send_result(self, caller, req_id, rval=None, error=None):
-- 
2.43.0


From ec97c4e749ab5a4256790bf5d965198393e4005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 05/48] fix: an exception hook that raises no longer stops the
 server

When a request without reply fails, the exception is passed to sys.excepthook,
which the application may have replaced by one that raises.
---
 teleprox/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 32364cd..bd8f9a5 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -325,7 +325,11 @@ class RPCServer(object):
         elif exc is not None:
             # An exception occurred, but client did not request a response.
             # Instead we will dump the exception here.
-            sys.excepthook(*exc)
+            try:
+                sys.excepthook(*exc)
+            except:
+                # the application may have installed a hook that can raise
+                logger.warning("sys.excepthook raised an exception", exc_info=True)
             
         if action == 'close':
             self._final_close()
-- 
2.43.0


From c4a050b1b6a4473d467c9645d4a2230d600d5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 06/48] fix: a lazy server refuses to read requests after it
 was closed

The check tested the bound method running instead of calling it, so it never
fired.
---
 teleprox/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index bd8f9a5..8bf70a6 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -259,7 +259,7 @@ class RPCServer(object):
         """Read one message from the rpc socket and invoke the requested
         action.
         """
-        if not self.running:
+        if self._closed is True:
             raise RuntimeError("RPC server socket is already closed.")
             
         name, msg = self._read_one(self._socket)
-- 
2.43.0


From fcc6efdb950033ad748936612f64cbcf7d043d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 07/48] fix: a close request that fails no longer closes the
 server's socket

If the options of a close request could not be decoded, an error was returned
and the server still considered itself running, but its socket was closed and
the server loop ended with an exception.
---
 teleprox/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 8bf70a6..891a9ef 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -331,7 +331,7 @@ class RPCServer(object):
                 # the application may have installed a hook that can raise
                 logger.warning("sys.excepthook raised an exception", exc_info=True)
             
-        if action == 'close':
+        if action == 'close' and self._closed is True:
             self._final_close()
     
     def _send_error(self, caller, req_id, exc):
-- 
2.43.0


From 707621d77b51afb2d7c62ebb4709e5c4d38f9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 08/48] fix: a Qt server no longer executes requests after it
 was closed

---
 teleprox/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 891a9ef..aeb6114 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -273,6 +273,11 @@ class RPCServer(object):
         This method sends back to the client either the return value or an
         error message.
         """
+        if self._closed is True:
+            # The server was closed while this message was waiting to be processed
+            # (its caller has been told about that).
+            return
+        
         ser_type = msg['ser_type']
         action = msg['action']
         req_id = msg['req_id']
-- 
2.43.0


From 7889c75afbd993609e7f6780057b0f784f3fc309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 09/48] fix: unwrapping a released proxy reports it without
 contacting the server

Building the error message requested the remote attribute 'obj_id' from the
proxy instead of using its object id.
---
 teleprox/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index aeb6114..e32eb91 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -221,7 +221,7 @@ class RPCServer(object):
             obj = self._proxy_refs[oid][0]
         except KeyError:
             raise KeyError("Invalid proxy object ID %r. The object may have "
-                           "been released already." % proxy.obj_id)
+                           "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
             obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
-- 
2.43.0


From 42419c486712a9a6df4bdd2e93412431e40708c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 10/48] fix: reflected xor on a proxy invoked __ror__ instead
 of __rxor__

---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index f448af1..235f048 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -507,7 +507,7 @@ class ObjectProxy(object):
         return self._deferred_attr('__ror__')(*args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._deferred_attr('__rxor__')(*args)
         
     def __rmod__(self, *args):
         return self._deferred_attr('__rmod__')(*args)
-- 
2.43.0


From 86b85552183479f7b38994d97ed2b3b7bd9cc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 11/48] fix: proxies to different attributes of one object are
 not equal

Local comparison ignored the attribute path, so that obj.a == obj.b was True
without asking the server (and equal proxies had different hashes).
---
 teleprox/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 235f048..5bb5d76 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -433,7 +433,8 @@ class ObjectProxy(object):
         # we can immediately return True.
         if (isinstance(args[0], ObjectProxy) and 
             args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id):
+            args[0]._obj_id == self._obj_id and
+            args[0]._attributes == self._attributes):
             return True
         return self._deferred_attr('__eq__')(*args)
     
-- 
2.43.0


From 4fc480d18e3264e5914d71da082f03e1d5afad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 12/48] fix: copying a proxy to an attribute made remote calls
 instead

_copy() called copy() on the remote object and set the remote attribute
_parent_proxy, because both go through the proxy's attribute forwarding.
---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 5bb5d76..7512563 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -143,7 +143,7 @@ class ObjectProxy(object):
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
                            self._attributes, **self._proxy_options)
         if self._parent_proxy is not None:
-            prox._parent_proxy = self._parent_proxy.copy()
+            prox.__dict__['_parent_proxy'] = self._parent_proxy._copy()
         return prox
 
     def _client(self):
-- 
2.43.0


From ef5f099aacb62bb53113cdc99f3d6a18ba5d68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 13/48] fix: temporary attribute proxies no longer release
 their parent's reference

Attribute proxies and copies share the reference of the proxy they are made
from, but inherited its auto_delete option and released it when collected.
---
 teleprox/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 7512563..057c007 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -142,6 +142,8 @@ class ObjectProxy(object):
         # ObjectProxy should only be used in one thread.
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
                            self._attributes, **self._proxy_options)
+        # only the original proxy may release the reference
+        prox._set_proxy_options(auto_delete=False)
         if self._parent_proxy is not None:
             prox.__dict__['_parent_proxy'] = self._parent_proxy._copy()
         return prox
@@ -291,6 +293,7 @@ class ObjectProxy(object):
         is deferred.
         """
         opts = self._proxy_options.copy()
+        opts['auto_delete'] = False  # only the parent may release the reference
         opts.update(kwds)
         proxy = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, 
                             self._type_str, self._attributes + (attr,), **opts)
-- 
2.43.0


From faedac3b75a39377d438ad7ac21f6f540f8d38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 14/48] fix: forward in-place modulo to the remote object

Every other arithmetic operator forwards its in-place form.
---
 teleprox/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 057c007..a65fd26 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -477,6 +477,9 @@ class ObjectProxy(object):
     def __mod__(self, *args):
         return self._deferred_attr('__mod__')(*args)
         
+    def __imod__(self, *args):
+        return self._deferred_attr('__imod__')(*args)
+        
     def __radd__(self, *args):
         return self._deferred_attr('__radd__')(*args)
     
-- 
2.43.0


From 2eb13978a9ecc04dfa288088a295eefbb8b065a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 15/48] fix: RPCClient.call_obj() failed when args or kwargs
 were omitted

The server expects a tuple and a dict, but None was sent for omitted arguments.
---
 teleprox/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 87d1f16..2124091 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -332,7 +332,7 @@ class RPCClient(object):
         kwds :
             All extra keyword arguments are passed to :func:`send() <RPCClient.send>`.
         """
-        opts = {'obj': obj, 'args': args, 'kwargs': kwargs} 
+        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} 
         return self.send('call_obj', opts=opts, **kwds)
 
     def get_obj(self, obj, **kwds):
-- 
2.43.0


From 547398e8e34b7a446b6690f08c18187cd4a4a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 16/48] fix: reject an invalid sync mode before sending the
 request

---
 teleprox/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 2124091..77b5518 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -284,6 +284,9 @@ class RPCClient(object):
         if self._disconnected:
             raise RuntimeError("Cannot send request; server has already disconnected.")
         
+        if sync not in ('sync', 'async', 'off'):
+            raise ValueError('Invalid sync value: %s' % sync)
+        
         if sync == 'off':
             req_id = -1
         else:
@@ -313,10 +316,8 @@ class RPCClient(object):
         
         if sync == 'async':
             return fut
-        elif sync == 'sync':
-            return fut.result(timeout=timeout)
         else:
-            raise ValueError('Invalid sync value: %s' % sync)
+            return fut.result(timeout=timeout)
 
     def call_obj(self, obj, args=None, kwargs=None, **kwds):
         """Invoke a remote callable object.
-- 
2.43.0


From 754b9085fb5144b815d6a9eba3b4d1d0223c8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 17/48] fix: clients of same-named processes or threads no
 longer share an identity

The server's socket ignores a second connection with an identity it already
knows, so the second client could not connect.
---
 teleprox/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 77b5518..35c8389 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -6,6 +6,7 @@ import re
 import socket
 import sys
 import time
+import uuid
 import weakref
 import concurrent.futures
 import threading
@@ -100,9 +101,11 @@ class RPCClient(object):
         if isinstance(address, str):
             address = address.encode()
 
-        # pick a unique name: host.pid.tid:rpc_addr
-        self.name = ("%s.%s.%s:%s" % (log.get_host_name(), log.get_process_name(),
-                                      log.get_thread_name(), address.decode())).encode()
+        # pick a unique name: host.process.thread:rpc_addr:uuid
+        # (zmq limits the length to 255 bytes)
+        self.name = ("%s.%s.%s:%s:%s" % (log.get_host_name(), log.get_process_name(),
+                                         log.get_thread_name(), address.decode(),
+                                         uuid.uuid4().hex)).encode()[-255:]
         
         self.serialize_types = serialize_types
 
-- 
2.43.0


From b61c7f86db45268ee802b0fcef398f64f1f51d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 18/48] fix: forgetting a client removes that client only

Closing a client from another thread left it in the registry, or removed the
other thread's client for the same address.
---
 teleprox/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 35c8389..33c86b2 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -93,9 +93,9 @@ class RPCClient(object):
     def forget_client(client):
         """Forget a client that is no longer needed.
         """
-        key = (threading.current_thread().ident, client.address)
         with RPCClient.clients_by_thread_lock:
-            RPCClient.clients_by_thread.pop(key, None)
+            if RPCClient.clients_by_thread.get(client._key, None) is client:
+                RPCClient.clients_by_thread.pop(client._key)
     
     def __init__(self, address, reentrant=True, start_local_server=False, serializer='msgpack', serialize_types=None):
         if isinstance(address, str):
@@ -120,6 +120,7 @@ class RPCClient(object):
             self._local_server = None
 
         key = (threading.current_thread().ident, address)
+        self._key = key
         with RPCClient.clients_by_thread_lock:
             if key in RPCClient.clients_by_thread:
                 raise KeyError("An RPCClient instance already exists for this address."
-- 
2.43.0


From 5254eb390974665f2b0e714ea74837da351b263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 19/48] fix: a client that could not be constructed leaves
 nothing behind

Its socket stayed open, the local server it had started stayed registered in
the thread, and it was removed from the registry without holding the lock.
---
 teleprox/client.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 33c86b2..e360c18 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -113,11 +113,8 @@ class RPCClient(object):
             logger.warning(f"RPC server address {address} is likely to cause trouble on windows")
         self.address = address
 
-        if start_local_server and RPCServer.get_server() is None:
-            self._local_server = RPCServer(serialize_types=serialize_types)
-            self._local_server.run_lazy()
-        else:
-            self._local_server = None
+        self._socket = None
+        self._local_server = None
 
         key = (threading.current_thread().ident, address)
         self._key = key
@@ -170,8 +167,14 @@ class RPCClient(object):
                 raise ValueError("Unsupported serializer type '%s'" % serializer)
             
             self.ensure_connection()
+
+            if start_local_server and RPCServer.get_server() is None:
+                self._local_server = RPCServer(serialize_types=serialize_types)
+                self._local_server.run_lazy()
         except:
-            RPCClient.clients_by_thread.pop(key, None)
+            RPCClient.forget_client(self)
+            if self._socket is not None:
+                self._socket.close()
             raise
 
     @staticmethod
-- 
2.43.0


From f8e7f0724fe6b2060ba976e8b2668ca7523ad4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 20/48] fix: a waiting client serves the server that replaced a
 closed one

The poller was cached together with the socket of the server that ran in the
thread when the client waited for the first time. After that server was closed
the poller kept polling its closed socket, and requests to a new server of the
thread were never processed while waiting.
---
 teleprox/client.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index e360c18..a043b0f 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -145,6 +145,7 @@ class RPCClient(object):
             assert reentrant in (True, False)
             self._reentrant = reentrant
             self._poller = None
+            self._polled_server = None
             
             logger.info("RPC connect to %s", address.decode())
             self._socket.connect(address)
@@ -205,16 +206,17 @@ class RPCClient(object):
         if not self._reentrant:
             return None
         
-        if self._poller is None:
-            server = RPCServer.get_server()
-            if server is None:
-                return None
-            if isinstance(server, QtRPCServer):
-                self._poller = 'qt'
-            else:
-                self._poller = zmq.Poller()
-                self._poller.register(self._socket, zmq.POLLIN)
-                self._poller.register(server._socket, zmq.POLLIN)
+        server = RPCServer.get_server()
+        if server is None:
+            return None
+        if isinstance(server, QtRPCServer):
+            return 'qt'
+        
+        if self._poller is None or self._polled_server is not server:
+            self._poller = zmq.Poller()
+            self._poller.register(self._socket, zmq.POLLIN)
+            self._poller.register(server._socket, zmq.POLLIN)
+            self._polled_server = server
         return self._poller
 
     def disconnected(self):
-- 
2.43.0


From 4a1ec198fbed477b334d69c8ce17ebacbf07f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 21/48] fix: msgpack could not read back dicts whose keys are
 not strings

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 109d2c2..fa57f49 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -256,7 +256,7 @@ class MsgpackSerializer(Serializer):
         #return msgpack.loads(msg, encoding='utf8', use_list=False, object_hook=self.decode)
 
         #Return lists/tuples as lists because json can't be configured otherwise
-        return msgpack.loads(msg, object_hook=self.decode)
+        return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
-- 
2.43.0


From a0315716eecc74fb53cf4103dd15ee6398740697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 22/48] fix: datetimes lost their UTC offset in transit

---
 teleprox/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index fa57f49..1446bf3 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -119,7 +119,7 @@ class Serializer:
             return ser
         elif isinstance(obj, datetime.datetime):
             return {encode_key: 'datetime',
-                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
                     'data': obj.strftime('%Y-%m-%d')}
@@ -175,7 +175,7 @@ class Serializer:
             elif type_name == 'np_number':
                 return dct['dtype'].type(dct['value'])
             elif type_name == 'datetime':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%dT%H:%M:%S.%f')
+                return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
                 return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
             elif type_name == 'tuple':
-- 
2.43.0


From a81d026fe0ddbeba264f2befe406f87e6a139b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 23/48] fix: dates before the year 1000 could not be read back

strftime('%Y') does not pad the year, which strptime() requires.
---
 teleprox/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 1446bf3..2e93ecd 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -122,7 +122,7 @@ class Serializer:
                     'data': obj.isoformat()}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
-                    'data': obj.strftime('%Y-%m-%d')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, tuple):
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
@@ -177,7 +177,7 @@ class Serializer:
             elif type_name == 'datetime':
                 return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
+                return datetime.date.fromisoformat(dct['data'])
             elif type_name == 'tuple':
                 return tuple(dct['data'])
             elif type_name == 'none':
-- 
2.43.0


From f9c949b0be132104470b9db848cc225561a04b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 24/48] fix: numpy scalars that Python numbers cannot represent

Complex scalars raised TypeError, timedeltas lost their unit and long doubles
their precision. Also describe the dtype of other scalars by name, as is done
for arrays, so that they can be sent when np.dtype itself is not among the
types allowed for serialization.
---
 teleprox/serializer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 2e93ecd..1749e0b 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -127,7 +127,9 @@ class Serializer:
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
             return {encode_key: 'none'}
-        elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)):
+        elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)) and not isinstance(
+                # these do not have a python equivalent that can be serialized
+                obj, (np.complexfloating, np.timedelta64, np.longdouble)):
             if isinstance(obj, np.bool_):
                 val = bool(obj)
             elif isinstance(obj, np.integer):
@@ -139,7 +141,7 @@ class Serializer:
 
             return {
                 encode_key: 'np_number',
-                'dtype': obj.dtype,
+                'dtype': str(obj.dtype),
                 'value': val
             }
         else:
@@ -173,7 +175,7 @@ class Serializer:
             elif type_name == 'pickle':
                 return pickle.loads(dct['pickle_str'])
             elif type_name == 'np_number':
-                return dct['dtype'].type(dct['value'])
+                return np.dtype(dct['dtype']).type(dct['value'])
             elif type_name == 'datetime':
                 return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-- 
2.43.0


From f59498dbacb9c5a7d1fb1c8169e7937a4c47a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 25/48] fix: structured and datetime arrays could not be
 transferred

JSON could not encode datetime64 arrays nor read back structured dtypes, and
neither serializer could read back structured dtypes with explicit offsets.
---
 teleprox/serializer.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 1749e0b..ff80c1c 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -166,7 +166,7 @@ class Serializer:
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
                 dt = dct['dtype']
-                if dt.startswith('['):
+                if dt.startswith(('[', '{')):
                     #small hack to have a list
                     d = {}
                     exec('dtype='+dt, None, d)
@@ -299,7 +299,7 @@ class JsonSerializer(Serializer):
                 obj = np.ascontiguousarray(obj)
             assert(obj.flags['C_CONTIGUOUS'])
             return {encode_key: 'ndarray',
-                    'data': base64.b64encode(obj.data).decode(),
+                    'data': base64.b64encode(obj.tobytes()).decode(),
                     'dtype': str(obj.dtype),
                     'shape': obj.shape}
         elif isinstance(obj, bytes):
@@ -314,10 +314,7 @@ class JsonSerializer(Serializer):
         if isinstance(dct, dict):
             type_name = dct.get(encode_key, None)
             if type_name == 'ndarray':
-                if not HAVE_NUMPY:
-                    raise ImportError("numpy is required to deserialize ndarray.")
-                data = base64.b64decode(dct['data'])
-                return np.frombuffer(data, dct['dtype']).reshape(dct['shape'])
+                dct['data'] = base64.b64decode(dct['data'])
             elif type_name == 'bytes':
                 return base64.b64decode(dct['data'])
             
-- 
2.43.0


From add977d1691efc64cff5d8e2ab2faf953dc9022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 26/48] fix: the JSON serializer sent excluded arrays and bytes
 by value

Arrays and bytes were encoded before looking at the types allowed for
serialization. Base64 encoding is now applied to what the base class encodes.
---
 teleprox/serializer.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index ff80c1c..08ad7b2 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -293,22 +293,23 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
-            # JSON doesn't support bytes, so we use base64 encoding instead:
-            if not obj.flags['C_CONTIGUOUS']:
-                obj = np.ascontiguousarray(obj)
-            assert(obj.flags['C_CONTIGUOUS'])
-            return {encode_key: 'ndarray',
-                    'data': base64.b64encode(obj.tobytes()).decode(),
-                    'dtype': str(obj.dtype),
-                    'shape': obj.shape}
-        elif isinstance(obj, bytes):
-            return {encode_key: 'bytes',
-                    'data': base64.b64encode(obj).decode()}
-        elif obj is None:
+        if obj is None:
             # JSON does support None/null:
             return None
-        return Serializer.encode(self, obj)
+        elif isinstance(obj, bytes) and isinstance(obj, self._serialize_types):
+            return self._encode_bytes(obj)
+        
+        # JSON doesn't support bytes, so we use base64 encoding instead:
+        dct = Serializer.encode(self, obj)
+        if dct[encode_key] == 'ndarray':
+            dct['data'] = base64.b64encode(dct['data']).decode()
+        elif dct[encode_key] == 'pickle':
+            dct['pickle_str'] = self._encode_bytes(dct['pickle_str'])
+        return dct
+
+    def _encode_bytes(self, data):
+        return {encode_key: 'bytes',
+                'data': base64.b64encode(data).decode()}
 
     def decode(self, dct):
         if isinstance(dct, dict):
-- 
2.43.0


From 8cc158270599d61165c7c690a641ee2ebbef9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 27/48] fix: close_all() unlinks only the shared memory that
 asked for it

It tested the bound method SharedMemory.close, which is always true, instead of
the close flag of the array, and so closed and unlinked memory that was merely
attached by an array received from another process.
---
 teleprox/shmem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fde3480..adea550 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,7 +43,7 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
-        all_shmem.append(shmem)
+        all_shmem.append(self)
 
     @classmethod
     def zeros(cls, shape, dtype, close=True):
@@ -72,11 +72,11 @@ class SharedNDArray:
 
 def close_all():
     global all_shmem
-    for shmem in all_shmem:
-        if shmem.close:
-            shmem.close()
+    for arr in all_shmem:
+        if arr.close:
+            arr.shmem.close()
             try:
-                shmem.unlink()
+                arr.shmem.unlink()
             except FileNotFoundError:
                 pass
     all_shmem = []
-- 
2.43.0


From 1d13fb14655bf448707a962d21a65d18e68513ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 28/48] fix: zero-dimensional shared arrays could not be
 created

---
 teleprox/shmem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index adea550..8adf9e3 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -48,7 +48,7 @@ class SharedNDArray:
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
-        shmem = mp_shm.SharedMemory(create=True, size=np.prod(shape) * np.dtype(dtype).itemsize)
+        shmem = mp_shm.SharedMemory(create=True, size=int(np.prod(shape)) * np.dtype(dtype).itemsize)
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
         data.fill(0)
         return cls(shmem, data, close)
@@ -58,7 +58,7 @@ class SharedNDArray:
         """Create a SharedNDArray containing a copy of the given array."""
         shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)
         data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
-        data[:] = arr[:]
+        data[...] = arr
         return cls(shmem, data, close)
         
     def __reduce__(self):
-- 
2.43.0


From 8fb806f4d5fc8c8504be21584d0c85eec01e5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 29/48] fix: kill_procs() kills the processes it was asked for

It ignored its argument and searched for PROCESS_NAME_PREFIX, which is empty
by default and so matches every process. An empty search is now refused.
---
 teleprox/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 257ef56..335c2a3 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -66,11 +66,13 @@ def kill_procs(search, wait=5):
 
     return (pid, command) for each killed process
     """
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)    
+    if search == '':
+        raise ValueError("search string must not be empty (it would match every process)")
+    procs = find_procs(search)    
     if not procs:
         return []
     time.sleep(wait)  # wait a little longer for cleanup..
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)
+    procs = find_procs(search)
     if not procs:
         return []
     for pid, line in procs:
-- 
2.43.0


From 63d5813d0024564c071b21c6123edd9cf2de0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 30/48] fix: restarting a timer

A timer that had stopped or reached its limit could not be started again (a
thread can only be started once), a start while the thread was exiting was
lost, and one at the wrong moment ended the thread with a TypeError because the
time of the last call was read without the lock. A limit of 0 allowed one call.
---
 teleprox/timer.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 501396a..1471234 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -24,7 +24,8 @@ class Timer(object):
         Whether to immediately start the timer.
     """
     def __init__(self, callback, interval, limit=None, start=False):
-        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread = None
+        self.running = False
         self.callback = callback
         self.interval = float(interval)
         self.limit = limit
@@ -45,11 +46,11 @@ class Timer(object):
             self.running = True
             self._last_call_time = None
             self._call_count = 0
-        
-        if self.thread.is_alive():
-            return
-        else:
-            self.thread.start()
+            
+            # (the thread resets self.thread before it exits)
+            if self.thread is None:
+                self.thread = threading.Thread(target=self._run, daemon=True)
+                self.thread.start()
         
     def stop(self):
         """Stop the timer.
@@ -65,25 +66,31 @@ class Timer(object):
                 callback = callback._copy()
             
             while True:
-                if self._last_call_time is None:
+                with self._lock:
+                    if self.limit is not None and self._call_count >= self.limit:
+                        self.running = False
+                        self.thread = None
+                        return
+                    last_call_time = self._last_call_time
+                    
+                if last_call_time is None:
                     sleep_time = 0
                 else:
-                    sleep_time = self.interval - (time.perf_counter() - self._last_call_time)
+                    sleep_time = self.interval - (time.perf_counter() - last_call_time)
                 
                 if sleep_time > 0:
                     time.sleep(sleep_time)
                     
                 with self._lock:
                     if not self.running:
+                        self.thread = None
                         return
                     self._last_call_time = time.perf_counter()
+                    self._call_count += 1
                     
                 callback()
-                
-                with self._lock:
-                    self._call_count += 1
-                    if self.limit is not None and self._call_count >= self.limit:
-                        return
-        finally:
+        except:
             with self._lock:
                 self.running = False
+                self.thread = None
+            raise
-- 
2.43.0


From 761afd414b3476476c7a2e91af55754671923852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 31/48] fix: capture output that is not UTF-8 or does not end
 with a newline

Undecodable bytes ended the capturing thread, and the last character of an
unterminated last line was dropped.
---
 teleprox/log/stdio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4d99c5d..67895da 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -18,10 +18,12 @@ class PipePoller(threading.Thread):
         prefix = self.prefix
         pipe = self.pipe
         while True:
-            line = pipe.readline().decode()
+            # (output may contain anything)
+            line = pipe.readline().decode(errors='backslashreplace')
             if line == '':
                 break
-            callback(prefix + line[:-1])
+            # (the last line may have no newline)
+            callback(prefix + (line[:-1] if line.endswith('\n') else line))
 
 
 class StdioLogSender:
-- 
2.43.0


From 82df8fa2c99bd19d56346442cd1ed976ba2fc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 32/48] fix: LogSender was attached to its logger before it
 could handle records

A record logged by another thread in between raised AttributeError.
---
 teleprox/log/remote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index f486ab5..0083542 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -140,15 +140,16 @@ class LogSender(logging.Handler):
         self.socket = None
         logging.Handler.__init__(self)
         
+        # make thread-safe: handle() may be called from any thread
+        # and log records are passed to the server in a background thread.
+        self.record_queue = queue.Queue()
+
         # attach to logger if requested
         if isinstance(logger, str):
             logger = logging.getLogger(logger)
         if logger is not None:
             logger.addHandler(self)
 
-        # make thread-safe: handle() may be called from any thread
-        # and log records are passed to the server in a background thread.
-        self.record_queue = queue.Queue()
         self.thread = threading.Thread(target=self.run, daemon=True)
         self.thread.start()
 
-- 
2.43.0


From 329bfdb87b31a67c0491bdd050a5662c58e3834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 33/48] fix: forward log records whatever they contain

A record with exception information, with arguments that do not match its
message, whose message is not a string or with an extra attribute that is not
JSON serializable ended the sender's thread, and no record was forwarded after
it.
---
 teleprox/log/remote.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 0083542..9e0d9f9 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -167,7 +167,11 @@ class LogSender(logging.Handler):
             record = self.record_queue.get()
             if record is None:
                 break
-            self._handle(record)
+            try:
+                self._handle(record)
+            except Exception:
+                # keep this thread alive
+                self.handleError(record)
 
     def _handle(self, record):
         global host_name, process_name, thread_names
@@ -175,13 +179,32 @@ class LogSender(logging.Handler):
             return
         rec = record.__dict__.copy()
         args = rec.pop('args')
-        if len(args) > 0:
-            rec['msg'] = rec['msg'] % args
+        try:
+            rec['msg'] = record.getMessage()
+        except Exception:
+            rec['msg'] = '%s (could not be formatted with args: %s)' % (
+                self._describe(record.msg), self._describe(args))
+        exc_info = rec.pop('exc_info')
+        if exc_info and not rec['exc_text']:
+            rec['exc_text'] = logging.Formatter().formatException(exc_info)
         if process_name is not None:
             rec['process_name'] = process_name
         rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
+        # send a description of any (extra) attributes that cannot be serialized
+        for key, value in rec.items():
+            try:
+                json.dumps(value)
+            except Exception:
+                rec[key] = self._describe(value)
         self.socket.send(json.dumps(rec).encode('utf-8'))
+
+    @staticmethod
+    def _describe(obj):
+        try:
+            return repr(obj)
+        except Exception:
+            return object.__repr__(obj)
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
-- 
2.43.0


From 5826dc52a608e650fc410519150f5ec0bcd3e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 34/48] fix: a malformed message or failing handler no longer
 ends the LogServer

---
 teleprox/log/remote.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 9e0d9f9..ab3681a 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -8,6 +8,7 @@ import threading
 import os
 import zmq
 import logging
+import traceback
 import atexit
 import json
 
@@ -282,9 +283,13 @@ class LogServer(threading.Thread):
             if self.socket not in events:
                 continue
             msg = self.socket.recv()
-            kwds = json.loads(msg)
-            rec = logging.makeLogRecord(kwds)
-            if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
-                continue
-            self.logger.handle(rec)
+            try:
+                kwds = json.loads(msg)
+                rec = logging.makeLogRecord(kwds)
+                if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
+                    continue
+                self.logger.handle(rec)
+            except Exception:
+                # keep this thread alive
+                traceback.print_exc()
         self.socket.close()
-- 
2.43.0


From b6fe1a5d03015b7b26e99cb3cc3c86bf40be3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 35/48] fix: LogSender uses its socket from one thread and
 sends pending records on close

The socket was replaced and closed by other threads while the sender thread
was using it, and records still in the queue at exit were dropped.
---
 teleprox/log/remote.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index ab3681a..cb5d8b9 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -168,11 +168,22 @@ class LogSender(logging.Handler):
             record = self.record_queue.get()
             if record is None:
                 break
+            if isinstance(record, zmq.Socket):
+                # sent by connect()
+                self._set_socket(record)
+                continue
             try:
                 self._handle(record)
             except Exception:
                 # keep this thread alive
                 self.handleError(record)
+        self._set_socket(None)
+
+    def _set_socket(self, socket):
+        # sockets are not thread safe; called from the sender thread only
+        if self.socket is not None:
+            self.socket.close()
+        self.socket = socket
 
     def _handle(self, record):
         global host_name, process_name, thread_names
@@ -212,20 +223,17 @@ class LogSender(logging.Handler):
         sent. This value should be acquired from `log_server.address` or
         `get_logger_address()`.
         """
-        if self.socket is not None:
-            self.socket.close()
-
-        self.socket = zmq.Context.instance().socket(zmq.PUSH)
-        self.socket.linger = 1000  # don't let socket deadlock when exiting
-        self.socket.connect(addr)
+        socket = zmq.Context.instance().socket(zmq.PUSH)
+        socket.linger = 1000  # don't let socket deadlock when exiting
+        socket.connect(addr)
+        # used by the sender thread only from now on
+        self.record_queue.put(socket)
 
     def close(self):
-        # if this socket is left open when the process exits, it can lead to
-        # deadlock.
+        # if the socket is left open when the process exits, it can lead to
+        # deadlock. Let the sender thread send pending records and close it.
         self.record_queue.put(None)
-        socket, self.socket = self.socket, None
-        if socket is not None:
-            socket.close()
+        self.thread.join(timeout=1.0)
         
 
 class LogServer(threading.Thread):
-- 
2.43.0


From 8882cb0059e5a680869596cb2dde26ed8501393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 36/48] fix: the log handler showed the local host's name for
 remote records

LogSender sends the name as host_name.
---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a612dd7..b3d8fa9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -103,7 +103,7 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'hostname', get_host_name())
+        hid = getattr(record, 'host_name', get_host_name())
         pid = getattr(record, 'process_name', get_process_name())
         tid = getattr(record, 'thread_name', get_thread_name(record.thread))
         key = (hid, pid, tid)
-- 
2.43.0


From 3e48694a73ada9c0a48a517b757ace168e294452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 37/48] fix: records with a custom level above CRITICAL were
 not displayed

There is no color for them in the level color map (with colorama only).
---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index b3d8fa9..4d02b76 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -98,7 +98,7 @@ class RPCLogHandler(logging.StreamHandler):
         message = logging.StreamHandler.format(self, record)
         if HAVE_COLORAMA:
             ind = record.levelno // 10 * 10  # decrease to multiple of 10
-            message = _level_color_map[ind] + message + colorama.Style.RESET_ALL
+            message = _level_color_map.get(ind, '') + message + colorama.Style.RESET_ALL
             
         return header + ' ' + message
 
-- 
2.43.0


From 4a4dd2717f012ef0b1362abeb8b0060e44d14df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 38/48] fix: the Qt polling thread stops when asked to

It compared the stop message with a str, but messages are bytes, so it tried to
send the message to a client named STOP. It also left its sockets open.
---
 teleprox/qt_poll_thread.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 6dc10bc..af84801 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -51,7 +51,7 @@ class QtPollThread(qt.QThread):
             if self.return_socket in socks:
                 name, data = self.return_socket.recv_multipart()
                 #logger.debug("poller return %s %s", name, data)
-                if name == 'STOP':
+                if name == b'STOP':
                     break
                 self.rpc_socket.send_multipart([name, data])
                 
@@ -61,6 +61,8 @@ class QtPollThread(qt.QThread):
                 if msg is not None:
                     self.new_request.emit(name, msg)
 
+        self.rpc_socket.close()
+        self.return_socket.close()
         #logger.error("poller exit.")
         
     def stop(self):
-- 
2.43.0


From 433f7bf6e48ba1e082419c267d15fbeb071e524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 39/48] fix: start_process() options that were rejected or not
 passed on

log_addr given as str raised AttributeError, address given as bytes was passed
as "b'...'", and log_level had no effect unless log_addr was set.
---
 teleprox/process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index a904f1f..2d00c86 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -151,11 +151,13 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         bootstrap_args.append('--daemon')
     if log_addr is not None:
-        bootstrap_args.extend([
-            f'--logaddr={log_addr.decode()}',
-            f'--loglevel={log_level}',
-        ])
+        if isinstance(log_addr, bytes):
+            log_addr = log_addr.decode()
+        bootstrap_args.append(f'--logaddr={log_addr}')
+    if isinstance(address, bytes):
+        address = address.decode()
     bootstrap_args.extend([
+        f'--loglevel={log_level}',
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
     ])
-- 
2.43.0


From 859e5ac04b01f4c4ef327831496e824cf1710eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 40/48] fix: quote arguments when starting a process via the
 shell

A process name with spaces or quotes was not passed on unchanged.
---
 teleprox/process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/process.py b/teleprox/process.py
index 2d00c86..36f1a69 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -4,6 +4,7 @@
 
 import sys
 import json
+import shlex
 import subprocess
 import atexit
 from teleprox.log.remote import get_process_name, set_thread_name
@@ -172,6 +173,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         else:
             executable = 'python'  # let env decide which python to use
 
+    if shell is True and sys.platform != 'win32':
+        # arguments must reach the new process unchanged
+        bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]
+
     # note: the -u flag is used to force unbuffered stdout/stderr so that all
     # output is captured in real time.
     cmd = (executable, '-u', '-m', 'teleprox.bootstrap') + tuple(bootstrap_args)
-- 
2.43.0


From d36e638b47bb539c3166e0bda121cc9337f80755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 41/48] fix: start_process() leaves nothing behind when it
 fails

If the new process did not report in time, reported an error or could not be
connected to (e.g. with an unsupported serializer), it was left running and
the bootstrap socket was left open. A daemon's launcher was waited for without
a limit.
---
 teleprox/process.py | 203 ++++++++++++++++++++++++--------------------
 1 file changed, 109 insertions(+), 94 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 36f1a69..9a75834 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -138,109 +138,124 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     # temporary socket to allow the remote process to report its status.
     bootstrap_addr = 'tcp://127.0.0.1:*'
     bootstrap_sock = zmq.Context.instance().socket(zmq.PAIR)
-    bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)
-    bootstrap_sock.bind(bootstrap_addr)
-    bootstrap_sock.linger = 1000 # don't let socket deadlock when exiting
-    bootstrap_addr = bootstrap_sock.last_endpoint
+    launched = None
+    status = {}
+    try:
+        bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)
+        bootstrap_sock.bind(bootstrap_addr)
+        bootstrap_sock.linger = 1000 # don't let socket deadlock when exiting
+        bootstrap_addr = bootstrap_sock.last_endpoint
     
-    # Spawn new process
-    bootstrap_args = []
-    if name is not None:
-        bootstrap_args = [name] + bootstrap_args
-    if qt is True:
-        bootstrap_args.append('--qt')
-    if daemon is True:
-        bootstrap_args.append('--daemon')
-    if log_addr is not None:
-        if isinstance(log_addr, bytes):
-            log_addr = log_addr.decode()
-        bootstrap_args.append(f'--logaddr={log_addr}')
-    if isinstance(address, bytes):
-        address = address.decode()
-    bootstrap_args.extend([
-        f'--loglevel={log_level}',
-        f'--listen_addr={address}',
-        f'--bootstrap_addr={bootstrap_addr.decode()}',
-    ])
-    if PROCESS_NAME_PREFIX not in ('', None):
-        bootstrap_args.append(
-            f'--child_name_prefix={PROCESS_NAME_PREFIX}'
-        )
+        # Spawn new process
+        bootstrap_args = []
+        if name is not None:
+            bootstrap_args = [name] + bootstrap_args
+        if qt is True:
+            bootstrap_args.append('--qt')
+        if daemon is True:
+            bootstrap_args.append('--daemon')
+        if log_addr is not None:
+            if isinstance(log_addr, bytes):
+                log_addr = log_addr.decode()
+            bootstrap_args.append(f'--logaddr={log_addr}')
+        if isinstance(address, bytes):
+            address = address.decode()
+        bootstrap_args.extend([
+            f'--loglevel={log_level}',
+            f'--listen_addr={address}',
+            f'--bootstrap_addr={bootstrap_addr.decode()}',
+        ])
+        if PROCESS_NAME_PREFIX not in ('', None):
+            bootstrap_args.append(
+                f'--child_name_prefix={PROCESS_NAME_PREFIX}'
+            )
     
-    if executable is None:
-        if conda_env is None:
-            executable = sys.executable
+        if executable is None:
+            if conda_env is None:
+                executable = sys.executable
+            else:
+                executable = 'python'  # let env decide which python to use
+
+        if shell is True and sys.platform != 'win32':
+            # arguments must reach the new process unchanged
+            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]
+
+        # note: the -u flag is used to force unbuffered stdout/stderr so that all
+        # output is captured in real time.
+        cmd = (executable, '-u', '-m', 'teleprox.bootstrap') + tuple(bootstrap_args)
+
+        if conda_env is not None:
+            cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
+    
+        if shell is True:
+            cmd = ' '.join(cmd)
+
+        popen_kwargs = {
+            'stdin': stdin or subprocess.DEVNULL,
+            'stdout': stdout,
+            'stderr': stderr,
+            'shell': shell,
+        }
+        if daemon is True:
+            # daemom processes have no stdio
+            assert log_stdio is not True, "Cannot use log_stdio with daemon." 
+            assert stdin is None and stdout is None and stderr is None, "Cannot use stdin/stdout/stderr with daemon."
+            popen_kwargs['stdin'] = subprocess.DEVNULL
+            popen_kwargs['stdout'] = subprocess.DEVNULL
+            popen_kwargs['stderr'] = subprocess.DEVNULL
+            # use DETACH_PROCESS to prevent the child from being killed when the parent is killed
+            # use CREATE_NEW_PROCESS_GROUP to prevent the child from receiving signals from the parent
+            if sys.platform == 'win32':
+                popen_kwargs['creationflags'] = subprocess.CREATE_NEW_PROCESS_GROUP #subprocess.DETACHED_PROCESS | subprocess.CREATE_NEW_PROCESS_GROUP
         else:
-            executable = 'python'  # let env decide which python to use
-
-    if shell is True and sys.platform != 'win32':
-        # arguments must reach the new process unchanged
-        bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]
+            if log_stdio is True:
+                popen_kwargs['stdout'] = subprocess.PIPE
+                popen_kwargs['stderr'] = subprocess.PIPE
 
-    # note: the -u flag is used to force unbuffered stdout/stderr so that all
-    # output is captured in real time.
-    cmd = (executable, '-u', '-m', 'teleprox.bootstrap') + tuple(bootstrap_args)
+        # Start the new process
+        proc = launched = subprocess.Popen(cmd, **popen_kwargs)
 
-    if conda_env is not None:
-        cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
-    
-    if shell is True:
-        cmd = ' '.join(cmd)
-
-    popen_kwargs = {
-        'stdin': stdin or subprocess.DEVNULL,
-        'stdout': stdout,
-        'stderr': stderr,
-        'shell': shell,
-    }
-    if daemon is True:
-        # daemom processes have no stdio
-        assert log_stdio is not True, "Cannot use log_stdio with daemon." 
-        assert stdin is None and stdout is None and stderr is None, "Cannot use stdin/stdout/stderr with daemon."
-        popen_kwargs['stdin'] = subprocess.DEVNULL
-        popen_kwargs['stdout'] = subprocess.DEVNULL
-        popen_kwargs['stderr'] = subprocess.DEVNULL
-        # use DETACH_PROCESS to prevent the child from being killed when the parent is killed
-        # use CREATE_NEW_PROCESS_GROUP to prevent the child from receiving signals from the parent
-        if sys.platform == 'win32':
-            popen_kwargs['creationflags'] = subprocess.CREATE_NEW_PROCESS_GROUP #subprocess.DETACHED_PROCESS | subprocess.CREATE_NEW_PROCESS_GROUP
-    else:
+        # set up stdout/stderr logging if requested
         if log_stdio is True:
-            popen_kwargs['stdout'] = subprocess.PIPE
-            popen_kwargs['stderr'] = subprocess.PIPE
-
-    # Start the new process
-    proc = subprocess.Popen(cmd, **popen_kwargs)
-
-    # set up stdout/stderr logging if requested
-    if log_stdio is True:
-        stdio_logger = StdioLogSender(proc, name, log_addr, log_level)
-    else:
-        stdio_logger = None
+            stdio_logger = StdioLogSender(proc, name, log_addr, log_level)
+        else:
+            stdio_logger = None
         
-    logger.info(f'Spawned process "{name}" with pid {proc.pid}')
-    if daemon is True and sys.platform != 'win32':
-        proc.wait()  # prevent zombie
-        proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
+        logger.info(f'Spawned process "{name}" with pid {proc.pid}')
+        if daemon is True and sys.platform != 'win32':
+            proc.wait(timeout=10)  # prevent zombie
+            proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
 
-    # Receive status information (especially the final RPC address)
-    try:
-        status = bootstrap_sock.recv_json()
-    except zmq.error.Again:
-        raise TimeoutError("Timed out waiting for response from spawned process.")
-    logger.debug("recv status %s", status)
-    bootstrap_sock.send(b'OK')
-    bootstrap_sock.close()
+        # Receive status information (especially the final RPC address)
+        try:
+            status = bootstrap_sock.recv_json()
+        except zmq.error.Again:
+            raise TimeoutError("Timed out waiting for response from spawned process.")
+        logger.debug("recv status %s", status)
+        bootstrap_sock.send(b'OK')
     
-    if 'address' in status:
-        address = status['address']
-        #: An RPCClient instance that is connected to the RPCServer in the remote process
-        client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
-    else:
-        err = ''.join(status['error'])
-        if proc is not None and proc.poll() is not None:
-            proc.kill()
-        raise RuntimeError(f"Error while spawning process:\n{err}")
+        if 'address' in status:
+            address = status['address']
+            #: An RPCClient instance that is connected to the RPCServer in the remote process
+            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        else:
+            err = ''.join(status['error'])
+            raise RuntimeError(f"Error while spawning process:\n{err}")
+    except:
+        # leave nothing behind
+        if 'pid' in status:
+            # (the launched process is not the one running the server in case of
+            # daemons, or if executed via a shell)
+            try:
+                kill_pid(status['pid'])
+            except OSError:
+                pass
+        if launched is not None:
+            launched.kill()
+            launched.wait(timeout=10)
+        raise
+    finally:
+        bootstrap_sock.close()
 
     if daemon is True:
         return DaemonProcess(client, name, qt, status['pid'])
-- 
2.43.0


From b5c793262643a649418a4e8c412d43209156440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 42/48] fix: a child reports the error that prevented its
 server from starting

Formatting the log message about the error failed, so the error was never
reported and the parent timed out. Errors while starting the Qt application or
setting up logging were not reported either. After an error, a child with a Qt
application did not exit.
---
 teleprox/bootstrap.py | 45 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 0ed3594..e6132b4 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -66,32 +66,31 @@ import teleprox
 # Set up process name prefix if requested
 teleprox.process.PROCESS_NAME_PREFIX = conf['child_name_prefix']
 
-# Start QApplication if requested
-if conf['qt']:
-    from teleprox import qt
-    app = qt.QApplication([])
-    app.setQuitOnLastWindowClosed(False)
+try:
+    # Start QApplication if requested
+    if conf['qt']:
+        from teleprox import qt
+        app = qt.QApplication([])
+        app.setQuitOnLastWindowClosed(False)
 
-# Set up log record forwarding
-log.set_thread_name('main_thread')
-if conf['procname'] is not None:
-    log.set_process_name(conf['procname'])
-if conf['logaddr'] is not None:
-    log.set_logger_address(conf['logaddr'].encode())
+    # Set up log record forwarding
+    log.set_thread_name('main_thread')
+    if conf['procname'] is not None:
+        log.set_process_name(conf['procname'])
+    if conf['logaddr'] is not None:
+        log.set_logger_address(conf['logaddr'].encode())
 
-# Also send unhandled exceptions to log server
-log.log_exceptions()
+    # Also send unhandled exceptions to log server
+    log.log_exceptions()
 
-logger.info('Bootstrapping new process "{procname}" {class_name}({listen_addr}) log_addr:{logaddr} log_level:{loglevel}'.format(**conf))
+    logger.info('Bootstrapping new process "{procname}" {class_name}({listen_addr}) log_addr:{logaddr} log_level:{loglevel}'.format(**conf))
 
-# Create RPC server
-try:
-    # Create server
+    # Create RPC server
     server_class = getattr(teleprox, conf['class_name'])
     server = server_class(conf['listen_addr'])
     status = {'address': server.address.decode(), 'pid': os.getpid()}
 except:
-    logger.error("Error starting {class_name} with args: {args}:".format(**conf))
+    logger.error("Error starting {class_name}({listen_addr}):".format(**conf))
     status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}
     
 # Report server status to spawner
@@ -118,8 +117,8 @@ if conf['bootstrap_addr'] is not None:
 if 'address' in status:
     server.run_forever()
     
-if conf['qt']:
-    try:
-        app.exec()
-    except AttributeError:
-        app.exec_()
+    if conf['qt']:
+        try:
+            app.exec()
+        except AttributeError:
+            app.exec_()
-- 
2.43.0


From c663b2af5f001e59b504f1e35adf1ba07fa2dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 43/48] fix: a child exits if its spawner is gone or gave up
 waiting for it

A daemon that reported its status too late kept running, although start_process()
had failed and could not know its process id.
---
 teleprox/bootstrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index e6132b4..c7d913c 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -103,13 +103,16 @@ if conf['bootstrap_addr'] is not None:
     start = time.time()
     while time.time() < start + 10.0:
         # send status repeatedly until spawner gives a reply.
-        bootstrap_sock.send_json(status)
         try:
+            bootstrap_sock.send_json(status, zmq.NOBLOCK)
             bootstrap_sock.recv(zmq.NOBLOCK)
             break
         except zmq.error.Again:
             time.sleep(0.01)
             continue
+    else:
+        # spawner does not exist anymore or has given up waiting
+        sys.exit(1)
 
     bootstrap_sock.close()
 
-- 
2.43.0


From db70bc254f90eb6bfc14e76fb95f5506555fe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 44/48] fix: waiting for a child took output away from the
 stdio logger

communicate() reads the pipes that the logger's threads are reading, so that
output written while waiting was not logged.
---
 teleprox/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 9a75834..0146c5d 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -308,7 +308,11 @@ class ChildProcess:
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
         try:
             # Turns out communicate() can deadlock too
-            self.proc.communicate(timeout=timeout)
+            if self.stdio_logger is None:
+                self.proc.communicate(timeout=timeout)
+            else:
+                # the child's pipes are read by the stdio logger only
+                self.proc.wait(timeout=timeout)
         except (AttributeError, ValueError):
             # Python bug: http://bugs.python.org/issue30203
             # Calling communicate on process with closed i/o can generate
-- 
2.43.0


From ab0c1decc20c6e3eb2d9ba761ee6ea8c45658713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 45/48] fix: start_process blocked forever if the child died
 right after reporting

The acknowledgement sent to the child blocks while no peer is connected;
bound it like the wait for the report.
---
 teleprox/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 0146c5d..64210b9 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -142,6 +142,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     status = {}
     try:
         bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)
+        bootstrap_sock.setsockopt(zmq.SNDTIMEO, 10000)
         bootstrap_sock.bind(bootstrap_addr)
         bootstrap_sock.linger = 1000 # don't let socket deadlock when exiting
         bootstrap_addr = bootstrap_sock.last_endpoint
@@ -229,10 +230,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         # Receive status information (especially the final RPC address)
         try:
             status = bootstrap_sock.recv_json()
+            logger.debug("recv status %s", status)
+            bootstrap_sock.send(b'OK')
         except zmq.error.Again:
             raise TimeoutError("Timed out waiting for response from spawned process.")
-        logger.debug("recv status %s", status)
-        bootstrap_sock.send(b'OK')
     
         if 'address' in status:
             address = status['address']
-- 
2.43.0


From 588ed63ac8f51ebc46d5adfcb51bc8abbf17b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 46/48] fix: a child process could not be started with a name
 beginning with a dash

---
 teleprox/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 64210b9..592ed5d 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -149,8 +149,6 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     
         # Spawn new process
         bootstrap_args = []
-        if name is not None:
-            bootstrap_args = [name] + bootstrap_args
         if qt is True:
             bootstrap_args.append('--qt')
         if daemon is True:
@@ -170,6 +168,9 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             bootstrap_args.append(
                 f'--child_name_prefix={PROCESS_NAME_PREFIX}'
             )
+        if name is not None:
+            # the name may begin with a dash
+            bootstrap_args.extend(['--', name])
     
         if executable is None:
             if conda_env is None:
-- 
2.43.0


From a072c1250f3d6dbc3ff57c375fb8bfd87421e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 47/48] fix: a Qt binding imported after a failed attempt is
 noticed

---
 teleprox/qt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/qt_util.py b/teleprox/qt_util.py
index 447157b..d1bd0a3 100644
--- a/teleprox/qt_util.py
+++ b/teleprox/qt_util.py
@@ -15,7 +15,7 @@ def check_qt_imported():
     HAVE_QT : bool | None
         True if a Qt library has been imported, False if none are importable, None if none have been imported yet."""
     global HAVE_QT, QT_LIB
-    if HAVE_QT is None:
+    if not HAVE_QT:
         for qt_lib in qt_lib_order:
             if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:
                 HAVE_QT = True
-- 
2.43.0


From 1d06db462044642a28a4a8ea688507de671974b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 48/48] fix: a Qt import that failed half-way is not taken for
 a complete one

---
 teleprox/qt_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/teleprox/qt_util.py b/teleprox/qt_util.py
index d1bd0a3..f417f2a 100644
--- a/teleprox/qt_util.py
+++ b/teleprox/qt_util.py
@@ -59,13 +59,14 @@ def import_qt(qt_lib=None):
     if not HAVE_QT:
         raise ImportError(f'No importable Qt library found (tried {", ".join(qt_libs)})')
 
-    qt_namespace = {}
+    namespace = {}
     qtcore = importlib.import_module(QT_LIB + '.QtCore')
-    qt_namespace.update(qtcore.__dict__)
+    namespace.update(qtcore.__dict__)
     qtgui = importlib.import_module(QT_LIB + '.QtGui')
-    qt_namespace.update(qtgui.__dict__)
+    namespace.update(qtgui.__dict__)
     qtwidgets = importlib.import_module(QT_LIB + '.QtWidgets')
-    qt_namespace.update(qtwidgets.__dict__)
+    namespace.update(qtwidgets.__dict__)
+    qt_namespace = namespace
     
     if 'PySide' not in QT_LIB:
         qt_namespace['Signal'] = qt_namespace['pyqtSignal']  # for compatibility with PySide
-- 
2.43.0

