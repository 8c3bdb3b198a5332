From fd4c67c00f2d270897937c2e556be8f44277731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 01/29] fix: reject truncated bencode strings instead of
 looping forever

decode() read b'' for ever when a string size was cut short, wedging the
m2m thread on one malformed packet.
---
 dataplicity/m2m/bencode.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..de5c8d1 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -139,11 +139,16 @@ def _decode(read):
             kv.append((k, v))
         return dict(kv)
     else:
-        size_bytes = obj_type
-        while 1:
-            c = read(1)
-            if c == b":":
-                break
+        size_bytes = b""
+        c = obj_type
+        while c != b":":
+            # An empty read (truncated data) is not a digit either
+            if not c.isdigit():
+                raise DecodeError("illegal digit in size")
             size_bytes += c
+            c = read(1)
         size = int(size_bytes)
-        return read(size)
+        data = read(size)
+        if len(data) != size:
+            raise DecodeError("truncated data")
+        return data
-- 
2.43.0


From 848291c2d573fb74e9728ec0e38decdf640aa773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 02/29] fix: serialise websocket writes made from several
 threads

Per-message compression shares one context, so compress + write from two
threads could reach the server out of order and corrupt the stream.
---
 dataplicity/m2m/wsclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..6d2106c 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -303,7 +303,9 @@ class WSClient(threading.Thread):
     def send_bytes(self, packet_bytes):
         """Send bytes over the websocket."""
         try:
-            self.websocket.send_binary(packet_bytes)
+            # Compressing and writing must not interleave with other threads
+            with self.write_lock:
+                self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
         else:
-- 
2.43.0


From 901f430d9840c38fc7f426033a52c530d30e1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 03/29] fix: time out API requests that get no answer

Without a timeout one unanswered request blocked its thread (including the
m2m thread, which reports the identity) for ever.
---
 dataplicity/constants.py | 3 +++
 dataplicity/jsonrpc.py   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataplicity/constants.py b/dataplicity/constants.py
index d6daf50..2435309 100644
--- a/dataplicity/constants.py
+++ b/dataplicity/constants.py
@@ -33,6 +33,9 @@ REMOTE_DIRECTORY_LOCATION = "/home/dataplicity/remote"
 # Client will reconnect if the server hasn't responded in this time
 MAX_TIME_SINCE_LAST_PACKET = 100.0  # seconds or None
 
+# Seconds without progress before a request to the API server is abandoned
+API_TIMEOUT = 15.0
+
 # Number of bytes to read at a time, when copying date over the network
 # TODO: Replace this with a sensible chunk size once we identify the
 # issue with ssh over Porthole
diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..72843a4 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 import json
 import logging
 
+from . import constants
 from .compat import urlopen, text_type
 
 
@@ -185,7 +186,9 @@ class JSONRPC(object):
         url_file = None
         try:
             try:
-                url_file = urlopen(self.url, call_json)
+                url_file = urlopen(
+                    self.url, call_json, timeout=constants.API_TIMEOUT
+                )
                 response_json = url_file.read().decode("utf-8")
             finally:
                 if url_file is not None:
-- 
2.43.0


From 9fb620592a74c2c0f8f9eba98da3df3dd39984b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 04/29] fix: close terminals when the m2m thread ends

run() called a method that does not exist instead of telling the manager.
---
 dataplicity/m2m/wsclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 6d2106c..5b6fbe0 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -270,7 +270,7 @@ class WSClient(threading.Thread):
             log.info("exit requested")
         except Exception:
             log.exception("unhandled error from websocket")
-        self.on_close()
+        self.manager.on_client_close()
 
     def on_event(self, event):
         """Called when new websocket events arrive."""
-- 
2.43.0


From e2795029c07029f973fb8fe9eb97bbff503b3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 05/29] fix: reconnect when the m2m server stops answering

MAX_TIME_SINCE_LAST_PACKET was not used, so a connection that died without
a FIN or RST was never noticed.
---
 dataplicity/m2m/wsclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 5b6fbe0..f9347b3 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -15,6 +15,7 @@ from lomond.errors import WebSocketError
 
 from . import bencode
 from . import packets
+from .. import constants
 from ..compat import text_type
 from .dispatcher import Dispatcher, expose
 from .packets import M2MPacket as Packet
@@ -260,7 +261,9 @@ class WSClient(threading.Thread):
         """Main websocket handling loop."""
         try:
             with self.websocket:
-                for event in persist(self.websocket):
+                for event in persist(
+                    self.websocket, ping_timeout=constants.MAX_TIME_SINCE_LAST_PACKET
+                ):
                     log.debug("WS %r", event)
                     try:
                         self.on_event(event)
-- 
2.43.0


From 06d216ca400baf01983c010002b8c3e275a2b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:07 +0000
Subject: [PATCH 06/29] fix: send nothing to the m2m server before the join

A thread with a result to send could write to the socket while it was still
being connected, ahead of the upgrade request or the join.
---
 dataplicity/m2m/wsclient.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index f9347b3..226a902 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -194,7 +194,8 @@ class WSClient(threading.Thread):
         self.last_packet_time = time.time()
 
         self.callback_lock = threading.RLock()
-        self.write_lock = threading.Lock()
+        self.write_lock = threading.RLock()
+        self.ready = False  # True when connected, and the join has been sent
         self.callbacks = defaultdict(list)
         self.hooks = defaultdict(list)
 
@@ -308,6 +309,8 @@ class WSClient(threading.Thread):
         try:
             # Compressing and writing must not interleave with other threads
             with self.write_lock:
+                if not self.ready:
+                    return False
                 self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
@@ -317,10 +320,13 @@ class WSClient(threading.Thread):
     def on_ready(self):
         """Called when WS is opened."""
         log.debug("websocket opened")
-        if self.identity is None:
-            self.send(PacketType.request_join)
-        else:
-            self.send(PacketType.request_identify, uuid=self.identity)
+        # Nothing from another thread may precede the join
+        with self.write_lock:
+            self.ready = True
+            if self.identity is None:
+                self.send(PacketType.request_join)
+            else:
+                self.send(PacketType.request_identify, uuid=self.identity)
 
     def on_binary(self, data):
         """On a WS message."""
@@ -338,6 +344,7 @@ class WSClient(threading.Thread):
 
     def on_disconnected(self):
         """Called when ws socket closes."""
+        self.ready = False
         self.identity = None
         self.clear_callbacks()
         self.hard_close_channels()
-- 
2.43.0


From a411c15e49f038f0a0328ac13efef298f6205536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 07/29] fix: give up on a websocket upgrade that is never
 answered

The websocket has no timeout between connecting and the upgrade response,
so a server that accepted connections but did not answer was waited on for
ever.
---
 dataplicity/constants.py    |  3 +++
 dataplicity/m2m/wsclient.py | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/dataplicity/constants.py b/dataplicity/constants.py
index 2435309..7dab6d5 100644
--- a/dataplicity/constants.py
+++ b/dataplicity/constants.py
@@ -33,6 +33,9 @@ REMOTE_DIRECTORY_LOCATION = "/home/dataplicity/remote"
 # Client will reconnect if the server hasn't responded in this time
 MAX_TIME_SINCE_LAST_PACKET = 100.0  # seconds or None
 
+# Seconds to wait for the m2m server to accept the websocket upgrade
+HANDSHAKE_TIMEOUT = 30.0
+
 # Seconds without progress before a request to the API server is abandoned
 API_TIMEOUT = 15.0
 
diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 226a902..277f08d 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -196,6 +196,7 @@ class WSClient(threading.Thread):
         self.callback_lock = threading.RLock()
         self.write_lock = threading.RLock()
         self.ready = False  # True when connected, and the join has been sent
+        self.handshake_timer = None
         self.callbacks = defaultdict(list)
         self.hooks = defaultdict(list)
 
@@ -278,7 +279,9 @@ class WSClient(threading.Thread):
 
     def on_event(self, event):
         """Called when new websocket events arrive."""
-        if event.name == "ready":
+        if event.name == "connected":
+            self.on_connected()
+        elif event.name == "ready":
             self.on_ready()
         elif event.name == "disconnected":
             self.on_disconnected()
@@ -317,9 +320,25 @@ class WSClient(threading.Thread):
         else:
             return True
 
+    def on_connected(self):
+        """Called when the server accepted the connection, before the upgrade."""
+        # The websocket doesn't check for timeouts until it is ready
+        self.handshake_timer = threading.Timer(
+            constants.HANDSHAKE_TIMEOUT, self.websocket.session.close
+        )
+        self.handshake_timer.daemon = True
+        self.handshake_timer.start()
+
+    def stop_handshake_timer(self):
+        """The upgrade finished, or the connection was lost."""
+        if self.handshake_timer is not None:
+            self.handshake_timer.cancel()
+            self.handshake_timer = None
+
     def on_ready(self):
         """Called when WS is opened."""
         log.debug("websocket opened")
+        self.stop_handshake_timer()
         # Nothing from another thread may precede the join
         with self.write_lock:
             self.ready = True
@@ -344,6 +363,7 @@ class WSClient(threading.Thread):
 
     def on_disconnected(self):
         """Called when ws socket closes."""
+        self.stop_handshake_timer()
         self.ready = False
         self.identity = None
         self.clear_callbacks()
-- 
2.43.0


From 372b5c94d637f0e73f727380cf14f31cacdc32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 08/29] fix: report the m2m identity without holding up the m2m
 thread

While the API server was not answering, the m2m thread spent its time in
these calls: pings and channel data waited, until the connection timed out.
---
 dataplicity/m2mmanager.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index b89ff21..47328fd 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -95,6 +95,7 @@ class M2MManager(object):
         self.identity = identity
         self.terminals = {}
         self.notified_identity = None
+        self.notify_thread = None
         self.m2m_client = WSClient(self, url, remote_directory)
         self.services_limiter = Limiter("services", constants.LIMIT_SERVICES)
         self.terminals_limiter = Limiter("terminals", constants.LIMIT_TERMINALS)
@@ -121,8 +122,21 @@ class M2MManager(object):
         """Set the m2m identity, and also notifies the dataplicity server if required."""
         self.identity = identity
         if identity and identity != self.notified_identity:
+            if self.notify_thread is not None and self.notify_thread.is_alive():
+                # Still busy with a notification, will be called again soon
+                return
             log.info("m2m identity changed (%s)", identity.decode("utf-8", "replace"))
-            self.notified_identity = self.client.set_m2m_identity(identity)
+            # The API server may be slow to respond, and must not hold up the m2m thread
+            notify_thread = threading.Thread(
+                target=self._notify_identity, args=(identity,)
+            )
+            notify_thread.daemon = True
+            notify_thread.start()
+            self.notify_thread = notify_thread
+
+    def _notify_identity(self, identity):
+        """Notify the dataplicity server of the m2m identity."""
+        self.notified_identity = self.client.set_m2m_identity(identity)
 
     def on_sync(self, batch):
         """Called by sync, so it can inject commands in to the batch request."""
-- 
2.43.0


From cf6431e2d077753e0e86c846ebefc9b48d252d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:45 +0000
Subject: [PATCH 09/29] fix: end port forwards one at a time, without losing
 data

When a local server hung up, the recv loop either span on the closed socket
or set the event shared by all forwards. Data was written to the local
server from the m2m thread, with the 5 second connect timeout still set: a
slow reader lost data, and held up every other channel. Sockets were never
closed.
---
 dataplicity/m2m/writethread.py |  63 ++++++++++++++
 dataplicity/portforward.py     | 145 +++++++++++++++------------------
 2 files changed, 129 insertions(+), 79 deletions(-)
 create mode 100644 dataplicity/m2m/writethread.py

diff --git a/dataplicity/m2m/writethread.py b/dataplicity/m2m/writethread.py
new file mode 100644
index 0000000..58a0f09
--- /dev/null
+++ b/dataplicity/m2m/writethread.py
@@ -0,0 +1,63 @@
+"""
+
+Writes data in the background.
+
+The m2m thread handles every channel, so it should never wait for a process
+or a server that is slow to read what it was sent.
+
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import logging
+import threading
+
+
+log = logging.getLogger("m2m")
+
+
+class WriteThread(threading.Thread):
+    """A thread that passes queued data to a callable which may block."""
+
+    def __init__(self, write, on_done=None):
+        super(WriteThread, self).__init__()
+        self.daemon = True
+        self._write_data = write
+        self._on_done = on_done
+        self._condition = threading.Condition()
+        self._chunks = []
+        self._finished = False
+
+    def write(self, data):
+        """Queue data (may be called before the thread is started)."""
+        with self._condition:
+            if not self._finished:
+                self._chunks.append(data)
+                self._condition.notify()
+
+    def finish(self):
+        """There is no more data, exit when the queue is empty."""
+        with self._condition:
+            self._finished = True
+            self._condition.notify()
+
+    def run(self):
+        """Write data as it arrives, until finished or the write fails."""
+        try:
+            while True:
+                with self._condition:
+                    while not (self._chunks or self._finished):
+                        self._condition.wait()
+                    chunks = self._chunks
+                    self._chunks = []
+                if not chunks:
+                    break
+                for chunk in chunks:
+                    self._write_data(chunk)
+        except Exception as error:
+            log.debug("write failed; %s", error)
+            self.finish()
+        finally:
+            if self._on_done is not None:
+                self._on_done()
diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..6adeef4 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -16,6 +16,7 @@ import threading
 import weakref
 
 from .constants import CHUNK_SIZE, SERVER_BUSY
+from .m2m.writethread import WriteThread
 
 
 log = logging.getLogger("pf")
@@ -32,10 +33,10 @@ class Connection(threading.Thread):
         self.channel = channel
         self.host_port = host_port
 
-        self._lock = threading.RLock()
         self._start_time = time()
         self.socket = None
-        self.read_buffer = []  # For data received before we connected
+        # Keeps data received before we connected, and writes it to the socket after
+        self.writer = WriteThread(self._send, on_done=self._shutdown_socket)
 
         self.channel.set_callbacks(
             self.on_channel_data, self.on_channel_close, self.on_channel_control
@@ -69,11 +70,19 @@ class Connection(threading.Thread):
             if not self._connect():
                 return
 
+            try:
+                self.writer.start()
+            except Exception as error:
+                log.warning("unable to start portforward write thread; %r", error)
+                self.channel.write(SERVER_BUSY)
+                return
+
             poll.register(self.socket.fileno(), events)
 
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            connected = True
+            while connected and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -84,64 +93,56 @@ class Connection(threading.Thread):
                     break
                 if self.channel.is_closed:
                     break
-                for _file_descriptor, event_mask in poll_result:
-                    if event_mask & readable_events:
-                        try:
-                            # Reads *up to* BUFFER_SIZE bytes
-                            data = self.socket.recv(CHUNK_SIZE)
-                        except Exception:
-                            log.exception("error in recv")
-                            break
+                if poll_result:
+                    try:
+                        # Reads *up to* BUFFER_SIZE bytes
+                        # After an error or hang up there may be data left to read
+                        data = self.socket.recv(CHUNK_SIZE)
+                    except Exception:
+                        log.exception("error in recv")
+                        connected = False
+                    else:
+                        if data:
+                            self.channel.write(data)
+                            bytes_written += len(data)
                         else:
-                            if data:
-                                self.channel.write(data)
-                                bytes_written += len(data)
-                            else:
-                                # No data means the socket has been closed
-                                break
-                    if event_mask & error_events:
-                        # Socket has been closed in another thread, possibly due to
-                        # m2m channel closing
-                        self.close_event.set()
+                            # No data means the socket has been closed
+                            connected = False
         finally:
-
-            speed = bytes_written / 1024.0 / (time() - self._start_time)
-            log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
-            # These close methods are a null operation if the objects are
-            # already closed
+            log.debug(
+                "left recv loop (read %s bytes in %.1fs)",
+                bytes_written,
+                time() - self._start_time,
+            )
+            # A null operation if the channel is already closed
             self.channel.close()
-            self._shutdown_read()
+            self._disconnect()
 
-    def _shutdown_read(self):
-        """Shutdown reading."""
-        with self._lock:
-            if self.socket:
-                try:
-                    self.socket.shutdown(socket.SHUT_RD)
-                except Exception:
-                    pass
-
-    def _shutdown_write(self):
-        """Shutdown writing."""
-        with self._lock:
-            if self.socket:
-                try:
-                    self.socket.shutdown(socket.SHUT_WR)
-                except Exception:
-                    pass
-
-    def _close_socket(self):
-        """Shutdown the socket."""
-        with self._lock:
-            if self.socket is not None:
-                try:
-                    self.socket.shutdown(socket.SHUT_RDWR)
-                except Exception:
-                    pass
-                try:
-                    self.socket.close()
-                except Exception:
-                    log.exception("error closing socket")
+    def _send(self, data):
+        """Write data to the local server (called by the write thread)."""
+        self.socket.sendall(data)
+
+    def _shutdown_socket(self):
+        """Shutdown reading and writing, which also ends the recv loop."""
+        try:
+            self.socket.shutdown(socket.SHUT_RDWR)
+        except Exception:
+            pass
+
+    def _disconnect(self):
+        """Close the connection to the local server."""
+        self.writer.finish()
+        if self.socket is None:
+            return
+        if self.writer.is_alive():
+            # Allow some time to write what was received from the channel
+            self.writer.join(5.0)
+            self._shutdown_socket()
+            self.writer.join()
+        try:
+            self.socket.close()
+        except Exception:
+            log.exception("error closing socket")
 
     def connect(self):
         """Start thread, and connect to local server."""
@@ -168,43 +169,29 @@ class Connection(threading.Thread):
             _socket.connect(self.host_port)
         except socket.timeout:
             log.error("timed out connecting to server")
-            return False
         except IOError as e:
             log.error("IO Error when connecting, %s", e)
-            return False
         except Exception:
             log.exception("error connecting")
-            return False
         else:
             log.debug("connected to %s:%d", *self.host_port)
+            # The timeout is only for connecting, a server may be slow to read
+            _socket.settimeout(None)
             self.socket = _socket
-            self._flush_buffer()
             return True
+        _socket.close()
+        return False
 
     def on_channel_data(self, data):
         """Called by m2m channel."""
-        with self._lock:
-            self.read_buffer.append(data)
-            self._flush_buffer()
-
-    def _flush_buffer(self):
-        with self._lock:
-            if self.socket is not None:
-                try:
-                    for chunk in self.read_buffer:
-                        self.socket.sendall(chunk)
-                finally:
-                    del self.read_buffer[:]
+        self.writer.write(data)
 
     def on_channel_close(self):
         """Called when the channel has been closed."""
         log.debug("channel close")
-        with self._lock:
-            # Shut down the socket
-            # This will cause an exceptional condition in the select loop,
-            # which will subsequently exit cleanly
-            self._flush_buffer()
-            self._shutdown_write()
+        # The socket is shut down when everything has been written to it, and the
+        # recv loop will subsequently exit cleanly
+        self.writer.finish()
 
     def on_channel_control(self, data):
         """Called when the remote end sends a control packet (currently not used)."""
-- 
2.43.0


From d2c07d943cd818062b8388241cb163f2ddfe8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:59 +0000
Subject: [PATCH 10/29] fix: run terminals to their end, without holding up the
 m2m thread

Output after a hang up was lost or the thread spun on the hang up, input
before the process started was dropped, a blocked write held up every other
channel, a terminal closed early was never hung up, a failed exec left a copy
of the agent running, and the reaped pid could be signalled.
---
 dataplicity/m2m/proxy.py         |  73 +++++++++++++++++-----
 dataplicity/m2m/remoteprocess.py | 100 +++++++++++++++++++++++--------
 2 files changed, 131 insertions(+), 42 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..b343a41 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -26,6 +26,7 @@ import pty
 import select
 import sys
 import termios
+import threading
 import pwd
 import grp
 
@@ -45,14 +46,19 @@ class Interceptor(object):
     This class does the actual work of the pseudo terminal. The spawn() function is the main entrypoint.
     """
 
+    # Set when nobody is interested in the output
+    is_closed = False
+
     def __init__(self, user=None, group=None, size=None):
         self.user = user
         self.group = group
         if size is None:
             size = [80, 24]
+        self._pack_size(size)  # Check the size
         self.size = size
         self.master_fd = None
         self.pid = None
+        self._size_lock = threading.Lock()
 
     def spawn(self, argv=None):
         """
@@ -87,24 +93,47 @@ class Interceptor(object):
                     )
             if not argv:
                 argv = [os.environ["SHELL"]]
-            os.execlp(argv[0], *argv)
-            # Previous command replaces the process
-            return
+            try:
+                os.execlp(argv[0], *argv)
+                # Previous command replaces the process
+            finally:
+                # The child process should never carry on as a copy of the agent
+                os._exit(127)
 
-        self._init_fd()
         try:
+            self.on_spawn()
+            self._init_fd()
             self._copy()
         except (IOError, OSError):
             pass
+        finally:
+            self.on_finish()
+            with self._size_lock:
+                self.master_fd = None
+            os.close(master_fd)
 
-        os.close(master_fd)
-        self.master_fd = None
+    def on_spawn(self):
+        """
+        Called when the child process has been started.
+        """
+
+    def on_finish(self):
+        """
+        Called when there is nothing more to read, before the pty is closed.
+        """
+
+    def has_exited(self):
+        """
+        Check if the child process has exited.
+        """
+        return False
 
     def _init_fd(self):
         """
         Called once when the pty is first set up.
         """
-        self._set_pty_size()
+        with self._size_lock:
+            self._set_pty_size()
 
     def _signal_winch(self, signum, frame):
         """
@@ -119,11 +148,18 @@ class Interceptor(object):
         assert self.master_fd is not None
 
         # Get the terminal size of the real terminal, set it on the pseudoterminal.
-        rows, cols = self.size
-        buf = array.array("h", [cols, rows, 0, 0])
+        buf = self._pack_size(self.size)
         # fcntl.ioctl(pty.STDOUT_FILENO, termios.TIOCGWINSZ, buf, True)
         fcntl.ioctl(self.master_fd, termios.TIOCSWINSZ, buf)
 
+    @classmethod
+    def _pack_size(cls, size):
+        """
+        Make a winsize struct, will raise an exception if size is not valid.
+        """
+        rows, cols = size
+        return array.array("h", [cols, rows, 0, 0])
+
     def _copy(self):
         """
         Main select loop. Passes all data to self.master_read() or self.stdin_read().
@@ -146,17 +182,23 @@ class Interceptor(object):
                 break
             for _file_descriptor, event_mask in poll_result:
                 if event_mask & readable_events:
+                    # There may be more to read after a hang up
                     data = os.read(master_fd, 1024 * 1024)
                     self.master_read(data)
-                if event_mask & error_events:
+                elif event_mask & error_events:
                     reading = False
                     break
+            if (self.is_closed or not poll_result) and self.has_exited():
+                # Another process has kept the pty open
+                break
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
-        self.size = size
-        if self.master_fd is not None:
-            self._set_pty_size()
+        self._pack_size(size)  # Check the size
+        with self._size_lock:
+            self.size = size
+            if self.master_fd is not None:
+                self._set_pty_size()
 
     def write_stdout(self, data):
         """
@@ -169,10 +211,9 @@ class Interceptor(object):
         """
         Writes to the child process from its controlling terminal.
         """
-        master_fd = self.master_fd
-        assert master_fd is not None
         while data:
-            n = os.write(master_fd, data)
+            assert self.master_fd is not None
+            n = os.write(self.master_fd, data)
             data = data[n:]
 
     def master_read(self, data):
diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index f35e02a..c6b1857 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -9,9 +9,10 @@ import os
 import signal
 import shlex
 import time
-from threading import Thread
+from threading import Lock, Thread
 
 from . import proxy
+from .writethread import WriteThread
 
 log = logging.getLogger("m2m")
 
@@ -19,9 +20,10 @@ log = logging.getLogger("m2m")
 class PidWaitThread(Thread):
     """A thread to wait for a process to exit, and display warnings."""
 
-    def __init__(self, command, pid):
-        self.command = command
-        self.pid = pid
+    def __init__(self, process):
+        self.process = process
+        self.command = process.command
+        self.pid = process.pid
         super(PidWaitThread, self).__init__()
         self.daemon = True
 
@@ -45,11 +47,7 @@ class PidWaitThread(Thread):
         kill_time = 15  # Send a sigkill if process doesn't shut down (in seconds)
         while warnings:
             time.sleep(2)
-            # os.WNOHANG flags makes waitpid return immediately if the process is running
-            pid, exit_code = os.waitpid(self.pid, os.WNOHANG)
-            if pid:
-                # The process has returned an exit code
-                log.debug("process %s exited with code=%i", self, exit_code)
+            if self.process.has_exited():
                 break
             else:
                 # Process is still running
@@ -64,7 +62,7 @@ class PidWaitThread(Thread):
                 if not sent_kill and time_passed >= kill_time:
                     sent_kill = True
                     log.debug("sending SIGKILL to process %s", self)
-                    os.kill(self.pid, signal.SIGKILL)
+                    self.process.send_signal(signal.SIGKILL)
         else:
             log.error("process %s will not die!", self)
 
@@ -78,12 +76,16 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._exited = False
+        self._lock = Lock()
+        super(RemoteProcess, self).__init__(user=user, group=group, size=size)
+
+        # Keeps input until there is a process, and writes it to the process after
+        self.writer = WriteThread(self.stdin_read)
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
 
-        super(RemoteProcess, self).__init__(user=user, group=group, size=size)
-
     @property
     def is_closed(self):
         return self._closed
@@ -95,15 +97,31 @@ class RemoteProcess(proxy.Interceptor):
 
     def run(self):
         try:
-            self.spawn(shlex.split(self.command))
+            # The channel may have been closed before this thread was started
+            if not self.is_closed:
+                self.spawn(shlex.split(self.command))
+        except Exception:
+            log.exception("error running %r", self)
+            self.channel.write(b"Failed to launch remote process\n")
         finally:
             self.limiter.decrement()
+            self.channel.close()
+            self.close()
+
+    def on_spawn(self):
+        self.writer.start()
+        if self.is_closed:
+            # Closed while the process was being started
+            self._hang_up()
+
+    def on_finish(self):
+        self.writer.finish()
+        if self.writer.is_alive():
+            # Allow some time for the write to fail, now the process has gone
+            self.writer.join(5.0)
 
     def on_data(self, data):
-        try:
-            self.stdin_read(data)
-        except Exception:
-            self.channel.close()
+        self.writer.write(data)
 
     def on_control(self, data):
         try:
@@ -129,16 +147,46 @@ class RemoteProcess(proxy.Interceptor):
     def write_master(self, data):
         super(RemoteProcess, self).write_master(data)
 
+    def has_exited(self):
+        """Check if the process has exited (which reaps it)."""
+        with self._lock:
+            if not self._exited:
+                # os.WNOHANG flags makes waitpid return immediately if the process is running
+                try:
+                    pid, exit_code = os.waitpid(self.pid, os.WNOHANG)
+                except OSError as error:
+                    log.warning("unable to wait for %r; %s", self, error)
+                    self._exited = True
+                else:
+                    if pid:
+                        # The process has returned an exit code
+                        log.debug("%r exited with code=%i", self, exit_code)
+                        self._exited = True
+            return self._exited
+
+    def send_signal(self, signal_no):
+        """Signal the process, if it has not been reaped."""
+        with self._lock:
+            if not self._exited:
+                os.kill(self.pid, signal_no)
+
     def close(self):
-        if not self._closed and self.pid is not None:
-            log.debug("sending SIGHUP to %r", self)
-            os.kill(self.pid, signal.SIGHUP)
-            try:
-                wait_thread = PidWaitThread(self.command, self.pid)
-                wait_thread.start()
-            except Exception as error:
-                log.warning("pid wait thread failed to launch; %s", error)
-        self._closed = True
+        if not self._closed:
+            self._closed = True
+            if self.pid is not None:
+                self._hang_up()
+
+    def _hang_up(self):
+        """Ask the process to exit, and wait for it in another thread."""
+        if self.has_exited():
+            return
+        log.debug("sending SIGHUP to %r", self)
+        self.send_signal(signal.SIGHUP)
+        try:
+            wait_thread = PidWaitThread(self)
+            wait_thread.start()
+        except Exception as error:
+            log.warning("pid wait thread failed to launch; %s", error)
 
     def __enter__(self):
         return self
-- 
2.43.0


From 90fff0925671e1b92fa7531472c70d8813eff176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:48 +0000
Subject: [PATCH 11/29] fix: end commands at the end of their output, with
 their exit status

A pipe hang up without data was never taken as end of file, which left the
service spinning, and the exit status was reported before the command exited.
---
 dataplicity/m2m/commandservice.py | 41 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..31a9a73 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -60,6 +60,7 @@ class CommandService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "error running command")
+                channel.close()
         finally:
             self.limiter.decrement()
 
@@ -81,7 +82,8 @@ class CommandService(threading.Thread):
         poll.register(stderr_fh, events)
         try:
             more_data = True
-            while more_data:
+            # The command may close its stdout before it exits
+            while more_data or process.poll() is None:
                 try:
                     poll_result = poll.poll(0.5 * 1000)
                 except Exception as error:
@@ -89,20 +91,20 @@ class CommandService(threading.Thread):
                     break
 
                 for _file_descriptor, event_mask in poll_result:
+                    # A hang up (or error) without data is the end of the file
+                    chunk = b""
                     if event_mask & readable_events:
-                        if _file_descriptor == stdout_fh:
-                            chunk = os.read(stdout_fh, CHUNK_SIZE)
-                            if not chunk:
-                                more_data = False
-                                log.debug("%r EOF", self)
-                                break
-                            channel.write(chunk)
-                            bytes_sent += len(chunk)
-                        else:
-                            chunk = os.read(stderr_fh, CHUNK_SIZE)
-                            log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
+                        chunk = os.read(_file_descriptor, CHUNK_SIZE)
+                    if not chunk:
+                        poll.unregister(_file_descriptor)
+                    if _file_descriptor == stderr_fh:
+                        log.debug("%r [stderr] %r", self, chunk)
+                    elif chunk:
+                        channel.write(chunk)
+                        bytes_sent += len(chunk)
+                    else:
+                        more_data = False
+                        log.debug("%r EOF", self)
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
                     break
@@ -116,12 +118,15 @@ class CommandService(threading.Thread):
         else:
             log.info('read %s byte(s) from command "%s"', bytes_sent, command)
         finally:
-            channel.send_control(
-                {"service": "command", "type": "complete", "returncode": process.poll()}
-            )
-            channel.close()
             try:
                 if process.poll() is None:
                     process.kill()
             except OSError:
                 log.exception("%r failed to kill", self)
+            returncode = process.wait()
+            process.stdout.close()
+            process.stderr.close()
+            channel.send_control(
+                {"service": "command", "type": "complete", "returncode": returncode}
+            )
+            channel.close()
-- 
2.43.0


From e026c2f937fdcab9715dabbcc3ec36a03bcc0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:04 +0000
Subject: [PATCH 12/29] fix: forget channels when the m2m connection is lost

A channel number used again after a reconnect was dead.
---
 dataplicity/m2m/wsclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 277f08d..75b22bc 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -256,7 +256,10 @@ class WSClient(threading.Thread):
 
     def hard_close_channels(self):
         """Called when all the channels have been abruptly closed."""
-        for channel in self.channels.values():
+        channels = list(self.channels.values())
+        # The server may use the same numbers for new channels
+        self.channels.clear()
+        for channel in channels:
             channel.on_close()
 
     def run(self):
-- 
2.43.0


From cf4241458dd3cef9ba1eddef475f0347c609c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 13/29] fix: notice a clock that is set back, or set between
 two checks

---
 dataplicity/clockcheck.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataplicity/clockcheck.py b/dataplicity/clockcheck.py
index 8ccd7f1..dbc448a 100644
--- a/dataplicity/clockcheck.py
+++ b/dataplicity/clockcheck.py
@@ -29,12 +29,15 @@ class ClockCheckThread(Thread):
 
     def run(self):
         """Calls `on_fail` when the system clock changes."""
+        start = time()
         while self.running:
-            start = time()
             sleep(CHECK_PERIOD)
-            elapsed = time() - start
+            now = time()
+            elapsed = now - start
+            start = now
 
-            if elapsed > MAX_CLOCK_DISCREPANCY:
+            # The clock may be set forward or back
+            if abs(elapsed) > MAX_CLOCK_DISCREPANCY:
                 self.on_fail()
 
     def on_fail(self):
-- 
2.43.0


From 4b012e92729cfe90903f3bf8a3ac32ee5b3a34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 14/29] fix: replace the stored directory scan in one step

---
 dataplicity/directory_scanner.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 04282b9..2e98aee 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -2,6 +2,7 @@ from __future__ import print_function, unicode_literals
 
 import json
 import logging
+import os
 import os.path
 import tempfile
 from threading import Lock, Thread
@@ -79,5 +80,15 @@ class DirectoryScanner(object):
         file_path = os.path.join(
             tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json"
         )
-        with open(file_path, "wb") as scan_file:
-            scan_file.write(scan_json)
+        # The scan may be opened at any time, so it should always be complete
+        new_file_path = file_path + ".new"
+        try:
+            with open(new_file_path, "wb") as scan_file:
+                scan_file.write(scan_json)
+            os.rename(new_file_path, file_path)
+        except Exception:
+            try:
+                os.remove(new_file_path)
+            except Exception as error:
+                log.debug("failed to remove %s; %s", new_file_path, error)
+            raise
-- 
2.43.0


From 4af16a88c731f20209488b375c5bc35fdef03572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 15/29] fix: answer every request for a directory scan

A request made during a scan was never answered, nor was one that failed.
---
 dataplicity/directory_scanner.py | 91 ++++++++++++++++++++------------
 dataplicity/m2m/wsclient.py      |  7 ++-
 dataplicity/remote_directory.py  |  6 +--
 3 files changed, 66 insertions(+), 38 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 2e98aee..9a6e7ee 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -7,7 +7,7 @@ import os.path
 import tempfile
 from threading import Lock, Thread
 from time import time
-from typing import Callable, Optional
+from typing import Callable
 
 from .compat import text_type
 from .scan_directory import ScanDirectoryError, ScanResult, scan_directory
@@ -28,46 +28,71 @@ class DirectoryScanner(object):
         self.root_path = root_path
 
         self._lock = Lock()
+        self._scanning = False
+        self._requests = []
 
-    def perform_scan(self, file_sizes=True, on_success=None):
-        # type: (bool, Callable[[], None]) -> None
+    def perform_scan(self, file_sizes=True, on_success=None, on_error=None):
+        # type: (bool, Callable[[], None], Callable[[Exception], None]) -> None
         """Perform a scan in the background."""
-        if self._lock.locked():
-            # Scan is in progress, no point in doing another
-            return
-        thread = Thread(
-            target=self._perform_scan,
-            kwargs={"file_sizes": file_sizes, "on_success": on_success},
-        )
-        thread.start()
-
-    def _perform_scan(self, file_sizes=True, on_success=None):
-        # type: (bool, Optional[Callable]) -> None
-        """Scan and upload directory structure."""
         with self._lock:
+            self._requests.append((file_sizes, on_success, on_error))
+            if self._scanning:
+                # Scan is in progress, which may have missed something,
+                # the thread will do another
+                return
             try:
-                start_time = time()
-                directory = scan_directory(self.root_path, file_sizes=file_sizes)
-                elapsed = time() - start_time
-                log.debug("scan directory elapsed %.1f", elapsed * 1000)
-            except ScanDirectoryError as error:
-                log.warning(str(error))
-                raise
+                thread = Thread(target=self._run)
+                thread.start()
             except Exception:
-                log.exception("failed to scan directory %s", self.root_path)
+                del self._requests[:]
                 raise
-            else:
+            self._scanning = True
+
+    def _run(self):
+        # type: () -> None
+        """Scan until there are no more requests."""
+        while True:
+            with self._lock:
+                requests = self._requests
+                self._requests = []
+                if not requests:
+                    self._scanning = False
+                    return
+            # One scan serves all the requests made before it started
+            error = None
+            try:
+                self._perform_scan(any(file_sizes for file_sizes, _, _ in requests))
+            except Exception as scan_error:
+                error = scan_error
+            for _file_sizes, on_success, on_error in requests:
                 try:
-                    self.write_scan(directory)
-                except Exception:
-                    log.exception("failed to write_scan")
-                    raise
-                else:
-                    if on_success is not None:
-                        try:
+                    if error is None:
+                        if on_success is not None:
                             on_success()
-                        except Exception:
-                            log.exception("error in on_success")
+                    elif on_error is not None:
+                        on_error(error)
+                except Exception:
+                    log.exception("error in scan callback")
+
+    def _perform_scan(self, file_sizes=True):
+        # type: (bool) -> None
+        """Scan and store directory structure."""
+        try:
+            start_time = time()
+            directory = scan_directory(self.root_path, file_sizes=file_sizes)
+            elapsed = time() - start_time
+            log.debug("scan directory elapsed %.1f", elapsed * 1000)
+        except ScanDirectoryError as error:
+            log.warning(str(error))
+            raise
+        except Exception:
+            log.exception("failed to scan directory %s", self.root_path)
+            raise
+        try:
+            self.write_scan(directory)
+        except Exception:
+            log.exception("failed to write_scan")
+            raise
 
     def write_scan(self, directory):
         # type: (ScanResult) -> None
diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 75b22bc..04d242c 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -515,10 +515,13 @@ class WSClient(threading.Thread):
         def on_success():
             self.send("scan_remote_directory_result", "")
 
+        def on_error(error):
+            self.send("scan_remote_directory_result", str(error) or repr(error))
+
         try:
-            self.remote_directory.scan(on_success=on_success)
+            self.remote_directory.scan(on_success=on_success, on_error=on_error)
         except Exception as error:
-            self.send("scan_remote_directory_result", str(error))
+            on_error(error)
 
     @expose(PacketType.write_remote_file)
     def on_write_remote_file(
diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..651e411 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -75,10 +75,10 @@ class RemoteDirectory(object):
         # type: () -> Text
         return "RemoteDirectory(%r)" % self.path
 
-    def scan(self, on_success=None):
-        # type: (Callable[[], None]) -> None
+    def scan(self, on_success=None, on_error=None):
+        # type: (Callable[[], None], Callable[[Exception], None]) -> None
         """Scan remote directory."""
-        self.directory_scanner.perform_scan(on_success=on_success)
+        self.directory_scanner.perform_scan(on_success=on_success, on_error=on_error)
 
     def get_snapshot_path(self, upload_id):
         # type: (Text) -> Text
-- 
2.43.0


From 08056332b3811174604948945cf0c917bede2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 16/29] fix: carry on with the scan when a directory can't be
 read to its end

---
 dataplicity/scan_directory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..0a2187f 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -139,6 +139,11 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # End of directory scan, we can discard top of stack
             pop()
             continue
+        except Exception as error:
+            # Keep what was found so far, and continue with the parent
+            log.warning("error reading directory %r; %s", join(root_path, path), error)
+            pop()
+            continue
         if dir_entry.name.startswith("."):
             # Exclude hidden files and directories
             continue
-- 
2.43.0


From e4426ef487cdc12a67169c6148cb6674364f9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 17/29] fix: scan directories on another device which have a
 known inode number

---
 dataplicity/scan_directory.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index 0a2187f..93901e1 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -31,8 +31,10 @@ except ImportError:
             self.name = os.path.basename(self.path)
             self._stat = None
 
-        def stat(self):
-            # type() -> os.stat_result
+        def stat(self, follow_symlinks=True):
+            # type(bool) -> os.stat_result
+            if not follow_symlinks:
+                return os.lstat(self.path)
             if self._stat is None:
                 self._stat = os.stat(self.path)
             return self._stat
@@ -45,10 +47,6 @@ except ImportError:
             # type: () -> bool
             return not S_ISDIR(self.stat().st_mode)
 
-        def inode(self):
-            # type: () -> int
-            return self.stat().st_ino
-
     def scandir(dir_path):  # type: ignore
         # type(str) > Iterator[DirEntry]
         return iter(DirEntry(join(dir_path, path)) for path in os.listdir(dir_path))
@@ -111,7 +109,7 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
     push = stack.append
     pop = stack.pop
     directories = {}  # type: Dict[str, DirectoryDict]
-    visited_directories = set()  # type: Set[int]
+    visited_directories = set()  # type: Set[Tuple[int, int]]
 
     def push_directory(path):
         # type: (str) -> None
@@ -162,15 +160,17 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 # Max depth reached, so skip this dir
                 continue
             try:
-                inode = dir_entry.inode()
+                entry_stat = dir_entry.stat(follow_symlinks=False)
             except Exception as error:
-                log.warning("error in inode; %r", error)
+                log.warning("error in stat; %r", error)
             else:
-                if inode in visited_directories:
+                # Inode numbers are unique to a device, there may be several under the root
+                directory_id = (entry_stat.st_dev, entry_stat.st_ino)
+                if directory_id in visited_directories:
                     # We have visited this directory before, we must have a recursive link
                     continue
-                directories[path].setdefault("dirs", []).append(dir_entry.name)
-                visited_directories.add(inode)
+                visited_directories.add(directory_id)
+            directories[path].setdefault("dirs", []).append(dir_entry.name)
             push_directory(join(path, dir_entry.name))
         elif is_file:
             try:
-- 
2.43.0


From 674e23ceb528d70e26f84370454de1e024f2af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 18/29] fix: confine remote file requests to the directories
 they are for

Upload IDs, download IDs, device paths and download paths could lead to any
file on the device.
---
 dataplicity/remote_directory.py | 37 ++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 651e411..06df7a5 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_name(name):
+    # type: (Text) -> bool
+    """Check a name for a file made by the agent, which should not lead to another directory.
+
+    Args:
+        name (Text): A filename.
+
+    Returns:
+        bool: True if the name is valid, otherwise False
+    """
+    return bool(name) and not name.startswith(".") and os.sep not in name
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_name(upload_id):
+            raise IllegalPath("Upload ID %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
@@ -102,6 +117,17 @@ class RemoteDirectory(object):
             log.warning("unable to get snapshot path; %r", error)
             raise RemoteDirectoryError("Failed to get snapshot path")
 
+    def get_downloads_path(self):
+        # type: () -> Text
+        """Get the path to the directory that contains unfinished downloads."""
+        return os.path.join(self.temp_path, "dataplicity_remote_downloads")
+
+    def validate_device_path(self, device_path):
+        # type: (Text) -> bool
+        """Check that a path sent by the server is one we gave to a download."""
+        dir_path, name = os.path.split(device_path)
+        return dir_path == self.get_downloads_path() and validate_name(name)
+
     def add_download(self, id):
         # type: (Text) -> Text
         """Add an upload.
@@ -113,8 +139,9 @@ class RemoteDirectory(object):
             [type]: [description]
         """
 
-        temp_path = self.temp_path
-        dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
+        if not validate_name(id):
+            raise IllegalPath("Download ID %r is illegal" % id)
+        dir_path = self.get_downloads_path()
         if not os.path.isdir(dir_path):
             os.mkdir(dir_path)
             log.debug("%r created %s", self, dir_path)
@@ -304,11 +331,13 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            elif not self.validate_device_path(write_device_path):
+                raise IllegalPath("Path %s is illegal" % write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -383,6 +412,8 @@ class RemoteDirectory(object):
         """Copy a download in to the remote directory"""
 
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
+        if not validate_path(destination_path):
+            raise IllegalPath("Path %s is illegal" % destination_path)
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
-- 
2.43.0


From bf25d14180cbb312a9c38f1cb5a1ce8463d21e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 19/29] fix: don't show a download in the remote directory
 until it is complete

---
 dataplicity/remote_directory.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 06df7a5..0d2dbad 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -437,8 +437,22 @@ class RemoteDirectory(object):
             os.rename(device_path, destination_path)
         except Exception:
             # Atomic rename didn't work, we will need to copy the data
+            # The copy is hidden until it is complete
+            copy_path = os.path.join(
+                dirname, ".dataplicity-download-" + os.path.basename(device_path)
+            )
             try:
-                shutil.move(device_path, destination_path)
+                try:
+                    shutil.copyfile(device_path, copy_path)
+                    os.rename(copy_path, destination_path)
+                except Exception:
+                    if os.path.exists(copy_path):
+                        os.remove(copy_path)
+                    raise
             except Exception:
                 log.exception("unable to store download")
                 raise
+            try:
+                os.remove(device_path)
+            except Exception:
+                log.exception("failed to remove %r", device_path)
-- 
2.43.0


From 10dfd097d23263faaaebf0199c68809fa190f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 20/29] fix: remove the incomplete snapshot when an upload
 can't be opened

---
 dataplicity/remote_directory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 0d2dbad..6d6a4ea 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -206,8 +206,13 @@ class RemoteDirectory(object):
 
         try:
             # Copy file to temporary location, creating a "snapshot"
-            shutil.copyfile(file_path, snapshot_path)
-            snapshot_size = os.path.getsize(snapshot_path)
+            try:
+                shutil.copyfile(file_path, snapshot_path)
+                snapshot_size = os.path.getsize(snapshot_path)
+            except Exception:
+                # Don't leave part of a snapshot behind
+                self.close_upload(upload_id)
+                raise
             log.debug("created snapshot for %s; %s", file_path, snapshot_path)
             return snapshot_size
         except (IOError, OSError) as error:
-- 
2.43.0


From 13582c7befb2f9b88a4ab286430bded278b90b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 21/29] fix: don't wait forever for the tag script

---
 dataplicity/tags.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataplicity/tags.py b/dataplicity/tags.py
index 032ce29..575bbfb 100644
--- a/dataplicity/tags.py
+++ b/dataplicity/tags.py
@@ -5,8 +5,13 @@ import subprocess
 import re
 import logging
 
+from .compat import PY3
+
 log = logging.getLogger("agent")
 
+# Seconds to wait for the tag script, so that it can't stop the agent from polling
+SCRIPT_TIMEOUT = 30.0
+
 
 class TagError(Exception):
     """Custom exception raised when get_tag_list has an exception"""
@@ -25,7 +30,9 @@ def get_tag_list():
 
     log.debug("reading tags from %s", tag_executable)
     try:
-        output = subprocess.check_output(tag_executable)
+        # There is no timeout in Python2
+        kwargs = {"timeout": SCRIPT_TIMEOUT} if PY3 else {}
+        output = subprocess.check_output(tag_executable, **kwargs)
     except OSError as error:
         log.debug("failed to run %s; %s", tag_executable, error)
         return []
-- 
2.43.0


From f550da75db4eace19c5ad0489274afaab3b3d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:48 +0000
Subject: [PATCH 22/29] fix: reconnect when a write to the m2m server blocks on
 a dead connection

---
 dataplicity/m2m/wsclient.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 04d242c..40adfa9 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -11,7 +11,7 @@ from collections import defaultdict, deque
 from lomond import WebSocket
 from lomond.constants import USER_AGENT as LOMOND_USER_AGENT
 from lomond.persist import persist
-from lomond.errors import WebSocketError
+from lomond.errors import TransportFail, WebSocketError
 
 from . import bencode
 from . import packets
@@ -317,7 +317,13 @@ class WSClient(threading.Thread):
             with self.write_lock:
                 if not self.ready:
                     return False
-                self.websocket.send_binary(packet_bytes)
+                session = self.websocket.session
+                try:
+                    self.websocket.send_binary(packet_bytes)
+                except TransportFail:
+                    # Part of the packet may have been sent, nothing can follow it
+                    session.close()
+                    raise
         except WebSocketError:
             return False
         else:
@@ -325,6 +331,8 @@ class WSClient(threading.Thread):
 
     def on_connected(self):
         """Called when the server accepted the connection, before the upgrade."""
+        # A write to a dead connection must not block forever
+        self.websocket.session._sock.settimeout(constants.MAX_TIME_SINCE_LAST_PACKET)
         # The websocket doesn't check for timeouts until it is ready
         self.handshake_timer = threading.Timer(
             constants.HANDSHAKE_TIMEOUT, self.websocket.session.close
-- 
2.43.0


From b9139eca3a5cc76e438b92f646e488be4e01d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:59 +0000
Subject: [PATCH 23/29] fix: kill a terminal process at once if nothing can
 wait for it to hang up

---
 dataplicity/m2m/remoteprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index c6b1857..724d2d4 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -187,6 +187,8 @@ class RemoteProcess(proxy.Interceptor):
             wait_thread.start()
         except Exception as error:
             log.warning("pid wait thread failed to launch; %s", error)
+            # Nothing will do this later
+            self.send_signal(signal.SIGKILL)
 
     def __enter__(self):
         return self
-- 
2.43.0


From d2d3b9be73f5cb93e28dce76213f31fd700bcb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:33 +0000
Subject: [PATCH 24/29] fix: start the m2m thread when the client is ready for
 its requests

An instruction that arrived in the first instants failed, because the port
forward manager, the terminals and client.m2m did not exist yet.
---
 dataplicity/client.py     | 1 +
 dataplicity/m2mmanager.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/client.py b/dataplicity/client.py
index d5ace6a..058861f 100644
--- a/dataplicity/client.py
+++ b/dataplicity/client.py
@@ -93,6 +93,7 @@ class Client(object):
                 self, self.remote_directory, m2m_url=self.m2m_url
             )
             self.port_forward = PortForwardManager.init(self)
+            self.m2m.start()
 
         except Exception:
             log.exception("failed to initialize client")
diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index 47328fd..1fbe361 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -105,10 +105,13 @@ class M2MManager(object):
         """Set up the m2m manager for Dataplicity."""
         url = m2m_url or constants.M2M_URL
         manager = cls(client, url, remote_directory)
-        manager.m2m_client.start()
         manager.add_terminal("shell", "bash -i")
         return manager
 
+    def start(self):
+        """Start the m2m thread, which may require the rest of the client right away."""
+        self.m2m_client.start()
+
     def restart_agent(self):
         """Restart the agent."""
         self.client.exit()
-- 
2.43.0


From 693ef895af63b474b988af2d11695f6652f5614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 25/29] fix: an empty message woke blocking channel reads and
 made the channel look readable

---
 dataplicity/m2m/wsclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 40adfa9..a6640fc 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -94,7 +94,7 @@ class Channel(object):
             return
         if self._data_callback is not None:
             self._data_callback(data)
-        else:
+        elif data:
             with self._lock:
                 self.deque.append(data)
                 self._data_event.set()
-- 
2.43.0


From a789e0336091f157190e88988a8ced6c92af0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 26/29] fix: a string message was obeyed as if its bytes were
 packet fields

---
 dataplicity/m2m/wsclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index a6640fc..5be4a11 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -383,6 +383,8 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            if not isinstance(packet, list):
+                raise TypeError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From 32098eee59756a1ebad3f52c3c5c8e242e412c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 27/29] fix: the last words of a shell could be lost when it
 exited just after a poll without output

---
 dataplicity/m2m/proxy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index b343a41..aa84e6a 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -189,8 +189,10 @@ class Interceptor(object):
                     reading = False
                     break
             if (self.is_closed or not poll_result) and self.has_exited():
-                # Another process has kept the pty open
-                break
+                # Another process has kept the pty open, unless there was output, or
+                # a hang up, since the poll
+                if self.is_closed or not poll.poll(0):
+                    break
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
-- 
2.43.0


From e290026931d15a7dc39e390cce2ce2ebc9f1523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:22 +0000
Subject: [PATCH 28/29] fix: ignore instructions with a badly typed port or
 command

---
 dataplicity/m2m/wsclient.py | 5 ++++-
 dataplicity/m2mmanager.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 5be4a11..3047008 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -16,7 +16,7 @@ from lomond.errors import TransportFail, WebSocketError
 from . import bencode
 from . import packets
 from .. import constants
-from ..compat import text_type
+from ..compat import int_types, text_type
 from .dispatcher import Dispatcher, expose
 from .packets import M2MPacket as Packet
 from .packets import PacketType
@@ -243,6 +243,9 @@ class WSClient(threading.Thread):
 
     def get_channel(self, channel_no):
         # TODO: Create channels in response to packets
+        if not isinstance(channel_no, int_types):
+            # A service on such a channel would run, but could not be reached
+            raise TypeError("channel number must be an integer")
         if channel_no not in self.channels:
             self.channels[channel_no] = Channel(self, channel_no)
         return self.channels[channel_no]
diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index 1fbe361..3e63b74 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -7,7 +7,7 @@ import subprocess
 import threading
 
 from . import constants
-from .compat import PY3
+from .compat import PY3, binary_type, text_type
 from .limiter import Limiter
 from .m2m import EchoService, WSClient
 from .m2m.commandservice import CommandService
@@ -246,5 +246,8 @@ class M2MManager(object):
 
     def open_command_service(self, port, command):
         """Open a service that runs a command and sends the stdout over m2m."""
+        if not isinstance(command, (binary_type, text_type)):
+            # A list would be run as well, but only in part
+            raise TypeError("command must be a string")
         channel = self.m2m_client.get_channel(port)
         CommandService(self.services_limiter, channel, command)
-- 
2.43.0


From 88510a73622a26116842bc01c3445bf83135b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:33 +0000
Subject: [PATCH 29/29] fix: a blocked write must not delay giving up a dead
 m2m connection

---
 dataplicity/m2m/wsclient.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 3047008..15af92d 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -3,6 +3,7 @@ from __future__ import unicode_literals
 
 import json
 import logging
+import socket
 import sys
 import threading
 import time
@@ -289,6 +290,8 @@ class WSClient(threading.Thread):
             self.on_connected()
         elif event.name == "ready":
             self.on_ready()
+        elif event.name == "unresponsive":
+            self.shutdown_socket(self.websocket.session)
         elif event.name == "disconnected":
             self.on_disconnected()
         elif event.name == "binary":
@@ -325,6 +328,7 @@ class WSClient(threading.Thread):
                     self.websocket.send_binary(packet_bytes)
                 except TransportFail:
                     # Part of the packet may have been sent, nothing can follow it
+                    self.shutdown_socket(session)
                     session.close()
                     raise
         except WebSocketError:
@@ -332,6 +336,15 @@ class WSClient(threading.Thread):
         else:
             return True
 
+    @classmethod
+    def shutdown_socket(cls, session):
+        """Shutdown the socket, which also ends a blocked write in another thread."""
+        # Closing the session would first wait for that write
+        try:
+            session._sock.shutdown(socket.SHUT_RDWR)
+        except (AttributeError, socket.error):
+            pass  # Already closed
+
     def on_connected(self):
         """Called when the server accepted the connection, before the upgrade."""
         # A write to a dead connection must not block forever
-- 
2.43.0

