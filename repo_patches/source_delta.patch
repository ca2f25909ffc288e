From 49fc344e693f19de6c8f59fce18f4312f00843fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 01/58] fix: message whose CRC32 is exactly 2**31 could not be
 encoded

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From f946e0e7e856408bb0b3785f4433e7001f54ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 02/58] fix: snappy decompress dropped a final block shorter
 than the header

---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 70791279ed1020a307ce491a0b083de2e1ba39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 03/58] fix: heartbeat request and response parts were flat
 tuples and unusable

---
 kiel/protocol/heartbeat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From 424c0b21fd2a85a1cd942033d5adb2842b751ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 04/58] fix: v1 offset commit topics hold an array of
 partitions

---
 kiel/protocol/offset_commit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From 62e5e60e1b3c0cf3f23b80466554cda5d42c959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 05/58] fix: a cut off message set no longer eats into the data
 that follows it

---
 kiel/protocol/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..219ecc9 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -124,6 +124,8 @@ class MessageSet(object):
             size, offset = Int32.parse(buff, offset)
 
         end = offset + size
+        # a cut off message must not be completed with bytes beyond this set
+        buff = buff[:end]
 
         messages = []
         while not offset == end:
@@ -142,7 +144,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From 935de57be98786d80bef34f9c99ac71ab8f1fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 06/58] fix: aborting a connection from an error handler left
 its requests hanging

---
 kiel/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..4c3c540 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -169,7 +169,7 @@ class Connection(object):
             _, pending = self.pending.popitem()
             exc_info = sys.exc_info()
             if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
+                pending.set_exception(exc_info[1])
             else:
                 pending.set_exception(
                     BrokerConnectionError(self.host, self.port)
-- 
2.43.0


From ea6ea5a387c4ac8f1e21464544a7fdc5fbb07214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 07/58] fix: requests outstanding on a connection that closes
 fail instead of hanging

---
 kiel/connection.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index 4c3c540..931ba41 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,35 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Requests still waiting for a response will never get one, so they are
+        failed with a ``BrokerConnectionError``.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
+
+    def fail_pending(self, error):
+        """
+        Puts all pending futures into an error state with the given exception.
+        """
+        self.api_correlation.clear()
+        while self.pending:
+            _, pending = self.pending.popitem()
+            pending.set_exception(error)
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Handles the StreamClosedError case by closing this end too, logs any
+        unexpected exceptions with a failure message.
         """
         try:
             yield
         except iostream.StreamClosedError:
-            self.closing = True
+            self.close()
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -163,17 +176,11 @@ class Connection(object):
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
-        self.close()
-        self.api_correlation.clear()
-        while self.pending:
-            _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exception(exc_info[1])
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
+        self.closing = True
+        self.stream.close()
+        self.fail_pending(
+            sys.exc_info()[1] or BrokerConnectionError(self.host, self.port)
+        )
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From 82046a325ed1649afa1be98b7486448fdb12e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 08/58] fix: correlation ids wrap around instead of outgrowing
 their int32

---
 kiel/protocol/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..70e01e8 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -25,11 +25,11 @@ def generate_correlation_id():
     Creates a new ``correlation_id`` for requests.
 
     Increments the ``last_id`` value so each generated ID is unique for
-    this machine and process.
+    this machine and process, wrapping around to stay a positive ``Int32``.
     """
     global last_id
 
-    last_id += 1
+    last_id = (last_id + 1) & 0x7fffffff
 
     return last_id
 
-- 
2.43.0


From 57dab5c12666a5e0fb560fab2d9397ee0fcc745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 09/58] fix: a bootstrap host that fails after accepting no
 longer fails the connect

The next host is tried, and the bootstrap connection is closed either way.
---
 kiel/cluster.py    | 6 +++---
 kiel/connection.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..6edca75 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,16 +92,16 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
             except Exception:
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
+            finally:
+                conn.close()
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
-            conn.close()
             break
 
         if not response:
diff --git a/kiel/connection.py b/kiel/connection.py
index 931ba41..aa7900e 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -82,7 +82,8 @@ class Connection(object):
         failed with a ``BrokerConnectionError``.
         """
         self.closing = True
-        self.stream.close()
+        if self.stream is not None:
+            self.stream.close()
         self.fail_pending(BrokerConnectionError(self.host, self.port))
 
     def fail_pending(self, error):
-- 
2.43.0


From 851eb81ea7862bf9915755654056e100c5fda4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 10/58] fix: metadata is asked of the next broker whatever the
 first one's failure

A response that could not be parsed ended the refresh, even with other brokers left.
---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 6edca75..9a55bda 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -157,7 +157,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -165,6 +165,11 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception(
+                    "Error getting metadata from %s:%s", conn.host, conn.port
+                )
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From eb440ee6c68acb992e8b5813176aed11ce33a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 11/58] fix: waiting out one topic's election no longer forgets
 the other topics

---
 kiel/cluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 9a55bda..f267420 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -122,6 +122,9 @@ class Cluster(object):
         cluster.  This is followed by repeated calls to `process_brokers()` and
         `process_topics()` until both signal that there are no missing brokers
         or topics.
+
+        Each repeat asks for the metadata of all topics, as the result replaces
+        everything known so far.
         """
         if not response:
             response = yield self.get_metadata()
@@ -139,7 +142,7 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From 81f085862d7d32c9742146a5496ca580a525d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 12/58] fix: a topic being created (leader_not_available) is
 waited for, not dropped

---
 kiel/cluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index f267420..59e61b4 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -242,7 +242,10 @@ class Cluster(object):
             if topic.error_code == errors.unknown_topic_or_partition:
                 log.error("Unknown topic %s", topic.name)
                 continue
-            if topic.error_code == errors.replica_not_available:
+            if topic.error_code in (
+                    errors.replica_not_available,
+                    errors.leader_not_available,
+            ):
                 missing.add(topic.name)
                 continue
 
-- 
2.43.0


From 7e09c8a65f2cdacdea3ba5c3b61c21aafb512ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 13/58] fix: brokers that left or died during a refresh no
 longer count as connected

Their closed connections stayed in the cluster as leaders until the next refresh.
---
 kiel/cluster.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 59e61b4..77c83f3 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -118,10 +118,9 @@ class Cluster(object):
         If not response argument is given, a call to `get_metatadata()` fetches
         fresh information.
 
-        As a first step this will cull any closing/aborted connections from the
-        cluster.  This is followed by repeated calls to `process_brokers()` and
-        `process_topics()` until both signal that there are no missing brokers
-        or topics.
+        Closing/aborted connections are culled from the cluster and
+        `process_brokers()` and `process_topics()` called, repeatedly until
+        both signal that there are no missing brokers or topics.
 
         Each repeat asks for the metadata of all topics, as the result replaces
         everything known so far.
@@ -129,22 +128,24 @@ class Cluster(object):
         if not response:
             response = yield self.get_metadata()
 
-        broker_ids = list(self.conns.keys())
-        for broker_id in broker_ids:
-            if self.conns[broker_id].closing:
-                log.debug(
-                    "Removing %s:%s from cluster",
-                    self.conns[broker_id].host, self.conns[broker_id].port
-                )
-                self.conns.pop(broker_id)
+        while True:
+            self.cull_connections()
+            missing_conns = yield self.process_brokers(response.brokers)
+            missing_topics = self.process_topics(response.topics)
 
-        missing_conns = yield self.process_brokers(response.brokers)
-        missing_topics = self.process_topics(response.topics)
+            if not missing_conns and not missing_topics:
+                break
 
-        while missing_conns or missing_topics:
             response = yield self.get_metadata()
-            missing_conns = yield self.process_brokers(response.brokers)
-            missing_topics = self.process_topics(response.topics)
+
+    def cull_connections(self):
+        """
+        Removes any closing/aborted connections from the cluster.
+        """
+        for broker_id, conn in list(self.conns.items()):
+            if conn.closing:
+                log.debug("Removing %s:%s from cluster", conn.host, conn.port)
+                self.conns.pop(broker_id)
 
     @gen.coroutine
     def get_metadata(self, topics=None):
@@ -218,6 +219,7 @@ class Cluster(object):
 
         for broker_id in to_drop:
             self.conns[broker_id].abort()
+            self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 05b9e485efc5d3b6e7662b20a11ae73799fd36df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 14/58] fix: a broker that moved to another address is
 connected to there

---
 kiel/cluster.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 77c83f3..57ebd33 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -195,9 +195,17 @@ class Cluster(object):
         missing = set()
 
         for broker in brokers:
-            if broker.broker_id in self.conns:
+            known = self.conns.get(broker.broker_id)
+            if known and (known.host, known.port) == (broker.host, broker.port):
                 continue
 
+            if known:
+                log.info(
+                    "Broker %s moved to %s:%s",
+                    broker.broker_id, broker.host, broker.port
+                )
+                self.conns.pop(broker.broker_id).abort()
+
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
-- 
2.43.0


From a89f5424db67139e3209fdfd39915864df46bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 15/58] fix: overlapping metadata refreshes leaked connections
 and failed internally

Two at once each connected to the same new broker, and dropped each other's.
---
 kiel/cluster.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 57ebd33..73a8675 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -1,7 +1,7 @@
 import collections
 import logging
 
-from tornado import gen, iostream
+from tornado import gen, iostream, locks
 
 from kiel.protocol import metadata, errors
 from kiel.constants import DEFAULT_KAFKA_PORT
@@ -30,6 +30,8 @@ class Cluster(object):
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
 
+        self.heal_lock = locks.Lock()
+
     def __getitem__(self, broker_id):
         """
         Proxies to the ``__getitem__`` of the underlying conns dictionary.
@@ -123,20 +125,22 @@ class Cluster(object):
         both signal that there are no missing brokers or topics.
 
         Each repeat asks for the metadata of all topics, as the result replaces
-        everything known so far.
+        everything known so far.  Only one sync takes place at a time, any
+        others wait for it to finish.
         """
-        if not response:
-            response = yield self.get_metadata()
+        with (yield self.heal_lock.acquire()):
+            if not response:
+                response = yield self.get_metadata()
 
-        while True:
-            self.cull_connections()
-            missing_conns = yield self.process_brokers(response.brokers)
-            missing_topics = self.process_topics(response.topics)
+            while True:
+                self.cull_connections()
+                missing_conns = yield self.process_brokers(response.brokers)
+                missing_topics = self.process_topics(response.topics)
 
-            if not missing_conns and not missing_topics:
-                break
+                if not missing_conns and not missing_topics:
+                    break
 
-            response = yield self.get_metadata()
+                response = yield self.get_metadata()
 
     def cull_connections(self):
         """
-- 
2.43.0


From a35b649e301ad3aa6981c2628f202231f704f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 16/58] fix: a client that lost all of its connections never
 recovered

With one broker, a single dropped connection was enough. Refreshes now fall
back to the bootstrap hosts.
---
 kiel/cluster.py | 51 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 73a8675..d6425a4 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -76,9 +76,22 @@ class Cluster(object):
         Establishes connections to the brokers in a cluster as well as
         gathers topic/partition metadata.
 
+        Once the metadata is retrieved from a bootstrap host the `heal()`
+        method is called.
+        """
+        response = yield self.bootstrap()
+
+        log.info("Metadata gathered, setting up connections.")
+        yield self.heal(response)
+
+    @gen.coroutine
+    def bootstrap(self):
+        """
+        Retrieves metadata from one of the bootstrap hosts.
+
         Cycles through each bootstrap host and attempts to send a metadata
-        request.  Once a metadata request is successful the `heal()` method
-        is called.
+        request, until one is successful.  If none is, a ``NoBrokersError`` is
+        raised.
         """
         response = None
 
@@ -88,29 +101,38 @@ class Cluster(object):
             else:
                 port = DEFAULT_KAFKA_PORT
 
-            conn = Connection(host, int(port))
-
             log.info("Using bootstrap host '%s'", host)
 
             try:
-                yield conn.connect()
-                response = yield conn.send(metadata.MetadataRequest(topics=[]))
+                response = yield self.ask_bootstrap_host(host, int(port))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
             except Exception:
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
-            finally:
-                conn.close()
 
             break
 
         if not response:
             raise NoBrokersError
 
-        log.info("Metadata gathered, setting up connections.")
-        yield self.heal(response)
+        raise gen.Return(response)
+
+    @gen.coroutine
+    def ask_bootstrap_host(self, host, port):
+        """
+        Retrieves metadata over a connection made just for that.
+        """
+        conn = Connection(host, port)
+
+        try:
+            yield conn.connect()
+            response = yield conn.send(metadata.MetadataRequest(topics=[]))
+        finally:
+            conn.close()
+
+        raise gen.Return(response)
 
     @gen.coroutine
     def heal(self, response=None):
@@ -118,7 +140,8 @@ class Cluster(object):
         Syncs the state of the cluster with metadata retrieved from a broker.
 
         If not response argument is given, a call to `get_metatadata()` fetches
-        fresh information.
+        fresh information.  Should every connection have been lost the
+        bootstrap hosts are asked instead.
 
         Closing/aborted connections are culled from the cluster and
         `process_brokers()` and `process_topics()` called, repeatedly until
@@ -130,7 +153,11 @@ class Cluster(object):
         """
         with (yield self.heal_lock.acquire()):
             if not response:
-                response = yield self.get_metadata()
+                try:
+                    response = yield self.get_metadata()
+                except NoBrokersError:
+                    log.warn("No broker left, back to the bootstrap hosts.")
+                    response = yield self.bootstrap()
 
             while True:
                 self.cull_connections()
-- 
2.43.0


From c585c281aeb09b2ee9fcf89249d9198bd0101f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 17/58] fix: a refresh under way when a client closes left
 connections open

---
 kiel/cluster.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index d6425a4..89b94db 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -31,6 +31,7 @@ class Cluster(object):
         self.leaders = collections.defaultdict(dict)
 
         self.heal_lock = locks.Lock()
+        self.stopped = False
 
     def __getitem__(self, broker_id):
         """
@@ -79,6 +80,8 @@ class Cluster(object):
         Once the metadata is retrieved from a bootstrap host the `heal()`
         method is called.
         """
+        self.stopped = False
+
         response = yield self.bootstrap()
 
         log.info("Metadata gathered, setting up connections.")
@@ -96,6 +99,9 @@ class Cluster(object):
         response = None
 
         for host in self.bootstrap_hosts:
+            if self.stopped:
+                break
+
             if ":" in host:
                 host, port = host.split(":")
             else:
@@ -240,6 +246,9 @@ class Cluster(object):
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
+                if self.stopped:
+                    conn.close()
+                    break
                 self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
@@ -317,6 +326,10 @@ class Cluster(object):
     def stop(self):
         """
         Simple method that calls ``close()`` on each connection.
+
+        Any sync still going on adds no further connections.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From 24907a43b8f081f5abcfd755dc8bd886548ec671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 18/58] fix: a request to a broker that just left the cluster
 raised KeyError

It is treated like a broker that cannot be reached, so that the responses
of the others are still handled.
---
 kiel/clients/client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..e9dfc28 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -66,6 +66,9 @@ class Client(object):
         a ``handle_<response.api>_response`` method available to handle an
         incoming response object.
 
+        Brokers that failed, or are no longer known, are left out of the
+        results.
+
         If an error occurs in a response, the ``heal_cluster`` flag is set
         and the ``heal()`` method on the cluster is called after processing
         each response.
@@ -73,10 +76,15 @@ class Client(object):
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
-        iterator = gen.WaitIterator(**{
-            str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
-        })
+        futures = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            if broker_id not in self.cluster:
+                log.info("Broker %s is not in the cluster.", broker_id)
+                self.heal_cluster = True
+                continue
+            futures[str(broker_id)] = self.cluster[broker_id].send(request)
+
+        iterator = gen.WaitIterator(**futures)
 
         results = {}
         while not iterator.done():
-- 
2.43.0


From 4dec94a20bacc1b0280664b249e3520a7e8a0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 19/58] fix: a failed metadata refresh threw away responses
 already handled

Messages fetched from other brokers were lost, as their offsets had been
advanced.  An error noted while a refresh was under way is no longer
forgotten at its end, either.
---
 kiel/clients/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index e9dfc28..348b210 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -71,7 +71,8 @@ class Client(object):
 
         If an error occurs in a response, the ``heal_cluster`` flag is set
         and the ``heal()`` method on the cluster is called after processing
-        each response.
+        each response.  Should that fail, handled results are still returned
+        and the next call tries again.
 
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
@@ -110,7 +111,13 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
             self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+            except Exception:
+                self.heal_cluster = True
+                if not results:
+                    raise
+                log.exception("Error healing the cluster.")
 
         raise gen.Return(results)
-- 
2.43.0


From d9eae55897fbc5768bba3344ce089b5a2d7ba9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 20/58] fix: connections stayed open when winding down a client
 failed

---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 348b210..3d5b9a0 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 0bc30b8df5c84b88ca9906a7ea31ff5d2b6db023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 21/58] fix: messages in flight on a lost connection were never
 sent again

---
 kiel/clients/producer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..df4b1e9 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -135,7 +135,8 @@ class Producer(Client):
         flag denoting that a cluster ``heal()`` call is needed is set.
 
         Once the legitimate messages are ordered, instances of ProduceRequest
-        are created for each broker and sent.
+        are created for each broker and sent.  The messages of those requests
+        that end up without a response are queued up to be retried.
         """
         if not self.unsent:
             return
@@ -187,7 +188,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # anything still here never got a response
+            for request in requests.values():
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in partitions.values():
+                        self.queue_retries(topic, msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 416a75e173a7d3c54627ac5daca3ae2e7cf547bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 22/58] fix: messages queued for a topic that went missing
 broke the flush

The default partitioner raised IndexError and everything queued was lost.
They are kept for when the topic is back.
---
 kiel/clients/producer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index df4b1e9..af8212d 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -152,9 +152,11 @@ class Producer(Client):
 
         for topic, msgs in drain(self.unsent):
             for msg in msgs:
-                partition = self.partitioner(
-                    msg.key, self.cluster.topics[topic]
-                )
+                partitions = self.cluster.topics.get(topic)
+                if not partitions:
+                    to_retry[topic].append(msg)
+                    continue
+                partition = self.partitioner(msg.key, partitions)
                 leader = self.cluster.get_leader(topic, partition)
                 if leader not in self.cluster:
                     to_retry[topic].append(msg)
-- 
2.43.0


From 02f9f661f37ae87d5dd1753f1953486e7f71e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 23/58] fix: error codes unknown to the library raised KeyError
 in the handlers

---
 kiel/clients/consumer.py |  3 ++-
 kiel/clients/grouped.py  | 14 ++++++++++----
 kiel/clients/producer.py |  3 ++-
 kiel/clients/single.py   |  3 ++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..aaf8273 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,8 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..9ac449d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -134,7 +134,12 @@ class GroupedConsumer(BaseConsumer):
             self.heal_cluster = True
             determined = False
         else:
-            log.error("Got error %s when determining coordinator")
+            log.error(
+                "Got error %s when determining coordinator",
+                constants.ERROR_CODES.get(
+                    response.error_code, response.error_code
+                )
+            )
             determined = True
 
         return determined
@@ -203,7 +208,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,8 +282,8 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
-                        topic, partition.partition_id
+                        constants.ERROR_CODES.get(code, code),
+                        topic.name, partition.partition_id
                     )
 
         return (retry, adjust_metadata)
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index af8212d..07b8f73 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -228,7 +228,8 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code),
+                        topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..d73db78 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,8 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 883f447e9b2c8f01e3d3a6adba90e40e6ec593ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 24/58] fix: an error in a partitioner lost every queued
 message

---
 kiel/clients/producer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 07b8f73..dfcbef0 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -8,7 +8,6 @@ from tornado import gen
 
 from kiel.protocol import produce as produce_api, messages, errors
 from kiel.constants import SUPPORTED_COMPRESSION, ERROR_CODES
-from kiel.iterables import drain
 
 from .client import Client
 
@@ -150,7 +149,7 @@ class Producer(Client):
 
         to_retry = collections.defaultdict(list)
 
-        for topic, msgs in drain(self.unsent):
+        for topic, msgs in six.iteritems(self.unsent):
             for msg in msgs:
                 partitions = self.cluster.topics.get(topic)
                 if not partitions:
@@ -163,6 +162,9 @@ class Producer(Client):
                     continue
                 ordered[leader][topic][partition].append(msg)
 
+        # all of them are spoken for now
+        self.unsent.clear()
+
         requests = {}
         for leader, topics in six.iteritems(ordered):
             requests[leader] = produce_api.ProduceRequest(
-- 
2.43.0


From 0635b21d97df074114fac8165e0c530bac9a3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 25/58] fix: messages to be retried were lost when closing a
 producer

---
 kiel/clients/producer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index dfcbef0..62ffec6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -240,5 +240,14 @@ class Producer(Client):
     def wind_down(self):
         """
         Flushes the unsent messages so that none are lost when closing down.
+
+        Messages queued up to be retried are flushed again, except for those
+        of topics the cluster no longer has.
         """
-        yield self.flush()
+        while self.unsent:
+            yield self.flush()
+
+            for topic in list(self.unsent):
+                if topic not in self.cluster.topics:
+                    log.error("Topic %s gone, unable to flush it", topic)
+                    del self.unsent[topic]
-- 
2.43.0


From 02557dd3993f90f244ad5dce552b1d13c2349a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 26/58] fix: a message accepted while the producer was closing
 was never sent

---
 kiel/clients/producer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 62ffec6..4a7fb78 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -97,6 +97,10 @@ class Producer(Client):
             log.debug("Producing to unknown topic %s, loading metadata", topic)
             yield self.cluster.heal()
 
+        if self.closing:
+            log.warn("Producing to %s topic while closing.", topic)
+            return
+
         if topic not in self.cluster.topics:
             log.error("Unknown topic %s and not auto-created", topic)
             return
-- 
2.43.0


From a742b19bc60411a4fa545b967f2e030364280b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 27/58] fix: closing a producer cut off the requests it was
 still waiting on

---
 kiel/clients/producer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 4a7fb78..fda7892 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -4,7 +4,7 @@ import json
 import random
 
 import six
-from tornado import gen
+from tornado import gen, locks
 
 from kiel.protocol import produce as produce_api, messages, errors
 from kiel.constants import SUPPORTED_COMPRESSION, ERROR_CODES
@@ -67,6 +67,10 @@ class Producer(Client):
             lambda: collections.defaultdict(dict)
         )
 
+        # number of flush() calls waiting for responses
+        self.flushing = 0
+        self.flushed = locks.Condition()
+
     @property
     def unsent_count(self):
         """
@@ -196,9 +200,12 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
+        self.flushing += 1
         try:
             yield self.send(requests)
         finally:
+            self.flushing -= 1
+            self.flushed.notify_all()
             # anything still here never got a response
             for request in requests.values():
                 unanswered = self.sent.pop(request.correlation_id, {})
@@ -245,10 +252,15 @@ class Producer(Client):
         """
         Flushes the unsent messages so that none are lost when closing down.
 
+        Flushes already under way are waited for, as they may yet fail.
         Messages queued up to be retried are flushed again, except for those
         of topics the cluster no longer has.
         """
-        while self.unsent:
+        while self.unsent or self.flushing:
+            if not self.unsent:
+                yield self.flushed.wait()
+                continue
+
             yield self.flush()
 
             for topic in list(self.unsent):
-- 
2.43.0


From bbf4fe9e64696612d10866d817da3da16c7f15b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 28/58] fix: partitions were read from offset 0 when their
 offset lookup failed

The topic counted as synced although a broker answered with an error, was
lost, or the topic was not known yet.  The lookup is now repeated.
---
 kiel/clients/consumer.py | 27 ++++++++++++++++-----------
 kiel/clients/single.py   | 10 +++++++---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index aaf8273..533b2a5 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -74,12 +74,12 @@ class BaseConsumer(Client):
         """
         Fetches from a given topics returns a list of deserialized values.
 
-        If the given topic is not known to have synced offsets, a call to
-        `determine_offsets()` is made first.
-
         If a topic is unknown entirely the cluster's ``heal()`` method is
         called and the check retried.
 
+        If the given topic is not known to have synced offsets, calls to
+        `determine_offsets()` are made first, until it has.
+
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
         deserialized results and returns a flattened list.
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,19 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        while topic not in self.synced_offsets:
+            # an error while determining the offsets discards this again
+            self.synced_offsets.add(topic)
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                self.synced_offsets.discard(topic)
+                raise gen.Return([])
+            except Exception:
+                self.synced_offsets.discard(topic)
+                raise
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index d73db78..cbd8c85 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -52,7 +52,8 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic.  If any of them fails to respond the offsets are not considered
+        synced.
         """
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
@@ -84,7 +85,10 @@ class SingleConsumer(BaseConsumer):
         log.debug(
             "Sending offset request to %d leaders.", len(requests.keys())
         )
-        yield self.send(requests)
+        results = yield self.send(requests)
+
+        if any(leader not in results for leader in requests):
+            self.synced_offsets.discard(topic)
 
         raise gen.Return(True)
 
@@ -97,7 +101,7 @@ class SingleConsumer(BaseConsumer):
 
         A retriable error code response will cause the cluster's ``heal()``
         method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        offsets to be determined again.
         """
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
-- 
2.43.0


From f2ecd4c00ae08129e65dc8353170e6ad5004fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 29/58] fix: starting from a datetime or timedelta could not be
 serialized

The epoch seconds were a float, the wire format has an integer.
---
 kiel/clients/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index cbd8c85..e353728 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -147,4 +147,4 @@ def start_to_timestamp(start):
     else:
         offset_time = start
 
-    return offset_time
+    return int(offset_time)
-- 
2.43.0


From 963447f3117b38fd5400c05865d7222ab9dcd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 30/58] fix: an offset response without any offset raised
 IndexError in consume()

---
 kiel/clients/single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index e353728..a039368 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -108,6 +108,12 @@ class SingleConsumer(BaseConsumer):
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                if not partition.offsets:
+                    log.error(
+                        "No offset found for topic %s partition %s",
+                        topic, partition.partition_id
+                    )
+                    raise NoOffsetsError
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
-- 
2.43.0


From 2220d8eefeb929b24e5d46db07a1185faf6c9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 31/58] fix: consume() failed if its allocation was lost while
 reading offsets

---
 kiel/clients/consumer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 533b2a5..7a9f566 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -96,6 +96,10 @@ class BaseConsumer(Client):
             raise gen.Return([])
 
         while topic not in self.synced_offsets:
+            if topic not in self.allocation or not self.allocation[topic]:
+                log.debug("No longer allocated any of topic %s", topic)
+                raise gen.Return([])
+
             # an error while determining the offsets discards this again
             self.synced_offsets.add(topic)
             try:
-- 
2.43.0


From 1c07a0dcbdd46f967fb5ca7fb5a3435745c4321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 32/58] fix: a partition whose fetched messages can't be
 deserialized got stuck

The offset never moved past them.
---
 kiel/clients/consumer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 7a9f566..d5c8095 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -192,8 +192,8 @@ class BaseConsumer(Client):
         If an error is encountered when deserializing it is logged and the
         offending message is skipped.
 
-        After each successful deserialization the ``self.offsets`` entry for
-        the particular topic/partition pair is incremented.
+        After each message the ``self.offsets`` entry for the particular
+        topic/partition pair is set to the offset following it.
         """
         messages = []
         for offset, msg in partition.message_set.messages:
@@ -204,9 +204,9 @@ class BaseConsumer(Client):
                     "Error deserializing message: '%r'",
                     getattr(msg, "value", "No value on msg!")
                 )
-                continue
+            else:
+                messages.append(value)
 
-            messages.append(value)
 #            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
             if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
                 self.offsets[topic_name][partition.partition_id] = offset + 1
-- 
2.43.0


From 56fed582f50f6337239adf6981e3f19a4c20dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 33/58] fix: messages of a compressed set were delivered twice

A fetch from the middle of a set gets all of it.
---
 kiel/clients/consumer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index d5c8095..4550c03 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -196,7 +196,17 @@ class BaseConsumer(Client):
         topic/partition pair is set to the offset following it.
         """
         messages = []
-        for offset, msg in partition.message_set.messages:
+        fetched = partition.message_set.messages
+        position = self.offsets[topic_name][partition.partition_id]
+
+        if any(offset >= position for offset, _ in fetched):
+            # a compressed set may begin before the offset that was asked for
+            fetched = [
+                (offset, msg) for offset, msg in fetched
+                if not 0 <= offset < position
+            ]
+
+        for offset, msg in fetched:
             try:
                 value = self.deserializer(msg.value)
             except Exception:
-- 
2.43.0


From 96c0967dd6e39b928e90a8a0a12ef7abb92eb737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 34/58] fix: messages with values such as 0, false or an empty
 list were dropped

---
 kiel/clients/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4550c03..999bcba 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -140,7 +140,7 @@ class BaseConsumer(Client):
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-            if msg # Skip empty messages
+            if msg is not None # Skip empty messages
             # BUG: troubleshoot why there are None values
         ])
 
-- 
2.43.0


From ffec65e9ad8f0cadad51d65c4727c1a429b8a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 35/58] fix: consume() raised KeyError for an allocated
 partition without a leader

The allocation comes from Zookeeper and may be ahead of our metadata.
---
 kiel/clients/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 999bcba..3382735 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -114,7 +114,12 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.warn("No leader known for %s|%s", topic, partition_id)
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From a1ca5b72c080a8199bbede81306cd24b0448d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 36/58] fix: losing a broker asked for the coordinator raised
 KeyError

The next broker is asked instead.
---
 kiel/clients/grouped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 9ac449d..6bfc4cb 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -112,7 +112,7 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id)
                 if determined:
                     break
 
-- 
2.43.0


From 362835161230414434ce8e1764656a490e618501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 37/58] fix: consuming with a closed grouped consumer committed
 or failed

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6bfc4cb..728956b 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -85,6 +85,9 @@ class GroupedConsumer(BaseConsumer):
         """
         result = yield super(GroupedConsumer, self).consume(topic)
 
+        if self.closing:
+            return
+
         if topic not in self.synced_offsets:
             raise gen.Return([])
 
-- 
2.43.0


From 393db19becd9e16a3e2a049c285ba21cea3842ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 38/58] fix: a grouped consumer never noticed that its
 coordinator moved or died

Its requests failed with KeyError when the broker was lost, and went to the
old coordinator forever when it had moved.
---
 kiel/clients/grouped.py | 58 ++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 728956b..0ae0add 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -15,6 +15,10 @@ from .consumer import BaseConsumer
 log = logging.getLogger(__name__)
 
 
+#: error codes denoting that the group's coordinator has to be determined anew
+COORDINATOR_LOST = (errors.coordinator_not_available, errors.not_coordinator)
+
+
 class GroupedConsumer(BaseConsumer):
     """
     Consumer class with coordinated resource allocation among like members.
@@ -119,6 +123,16 @@ class GroupedConsumer(BaseConsumer):
                 if determined:
                     break
 
+    @gen.coroutine
+    def known_coordinator(self):
+        """
+        Gives the coordinator's ID, determining it anew if it was lost.
+        """
+        if self.coordinator_id is None:
+            yield self.determine_coordinator()
+
+        raise gen.Return(self.coordinator_id)
+
     def handle_group_coordinator_response(self, response):
         """
         Handler for consumer metadata api responses.
@@ -161,19 +175,26 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
-        request = offset_fetch.OffsetFetchRequest(
-            group_name=self.group_name,
-            topics=[
-                offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
-                )
-            ]
-        )
-
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            coordinator_id = yield self.known_coordinator()
+            if coordinator_id is None:
+                raise exc.NoOffsetsError
+
+            request = offset_fetch.OffsetFetchRequest(
+                group_name=self.group_name,
+                topics=[
+                    offset_fetch.TopicRequest(
+                        name=topic,
+                        partitions=list(self.allocation.get(topic, []))
+                    )
+                ]
+            )
+
+            result = yield self.send({coordinator_id: request})
+            if coordinator_id not in result:
+                self.coordinator_id = None
+            retry = result.get(coordinator_id, True)
 
     def handle_offset_fetch_response(self, response):
         """
@@ -208,6 +229,8 @@ class GroupedConsumer(BaseConsumer):
             elif code in errors.retriable:
                 self.heal_cluster = True
                 retry = True
+                if code in COORDINATOR_LOST:
+                    self.coordinator_id = None
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -230,6 +253,11 @@ class GroupedConsumer(BaseConsumer):
             metadata = "committed by %s" % self.name
 
         log.debug("Committing offsets for consumer group %s", self.group_name)
+        coordinator_id = yield self.known_coordinator()
+        if coordinator_id is None:
+            log.error("No coordinator for group %s", self.group_name)
+            return
+
         request = offset_commit.OffsetCommitV0Request(
             group=self.group_name,
             topics=[
@@ -249,8 +277,10 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        results = yield self.send({coordinator_id: request})
+        if coordinator_id not in results:
+            self.coordinator_id = None
+        retry, adjust_metadata = results.get(coordinator_id, (True, False))
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -279,6 +309,8 @@ class GroupedConsumer(BaseConsumer):
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
+                    if code in COORDINATOR_LOST:
+                        self.coordinator_id = None
                 elif code == errors.offset_metadata_too_large:
                     retry = True
                     adjust_metadata = True
-- 
2.43.0


From d9895138aaf6152b413f56bbe575211d697b32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 39/58] fix: commits right after a rebalance rewound the group

Offsets of partitions just gained were committed before they were read: 0,
or where this member was when it last had the partition.
---
 kiel/clients/grouped.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 0ae0add..cc354ab 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -175,6 +175,8 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
+        self.offsets[topic].clear()
+
         retry = True
         while retry:
             coordinator_id = yield self.known_coordinator()
@@ -248,6 +250,9 @@ class GroupedConsumer(BaseConsumer):
 
         Uses the "v0" version of the offset commit request to maintain
         compatability with clusters running 0.8.1.
+
+        After a rebalance there is nothing to commit for a topic until its
+        offsets have been determined again.
         """
         if metadata is None:
             metadata = "committed by %s" % self.name
@@ -270,13 +275,18 @@ class GroupedConsumer(BaseConsumer):
                             metadata=metadata
                         )
                         for partition_id in partition_ids
+                        if partition_id in self.offsets[topic]
                     ]
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
                 if topic in self.topics_to_commit
+                and topic in self.synced_offsets
             ]
         )
 
+        if not request.topics:
+            return
+
         results = yield self.send({coordinator_id: request})
         if coordinator_id not in results:
             self.coordinator_id = None
-- 
2.43.0


From 10cb2da55d086f351351a78d969899874b58a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 40/58] fix: commits that failed for some of a topic's
 partitions weren't retried

Any one partition's success dropped the whole topic from the retry.
---
 kiel/clients/grouped.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index cc354ab..6249d71 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -302,8 +302,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        For successful responses the affected topics are dropped from the set
-        of topics that need commits.
+        Topics without any errors that call for a retry are dropped from the
+        set of topics that need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -312,16 +312,19 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            settled = True
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
+                    pass
                 elif code in errors.retriable:
+                    settled = False
                     retry = True
                     self.heal_cluster = True
                     if code in COORDINATOR_LOST:
                         self.coordinator_id = None
                 elif code == errors.offset_metadata_too_large:
+                    settled = False
                     retry = True
                     adjust_metadata = True
                 else:
@@ -331,6 +334,9 @@ class GroupedConsumer(BaseConsumer):
                         topic.name, partition.partition_id
                     )
 
+            if settled:
+                self.topics_to_commit.discard(topic.name)
+
         return (retry, adjust_metadata)
 
     @gen.coroutine
-- 
2.43.0


From 8e0c5be4c3dc251dfc3ce0459d167e363ba40c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 41/58] fix: messages were skipped after an error while
 committing them

---
 kiel/clients/grouped.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6249d71..6ae78ae 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -98,7 +98,12 @@ class GroupedConsumer(BaseConsumer):
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except Exception:
+                # these messages won't be returned, so fetch them again
+                self.synced_offsets.discard(topic)
+                raise
 
         raise gen.Return(result)
 
-- 
2.43.0


From d4414f306d2432601c023d0e0b859189e64cad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 42/58] fix: the shared partition set could not be written on
 python 3

Kazoo only accepts bytes, so joining a group always failed.
---
 kiel/zookeeper/shared_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..8827eb6 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -83,9 +83,9 @@ class SharedSet(object):
 
     def serialize(self, data):
         """
-        Serializes the set data as a list in a JSON string.
+        Serializes the set data as a list in a (byte) JSON string.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
-- 
2.43.0


From 7d475211623f5ef7a782c196075212c3ec6d7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 43/58] fix: remove_partitions() took a list of partition IDs
 for a string

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..44fe116 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -239,8 +239,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 7739d00d9a6dd8de0b169f47481030463169a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 44/58] fix: members without any partitions raised KeyError

That went for ones not listed yet, too: the failed callback left start()
waiting forever.
---
 kiel/zookeeper/allocator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 44fe116..3848085 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -66,8 +66,10 @@ class PartitionAllocator(object):
     def allocation(self):
         """
         Property representing the topics allocated for a specific consumer.
+
+        Empty if the allocator function has nothing for the consumer.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From bbb9c1f0e7ee502145e4c8d01c9d9f26288c9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 45/58] fix: simultaneous member and partition changes could
 undo one another

The callbacks run in different threads, the one to finish last need not
have seen the latest members and partitions.
---
 kiel/zookeeper/allocator.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 3848085..676c88c 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -61,6 +61,7 @@ class PartitionAllocator(object):
         )
 
         self.mapping = {}
+        self.rebalance_lock = threading.RLock()
 
     @property
     def allocation(self):
@@ -258,19 +259,20 @@ class PartitionAllocator(object):
         done.
         """
         log.info("Rebalancing partitions for group '%s'", self.group_name)
-        members = sorted(self.members)
-        partitions = sorted(self.partitions)
+        with self.rebalance_lock:
+            members = sorted(self.members)
+            partitions = sorted(self.partitions)
 
-        self.mapping = self.allocator_fn(members, partitions)
+            self.mapping = self.allocator_fn(members, partitions)
 
-        for topic in self.allocation:
-            log.debug(
-                "Allocation for topic '%s': partitions %s",
-                topic, ", ".join(map(str, self.allocation[topic]))
-            )
+            for topic in self.allocation:
+                log.debug(
+                    "Allocation for topic '%s': partitions %s",
+                    topic, ", ".join(map(str, self.allocation[topic]))
+                )
 
-        if self.on_rebalance:
-            self.on_rebalance()
+            if self.on_rebalance:
+                self.on_rebalance()
 
 
 def create_attempter(f):
-- 
2.43.0


From 44542273e9d9dd834a0d17553cca12b130959166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 46/58] fix: populating the shared partition set anew failed

The value was a python set rather than bytes, and only one member can win.
---
 kiel/zookeeper/allocator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 676c88c..da324c1 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -196,7 +196,13 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            try:
+                self.conn.create(
+                    self.partition_path,
+                    value=self.shared_set.serialize(self.partitions)
+                )
+            except exceptions.NodeExistsError:
+                log.debug("Partition set already populated by another member")
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From b019718ce7cb64b64d702271120b3eacc6de7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 47/58] fix: start() waited forever if connecting to zookeeper
 failed

---
 kiel/zookeeper/allocator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index da324c1..9422583 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -103,6 +103,10 @@ class PartitionAllocator(object):
         attempt = create_attempter(f)
 
         attempt(self.connect)
+
+        if f.done():
+            return f
+
         wait_on_event(self.connected)
 
         attempt(self.party.start)
-- 
2.43.0


From 824dbda86d3e77ad3cda45b582e20b395efba73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 48/58] fix: the zookeeper connection stayed open if leaving
 the party failed

The session kept its membership alive.
---
 kiel/zookeeper/allocator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 9422583..0392d53 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -134,11 +134,13 @@ class PartitionAllocator(object):
         log.info("Stopping partitioner for group '%s'", self.group_name)
         f = concurrent.Future()
 
-        attempt = create_attempter(f)
-
-        attempt(self.party.leave)
-        attempt(self.conn.stop)
-        attempt(self.conn.close)
+        # one step failing is no reason to skip the others
+        for step in (self.party.leave, self.conn.stop, self.conn.close):
+            try:
+                step()
+            except Exception as e:
+                if not f.done():
+                    f.set_exception(e)
 
         if not f.done():
             f.set_result(None)
-- 
2.43.0


From ab376cb32c0dbd06d293412dee6d9b928da1cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 49/58] fix: failing to take over a leftover membership went
 unnoticed

Such as when the other session's znode was removed at that very moment.
---
 kiel/zookeeper/party.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..75956aa 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -64,7 +64,16 @@ class Party(object):
             txn = self.client.transaction()
             txn.delete(path)
             txn.create(path, ephemeral=True)
-            txn.commit()
+            results = txn.commit()
+
+            # failed transactions don't raise, they list the errors instead
+            if isinstance(results, list):
+                failures = [r for r in results if isinstance(r, Exception)]
+                if isinstance(failures and failures[0], exceptions.NoNodeError):
+                    log.debug("ZNode at %s gone meanwhile, rejoining.", path)
+                    self.join()
+                elif failures:
+                    raise failures[0]
 
     def leave(self):
         """
-- 
2.43.0


From 6067a439ae017196f4e4450e9263852b4e039acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 50/58] fix: a member whose zookeeper session expired never
 rejoined its group

Its membership is ephemeral and was only ever created once.
---
 kiel/zookeeper/allocator.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 0392d53..b8c0889 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -45,6 +45,8 @@ class PartitionAllocator(object):
 
         self.conn = client.KazooClient(hosts=",".join(self.zk_hosts))
         self.connected = threading.Event()
+        self.session_lost = False
+        self.joined = False
 
         self.members = set()
         self.members_collected = threading.Event()
@@ -111,6 +113,7 @@ class PartitionAllocator(object):
 
         attempt(self.party.start)
         attempt(self.shared_set.start)
+        self.joined = True
         attempt(self.party.join)
         attempt(self.add_partitions, seed_partitions)
 
@@ -134,6 +137,8 @@ class PartitionAllocator(object):
         log.info("Stopping partitioner for group '%s'", self.group_name)
         f = concurrent.Future()
 
+        self.joined = False
+
         # one step failing is no reason to skip the others
         for step in (self.party.leave, self.conn.stop, self.conn.close):
             try:
@@ -164,12 +169,31 @@ class PartitionAllocator(object):
         if state == client.KazooState.LOST:
             log.info("Zookeeper session lost!")
             self.connected.clear()
+            self.session_lost = True
         elif state == client.KazooState.SUSPENDED:
             log.info("Zookeeper connection suspended!")
             self.connected.clear()
         else:
             log.info("Zookeeper connection (re)established.")
             self.connected.set()
+            if self.session_lost:
+                self.session_lost = False
+                self.conn.handler.spawn(self.rejoin)
+
+    def rejoin(self):
+        """
+        Joins the ``Party`` again, in place of a membership lost along with
+        its session.
+
+        Blocks, so this can't be called by the connection handler itself.
+        """
+        if not self.joined:
+            return
+
+        try:
+            self.conn.retry(self.party.join)
+        except Exception:
+            log.exception("Error rejoining group '%s'", self.group_name)
 
     def on_group_members_change(self, new_members):
         """
-- 
2.43.0


From d86c39b493e595e45386dac53db3115a2ce5fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 51/58] fix: a session lost during an update of the shared set
 undid others' updates

---
 kiel/zookeeper/shared_set.py | 38 ++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 8827eb6..d82b1d3 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -1,10 +1,32 @@
+import functools
 import json
 import logging
 
+from kazoo import exceptions
+
 
 log = logging.getLogger(__name__)
 
 
+def redo_if_outdated(update):
+    """
+    Decorator for methods that update the set, repeats the update if the data
+    it was based on has changed in the meantime.
+
+    The lock alone can't rule that out: when the session is lost the lock is
+    released for others to take.
+    """
+    @functools.wraps(update)
+    def redoing_update(self, items):
+        while True:
+            try:
+                return update(self, items)
+            except exceptions.BadVersionError:
+                log.debug("Set at %s changed meanwhile, redoing.", self.path)
+
+    return redoing_update
+
+
 class SharedSet(object):
     """
     A simple "set" construct in Zookeeper with locking and change callbacks.
@@ -39,6 +61,7 @@ class SharedSet(object):
 
             self.on_change(data)
 
+    @redo_if_outdated
     def add_items(self, new_items):
         """
         Updates the shared set's data with the given new items added.
@@ -49,7 +72,8 @@ class SharedSet(object):
         among sharers of the set.
         """
         with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
+            data, stat = self.client.get(self.path)
+            existing_items = self.deserialize(data)
             if not existing_items:
                 existing_items = set()
 
@@ -59,9 +83,11 @@ class SharedSet(object):
             existing_items.update(new_items)
 
             self.client.set(
-                self.path, self.serialize(existing_items)
+                self.path, self.serialize(existing_items),
+                version=stat.version
             )
 
+    @redo_if_outdated
     def remove_items(self, old_items):
         """
         Updates the shared set's data with the given items removed.
@@ -72,14 +98,18 @@ class SharedSet(object):
         among sharers of the set.
         """
         with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
+            data, stat = self.client.get(self.path)
+            existing_items = self.deserialize(data)
 
             if old_items.isdisjoint(existing_items):
                 return
 
             existing_items.difference_update(old_items)
 
-            self.client.set(self.path, self.serialize(existing_items))
+            self.client.set(
+                self.path, self.serialize(existing_items),
+                version=stat.version
+            )
 
     def serialize(self, data):
         """
-- 
2.43.0


From f6de576469d2e6f809309834b6dd242629aa8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 52/58] fix: a commit of earlier offsets settled topics
 consumed further since

The topic was dropped from those to commit, and a retry of its own commit
then sent nothing.
---
 kiel/clients/grouped.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6ae78ae..04f4aef 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -302,14 +302,21 @@ class GroupedConsumer(BaseConsumer):
             metadata = ""
         if retry:
             yield self.commit_offsets(metadata=metadata)
+            return
+
+        # topics that were consumed further in the meantime are left to do
+        for topic in request.topics:
+            if all(
+                    self.offsets[topic.name].get(partition.partition_id) ==
+                    partition.offset
+                    for partition in topic.partitions
+            ):
+                self.topics_to_commit.discard(topic.name)
 
     def handle_offset_commit_response(self, response):
         """
         Handles responses from the "offset commit" api.
 
-        Topics without any errors that call for a retry are dropped from the
-        set of topics that need commits.
-
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
         """
@@ -317,19 +324,16 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
-            settled = True
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
                     pass
                 elif code in errors.retriable:
-                    settled = False
                     retry = True
                     self.heal_cluster = True
                     if code in COORDINATOR_LOST:
                         self.coordinator_id = None
                 elif code == errors.offset_metadata_too_large:
-                    settled = False
                     retry = True
                     adjust_metadata = True
                 else:
@@ -339,9 +343,6 @@ class GroupedConsumer(BaseConsumer):
                         topic.name, partition.partition_id
                     )
 
-            if settled:
-                self.topics_to_commit.discard(topic.name)
-
         return (retry, adjust_metadata)
 
     @gen.coroutine
-- 
2.43.0


From 1939c9b3fdb1ba84327f4d75898eef2b10cb7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 53/58] fix: stopping an allocator that had not joined its
 party failed

---
 kiel/zookeeper/allocator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index b8c0889..447e91e 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -137,10 +137,14 @@ class PartitionAllocator(object):
         log.info("Stopping partitioner for group '%s'", self.group_name)
         f = concurrent.Future()
 
+        steps = [self.conn.stop, self.conn.close]
+        if self.joined:
+            steps.insert(0, self.party.leave)
+
         self.joined = False
 
         # one step failing is no reason to skip the others
-        for step in (self.party.leave, self.conn.stop, self.conn.close):
+        for step in steps:
             try:
                 step()
             except Exception as e:
-- 
2.43.0


From 1af582804f046c9d43564c4b32eac1dd45e4b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 54/58] fix: closing after a failed sync dropped messages of
 topics that still exist

---
 kiel/clients/producer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index fda7892..414d7db 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -263,6 +263,12 @@ class Producer(Client):
 
             yield self.flush()
 
+            if all(topic in self.cluster.topics for topic in self.unsent):
+                continue
+
+            # a sync that failed half way knows too few topics
+            yield self.cluster.heal()
+
             for topic in list(self.unsent):
                 if topic not in self.cluster.topics:
                     log.error("Topic %s gone, unable to flush it", topic)
-- 
2.43.0


From 7a2b95ac1d756dd10fc8d4f3e9839c9f939bd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 55/58] fix: a message that can't be encoded blocked the
 producer for good

---
 kiel/clients/producer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 414d7db..c786f70 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -109,14 +109,16 @@ class Producer(Client):
             log.error("Unknown topic %s and not auto-created", topic)
             return
 
-        self.unsent[topic].append(
-            messages.Message(
-                magic=0,
-                attributes=0,
-                key=self.key_maker(message),
-                value=self.serializer(message)
-            )
+        entry = messages.Message(
+            magic=0,
+            attributes=0,
+            key=self.key_maker(message),
+            value=self.serializer(message)
         )
+        # one that can't be encoded would hold up all of the others
+        entry.render()
+
+        self.unsent[topic].append(entry)
 
         if not self.batch_size or self.unsent_count >= self.batch_size:
             yield self.flush()
-- 
2.43.0


From cc3e91cfc5412621d0b41fd4dadaf40a26ae73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 56/58] fix: messages were lost if compressing them failed

---
 kiel/clients/producer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index c786f70..39fbdaa 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -172,9 +172,6 @@ class Producer(Client):
                     continue
                 ordered[leader][topic][partition].append(msg)
 
-        # all of them are spoken for now
-        self.unsent.clear()
-
         requests = {}
         for leader, topics in six.iteritems(ordered):
             requests[leader] = produce_api.ProduceRequest(
@@ -199,6 +196,9 @@ class Producer(Client):
                         requests[leader].correlation_id
                     ][topic][partition_id] = msgs
 
+        # all of them are spoken for now
+        self.unsent.clear()
+
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-- 
2.43.0


From fa9dcabdb74d54da4bada177ffa19d917e40193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 57/58] fix: a response frame of negative size is an error, not
 a response

read_bytes() takes a negative size to mean all but the last few bytes of
what is buffered, so such a frame could be taken for an answer.
---
 kiel/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kiel/connection.py b/kiel/connection.py
index aa7900e..636fb0c 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -204,6 +204,8 @@ class Connection(object):
         correlation_id = correlation_struct.unpack_from(raw_correlation)[0]
 
         size -= correlation_struct.size
+        if size < 0:
+            raise ValueError("Response size too small: %d" % size)
 
         raw_payload = yield self.stream.read_bytes(size)
         api = self.api_correlation.pop(correlation_id)
-- 
2.43.0


From 92d1ad0393fbce10352a6ca0ffa5712b6ff80375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 58/58] fix: don't fetch partitions whose offsets aren't
 determined

A rebalance replaces the allocation from another thread, at any point of
consume().  A partition gained after the topic's offsets were determined was
fetched (and committed) from offset zero, and a topic lost between two looks
at the allocation raised a KeyError.
---
 kiel/clients/consumer.py | 14 ++++++++++----
 kiel/clients/grouped.py  | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 3382735..8bb35ef 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -58,6 +58,12 @@ class BaseConsumer(Client):
         """
         raise NotImplementedError
 
+    def fetchable_partitions(self, topic):
+        """
+        Gives the partitions of the topic that `consume()` is to fetch from.
+        """
+        return self.allocation.get(topic, [])
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -87,16 +93,16 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
         while topic not in self.synced_offsets:
-            if topic not in self.allocation or not self.allocation[topic]:
+            if not self.allocation.get(topic):
                 log.debug("No longer allocated any of topic %s", topic)
                 raise gen.Return([])
 
@@ -113,7 +119,7 @@ class BaseConsumer(Client):
                 raise
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation[topic]:
+        for partition_id in self.fetchable_partitions(topic):
             try:
                 leader = self.cluster.get_leader(topic, partition_id)
             except KeyError:
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 04f4aef..a770e2c 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -58,6 +58,7 @@ class GroupedConsumer(BaseConsumer):
         )
 
         self.topics_to_commit = set()
+        self.determined_partitions = {}
         self.autocommit = autocommit
 
     @property
@@ -67,6 +68,19 @@ class GroupedConsumer(BaseConsumer):
         """
         return self.allocator.allocation
 
+    def fetchable_partitions(self, topic):
+        """
+        Leaves out partitions whose offsets have yet to be determined.
+
+        The allocation is replaced by another thread, which can happen after
+        the offsets were determined.
+        """
+        return [
+            partition_id
+            for partition_id in self.allocation.get(topic, [])
+            if partition_id in self.determined_partitions.get(topic, [])
+        ]
+
     @gen.coroutine
     def connect(self):
         """
@@ -188,12 +202,15 @@ class GroupedConsumer(BaseConsumer):
             if coordinator_id is None:
                 raise exc.NoOffsetsError
 
+            partitions = list(self.allocation.get(topic, []))
+            self.determined_partitions[topic] = partitions
+
             request = offset_fetch.OffsetFetchRequest(
                 group_name=self.group_name,
                 topics=[
                     offset_fetch.TopicRequest(
                         name=topic,
-                        partitions=list(self.allocation.get(topic, []))
+                        partitions=partitions
                     )
                 ]
             )
-- 
2.43.0

