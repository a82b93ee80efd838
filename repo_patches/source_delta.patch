From ce8273fa75aab7f57b6b51befe8fa8a910a5bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 01/44] fix: lmdb backend records last event id of events that
 are not stored

Ids of registered (and notified) events which were not stored by any
database, or didn't match conditions, were handed out again after engine
or server restart.
---
 src_py/hat/event/backends/lmdb/backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..e6f5c73 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -153,6 +153,10 @@ class LmdbBackend(common.Backend):
                 mlog.warning("event registration skipped: invalid event id")
                 continue
 
+            # event id is used (even if event isn't stored) and must not be
+            # associated with another event
+            self._dbs.system.set_last_event_id(event.id)
+
             if last_timestamp > event.timestamp:
                 mlog.warning("event registration skipped: invalid timestamp")
                 continue
@@ -163,6 +167,8 @@ class LmdbBackend(common.Backend):
                     event.type)
                 continue
 
+            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
+
             refs = collections.deque()
 
             latest_result = self._dbs.latest.add(event)
@@ -179,8 +185,6 @@ class LmdbBackend(common.Backend):
                 continue
 
             self._dbs.ref.add(event, refs)
-            self._dbs.system.set_last_event_id(event.id)
-            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
 
         self._registered_queue.append(events)
         self._registered_count += len(events)
-- 
2.43.0


From 8391e4d4ef4107cd51420d29e43271101740e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 02/44] fix: lmdb latest db removes reference of replaced
 hidden event

After change of conditions or latest subscription, latest event that is
stored but hidden was overwritten without removing its reference, so
server query returned other event (twice) in its place.
---
 src_py/hat/event/backends/lmdb/latestdb.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/latestdb.py b/src_py/hat/event/backends/lmdb/latestdb.py
index 42c8137..402afd9 100644
--- a/src_py/hat/event/backends/lmdb/latestdb.py
+++ b/src_py/hat/event/backends/lmdb/latestdb.py
@@ -32,9 +32,14 @@ def ext_create(env: environment.Environment,
         event_type: ref
         for ref, event_type in env.ext_read(txn, common.DbType.LATEST_TYPE)}
 
+    stored_events = list(env.ext_read(txn, common.DbType.LATEST_DATA))
+
+    # includes events which are stored but hidden by current configuration
+    db._event_ids = {ref: event.id for ref, event in stored_events}
+
     db._events = {
         event.type: event
-        for ref, event in env.ext_read(txn, common.DbType.LATEST_DATA)
+        for ref, event in stored_events
         if conditions.matches(event) and
         subscription.matches(event.type) and
         db._event_type_refs.get(event.type) == ref}
@@ -65,12 +70,15 @@ class LatestDb:
             self._changes.types[event_type_ref] = event.type
             self._event_type_refs[event.type] = event_type_ref
 
+        previous_event_id = self._event_ids.get(event_type_ref)
+
         self._changes.data[event_type_ref] = event
         self._events[event.type] = event
+        self._event_ids[event_type_ref] = event.id
 
         added_ref = common.LatestEventRef(event_type_ref)
-        removed_ref = ((previous_event.id, added_ref)
-                       if previous_event else None)
+        removed_ref = ((previous_event_id, added_ref)
+                       if previous_event_id else None)
         return AddResult(added_ref=added_ref,
                          removed_ref=removed_ref)
 
-- 
2.43.0


From cc771df78709b2d5389d4453c5226e98ee69b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 03/44] fix: lmdb timeseries query of events that are not
 flushed

Not flushed events were expected to be sorted by partition's timestamp and
newer than all flushed events. This doesn't hold for source timestamps or
for events of multiple servers - results were unsorted and incomplete, and
paging lost events.
---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 133 ++++++------------
 1 file changed, 42 insertions(+), 91 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..66d411e 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,7 @@
 from collections.abc import Iterable
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -149,9 +150,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +158,11 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
-
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+        changes = list(self._changes.get(partition_id, []))
 
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, changes, params, filter)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -226,19 +209,20 @@ def _ext_init_partitions(env, txn, partitions):
         yield partition_id, partition
 
 
-def _ext_query_partition_events(env, conditions, partition_id, params,
+def _ext_query_partition_events(env, conditions, partition_id, changes, params,
                                 filter):
-    if params.order_by == common.OrderBy.TIMESTAMP:
-        events = _ext_query_partition_events_range(
-            env, partition_id, params.t_from, params.t_to, params.order)
+    t_from, t_to = _get_range(params)
+    events = _ext_query_partition_events_range(
+        env, partition_id, t_from, t_to, params.order)
 
-    elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-        events = _ext_query_partition_events_range(
-            env, partition_id, params.source_t_from, params.source_t_to,
-            params.order)
+    # changes are in order of registration which isn't partition's order
+    changes_events = _get_sorted_changes(changes, params)
 
-    else:
-        raise ValueError('unsupported order by')
+    if changes_events:
+        events = heapq.merge(
+            events, changes_events,
+            key=lambda event: _get_sort_key(event, params.order_by),
+            reverse=params.order == common.Order.DESCENDING)
 
     events = (event for event in events if conditions.matches(event))
     events = filter.process(events)
@@ -393,65 +377,32 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
-    if params.order == common.Order.DESCENDING:
-        events = (event for _, event in reversed(changes))
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.t_to < i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.source_t_to < i.source_timestamp,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.t_from <= i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.source_t_from <= i.source_timestamp,
-                events)
-
-    elif params.order == common.Order.ASCENDING:
-        events = (event for _, event in changes)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.timestamp < params.t_from,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.source_timestamp < params.source_t_from,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.timestamp <= params.t_to,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.source_timestamp <= params.source_t_to,
-                events)
-
-    else:
-        raise ValueError('unsupported order')
-
-    return filter.process(events)
+def _get_sorted_changes(changes, params):
+    t_from, t_to = _get_range(params)
+    events = (event for timestamp, event in changes
+              if (t_from is None or t_from <= timestamp) and
+              (t_to is None or timestamp <= t_to))
+
+    return sorted(events,
+                  key=lambda event: _get_sort_key(event, params.order_by),
+                  reverse=params.order == common.Order.DESCENDING)
+
+
+def _get_range(params):
+    if params.order_by == common.OrderBy.TIMESTAMP:
+        return params.t_from, params.t_to
+
+    if params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
+        return params.source_t_from, params.source_t_to
+
+    raise ValueError('unsupported order by')
+
+
+def _get_sort_key(event, order_by):
+    if order_by == common.OrderBy.TIMESTAMP:
+        return event.timestamp, event.id
+
+    return event.source_timestamp, event.id
 
 
 class _Filter:
-- 
2.43.0


From 7060680bc96db1dc6f1f1f4e1193f7d6b4e0df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 04/44] fix: lmdb backend opens database left by interrupted
 creation

---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 16 ++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..eff866e 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), txn=txn, create=create)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..2bf228f 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,15 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # environment without databases is new or left by interrupted creation
+        create = not self._env.stat()['entries']
+
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From 96e1ce245ee98d06aeb51ece7d3ff726da97c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 05/44] fix: subscription intersection with variable length and
 dead query types

---
 .../hat/event/common/subscription/common.py   | 68 ++++++++++---------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..db58fc9 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -80,42 +80,44 @@ def union(first: Node, second: Node) -> Node:
 
 
 def intersection(first: Node, second: Node) -> Node:
-    is_leaf = first.is_leaf and second.is_leaf
-
     if '*' in first.children:
-        children = second.children
+        return second
 
-    elif '*' in second.children:
-        children = first.children
+    if '*' in second.children:
+        return first
 
-    else:
-        children = {}
-
-        for name, child, other_children in itertools.chain(
-                ((name, child, second.children)
-                 for name, child in first.children.items()),
-                ((name, child, first.children)
-                 for name, child in second.children.items())):
-
-            if name == '?':
-                candidates = other_children
-
-            else:
-                candidates = {}
-                other_child = other_children.get(name)
-                if other_child:
-                    candidates[name] = other_child
-                other_child = other_children.get('?')
-                if other_child:
-                    candidates['?'] = other_child
-
-            for other_name, other_child in candidates.items():
-                result_name = name if name != '?' else other_name
-                result_children = intersection(child, other_child)
-                prev_result_children = children.get(result_name)
-                children[result_name] = (
-                    union(prev_result_children, result_children)
-                    if prev_result_children else result_children)
+    is_leaf = first.is_leaf and second.is_leaf
+    children = {}
+
+    for name, child, other_children in itertools.chain(
+            ((name, child, second.children)
+             for name, child in first.children.items()),
+            ((name, child, first.children)
+             for name, child in second.children.items())):
+
+        if name == '?':
+            candidates = other_children
+
+        else:
+            candidates = {}
+            other_child = other_children.get(name)
+            if other_child:
+                candidates[name] = other_child
+            other_child = other_children.get('?')
+            if other_child:
+                candidates['?'] = other_child
+
+        for other_name, other_child in candidates.items():
+            result_name = name if name != '?' else other_name
+            result_child = intersection(child, other_child)
+
+            # nodes without leafs do not match anything
+            if not result_child.is_leaf and not result_child.children:
+                continue
+
+            prev_result_child = children.get(result_name)
+            children[result_name] = (union(prev_result_child, result_child)
+                                     if prev_result_child else result_child)
 
     return Node(is_leaf, children)
 
-- 
2.43.0


From 8f94915470b77af41838860ff67b6b99e90c9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 06/44] fix: tree collection adds all query types of value

---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From dab1fcc2c6fb5b0ce2c27658b8fc466047e1d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 07/44] fix: encoding of binary payloads other than bytes

---
 src_py/hat/event/common/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..a770af8 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -257,7 +257,7 @@ def event_payload_to_sbs(payload: EventPayload) -> sbs.Data:
     """Convert EventPayload to SBS data"""
     if isinstance(payload, EventPayloadBinary):
         return 'binary', {'type': payload.type,
-                          'data': payload.data}
+                          'data': bytes(payload.data)}
 
     if isinstance(payload, EventPayloadJson):
         return 'json', json.encode(payload.data)
-- 
2.43.0


From b4157c609e50e82ad2585bb4d3d0b03f844d3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 08/44] fix: conversion of datetime to timestamp

---
 src_py/hat/event/common/encoder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index a770af8..a3962a3 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,10 +107,8 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
-
-    if dt.timestamp() < 0:
-        s = s - 1
+    # without microseconds, conversion to float is exact
+    s = int(dt.replace(microsecond=0).timestamp())
 
     return Timestamp(s=s, us=dt.microsecond)
 
-- 
2.43.0


From 4c01a6a57826dfdeaad5461406cdd6d62fbbb6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 09/44] fix: conversion of large negative float to timestamp

---
 src_py/hat/event/common/encoder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index a3962a3..dacf08f 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -1,4 +1,5 @@
 import datetime
+import math
 import struct
 
 from hat import json
@@ -57,10 +58,7 @@ def timestamp_from_float(ts: float) -> Timestamp:
     For precise serialization see `timestamp_to_bytes`/`timestamp_from_bytes`.
 
     """
-    s = int(ts)
-    if ts < 0:
-        s = s - 1
-
+    s = math.floor(ts)
     us = round((ts - s) * 1E6)
 
     if us == 1_000_000:
-- 
2.43.0


From 144ac8e66e9a3f3c8e571ac74616abf97a186a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 10/44] fix: memory backend timeseries and server queries and
 last event id

---
 src_py/hat/event/backends/memory.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..1cc0cb2 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -89,9 +89,10 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event.id)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = _filter_source_timestamp(events)
+            sort_key = lambda event: (event.source_timestamp, event.id)  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -122,11 +123,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -160,19 +159,25 @@ def _filter_t_to(events, t_to):
             yield event
 
 
-def _filter_source_t_from(events, source_t_from):
+def _filter_source_timestamp(events):
     for event in events:
+        if event.source_timestamp is not None:
+            yield event
+
+
+def _filter_source_t_from(events, source_t_from):
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp >= source_t_from:
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
-    for event in events:
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp <= source_t_to:
             yield event
 
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From 287ea356079ea90b58387605388c44c2de2ec399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 11/44] fix: disconnect of eventer client ends waiting for acks
 of other clients

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..60de755 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (i, _), future in self._conn_conv_futures.items():
+                if i is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From 3fc66b15a0495af0b26cc3dbaeb228e8997588d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 12/44] fix: registrations are not left waiting when creation
 of engine fails

---
 src_py/hat/event/server/engine.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..370c02b 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -60,6 +60,8 @@ async def create_engine(backend: common.Backend,
         engine.async_group.spawn(engine._register_loop)
 
     except BaseException:
+        engine.close()
+        engine._close_register_queue()
         await aio.uncancellable(engine.async_close())
         raise
 
@@ -138,20 +140,23 @@ class Engine(common.Engine):
         finally:
             mlog.debug("register loop closed")
             self.close()
-            self._register_queue.close()
-
-            while True:
-                if future and not future.done():
-                    future.set_exception(Exception('engine closed'))
-                if self._register_queue.empty():
-                    break
-                future, _, __ = self._register_queue.get_nowait()
+            if future and not future.done():
+                future.set_exception(Exception('engine closed'))
+            self._close_register_queue()
 
             timestamp = self._create_session()
             status_reg_event = self._create_status_reg_event('STOPPED')
             events = [self._create_event(timestamp, status_reg_event)]
             await self._backend.register(events)
 
+    def _close_register_queue(self):
+        self._register_queue.close()
+
+        while not self._register_queue.empty():
+            future, _, __ = self._register_queue.get_nowait()
+            if not future.done():
+                future.set_exception(Exception('engine closed'))
+
     async def _process_sessions(self, source, register_events):
         timestamp = self._create_session()
 
-- 
2.43.0


From 14c8428a39de2ba8f9cd33d222ba93e401ad26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 13/44] fix: import of logging.config used by adminer server

---
 src_py/hat/event/server/adminer_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/adminer_server.py b/src_py/hat/event/server/adminer_server.py
index 7460cb4..73d70f1 100644
--- a/src_py/hat/event/server/adminer_server.py
+++ b/src_py/hat/event/server/adminer_server.py
@@ -1,4 +1,4 @@
-import logging
+import logging.config
 
 from hat import aio
 from hat import json
-- 
2.43.0


From 85feefa9e04778567d3637805e0eecce18ea986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 14/44] fix: late response to abandoned adminer request doesn't
 close connection

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From c2a7efb165f62cf9467b1014e8cfe79afafe0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 15/44] fix: late notifications of synchronized events are not
 registered again

---
 src_py/hat/event/server/eventer_client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_py/hat/event/server/eventer_client.py b/src_py/hat/event/server/eventer_client.py
index a65c6ea..d7ebe71 100644
--- a/src_py/hat/event/server/eventer_client.py
+++ b/src_py/hat/event/server/eventer_client.py
@@ -49,6 +49,7 @@ async def create_eventer_client(addr: tcp.Address,
     client._synced_cb = synced_cb
     client._synced = None
     client._events_queue = collections.deque()
+    client._synced_event_id = None
 
     client._client = await eventer.connect(addr=addr,
                                            client_name=client_name,
@@ -118,6 +119,11 @@ class EventerClient(aio.Resource):
             self._events_queue.append(events)
             return
 
+        events = [event for event in events
+                  if event.id > self._synced_event_id]
+        if not events:
+            return
+
         await self._backend.register(events)
 
     async def _synchronize(self):
@@ -172,6 +178,7 @@ class EventerClient(aio.Resource):
 
                 await self._backend.register(events)
 
+            self._synced_event_id = last_event_id
             self._events_queue = None
 
             mlog.debug("synchronized %s events", synced_counter)
-- 
2.43.0


From a649a40648a6fd29f65f1b167cf4c2eac497ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 16/44] fix: component reconnects if connection is lost while
 runner is created

---
 src_py/hat/event/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..a4d5f15 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -270,6 +270,11 @@ class Component(aio.Resource):
                     finally:
                         await aio.uncancellable(runner.async_close())
 
+                except asyncio.CancelledError:
+                    # closing of client cancels creation of runner
+                    if not async_group.is_open:
+                        raise
+
                 finally:
                     await aio.uncancellable(client.async_close())
 
-- 
2.43.0


From 43b5ea94b39d4e8f5015ee39ef22bbff1c7d0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 17/44] fix: runner created while waiting for it is canceled is
 closed

---
 src_py/hat/event/component.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index a4d5f15..09438f1 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -246,10 +246,16 @@ class Component(aio.Resource):
                     await asyncio.sleep(self._reconnect_delay)
                     continue
 
+                runner = None
+
+                async def create_runner():
+                    nonlocal runner
+                    runner = await aio.call(self._runner_cb, self,
+                                            server_data, client)
+
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
-                        aio.call, self._runner_cb, self, server_data, client)
+                    await client.async_group.spawn(create_runner)
 
                     try:
                         async with async_group.create_subgroup() as subgroup:
@@ -278,6 +284,10 @@ class Component(aio.Resource):
                 finally:
                     await aio.uncancellable(client.async_close())
 
+                    # runner can be created after waiting for it is canceled
+                    if runner:
+                        await aio.uncancellable(runner.async_close())
+
                 mlog.debug("connection to server closed")
                 await asyncio.sleep(self._reconnect_delay)
 
-- 
2.43.0


From a787350ef99bd000d706dfebfaf3f401b9935a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 18/44] fix: component isn't closed when server changes while
 blessing is lost

---
 src_py/hat/event/component.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 09438f1..8c43cbb 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -211,6 +211,10 @@ class Component(aio.Resource):
                 while not server_data or not server_data_queue.empty():
                     server_data = await server_data_queue.get_until_empty()
 
+                # group can be closed before loop is canceled
+                if not async_group.is_open:
+                    return
+
                 async with async_group.create_subgroup() as subgroup:
                     subgroup.spawn(self._client_loop, subgroup, server_data)
                     server_data = await server_data_queue.get_until_empty()
@@ -258,6 +262,10 @@ class Component(aio.Resource):
                     await client.async_group.spawn(create_runner)
 
                     try:
+                        # group can be closed before loop is canceled
+                        if not async_group.is_open:
+                            return
+
                         async with async_group.create_subgroup() as subgroup:
                             client_closing_task = subgroup.spawn(
                                 client.wait_closing)
-- 
2.43.0


From 174c4c46a0f61f9610985b106bf29fdb700770eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 19/44] fix: failed conversion leaves no target database and
 keeps other files

---
 .../hat/event/backends/lmdb/convert/main.py   | 36 +++++++++----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/convert/main.py b/src_py/hat/event/backends/lmdb/convert/main.py
index 533ddf8..5f77915 100644
--- a/src_py/hat/event/backends/lmdb/convert/main.py
+++ b/src_py/hat/event/backends/lmdb/convert/main.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 import sys
+import tempfile
 import typing
 
 from hat import util
@@ -56,31 +57,28 @@ def convert(src_path: Path,
     if version == target_version:
         raise Exception(f"{src_path} already up to date")
 
-    tmp_src_path = src_path
+    # intermediate and unfinished results are kept apart from other files
+    with tempfile.TemporaryDirectory(prefix=f"{dst_path.name}.",
+                                     dir=dst_path.parent) as tmp_dir:
+        tmp_src_path = src_path
 
-    while version != target_version:
-        conversion = util.first(conversions,
-                                lambda i: i.src_version == version)
-        if not conversion:
-            raise Exception(f"unsupported version {version.value}")
+        while version != target_version:
+            conversion = util.first(conversions,
+                                    lambda i: i.src_version == version)
+            if not conversion:
+                raise Exception(f"unsupported version {version.value}")
 
-        if conversion.dst_version == target_version:
-            tmp_dst_path = dst_path
+            tmp_dst_path = Path(tmp_dir) / f"{conversion.dst_version.name}.db"
 
-        else:
-            tmp_dst_path = dst_path.with_suffix(
-                f"{dst_path.suffix}.{conversion.dst_version.name}")
+            conversion.convert(tmp_src_path, tmp_dst_path)
+            version = conversion.dst_version
 
-        if tmp_dst_path.exists():
-            tmp_dst_path.unlink()
+            if tmp_src_path != src_path:
+                tmp_src_path.unlink()
 
-        conversion.convert(tmp_src_path, tmp_dst_path)
-        version = conversion.dst_version
+            tmp_src_path = tmp_dst_path
 
-        if tmp_src_path != src_path:
-            tmp_src_path.unlink()
-
-        tmp_src_path = tmp_dst_path
+        tmp_src_path.rename(dst_path)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 4d091f2857e24cc2311ba39b7b38a5feb390970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 20/44] fix: latest and ref queries of lmdb manager

---
 src_py/hat/event/backends/lmdb/manager/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,13 +57,13 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 2fd0e52d25bef18f77c4b1cb5b6144c5b1c2779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 21/44] fix: result of manager's register action

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..ac84744 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -231,7 +231,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From 34a43cadd4ad892db73fac2961abb692f1b74a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 22/44] fix: manager's server query

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index ac84744..b179101 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From 09459ca1c5535a1dbaf09dbc967d273b07ca5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 23/44] fix: parsing of manager's last event id argument

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index b179101..63d770f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -306,7 +306,7 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
 def _parse_order(order):
-- 
2.43.0


From 77555304749c73e9f6fe2f79a564972f8bbd89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 24/44] fix: manager's order arguments

---
 src_py/hat/event/manager/main.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 63d770f..7ccf3d1 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
@@ -309,14 +308,6 @@ def _parse_event_id(event_id):
     return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
-
-
 def _read_payload(payload_type, binary_type, path):
     if payload_type == 'none':
         return
-- 
2.43.0


From 0455c8ee45f8262f1f125e0e9d88eb9cf36b3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 25/44] fix: native subscription disjointness of types with
 common prefix

---
 src_c/py/subscription/_csubscription.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index d9605e8..31b967e 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -214,11 +214,8 @@ static bool isdisjoint(node_t *first, node_t *second) {
     if (second->has_star)
         return !first->is_leaf && !first->children;
 
-    if (!first->children)
-        return !first->is_leaf || !second->children;
-
-    if (!second->children)
-        return !second->is_leaf || !first->children;
+    if (!first->children || !second->children)
+        return true;
 
     node_t *first_child;
     node_t *second_child;
-- 
2.43.0


From a0a0f2c4d801312ae3657f4a880513f9c4aea704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 26/44] fix: reference leak of native subscription

---
 src_c/py/subscription/_csubscription.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 31b967e..0c571cb 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -60,6 +60,8 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
             return 1;
         }
 
+        Py_DECREF(subtype);
+
         node->is_leaf = true;
         node->has_star = true;
         free_children(node);
-- 
2.43.0


From d7347554f3f7af46d3675c3f998e9787720decd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 27/44] fix: native subscription subtypes with embedded null
 character

---
 src_c/py/subscription/_csubscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 0c571cb..f2dd211 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -51,7 +51,7 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
         return 1;
     }
 
-    if (strcmp(key, "*") == 0) {
+    if (key_size == 1 && *key == '*') {
         PyObject *next = PyIter_Next(query_type_iter);
         if (next) {
             Py_DECREF(next);
-- 
2.43.0


From 124ea20c573fbb53a2e251fb793b6d8786870f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 28/44] fix: native collection removal by invalid references

---
 src_c/py/collection/_ctree.c | 45 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index b70bf48..e2a9c86 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -19,6 +19,7 @@ struct obj_list_t {
 };
 
 struct ref_t {
+    PyObject *collection;
     obj_list_t *list;
     obj_node_t *node;
 };
@@ -31,6 +32,9 @@ struct tree_node_t {
 };
 
 
+static const char *ref_name = "hat.event.common.collection._ctree.ref";
+
+
 static void free_obj_list(obj_list_t *list) {
     obj_node_t *node = list->head;
     while (node) {
@@ -79,12 +83,14 @@ static tree_node_t *create_tree_node() {
 
 
 static void ref_obj_destructor(PyObject *obj) {
-    ref_t *ref = PyCapsule_GetPointer(obj, NULL);
+    ref_t *ref = PyCapsule_GetPointer(obj, ref_name);
+    Py_DECREF(ref->collection);
     PyMem_Free(ref);
 }
 
 
-static PyObject *add_value_to_list(obj_list_t *list, PyObject *value) {
+static PyObject *add_value_to_list(PyObject *collection, obj_list_t *list,
+                                   PyObject *value) {
     obj_node_t *new_obj_node = NULL;
     ref_t *ref = NULL;
 
@@ -96,11 +102,12 @@ static PyObject *add_value_to_list(obj_list_t *list, PyObject *value) {
     if (!ref)
         goto error;
 
-    PyObject *ref_obj = PyCapsule_New(ref, NULL, ref_obj_destructor);
+    PyObject *ref_obj = PyCapsule_New(ref, ref_name, ref_obj_destructor);
     if (!ref_obj)
         goto error;
 
     Py_INCREF(value);
+    Py_INCREF(collection);
 
     *new_obj_node =
         (obj_node_t){.prev = NULL, .next = list->head, .obj = value};
@@ -108,7 +115,8 @@ static PyObject *add_value_to_list(obj_list_t *list, PyObject *value) {
         list->head->prev = new_obj_node;
     list->head = new_obj_node;
 
-    *ref = (ref_t){.list = list, .node = new_obj_node};
+    *ref =
+        (ref_t){.collection = collection, .list = list, .node = new_obj_node};
 
     return ref_obj;
 
@@ -120,10 +128,11 @@ error:
 }
 
 
-static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
-                                   PyObject *value, size_t query_type_index) {
+static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
+                                   PyObject *query_type, PyObject *value,
+                                   size_t query_type_index) {
     if (query_type_index >= PyTuple_Size(query_type))
-        return add_value_to_list(&(node->values), value);
+        return add_value_to_list(collection, &(node->values), value);
 
     PyObject *query_type_head = PyTuple_GetItem(query_type, query_type_index);
     if (!query_type_head)
@@ -136,7 +145,7 @@ static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
         return NULL;
 
     if (query_type_head_len == 1 && query_type_head_str[0] == '*')
-        return add_value_to_list(&(node->asterisk_values), value);
+        return add_value_to_list(collection, &(node->asterisk_values), value);
 
     if (query_type_head_len == 1 && query_type_head_str[0] == '?') {
         if (!node->question_child) {
@@ -145,8 +154,8 @@ static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
                 return NULL;
         }
 
-        return add_value_to_tree(node->question_child, query_type, value,
-                                 query_type_index + 1);
+        return add_value_to_tree(collection, node->question_child, query_type,
+                                 value, query_type_index + 1);
     }
 
     if (!node->children) {
@@ -169,7 +178,8 @@ static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
         }
     }
 
-    return add_value_to_tree(child, query_type, value, query_type_index + 1);
+    return add_value_to_tree(collection, child, query_type, value,
+                             query_type_index + 1);
 }
 
 
@@ -262,14 +272,23 @@ static PyObject *Collection_add(Collection *self, PyObject *args) {
         return NULL;
     }
 
-    return add_value_to_tree(self->root, query_type, value, 0);
+    return add_value_to_tree((PyObject *)self, self->root, query_type, value,
+                             0);
 }
 
 
 static PyObject *Collection_remove(Collection *self, PyObject *ref_obj) {
-    ref_t *ref = PyCapsule_GetPointer(ref_obj, NULL);
+    ref_t *ref = PyCapsule_GetPointer(ref_obj, ref_name);
+    if (!ref)
+        return NULL;
+
+    if (ref->collection != (PyObject *)self || !ref->node) {
+        PyErr_SetString(PyExc_ValueError, "invalid reference");
+        return NULL;
+    }
 
     obj_node_t *node = ref->node;
+    ref->node = NULL;
 
     if (node->prev) {
         node->prev->next = node->next;
-- 
2.43.0


From 88117ef6b39430ce76333fe2d0075232d505aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 29/44] fix: missing exceptions of native collection without
 memory

---
 src_c/py/collection/_ctree.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index e2a9c86..cac6b65 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -70,8 +70,10 @@ static void free_tree_node(tree_node_t *node) {
 
 static tree_node_t *create_tree_node() {
     tree_node_t *result = PyMem_Malloc(sizeof(tree_node_t));
-    if (!result)
+    if (!result) {
+        PyErr_NoMemory();
         return NULL;
+    }
 
     *result = (tree_node_t){.values = {.head = NULL},
                             .asterisk_values = {.head = NULL},
@@ -95,12 +97,16 @@ static PyObject *add_value_to_list(PyObject *collection, obj_list_t *list,
     ref_t *ref = NULL;
 
     new_obj_node = PyMem_Malloc(sizeof(obj_node_t));
-    if (!new_obj_node)
+    if (!new_obj_node) {
+        PyErr_NoMemory();
         goto error;
+    }
 
     ref = PyMem_Malloc(sizeof(ref_t));
-    if (!ref)
+    if (!ref) {
+        PyErr_NoMemory();
         goto error;
+    }
 
     PyObject *ref_obj = PyCapsule_New(ref, ref_name, ref_obj_destructor);
     if (!ref_obj)
@@ -160,8 +166,10 @@ static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
 
     if (!node->children) {
         node->children = hat_ht_create(&hat_py_allocator);
-        if (!node->children)
+        if (!node->children) {
+            PyErr_NoMemory();
             return NULL;
+        }
     }
 
     tree_node_t *child = hat_ht_get(node->children, (void *)query_type_head_str,
@@ -174,6 +182,7 @@ static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
         if (hat_ht_set(node->children, (void *)query_type_head_str,
                        query_type_head_len, child)) {
             free_tree_node(child);
+            PyErr_NoMemory();
             return NULL;
         }
     }
-- 
2.43.0


From c5793e0e4ebff3f28bac76cb76d3d234274f6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 30/44] fix: native collection changed while values are
 collected

---
 src_c/py/collection/_ctree.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index cac6b65..d952201 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -196,12 +196,12 @@ static int get_values(PyObject *result, tree_node_t *node, PyObject *event_type,
                       size_t event_type_index) {
     for (obj_node_t *value = node->asterisk_values.head; value;
          value = value->next)
-        if (PySet_Add(result, value->obj))
+        if (PyList_Append(result, value->obj))
             return -1;
 
     if (event_type_index >= PyTuple_Size(event_type)) {
         for (obj_node_t *value = node->values.head; value; value = value->next)
-            if (PySet_Add(result, value->obj))
+            if (PyList_Append(result, value->obj))
                 return -1;
 
         return 0;
@@ -322,15 +322,19 @@ static PyObject *Collection_get(Collection *self, PyObject *event_type) {
         return NULL;
     }
 
-    PyObject *result = PySet_New(NULL);
-    if (!result)
+    PyObject *values = PyList_New(0);
+    if (!values)
         return NULL;
 
-    if (get_values(result, self->root, event_type, 0)) {
-        Py_DECREF(result);
+    if (get_values(values, self->root, event_type, 0)) {
+        Py_DECREF(values);
         return NULL;
     }
 
+    // hashing of values can change collection
+    PyObject *result = PySet_New(values);
+    Py_DECREF(values);
+
     return result;
 }
 
-- 
2.43.0


From 83db4c02c9ce10888779e64d132a57c5512c774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 31/44] fix: native collection accepted invalid query types

---
 src_c/py/collection/_ctree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index d952201..7f35093 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -150,8 +150,14 @@ static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
     if (!query_type_head_str)
         return NULL;
 
-    if (query_type_head_len == 1 && query_type_head_str[0] == '*')
+    if (query_type_head_len == 1 && query_type_head_str[0] == '*') {
+        if (query_type_index + 1 < PyTuple_Size(query_type)) {
+            PyErr_SetString(PyExc_ValueError, "invalid query type");
+            return NULL;
+        }
+
         return add_value_to_list(collection, &(node->asterisk_values), value);
+    }
 
     if (query_type_head_len == 1 && query_type_head_str[0] == '?') {
         if (!node->question_child) {
-- 
2.43.0


From 555af898e8e358b04cb839ed2600a8ce9acfeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 32/44] fix: native subscription ignored errors of iterators

---
 src_c/py/subscription/_csubscription.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index f2dd211..eb49d26 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -33,6 +33,9 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
 
     PyObject *subtype = PyIter_Next(query_type_iter);
     if (!subtype) {
+        if (PyErr_Occurred())
+            return 1;
+
         node->is_leaf = true;
         return 0;
     }
@@ -60,6 +63,11 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
             return 1;
         }
 
+        if (PyErr_Occurred()) {
+            Py_DECREF(subtype);
+            return 1;
+        }
+
         Py_DECREF(subtype);
 
         node->is_leaf = true;
@@ -326,6 +334,11 @@ static PyObject *Subscription_new(PyTypeObject *type, PyObject *args,
     }
     Py_DECREF(query_types_iter);
 
+    if (PyErr_Occurred()) {
+        Py_DECREF(self);
+        return NULL;
+    }
+
     return (PyObject *)self;
 }
 
-- 
2.43.0


From 8cd9b9cff4b8935f31cb5d13acd9a5b7eb8e8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 33/44] fix: native subscription without memory for query types

---
 src_c/py/subscription/_csubscription.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index eb49d26..db74b31 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -114,6 +114,8 @@ static int get_query_types(node_t *node, PyObject *prefix, PyObject *deque) {
     if (node->has_star) {
         Py_ssize_t query_type_len = PyTuple_Size(prefix) + 1;
         PyObject *query_type = PyTuple_New(query_type_len);
+        if (!query_type)
+            return 1;
 
         for (Py_ssize_t i = 0; i < query_type_len - 1; ++i) {
             PyObject *segment = PyTuple_GetItem(prefix, i);
-- 
2.43.0


From 37c6656b11d46b57fc1e7eecad1fbc145b606cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 34/44] fix: native subscription matching of unusable event
 types

---
 src_c/py/subscription/_csubscription.c | 35 +++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index db74b31..9b21b05 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -184,16 +184,16 @@ static int get_query_types(node_t *node, PyObject *prefix, PyObject *deque) {
 }
 
 
-static bool matches(node_t *node, PyObject *event_type,
-                    Py_ssize_t event_type_size, size_t event_type_index) {
+static int matches(node_t *node, PyObject *event_type,
+                   Py_ssize_t event_type_size, size_t event_type_index) {
     if (node->has_star)
-        return true;
+        return 1;
 
     if (event_type_index >= event_type_size)
         return node->is_leaf;
 
     if (!node->children)
-        return false;
+        return 0;
 
     node_t *child;
 
@@ -201,18 +201,21 @@ static bool matches(node_t *node, PyObject *event_type,
     Py_ssize_t key_size;
     const char *key = PyUnicode_AsUTF8AndSize(subtype, &key_size);
     if (!key)
-        return false;
+        return -1;
     child = hat_ht_get(node->children, (void *)key, key_size);
-    if (child &&
-        matches(child, event_type, event_type_size, event_type_index + 1))
-        return true;
+    if (child) {
+        int result =
+            matches(child, event_type, event_type_size, event_type_index + 1);
+        if (result)
+            return result;
+    }
 
     child = hat_ht_get(node->children, "?", 1);
-    if (child &&
-        matches(child, event_type, event_type_size, event_type_index + 1))
-        return true;
+    if (child)
+        return matches(child, event_type, event_type_size,
+                       event_type_index + 1);
 
-    return false;
+    return 0;
 }
 
 
@@ -395,13 +398,11 @@ static PyObject *Subscription_matches(Subscription *self, PyObject *args) {
 
     Py_ssize_t args_size = PyTuple_Size(args);
 
-    if (matches(&(self->root), args, args_size, 0))
-        return Py_NewRef(Py_True);
-
-    if (PyErr_Occurred())
+    int result = matches(&(self->root), args, args_size, 0);
+    if (result < 0)
         return NULL;
 
-    return Py_NewRef(Py_False);
+    return PyBool_FromLong(result);
 }
 
 
-- 
2.43.0


From 15311917c48e54933c1243896aee4b12cce01264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 35/44] fix: native subscription stack overflow by long query
 types

---
 src_c/py/subscription/_csubscription.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 9b21b05..22fab7a 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -106,7 +106,14 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
     }
     Py_DECREF(subtype);
 
-    return add_query_type(child, query_type_iter);
+    // depth of tree is limited because it is processed recursively
+    if (Py_EnterRecursiveCall(" while adding query event type"))
+        return 1;
+
+    int result = add_query_type(child, query_type_iter);
+    Py_LeaveRecursiveCall();
+
+    return result;
 }
 
 
-- 
2.43.0


From beaeb648220861f9eceeed1ef03a7a9606b4e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 36/44] fix: native collection stack overflow by long query
 types

---
 src_c/py/collection/_ctree.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index 7f35093..c05f55b 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -134,6 +134,11 @@ error:
 }
 
 
+static PyObject *add_value_to_child(PyObject *collection, tree_node_t *child,
+                                    PyObject *query_type, PyObject *value,
+                                    size_t query_type_index);
+
+
 static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
                                    PyObject *query_type, PyObject *value,
                                    size_t query_type_index) {
@@ -166,8 +171,8 @@ static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
                 return NULL;
         }
 
-        return add_value_to_tree(collection, node->question_child, query_type,
-                                 value, query_type_index + 1);
+        return add_value_to_child(collection, node->question_child, query_type,
+                                  value, query_type_index + 1);
     }
 
     if (!node->children) {
@@ -193,8 +198,23 @@ static PyObject *add_value_to_tree(PyObject *collection, tree_node_t *node,
         }
     }
 
-    return add_value_to_tree(collection, child, query_type, value,
-                             query_type_index + 1);
+    return add_value_to_child(collection, child, query_type, value,
+                              query_type_index + 1);
+}
+
+
+static PyObject *add_value_to_child(PyObject *collection, tree_node_t *child,
+                                    PyObject *query_type, PyObject *value,
+                                    size_t query_type_index) {
+    // depth of tree is limited because it is processed recursively
+    if (Py_EnterRecursiveCall(" while adding query type"))
+        return NULL;
+
+    PyObject *result = add_value_to_tree(collection, child, query_type, value,
+                                         query_type_index);
+    Py_LeaveRecursiveCall();
+
+    return result;
 }
 
 
-- 
2.43.0


From 8b2fe55367648dc36b5216b962279158298fc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 37/44] fix: refuse registration of source timestamps that
 can't be serialized

---
 src_py/hat/event/common/encoder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index dacf08f..21669de 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -162,12 +162,18 @@ def register_event_to_sbs(event: RegisterEvent) -> sbs.Data:
 
 def register_event_from_sbs(data: sbs.Data) -> RegisterEvent:
     """Create RegisterEvent based on SBS data"""
-    return RegisterEvent(
+    event = RegisterEvent(
         type=tuple(data['type']),
         source_timestamp=_optional_from_sbs(data['sourceTimestamp'],
                                             timestamp_from_sbs),
         payload=_optional_from_sbs(data['payload'], event_payload_from_sbs))
 
+    if event.source_timestamp is not None:
+        # raises exception if timestamp is not serializable
+        timestamp_to_bytes(event.source_timestamp)
+
+    return event
+
 
 def query_params_to_sbs(params: QueryParams) -> sbs.Data:
     """Convert QueryParams to SBS data"""
-- 
2.43.0


From 8d8b98846de6620e3f09284d554cfb74b74dfeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 38/44] fix: refuse registration of JSON payloads that can't be
 encoded

---
 src_py/hat/event/common/encoder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 21669de..4f35f9c 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -23,6 +23,9 @@ from hat.event.common.common import (Event,
                                      Timestamp)
 
 
+_json_depth_reserve = 64
+
+
 def timestamp_to_bytes(t: Timestamp) -> util.Bytes:
     """Convert timestamp to 12 byte representation
 
@@ -172,6 +175,15 @@ def register_event_from_sbs(data: sbs.Data) -> RegisterEvent:
         # raises exception if timestamp is not serializable
         timestamp_to_bytes(event.source_timestamp)
 
+    if isinstance(event.payload, EventPayloadJson):
+        # raises exception if data can be decoded but not encoded (infinite
+        # numbers) or if it's nesting is so deep that other usages of decoder
+        # and encoder, with less available stack, could fail
+        data = event.payload.data
+        for _ in range(_json_depth_reserve):
+            data = [data]
+        json.encode(data)
+
     return event
 
 
-- 
2.43.0


From d288afe5c581639a231326a848e247b690d67690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 39/44] fix: events aren't written after a flush that failed

---
 src_py/hat/event/backends/lmdb/backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index e6f5c73..fc72e05 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -309,7 +309,13 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except Exception:
+            # changes are lost - following changes must not be written
+            self._env.close()
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From 5fe1eaf75fe890e14eed793dfd3a6a14d409ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:46 +0000
Subject: [PATCH 40/44] fix: module created while creation of engine is
 canceled is closed

---
 src_py/hat/event/server/engine.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index 370c02b..5c61f29 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -49,13 +49,8 @@ async def create_engine(backend: common.Backend,
             source = common.Source(type=common.SourceType.MODULE,
                                    id=source_id)
 
-            module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
-
-            engine._source_modules.append((source, module))
+            await engine.async_group.spawn(engine._create_module, info,
+                                           module_conf, source)
 
         engine.async_group.spawn(engine._register_loop)
 
@@ -110,6 +105,21 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        # creation of engine can be canceled after module is created
+        try:
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except BaseException:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        self._source_modules.append((source, module))
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From 26202da309b01147f3fd93729ef27d841f84407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 41/44] fix: database opened while creation of storage is
 canceled is closed

---
 src_py/hat/event/backends/lmdb/environment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index 2bf228f..35a7216 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -84,11 +84,15 @@ class Environment(aio.Resource):
                 cursor.put(encoded_key, encoded_value)
 
     async def _on_close(self):
-        if self._env:
-            await self._executor.spawn(self._env.close)
+        # executed after initialization which could still be running
+        await self._executor.spawn(self._ext_close)
 
         await self._executor.async_close()
 
+    def _ext_close(self):
+        if self._env:
+            self._env.close()
+
     def _ext_init(self, db_path, max_size):
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-- 
2.43.0


From 28e81e428732ef27e463d0f5d8a2789f3c1f8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 42/44] fix: queries waiting for a flush that failed aren't
 executed

---
 src_py/hat/event/backends/lmdb/backend.py     | 13 ++++++++++++-
 src_py/hat/event/backends/lmdb/environment.py | 10 +++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index fc72e05..b671905 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -310,7 +310,8 @@ class LmdbBackend(common.Backend):
         #      allowed)
 
         try:
-            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+            await self._env.execute(_ext_flush_or_close, self._env, self._dbs,
+                                    changes)
 
         except Exception:
             # changes are lost - following changes must not be written
@@ -325,6 +326,16 @@ class LmdbBackend(common.Backend):
             await aio.call(self._flushed_events_cb, events)
 
 
+def _ext_flush_or_close(env, dbs, changes):
+    try:
+        _ext_flush(env, dbs, changes)
+
+    except Exception:
+        # changes are lost - queries waiting for execution must not succeed
+        env.ext_close()
+        raise
+
+
 def _ext_flush(env, dbs, changes):
     with env.ext_begin(write=True) as txn:
         dbs.system.ext_write(txn, changes.system)
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index 35a7216..fdb7d28 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -83,16 +83,16 @@ class Environment(aio.Resource):
                 encoded_value = db_def.encode_value(value)
                 cursor.put(encoded_key, encoded_value)
 
+    def ext_close(self):
+        if self._env:
+            self._env.close()
+
     async def _on_close(self):
         # executed after initialization which could still be running
-        await self._executor.spawn(self._ext_close)
+        await self._executor.spawn(self.ext_close)
 
         await self._executor.async_close()
 
-    def _ext_close(self):
-        if self._env:
-            self._env.close()
-
     def _ext_init(self, db_path, max_size):
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-- 
2.43.0


From cd0af6a21ed887437f1ba72bbf9beecb3628c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:56 +0000
Subject: [PATCH 43/44] fix: infinite and huge limits of partitions don't end
 cleanup

---
 src_py/hat/event/backends/lmdb/timeseriesdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 66d411e..3907c6c 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -330,13 +330,14 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                           stat['leaf_pages'] +
                                           stat['overflow_pages'])
             entry_size = total_size / stat['entries']
-            max_entries = int(limit.size / entry_size)
+            max_entries = limit.size / entry_size
 
     if limit.max_entries is not None:
         max_entries = (limit.max_entries if max_entries is None
                        else min(max_entries, limit.max_entries))
 
-    if limit.duration is not None:
+    # greater duration (possibly infinity) includes all timestamps
+    if limit.duration is not None and limit.duration < (1 << 63):
         duration_key = (partition_id,
                         now.add(-limit.duration),
                         common.EventId(0, 0, 0))
-- 
2.43.0


From 0b6f165b705a8bd1542402e5d7b404970ef8f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 44/44] fix: requests waiting for send queue don't fail with
 connection error

---
 src_py/hat/event/adminer/common.py | 9 ++++++++-
 src_py/hat/event/eventer/common.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/adminer/common.py b/src_py/hat/event/adminer/common.py
index b6f170a..a798266 100644
--- a/src_py/hat/event/adminer/common.py
+++ b/src_py/hat/event/adminer/common.py
@@ -2,6 +2,7 @@ from hat.event.common import *  # NOQA
 
 import typing
 
+from hat import aio
 from hat import sbs
 from hat.drivers import chatter
 
@@ -17,7 +18,13 @@ async def send_msg(conn: chatter.Connection,
                    **kwargs
                    ) -> chatter.Conversation:
     msg = sbs_repo.encode(msg_type, msg_data)
-    return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    try:
+        return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    # connection closed while waiting for space in send queue
+    except aio.QueueClosedError:
+        raise ConnectionError()
 
 
 async def receive_msg(conn: chatter.Connection
diff --git a/src_py/hat/event/eventer/common.py b/src_py/hat/event/eventer/common.py
index b6f170a..a798266 100644
--- a/src_py/hat/event/eventer/common.py
+++ b/src_py/hat/event/eventer/common.py
@@ -2,6 +2,7 @@ from hat.event.common import *  # NOQA
 
 import typing
 
+from hat import aio
 from hat import sbs
 from hat.drivers import chatter
 
@@ -17,7 +18,13 @@ async def send_msg(conn: chatter.Connection,
                    **kwargs
                    ) -> chatter.Conversation:
     msg = sbs_repo.encode(msg_type, msg_data)
-    return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    try:
+        return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    # connection closed while waiting for space in send queue
+    except aio.QueueClosedError:
+        raise ConnectionError()
 
 
 async def receive_msg(conn: chatter.Connection
-- 
2.43.0

