From a207a8f9e26fe229ca8452c1fc3049933cb8b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 01/44] fix: resume redemption of unpaid and error vouchers
 where it stopped

The transient unpaid and error voucher states do not know how many groups
have been redeemed already.  Redemption of a voucher in the error state was
never retried (ValueError) and redemption of a partially redeemed voucher in
the unpaid state started over with new random tokens for a redeemed group.
---
 src/_zkapauthorizer/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..fbd137a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,10 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # Transient states (unpaid, error) do not know how much of the
+                # voucher has been redeemed already.  The persistent state
+                # does.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
-- 
2.43.0


From 9327c961ab3d2b8aef9dc8c3e133cc30d0028354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 02/44] fix: report the most recent of a voucher's unpaid and
 error states

A voucher whose redemption failed with an error after an earlier attempt
found it unpaid was reported as unpaid for ever.
---
 src/_zkapauthorizer/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index fbd137a..6f63446 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -1056,6 +1056,7 @@ class PaymentController(object):
                 "Voucher {voucher} reported as not paid for during redemption.",
                 voucher=voucher,
             )
+            self._error.pop(voucher, None)
             self._unpaid[voucher] = self.store.now()
         else:
             self._log.error(
@@ -1063,6 +1064,7 @@ class PaymentController(object):
                 reason=reason.value,
                 voucher=voucher,
             )
+            self._unpaid.pop(voucher, None)
             self._error[voucher] = model_Error(
                 finished=self.store.now(),
                 details=reason.getErrorMessage(),
-- 
2.43.0


From 2edcb97dceea95cb344d7965374b64c5d041a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 03/44] fix: charge mutable writes for the full size of shares
 whose lease is renewed

---
 src/_zkapauthorizer/_storage_client.py |  7 ++++++
 src/_zkapauthorizer/_storage_server.py | 31 +++++++++++++-------------
 src/_zkapauthorizer/storage_common.py  |  9 ++++++--
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..15e8212 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -634,11 +634,18 @@ class ZKAPAuthorizerStorageClient(object):
                 # matter.
                 and sharenum in write_sharenums
             }
+            # The others we're going to write to have to be paid for in full.
+            unpaid_sizes = {
+                sharenum: stat.size
+                for (sharenum, stat) in stats.items()
+                if sharenum in write_sharenums and sharenum not in current_sizes
+            }
             # Determine the cost of the new storage for the operation.
             num_passes = get_required_new_passes_for_mutable_write(
                 self._pass_value,
                 current_sizes,
                 old_tw_vectors,
+                unpaid_sizes,
             )
 
         async def call(passes: IPassGroup) -> tuple[bool, dict[int, list[bytes]]]:
diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..ebbcae8 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -1050,21 +1050,21 @@ def get_writev_price(
         ),
     )
 
-    # Zero out the size of any share without an unexpired lease.  We will
-    # renew the lease on this share along with the write but the client
-    # must supply the necessary passes to do so.
-    current_sizes.update(
-        {
-            sharenum: 0
-            for sharenum in current_sizes
-            if not share_has_active_leases(
-                storage_server,
-                storage_index,
-                sharenum,
-                now,
-            )
-        }
-    )
+    # Nothing has been paid for any share without an unexpired lease.  We will
+    # renew the lease on this share along with the write but the client must
+    # supply the necessary passes to do so.
+    unpaid_sizes = {
+        sharenum: size
+        for (sharenum, size) in current_sizes.items()
+        if not share_has_active_leases(
+            storage_server,
+            storage_index,
+            sharenum,
+            now,
+        )
+    }
+    for sharenum in unpaid_sizes:
+        del current_sizes[sharenum]
 
     # Compute the number of passes required to execute the given writev
     # against these existing shares.
@@ -1072,4 +1072,5 @@ def get_writev_price(
         pass_value,
         current_sizes,
         tw_vectors,
+        unpaid_sizes,
     )
diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..37608ba 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -17,7 +17,7 @@ Functionality shared between the storage client and server.
 """
 
 from base64 import b64encode
-from typing import Callable, TypedDict, Union, ValuesView, cast
+from typing import Callable, Optional, TypedDict, Union, ValuesView, cast
 
 from attrs import define
 from pyutil.mathutil import div_ceil
@@ -273,6 +273,7 @@ def get_required_new_passes_for_mutable_write(
     pass_value: int,
     current_sizes: dict[int, int],
     tw_vectors: dict[int, ServerTestWriteVector],
+    unpaid_sizes: Optional[dict[int, int]] = None,
 ) -> int:
     """
     Get the number of new passes required to authorize a given write to a
@@ -284,6 +285,10 @@ def get_required_new_passes_for_mutable_write(
 
     :param tw_vectors: The test-and-write vectors that make up the write.
 
+    :param unpaid_sizes: The current size of the mutable's shares which will
+        be written but which have no unexpired lease.  A lease on the whole of
+        each of these must be paid for along with the write.
+
     :return: The number of new passes which must be spent.
     """
     current_passes = required_passes(
@@ -291,7 +296,7 @@ def get_required_new_passes_for_mutable_write(
         current_sizes.values(),
     )
 
-    new_sizes = current_sizes.copy()
+    new_sizes = {**(unpaid_sizes or {}), **current_sizes}
     size_updates = {
         sharenum: get_implied_data_length(data_vector, new_length)
         for (sharenum, (_, data_vector, new_length)) in tw_vectors.items()
-- 
2.43.0


From d473964a9dc64f85edba098748b259681969a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 04/44] fix: keep the first event recorded during the first
 snapshot upload

---
 src/_zkapauthorizer/replicate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..3874f8c 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -939,7 +939,7 @@ class _ReplicationService(Service):
         from the replica that are no longer relevant.
         """
         # extract sequence-number and snapshot data
-        seqnum = 1
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 5a755ccd6671996e1fa52e60d9a93cf25d17e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 05/44] fix: do not record the changes of transactions that are
 rolled back

---
 src/_zkapauthorizer/replicate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 3874f8c..6f09695 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -445,7 +445,10 @@ class _ReplicationCapableConnection:
         exc_tb: Optional[Any],
     ) -> bool:
         propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
-        if exc_type is None:
+        if exc_type is not None:
+            # The transaction was rolled back so its changes did not happen.
+            self._mutations = list()
+        else:
             # There was no exception, signal observers that a change has been
             # committed.
             post_txn_fns: list[Callable[[], None]] = []
-- 
2.43.0


From 451aefd1eb9568b83df051bea1a461d4a58521ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 06/44] fix: record replication events in the transaction that
 makes the changes

---
 src/_zkapauthorizer/replicate.py | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 6f09695..17ee209 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -65,6 +65,7 @@ from enum import Enum
 from io import BytesIO
 from sqlite3 import Connection as _SQLite3Connection
 from sqlite3 import Cursor as _SQLite3Cursor
+from sys import exc_info
 from typing import (
     IO,
     TYPE_CHECKING,
@@ -419,8 +420,9 @@ class _ReplicationCapableConnection:
         """
         Add another observer of changes made through this connection.
 
-        :param fn: An object to call after any transaction with changes is
-            committed on this connection.
+        :param fn: An object to call when any transaction with changes is
+            about to be committed on this connection.  The return value is
+            called after the commit.
         """
         self._observers = self._observers + (fn,)
 
@@ -444,20 +446,26 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
+        post_txn_fns: list[Callable[[], None]] = []
+        if exc_type is None:
+            # There was no exception, signal observers that a change is being
+            # committed.  Anything they record becomes part of the transaction
+            # they are told about so that the changes and the record of the
+            # changes are always committed together.
+            try:
+                if self._mutations:
+                    curse = self._conn.cursor()
+                    if not self._conn.in_transaction:
+                        curse.execute("BEGIN IMMEDIATE TRANSACTION")
+                    post_txn_fns.extend(self._maybe_signal_observers(curse))
+            except BaseException:
+                self._conn.__exit__(*exc_info())
+                raise
+        # If the transaction is rolled back then its changes did not happen.
+        self._mutations = list()
         propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
-        if exc_type is not None:
-            # The transaction was rolled back so its changes did not happen.
-            self._mutations = list()
-        else:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
-                curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
-                post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From 575a9273d365d3b25df7c3d244976a6ea80078fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 07/44] fix: record bulk changes given as one-shot iterators

---
 src/_zkapauthorizer/replicate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 17ee209..28ed1e6 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -551,6 +551,8 @@ class _ReplicationCapableCursor:
         return cast(tuple[SQLType], self._cursor.fetchone())
 
     def executemany(self, statement: str, rows: Iterable[Parameters]) -> Cursor:
+        # The rows are needed again if the statement is to be recorded.
+        rows = list(rows)
         self._cursor.executemany(statement, rows)
         if self._connection._replicating and statement_mutates(statement):
             self._connection._mutations.append((self._important, statement, rows))
-- 
2.43.0


From e4d5b11a7112ba19265e8fb8e97a28db12446846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 08/44] fix: do not replicate the reservation of tokens by a
 process

---
 src/_zkapauthorizer/model.py     | 13 +++++++------
 src/_zkapauthorizer/replicate.py |  7 +++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..42656ea 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -711,7 +711,8 @@ class VoucherStore(ConnectionHaver):
         if len(texts) < count:
             raise NotEnoughTokens()
 
-        cursor.executemany(
+        # Reservations belong to this process, do not replicate them.
+        cursor.unreplicated.executemany(
             """
             INSERT INTO [in-use] VALUES (?)
             """,
@@ -780,7 +781,7 @@ class VoucherStore(ConnectionHaver):
                 (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated.execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN [to-discard]
@@ -829,7 +830,7 @@ class VoucherStore(ConnectionHaver):
                 for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated.execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN (SELECT [token] FROM [invalid-unblinded-tokens])
@@ -856,7 +857,7 @@ class VoucherStore(ConnectionHaver):
         This is useful if a spending operation has failed with a transient
         error.
         """
-        cursor.executemany(
+        cursor.unreplicated.executemany(
             """
             INSERT INTO [to-reset] VALUES (?)
             """,
@@ -864,14 +865,14 @@ class VoucherStore(ConnectionHaver):
                 (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
             ),
         )
-        cursor.execute(
+        cursor.unreplicated.execute(
             """
             DELETE FROM [in-use]
             WHERE [unblinded-token] IN [to-reset]
             """,
             (),
         )
-        cursor.execute(
+        cursor.unreplicated.execute(
             """
             DELETE FROM [to-reset]
             """,
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 28ed1e6..369ecb3 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -514,6 +514,13 @@ class _ReplicationCapableCursor:
     # user will be interested in preserving")
     _important: bool = field(init=False, default=False)
 
+    @property
+    def unreplicated(self) -> _SQLite3Cursor:
+        """
+        The underlying cursor, changes made via which will not be replicated.
+        """
+        return self._cursor
+
     @property
     def lastrowid(self) -> Optional[int]:
         result = self._cursor.lastrowid
-- 
2.43.0


From 2040a5c7e51875ef764f4389356de75bb05aa190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 09/44] fix: apply each replicated change only once during
 recovery

---
 src/_zkapauthorizer/recover.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..561eeea 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,26 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    applied = get_recovered_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        # Some or all of the changes may already be included in the snapshot
+        # or in the previous event streams.
+        new = EventStream([c for c in event_stream.changes if c.sequence > applied])
+        recover_event_stream(new, cursor)
+        applied = new.highest_sequence() or applied
+
+
+def get_recovered_sequence(cursor: Cursor) -> int:
+    """
+    Get the sequence number of the last change included in a snapshot which was
+    just recovered.
+    """
+    cursor.execute("SELECT 1 FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ())
+    if cursor.fetchall() == []:
+        return 0
+    cursor.execute("SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ())
+    rows = cursor.fetchall()
+    return int(rows[0][0]) if rows else 0
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From ef53b000740dda5bbd67f12ee363fb8efb1c2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 10/44] fix: make event streams replayable through the wallet's
 own cursor

---
 src/_zkapauthorizer/recover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 561eeea..286fe6d 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -278,7 +278,7 @@ def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     for change in event_stream.changes:
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From 2323aae58a38d1600bfac26c1337ff486a305084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 11/44] fix: do not count directories as part of the replica

---
 src/_zkapauthorizer/replicate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 369ecb3..d7bcf73 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -1050,8 +1050,7 @@ class _ReplicationService(Service):
             entry.size
             for (name, entry) in entries.items()
             if entry.kind == "filenode"
-            and name == "snapshot"
-            or name.startswith("event-stream-")
+            and (name == "snapshot" or name.startswith("event-stream-"))
         ]
 
     def stopService(self) -> Deferred[None]:
-- 
2.43.0


From 0c778b4989bfd20cce41d4703131c99358f8aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 12/44] fix: prune only event stream objects from the replica

---
 src/_zkapauthorizer/replicate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index d7bcf73..18cc72d 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -991,7 +991,7 @@ class _ReplicationService(Service):
                 sequence number is strictly less than our snapshot's
                 maximum sequence.
             """
-            m = re.match("event-stream-([0-9]*)", fname)
+            m = re.fullmatch("event-stream-([0-9]+)", fname)
             if m:
                 seq = int(m.group(1))
                 if seq <= seqnum:
-- 
2.43.0


From 7d602fd6a8cf25ef8878335b4bfd176e782c970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 13/44] fix: name the existing replica when replication is
 already set up

---
 src/_zkapauthorizer/_plugin.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..4898ea4 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -38,7 +38,7 @@ from challenge_bypass_ristretto import PublicKey, SigningKey
 from eliot import start_action
 from foolscap.ipb import IRemoteReference
 from prometheus_client import CollectorRegistry, write_to_textfile
-from tahoe_capabilities import DirectoryReadCapability
+from tahoe_capabilities import DirectoryReadCapability, danger_real_capability_string
 from twisted.application.service import IService, MultiService
 from twisted.internet import task
 from twisted.internet.defer import Deferred, succeed
@@ -62,6 +62,7 @@ from .model import VoucherStore, aware_now
 from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
+    ReplicationAlreadySetup,
     _ReplicationCapableConnection,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
@@ -326,7 +327,12 @@ class ZKAPAuthorizer(object):
 
         async def setup_replication() -> DirectoryReadCapability:
             # Setup replication
-            replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            try:
+                replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            except ReplicationAlreadySetup:
+                # Tell the caller about the replica there is.
+                existing = get_replica_rwcap(node_config).reader
+                raise ReplicationAlreadySetup(danger_real_capability_string(existing))
             # And then turn replication on for the database connection already
             # in use.
             self._add_replication_service(store._connection, node_config)
-- 
2.43.0


From 86f362820ca6eb3de5d2edc099c65f4dca01b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 14/44] fix: refuse a request to recover from a different
 replica during a recovery

---
 src/_zkapauthorizer/resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..b9f71b1 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -367,8 +367,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
@@ -396,7 +396,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
@@ -405,6 +405,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
 
-- 
2.43.0


From b1d5e6ee73c1abef006b2560d7973fff80eea134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 15/44] fix: close the websocket of a client which asks for a
 finished recovery

---
 src/_zkapauthorizer/resource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index b9f71b1..b9eb24b 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -408,6 +408,9 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
+            if self.recovering_d.called:
+                # There will be no more of them.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From 185ceeaf8190f0e7ca53aa290d66b1b9e9fb30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 16/44] fix: do not hold a transaction open while a replica is
 downloaded

---
 src/_zkapauthorizer/recover.py  | 27 ++++++++++++++++++++++++++-
 src/_zkapauthorizer/resource.py | 12 ++++++++----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 286fe6d..97f3c73 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -120,6 +120,28 @@ class StatefulRecoverer:
         :param cursor: A database cursor which can be used to populate the
             database with recovered state.
         """
+
+        async def transact(f: Callable[[Cursor], Awaitable[None]]) -> None:
+            await f(cursor)
+
+        await self.recover_with(download, transact)
+
+    async def recover_with(
+        self,
+        download: Downloader,
+        transact: Callable[[Callable[[Cursor], Awaitable[None]]], Awaitable[None]],
+    ) -> None:
+        """
+        Begin the recovery process.
+
+        :param downloader: A callable which can be used to retrieve a replica.
+
+        :param transact: A callable which calls a function with a database
+            cursor which can be used to populate the database with recovered
+            state, in a transaction.  It is not called until the replica has
+            been downloaded because the database may be used by others until
+            then.
+        """
         if self._state.stage != RecoveryStages.inactive:
             return
 
@@ -134,8 +156,11 @@ class StatefulRecoverer:
             )
             return
 
-        try:
+        async def load(cursor: Cursor) -> None:
             recover(snapshot, event_streams, cursor)
+
+        try:
+            await transact(load)
         except Exception as e:
             self._set_state(
                 RecoveryState(stage=RecoveryStages.import_failed, failure_reason=str(e))
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index b9eb24b..d1da669 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -22,7 +22,6 @@ In the future it should also allow users to read statistics about token usage.
 """
 
 from collections.abc import Awaitable
-from functools import partial
 from json import dumps
 from typing import Callable, Optional, Union, cast
 
@@ -431,9 +430,14 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         # If these things succeed then we will have started recovery and
         # generated a response to the request.
         downloader = self.get_downloader(cap)
-        await store.call_if_empty(
-            partial(self.recoverer.recover, downloader)  # cursor added by call_if_empty
-        )
+
+        async def nothing(cursor: object) -> None:
+            pass
+
+        # Find out early if recovery is impossible.  It is checked again when
+        # the replica has been downloaded.
+        await store.call_if_empty(nothing)
+        await self.recoverer.recover_with(downloader, store.call_if_empty)
         # let all exceptions (including NotEmpty) out
 
 
-- 
2.43.0


From 947246ae6137c4abe8cb8d45db22bcb193e809d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 17/44] fix: roll back a transaction which cannot be committed

---
 src/_zkapauthorizer/replicate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 18cc72d..22896b2 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -463,7 +463,13 @@ class _ReplicationCapableConnection:
                 raise
         # If the transaction is rolled back then its changes did not happen.
         self._mutations = list()
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        try:
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        except BaseException:
+            # If the transaction could not be committed then nothing of it may
+            # be left for the next one.
+            self._conn.rollback()
+            raise
         for f in post_txn_fns:
             f()
         # Respect the underlying propagation decision.
-- 
2.43.0


From 020feb3bf9b72e80e2193b41f3967275c5c18461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 18/44] fix: answer a voucher path that is not UTF-8 with a
 client error

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index d1da669..3c1bec1 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -720,7 +720,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From 4b6f24128514a6537bdae2ab28dc1aec3d031480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 19/44] fix: treat JSON nested too deeply to parse as any other
 malformed JSON

---
 src/_zkapauthorizer/_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_json.py b/src/_zkapauthorizer/_json.py
index cb540fb..1639dab 100644
--- a/src/_zkapauthorizer/_json.py
+++ b/src/_zkapauthorizer/_json.py
@@ -34,5 +34,5 @@ def loads(data: bytes) -> JSON:
     """
     try:
         return cast(JSON, _loads(data))
-    except ValueError as e:
+    except (ValueError, RecursionError) as e:
         raise ValueError("{!r}: {!r}".format(e, data))
-- 
2.43.0


From e8ab46537a31801a6e35362805bacbc4cd319af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 20/44] fix: do not take JSON booleans for numbers in price
 requests

---
 src/_zkapauthorizer/resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 3c1bec1..52f1acb 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -555,7 +555,7 @@ class _CalculatePrice(Resource):
                 }
             )
 
-        if version != 1:
+        if version != 1 or isinstance(version, bool):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
                 {
@@ -564,7 +564,8 @@ class _CalculatePrice(Resource):
             )
 
         if not isinstance(sizes, list) or not all(
-            isinstance(size, int) and size >= 0 for size in sizes
+            isinstance(size, int) and not isinstance(size, bool) and size >= 0
+            for size in sizes
         ):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
-- 
2.43.0


From 2301a02dd7c5d1c5c4e3dd71eead413a879c4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 21/44] fix: visit each stored object once during lease
 maintenance, and literal ones never

---
 src/_zkapauthorizer/lease_maintenance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..4c32ce6 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -94,10 +94,17 @@ async def visit_storage_indexes(
                 )
             )
 
+    seen: set[StorageIndex] = set()
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # Literal objects are stored nowhere and have no storage index.
+        if storage_index is not None:
+            if storage_index in seen:
+                continue
+            seen.add(storage_index)
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
-- 
2.43.0


From 8369e1bf58e4e8392d5b83808c8ddfea3a67e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 22/44] fix: a failure of one server or object does not stop
 the maintenance of other leases

---
 src/_zkapauthorizer/lease_maintenance.py | 38 +++++++++++++++++-------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 4c32ce6..56da5f9 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -49,6 +49,7 @@ from attrs import Factory, define
 from twisted.application.service import IService, Service
 from twisted.internet.defer import Deferred
 from twisted.internet.interfaces import IDelayedCall, IReactorTime
+from twisted.logger import Logger
 from twisted.python.failure import Failure
 from twisted.python.filepath import FilePath
 from twisted.python.log import err
@@ -59,6 +60,8 @@ from .config import Config, read_duration
 from .foolscap import ShareStat
 from .model import ILeaseMaintenanceObserver
 
+_log = Logger()
+
 SERVICE_NAME = "lease maintenance service"
 
 StorageIndex = NewType("StorageIndex", bytes)
@@ -106,7 +109,12 @@ async def visit_storage_indexes(
             seen.add(storage_index)
             visit(storage_index)
         if IDirectoryNode.providedBy(elem):
-            children = await elem.list()
+            try:
+                children = await elem.list()
+            except Exception:
+                # Whatever else can be reached still needs its leases.
+                _log.failure("Listing a directory for lease maintenance")
+                continue
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
             stable_children = sorted(children.items())
@@ -178,15 +186,19 @@ async def renew_leases(
 
     for server in servers:
         # Consider parallelizing this.
-        await renew_leases_on_server(
-            min_lease_remaining,
-            renewal_secret,
-            cancel_secret,
-            storage_indexes,
-            server,
-            activity,
-            now(),
-        )
+        try:
+            await renew_leases_on_server(
+                min_lease_remaining,
+                renewal_secret,
+                cancel_secret,
+                storage_indexes,
+                server,
+                activity,
+                now(),
+            )
+        except Exception:
+            # The other servers may be fine.
+            _log.failure("Maintaining leases on a storage server")
 
     activity.finish()
 
@@ -244,7 +256,11 @@ async def renew_leases_on_server(
         # whether to renew leases at this storage index or not based on that.
         most_endangered = soonest_expiration(stat_dict.values())
         if needs_lease_renew(min_lease_remaining, most_endangered, now):
-            await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            try:
+                await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            except Exception:
+                # The other leases may be renewable.
+                _log.failure("Renewing a lease")
 
 
 def soonest_expiration(stats: Iterable[ShareStat]) -> ShareStat:
-- 
2.43.0


From 6b66f63c44295dac0cedf0844d0b408f64ffe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 23/44] fix: stopping the lease maintenance service during a
 run works and prevents further runs

---
 src/_zkapauthorizer/lease_maintenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 56da5f9..6bf8d92 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -392,6 +392,7 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        self._call = None
 
         async def go() -> None:
             try:
@@ -399,7 +400,8 @@ class _FuzzyTimerService(Service, Generic[_C]):
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            if self.running:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From 3fbc8eecd5600dcd5b6ffb5da04fa2b100bffa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 24/44] fix: never wait a negative time for the next lease
 maintenance run

---
 src/_zkapauthorizer/lease_maintenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 6bf8d92..36e2514 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -450,7 +450,9 @@ def lease_maintenance_service(
     def sample_interval_distribution() -> timedelta:
         return timedelta(
             seconds=random.uniform(
-                (interval_mean - halfrange).total_seconds(),
+                # The range may be wider than the mean allows.  There is no
+                # waiting for a negative amount of time.
+                max(0.0, (interval_mean - halfrange).total_seconds()),
                 (interval_mean + halfrange).total_seconds(),
             ),
         )
-- 
2.43.0


From d74e212ea5b5f78ffd8138071f97cc8f39d33f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 25/44] fix: upgrade a database completely or not at all

---
 src/_zkapauthorizer/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 42656ea..781db31 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,10 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # Make all of the changes or none of them.  Data definition statements
+        # do not implicitly begin a transaction.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From a2492957daa5d3e7841f28c8f0c9f3a6b2c630da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 26/44] fix: keep tokens of partially redeemed vouchers
 spendable when upgrading the schema

---
 src/_zkapauthorizer/schema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..9181946 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -186,12 +186,12 @@ _UPGRADES = {
         )
         """,
         """
-        -- Create one redemption group for every existing, redeemed voucher.
-        -- These tokens were probably *not* all redeemed in one group but
+        -- Create one redemption group for every existing voucher which has been
+        -- redeemed, completely or in part.  These tokens were probably *not* all redeemed in one group but
         -- we've only preserved one public key for them so we can't do much
         -- better than this.
         INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
-            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"
+            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed" OR [counter] > 0
         """,
         """
         -- Give each voucher a count of "sequestered" tokens.  Currently,
-- 
2.43.0


From 2b195af0a54c7d589fc79f56068aefb81df70882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 27/44] fix: convert the time a voucher was finished to UTC
 when upgrading the schema

---
 src/_zkapauthorizer/schema.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 9181946..5aef95d 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -277,4 +277,15 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The [finished] column of the vouchers table was overlooked when naive
+        # values were converted to UTC (in version 7).  Convert those which are
+        # still there.  Values which have a timezone marker were written later.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] IS NOT NULL
+        AND [finished] NOT GLOB '*[+-][0-9][0-9]:[0-9][0-9]'
+        """,
+    ],
 }
-- 
2.43.0


From a3a1b9de0ef50d9e6bf2ab62d52c6cefd3d4e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 28/44] fix: restore the stack limit also when the work under
 it fails

---
 src/_zkapauthorizer/_stack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_stack.py b/src/_zkapauthorizer/_stack.py
index e918553..41438f8 100644
--- a/src/_zkapauthorizer/_stack.py
+++ b/src/_zkapauthorizer/_stack.py
@@ -44,5 +44,7 @@ def less_limited_stack() -> Generator[None, None, None]:
         # Well, not on macOS: https://bugs.python.org/issue34602
         yield
     else:
-        yield
-        setrlimit(RLIMIT_STACK, (soft, hard))
+        try:
+            yield
+        finally:
+            setrlimit(RLIMIT_STACK, (soft, hard))
-- 
2.43.0


From 022155f0010c87e7d6f9b512b91d2f1c547bf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 29/44] fix: keep capabilities out of the text of TahoeAPIError

---
 src/_zkapauthorizer/tahoe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..4c1f7cd 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -179,6 +179,12 @@ class TahoeAPIError(Exception):
     status: int
     body: str
 
+    def __attrs_post_init__(self) -> None:
+        # Exception.__new__ keeps all of the arguments it is passed and the
+        # string representation is made of them.  Do not let it disclose the
+        # capability strings removed from the url.
+        self.args = (self.method, self.url, self.status, self.body)
+
 
 class NotWriteableError(Exception):
     """
-- 
2.43.0


From 797c57cec39056b98b6e479b9c65cb1da8700c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 30/44] fix: only download what is named as an event stream
 when recovering

---
 src/_zkapauthorizer/recover.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 97f3c73..ba382ba 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -16,6 +16,7 @@ from collections.abc import Awaitable
 from enum import Enum, auto
 from functools import partial
 from io import BytesIO
+from re import fullmatch
 from typing import Callable, Iterable, Iterator, NoReturn, Optional, Sequence
 
 import cbor2
@@ -383,7 +384,9 @@ async def tahoe_lafs_downloader(
 
     entry_paths = []
     for name, entry in entries.items():
-        if isinstance(entry, FileNode) and name.startswith("event-stream-"):
+        # Only accept the names that the replication system gives to event
+        # streams.  The name is about to become part of a local path.
+        if isinstance(entry, FileNode) and fullmatch("event-stream-[0-9]+", name):
             entry_path = client.get_private_path(name)
             entry_paths.append(entry_path)
             await client.download(entry_path, entry.ro_uri)
-- 
2.43.0


From 9174c664977dba1b153bcd7cda8b027c5ef0b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 31/44] fix: allow whitespace between allowed public keys

---
 src/_zkapauthorizer/storage_common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 37608ba..45a461c 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -126,12 +126,11 @@ def get_configured_allowed_public_keys(node_config: Config) -> set[str]:
     """
     section_name = "storageclient.plugins." + NAME
     return set(
-        node_config.get_config(
+        key.strip()
+        for key in node_config.get_config(
             section=section_name,
             option="allowed-public-keys",
-        )
-        .strip()
-        .split(",")
+        ).split(",")
     )
 
 
-- 
2.43.0


From e0c45822a5377158a95288a65f831496125f7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 32/44] fix: refuse a pass-value which is not positive

---
 src/_zkapauthorizer/storage_common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 45a461c..4f20fd1 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -109,15 +109,20 @@ def get_configured_pass_value(node_config: Config) -> int:
     If no value is explicitly configured, a default value is returned.  The
     value is read from the **pass-value** option of the ZKAPAuthorizer plugin
     client section.
+
+    :raise ValueError: If the configured value is not a positive integer.
     """
     section_name = "storageclient.plugins." + NAME
-    return int(
+    pass_value = int(
         node_config.get_config(
             section=section_name,
             option="pass-value",
             default=BYTES_PER_PASS,
         )
     )
+    if pass_value < 1:
+        raise ValueError(f"pass-value must be positive, not {pass_value}")
+    return pass_value
 
 
 def get_configured_allowed_public_keys(node_config: Config) -> set[str]:
-- 
2.43.0


From 5a48db0c1a04f6ccaa3f8b228766fefeb692a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 33/44] fix: refuse a default-token-count too small to redeem a
 voucher with

---
 src/_zkapauthorizer/resource.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 52f1acb..f0bb6fb 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -25,7 +25,7 @@ from collections.abc import Awaitable
 from json import dumps
 from typing import Callable, Optional, Union, cast
 
-from attr import Factory, define, field
+from attr import Factory, define, field, fields
 from autobahn.twisted.resource import WebSocketResource
 from autobahn.twisted.websocket import WebSocketServerFactory, WebSocketServerProtocol
 from autobahn.websocket.interfaces import IWebSocketClientAgent
@@ -92,15 +92,22 @@ def get_token_count(
     :param node_config: See ``from_configuration``.
 
     :return: The number of tokens from the configuration or a default.
+
+    :raise ValueError: If the configured value is not an integer or is too
+        small to give each redemption group a token.
     """
     section_name = "storageclient.plugins.{}".format(plugin_name)
-    return int(
+    count = int(
         node_config.get_config(
             section=section_name,
             option="default-token-count",
             default=NUM_TOKENS,
         )
     )
+    minimum = fields(PaymentController).num_redemption_groups.default
+    if count < minimum:
+        raise ValueError(f"default-token-count must be at least {minimum}, not {count}")
+    return count
 
 
 def from_configuration(
-- 
2.43.0


From b7343a0104eaf05ed42b6f133ffbafba7c660991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 34/44] fix: refuse negative lease maintenance times

---
 src/_zkapauthorizer/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/config.py b/src/_zkapauthorizer/config.py
index c5264ca..f0d275b 100644
--- a/src/_zkapauthorizer/config.py
+++ b/src/_zkapauthorizer/config.py
@@ -125,6 +125,8 @@ def read_duration(cfg: Config, option: str, default: _T) -> Union[timedelta, _T]
 
     :return: ``None`` if the option is missing, otherwise the parsed duration
         as a ``timedelta``.
+
+    :raise ValueError: If the value is not a non-negative integer.
     """
     section_name = "storageclient.plugins." + NAME
     value_str = cfg.get_config(
@@ -134,4 +136,7 @@ def read_duration(cfg: Config, option: str, default: _T) -> Union[timedelta, _T]
     )
     if value_str is None:
         return default
-    return timedelta(seconds=int(value_str))
+    seconds = int(value_str)
+    if seconds < 0:
+        raise ValueError(f"{option} must not be negative, not {seconds}")
+    return timedelta(seconds=seconds)
-- 
2.43.0


From 80b29b4dae0f696aabbb5ca1f2d782f11dfb4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 35/44] fix: give lease maintenance the lease seed of a real
 storage server

---
 src/_zkapauthorizer/_storage_client.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 15e8212..e42c635 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -24,6 +24,7 @@ from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
 
 from allmydata.interfaces import IStorageServer
+from allmydata.util.base32 import a2b
 from attrs import Factory, define, field
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
@@ -413,6 +414,18 @@ class ZKAPAuthorizerStorageClient(object):
             )
         return rref
 
+    def get_lease_seed(self) -> bytes:
+        """
+        Get the value from which the secrets of leases on the server are derived.
+
+        :return: The same value as Tahoe-LAFS itself uses for the server (see
+            ``IServer.get_lease_seed``): the identifier of its Tub.
+        """
+        tub_id = self._rref().getRemoteTubID()  # type: ignore[no-untyped-call]
+        seed = a2b(tub_id.lower().encode("ascii"))
+        assert isinstance(seed, bytes)
+        return seed
+
     @with_rref
     async def get_version(self, rref: IRemoteReference) -> dict[bytes, Any]:
         unknown_version = await rref.callRemote(  # type: ignore[no-untyped-call]
-- 
2.43.0


From 30e3a320b784b646f887f08d7dd76f243f6ff1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 36/44] fix: do not count lease maintenance without storage
 servers as done

When the last run was long enough ago lease maintenance began as soon as the
node started, before it was connected to any storage server.  Nothing could be
listed or renewed but the run was recorded and the next one was weeks away.
---
 src/_zkapauthorizer/_plugin.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 4898ea4..becbe20 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -155,6 +155,11 @@ def get_recovery_websocket_resource(root: HTTPAuthSessionWrapper) -> WebSocketRe
     return root._portal.realm._root.children[b"recover"]
 
 
+# How many seconds lease maintenance waits for connections to more storage
+# servers after it has one.
+MAINTENANCE_CONNECT_TIMEOUT = 60
+
+
 @implementer(IFoolscapStoragePlugin)
 @define
 class ZKAPAuthorizer(object):
@@ -469,10 +474,26 @@ def _create_maintenance_service(
         progress=store.start_lease_maintenance,
         get_now=get_now,
     )
+
+    async def maintain_leases_when_connected() -> None:
+        # If a run is due when the node starts there are no connections to
+        # storage servers yet.  Nothing can be maintained without any so wait
+        # for the first for as long as it takes.  Then allow a little time to
+        # connect to the others.
+        broker = client_node.get_storage_broker()
+        await broker.when_connected_enough(1)
+        known = len(broker.get_known_servers())
+        await broker.when_connected_enough(known).addTimeout(
+            MAINTENANCE_CONNECT_TIMEOUT,
+            reactor,
+            onTimeoutCancel=lambda result, timeout: None,
+        )
+        await maintain_leases()
+
     last_run_path = FilePath(node_config.get_private_path("last-lease-maintenance-run"))  # type: ignore[no-untyped-call]
     # Create the service to periodically run the lease maintenance operation.
     return lease_maintenance_service(
-        maintain_leases,
+        maintain_leases_when_connected,
         reactor,
         last_run_path,
         random.Random(),
-- 
2.43.0


From 555af265c8296a4517b7b294307f644ccc6ef174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 37/44] fix: find the node again each time a request to it is
 retried

The port a node listens on for API requests may be another one each time it
is started.  Replication begins before the node listens, so it read the URL
left behind by the last run and asked that, in vain, over and over again.
---
 src/_zkapauthorizer/tahoe.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index 4c1f7cd..39259d0 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -201,7 +201,6 @@ class NotADirectoryError(Exception):
 _common_tahoe_errors = [_not_enough_servers, _connection_refused]
 
 
-@async_retry(_common_tahoe_errors)
 async def upload_bytes(
     client: HTTPClient,
     get_data_provider: DataProvider,
@@ -210,9 +209,6 @@ async def upload_bytes(
     """
     Upload the given data and return the resulting capability.
 
-    If not enough storage servers are reachable then the upload is
-    automatically retried.
-
     :param client: An HTTP client to use to make requests to the Tahoe-LAFS
         HTTP API to perform the upload.
 
@@ -228,8 +224,8 @@ async def upload_bytes(
     :return: If the upload is successful then the capability of the uploaded
         data is returned.
 
-    :raise: If there is a problem uploading the data -- except for
-        unavailability of storage servers -- then some exception is raised.
+    :raise: If there is a problem uploading the data then some exception is
+        raised.
     """
     uri = api_root.child("uri")
     data = get_data_provider()
@@ -296,7 +292,6 @@ _DirectoryEntry = Union[FileNode, DirectoryNode]
 _DirectoryListing = dict[str, _DirectoryEntry]
 
 
-@async_retry(_common_tahoe_errors)
 async def list_directory(
     client: HTTPClient,
     api_root: DecodedURL,
@@ -336,7 +331,6 @@ async def list_directory(
     raise TahoeAPIError("get", uri, resp.code, content)
 
 
-@async_retry(_common_tahoe_errors)
 async def make_directory(
     client: HTTPClient,
     api_root: DecodedURL,
@@ -352,7 +346,6 @@ async def make_directory(
     raise TahoeAPIError("post", uri, resp.code, content)
 
 
-@async_retry(_common_tahoe_errors)
 async def link(
     client: HTTPClient,
     api_root: DecodedURL,
@@ -388,7 +381,6 @@ async def link(
     raise TahoeAPIError("put", uri, resp.code, content)
 
 
-@async_retry(_common_tahoe_errors)
 async def unlink(
     client: HTTPClient,
     api_root: DecodedURL,
@@ -508,6 +500,11 @@ class Tahoe(object):
     An object with simple bindings to Tahoe-LAFS HTTP APIs for some
     operations.
 
+    Operations other than downloads are automatically retried for as long as
+    the node does not accept connections or is not connected to enough storage
+    servers.  Each attempt uses the API root which is current then because the
+    node may start to listen on a different port than it used before.
+
     Application code using this API lends itself well to being tested against
     the objects returned by ``MemoryGrid.client``.
     """
@@ -543,17 +540,21 @@ class Tahoe(object):
     async def download(self, outpath: FilePath, cap: ReadCapability) -> None:
         await download(self.client, outpath, self._api_root, cap)
 
+    @async_retry(_common_tahoe_errors)
     async def upload(self, get_data_provider: DataProvider) -> ReadCapability:
         return await upload_bytes(self.client, get_data_provider, self._api_root)
 
+    @async_retry(_common_tahoe_errors)
     async def make_directory(self) -> DirectoryWriteCapability:
         return await make_directory(self.client, self._api_root)
 
+    @async_retry(_common_tahoe_errors)
     async def list_directory(
         self, dir_cap: DirectoryReadCapability
     ) -> _DirectoryListing:
         return await list_directory(self.client, self._api_root, dir_cap)
 
+    @async_retry(_common_tahoe_errors)
     async def link(
         self,
         dir_cap: DirectoryWriteCapability,
@@ -562,6 +563,7 @@ class Tahoe(object):
     ) -> None:
         return await link(self.client, self._api_root, dir_cap, entry_name, entry_cap)
 
+    @async_retry(_common_tahoe_errors)
     async def unlink(self, dir_cap: DirectoryWriteCapability, entry_name: str) -> None:
         return await unlink(self.client, self._api_root, dir_cap, entry_name)
 
-- 
2.43.0


From e2c1eecec9abd4d1424fbfabb7aea92fc885116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 38/44] fix: resume replication some time after it fails

Any error, such as when the node is not connected to its storage servers yet
right after it was started, stopped replication until the next start.
---
 src/_zkapauthorizer/replicate.py | 64 ++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 22896b2..05f92a2 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -95,6 +95,7 @@ from tahoe_capabilities import (
 )
 from twisted.application.service import IService, Service
 from twisted.internet.defer import CancelledError, Deferred, DeferredQueue, succeed
+from twisted.internet.task import deferLater
 from twisted.logger import Logger
 from twisted.python.filepath import FilePath
 from twisted.python.lockfile import FilesystemLock
@@ -831,6 +832,12 @@ def event_stream_name(high_seq: int) -> str:
     return f"event-stream-{high_seq}"
 
 
+# The number of seconds to wait after replication fails before it is tried
+# again.  Trying may cost passes so the delay is doubled each time, up to a limit.
+_MIN_RETRY_DELAY = 1.0
+_MAX_RETRY_DELAY = 3600.0
+
+
 @define
 class _ReplicationService(Service):
     """
@@ -874,33 +881,58 @@ class _ReplicationService(Service):
         self._connection.add_mutation_observer(self.observed_event)
         self._connection.enable_replication()
 
-        # Reflect whatever state is left over in the database from previous
-        # efforts.
+        self._resume()
+
+        # Start the actual work of reacting to changes by uploading them (as
+        # appropriate).
+        self._replicating = Deferred.fromCoroutine(self._replicate())
+
+    def _resume(self) -> None:
+        """
+        Arrange to do whatever is left over from previous efforts.
+        """
+        # Reflect whatever state is left over in the database.
         self._changes = AccumulatedChanges.from_connection(
             self._unreplicated_connection
         )
 
         self.queue_job(ReplicationJob.startup)
 
-        # Start the actual work of reacting to changes by uploading them (as
-        # appropriate).
-        self._replicating = Deferred.fromCoroutine(self._replicate())
-
     async def _replicate(self) -> None:
         """
         React to changes by replicating them to remote storage.
         """
-        try:
-            await self.wait_for_uploads()
-        except CancelledError:
-            # Ignore cancels; this will be the normal way we quit -- see
-            # stopService.
-            pass
-        except Exception:
-            # If something besides a cancel happens, at least make it visible.
-            self._logger.failure("unexpected wait_for_uploads error")
+        # Do not leak the global reactor into the module scope!
+        from twisted.internet import reactor
 
-        return None
+        delay = _MIN_RETRY_DELAY
+        while True:
+            began = reactor.seconds()
+            try:
+                await self.wait_for_uploads()
+            except CancelledError:
+                # Ignore cancels; this will be the normal way we quit -- see
+                # stopService.
+                return None
+            except Exception:
+                # If something besides a cancel happens, at least make it
+                # visible.
+                self._logger.failure("unexpected wait_for_uploads error")
+
+            if not self.running:
+                # What was interrupted did not tell us that it was cancelled.
+                return None
+
+            # Whatever was wrong, it may be right again later: storage servers
+            # come and go and passes can be bought.
+            if reactor.seconds() - began > _MAX_RETRY_DELAY:
+                delay = _MIN_RETRY_DELAY
+            try:
+                await deferLater(reactor, delay, lambda: None)
+            except CancelledError:
+                return None
+            delay = min(delay * 2, _MAX_RETRY_DELAY)
+            self._resume()
 
     def queue_job(self, job: ReplicationJob) -> None:
         """
-- 
2.43.0


From 29f8051b97a0b634d7c75a28025cc1c1cd371788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 39/44] fix: retry redemption after the database failed

If the result of a redemption could not be stored, or the database could not be
read when it was time to try again, the voucher was not tried again before the
next start, nor was any other if it was the retry loop that failed.
---
 src/_zkapauthorizer/controller.py | 48 ++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index 6f63446..08ae31a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -850,7 +850,13 @@ class PaymentController(object):
         for voucher in list(self._error.keys()) + list(self._unpaid.keys()):
             if voucher in self._active:
                 continue
-            if self.get_voucher(voucher).state.should_start_redemption():
+            try:
+                state = self.get_voucher(voucher).state
+            except Exception:
+                # Try again next time.  The loop must not come to an end.
+                self._log.failure("Looking for vouchers to retry redemption of")
+                continue
+            if state.should_start_redemption():
                 Deferred.fromCoroutine(self.redeem(voucher))
 
     def _check_pending_vouchers(self) -> None:
@@ -919,12 +925,14 @@ class PaymentController(object):
             voucher_obj = self.get_voucher(voucher)
         except KeyError:
             # This is our first time dealing with this number.
+            recorded = False
             counter_start = 0
             if num_tokens is None:
                 real_num_tokens = self.default_token_count
             else:
                 real_num_tokens = num_tokens
         else:
+            recorded = True
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
@@ -959,15 +967,23 @@ class PaymentController(object):
             token_count = token_count_for_group(
                 self.num_redemption_groups, real_num_tokens, counter
             )
-            tokens = self._get_random_tokens_for_voucher(
-                voucher,
-                counter,
-                num_tokens=token_count,
-                total_tokens=real_num_tokens,
-            )
-
-            # Reload state before each iteration.  We expect it to change each time.
-            voucher_obj = self.store.get(voucher)
+            try:
+                tokens = self._get_random_tokens_for_voucher(
+                    voucher,
+                    counter,
+                    num_tokens=token_count,
+                    total_tokens=real_num_tokens,
+                )
+                recorded = True
+
+                # Reload state before each iteration.  We expect it to change each time.
+                voucher_obj = self.store.get(voucher)
+            except Exception:
+                if not recorded:
+                    # The voucher is not our responsibility.
+                    raise
+                self._final_redeem_error(voucher, Failure())  # type: ignore[no-untyped-call]
+                break
 
             succeeded = await self._perform_redeem(voucher_obj, counter, tokens)
             if not succeeded:
@@ -1010,7 +1026,11 @@ class PaymentController(object):
             )
         except:
             f = Failure()  # type: ignore[no-untyped-call]
-            self._redeem_failure(voucher.number, f)
+            try:
+                self._redeem_failure(voucher.number, f)
+            except:
+                f = Failure()  # type: ignore[no-untyped-call]
+                self._final_redeem_error(voucher.number, f)
             return False
         else:
             try:
@@ -1076,6 +1096,12 @@ class PaymentController(object):
             reason,
             voucher=voucher,
         )
+        # Nothing was lost.  The voucher is retried like after other errors.
+        self._unpaid.pop(voucher, None)
+        self._error[voucher] = model_Error(
+            finished=self.store.now(),
+            details=reason.getErrorMessage(),
+        )
 
     def get_voucher(self, number: bytes) -> Voucher:
         return self.incorporate_transient_state(
-- 
2.43.0


From 98795763385eb9be5114c93cd7133bb10811f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 40/44] fix: do not accept a voucher which could not be
 recorded

The answer to its submission was 200 although the database had failed and
nothing of it was stored.
---
 src/_zkapauthorizer/resource.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index f0bb6fb..762ae87 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -713,7 +713,17 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        failures: list[Failure] = []
+
+        def failed(reason: Failure) -> None:
+            self._log.failure("Redeeming a submitted voucher", reason)
+            failures.append(reason)
+
+        d = Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        d.addErrback(failed)
+        if failures:
+            # The voucher could not even be recorded.
+            set_response_code(request, INTERNAL_SERVER_ERROR)
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From 04d8a65aa14d04e10ea01a643b2696346422535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 41/44] fix: do not offer spent passes again if spending cannot
 be recorded

If the database failed after a storage server had accepted some passes then
they went back to the wallet and the operation was reported to have failed.
---
 src/_zkapauthorizer/_storage_client.py | 33 ++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index e42c635..80be8d7 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -20,8 +20,9 @@ This is the client part of a storage access protocol.  The server part is
 implemented in ``_storage_server.py``.
 """
 
+from contextlib import contextmanager
 from functools import partial, wraps
-from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
+from typing import Any, Awaitable, Callable, Generator, Optional, Protocol, TypeVar
 
 from allmydata.interfaces import IStorageServer
 from allmydata.util.base32 import a2b
@@ -30,6 +31,7 @@ from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
 from twisted.internet.defer import Deferred
 from twisted.internet.interfaces import IReactorTime
+from twisted.logger import Logger
 from twisted.python.reflect import namedAny
 from typing_extensions import Concatenate, ParamSpec
 from zope.interface import implementer
@@ -114,6 +116,22 @@ def invalidate_rejected_passes(
     return okay_passes
 
 
+@contextmanager
+def settling() -> Generator[None, None, None]:
+    """
+    Create a context in which to note the consequences of an operation which
+    has succeeded.
+
+    If the wallet cannot be changed now this does not make the operation fail.
+    The passes in question stay reserved so they are not used again for as
+    long as this process runs.
+    """
+    try:
+        yield
+    except Exception:
+        Logger().failure("cannot note what became of the passes of an operation")
+
+
 async def call_with_passes_with_manual_spend(
     method: Callable[[IPassGroup], Awaitable[_T]],
     num_passes: int,
@@ -195,12 +213,17 @@ async def call_with_passes(
 
     For parameter documentation, see ``call_with_passes_with_manual_spend``.
     """
+
+    def spend_all(result: _T, pass_group: IPassGroup) -> None:
+        with settling():
+            pass_group.mark_spent()
+
     return await call_with_passes_with_manual_spend(
         method,
         num_passes,
         get_passes,
         # Commit the spend of the passes when the operation finally succeeds.
-        lambda result, pass_group: pass_group.mark_spent(),
+        spend_all,
     )
 
 
@@ -475,8 +498,10 @@ class ZKAPAuthorizerStorageClient(object):
             [allocated_size] * len(bucketwriters),
         )
         to_spend, to_reset = pass_group.split(range(actual_passes))
-        to_spend.mark_spent()
-        to_reset.reset()
+        with settling():
+            to_spend.mark_spent()
+        with settling():
+            to_reset.reset()
 
     @with_rref
     async def allocate_buckets(
-- 
2.43.0


From cdfc2a9d9a9d14cf1daf78aa62cc44222e1fea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 42/44] fix: do not leave a transaction open if events cannot
 be pruned

A failure to commit the removal of uploaded events left the transaction to
whoever used the connection next, a change of the wallet, which then failed.
---
 src/_zkapauthorizer/replicate.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 05f92a2..6470c2d 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -755,16 +755,22 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
     """
     Remove all events <= sequence_number
     """
-    with conn:
-        cursor = conn.cursor()
-        cursor.execute(
-            """
-            DELETE FROM [event-stream]
-            WHERE [sequence-number] <= (?)
-            """,
-            (sequence_number,),
-        )
-        cursor.fetchall()
+    try:
+        with conn:
+            cursor = conn.cursor()
+            cursor.execute(
+                """
+                DELETE FROM [event-stream]
+                WHERE [sequence-number] <= (?)
+                """,
+                (sequence_number,),
+            )
+            cursor.fetchall()
+    except BaseException:
+        # If the transaction could not be committed then do not leave it to
+        # whoever uses the connection next.
+        conn.rollback()
+        raise
 
 
 @frozen
-- 
2.43.0


From 2b544d825f83300bcedbe6c3d76ce899149e3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 43/44] fix: keep trying to resume replication

If the database failed just when replication was to be resumed after a failure
then it ended until the next start.
---
 src/_zkapauthorizer/replicate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 6470c2d..8482459 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -912,9 +912,13 @@ class _ReplicationService(Service):
         from twisted.internet import reactor
 
         delay = _MIN_RETRY_DELAY
+        resume = False
         while True:
             began = reactor.seconds()
             try:
+                if resume:
+                    self._resume()
+                resume = True
                 await self.wait_for_uploads()
             except CancelledError:
                 # Ignore cancels; this will be the normal way we quit -- see
@@ -938,7 +942,6 @@ class _ReplicationService(Service):
             except CancelledError:
                 return None
             delay = min(delay * 2, _MAX_RETRY_DELAY)
-            self._resume()
 
     def queue_job(self, job: ReplicationJob) -> None:
         """
-- 
2.43.0


From b7b507caa7a8e4d2f99ac2111a5fe934f4335e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 44/44] fix: upgrade what was recovered from an older replica
 at once

---
 src/_zkapauthorizer/recover.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index ba382ba..ceddaff 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -24,6 +24,7 @@ from attrs import define, field
 from tahoe_capabilities import DirectoryReadCapability
 
 from .replicate import SNAPSHOT_NAME, EventStream, statements_to_snapshot
+from .schema import get_schema_upgrades, get_schema_version, run_schema_upgrades
 from .sql import Cursor, escape_identifier
 from .tahoe import DataProvider, FileNode, ITahoeClient, download_child
 
@@ -159,6 +160,10 @@ class StatefulRecoverer:
 
         async def load(cursor: Cursor) -> None:
             recover(snapshot, event_streams, cursor)
+            # The replica may have been made by an older version of the
+            # software.
+            upgrades = get_schema_upgrades(get_schema_version(cursor))
+            run_schema_upgrades(upgrades, cursor)
 
         try:
             await transact(load)
-- 
2.43.0

