From 73d30eec75e2b861482fbdee6267359b9344ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 01/16] fix: keep chunk size and trace context when a
 submission completes or fails

---
 opsqueue/src/common/submission.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index c36efe0..5694193 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -943,8 +943,8 @@ pub mod db {
     SAVEPOINT complete_submission_raw;
 
     INSERT INTO submissions_completed
-    (id, chunks_total, prefix, metadata, completed_at)
-    SELECT id, chunks_total, prefix, metadata, julianday($1) FROM submissions WHERE id = $2;
+    (id, chunks_total, prefix, metadata, completed_at, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, prefix, metadata, julianday($1), chunk_size, otel_trace_carrier FROM submissions WHERE id = $2;
 
     DELETE FROM submissions WHERE id = $3 RETURNING *;
 
@@ -979,8 +979,8 @@ pub mod db {
         query!(
             "
     INSERT INTO submissions_failed
-    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id)
-    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2 FROM submissions WHERE id = $3;
+    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, chunk_size, otel_trace_carrier FROM submissions WHERE id = $3;
 
     DELETE FROM submissions WHERE id = $4 RETURNING *;
     ",
-- 
2.43.0


From 11f6627b862e151eeffde1068a518c3043e7d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 02/16] fix: find cancelled submissions when looking up a
 prefix

---
 opsqueue/src/common/submission.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 5694193..e3fb557 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -583,6 +583,8 @@ pub mod db {
             SELECT id AS "id: SubmissionId" FROM submissions_completed WHERE prefix = $1
             UNION ALL
             SELECT id AS "id: SubmissionId" FROM submissions_failed WHERE prefix = $1
+            UNION ALL
+            SELECT id AS "id: SubmissionId" FROM submissions_cancelled WHERE prefix = $1
             "#,
             prefix
         )
-- 
2.43.0


From 23cf43c927a311a4b81c0c7a5f3c6b44aaef98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:21 +0000
Subject: [PATCH 03/16] fix: complete an empty submission in the transaction
 that inserts it

---
 opsqueue/src/common/submission.rs | 45 ++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index e3fb557..ece8dd2 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -471,26 +471,35 @@ pub mod db {
                 Chunk::new(submission_id, chunk_index.try_into().unwrap(), uri)
             })
             .collect();
-        insert_submission(submission, iter, &mut conn).await?;
+        if len != 0 {
+            insert_submission(submission, iter, &mut conn).await?;
+            return Ok(submission_id);
+        }
         // Empty submissions get special handling: we mark them as completed right away.
         // See https://github.com/channable/opsqueue/issues/86 for rationale.
-        if len == 0 {
-            match maybe_complete_submission(submission_id, conn).await {
-                // Forward our database errors to the caller.
-                Err(E::L(e)) => return Err(e),
-                // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
-                Err(E::R(_)) => {
-                    tracing::warn!(%submission_id, "Presumed zero-length submission not found");
-                }
-                // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
-                // Our future selves might thank us.
-                Ok(true) => {
-                    tracing::debug!(%submission_id, "Zero-length submission marked as completed");
-                }
-                // This should never happen. If it does, better log it.
-                Ok(false) => {
-                    tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
-                }
+        // This happens in the transaction that inserts them, so that a failure or a crash
+        // can never leave an empty submission in progress, which nothing would ever complete.
+        let completed: Result<bool, E<DatabaseError, SubmissionNotFound>> = conn
+            .transaction(move |mut tx| {
+                Box::pin(async move {
+                    insert_submission(submission, iter, &mut tx).await?;
+                    maybe_complete_submission(submission_id, &mut tx).await
+                })
+            })
+            .await;
+        match completed {
+            // Forward our database errors to the caller.
+            Err(E::L(e)) => return Err(e),
+            // We inserted it just now; nothing was kept.
+            Err(E::R(_)) => return Err(sqlx::Error::RowNotFound.into()),
+            // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
+            // Our future selves might thank us.
+            Ok(true) => {
+                tracing::debug!(%submission_id, "Zero-length submission marked as completed");
+            }
+            // This should never happen. If it does, better log it.
+            Ok(false) => {
+                tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
             }
         }
         Ok(submission_id)
-- 
2.43.0


From 0c44a478162ac570609c58e7b774ae0087d746b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:14 +0000
Subject: [PATCH 04/16] fix: do not reuse a writer connection whose transaction
 SQLite has rolled back

---
 opsqueue/src/db/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opsqueue/src/db/mod.rs b/opsqueue/src/db/mod.rs
index 4514b80..4bd8fc2 100644
--- a/opsqueue/src/db/mod.rs
+++ b/opsqueue/src/db/mod.rs
@@ -488,6 +488,10 @@ async fn db_connect_write_pool(database_filename: &str) -> WriterPool {
     SqlitePoolOptions::new()
         .min_connections(1)
         .max_connections(1)
+        // When a write fails (e.g. because the disk is full), `SQLite` may roll back the whole transaction
+        // by itself, which leaves `sqlx` under the impression that it is still inside one.
+        // Such a connection must not be used again: all later 'commits' on it would commit nothing.
+        .after_release(|conn, _| Box::pin(async move { Ok(!conn.is_in_transaction()) }))
         .connect_with(db_options(database_filename))
         .await
         .map(Pool::new)
-- 
2.43.0


From 15172a55e33fd47f7afa6cf8ed3b1d187b6b2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:18 +0000
Subject: [PATCH 05/16] fix: status of a failed submission that is being
 cleaned up is 'not found', not an error

---
 opsqueue/src/common/submission.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index ece8dd2..41850f4 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -779,7 +779,12 @@ pub mod db {
                 otel_trace_carrier: row.otel_trace_carrier,
             };
             let failed_chunk_id = (row.id, row.failed_chunk_id).into();
-            let failed_chunk = super::chunk::db::get_chunk_failed(failed_chunk_id, conn).await?;
+            let failed_chunk = match super::chunk::db::get_chunk_failed(failed_chunk_id, conn).await
+            {
+                // The submission and its chunks have been cleaned up since we looked at it.
+                Err(sqlx::Error::RowNotFound) => return Ok(None),
+                failed_chunk => failed_chunk?,
+            };
             return Ok(Some(SubmissionStatus::Failed(
                 failed_submission,
                 failed_chunk,
-- 
2.43.0


From e94fa339441b0b09259ef5a67c3e98444fe34e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 06/16] fix: cleanup removes the chunks of a removed submission
 whenever they were marked

---
 opsqueue/src/common/submission.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 41850f4..f5b6a75 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -1141,6 +1141,27 @@ pub mod db {
                 .execute(tx.get_inner())
                 .await?;
 
+                // Clean up the chunks of old failed/cancelled submissions. These are marked slightly
+                // later than their submission, so looking at their own time could leave them behind.
+                let mut n_chunks_failed = query!(
+                    "DELETE FROM chunks_failed
+                    WHERE submission_id IN (
+                        SELECT id FROM submissions_failed WHERE failed_at < julianday($1)
+                    );",
+                    older_than
+                )
+                .execute(tx.get_inner())
+                .await?.rows_affected();
+                n_chunks_failed += query!(
+                    "DELETE FROM chunks_failed
+                    WHERE submission_id IN (
+                        SELECT id FROM submissions_cancelled WHERE cancelled_at < julianday($1)
+                    );",
+                    older_than
+                )
+                .execute(tx.get_inner())
+                .await?.rows_affected();
+
                 // Clean up old submissions:
                 let n_submissions_completed = query!(
                     "DELETE FROM submissions_completed WHERE completed_at < julianday($1);",
@@ -1167,7 +1188,7 @@ pub mod db {
                 )
                 .execute(tx.get_inner())
                 .await?.rows_affected();
-                let n_chunks_failed = query!(
+                n_chunks_failed += query!(
                     "DELETE FROM chunks_failed WHERE failed_at < julianday($1);",
                     older_than
                 )
-- 
2.43.0


From 2407dc2e366dbc79fd79e7ba02f115502c1407fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 07/16] fix: a late report or disconnect releases only the
 consumer's own reservations

---
 opsqueue/src/consumer/dispatcher/mod.rs      | 36 ++++++++++++++++++--
 opsqueue/src/consumer/dispatcher/reserver.rs | 29 +++++++++++++---
 opsqueue/src/consumer/server/conn.rs         |  7 ++--
 opsqueue/src/consumer/server/mod.rs          | 34 ++++++++----------
 opsqueue/src/consumer/server/state.rs        | 33 ++++++++++++++----
 5 files changed, 100 insertions(+), 39 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index ce3e9a2..63eae61 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -323,19 +323,49 @@ impl Dispatcher {
         Ok((chunk, submission))
     }
 
-    pub fn finish_reservations_sync<'a>(&self, reservations: impl Iterator<Item = &'a ChunkId>) {
+    pub fn finish_reservations_sync<'a>(
+        &self,
+        reservations: impl Iterator<Item = &'a ChunkId>,
+        owner: &UnboundedSender<ChunkId>,
+    ) {
         for reservation in reservations {
-            let _ = self.reserver.finish_reservation_sync(reservation);
+            let _ = self.reserver.finish_reservation_sync(reservation, owner);
         }
     }
 
+    /// Finish the reservation of a chunk, regardless of who reserved it.
     pub async fn finish_reservation(
         &self,
         conn: impl Connection,
         id: ChunkId,
         delayed: bool,
     ) -> Option<Instant> {
-        let maybe_started_at = self.reserver.finish_reservation(&id, delayed).await;
+        self.finish(conn, id, None, delayed).await
+    }
+
+    /// Finish the reservation of a chunk, if it was reserved with this `owner` as its
+    /// `stale_chunks_notifier`.
+    ///
+    /// A consumer might report a chunk after its reservation has expired. By then the chunk may be
+    /// reserved by another consumer, whose reservation has to stay intact.
+    pub async fn finish_owned_reservation(
+        &self,
+        conn: impl Connection,
+        id: ChunkId,
+        owner: &UnboundedSender<ChunkId>,
+        delayed: bool,
+    ) -> Option<Instant> {
+        self.finish(conn, id, Some(owner), delayed).await
+    }
+
+    async fn finish(
+        &self,
+        conn: impl Connection,
+        id: ChunkId,
+        owner: Option<&UnboundedSender<ChunkId>>,
+        delayed: bool,
+    ) -> Option<Instant> {
+        let maybe_started_at = self.reserver.finish_reservation(&id, owner, delayed).await;
 
         // In the highly unlikely event that this DB query fails,
         // we still want to continue
diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 91b93e6..e2f9459 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -91,13 +91,27 @@ where
     /// Removes a particular key-val from the reserver.
     /// Afterwards, it is possible to reserve it again.
     ///
+    /// When an `owner` is given, only a reservation that was made with that sender is removed:
+    /// the reservation might have expired, and somebody else might hold the key by now.
+    ///
     /// Precondition: key should be reserved first (checked in debug builds)
-    pub async fn finish_reservation(&self, key: &K, delayed: bool) -> Option<Instant> {
+    pub async fn finish_reservation(
+        &self,
+        key: &K,
+        owner: Option<&UnboundedSender<V>>,
+        delayed: bool,
+    ) -> Option<Instant> {
         match self.reservations.get(key) {
             None => {
                 tracing::warn!("Attempted to finish non-existent reservation: {key:?}");
                 None
             }
+            Some((_val, sender, _reserved_at))
+                if owner.is_some_and(|owner| !owner.same_channel(&sender)) =>
+            {
+                tracing::warn!("Attempted to finish somebody else's reservation: {key:?}");
+                None
+            }
             Some((_val, _sender, reserved_at)) => {
                 if delayed {
                     // We remove the reservation with a slight delay
@@ -121,10 +135,15 @@ where
 
     /// Sync version of `.finish_reservation`; does not support delayed removal.
     /// Intended to be called from within a `Drop` implementation.
-    pub fn finish_reservation_sync(&self, key: &K) -> Option<Instant> {
-        self.reservations
-            .remove(key)
-            .map(|(_val, _sender, reserved_at)| reserved_at)
+    /// Only removes a reservation that was made with the `owner` sender.
+    pub fn finish_reservation_sync(&self, key: &K, owner: &UnboundedSender<V>) -> Option<Instant> {
+        match self.reservations.get(key) {
+            Some((_val, sender, _reserved_at)) if owner.same_channel(&sender) => self
+                .reservations
+                .remove(key)
+                .map(|(_val, _sender, reserved_at)| reserved_at),
+            _ => None,
+        }
     }
 
     /// Run this every so often to make sure outdated entries are cleaned up
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 8b9cecd..28464f6 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -51,7 +51,7 @@ pub struct ConsumerConn {
     heartbeats_missed: usize,
     max_missable_heartbeats: usize,
     // Channel with which the rest of the server can send messages to this particular client
-    tx: UnboundedSender<ChunkId>,
+    // (the sending side is part of the `consumer_state`)
     rx: UnboundedReceiver<ChunkId>,
 
     tx2: UnboundedSender<RetryReservation>,
@@ -65,7 +65,7 @@ impl ConsumerConn {
         let heartbeats_missed = 0;
         let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
         let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel();
-        let consumer_state = ConsumerState::new(server_state);
+        let consumer_state = ConsumerState::new(server_state, tx);
         let cancellation_token = server_state.cancellation_token.clone();
         let notify_on_insert = server_state.notify_on_insert.clone();
 
@@ -87,7 +87,6 @@ impl ConsumerConn {
             heartbeat_interval,
             heartbeats_missed,
             max_missable_heartbeats: server_state.config.max_missable_heartbeats,
-            tx,
             rx,
             tx2,
             rx2,
@@ -213,7 +212,7 @@ impl ConsumerConn {
             WantToReserveChunks { max, strategy } => {
                 let chunks_or_err = self
                     .consumer_state
-                    .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
+                    .fetch_and_reserve_chunks(strategy.clone(), max)
                     .await;
                 match chunks_or_err {
                     Err(e) => {
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index 5cd9a22..5eb4855 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -1,9 +1,5 @@
 use crate::tracing::{anyhow_as_dyn_error, as_dyn_error};
-use std::{
-    collections::HashSet,
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+use std::{sync::Arc, time::Duration};
 
 use axum::{
     Router,
@@ -11,7 +7,10 @@ use axum::{
     routing::get,
 };
 use axum_prometheus::metrics::{gauge, histogram};
-use tokio::{select, sync::Notify};
+use tokio::{
+    select,
+    sync::{Notify, mpsc::UnboundedSender},
+};
 use tokio_util::sync::CancellationToken;
 
 use crate::{
@@ -145,12 +144,12 @@ pub enum CompleterMessage {
     Complete {
         id: ChunkId,
         output_content: crate::common::chunk::Content,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        owner: UnboundedSender<ChunkId>,
     },
     Fail {
         id: ChunkId,
         failure: String,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        owner: UnboundedSender<ChunkId>,
     },
 }
 
@@ -160,7 +159,7 @@ impl std::fmt::Debug for CompleterMessage {
             Self::Complete {
                 id,
                 output_content,
-                reservations: _,
+                owner: _,
             } => f
                 .debug_struct("Complete")
                 .field("id", id)
@@ -169,7 +168,7 @@ impl std::fmt::Debug for CompleterMessage {
             Self::Fail {
                 id,
                 failure,
-                reservations: _,
+                owner: _,
             } => f
                 .debug_struct("Fail")
                 .field("id", id)
@@ -233,7 +232,7 @@ impl Completer {
                 CompleterMessage::Complete {
                     id,
                     output_content,
-                    reservations,
+                    owner,
                 } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
@@ -241,10 +240,9 @@ impl Completer {
                         crate::common::chunk::db::complete_chunk(id, output_content, &mut conn)
                             .await;
 
-                    reservations.lock().expect("No poison").remove(&id);
                     if let Some(started_at) = self
                         .dispatcher
-                        .finish_reservation(&mut conn, id, true)
+                        .finish_owned_reservation(&mut conn, id, &owner, true)
                         .await
                     {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
@@ -262,11 +260,7 @@ impl Completer {
                     db_res?;
                     Ok(())
                 }
-                CompleterMessage::Fail {
-                    id,
-                    failure,
-                    reservations,
-                } => {
+                CompleterMessage::Fail { id, failure, owner } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
                     let failed_permanently = crate::common::chunk::db::retry_or_fail_chunk(
@@ -276,12 +270,12 @@ impl Completer {
                         self.max_chunk_retries,
                     )
                     .await;
-                    reservations.lock().expect("No poison").remove(&id);
                     let maybe_started_at = self
                         .dispatcher
-                        .finish_reservation(
+                        .finish_owned_reservation(
                             &mut conn,
                             id,
+                            &owner,
                             *failed_permanently.as_ref().unwrap_or(&false),
                         )
                         .await;
diff --git a/opsqueue/src/consumer/server/state.rs b/opsqueue/src/consumer/server/state.rs
index 4288a1d..7704e79 100644
--- a/opsqueue/src/consumer/server/state.rs
+++ b/opsqueue/src/consumer/server/state.rs
@@ -4,6 +4,7 @@ use std::sync::Mutex;
 
 use axum_prometheus::metrics::histogram;
 use opentelemetry::trace::TraceContextExt;
+use tokio::sync::mpsc::UnboundedSender;
 use tracing_opentelemetry::OpenTelemetrySpanExt;
 
 use crate::common::chunk;
@@ -22,7 +23,10 @@ use crate::common::errors::{E, IncorrectUsage, LimitIsZero};
 pub struct ConsumerState {
     server_state: Arc<ServerState>,
     // The following are the consumer-specific chunks that are currently reserved.
+    // A chunk is no longer in here once it was reported: the completer finishes its reservation.
     reservations: Arc<Mutex<HashSet<ChunkId>>>,
+    // Identifies this consumer as the owner of its reservations.
+    stale_chunks_notifier: UnboundedSender<ChunkId>,
 }
 
 impl Drop for ConsumerState {
@@ -33,20 +37,24 @@ impl Drop for ConsumerState {
         // as those will be by definition unfinished
         self.server_state
             .dispatcher
-            .finish_reservations_sync(reservations.iter());
+            .finish_reservations_sync(reservations.iter(), &self.stale_chunks_notifier);
     }
 }
 
 impl ConsumerState {
     #[must_use]
-    pub fn new(server_state: &Arc<ServerState>) -> Self {
+    pub fn new(
+        server_state: &Arc<ServerState>,
+        stale_chunks_notifier: UnboundedSender<ChunkId>,
+    ) -> Self {
         Self {
             reservations: Arc::new(Mutex::new(HashSet::new())),
             server_state: server_state.clone(),
+            stale_chunks_notifier,
         }
     }
 
-    #[tracing::instrument(skip(self, stale_chunks_notifier))]
+    #[tracing::instrument(skip(self))]
     #[allow(clippy::type_complexity)]
     /// Fetch and reserve chunks for this connection state.
     ///
@@ -61,7 +69,6 @@ impl ConsumerState {
         &mut self,
         strategy: strategy::Strategy,
         limit: usize,
-        stale_chunks_notifier: &tokio::sync::mpsc::UnboundedSender<ChunkId>,
     ) -> Result<Vec<(Chunk, Submission)>, E<DatabaseError, IncorrectUsage<LimitIsZero>>> {
         let start = tokio::time::Instant::now();
         if limit == 0 {
@@ -75,7 +82,7 @@ impl ConsumerState {
                 self.server_state.pool.reader_pool(),
                 strategy.clone(),
                 limit,
-                stale_chunks_notifier,
+                &self.stale_chunks_notifier,
             )
             .await?;
 
@@ -112,8 +119,14 @@ impl ConsumerState {
         Ok(new_reservations)
     }
 
+    /// Report a chunk as completed.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the reservations mutex is poisoned.
     #[tracing::instrument(skip(self, output_content))]
     pub async fn complete_chunk(&mut self, id: ChunkId, output_content: chunk::Content) {
+        self.reservations.lock().expect("No poison").remove(&id);
         // Only possible error indicates sender is closed, which means we're shutting down
         let _ = self
             .server_state
@@ -121,19 +134,25 @@ impl ConsumerState {
             .send(CompleterMessage::Complete {
                 id,
                 output_content,
-                reservations: self.reservations.clone(),
+                owner: self.stale_chunks_notifier.clone(),
             })
             .await;
     }
 
+    /// Report a chunk as failed.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the reservations mutex is poisoned.
     pub async fn fail_chunk(&mut self, id: ChunkId, failure: String) {
+        self.reservations.lock().expect("No poison").remove(&id);
         let _ = self
             .server_state
             .completer_tx
             .send(CompleterMessage::Fail {
                 id,
                 failure,
-                reservations: self.reservations.clone(),
+                owner: self.stale_chunks_notifier.clone(),
             })
             .await;
     }
-- 
2.43.0


From 15e7a57dd4976ad4d6c66793794fc9ec016b3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:20 +0000
Subject: [PATCH 08/16] fix: do not hand out chunks that finished while a
 request was being served

---
 opsqueue/src/consumer/dispatcher/mod.rs | 107 ++++++++++++++++--------
 1 file changed, 74 insertions(+), 33 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index 63eae61..b44f6cd 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -4,11 +4,12 @@ pub mod reserver;
 use crate::{
     common::{
         chunk::{Chunk, ChunkId, ChunkIndex},
+        errors::{DatabaseError, E, SubmissionNotFound},
         submission::{Submission, SubmissionId},
     },
-    db::{Connection, Pool, ReaderPool, magic::Bool},
+    db::{Connection, ReaderPool},
 };
-use futures::stream::{StreamExt as _, TryStreamExt as _};
+use futures::stream::TryStreamExt as _;
 use libsqlite3_sys as ffi;
 use metastate::MetaState;
 use reserver::Reserver;
@@ -218,19 +219,55 @@ impl Dispatcher {
     ) -> Result<Vec<(Chunk, Submission)>, sqlx::Error> {
         let mut conn = pool.reader_conn().await?;
         self.register_lookups(conn.get_inner()).await?;
-        let mut query_builder = QueryBuilder::new("");
-        let stream = strategy
-            .build_query(&mut query_builder)
-            .build_query_as()
-            .fetch(conn.get_inner());
-        stream
-            .try_filter_map(|chunk| {
-                futures::future::ready(Ok(self.reserve_chunk(chunk, stale_chunks_notifier)))
-            })
-            .and_then(|chunk| self.join_chunk_with_submission_info(chunk, pool))
-            .take(limit)
-            .try_collect()
-            .await
+        let mut ids = Vec::new();
+        let result = self
+            .reserve_and_join(&mut conn, &strategy, limit, stale_chunks_notifier, &mut ids)
+            .await;
+        if result.is_err() {
+            // Nobody is going to work on these, so they should not stay reserved.
+            self.finish_reservations_sync(ids.iter(), stale_chunks_notifier);
+        }
+        result
+    }
+
+    /// The IDs of the chunks that are reserved in the process are added to `ids`.
+    async fn reserve_and_join(
+        &self,
+        conn: &mut impl Connection,
+        strategy: &strategy::Strategy,
+        limit: usize,
+        stale_chunks_notifier: &UnboundedSender<ChunkId>,
+        ids: &mut Vec<ChunkId>,
+    ) -> Result<Vec<(Chunk, Submission)>, sqlx::Error> {
+        let mut result = Vec::new();
+        loop {
+            let wanted = limit - result.len();
+            let from = ids.len();
+            {
+                let mut query_builder = QueryBuilder::new("");
+                let mut stream = strategy
+                    .build_query(&mut query_builder)
+                    .build_query_as()
+                    .fetch(conn.get_inner());
+                while ids.len() - from < wanted
+                    && let Some(chunk) = stream.try_next().await?
+                {
+                    ids.extend(self.reserve_chunk(&chunk, stale_chunks_notifier));
+                }
+            }
+            let found = ids.len() - from;
+            for id in ids[from..].to_vec() {
+                match self.join_chunk_with_submission_info(id, &mut *conn).await? {
+                    Some(joined) => result.push(joined),
+                    // The chunk was finished while our query was running.
+                    None => self.finish_reservations_sync([id].iter(), stale_chunks_notifier),
+                }
+            }
+            // When some of the chunks turned out to be finished, there might be others.
+            if found < wanted || result.len() == limit {
+                return Ok(result);
+            }
+        }
     }
 
     async fn register_lookups(&self, conn: &mut sqlx::SqliteConnection) -> Result<(), sqlx::Error> {
@@ -294,33 +331,37 @@ impl Dispatcher {
 
     fn reserve_chunk(
         &self,
-        chunk: Chunk,
+        chunk: &Chunk,
         stale_chunks_notifier: &UnboundedSender<ChunkId>,
-    ) -> Option<Chunk> {
+    ) -> Option<ChunkId> {
         let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
         self.reserver
             .try_reserve(chunk_id, chunk_id, stale_chunks_notifier)
-            .map(|_| chunk)
     }
 
+    /// Look up a chunk that was just reserved, together with its submission.
+    ///
+    /// The query that found the chunk might look at an old version of the database,
+    /// so by now the chunk might no longer be there to work on, in which case we return `None`.
     async fn join_chunk_with_submission_info(
         &self,
-        chunk: Chunk,
-        pool: &Pool<impl Bool>,
-    ) -> Result<(Chunk, Submission), sqlx::Error> {
-        let mut conn = pool.acquire().await?;
+        id: ChunkId,
+        conn: &mut impl Connection,
+    ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
+        let chunk = match crate::common::chunk::db::get_chunk(id, &mut *conn).await {
+            Ok(chunk) => chunk,
+            Err(sqlx::Error::RowNotFound) => return Ok(None),
+            Err(error) => return Err(error),
+        };
         let submission =
-            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn)
-                .await
-                .expect("get_submission while reserving failed");
-        let metadata = crate::common::submission::db::get_submission_strategic_metadata(
-            chunk.submission_id,
-            &mut conn,
-        )
-        .await
-        .expect("get_submission_strategic_metadata while reserving failed");
-        self.insert_metadata(&metadata);
-        Ok((chunk, submission))
+            match crate::common::submission::db::get_submission(id.submission_id, &mut *conn).await
+            {
+                Ok(submission) => submission,
+                Err(E::R(SubmissionNotFound(_))) => return Ok(None),
+                Err(E::L(DatabaseError(error))) => return Err(error),
+            };
+        self.insert_metadata(&submission.strategic_metadata);
+        Ok(Some((chunk, submission)))
     }
 
     pub fn finish_reservations_sync<'a>(
-- 
2.43.0


From f406ad18a924e4b523b5a425c84f033ebd37bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:00 +0000
Subject: [PATCH 09/16] fix: count chunks as in flight exactly as long as they
 are being worked on

---
 opsqueue/src/consumer/dispatcher/metastate.rs |  6 --
 opsqueue/src/consumer/dispatcher/mod.rs       | 94 ++++++++++++-------
 opsqueue/src/consumer/dispatcher/reserver.rs  |  9 +-
 opsqueue/src/consumer/server/mod.rs           |  3 +-
 4 files changed, 66 insertions(+), 46 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/metastate.rs b/opsqueue/src/consumer/dispatcher/metastate.rs
index 4bb2820..fbcd976 100644
--- a/opsqueue/src/consumer/dispatcher/metastate.rs
+++ b/opsqueue/src/consumer/dispatcher/metastate.rs
@@ -24,12 +24,6 @@ impl MetaState {
                 meta_state_field.decrement(val);
                 meta_state_field.is_empty()
             } else {
-                // The decrement is called unconditionally after `finish_reservation` happened. An
-                // expired reservation always sends a chunk failure via the client, regardless of
-                // whether `finish_reservation` succeeded or not. In other words, the `decrement` is
-                // not always part of the same atomic state transition as removing the reservation
-                // from the reserver. This means that if a reservation is finished by multiple
-                // different racing paths we can get multiple decrements.
                 tracing::error!(
                     key = key,
                     val = val,
diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index b44f6cd..b2ae3ac 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -9,6 +9,7 @@ use crate::{
     },
     db::{Connection, ReaderPool},
 };
+use dashmap::DashMap;
 use futures::stream::TryStreamExt as _;
 use libsqlite3_sys as ffi;
 use metastate::MetaState;
@@ -168,24 +169,58 @@ unsafe extern "C" fn sqlite_metadata_count_lookup_destructor(ptr: *mut std::ffi:
 #[derive(Debug, Clone)]
 pub struct Dispatcher {
     reserver: Reserver<ChunkId, ChunkId>,
+    in_flight: Arc<InFlight>,
+}
+
+/// What the reserved chunks that are being worked on count for in the metastate.
+#[derive(Debug, Default)]
+struct InFlight {
     metastate: Arc<MetaState>,
+    counted: DashMap<ChunkId, StrategicMetadataMap>,
+}
+
+impl InFlight {
+    fn insert(&self, id: ChunkId, metadata: StrategicMetadataMap) {
+        for (name, value) in &metadata {
+            self.metastate.increment(name, *value);
+        }
+        if let Some(outdated) = self.counted.insert(id, metadata) {
+            self.decrement(&outdated);
+        }
+    }
+
+    /// No longer counts a chunk.
+    /// There are many ways for a reservation to end, which might race with each other;
+    /// it is fine to call this for each of them.
+    fn remove(&self, id: &ChunkId) {
+        if let Some((_id, metadata)) = self.counted.remove(id) {
+            self.decrement(&metadata);
+        }
+    }
+
+    fn decrement(&self, metadata: &StrategicMetadataMap) {
+        for (name, value) in metadata {
+            self.metastate.decrement(name, *value);
+        }
+    }
 }
 
 impl Dispatcher {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
-        let reserver = Reserver::new(reservation_expiration);
-        let metastate = Arc::new(MetaState::default());
+        let in_flight = Arc::new(InFlight::default());
+        let counted = in_flight.clone();
+        let reserver = Reserver::new(reservation_expiration, move |id| counted.remove(id));
 
         Dispatcher {
             reserver,
-            metastate,
+            in_flight,
         }
     }
 
     #[must_use]
     pub fn metastate(&self) -> &MetaState {
-        &self.metastate
+        &self.in_flight.metastate
     }
 
     #[must_use]
@@ -193,18 +228,6 @@ impl Dispatcher {
         &self.reserver
     }
 
-    fn insert_metadata(&self, metadata: &StrategicMetadataMap) {
-        for (name, value) in metadata {
-            self.metastate.increment(name, *value);
-        }
-    }
-
-    fn remove_metadata(&self, metadata: &StrategicMetadataMap) {
-        for (name, value) in metadata {
-            self.metastate.decrement(name, *value);
-        }
-    }
-
     /// Fetch chunks according to strategy and reserve them in memory.
     ///
     /// # Errors
@@ -304,7 +327,7 @@ impl Dispatcher {
         }
 
         // Register the bulk metadata counts lookup backed by current metastate.
-        let user_data = Box::new(self.metastate.clone());
+        let user_data = Box::new(self.in_flight.metastate.clone());
         let user_data = Box::into_raw(user_data).cast::<std::ffi::c_void>();
         let rc = unsafe {
             ffi::sqlite3_create_function_v2(
@@ -360,7 +383,12 @@ impl Dispatcher {
                 Err(E::R(SubmissionNotFound(_))) => return Ok(None),
                 Err(E::L(DatabaseError(error))) => return Err(error),
             };
-        self.insert_metadata(&submission.strategic_metadata);
+        self.in_flight
+            .insert(id, submission.strategic_metadata.clone());
+        if !self.reserver.is_reserved(&id) {
+            // It expired in the meantime.
+            self.in_flight.remove(&id);
+        }
         Ok(Some((chunk, submission)))
     }
 
@@ -377,11 +405,11 @@ impl Dispatcher {
     /// Finish the reservation of a chunk, regardless of who reserved it.
     pub async fn finish_reservation(
         &self,
-        conn: impl Connection,
+        _conn: impl Connection,
         id: ChunkId,
         delayed: bool,
     ) -> Option<Instant> {
-        self.finish(conn, id, None, delayed).await
+        self.finish(id, None, delayed).await
     }
 
     /// Finish the reservation of a chunk, if it was reserved with this `owner` as its
@@ -391,34 +419,28 @@ impl Dispatcher {
     /// reserved by another consumer, whose reservation has to stay intact.
     pub async fn finish_owned_reservation(
         &self,
-        conn: impl Connection,
         id: ChunkId,
         owner: &UnboundedSender<ChunkId>,
         delayed: bool,
     ) -> Option<Instant> {
-        self.finish(conn, id, Some(owner), delayed).await
+        self.finish(id, Some(owner), delayed).await
     }
 
     async fn finish(
         &self,
-        conn: impl Connection,
         id: ChunkId,
         owner: Option<&UnboundedSender<ChunkId>>,
         delayed: bool,
     ) -> Option<Instant> {
-        let maybe_started_at = self.reserver.finish_reservation(&id, owner, delayed).await;
-
-        // In the highly unlikely event that this DB query fails,
-        // we still want to continue
-        let metadata = crate::common::submission::db::get_submission_strategic_metadata(
-            id.submission_id,
-            conn,
-        )
-        .await
-        .unwrap_or_default();
-
-        self.remove_metadata(&metadata);
-        maybe_started_at
+        let started_at = self
+            .reserver
+            .finish_reservation(&id, owner, delayed)
+            .await?;
+        if delayed {
+            // The reservation remains for a bit, but the work is done.
+            self.in_flight.remove(&id);
+        }
+        Some(started_at)
     }
 
     pub fn run_pending_tasks_periodically(&self, cancellation_token: CancellationToken) {
diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index e2f9459..5ac307b 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -37,11 +37,16 @@ where
     K: Hash + Eq + Send + Sync + Debug + Copy + 'static,
     V: Send + Sync + Clone + 'static,
 {
+    /// `on_removed` is called for each reservation that is removed, no matter why.
     #[must_use]
-    pub fn new(reservation_expiration: Duration) -> Self {
+    pub fn new(
+        reservation_expiration: Duration,
+        on_removed: impl Fn(&K) + Send + Sync + 'static,
+    ) -> Self {
         let reservations = Cache::builder()
             .time_to_live(reservation_expiration)
-            .eviction_listener(|_key, val: (V, UnboundedSender<V>, _), cause| {
+            .eviction_listener(move |key, val: (V, UnboundedSender<V>, _), cause| {
+                on_removed(&key);
                 if cause == RemovalCause::Expired {
                     // Only error case is if receiver is no longer listening
                     // In that case, nobody cares about the value being evicted anymore.
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index 5eb4855..ba20fc7 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -242,7 +242,7 @@ impl Completer {
 
                     if let Some(started_at) = self
                         .dispatcher
-                        .finish_owned_reservation(&mut conn, id, &owner, true)
+                        .finish_owned_reservation(id, &owner, true)
                         .await
                     {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
@@ -273,7 +273,6 @@ impl Completer {
                     let maybe_started_at = self
                         .dispatcher
                         .finish_owned_reservation(
-                            &mut conn,
                             id,
                             &owner,
                             *failed_permanently.as_ref().unwrap_or(&false),
-- 
2.43.0


From bb7afa399d320db328e3291f77d5d52667eedf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:33 +0000
Subject: [PATCH 10/16] fix: wake up waiting consumers whenever a chunk becomes
 available

---
 opsqueue/src/consumer/dispatcher/mod.rs | 35 ++++++++++++++++++++-----
 opsqueue/src/consumer/server/conn.rs    |  7 ++---
 opsqueue/src/consumer/server/mod.rs     |  4 +--
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index b2ae3ac..2900eca 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -17,7 +17,7 @@ use reserver::Reserver;
 use sqlx::QueryBuilder;
 use std::ffi::{CStr, CString};
 use std::time::{Duration, Instant};
-use tokio::sync::mpsc::UnboundedSender;
+use tokio::sync::{Notify, mpsc::UnboundedSender};
 use tokio_util::sync::CancellationToken;
 
 use std::sync::Arc;
@@ -170,6 +170,8 @@ unsafe extern "C" fn sqlite_metadata_count_lookup_destructor(ptr: *mut std::ffi:
 pub struct Dispatcher {
     reserver: Reserver<ChunkId, ChunkId>,
     in_flight: Arc<InFlight>,
+    // Tells consumers that wait for work that a chunk is available again.
+    notify_on_available: Arc<Notify>,
 }
 
 /// What the reserved chunks that are being worked on count for in the metastate.
@@ -192,9 +194,14 @@ impl InFlight {
     /// No longer counts a chunk.
     /// There are many ways for a reservation to end, which might race with each other;
     /// it is fine to call this for each of them.
-    fn remove(&self, id: &ChunkId) {
-        if let Some((_id, metadata)) = self.counted.remove(id) {
-            self.decrement(&metadata);
+    /// Returns whether it was counted.
+    fn remove(&self, id: &ChunkId) -> bool {
+        match self.counted.remove(id) {
+            Some((_id, metadata)) => {
+                self.decrement(&metadata);
+                true
+            }
+            None => false,
         }
     }
 
@@ -208,13 +215,26 @@ impl InFlight {
 impl Dispatcher {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
+        Self::with_notify(reservation_expiration, Arc::default())
+    }
+
+    /// Waiters on `notify_on_available` are notified when a chunk can be reserved again,
+    /// because its reservation ended without the chunk being finished.
+    #[must_use]
+    pub fn with_notify(reservation_expiration: Duration, notify_on_available: Arc<Notify>) -> Self {
         let in_flight = Arc::new(InFlight::default());
         let counted = in_flight.clone();
-        let reserver = Reserver::new(reservation_expiration, move |id| counted.remove(id));
+        let notify = notify_on_available.clone();
+        let reserver = Reserver::new(reservation_expiration, move |id| {
+            if counted.remove(id) {
+                notify.notify_waiters();
+            }
+        });
 
         Dispatcher {
             reserver,
             in_flight,
+            notify_on_available,
         }
     }
 
@@ -249,6 +269,7 @@ impl Dispatcher {
         if result.is_err() {
             // Nobody is going to work on these, so they should not stay reserved.
             self.finish_reservations_sync(ids.iter(), stale_chunks_notifier);
+            self.notify_on_available.notify_waiters();
         }
         result
     }
@@ -385,9 +406,9 @@ impl Dispatcher {
             };
         self.in_flight
             .insert(id, submission.strategic_metadata.clone());
-        if !self.reserver.is_reserved(&id) {
+        if !self.reserver.is_reserved(&id) && self.in_flight.remove(&id) {
             // It expired in the meantime.
-            self.in_flight.remove(&id);
+            self.notify_on_available.notify_waiters();
         }
         Ok(Some((chunk, submission)))
     }
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 28464f6..dbcc553 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -210,6 +210,8 @@ impl ConsumerConn {
         use SyncServerToClientResponse::ChunksReserved;
         let maybe_response = match msg.contents {
             WantToReserveChunks { max, strategy } => {
+                // From here on, so no notification is missed when there turns out to be no work.
+                let notified = self.notify_on_insert.clone().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
                     .fetch_and_reserve_chunks(strategy.clone(), max)
@@ -227,15 +229,14 @@ impl ConsumerConn {
                     }
                     Ok(vals) if !vals.is_empty() => Some(ChunksReserved(Ok(vals))),
                     Ok(_) => {
-                        // No work to do right now. Retry when new work is inserted.
+                        // No work to do right now. Retry when new work is available.
                         tracing::debug!(
                             "No work to do for {} / {max} / {strategy:?}, retrying later",
                             msg.nonce
                         );
-                        let notifier = self.notify_on_insert.clone();
                         let tx2 = self.tx2.clone();
                         tokio::spawn(async move {
-                            notifier.notified().await;
+                            notified.await;
                             let _ = tx2.send(RetryReservation {
                                 nonce: msg.nonce,
                                 max,
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index ba20fc7..3fc36f5 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -76,7 +76,7 @@ impl ServerState {
         reservation_expiration: Duration,
         config: &'static Config,
     ) -> Self {
-        let dispatcher = Dispatcher::new(reservation_expiration);
+        let dispatcher = Dispatcher::with_notify(reservation_expiration, notify_on_insert.clone());
         let (completer, completer_tx) =
             Completer::new(pool.writer_pool(), &dispatcher, config.max_chunk_retries);
         Self {
@@ -242,7 +242,7 @@ impl Completer {
 
                     if let Some(started_at) = self
                         .dispatcher
-                        .finish_owned_reservation(id, &owner, true)
+                        .finish_owned_reservation(id, &owner, db_res.is_ok())
                         .await
                     {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
-- 
2.43.0


From 2e5f22a68fe5a8c13032851821b49710b86299a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 11/16] fix: look up prefixes that contain characters with a
 meaning in URLs

The producer client pasted the prefix into the path of the request as it
was, so that '/', '?', '#' or '%' in a prefix made the lookup fail or look
for something else.
---
 opsqueue/src/producer/client.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/opsqueue/src/producer/client.rs b/opsqueue/src/producer/client.rs
index 4f1dc92..75e17d2 100644
--- a/opsqueue/src/producer/client.rs
+++ b/opsqueue/src/producer/client.rs
@@ -26,6 +26,23 @@ fn retry_policy() -> impl BackoffBuilder {
         .with_max_times(100)
 }
 
+/// Percent-encode everything which could be mistaken for URL syntax,
+/// so that the server receives `segment` as is, as a single segment of the path.
+fn percent_encode_path_segment(segment: &str) -> String {
+    use std::fmt::Write;
+
+    let mut encoded = String::with_capacity(segment.len());
+    for byte in segment.bytes() {
+        match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(byte));
+            }
+            _ => write!(encoded, "%{byte:02X}").expect("Writing to a String cannot fail"),
+        }
+    }
+    encoded
+}
+
 /// A producer's interface to the server.
 ///
 /// This client sends HTTP requests to the opsqueue server, and retries on errors where
@@ -248,6 +265,7 @@ impl Client {
         &self,
         prefix: &str,
     ) -> Result<Option<SubmissionId>, InternalProducerClientError> {
+        let prefix = percent_encode_path_segment(prefix);
         (|| async {
             let base_url = &self.base_url;
             let resp = self
-- 
2.43.0


From 34c091e63e9fc748cc7f2870efa9be3d6e832f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 12/16] fix: do not report a chunk as completed when that could
 not be stored

complete_chunk dropped the error of its transaction: the reservation was
released as if the chunk had been completed, without a trace.
---
 opsqueue/src/common/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index 6a25619..29f5c49 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -314,7 +314,7 @@ pub mod db {
         output_content: Option<Vec<u8>>,
         mut conn: impl WriterConnection,
     ) -> Result<(), E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> {
-        let _chunk_size: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
+        let chunk_size: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
             conn.transaction(move |mut tx| {
                 Box::pin(async move {
                     let completed_work =
@@ -332,6 +332,7 @@ pub mod db {
                 })
             })
             .await;
+        chunk_size?;
 
         counter!(crate::prometheus::CHUNKS_COMPLETED_COUNTER).increment(1);
         Ok(())
-- 
2.43.0


From 1dbd44532232e47d8a14798d81208411a5c10688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 13/16] fix: keep a working connection of the consumer client

Callers that found no connection each opened one of their own, a caller
whose connection broke discarded whatever connection had replaced it, and
so did a caller whose request the server merely refused. Each time the
server took the chunks reserved over the dropped connection back.
---
 opsqueue/src/consumer/client.rs | 83 +++++++++++++++------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 94abc81..e4a96e6 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -51,13 +51,13 @@ type WebsocketTcpStream = WebSocketStream<MaybeTlsStream<TcpStream>>;
 /// - Is reset on low-level failures
 /// - And therefore, that it is resilient to temporary network failures
 #[derive(Debug)]
-pub struct OuterClient(ArcSwapOption<Client>, Box<str>);
+pub struct OuterClient(ArcSwapOption<Client>, Box<str>, Mutex<()>);
 
 impl OuterClient {
     /// Construct a lazy, reconnecting consumer client.
     #[must_use]
     pub fn new(url: &str) -> Self {
-        Self(None.into(), url.into())
+        Self(None.into(), url.into(), Mutex::new(()))
     }
 
     pub fn address(&self) -> &str {
@@ -66,10 +66,6 @@ impl OuterClient {
 
     /// Reserve up to `max` chunks from the server.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if input usage is invalid, or if websocket/serialization
@@ -80,26 +76,18 @@ impl OuterClient {
         strategy: Strategy,
     ) -> Result<Vec<(Chunk, Submission)>, E<InternalConsumerClientError, IncorrectUsage<LimitIsZero>>>
     {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .reserve_chunks(max, strategy)
-            .await;
-        if res.is_err() {
-            self.0.store(None);
+        let client = self.ensure_initialized().await;
+        let res = client.reserve_chunks(max, strategy).await;
+        // NOTE: Incorrect usage says nothing about the connection.
+        // Dropping it would make the server release all chunks we have currently reserved.
+        if matches!(res, Err(E::L(_))) {
+            self.discard(&client);
         }
         res
     }
 
     /// Mark a chunk as completed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -108,26 +96,16 @@ impl OuterClient {
         id: ChunkId,
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .complete_chunk(id, output_content)
-            .await;
+        let client = self.ensure_initialized().await;
+        let res = client.complete_chunk(id, output_content).await;
         if res.is_err() {
-            self.0.store(None);
+            self.discard(&client);
         }
         res
     }
 
     /// Mark a chunk as failed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -136,25 +114,38 @@ impl OuterClient {
         id: ChunkId,
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .fail_chunk(id, failure)
-            .await;
+        let client = self.ensure_initialized().await;
+        let res = client.fail_chunk(id, failure).await;
         if res.is_err() {
-            self.0.store(None);
+            self.discard(&client);
         }
         res
     }
 
-    async fn ensure_initialized(&self) {
-        if !self.is_healthy() {
-            let client = self.initialize().await;
-            self.0.store(Some(Arc::new(client)));
+    /// Returns the current client, connecting first if there is none (or if it is broken).
+    ///
+    /// Concurrent callers wait for, and then share, a single connection:
+    /// Replacing a connection someone else is using would make the server release the chunks reserved over it.
+    async fn ensure_initialized(&self) -> Arc<Client> {
+        if let Some(client) = self.healthy_client() {
+            return client;
+        }
+        let _guard = self.2.lock().await;
+        if let Some(client) = self.healthy_client() {
+            return client;
         }
+        let client = Arc::new(self.initialize().await);
+        self.0.store(Some(client.clone()));
+        client
+    }
+
+    fn healthy_client(&self) -> Option<Arc<Client>> {
+        self.0.load_full().filter(|client| client.is_healthy())
+    }
+
+    /// Makes the next call connect again, unless that has happened already.
+    fn discard(&self, client: &Arc<Client>) {
+        self.0.compare_and_swap(client, None);
     }
 
     async fn initialize(&self) -> Client {
-- 
2.43.0


From 2db14601d05ea1742ffdd7576195bae12abd0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 14/16] fix: end the calls over a connection of the consumer
 client that has ended

A call that registered its request just when the background task ended
waited for an answer for ever.
---
 opsqueue/src/consumer/client.rs | 61 +++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index e4a96e6..eda7b82 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -4,7 +4,7 @@ use std::{
     str::FromStr,
     sync::{
         Arc,
-        atomic::{AtomicBool, AtomicUsize, Ordering},
+        atomic::{AtomicUsize, Ordering},
     },
     time::Duration,
 };
@@ -240,7 +240,9 @@ impl InFlightRequests {
 pub struct Client {
     in_flight_requests: InFlightRequests,
     ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
-    healthy: Arc<AtomicBool>,
+    /// Cancelled when the background task has ended, for whatever reason.
+    /// From then on nobody reads what the server sends, so the connection is of no use anymore.
+    closed: CancellationToken,
     _bg_handle: DropGuard,
 }
 
@@ -291,10 +293,10 @@ impl Client {
             );
         }
 
-        let healthy = Arc::new(AtomicBool::new(true));
+        let closed = CancellationToken::new();
         tokio::spawn(Self::background_task(
             cancellation_token.clone(),
-            healthy.clone(),
+            closed.clone().drop_guard(),
             in_flight_requests.clone(),
             ws_stream,
             ws_sink.clone(),
@@ -304,7 +306,7 @@ impl Client {
         let me = Self {
             in_flight_requests,
             _bg_handle: cancellation_token.drop_guard(),
-            healthy,
+            closed,
             ws_sink,
         };
         Ok(me)
@@ -312,12 +314,12 @@ impl Client {
 
     #[must_use]
     pub fn is_healthy(&self) -> bool {
-        self.healthy.load(std::sync::atomic::Ordering::Relaxed)
+        !self.closed.is_cancelled()
     }
 
     async fn background_task(
         cancellation_token: CancellationToken,
-        healthy: Arc<AtomicBool>,
+        closed: DropGuard,
         in_flight_requests: InFlightRequests,
         mut ws_stream: impl Stream<Item = tungstenite::Result<tungstenite::Message>> + Unpin,
         ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
@@ -332,11 +334,11 @@ impl Client {
                 _ = heartbeat_interval.tick() => {
                     if heartbeats_missed > config.max_missable_heartbeats {
                         tracing::warn!("We missed too many heartbeats! Closing connection and marking client as unhealthy.");
-                        // Mark ourselves as unhealthy:
-                        healthy.store(false, std::sync::atomic::Ordering::Relaxed);
+                        // Mark ourselves as unhealthy, which means all remaining in-flight requests immediately fail as well:
+                        drop(closed);
                         // For good measure, let's close the WebSocket connection early:
                         let _ = ws_sink.lock().await.close().await;
-                        // And now exit the background task, which means all remaining in-flight requests immediately fail as well
+                        // And now exit the background task
                         break
                     }
                     // NOTE: We don't need to send a heartbeat as client; only the server needs to.
@@ -438,9 +440,15 @@ impl Client {
             nonce,
             contents: request,
         };
-        let () = self.ws_sink.lock().await.send(envelope.into()).await?;
-        let resp = oneshot_receiver.await?;
-        Ok(resp)
+        let exchange = async {
+            let () = self.ws_sink.lock().await.send(envelope.into()).await?;
+            Ok(oneshot_receiver.await?)
+        };
+        select! {
+            biased;
+            res = exchange => res,
+            () = self.closed.cancelled() => Err(InternalConsumerClientError::ConnectionLost),
+        }
     }
 
     async fn async_request(
@@ -457,6 +465,17 @@ impl Client {
         Ok(())
     }
 
+    async fn report(
+        &self,
+        request: ClientToServerMessage,
+    ) -> Result<(), InternalConsumerClientError> {
+        select! {
+            biased;
+            res = Self::async_request(&self.in_flight_requests, &self.ws_sink, request) => res,
+            () = self.closed.cancelled() => Err(InternalConsumerClientError::ConnectionLost),
+        }
+    }
+
     /// Request chunks to reserve.
     ///
     /// # Errors
@@ -486,12 +505,7 @@ impl Client {
         id: ChunkId,
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
-        Self::async_request(
-            &self.in_flight_requests,
-            &self.ws_sink,
-            ClientToServerMessage::CompleteChunk { id, output_content },
-        )
-        .await
+        self.report(ClientToServerMessage::CompleteChunk { id, output_content }).await
     }
 
     /// Report chunk failure to the server.
@@ -504,12 +518,7 @@ impl Client {
         id: ChunkId,
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
-        Self::async_request(
-            &self.in_flight_requests,
-            &self.ws_sink,
-            ClientToServerMessage::FailChunk { id, failure },
-        )
-        .await
+        self.report(ClientToServerMessage::FailChunk { id, failure }).await
     }
 }
 
@@ -521,6 +530,8 @@ pub enum InternalConsumerClientError {
         "The oneshot channel to receive a sync response to an earlier request was dropped before a response was received"
     )]
     OneshotSenderDropped(#[from] RecvError),
+    #[error("The connection was lost before the request could be handled")]
+    ConnectionLost,
     #[error("Expected the sync response of kind {expected} but received {actual:?}")]
     UnexpectedSyncResponse {
         actual: SyncServerToClientResponse,
-- 
2.43.0


From ae5f8f184c6d28d8ba30423684df3473b7f41881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:20 +0000
Subject: [PATCH 15/16] fix: send heartbeats to busy consumers as well

The server put the next heartbeat off whenever it received a message. A
consumer that only reports (or pings) often enough then never heard from the
server, took it for dead and disconnected.
---
 opsqueue/src/config.rs               | 13 +++++--------
 opsqueue/src/consumer/server/conn.rs |  4 ++--
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/opsqueue/src/config.rs b/opsqueue/src/config.rs
index 26249cf..793c9b6 100644
--- a/opsqueue/src/config.rs
+++ b/opsqueue/src/config.rs
@@ -73,14 +73,11 @@ pub struct Config {
     #[arg(long, default_value_t = NonZero::new(256).unwrap())]
     pub max_read_pool_size: NonZero<u32>,
 
-    /// Maximum duration between
-    /// messages on the opsqueue<->consumer persistent connection
-    /// before a special heartbeat message is sent.
-    ///
-    /// Note that special heartbeat messages are only sent if
-    /// there was no other message sent/received within the given interval;
-    /// any message sent/received on the connection will reset the interval
-    /// as well as the '`missed_heartbeats`' counter.
+    /// Duration between the special heartbeat messages
+    /// that are sent on each opsqueue<->consumer persistent connection.
+    ///
+    /// Note that any message received on the connection
+    /// will reset the '`missed_heartbeats`' counter of whoever receives it.
     ///
     /// It is recommended to keep this value in the seconds range.
     #[arg(long, default_value = "10 seconds")]
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index dbcc553..b88b62e 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -181,8 +181,8 @@ impl ConsumerConn {
 
     #[tracing::instrument(fields(conn = %self.id), skip(self, msg))]
     async fn handle_incoming_msg(&mut self, msg: Message) -> Result<(), ConsumerConnError> {
-        // Any message means the other side is still alive:
-        self.heartbeat_interval.reset();
+        // Any message means the other side is still alive.
+        // (But it does not tell the other side that _we_ are; so the next heartbeat is sent regardless.)
         self.heartbeats_missed = 0;
 
         match msg {
-- 
2.43.0


From 63a5fa6352446eedc0772c71c2e6c54182773057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:20 +0000
Subject: [PATCH 16/16] fix: do not take a live peer for dead because we were
 held up ourselves

After having been held up (a large message, a busy machine) the heartbeats
that were due in the meantime were counted as missed all at once, even when
the messages of the other side were only waiting to be read.
---
 opsqueue/src/consumer/client.rs      | 35 ++++++++++++---------
 opsqueue/src/consumer/server/conn.rs | 47 +++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index eda7b82..32a8c2e 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -17,6 +17,7 @@ use tokio::{
     select,
     sync::{Mutex, oneshot},
     task::yield_now,
+    time::MissedTickBehavior,
 };
 use tokio_tungstenite::{
     MaybeTlsStream, WebSocketStream,
@@ -326,25 +327,15 @@ impl Client {
         config: ConsumerConfig,
     ) {
         let mut heartbeat_interval = tokio::time::interval(config.heartbeat_interval);
+        // When we were held up ourselves, the heartbeats of that time may still have to be read.
+        heartbeat_interval.set_missed_tick_behavior(MissedTickBehavior::Delay);
         let mut heartbeats_missed = 0;
         loop {
             yield_now().await;
             select! {
+                // If we were held up, first read the signs of life which came in during that time.
+                biased;
                 () = cancellation_token.cancelled() => break,
-                _ = heartbeat_interval.tick() => {
-                    if heartbeats_missed > config.max_missable_heartbeats {
-                        tracing::warn!("We missed too many heartbeats! Closing connection and marking client as unhealthy.");
-                        // Mark ourselves as unhealthy, which means all remaining in-flight requests immediately fail as well:
-                        drop(closed);
-                        // For good measure, let's close the WebSocket connection early:
-                        let _ = ws_sink.lock().await.close().await;
-                        // And now exit the background task
-                        break
-                    }
-                    // NOTE: We don't need to send a heartbeat as client; only the server needs to.
-                    // We only need to track missed heartbeats.
-                    heartbeats_missed += 1;
-                },
                 msg = ws_stream.next() => {
                     heartbeat_interval.reset();
                     heartbeats_missed = 0;
@@ -423,7 +414,21 @@ impl Client {
                             }
                         },
                     }
-                }
+                },
+                _ = heartbeat_interval.tick() => {
+                    if heartbeats_missed > config.max_missable_heartbeats {
+                        tracing::warn!("We missed too many heartbeats! Closing connection and marking client as unhealthy.");
+                        // Mark ourselves as unhealthy, which means all remaining in-flight requests immediately fail as well:
+                        drop(closed);
+                        // For good measure, let's close the WebSocket connection early:
+                        let _ = ws_sink.lock().await.close().await;
+                        // And now exit the background task
+                        break
+                    }
+                    // NOTE: We don't need to send a heartbeat as client; only the server needs to.
+                    // We only need to track missed heartbeats.
+                    heartbeats_missed += 1;
+                },
             }
         }
         // Clear any and all in-flight requests on exit of the background task.
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index b88b62e..c5cc733 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -1,5 +1,6 @@
 use crate::tracing::as_dyn_error;
 use std::{
+    ops::ControlFlow,
     sync::{
         Arc,
         atomic::{AtomicUsize, Ordering},
@@ -8,13 +9,14 @@ use std::{
 };
 
 use axum::extract::ws::{Message, WebSocket};
-use futures::SinkExt;
+use futures::{FutureExt, SinkExt};
 use tokio::{
     select,
     sync::{
         Notify,
         mpsc::{UnboundedReceiver, UnboundedSender},
     },
+    time::MissedTickBehavior,
 };
 use tokio_util::sync::CancellationToken;
 
@@ -60,8 +62,10 @@ pub struct ConsumerConn {
 
 impl ConsumerConn {
     pub fn new(server_state: &Arc<ServerState>, ws_stream: WebSocket) -> Self {
-        let heartbeat_interval =
+        let mut heartbeat_interval =
             tokio::time::interval(server_state.config.heartbeat_interval.into());
+        // When we were held up ourselves, the other side still gets a full interval to reply to each heartbeat.
+        heartbeat_interval.set_missed_tick_behavior(MissedTickBehavior::Delay);
         let heartbeats_missed = 0;
         let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
         let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel();
@@ -110,17 +114,20 @@ impl ConsumerConn {
                     Ok(())
                 },
                 // When the heartbeat interval elapsed, send the next one
-                _ = self.heartbeat_interval.tick() => self.beat_heart().await?,
+                _ = self.heartbeat_interval.tick() => {
+                    // If we were held up ourselves, a sign of life might just not have been read yet.
+                    if self.heartbeats_missed > self.max_missable_heartbeats
+                        && let Some(msg) = tokio::task::unconstrained(self.ws_stream.recv()).now_or_never()
+                        && self.handle_received(msg).await?.is_break()
+                    {
+                        return Ok(());
+                    }
+                    self.beat_heart().await?;
+                },
                 // When a normal message is received, handle it
                 msg = self.ws_stream.recv() => {
-                    match msg {
-                        // Socket received a close message (graceful WS shutdown)
-                        // Socket closed (stream closed before receiving WS 'close' message, ungraceful shutdown)
-                        None | Some(Ok(Message::Close(_))) => return Ok(()),
-                        // Socket had a problem (protocol violation, sending too much data, closed, etc.)
-                        Some(Err(err)) => return Err(ConsumerConnError::LowLevelWebsocketError(err)),
-                        // Socket received a normal message
-                        Some(Ok(msg)) => self.handle_incoming_msg(msg).await?,
+                    if self.handle_received(msg).await?.is_break() {
+                        return Ok(());
                     }
                 },
                 // When we are notified that we can retry an earlier failing reservation:
@@ -179,6 +186,24 @@ impl ConsumerConn {
         }
     }
 
+    async fn handle_received(
+        &mut self,
+        msg: Option<Result<Message, axum::Error>>,
+    ) -> Result<ControlFlow<()>, ConsumerConnError> {
+        match msg {
+            // Socket received a close message (graceful WS shutdown)
+            // Socket closed (stream closed before receiving WS 'close' message, ungraceful shutdown)
+            None | Some(Ok(Message::Close(_))) => Ok(ControlFlow::Break(())),
+            // Socket had a problem (protocol violation, sending too much data, closed, etc.)
+            Some(Err(err)) => Err(ConsumerConnError::LowLevelWebsocketError(err)),
+            // Socket received a normal message
+            Some(Ok(msg)) => {
+                self.handle_incoming_msg(msg).await?;
+                Ok(ControlFlow::Continue(()))
+            }
+        }
+    }
+
     #[tracing::instrument(fields(conn = %self.id), skip(self, msg))]
     async fn handle_incoming_msg(&mut self, msg: Message) -> Result<(), ConsumerConnError> {
         // Any message means the other side is still alive.
-- 
2.43.0

