From 4d3a8b6e6d8da4051d14e36acb0f1b63a2742ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 01/14] fix: report a poisoned job store when claiming instead
 of panicking

---
 rexecutor/src/backend/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..023db25 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -160,7 +160,7 @@ impl InMemoryBackend {
         &self,
         as_str: &str,
     ) -> Result<Option<Job>, BackendError> {
-        let mut jobs = self.jobs.write().unwrap();
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
         let mut jobs = jobs
             .iter_mut()
             .filter(|job| {
-- 
2.43.0


From 0222b0871789228ad0526661b03fc4fd29d17ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 02/14] fix: make unique enqueue in the in memory backend
 atomic

---
 rexecutor/src/backend/memory.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 023db25..b825dc2 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -226,17 +226,25 @@ impl InMemoryBackend {
         Ok(id.into())
     }
 
-    async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
+    fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        // The lookup and the insert (or replace) have to happen under the same lock, otherwise
+        // concurrent calls can both conclude that there is no matching job.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        match jobs.iter_mut().find(|existing| job.matches(existing)) {
+            None => {
+                let executor = job.executor.clone();
+                let scheduled_at = job.scheduled_at;
+                let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
+                jobs.push(job.into_job(id));
+                self.notify_subscribers(executor.as_str(), scheduled_at)?;
+                Ok(id.into())
+            }
+            Some(existing) => {
+                existing.replace(job);
+                self.notify_subscribers(existing.executor.as_str(), existing.scheduled_at)?;
+                Ok(existing.id.into())
+            }
         }
     }
 }
@@ -383,7 +391,7 @@ impl Backend for InMemoryBackend {
     async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
         match job.uniqueness_criteria {
             None => self.insert_new_job(job),
-            Some(_) => self.insert_unique_job(job).await,
+            Some(_) => self.insert_unique_job(job),
         }
     }
     async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
-- 
2.43.0


From 8ffcbf1cd31b264dacc6513fc9578fcb84142ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 03/14] fix: update_job in the in memory backend only edits the
 user editable fields

---
 rexecutor/src/backend/memory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index b825dc2..dfff9be 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -506,7 +506,12 @@ impl Backend for InMemoryBackend {
         match jobs.iter_mut().find(|j| j.id == job.id) {
             None => Err(BackendError::JobNotFound(job.id.into())),
             Some(j) => {
-                j.job = job;
+                j.data = job.data;
+                j.metadata = job.metadata;
+                j.max_attempts = job.max_attempts;
+                j.scheduled_at = job.scheduled_at;
+                j.priority = job.priority;
+                j.tags = job.tags;
                 self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                 Ok(())
             }
-- 
2.43.0


From 87b0f838c475b54cadb45e77a27151e6ecf58ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:41 +0000
Subject: [PATCH 04/14] fix: prune by age in the in memory backend only prunes
 beyond the limit on the documented side

---
 rexecutor/src/backend/memory.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index dfff9be..5e22d1c 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -466,14 +466,21 @@ impl Backend for InMemoryBackend {
     async fn prune_jobs(&self, prune_spec: &PruneSpec) -> Result<(), BackendError> {
         let now = Utc::now();
         let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // Finished jobs are pruned looking back from now, unfinished ones looking forward.
+        let in_past = match prune_spec.status {
+            JobStatus::Scheduled | JobStatus::Retryable | JobStatus::Executing => false,
+            JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded => true,
+        };
         match prune_spec.prune_by {
             PruneBy::MaxAge(delta) => {
-                let min_scheduled_at = now - delta;
-                let max_scheduled_at = now + delta;
+                let (min_scheduled_at, max_scheduled_at) = (now - delta, now + delta);
                 jobs.retain(|job| {
                     !prune_spec.matches(job)
-                        || (job.scheduled_at < max_scheduled_at
-                            && job.scheduled_at > min_scheduled_at)
+                        || if in_past {
+                            job.scheduled_at >= min_scheduled_at
+                        } else {
+                            job.scheduled_at <= max_scheduled_at
+                        }
                 });
             }
             PruneBy::MaxLength(length) => {
-- 
2.43.0


From 587612fc2894c2597ae567bd5da35a673e2cd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:41 +0000
Subject: [PATCH 05/14] fix: prune by length in the in memory backend keeps the
 most relevant jobs

---
 rexecutor/src/backend/memory.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 5e22d1c..3882d5a 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -484,15 +484,21 @@ impl Backend for InMemoryBackend {
                 });
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
-                    }
-                });
+                let mut matching: Vec<_> = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect();
+                matching.sort();
+                if in_past {
+                    matching.reverse();
+                }
+                let pruned: Vec<_> = matching
+                    .into_iter()
+                    .skip(length as usize)
+                    .map(|(_, id)| id)
+                    .collect();
+                jobs.retain(|job| !pruned.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From e90b28b47423449f97b567be64a920b775260d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:54 +0000
Subject: [PATCH 06/14] fix: an attempt beyond the maximum is also a final
 attempt

---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From c5bd8d60d9b26eb0add46811b462570c6a55fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 07/14] fix: saturate instead of panicking when a backoff
 overflows

---
 rexecutor/src/backoff.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..007cc73 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -41,6 +41,26 @@ pub trait Strategy {
     fn backoff(&self, attempt: u16) -> TimeDelta;
 }
 
+fn saturated(negative: bool) -> TimeDelta {
+    if negative {
+        TimeDelta::MIN
+    } else {
+        TimeDelta::MAX
+    }
+}
+
+fn saturating_mul(delta: TimeDelta, factor: i32) -> TimeDelta {
+    delta
+        .checked_mul(factor)
+        .unwrap_or(saturated((delta < TimeDelta::zero()) != (factor < 0)))
+}
+
+fn saturating_add(delta: TimeDelta, other: TimeDelta) -> TimeDelta {
+    delta
+        .checked_add(&other)
+        .unwrap_or(saturated(other < TimeDelta::zero()))
+}
+
 /// Constant backoff strategy.
 ///
 /// Always returns the same value no matter what the attempt is.
@@ -110,7 +130,7 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(saturated(seconds < 0))
     }
 }
 
@@ -143,7 +163,7 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = saturating_mul(self.factor, attempt.into());
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -183,7 +203,7 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff = saturating_mul(self.factor, (attempt as i32).saturating_pow(self.power));
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -205,9 +225,10 @@ impl Jitter {
         let milliseconds = match self {
             Self::Absolute(delta) => delta.num_milliseconds(),
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
-        };
+        }
+        .saturating_abs();
         let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        saturating_add(value, TimeDelta::milliseconds(rand_jitter_seconds))
     }
 }
 
@@ -424,7 +445,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = saturating_add(backoff, additional_offset);
         }
 
         if let Some(jitter) = self.jitter {
-- 
2.43.0


From a7ca8ae73f62eef472dbb6aca0cc4120d97c492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 08/14] fix: an unrepresentable snooze or retry delay does not
 panic the job runner

---
 rexecutor/src/job/runner.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..a5f84ed 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = scheduled_at_after(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = scheduled_at_after(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,17 @@ where
     }
 }
 
+/// The delay is user provided so it could be too large to be represented as a timestamp.
+fn scheduled_at_after(delay: TimeDelta) -> DateTime<Utc> {
+    let now = Utc::now();
+    now.checked_add_signed(delay)
+        .unwrap_or(if delay < TimeDelta::zero() {
+            now
+        } else {
+            DateTime::<Utc>::MAX_UTC
+        })
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From 838b1e53cb38073f6f293641cdbbc31d5ac63de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 09/14] fix: stored counters that do not fit are a decode error
 rather than a panic

---
 rexecutor/src/job.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 1286e2e..19d88e7 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -121,10 +121,16 @@ where
             executor: value.executor,
             data,
             metadata,
-            attempt: value.attempt.try_into().unwrap(),
+            attempt: value.attempt.try_into().map_err(serde::de::Error::custom)?,
             attempted_at: value.attempted_at,
-            max_attempts: value.max_attempts.try_into().unwrap(),
-            priority: value.priority.try_into().unwrap(),
+            max_attempts: value
+                .max_attempts
+                .try_into()
+                .map_err(serde::de::Error::custom)?,
+            priority: value
+                .priority
+                .try_into()
+                .map_err(serde::de::Error::custom)?,
             tags: value.tags,
             errors: value.errors,
             inserted_at: value.inserted_at,
-- 
2.43.0


From 27c113141b1ba939cd395e2692c64f0f65d92fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 10/14] fix: the pruner respects its maximum concurrency

---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..d864402 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::{StreamExt, stream};
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From 10a0bf2b4acb53e2aa8c4ad4e767a7fa58326c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 11/14] fix: keep the nesting of boolean queries when
 translating them to SQL

---
 rexecutor-sqlx/src/query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..65d9daa 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -89,25 +89,34 @@ impl ToQuery for Query<'_> {
 fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'_>) {
     match query {
         Query::Not(inner) => {
-            builder.push(" NOT");
+            builder.push(" NOT (");
             handle_query(builder, inner);
+            builder.push(")");
         }
         Query::And(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" AND");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" TRUE");
             }
         }
         Query::Or(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" OR");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" FALSE");
             }
         }
         Query::DataEquals(data) => {
-- 
2.43.0


From 1e4b87d1ff4dcc4da25b761b61bb3889b21786a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 12/14] fix: id in query matches any of the given ids

---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 65d9daa..6c7d73a 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -140,7 +140,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From 463c6d275a771be01bfb1a91e179a0a8e6c1191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 13/14] fix: store the uniqueness key that is later queried for

---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From 437e797db1e5cc5fd298835ad6a3731797e6de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 14/14] fix: criteria without a key match jobs with and without
 a key

---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..a9f46d8 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0

