From 91dd5e163d4b3ec4f9170cebb3e91866763a4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 01/21] fix: run the after_run hook (not before_run) once a job
 has been executed

---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From ebfd8e4d3cc69bff117e422634af0b61a164138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 02/21] fix: return the existing work queue when concurrent
 first submissions ask for it

---
 aj_core/src/aj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..ccdb824 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,7 +278,8 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
-        self.register(&msg.queue_name)
+        // Concurrent first submissions all ask for the queue: only the first one creates it.
+        get_work_queue_address().unwrap_or_else(|| self.register(&msg.queue_name))
     }
 }
 
-- 
2.43.0


From 9762d425ac16536a3452403f58068d694b5ae705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 03/21] fix: conclude a cron job when it has no further run
 instead of leaving it queued

---
 aj_core/src/job/mod.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..86a870f 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -187,27 +187,28 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                // No more event in the schedule, the job is over.
+                let upcoming_event = schedule.after(&now).next()?;
+                let next_repeat = *total_repeat + 1;
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat < next_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
 
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    next_repeat,
+                    context.clone(),
+                );
                 Some(job)
             }
             _ => None,
-- 
2.43.0


From e11d1eaa13c567d8a1a6c2cd0d5749d751e2884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 04/21] fix: keep the recurrence of a cron job when it is
 retried

---
 aj_core/src/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..6001196 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -340,7 +340,11 @@ where
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                 info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
+                match &mut job.context.job_type {
+                    // Keep the recurrence of a cron job, only its next run is the retry.
+                    JobType::Cron(_, next_slot, _, _) => *next_slot = next_retry_ms,
+                    job_type => *job_type = JobType::ScheduledAt(next_retry_ms),
+                }
                 return self.re_enqueue(job);
             }
         }
-- 
2.43.0


From 28de3cd2e15041608aa04b59d78eec0d555e6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 05/21] fix: keep the status of the stored job when its data is
 overridden

---
 aj_core/src/queue.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 6001196..5615c44 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -112,16 +112,17 @@ where
         })
     }
 
-    pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
-        let key = job.id();
-        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
+    pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;
         if let Some(existing_job) = existing_job {
+            // The submitted data replaces the stored one, the progress of the job doesn't change.
+            job.context.job_status = existing_job.context.job_status;
             if config.override_data && !existing_job.is_running() {
                 info!(
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
+                upsert_to_storage(self.backend.deref(), job.id(), &job)?;
             } else {
                 info!(
                     "[WorkQueue] Job is running, skip update job data: {}",
-- 
2.43.0


From 1104a5936ddd6ca5b1e0ce0d2f3a96f7d02ad100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 06/21] fix: take a job which is re-run out of its done queue

---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5615c44..7a37aeb 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -132,7 +132,7 @@ where
 
             if config.re_run && existing_job.is_done() {
                 info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
+                self.re_enqueue(job)?;
             }
 
             return Ok(());
-- 
2.43.0


From a91e3183b5b3d32703671c7d7e7a29a32a923f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 07/21] fix: re-run the stored job when the submitted data must
 not override it

---
 aj_core/src/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 7a37aeb..5c26989 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -132,7 +132,11 @@ where
 
             if config.re_run && existing_job.is_done() {
                 info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.re_enqueue(job)?;
+                self.re_enqueue(if config.override_data {
+                    job
+                } else {
+                    existing_job
+                })?;
             }
 
             return Ok(());
-- 
2.43.0


From 778b0938a98a275a06696ea58da4fbf2088ddffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 08/21] fix: report a job which cannot be serialized instead of
 storing an empty record

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..f8f14ce 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..7ce1c3d 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    Serialize(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -26,3 +27,9 @@ impl From<MailboxError> for Error {
         Self::MailboxError(value)
     }
 }
+
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::Serialize(value)
+    }
+}
-- 
2.43.0


From 99ea68965c4712330010aa83c6e5ad23d55292f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 09/21] fix: report a failed storage read instead of treating
 the job as missing

---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index f8f14ce..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From 417c669aa27c1b4eaa1c27e2d05150d5a50780bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 10/21] fix: report a job which cannot be put back in the queue

---
 aj_core/src/queue.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5c26989..41a344d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -161,10 +161,7 @@ where
         job.enqueue(self.backend.deref())?;
 
         let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
-            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
-        };
-        Ok(())
+        self.backend.queue_push(&queued_queue, job.id())
     }
 
     pub fn mark_job_is_canceled(&self, job_id: &str) {
-- 
2.43.0


From 52c7364d2f996d8310debe17ec76655aff5db07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 11/21] fix: start no job when the number of running jobs is
 unknown

---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 41a344d..d77ba07 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -243,7 +243,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From ebbfcc5c29b68708aa918a16d887f67457148a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 12/21] fix: stop scanning a queue which became empty

---
 aj_core/src/queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index d77ba07..dbe9afe 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -265,6 +265,11 @@ where
                 .backend
                 .queue_get(&idle_queue_name, 20, QueueDirection::Back)?;
 
+            // The queue shrank since it was counted (other consumer), nothing left to scan
+            if job_ids.is_empty() {
+                break;
+            }
+
             // Update current cursor
             current_cursor -= job_ids.len() as i32;
 
-- 
2.43.0


From 8a2eb9299fb3296706686bcef46a95092f1491b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 13/21] fix: run the jobs which are already claimed when a
 later backend call fails

---
 aj_core/src/queue.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index dbe9afe..7b889cf 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -253,11 +253,23 @@ where
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
         debug!("Try Picking {total} jobs in queue");
+        let mut ready_jobs = vec![];
+        match self.pick_ready_jobs(total, &mut ready_jobs) {
+            // Jobs which are already claimed must run
+            Err(err) if !ready_jobs.is_empty() => {
+                error!("[WorkQueue]: Stop picking jobs {err:?}");
+            }
+            result => result?,
+        }
+
+        Ok(ready_jobs)
+    }
+
+    fn pick_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -284,7 +296,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -292,6 +303,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -315,7 +327,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From 6db1cde44ee6187f0fd140a8adb5318469a0da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 14/21] fix: saturate the exponential backoff instead of
 overflowing

---
 aj_core/src/job/retry.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..66b8290 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -60,7 +60,14 @@ impl Retry {
         match &self.strategy {
             RetryStrategy::Interval(internal_time) => final_now + *internal_time,
             RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
+                // The backoff saturates instead of overflowing
+                let factor = 2_i32
+                    .checked_pow(self.retried_times as u32)
+                    .unwrap_or(i32::MAX);
+                initial_backoff
+                    .checked_mul(factor)
+                    .and_then(|backoff| final_now.checked_add_signed(backoff))
+                    .unwrap_or(DateTime::<Utc>::MAX_UTC)
             }
         }
     }
-- 
2.43.0


From 22fe6994671ea6259773fec936b5f29277ea5dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 15/21] fix: start a single engine when AJ is started
 concurrently

---
 aj_core/src/aj.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index ccdb824..0b32eac 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,11 +47,7 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
-    }
+    AJ_ADDR.read().ok().and_then(|addr| addr.clone())
 }
 
 pub struct AJ {
@@ -65,42 +61,39 @@ impl Actor for AJ {
 impl AJ {
     // Will use memory as Backend for AJ
     pub fn start(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
-        if let Some(aj_addr) = get_aj_address() {
+        // The address is locked until the engine is registered: concurrent starts get the same one
+        let mut aj_addr = AJ_ADDR.write().expect("AJ address is poisoned");
+        if let Some(aj_addr) = aj_addr.as_ref() {
             warn!("AJ is running. Return current AJ");
-            return aj_addr;
+            return aj_addr.clone();
         }
 
-        match System::try_current() {
+        let addr = match System::try_current() {
             Some(_) => {
                 info!("Found Actix Runtime, re-use it!");
-                Self::register_addr(backend);
+                Self::start_actor(backend)
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
                 std::thread::spawn(|| {
                     // Start the Actix runtime within this new thread
                     let _ = System::new();
-                    Self::register_addr(backend);
+                    Self::start_actor(backend)
                 })
                 .join()
-                .expect("Failed to start thread");
+                .expect("Failed to start thread")
             }
-        }
+        };
+        *aj_addr = Some(addr.clone());
 
-        get_aj_address().expect("AJ address must be registered!")
+        addr
     }
 
-    fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+    fn start_actor(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
         let arbiter: Arbiter = Arbiter::new();
-        let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
+        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
-        });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
-
-        addr
+        })
     }
 
     pub fn quick_start() -> Addr<Self> {
-- 
2.43.0


From 3659e52e3cf82bda76d60dbc31abf6da134c2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 16/21] fix: read no item from a redis queue when none is asked
 for

---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..7a2a968 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        // An empty range: LRANGE 0 -1 is the whole list
+        if count == 0 {
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From c01534a1364c972d936461998b154abe22289f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 17/21] fix: update the named job, whatever the id in the given
 context

---
 aj_core/src/aj.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 0b32eac..2737985 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -198,6 +198,7 @@ impl AJ {
             job.data = data;
             if let Some(context) = context {
                 job.context = context;
+                job.context.job_id = job_id.to_string();
             }
             Self::add_job(job, M::queue_name()).await?;
         } else {
-- 
2.43.0


From d76de5e6de1b616f6b68607fae7ad4755448abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 18/21] fix: fail a job which panics instead of stopping its
 queue

---
 aj_core/src/queue.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 7b889cf..b4c59ef 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -334,9 +334,19 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
-                let _ = this.mark_job_is_failed(job);
+            let (queue, running_job) = (this.clone(), job.clone());
+            // A job which panics must not take down the queue: run it in its own task
+            let result = actix_rt::spawn(async move { queue.execute_job(running_job).await }).await;
+            match result {
+                Ok(Ok(())) => {}
+                Ok(Err(err)) => {
+                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
+                Err(err) => {
+                    error!("[WorkQueue] Job {} panics: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
             }
         };
         wrap_future::<_, Self>(task).spawn(ctx);
-- 
2.43.0


From 8ce21fe834bea7766273f82dbd97d2865141f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:50 +0000
Subject: [PATCH 19/21] fix: job macro accepts functions without arguments or
 with a trailing comma

---
 aj_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index ab82a2b..d93f482 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -32,6 +32,8 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
     let fn_name = &input_fn.sig.ident;
     let fn_inputs = &input_fn.sig.inputs;
     let fn_output = &input_fn.sig.output;
+    // Arguments one by one: there can be none, or a trailing comma
+    let fn_args: Vec<_> = fn_inputs.iter().collect();
 
     // Check if the function is async
     let is_async = input_fn.sig.asyncness.is_some();
@@ -159,13 +161,13 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#fn_inputs, context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#fn_args,)* context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().context(context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#fn_inputs, context: aj::JobContext) {
+            pub fn just_run_with_context(#(#fn_args,)* context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().context(context).just_run();
             }
-- 
2.43.0


From e11cb010a311579e93669cf3a1e3bcc24675f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:44 +0000
Subject: [PATCH 20/21] fix: a queue name used by two job types stopped the
 engine

---
 aj_core/src/aj.rs    | 18 ++++++++++++++----
 aj_core/src/error.rs |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 2737985..74ed793 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -145,7 +145,7 @@ impl AJ {
                 _type: PhantomData,
             };
             let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
-            aj_addr.send(message).await?
+            aj_addr.send(message).await??
         };
         enqueue_job(addr, job, config).await
     }
@@ -254,7 +254,7 @@ impl AJ {
 }
 
 #[derive(Message)]
-#[rtype(result = "Addr<WorkQueue<M>>")]
+#[rtype(result = "Result<Addr<WorkQueue<M>>, Error>")]
 pub struct InitWorkQueue<M>
 where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
@@ -269,11 +269,21 @@ where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
     WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
 {
-    type Result = Addr<WorkQueue<M>>;
+    type Result = Result<Addr<WorkQueue<M>>, Error>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
         // Concurrent first submissions all ask for the queue: only the first one creates it.
-        get_work_queue_address().unwrap_or_else(|| self.register(&msg.queue_name))
+        if let Some(addr) = get_work_queue_address() {
+            return Ok(addr);
+        }
+        // Another job type owns a queue with this name: registering would panic and stop AJ.
+        if QUEUE_REGISTRY
+            .registry_by_name
+            .contains_key(&msg.queue_name)
+        {
+            return Err(Error::QueueNameTaken(msg.queue_name));
+        }
+        Ok(self.register(&msg.queue_name))
     }
 }
 
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 7ce1c3d..569ffd8 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    QueueNameTaken(String),
     Serialize(serde_json::Error),
 }
 
-- 
2.43.0


From a2e0f5a1ad00c39d3a77abe72ccc9b39d5afe78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:05 +0000
Subject: [PATCH 21/21] fix: job macro accepts functions with mut arguments

The whole binding (with mut) was pasted into the struct definition and the
constructor, so such functions did not compile.
---
 aj_macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index d93f482..222f379 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -3,7 +3,7 @@ extern crate proc_macro;
 use convert_case::{Case, Casing};
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatType, ReturnType};
+use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatIdent, PatType, ReturnType};
 
 #[proc_macro_derive(BackgroundJob)]
 pub fn background_job_derive(input: TokenStream) -> TokenStream {
@@ -49,7 +49,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! {
                         pub #ident: #ty
                     })
@@ -67,7 +67,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     // TODO: This is a not good way to pass variable from struct to fn logic.
                     // IMHO, the best apporach is transform the original fn code to mapping with struct like destructure, etc to remove clone memory value.
                     Some(quote! { self.#ident.clone() })
@@ -84,7 +84,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! { #ident })
                 } else {
                     None
-- 
2.43.0

