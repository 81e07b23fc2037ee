import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b1 import H, J, Q, JM, R, MEM, A, P, T, JC, bug

BUGS = [
 bug('quick-start-unregistered', 'C18', 'a second start after quick_start', 'quick_start does not register its engine: every further start makes another one',
  [(A, '        Self::start(InMemory::default())', '        match get_aj_address() {\n            Some(addr) => addr,\n            None => Self::start_actor(InMemory::default()),\n        }')],
  '''fn main() {
    sys(async {
        let a = aj::AJ::quick_start();
        let b = aj::AJ::start(Spy::new());
        check(a == b, "two engines run");
    });
}
'''),
 bug('end-compared-with-now', 'C05', 'a recurring job whose end time is before its next occurrence but not yet reached', 'the job waits for an occurrence after its end instead of being concluded',
  [(JM, '                    if end_at < upcoming_event {', '                    if end_at < now {')],
  '''use aj_core::{CronContext, JobType};
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        let end = aj::chrono::Utc::now() + aj::chrono::Duration::hours(1);
        let mut j = job("a", 1);
        j.context.job_type = JobType::new_cron("0 0 0 1 1 * *", CronContext { end_at: Some(end), ..Default::default() }).unwrap();
        j.context.job_status = aj_core::JobStatus::Running;
        q.execute_job(j).await.unwrap();
        check(s.queues_with("a") == vec!["J:queue:Finished".to_string()], "the job waits beyond its end");
    });
}
'''),
 bug('backoff-stops-growing', 'C06', 'the eleventh retry of a job with exponential backoff', 'the backoff stops growing after ten retries',
  [(R, 'self.retried_times as u32', 'self.retried_times.min(10) as u32')],
  '''use aj_core::{Retry, RetryStrategy};
fn main() {
    let d = aj::chrono::Duration::seconds(1);
    let now = aj::chrono::Utc::now();
    let mut r = Retry::new(11, None, RetryStrategy::ExponentialBackoff(d));
    check(r.retry_at(Some(now)) == now + d * 4096, "the backoff does not grow");
}
'''),
 bug('failed-claim-skipped', 'C09', 'a back end that fails while the claim of a job is stored, with another due job behind it', 'the next claim moves the entry of the job that could not be claimed',
  [(Q, '                        job.process(self.backend.deref())?;\n', '                        if let Err(err) = job.process(self.backend.deref()) {\n                            error!("[WorkQueue] Cannot claim {}: {:?}", job_id, err);\n                            continue;\n                        }\n')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        q.enqueue(job("b", 1)).unwrap();
        let mut n = 0;
        s.on(move |op, _| { if op == "storage_upsert" { n += 1; n == 1 } else { false } });
        let ids: Vec<String> = q.pick_jobs_to_process().unwrap_or_default().iter().map(|j| j.id().to_string()).collect();
        check(s.queue("J:queue:Running") == ids, "another entry was moved than the job that is started");
    });
}
''', J),
 bug('update-starts-polling', 'C10', 'a queue whose configuration is changed several times', 'every reconfiguration starts another polling series',
  [(Q, '    fn handle(&mut self, msg: UpdateWorkQueue, _: &mut Self::Context) -> Self::Result {\n        self.config = msg.config;\n', '    fn handle(&mut self, msg: UpdateWorkQueue, ctx: &mut Self::Context) -> Self::Result {\n        self.config = msg.config;\n        self.process_jobs(ctx);\n')],
  '''use aj_core::WorkQueueConfig;
fn main() {
    sys(async {
        let s = Spy::new();
        let a = aj::WorkQueue::<J>::start_with_name("J".into(), std::sync::Arc::new(s.clone()));
        for _ in 0..10 {
            let c = WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(200), max_processing_jobs: 5 };
            aj_core::update_work_queue_config(a.clone(), c).await.unwrap();
        }
        s.log.lock().unwrap().clear();
        ms(2000).await;
        let polls = s.logged().iter().filter(|l| l.as_str() == "queue_count J:queue:Running").count();
        check(polls < 30, &format!("{polls} polling steps in two seconds"));
    });
}
''', J),
 bug('hooks-not-awaited', 'C13', 'a before hook that takes longer than the job', 'the job does not wait for the hooks before its run',
  [(P, '''impl<M: Executable + Clone> Handler<RunHook<M>> for PluginCenter {
    type Result = ResponseFuture<()>;

    fn handle(&mut self, msg: RunHook<M>, _ctx: &mut Self::Context) -> Self::Result {
        let plugins = self.plugins.clone();
        Box::pin(async move {
            for plugin in plugins {
                if msg.before {
                    plugin.before_run::<M>(&msg.job_id).await;
                } else {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }
        })
''', '''impl<M: Executable + Clone> Handler<RunHook<M>> for PluginCenter {
    type Result = ();

    fn handle(&mut self, msg: RunHook<M>, ctx: &mut Self::Context) -> Self::Result {
        let plugins = self.plugins.clone();
        ctx.spawn(actix::fut::wrap_future::<_, Self>(async move {
            for plugin in plugins {
                if msg.before {
                    plugin.before_run::<M>(&msg.job_id).await;
                } else {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }
        }));
''')],
  '''use std::sync::Mutex;
static SEEN: Mutex<Vec<&str>> = Mutex::new(Vec::new());
simple_job!(K, |n, _| { SEEN.lock().unwrap().push("run"); n });
struct P;
#[aj::async_trait]
impl aj::JobPlugin for P {
    async fn before_run(&self, _: &str) { ms(300).await; SEEN.lock().unwrap().push("before"); }
}
fn main() {
    sys(async {
        aj::AJ::register_plugin(P).await.unwrap();
        let s = Spy::new();
        let q = wq::<K>("K", &s);
        q.enqueue(aj::Job::new(K { n: 1 })).unwrap();
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        ms(600).await;
        let seen = SEEN.lock().unwrap().clone();
        check(seen == vec!["before", "run"], &format!("order {seen:?}"));
    });
}
'''),
 bug('running-counted-in-batch', 'C08', 'more than 20 running jobs and a limit above 20', 'running jobs beyond the first 20 are not counted: the limit is exceeded',
  [(Q, '        let processing_queue = self.format_queue_name(JobStatus::Running);\n        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;', '        let total_processing_jobs = self.get_processing_job_ids(MAX_PROCESSING_JOBS)?.len();')],
  '''use aj_core::WorkQueueConfig;
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        use aj_core::backend::types::Backend;
        for i in 0..25 { s.queue_push("J:queue:Running", &format!("r{i}")).unwrap(); }
        for i in 0..12 { q.enqueue(job(&format!("w{i}"), 1)).unwrap(); }
        s.log.lock().unwrap().clear();
        let a = aj::WorkQueue::<J>::start_with_name("J".into(), std::sync::Arc::new(s.clone()));
        let c = WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(100), max_processing_jobs: 30 };
        aj_core::update_work_queue_config(a, c).await.unwrap();
        check(until(|| s.queue("J:queue:Finished").len() == 12).await, "the jobs do not run");
        let (mut running, mut most) = (25, 25);
        for l in s.logged() {
            if l == "queue_move J:queue:Queued J:queue:Running" { running += 1; }
            if l.starts_with("queue_remove J:queue:Running") { running -= 1; }
            most = most.max(running);
        }
        check(most <= 30, &format!("{most} jobs ran at once"));
    });
}
''', J),
 bug('recurring-left-in-running', 'C02', 'a recurring job that ran', 'a recurring job that is put back keeps its entry in the list of running jobs',
  [(JM, '                Some(job)\n            }\n            _ => None,', '                job.context.job_status = JobStatus::Queued;\n                Some(job)\n            }\n            _ => None,')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1).cron("* * * * * * *")).unwrap();
        ms(1500).await;
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        check(s.queues_with("a") == vec!["J:queue:Queued".to_string()], "the job is in another list than that of its status");
    });
}
''', J),
 bug('status-announced-twice', 'C14', 'a job that finishes', 'the end of a job is announced twice',
  [(Q, '        job.finish(self.backend.deref())?;\n', '        job.finish(self.backend.deref())?;\n        crate::PluginCenter::change_status::<M>(job.id().to_string(), JobStatus::Finished);\n')],
  '''use std::sync::Mutex;
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct P;
#[aj::async_trait]
impl aj::JobPlugin for P {
    async fn change_status(&self, _: &str, s: aj_core::JobStatus) { SEEN.lock().unwrap().push(format!("{s:?}")); }
}
fn main() {
    sys(async {
        aj::AJ::register_plugin(P).await.unwrap();
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        ms(300).await;
        let n = SEEN.lock().unwrap().iter().filter(|s| s.as_str() == "Finished").count();
        check(n == 1, &format!("announced {n} times"));
    });
}
''', J),
 bug('cron-retry-loses-recurrence', 'C06', 'a recurring job whose run fails and is retried', 'a retried recurring job becomes a job that runs once',
  [(Q, '                return self.re_enqueue(job);\n            }\n        }\n\n        // If', '                job.context.job_type = JobType::ScheduledAt(next_retry_ms);\n                return self.re_enqueue(job);\n            }\n        }\n\n        // If')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        let mut j = job("a", -1).cron("* * * * * * *").retry(aj_core::Retry::default());
        j.context.job_status = aj_core::JobStatus::Running;
        q.execute_job(j).await.unwrap();
        let j = q.get_job("a").unwrap().unwrap();
        check(matches!(j.context.job_type, aj_core::JobType::Cron(..)), "the recurrence is lost");
    });
}
''', J),
]
for b in BUGS:
    if 'J;' not in b['main'] and 'simple_job' not in b['main'] and '<J>' in b['main']:
        b['main'] = b['main'].replace(H, H + J)
