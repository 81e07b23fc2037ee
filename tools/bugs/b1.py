H = 'mod common;\nuse common::*;\n'
J = 'simple_job!(J, |n, _| n);\nfn job(id: &str, n: i32) -> aj::Job<J> { aj::Job::new(J { n }).set_id(id.into()) }\n'
Q, JM, R, MEM, A, P = ['aj_core/src/' + x for x in ('queue.rs', 'job/mod.rs', 'job/retry.rs', 'backend/mem.rs', 'aj.rs', 'plugin/mod.rs')]
T = 'aj_core/src/backend/types.rs'
JC = 'aj_core/src/job/job_context.rs'


def bug(id, prop, needs, breaks, edits, main, use=''):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=H + use + main)


BUGS = [
 bug('mem-remove-one-copy', 'C15', 'an item that is twice in a list', 'queue_remove leaves the second copy of the item in the list',
  [(MEM, '            queue.retain(|inner_item| inner_item.as_str() != item);', '            if let Some(index) = queue.iter().position(|inner_item| inner_item.as_str() == item) {\n                queue.remove(index);\n            }')],
  '''use aj_core::backend::types::*;
fn main() {
    let m = aj_core::mem::InMemory::default();
    for i in ["a", "b", "a"] { m.queue_push("q", i).unwrap(); }
    m.queue_remove("q", "a").unwrap();
    check(m.queue_get("q", 9, QueueDirection::Front).unwrap() == vec!["b".to_string()], "a is still in the list");
}
'''),
 bug('mem-move-two-locks', 'C17', 'another thread looking while a move is under way', 'queue_move gives up the lock between taking and adding: another thread sees the items in neither list',
  [(MEM, '''        for moving_item in moving_items.iter() {
            if let Some''', '''        drop(queues);
        let mut queues = self.queues.lock().unwrap();
        for moving_item in moving_items.iter() {
            if let Some''')],
  '''use aj_core::backend::types::*;
use std::sync::Arc;
fn main() {
    let m = Arc::new(aj_core::mem::InMemory::default());
    m.queue_push("a", "x").unwrap();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (m2, s2) = (m.clone(), stop.clone());
    let t = std::thread::spawn(move || {
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
            m2.queue_move("a", "b", 1, QueueDirection::Back, QueueDirection::Front).unwrap();
            m2.queue_move("b", "a", 1, QueueDirection::Back, QueueDirection::Front).unwrap();
        }
    });
    let end = std::time::Instant::now() + std::time::Duration::from_secs(10);
    let mut bad = false;
    while !bad && std::time::Instant::now() < end {
        let q = m.queues.lock().unwrap();
        let n: usize = q.values().map(|l| l.len()).sum();
        if n != 1 { bad = true; }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    t.join().unwrap();
    check(!bad, "the item was in no list for a while");
}
'''),
 bug('claim-wrong-end', 'C09', 'a waiting list with more than one job', 'the job that is moved to the running list is not the one that was marked running and started',
  [(Q, '''                            &processing_queue_name,
                            1,
                            QueueDirection::Back,''', '''                            &processing_queue_name,
                            1,
                            QueueDirection::Front,''')],
  '''use aj::chrono::Duration;
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("due", 1)).unwrap();
        q.enqueue(job("later", 1).delay(Duration::hours(1))).unwrap();
        let picked = q.pick_jobs_to_process().unwrap();
        check(picked.len() == 1 && picked[0].id() == "due", "wrong job picked");
        check(s.queues_with("due") == vec!["J:queue:Running".to_string()], "the started job is not in the running list");
        check(s.queues_with("later") == vec!["J:queue:Queued".to_string()], "the waiting job is not in the waiting list");
    });
}
''', J),
 bug('limit-off-by-one', 'C08', 'more due jobs than free slots', 'one job more than the limit is started',
  [(Q, '&& ready_jobs.len() < total', '&& ready_jobs.len() <= total')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        use aj_core::backend::types::Backend;
        for i in 0..5 { s.queue_push("J:queue:Running", &format!("r{i}")).unwrap(); }
        for i in 0..30 { q.enqueue(job(&format!("j{i}"), 1)).unwrap(); }
        q.pick_jobs_to_process().unwrap();
        let n = s.queue("J:queue:Running").len();
        check(n <= 20, &format!("{n} jobs are running, the limit is 20"));
    });
}
''', J),
 bug('cron-count-stuck', 'C05', 'a recurring job with a maximal repeat count', 'the repeat counter does not grow, so the job recurs for ever',
  [(JM, 'let next_repeat = *total_repeat + 1;', 'let next_repeat = (*total_repeat).max(1);')],
  '''use aj_core::{JobType, CronContext};
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        let c = CronContext { tick_number: 0, max_repeat: Some(2), end_at: None };
        let j = job("c", 1).job_type(JobType::new_cron("* * * * * * *", c).unwrap());
        q.enqueue(j).unwrap();
        let mut runs = 0;
        for _ in 0..60 {
            for j in q.pick_jobs_to_process().unwrap() {
                runs += 1;
                q.execute_job(j).await.unwrap();
            }
            ms(100).await;
        }
        check(runs == 2, &format!("the job ran {runs} times, its maximum is 2"));
    });
}
''', J),
 bug('retry-not-counted', 'C06', 'a job that fails until its tries are used up', 'the tries that a retry uses are not counted, so a failing job is retried for ever',
  [('aj_core/src/job/executable.rs', 'Some(retry_context.retry_at(None))', 'Some(retry_context.clone().retry_at(None))')],
  '''use aj::retry::Retry;
simple_job!(F, |_, _| -1);
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<F>("F", &s);
        let j = aj::Job::new(F { n: 1 }).set_id("f".into()).set_retry(Retry::new_interval_retry(Some(2), aj::chrono::Duration::milliseconds(1)));
        q.enqueue(j).unwrap();
        let mut runs = 0;
        for _ in 0..20 {
            for j in q.pick_jobs_to_process().unwrap() {
                runs += 1;
                q.execute_job(j).await.unwrap();
            }
            ms(20).await;
        }
        check(runs == 3, &format!("the job ran {runs} times, 3 (one run and two retries) are allowed"));
    });
}
'''),
 bug('cancel-not-running', 'C11', 'cancelling a job that is done', 'cancelling a finished job turns its record into a canceled one',
  [(Q, 'if job.is_queued() {', 'if !job.is_running() {')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        let before = format!("{:?}", q.get_job("a").unwrap().unwrap().context);
        q.cancel_job("a").unwrap();
        check(before == format!("{:?}", q.get_job("a").unwrap().unwrap().context), "the finished job was changed");
    });
}
''', J),
 bug('plugin-replaced', 'C13', 'two registered plugins', 'registering a plugin drops the ones registered before',
  [(P, 'self.plugins.push(Arc::new(msg.plugin))', 'self.plugins = vec![Arc::new(msg.plugin)]')],
  '''use std::sync::atomic::*;
static A: AtomicUsize = AtomicUsize::new(0);
static B: AtomicUsize = AtomicUsize::new(0);
struct P(&'static AtomicUsize);
#[aj::async_trait]
impl aj::JobPlugin for P {
    async fn before_run(&self, _: &str) { self.0.fetch_add(1, Ordering::SeqCst); }
}
fn main() {
    sys(async {
        aj::AJ::register_plugin(P(&A)).await.unwrap();
        aj::AJ::register_plugin(P(&B)).await.unwrap();
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        check(A.load(Ordering::SeqCst) == 1 && B.load(Ordering::SeqCst) == 1, "a plugin did not see the run");
    });
}
''', J),
 bug('announce-before-store', 'C14', 'a back end that fails while a finished job is stored', 'plugins are told about a status that was never stored',
  [(JM, '''        self.context.job_status = JobStatus::Finished;
        self.context.complete_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
''', '''        self.context.job_status = JobStatus::Finished;
        self.context.complete_at = Some(get_now_as_ms());
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
        upsert_to_storage(backend, self.id(), self.clone())?;
''')],
  '''use std::sync::Mutex;
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct P;
#[aj::async_trait]
impl aj::JobPlugin for P {
    async fn change_status(&self, _: &str, s: aj_core::JobStatus) { SEEN.lock().unwrap().push(format!("{s:?}")); }
}
fn main() {
    sys(async {
        aj::AJ::register_plugin(P).await.unwrap();
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        let jobs = q.pick_jobs_to_process().unwrap();
        s.on(|op, _| op == "storage_upsert");
        for j in jobs { let _ = q.execute_job(j).await; }
        ms(200).await;
        let seen = SEEN.lock().unwrap().clone();
        check(!seen.contains(&"Finished".to_string()), &format!("announced {seen:?}, but Finished was not stored"));
    });
}
''', J),
 bug('poll-stops-on-error', 'C10', 'a back-end failure during one polling step', 'after one back-end failure the queue never polls again',
  [(Q, '''                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
''', '''                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
                return;
''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let mut n = 0;
        s.on(move |op, _| { if op == "queue_count" { n += 1; n <= 2 } else { false } });
        let a = aj::WorkQueue::<J>::start_with_name("J".into(), std::sync::Arc::new(s.clone()));
        ms(600).await;
        aj_core::enqueue_job(a, job("a", 1), aj_core::EnqueueConfig::new_re_run()).await.unwrap();
        let done = until(|| s.queues_with("a") == vec!["J:queue:Finished".to_string()]).await;
        check(done, "the job never ran");
    });
}
''', J),
 bug('storage-error-swallowed', 'C22', 'a back end that fails to store a record', 'a submission whose record could not be stored reports success',
  [(T, '''        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
    }

    res''', '''        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
    }

    Ok(())''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        s.on(|op, _| op == "storage_upsert");
        let q = wq::<J>("J", &s);
        check(q.run_with_config(job("a", 1), aj_core::EnqueueConfig::new_re_run()).is_err(), "success is reported");
    });
}
''', J),
 bug('schedule-in-seconds', 'C20', 'a scheduled job whose time is not a whole second', 'the stored start time loses its fraction of a second, the job starts before it is due',
  [(JC, '''    ScheduledAt(#[serde(with = "ts_microseconds")] DateTime<Utc>),''', '''    ScheduledAt(#[serde(with = "chrono::serde::ts_seconds")] DateTime<Utc>),''')],
  '''use aj_core::JobType;
use aj::chrono::{DateTime, Utc};
fn main() {
    let t = DateTime::<Utc>::from_timestamp_micros(1_700_000_000_900_001).unwrap();
    let s = serde_json::to_string(&JobType::ScheduledAt(t)).unwrap();
    let back: JobType = serde_json::from_str(&s).unwrap();
    check(back == JobType::ScheduledAt(t), &format!("read back as {back:?}"));
}
'''),
 bug('macro-args-reversed', 'C21', 'a job function with several arguments of the same type', 'the generated job calls the function with its arguments in the wrong order',
  [('aj_macro/src/lib.rs', '''                    Some(quote! { self.#ident.clone() })
                } else {
                    None
                }
            } else {
                None
            }
        })
        .collect();
''', '''                    Some(quote! { self.#ident.clone() })
                } else {
                    None
                }
            } else {
                None
            }
        })
        .rev()
        .collect();
''')],
  '''use aj::job;
static OUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
#[job]
fn copy(from: String, to: String) { *OUT.lock().unwrap() = format!("{from}>{to}"); }
fn main() {
    sys(async {
        aj::AJ::quick_start();
        copy::run("x".into(), "y".into()).await.unwrap();
        until(|| !OUT.lock().unwrap().is_empty()).await;
        let out = OUT.lock().unwrap().clone();
        check(out == "x>y", &format!("called as {out}"));
    });
}
'''),
 bug('rerun-keeps-finished-entry', 'C02', 're-running a job that is done', 'the id of a re-run job stays in the list of finished jobs while it waits',
  [(Q, 'let current_queue = self.format_queue_name(job.context.job_status);', 'let current_queue = self.format_queue_name(JobStatus::Running);')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        for j in q.pick_jobs_to_process().unwrap() { q.execute_job(j).await.unwrap(); }
        q.retry_job("a").unwrap();
        let l = s.queues_with("a");
        check(l == vec!["J:queue:Queued".to_string()], &format!("the waiting job is in {l:?}"));
    });
}
''', J),
 bug('canceled-not-done', 'C12', 'retrying a canceled job', 'a canceled job can no longer be retried',
  [(JM, '''            || self.context.job_status == JobStatus::Canceled
''', '')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        q.cancel_job("a").unwrap();
        check(q.retry_job("a").unwrap(), "retry answers false");
        check(s.queue("J:queue:Queued").len() == 1, "not waiting again");
    });
}
''', J),
 bug('running-data-replaced', 'C03', 're-submitting a job while it runs', 'the record of a running job is overwritten',
  [(Q, 'if config.override_data && !existing_job.is_running() {', 'if config.override_data || !existing_job.is_running() {')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        q.pick_jobs_to_process().unwrap();
        q.run_with_config(job("a", 2), aj_core::EnqueueConfig::new_re_run()).unwrap();
        check(q.get_job("a").unwrap().unwrap().data.n == 1, "the running job was changed");
    });
}
''', J),
]
