import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b1 import H, J, Q, JM, R, MEM, A, P, T, JC, bug
RED = 'aj_core/src/backend/redis.rs'
PJ = 'aj_core/src/plugin/job_plugin.rs'
MAC = 'aj_macro/src/lib.rs'
EX = 'aj_core/src/job/executable.rs'
U = 'aj_core/src/util/mod.rs'

# a small Redis: lists and hashes over RESP, on the loopback network
SERVER = '''
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
fn redis_server() -> String {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("redis://{}/", l.local_addr().unwrap());
    let data: std::sync::Arc<std::sync::Mutex<(HashMap<String, VecDeque<String>>, HashMap<String, HashMap<String, String>>)>> = Default::default();
    std::thread::spawn(move || for c in l.incoming() {
        let (data, mut out) = (data.clone(), c.unwrap());
        let mut inp = BufReader::new(out.try_clone().unwrap());
        std::thread::spawn(move || loop {
            let mut line = String::new();
            if inp.read_line(&mut line).unwrap_or(0) == 0 { return; }
            let n: usize = line.trim()[1..].parse().unwrap();
            let mut a = vec![];
            for _ in 0..n {
                let mut line = String::new();
                inp.read_line(&mut line).unwrap();
                let mut buf = vec![0; line.trim()[1..].parse::<usize>().unwrap() + 2];
                inp.read_exact(&mut buf).unwrap();
                buf.truncate(buf.len() - 2);
                a.push(String::from_utf8(buf).unwrap());
            }
            let mut d = data.lock().unwrap();
            let bulk = |s: &String| format!("${}\\r\\n{}\\r\\n", s.len(), s);
            let r = match a[0].to_uppercase().as_str() {
                "LPUSH" => { let q = d.0.entry(a[1].clone()).or_default(); q.push_front(a[2].clone()); format!(":{}\\r\\n", q.len()) }
                "RPUSH" => { let q = d.0.entry(a[1].clone()).or_default(); q.push_back(a[2].clone()); format!(":{}\\r\\n", q.len()) }
                "LLEN" => format!(":{}\\r\\n", d.0.get(&a[1]).map_or(0, |q| q.len())),
                "LMOVE" => {
                    let left = |s: &str| s.to_uppercase() == "LEFT";
                    let x = d.0.get_mut(&a[1]).and_then(|q| if left(&a[3]) { q.pop_front() } else { q.pop_back() });
                    match x {
                        Some(x) => { let q = d.0.entry(a[2].clone()).or_default(); if left(&a[4]) { q.push_front(x.clone()) } else { q.push_back(x.clone()) }; bulk(&x) }
                        None => "$-1\\r\\n".into(),
                    }
                }
                "LREM" => {
                    let q = d.0.entry(a[1].clone()).or_default();
                    let (mut left, old) = (a[2].parse::<i64>().unwrap(), q.len());
                    if left == 0 { left = i64::MAX }
                    let back = left < 0;
                    left = left.abs();
                    if back { q.make_contiguous().reverse() }
                    q.retain(|x| if left > 0 && *x == a[3] { left -= 1; false } else { true });
                    if back { q.make_contiguous().reverse() }
                    format!(":{}\\r\\n", old - q.len())
                }
                "LRANGE" => {
                    let q = d.0.get(&a[1]).cloned().unwrap_or_default();
                    let n = q.len() as i64;
                    let at = |s: &str| { let i: i64 = s.parse().unwrap(); if i < 0 { i + n } else { i } };
                    let (i, j) = (at(&a[2]).max(0), at(&a[3]).min(n - 1));
                    let v: Vec<_> = (i..=j).map(|i| bulk(&q[i as usize])).collect();
                    format!("*{}\\r\\n{}", v.len(), v.concat())
                }
                "HSET" => { d.1.entry(a[1].clone()).or_default().insert(a[2].clone(), a[3].clone()); ":1\\r\\n".into() }
                "HSETNX" => { d.1.entry(a[1].clone()).or_default().entry(a[2].clone()).or_insert(a[3].clone()); ":1\\r\\n".into() }
                "HGET" => d.1.get(&a[1]).and_then(|h| h.get(&a[2])).map(bulk).unwrap_or("$-1\\r\\n".into()),
                _ => "+OK\\r\\n".into(),
            };
            out.write_all(r.as_bytes()).unwrap();
        });
    });
    url
}
'''

BUGS = [
 bug('redis-remove-one-copy', 'C16', 'an id that is twice in a Redis list', 'the Redis back end removes one copy only, the in-memory one all of them',
  [(RED, 'conn.lrem(queue, 0, item)', 'conn.lrem(queue, 1, item)')],
  SERVER + '''use aj_core::backend::types::*;
fn main() {
    let r = aj_core::redis::Redis::new(redis_server());
    for i in ["a", "b", "a"] { r.queue_push("q", i).unwrap(); }
    r.queue_remove("q", "a").unwrap();
    check(r.queue_get("q", 9, QueueDirection::Front).unwrap() == vec!["b".to_string()], "a is still in the list");
}
'''),
 bug('redis-back-order', 'C16', 'reading more than one entry from the back of a Redis list', 'entries read from the back come in the wrong order',
  [(RED, '                res.reverse();\n', '                if res.len() < count {\n                    res.reverse();\n                }\n')],
  SERVER + '''use aj_core::backend::types::*;
fn main() {
    let r = aj_core::redis::Redis::new(redis_server());
    for i in ["a", "b", "c"] { r.queue_push("q", i).unwrap(); }
    check(r.queue_get("q", 9, QueueDirection::Back).unwrap() == ["a", "b", "c"], "order of the whole list");
    check(r.queue_get("q", 2, QueueDirection::Back).unwrap() == ["a", "b"], "order of the last two");
}
'''),
 bug('redis-move-direction', 'C16', 'a move whose two ends differ', 'the entry is added at the end it was taken from',
  [(RED, '                clone_direction(&to_direction),\n', '                clone_direction(if from_queue == to_queue { &to_direction } else { &from_direction }),\n')],
  SERVER + '''use aj_core::backend::types::*;
fn main() {
    let r = aj_core::redis::Redis::new(redis_server());
    for i in ["a", "b"] { r.queue_push("q", i).unwrap(); }
    for i in ["x", "y"] { r.queue_push("t", i).unwrap(); }
    r.queue_move("q", "t", 1, QueueDirection::Back, QueueDirection::Front).unwrap();
    check(r.queue_get("t", 9, QueueDirection::Front).unwrap() == ["a", "y", "x"], "the moved entry is not in front");
}
'''),
 bug('starts-in-its-second', 'C04', 'a start time later in the current second', 'a job starts up to a second before it is due',
  [(JM, 'JobType::ScheduledAt(schedule_at) => &now > schedule_at,', 'JobType::ScheduledAt(schedule_at) => now.timestamp() >= schedule_at.timestamp(),')],
  '''use aj::chrono::{Duration, Utc};
fn main() {
    while Utc::now().timestamp_subsec_millis() > 300 {}
    let j = job("a", 1).schedule_at(Utc::now() + Duration::milliseconds(500));
    check(!j.is_ready(), "ready half a second early");
}
''', J),
 bug('repeat-bound-by-count', 'C04', 'a recurring job with an end that is over and a bound on its repeats', 'a recurring job is started although its recurrence has ended',
  [(JM, '''                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;''', '''                if let (Some(end_at), None) = (context.end_at, context.max_repeat) {
                    if now > end_at {
                        return false;''')],
  '''use aj::chrono::{Duration, Utc};
fn main() {
    let now = Utc::now();
    let ctx = aj_core::CronContext { tick_number: 0, max_repeat: Some(5), end_at: Some(now - Duration::hours(1)) };
    let j = job("a", 1).set_job_type(aj_core::JobType::Cron("* * * * * * *".into(), now - Duration::hours(2), 1, ctx));
    check(!j.is_ready(), "the recurrence has ended");
}
''', J),
 bug('failed-entry-skipped', 'C07', 'a failing execution', 'a failed job is not listed among the failed ones when its running entry could not be removed',
  [(Q, '''        self.remove_processing_job(job_id);
        let failed_queue = self.format_queue_name(JobStatus::Failed);
        if let Err(e) = self.backend.queue_push(&failed_queue, job_id) {''', '''        let failed_queue = self.format_queue_name(JobStatus::Failed);
        if let Err(e) = self.backend.queue_move(
            &self.format_queue_name(JobStatus::Running),
            &failed_queue,
            1,
            QueueDirection::Back,
            QueueDirection::Front,
        ) {''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("good", 1)).unwrap();
        q.enqueue(job("bad", -1)).unwrap();
        let picked = q.pick_jobs_to_process().unwrap();
        check(picked.len() == 2, "both are picked");
        let bad = picked.into_iter().find(|j| j.id() == "bad").unwrap();
        q.execute_job(bad).await.unwrap();
        check(s.queues_with("bad") == ["J:queue:Failed"], "bad is not in the failed list");
        check(s.queues_with("good") == ["J:queue:Running"], "good is not in the running list");
    });
}
''', J),
 bug('slot-kept-on-store-error', 'C07', 'the record of a finished job cannot be stored', 'the finished job keeps its running slot for ever',
  [(Q, '''        self.remove_processing_job(job.id());
        job.finish(self.backend.deref())?;

        let finished_queue = self.format_queue_name(JobStatus::Finished);
        if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), e);
        };
        Ok(())''', '''        job.finish(self.backend.deref())?;

        let finished_queue = self.format_queue_name(JobStatus::Finished);
        if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), e);
            return Ok(());
        };
        self.remove_processing_job(job.id());
        Ok(())''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1)).unwrap();
        let j = q.pick_jobs_to_process().unwrap().remove(0);
        s.on(|op, a| op == "queue_push" && a[0].ends_with("Finished"));
        q.execute_job(j).await.unwrap();
        check(s.queue("J:queue:Running").is_empty(), "the job still takes a running slot");
    });
}
''', J),
 bug('lookup-forgets', 'C25', 'a lookup of a record of a job that is done', 'looking up a job changes its stored record',
  [(Q, '''        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
        Ok(job)
''', '''        let mut job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
        if let Some(job) = job.as_mut().filter(|job| job.is_done()) {
            job.context.retry = None;
            upsert_to_storage(self.backend.deref(), job_id, job.clone())?;
        }
        Ok(job)
''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        q.enqueue(job("a", 1).retry(aj_core::Retry::default())).unwrap();
        let j = q.pick_jobs_to_process().unwrap().remove(0);
        q.execute_job(j).await.unwrap();
        let read = || s.mem.storages.lock().unwrap().values().next().unwrap()["a"].clone();
        let old = read();
        q.get_job("a").unwrap();
        check(old == read(), "the record has changed");
    });
}
''', J),
 bug('queue-name-lowercase', 'C26', 'two job types whose queue names differ in case only', 'two queues share their lists',
  [(Q, 'format!("{}:queue:{:?}", self.name, status)', 'format!("{}:queue:{:?}", self.name.to_lowercase(), status)')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        wq::<J>("Mail", &s).enqueue(job("a", 1)).unwrap();
        check(wq::<J>("mail", &s).pick_jobs_to_process().unwrap().is_empty(), "the other queue picks the job");
    });
}
''', J),
 bug('name-panics-on-text', 'C23', 'a long id with a character that takes several bytes', 'a job with such an id brings down its queue',
  [(Q, '        info!("[WorkQueue] New Job {}", key);\n', '        let label = if key.len() > 36 { &key[..36] } else { key };\n        info!("[WorkQueue] New Job {}", label);\n')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        let id = format!("{}é{}", "x".repeat(35), "y".repeat(9));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.enqueue(job(&id, 1)).is_ok()));
        check(matches!(r, Ok(true)), "the submission is not accepted");
    });
}
''', J),
 bug('delay-drops-retry', 'C28', 'a retry policy given before the delay', 'delaying a job forgets its retry policy',
  [(JM, '''        let schedule_at = get_now() + after;
        self.schedule_at(schedule_at)''', '''        let mut context = JobContext::new(self.context.job_id.clone());
        context.job_type = JobType::new_schedule(get_now() + after);
        self.set_context(context)''')],
  '''use aj::chrono::Duration;
fn main() {
    let j = job("a", 1).retry(aj_core::Retry::default()).delay(Duration::seconds(1));
    check(j.context.retry.is_some(), "the retry policy is lost");
}
''', J),
 bug('post-before-body-on-rerun', 'C29', 'a job that runs again', 'the second run of a job leaves out post_execute',
  [(JM, '        let output = self.data.post_execute(output, &self.context).await;\n', '        let output = if self.context.run_count > 1 {\n            output\n        } else {\n            self.data.post_execute(output, &self.context).await\n        };\n')],
  '''use std::sync::atomic::{AtomicU32, Ordering};
static POST: AtomicU32 = AtomicU32::new(0);
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct K;
#[aj_core::async_trait::async_trait]
impl aj::Executable for K {
    type Output = i32;
    async fn execute(&mut self, _: &aj::JobContext) -> i32 { 0 }
    async fn post_execute(&mut self, o: i32, _: &aj::JobContext) -> i32 { POST.fetch_add(1, Ordering::SeqCst); o }
}
fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<K>("K", &s);
        let mut j = aj::Job::new(K).set_id("a".into());
        j.context.run_count = 3;
        q.enqueue(j).unwrap();
        let j = q.pick_jobs_to_process().unwrap().remove(0);
        q.execute_job(j).await.unwrap();
        check(POST.load(Ordering::SeqCst) == 1, "post_execute did not run");
    });
}
'''),
 bug('run-time-first-only', 'C30', 'a job that runs again', 'the time of a second start is not recorded',
  [(JM, '        self.context.run_at = Some(get_now_as_ms());\n', '        self.context.run_at.get_or_insert_with(get_now_as_ms);\n')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        let q = wq::<J>("J", &s);
        let mut j = job("a", 1);
        j.context.run_at = Some(5);
        q.enqueue(j).unwrap();
        let j = q.pick_jobs_to_process().unwrap().remove(0);
        check(j.context.run_at.unwrap() > 5, "the start is stamped with an old time");
    });
}
''', J),
 bug('update-skips-finished', 'C24', 'an update of a job that is done', 'an update without new context loses the new data of a job that is done',
  [(A, '''            job.data = data;
            if let Some(context)''', '''            if !job.is_done() {
                job.data = data;
            }
            if let Some(context)''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        aj::AJ::start(s.clone());
        aj::AJ::add_job(job("a", 1), "J").await.unwrap();
        let done = |s: &Spy| !s.queue("J:queue:Finished").is_empty();
        check(until(|| done(&s)).await, "the job does not run");
        aj::AJ::update_job("a", J { n: 7 }, None).await.unwrap();
        let j = aj::AJ::get_job::<J>("a").await.unwrap();
        check(j.data.n == 7, "the new data are lost");
    });
}
''', J),
 bug('queue-of-other-type', 'C19', 'a queue registered under its name for another type', 'the queue is not found by its type: every submission asks for it again',
  [(A, '''    let type_id = TypeId::of::<M>();
    if let Some(queue_addr)''', '''    let type_id = TypeId::of::<Job<M>>();
    if let Some(queue_addr)''')],
  '''fn main() {
    sys(async {
        let s = Spy::new();
        aj::AJ::start(s.clone());
        check(aj::AJ::add_job(job("a", 1), "J").await.is_ok(), "first");
        check(aj::AJ::add_job(job("b", 1), "J").await.is_ok(), "second");
    });
}
''', J),
 bug('new-job-pushed-twice', 'C01', 'a new job with an id that is waiting in the list already', 'an accepted submission is queued twice when its schedule lies ahead',
  [(Q, '''        job.enqueue(self.backend.deref())
    }
''', '''        job.enqueue(self.backend.deref())?;
        if !job.is_ready() {
            self.backend
                .queue_push(&self.format_queue_name(JobStatus::Queued), job.id())?;
        }
        Ok(())
    }
''')],
  '''use aj::chrono::Duration;
fn main() {
    sys(async {
        let s = Spy::new();
        wq::<J>("J", &s).enqueue(job("a", 1).delay(Duration::hours(1))).unwrap();
        check(s.queues_with("a").len() == 1, "queued twice");
    });
}
''', J),
]
