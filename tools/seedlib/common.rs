#![allow(dead_code)]
use aj_core::backend::types::{Backend, QueueDirection};
use aj_core::mem::InMemory;
use aj_core::Error;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Hook = Box<dyn FnMut(&str, &[&str]) -> bool + Send>;

/// In-memory backend that records every operation and can fail chosen ones.
#[derive(Clone)]
pub struct Spy {
    pub mem: Arc<InMemory>,
    pub log: Arc<Mutex<Vec<String>>>,
    pub fail: Arc<Mutex<Option<Hook>>>,
}
pub fn e() -> Error {
    Error::Redis(redis::RedisError::from((redis::ErrorKind::IoError, "injected")))
}
impl Spy {
    pub fn new() -> Self {
        Spy { mem: Arc::new(InMemory::default()), log: Default::default(), fail: Default::default() }
    }
    fn op(&self, name: &str, a: &[&str]) -> Result<(), Error> {
        let bad = match self.fail.lock().unwrap().as_mut() {
            Some(h) => h(name, a),
            None => false,
        };
        self.log.lock().unwrap().push(format!("{}{} {}", if bad { "!" } else { "" }, name, a.join(" ")));
        if bad { Err(e()) } else { Ok(()) }
    }
    pub fn on(&self, h: impl FnMut(&str, &[&str]) -> bool + Send + 'static) {
        *self.fail.lock().unwrap() = Some(Box::new(h));
    }
    pub fn queue(&self, name: &str) -> Vec<String> {
        self.mem.queues.lock().unwrap().get(name).map(|q| q.iter().cloned().collect()).unwrap_or_default()
    }
    pub fn queues_with(&self, id: &str) -> Vec<String> {
        let mut v = vec![];
        for (n, q) in self.mem.queues.lock().unwrap().iter() {
            for i in q { if i == id { v.push(n.clone()); } }
        }
        v.sort();
        v
    }
    pub fn logged(&self) -> Vec<String> { self.log.lock().unwrap().clone() }
}
impl Backend for Spy {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> { self.op("queue_push", &[q, i])?; self.mem.queue_push(q, i) }
    fn queue_move(&self, a: &str, b: &str, n: usize, x: QueueDirection, y: QueueDirection) -> Result<Vec<String>, Error> {
        self.op("queue_move", &[a, b])?;
        self.mem.queue_move(a, b, n, x, y)
    }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> { self.op("queue_remove", &[q, i])?; self.mem.queue_remove(q, i) }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> { self.op("queue_get", &[q])?; self.mem.queue_get(q, n, d) }
    fn queue_count(&self, q: &str) -> Result<usize, Error> { self.op("queue_count", &[q])?; self.mem.queue_count(q) }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> { self.op("storage_upsert", &[h, k, &v])?; self.mem.storage_upsert(h, k, v) }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> { self.op("storage_get", &[h, k])?; self.mem.storage_get(h, k) }
}
pub async fn ms(n: u64) { actix_rt::time::sleep(Duration::from_millis(n)).await }
#[macro_export]
macro_rules! simple_job {
    ($name:ident, $body:expr) => {
        #[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
        pub struct $name { pub n: i32 }
        impl aj::BackgroundJob for $name {
            fn queue_name() -> &'static str { stringify!($name) }
            fn job(self) -> aj::Job<Self> { aj::Job::new(self) }
        }
        #[aj_core::async_trait::async_trait]
        impl aj::Executable for $name {
            type Output = i32;
            async fn execute(&mut self, c: &aj::JobContext) -> i32 { let f: fn(i32, &aj::JobContext) -> i32 = $body; f(self.n, c) }
            async fn is_failed_output(&self, o: &i32) -> bool { *o < 0 }
        }
    };
}
pub fn sys<F: std::future::Future<Output = ()>>(f: F) {
    actix_rt::System::new().block_on(f)
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
pub fn wq<M>(name: &str, spy: &Spy) -> aj::WorkQueue<M>
where
    M: aj::Executable + Unpin + Send + Sync + Clone + serde::Serialize + serde::de::DeserializeOwned + 'static,
{
    aj::WorkQueue::new(name.into(), Arc::new(spy.clone()))
}
pub async fn until(mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..60 {
        if f() { return true; }
        ms(50).await;
    }
    false
}
