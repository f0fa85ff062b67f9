pub use std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result};

use crate::rt;
use std::io;
use std::sync::{Arc, Mutex as Real};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        rt::point("unpark a thread");
        *rt::park_flag(self.id) = true;
    }
}

pub struct JoinHandle<T> {
    thread: Thread,
    packet: Arc<Real<Option<Result<T>>>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        rt::point("join a thread");
        let id = self.thread.id;
        rt::block("a thread to end", None, false, move || rt::is_done(id));
        self.packet.lock().unwrap().take().expect("result of a thread")
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        rt::point("look whether a thread ended");
        rt::is_done(self.thread.id)
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Default, Debug)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        rt::point("start a thread");
        let packet = Arc::new(Real::new(None));
        let p = packet.clone();
        let n = self.name.clone().unwrap_or_else(|| "thread".into());
        let id = rt::spawn(n, false, move || {
            let r = rt::run_body(f);
            *p.lock().unwrap() = Some(r);
        });
        rt::world().spawned += 1;
        Ok(JoinHandle { thread: Thread { id, name: self.name }, packet })
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
pub fn current() -> Thread {
    Thread { id: rt::current(), name: Some(rt::current_name()) }
}
pub fn sleep(d: Duration) {
    rt::point("sleep");
    let end = rt::now() + d.as_nanos() as u64;
    rt::block("sleeping", Some(end), true, || false);
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
    rt::free_point("yield");
}
pub fn park() {
    rt::point("park");
    let me = rt::current();
    rt::block("to be unparked", None, false, move || *rt::park_flag(me));
    *rt::park_flag(me) = false;
}
pub fn park_timeout(d: Duration) {
    rt::point("park");
    let me = rt::current();
    rt::block("to be unparked", Some(rt::now() + d.as_nanos() as u64), true, move || *rt::park_flag(me));
    *rt::park_flag(me) = false;
}
