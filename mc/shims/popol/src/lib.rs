//! popol over the controlled world: poll(2), level-triggered, with its limits and failures.
use std::io;
use std::os::unix::io::{AsRawFd, RawFd};
use std::time;
use vmc_std::world;

pub use interest::Interest;

pub mod interest {
    pub type Interest = libc::c_short;
    pub const READ: Interest = libc::POLLIN | libc::POLLPRI;
    pub const WRITE: Interest = libc::POLLOUT | libc::POLLWRBAND;
    pub const ALL: Interest = READ | WRITE;
    pub const NONE: Interest = 0;
}

#[derive(Debug)]
pub struct Event<'a> {
    pub writable: bool,
    pub readable: bool,
    pub hangup: bool,
    pub errored: bool,
    pub invalid: bool,
    pub source: &'a Source,
}
impl<'a> Event<'a> {
    pub fn is_err(&self) -> bool {
        self.errored || self.invalid
    }
}
impl<'a> From<&'a Source> for Event<'a> {
    fn from(s: &'a Source) -> Self {
        Event {
            readable: s.revents & interest::READ != 0,
            writable: s.revents & interest::WRITE != 0,
            hangup: s.revents & libc::POLLHUP != 0,
            errored: s.revents & libc::POLLERR != 0,
            invalid: s.revents & libc::POLLNVAL != 0,
            source: s,
        }
    }
}

#[derive(Debug)]
pub struct Events<K> {
    count: usize,
    sources: Sources<K>,
}
impl<K: Eq + Clone> Events<K> {
    pub fn new() -> Self {
        Events { count: 0, sources: Sources::new() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn iter<'a>(&'a self) -> impl Iterator<Item = (&'a K, Event<'a>)> + 'a {
        self.sources.index.iter().zip(self.sources.list.iter()).filter(|(_, d)| d.revents != 0).map(|(k, s)| (k, Event::from(s)))
    }
    pub fn is_empty(&self) -> bool {
        self.count == 0
    }
    pub fn len(&self) -> usize {
        self.count
    }
}

#[derive(Debug, Copy, Clone, Default)]
pub struct Source {
    fd: RawFd,
    events: Interest,
    revents: Interest,
}
impl Source {
    pub fn set(&mut self, e: Interest) {
        self.events |= e;
    }
    pub fn unset(&mut self, e: Interest) {
        self.events &= !e;
    }
}

#[derive(Debug, Clone)]
pub struct Sources<K> {
    index: Vec<K>,
    list: Vec<Source>,
}
impl<K: Eq + Clone> Sources<K> {
    pub fn new() -> Self {
        Sources { index: vec![], list: vec![] }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn len(&self) -> usize {
        self.list.len()
    }
    pub fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
    pub fn register(&mut self, key: K, fd: &impl AsRawFd, events: Interest) {
        self.insert(key, Source { fd: fd.as_raw_fd(), events, revents: 0 });
    }
    pub fn unregister(&mut self, key: &K) {
        if let Some(i) = self.find(key) {
            self.index.swap_remove(i);
            self.list.swap_remove(i);
        }
    }
    pub fn set(&mut self, key: &K, e: Interest) -> bool {
        match self.find(key) {
            Some(i) => {
                self.list[i].set(e);
                true
            }
            None => false,
        }
    }
    pub fn unset(&mut self, key: &K, e: Interest) -> bool {
        match self.find(key) {
            Some(i) => {
                self.list[i].unset(e);
                true
            }
            None => false,
        }
    }
    pub fn get_mut(&mut self, key: &K) -> Option<&mut Source> {
        self.find(key).map(move |i| &mut self.list[i])
    }
    pub fn wait_timeout(&mut self, events: &mut Events<K>, timeout: time::Duration) -> Result<(), io::Error> {
        // as the real one: whole milliseconds, in an int
        let ms = timeout.as_millis() as libc::c_int;
        let t = if ms < 0 { None } else { Some(ms as u64 * 1_000_000) };
        if self.poll(events, t)? || self.is_empty() { Ok(()) } else { Err(io::ErrorKind::TimedOut.into()) }
    }
    pub fn wait(&mut self, events: &mut Events<K>) -> Result<(), io::Error> {
        self.poll(events, None).map(|_| ())
    }
    fn poll(&mut self, events: &mut Events<K>, timeout: Option<u64>) -> io::Result<bool> {
        events.count = 0;
        events.sources.index = self.index.clone();
        events.sources.list = self.list.clone();
        vmc_std::rt::point("wait for readiness");
        let w = vmc_std::rt::world();
        if self.list.len() > w.fd_limit {
            return Err(io::Error::from_raw_os_error(libc::EINVAL));
        }
        let f = w.faults;
        world::fault(f.interrupt, "interrupt of poll", &[libc::EINTR])?;
        world::fault(f.poll, "poll", &[libc::ENOMEM])?;
        let list = self.list.iter().map(|s| (s.fd, s.events & interest::READ != 0, s.events & interest::WRITE != 0)).collect();
        let ready = if timeout == Some(0) { world::wait_level(list, Some(0), false) } else { world::wait_level(list, timeout, true) };
        match ready {
            None => Ok(false),
            Some(r) => {
                events.count = r.len();
                for (i, rd, wr) in r {
                    let s = &mut events.sources.list[i];
                    if vmc_std::rt::world().get(s.fd).is_none() {
                        s.revents = libc::POLLNVAL;
                        continue;
                    }
                    s.revents = (if rd { libc::POLLIN } else { 0 }) | (if wr { libc::POLLOUT } else { 0 });
                }
                Ok(true)
            }
        }
    }
    fn find(&self, key: &K) -> Option<usize> {
        self.index.iter().position(|k| k == key)
    }
    fn insert(&mut self, key: K, s: Source) {
        self.index.push(key);
        self.list.push(s);
    }
}

pub struct Waker {
    fd: RawFd,
}
impl Waker {
    pub fn new<K: Eq + Clone>(sources: &mut Sources<K>, key: K) -> io::Result<Waker> {
        let fd = vmc_std::rt::world().add(world::Obj::Stream(world::Stream::default()), "program");
        sources.insert(key, Source { fd, events: interest::READ, revents: 0 });
        Ok(Waker { fd })
    }
    pub fn wake(&self) -> io::Result<()> {
        vmc_std::rt::point("wake");
        if let Some(s) = vmc_std::rt::world().stream(self.fd) {
            s.inbox.push_back(1);
        }
        Ok(())
    }
    pub fn reset(_: &Source) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for Waker {
    fn drop(&mut self) {
        world::close(self.fd)
    }
}
