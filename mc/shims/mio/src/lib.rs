//! mio over the controlled world: edge-triggered, a wait that times out is a success without events.
use std::io;
use std::ops::BitOr;
use std::time::Duration;
use vmc_std::rt;
use vmc_std::sync::Arc;
use vmc_std::world::{self, Obj, Registration};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token(pub usize);
impl From<Token> for usize {
    fn from(t: Token) -> usize {
        t.0
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Interest(u8);
impl Interest {
    pub const READABLE: Interest = Interest(1);
    pub const WRITABLE: Interest = Interest(2);
    pub const fn add(self, o: Interest) -> Interest {
        Interest(self.0 | o.0)
    }
    pub fn remove(self, o: Interest) -> Option<Interest> {
        match self.0 & !o.0 {
            0 => None,
            x => Some(Interest(x)),
        }
    }
    pub const fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }
    pub const fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }
}
impl BitOr for Interest {
    type Output = Interest;
    fn bitor(self, o: Interest) -> Interest {
        self.add(o)
    }
}

pub mod event {
    pub use super::{Event, Events};

    pub trait Source {
        #[doc(hidden)]
        fn fd(&self) -> i32;
    }
    pub struct Iter<'a>(pub(crate) std::slice::Iter<'a, Event>);
    impl<'a> Iterator for Iter<'a> {
        type Item = &'a Event;
        fn next(&mut self) -> Option<&'a Event> {
            self.0.next()
        }
    }
}
use event::Source;

#[derive(Clone, Debug)]
pub struct Event {
    token: Token,
    readable: bool,
    writable: bool,
}
impl Event {
    pub fn token(&self) -> Token {
        self.token
    }
    pub fn is_readable(&self) -> bool {
        self.readable
    }
    pub fn is_writable(&self) -> bool {
        self.writable
    }
    pub fn is_error(&self) -> bool {
        false
    }
    pub fn is_read_closed(&self) -> bool {
        false
    }
    pub fn is_write_closed(&self) -> bool {
        false
    }
    pub fn is_priority(&self) -> bool {
        false
    }
}
pub struct Events {
    list: Vec<Event>,
    cap: usize,
}
impl Events {
    pub fn with_capacity(cap: usize) -> Events {
        Events { list: vec![], cap }
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
    pub fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
    pub fn iter(&self) -> event::Iter<'_> {
        event::Iter(self.list.iter())
    }
    pub fn clear(&mut self) {
        self.list.clear()
    }
}
impl<'a> IntoIterator for &'a Events {
    type Item = &'a Event;
    type IntoIter = event::Iter<'a>;
    fn into_iter(self) -> event::Iter<'a> {
        self.iter()
    }
}

#[derive(Clone)]
struct PollFd(Arc<Owned>);
struct Owned(i32);
impl Drop for Owned {
    fn drop(&mut self) {
        world::close(self.0)
    }
}

pub struct Registry(PollFd);
pub struct Poll {
    registry: Registry,
}
impl Poll {
    pub fn new() -> io::Result<Poll> {
        rt::point("create a wait queue");
        let fd = rt::world().add(Obj::Poll(vec![]), "program");
        Ok(Poll { registry: Registry(PollFd(Arc::new(Owned(fd)))) })
    }
    pub fn registry(&self) -> &Registry {
        &self.registry
    }
    pub fn poll(&mut self, events: &mut Events, timeout: Option<Duration>) -> io::Result<()> {
        events.list.clear();
        rt::point("wait for events");
        let fd = self.registry.0 .0 .0;
        let f = rt::world().faults;
        world::fault(f.interrupt, "interrupt of poll", &[libc_eintr()])?;
        world::fault(f.poll, "poll", &[12])?;
        let cap = events.cap;
        let ready = move || -> Vec<usize> {
            let w = rt::world();
            let regs: Vec<Registration> = w.poll(fd).cloned().unwrap_or_default();
            regs.iter()
                .enumerate()
                .filter(|(_, r)| w.get(r.fd).is_some_and(|e| e.edge > r.seen) && (r.readable && w.readable(r.fd) || r.writable))
                .map(|(i, _)| i)
                .collect()
        };
        let deadline = timeout.map(|t| {
            // the real one rounds up to whole milliseconds
            let ms = (t.as_nanos() as u64).div_ceil(1_000_000);
            rt::now() + ms * 1_000_000
        });
        let r2 = ready.clone();
        if rt::block("events", deadline, timeout != Some(Duration::ZERO), move || !r2().is_empty()) {
            for i in ready().into_iter().take(cap) {
                let w = rt::world();
                let r = w.poll(fd).unwrap()[i].clone();
                let edge = w.get(r.fd).unwrap().edge;
                let readable = r.readable && w.readable(r.fd);
                w.poll(fd).unwrap()[i].seen = edge;
                events.list.push(Event { token: Token(r.token), readable, writable: r.writable });
            }
        }
        Ok(())
    }
}
fn libc_eintr() -> i32 {
    4
}
impl Registry {
    pub fn register<S: Source + ?Sized>(&self, s: &mut S, t: Token, i: Interest) -> io::Result<()> {
        rt::point("register for events");
        add(self.0 .0 .0, s.fd(), t, i)
    }
    pub fn reregister<S: Source + ?Sized>(&self, s: &mut S, t: Token, i: Interest) -> io::Result<()> {
        rt::point("register for events");
        let fd = s.fd();
        let p = rt::world().poll(self.0 .0 .0).unwrap();
        if !p.iter().any(|r| r.fd == fd) {
            return Err(io::ErrorKind::NotFound.into());
        }
        p.retain(|r| r.fd != fd);
        add(self.0 .0 .0, fd, t, i)
    }
    pub fn deregister<S: Source + ?Sized>(&self, s: &mut S) -> io::Result<()> {
        rt::point("deregister");
        let fd = s.fd();
        rt::world().poll(self.0 .0 .0).unwrap().retain(|r| r.fd != fd);
        Ok(())
    }
    pub fn try_clone(&self) -> io::Result<Registry> {
        Ok(Registry(self.0.clone()))
    }
}
fn add(poll: i32, fd: i32, t: Token, i: Interest) -> io::Result<()> {
    let w = rt::world();
    let p = w.poll(poll).expect("wait queue");
    if p.iter().any(|r| r.fd == fd) {
        return Err(io::ErrorKind::AlreadyExists.into());
    }
    p.push(Registration { fd, token: t.0, readable: i.is_readable(), writable: i.is_writable(), seen: 0 });
    // what is ready already counts as one arrival
    if w.get(fd).is_some_and(|e| e.edge == 0) && !matches!(w.get(fd).unwrap().obj, Obj::Event) && w.readable(fd) {
        w.bump(fd);
    }
    Ok(())
}

pub struct Waker {
    fd: i32,
}
impl Waker {
    pub fn new(r: &Registry, t: Token) -> io::Result<Waker> {
        rt::point("create a waker");
        let fd = rt::world().add(Obj::Event, "program");
        add(r.0 .0 .0, fd, t, Interest::READABLE)?;
        Ok(Waker { fd })
    }
    pub fn wake(&self) -> io::Result<()> {
        rt::point("wake");
        rt::world().bump(self.fd);
        Ok(())
    }
}
impl std::fmt::Debug for Waker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Waker")
    }
}
impl std::fmt::Debug for Poll {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Poll")
    }
}
impl Drop for Waker {
    fn drop(&mut self) {
        world::close(self.fd)
    }
}

pub mod net {
    use super::event::Source;
    use std::io;
    use std::net::SocketAddr;
    use vmc_std::{rt, world};

    #[derive(Debug)]
    pub struct TcpListener(i32);
    #[derive(Debug)]
    pub struct TcpStream(i32);
    impl TcpListener {
        pub fn bind(a: SocketAddr) -> io::Result<TcpListener> {
            vmc_std::net::tcp_bind(a).map(TcpListener)
        }
        pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            vmc_std::net::tcp_accept(self.0).map(|(f, a)| (TcpStream(f), a))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(rt::world().tcp_listener(self.0).unwrap().local)
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
    }
    impl TcpStream {
        pub fn connect(a: SocketAddr) -> io::Result<TcpStream> {
            vmc_std::net::tcp_connect(a).map(TcpStream)
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            match rt::world().get(self.0) {
                Some(world::Entry { obj: world::Obj::TcpStream(s), .. }) => Ok(s.peer),
                _ => Err(io::ErrorKind::NotConnected.into()),
            }
        }
        pub fn shutdown(&self, _: std::net::Shutdown) -> io::Result<()> {
            Ok(())
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
    }
    impl io::Read for TcpStream {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            Err(io::ErrorKind::WouldBlock.into())
        }
    }
    impl io::Write for TcpStream {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Source for TcpListener {
        fn fd(&self) -> i32 {
            self.0
        }
    }
    impl Source for TcpStream {
        fn fd(&self) -> i32 {
            self.0
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            world::close(self.0)
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            world::close(self.0)
        }
    }
}
