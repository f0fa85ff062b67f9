//! What is outside the process: sockets, files, stores, signals, and a record of everything the program did to it.

use crate::rt::{self, choose, Cost};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io;
use std::net::SocketAddr;
use std::path::PathBuf;

pub enum Obj {
    Udp(Udp),
    UnixListener(Listener),
    Stream(Stream),
    TcpListener(TcpListener),
    TcpStream(TcpStream),
    /// An event counter that is never read, as mio uses it.
    Event,
    /// A wait queue with registrations.
    Poll(Vec<Registration>),
}

pub struct Entry {
    pub obj: Obj,
    pub nonblocking: bool,
    pub read_timeout: Option<u64>,
    /// Counts arrivals, for edge-triggered waiting.
    pub edge: u64,
    pub owner: &'static str,
}

pub struct Udp {
    pub local: SocketAddr,
    pub peer: Option<SocketAddr>,
    pub inbox: VecDeque<(SocketAddr, Vec<u8>, u64)>,
}
pub struct Listener {
    pub path: PathBuf,
    pub backlog: VecDeque<i32>,
    pub accepted: usize,
}
#[derive(Default)]
pub struct Stream {
    pub inbox: VecDeque<u8>,
    /// The other end will not send more.
    pub eof: bool,
    pub peer: Option<i32>,
    pub shut_write: bool,
}
pub struct TcpListener {
    pub local: SocketAddr,
    pub backlog: VecDeque<SocketAddr>,
    pub accepted: usize,
}
pub struct TcpStream {
    pub peer: SocketAddr,
    pub incoming: bool,
}
#[derive(Clone)]
pub struct Registration {
    pub fd: i32,
    pub token: usize,
    pub readable: bool,
    pub writable: bool,
    pub seen: u64,
}

#[derive(Default, Clone)]
pub struct Store {
    pub durable: BTreeMap<Vec<u8>, Vec<u8>>,
    /// Writes that a crash may lose, in order: a crash keeps some prefix of them.
    pub pending: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    pub open: usize,
}

#[derive(Default, Clone, Copy)]
pub struct Faults {
    pub poll: bool,
    pub interrupt: bool,
    pub recv: bool,
    pub send: bool,
    pub accept: bool,
    pub connect: bool,
    pub read: bool,
    pub bind: bool,
    pub store: bool,
    pub handler: bool,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub to: SocketAddr,
    pub data: Vec<u8>,
    pub ok: bool,
    pub thread: usize,
    /// The address of the socket it left from.
    pub from: SocketAddr,
}

pub struct World {
    pub fds: Vec<Option<Entry>>,
    pub paths: BTreeSet<PathBuf>,
    pub unix: BTreeMap<PathBuf, i32>,
    pub stores: BTreeMap<PathBuf, Store>,
    pub faults: Faults,
    /// Every byte the program's random generators return.
    pub random: u8,
    /// If not zero, every other byte is this one.
    pub random_high: u8,
    pub random_draws: u64,
    /// How many bytes they returned, and which of them differs from the rest.
    pub random_bytes: usize,
    pub random_odd: Option<usize>,
    /// The command line, if it is not that of the check.
    pub args: Option<Vec<std::ffi::OsString>>,
    /// The bytes are all different: each is a function of this and of its place.
    pub random_stream: Option<u64>,
    pub crash_enabled: bool,
    /// Grows with everything that outlives the process or can be seen outside it: crashes between two of these are all the same.
    pub effects: u64,
    pub crash_seen: u64,
    pub sent: Vec<Sent>,
    pub connects: Vec<(SocketAddr, bool)>,
    pub logs: Vec<(u8, String)>,
    /// the least severe level that reaches the log (5 = all)
    pub log_level: u8,
    pub handler: Option<Box<dyn FnMut() + Send>>,
    pub spawned: usize,
    pub fd_limit: usize,
    /// Numbers of injected faults by kind.
    pub injected: Vec<&'static str>,
    pub on_send: Option<fn(&mut World)>,
    pub user: Option<Box<dyn Any>>,
    /// Handshake openings the program made: for whom, and the message.
    pub openings: Vec<(Vec<u8>, Vec<u8>)>,
    /// Ids of the datagrams the program took, in order.
    pub taken: Vec<u64>,
    /// The thread that sent the message received last from a channel.
    pub last_sender: usize,
    /// The channel last received from, successfully or not, and what was sent to and taken from each channel.
    pub last_channel: usize,
    pub channels: Vec<(u64, u64)>,
    /// Addresses that cannot be connected to, with the error.
    pub unreachable: BTreeMap<SocketAddr, i32>,
}

impl Default for World {
    fn default() -> Self {
        World {
            fds: vec![],
            paths: BTreeSet::new(),
            unix: BTreeMap::new(),
            stores: BTreeMap::new(),
            faults: Faults::default(),
            random: 1,
            random_high: 0,
            random_draws: 0,
            random_bytes: 0,
            args: None,
            random_odd: None,
            random_stream: None,
            crash_enabled: false,
            effects: 1,
            crash_seen: 0,
            sent: vec![],
            connects: vec![],
            logs: vec![],
            log_level: 5,
            handler: None,
            spawned: 0,
            fd_limit: 1024,
            injected: vec![],
            on_send: None,
            user: None,
            openings: vec![],
            taken: vec![],
            last_sender: usize::MAX,
            last_channel: usize::MAX,
            channels: vec![],
            unreachable: BTreeMap::new(),
        }
    }
}

const BASE: i32 = 100;

/// splitmix64
pub fn mixed(key: u64, place: u64) -> u8 {
    let mut z = key.wrapping_add(place.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) as u8
}

impl World {
    pub fn add(&mut self, obj: Obj, owner: &'static str) -> i32 {
        let e = Some(Entry { obj, nonblocking: false, read_timeout: None, edge: 0, owner });
        // descriptors of closed objects are not reused, so that a stale one is noticed
        self.fds.push(e);
        BASE + self.fds.len() as i32 - 1
    }
    pub fn get(&mut self, fd: i32) -> Option<&mut Entry> {
        self.fds.get_mut((fd - BASE) as usize).and_then(|e| e.as_mut())
    }
    pub fn udp(&mut self, fd: i32) -> Option<&mut Udp> {
        match self.get(fd) {
            Some(Entry { obj: Obj::Udp(u), .. }) => Some(u),
            _ => None,
        }
    }
    pub fn stream(&mut self, fd: i32) -> Option<&mut Stream> {
        match self.get(fd) {
            Some(Entry { obj: Obj::Stream(s), .. }) => Some(s),
            _ => None,
        }
    }
    pub fn listener(&mut self, fd: i32) -> Option<&mut Listener> {
        match self.get(fd) {
            Some(Entry { obj: Obj::UnixListener(l), .. }) => Some(l),
            _ => None,
        }
    }
    pub fn tcp_listener(&mut self, fd: i32) -> Option<&mut TcpListener> {
        match self.get(fd) {
            Some(Entry { obj: Obj::TcpListener(l), .. }) => Some(l),
            _ => None,
        }
    }
    pub fn poll(&mut self, fd: i32) -> Option<&mut Vec<Registration>> {
        match self.get(fd) {
            Some(Entry { obj: Obj::Poll(p), .. }) => Some(p),
            _ => None,
        }
    }
    /// The bound UDP sockets.
    pub fn udp_sockets(&self) -> Vec<i32> {
        self.fds.iter().enumerate().filter(|(_, e)| matches!(e, Some(Entry { obj: Obj::Udp(_), .. }))).map(|(i, _)| i as i32 + BASE).collect()
    }
    /// Where the program takes datagrams and connections.
    pub fn local(&self) -> Vec<SocketAddr> {
        self.fds
            .iter()
            .flatten()
            .filter_map(|e| match &e.obj {
                Obj::Udp(u) => Some(u.local),
                Obj::TcpListener(l) => Some(l.local),
                _ => None,
            })
            .collect()
    }
    pub fn tcp_listeners(&self) -> Vec<i32> {
        self.fds.iter().enumerate().filter(|(_, e)| matches!(e, Some(Entry { obj: Obj::TcpListener(_), .. }))).map(|(i, _)| i as i32 + BASE).collect()
    }
    pub fn open_of(&self, owner: &str) -> usize {
        self.fds.iter().flatten().filter(|e| e.owner == owner).count()
    }
    pub fn bump(&mut self, fd: i32) {
        if let Some(e) = self.get(fd) {
            e.edge += 1;
        }
    }
    pub fn readable(&mut self, fd: i32) -> bool {
        match self.get(fd).map(|e| &e.obj) {
            None => true,
            Some(Obj::Udp(u)) => !u.inbox.is_empty(),
            Some(Obj::UnixListener(l)) => !l.backlog.is_empty(),
            Some(Obj::Stream(s)) => !s.inbox.is_empty() || s.eof,
            Some(Obj::TcpListener(l)) => !l.backlog.is_empty(),
            Some(Obj::TcpStream(_)) => false,
            Some(Obj::Event) => true,
            Some(Obj::Poll(_)) => false,
        }
    }
    pub fn close(&mut self, fd: i32) {
        let Some(slot) = self.fds.get_mut((fd - BASE) as usize) else { return };
        let Some(e) = slot.take() else { return };
        match e.obj {
            Obj::Stream(s) => {
                if let Some(p) = s.peer {
                    if let Some(o) = self.stream(p) {
                        o.eof = true;
                        o.peer = None;
                    }
                    self.bump(p);
                }
            }
            Obj::UnixListener(l) => {
                if self.unix.get(&l.path) == Some(&fd) {
                    self.unix.remove(&l.path);
                }
                for s in l.backlog {
                    self.close(s);
                }
            }
            _ => (),
        }
        // closing removes a descriptor from every wait queue
        for e in self.fds.iter_mut().flatten() {
            if let Obj::Poll(p) = &mut e.obj {
                p.retain(|r| r.fd != fd);
            }
        }
    }
    /// The operating system's part of a process' death.
    pub fn process_died(&mut self) {
        for i in 0..self.fds.len() {
            if self.fds[i].as_ref().is_some_and(|e| e.owner == "program") {
                self.close(i as i32 + BASE);
            }
        }
        self.handler = None;
    }
    /// A datagram from the network.
    pub fn datagram(&mut self, fd: i32, from: SocketAddr, data: Vec<u8>, id: u64) -> bool {
        match self.udp(fd) {
            Some(u) => {
                u.inbox.push_back((from, data, id));
                self.bump(fd);
                true
            }
            None => false,
        }
    }
    pub fn tcp_arrival(&mut self, fd: i32, from: SocketAddr) -> bool {
        match self.tcp_listener(fd) {
            Some(l) => {
                l.backlog.push_back(from);
                self.bump(fd);
                true
            }
            None => false,
        }
    }
}

/// Closes a descriptor when its handle goes.
pub fn close(fd: i32) {
    if let Some(w) = crate::rt::try_world() {
        if w.get(fd).is_some() {
            rt::point("close");
            crate::rt::world().close(fd);
        }
    }
}

/// One of the given failures instead of success, if the scenario allows faults here.
pub fn fault(on: bool, what: &'static str, errors: &[i32]) -> io::Result<()> {
    if !on {
        return Ok(());
    }
    match choose(what, errors.len() + 1, Cost::Fault) {
        0 => Ok(()),
        i => {
            let e = io::Error::from_raw_os_error(errors[i - 1]);
            rt::note(|| format!("{} fails: {}", what, e));
            crate::rt::world().injected.push(what);
            Err(e)
        }
    }
}

/// Level-triggered wait on descriptors with the interests (readable, writable): what is ready, or None on time-out.
pub fn wait_level(list: Vec<(i32, bool, bool)>, timeout: Option<u64>, early: bool) -> Option<Vec<(usize, bool, bool)>> {
    let ready = move || -> Vec<(usize, bool, bool)> {
        let w = crate::rt::world();
        list.iter()
            .enumerate()
            .filter_map(|(i, (fd, r, wr))| {
                let rr = *r && w.readable(*fd);
                if rr || *wr { Some((i, rr, *wr)) } else { None }
            })
            .collect()
    };
    let r2 = ready.clone();
    let deadline = timeout.map(|t| rt::now() + t);
    if rt::block("readiness", deadline, early, move || !r2().is_empty()) { Some(ready()) } else { None }
}
