//! C18–C22: long histories, one schedule each: nothing the nodes do depends on how much they did before.
use crate::sys::{show, sound, Job};
use crate::udp::{is_opening, keys, PORT, SIZE, TEMPLATES};
use mcx::Ctx;
use std::cell::RefCell;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::rc::Rc;
use vmc_std::rt::{self, Limits, Rt, SECOND};
use vmc_std::sync::atomic::{AtomicBool, Ordering};
use vmc_std::sync::Arc;
use vmc_std::world::{Faults, World};
use vru_session::handshake::Identity;
use vru_udp::{Command, Error, Event, LocalCommand, Node};

fn limits() -> Limits {
    Limits { max_steps: 50_000_000, delay_bounded: true, strict: true, ..Limits::default() }
}

fn addr(i: usize) -> SocketAddr {
    if i % 5 == 4 {
        return format!("[fe80::{:x}]:{}", 1 + i, 2000 + i % 3).parse().unwrap();
    }
    ([10, 1, (i / 2 >> 8) as u8, (i / 2) as u8], 2000 + (i % 2) as u16).into()
}
fn id(i: usize) -> Identity {
    let mut b = [0x31; 33];
    b[0] = 0;
    b[1..3].copy_from_slice(&(i as u16).to_be_bytes());
    base64::encode(b).parse().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    /// ask for a connection to this address and identity
    Connect(usize, usize),
    Local(usize),
    /// a datagram from this address of this length, for the connection of that number if there is one
    Arrive(usize, usize, usize),
}
use Do::*;
const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Reading {
    /// only after the node has ended
    AfterEnd,
    /// just before the node is stopped
    BeforeStop,
    /// nobody ever reads
    Never,
    /// nobody can
    Dropped,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Said {
    Size(SocketAddr, usize),
    Failed(SocketAddr),
    Unknown(SocketAddr),
    Conn(SocketAddr),
    Other(String),
}

/// The token of the n-th connection, if tokens are drawn when this crate thinks they are.
fn token(n: usize) -> [u8; 16] {
    let v = (0x0102 + n as u16).to_le_bytes();
    let mut t = [0; 16];
    t.chunks_mut(2).for_each(|c| c.copy_from_slice(&v));
    t
}

#[derive(Default)]
struct Seen {
    events: Vec<Said>,
    served: bool,
    joined: bool,
    disconnected: bool,
    left: Vec<(String, &'static str)>,
}

/// Phases are separated by a pause; within a phase everything comes at once.
fn job(what: &str, phases: Vec<Vec<Do>>, reading: Reading, effects: bool) -> Job {
    let how = match reading {
        Reading::AfterEnd => "read after the end",
        Reading::BeforeStop => "read before the stop",
        Reading::Never => "not read",
        Reading::Dropped => "nobody reads",
    };
    let most = phases.iter().flatten().map(|d| match d { Connect(a, _) | Arrive(a, ..) => *a, Local(_) => 0 }).max().unwrap_or(0);
    Job {
        key: format!("long: {}, {}", what, how),
        limits: limits(),
        world: Box::new(|| World {
            random_high: 1,
            on_send: Some(|w| {
                let v = u16::from_le_bytes([w.random, w.random_high]) + 1;
                [w.random, w.random_high] = v.to_le_bytes();
            }),
            ..World::default()
        }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let seen: Rc<RefCell<Seen>> = Rc::default();
            let (s, p) = (seen.clone(), phases.clone());
            let end = rt.run("user", true, false, move || {
                let (sk, pk) = keys();
                let running = Arc::new(AtomicBool::new(true));
                let Ok((node, reader)) = Node::spawn(sk, pk, PORT, running.clone()) else { return };
                let mut reader = Some(reader).filter(|_| reading != Reading::Dropped);
                let fd = rt::world().udp_sockets()[0];
                let mut texts: HashMap<String, Said> = HashMap::new();
                let t = TEMPLATES.get().unwrap();
                for i in 0..=most {
                    let a = addr(i);
                    texts.insert(t.unknown.replace("{}", &a.to_string()), Said::Unknown(a));
                    if let Some(c) = &t.conn {
                        texts.insert(c.replace("{}", &a.to_string()), Said::Conn(a));
                    }
                }
                let class = |e: Event| match e {
                    Event::Error(Error::FrameSize(a, n)) => Said::Size(a, n),
                    Event::Error(Error::ConnectionFailed(a)) => Said::Failed(a),
                    Event::Info(s) => texts.get(&s).cloned().unwrap_or(Said::Other(s)),
                    e => Said::Other(format!("{:?}", e)),
                };
                let mut n = 0;
                for phase in &p {
                    rt::settle();
                    for x in phase {
                        match *x {
                            Connect(a, i) => node.command(Command::Connect { peer_pi: id(i), address: addr(a) }),
                            Local(i) => node.command(Command::Local { destination: id(i), command: LocalCommand::SendText("text".into()) }),
                            Arrive(a, size, conn) => {
                                let mut b = vec![0xEE; size];
                                if conn != NONE {
                                    b[..16].copy_from_slice(&token(conn));
                                }
                                rt::world().datagram(fd, addr(a), b, n);
                                n += 1;
                            }
                        }
                    }
                }
                rt::settle();
                s.borrow_mut().served = rt::world().taken.len() as u64 == n;
                if reading == Reading::BeforeStop {
                    while let Ok(Some(e)) = reader.as_ref().unwrap().try_recv() {
                        s.borrow_mut().events.push(class(e));
                    }
                }
                running.store(false, Ordering::Release);
                node.join();
                s.borrow_mut().joined = true;
                s.borrow_mut().left = rt::program_threads();
                if reading == Reading::Never {
                    reader.take();
                }
                if let Some(r) = reader {
                    while let Ok(e) = r.recv() {
                        s.borrow_mut().events.push(class(e));
                    }
                    s.borrow_mut().disconnected = r.try_recv().is_err();
                }
            });
            sound(rt, &end)?;
            let seen = seen.borrow();
            if !seen.served {
                return Err("not all datagrams were taken although nobody stopped the node".into());
            }
            if !seen.joined {
                return Err("the script did not end".into());
            }
            if !seen.left.is_empty() {
                return Err(format!("after join there are still threads: {}", show(&seen.left)));
            }
            let reads = matches!(reading, Reading::AfterEnd | Reading::BeforeStop);
            if reads && !seen.disconnected {
                return Err("after the last event the reader is not told that the node is gone".into());
            }
            if !effects {
                return Ok(format!("{} datagrams", rt.world.taken.len()));
            }
            // what has to happen
            let mut pending: HashMap<SocketAddr, Identity> = HashMap::new();
            let mut opened: Vec<(SocketAddr, Identity)> = vec![];
            let mut want: Vec<Said> = vec![];
            let mut conn: HashMap<SocketAddr, (usize, usize)> = HashMap::new();
            for x in phases.iter().flatten() {
                match *x {
                    Connect(a, i) => {
                        if pending.contains_key(&addr(a)) {
                            want.push(Said::Failed(addr(a)));
                        } else {
                            pending.insert(addr(a), id(i));
                        }
                    }
                    Local(_) => (),
                    Arrive(a, size, n) => {
                        let from = addr(a);
                        if size != SIZE {
                            want.push(Said::Size(from, size));
                        } else if n != NONE && n < opened.len() {
                            conn.entry(from).or_default().0 += 1;
                        } else if let Some(i) = pending.remove(&from) {
                            opened.push((from, i));
                            conn.entry(from).or_default().1 += 1;
                        } else {
                            want.push(Said::Unknown(from));
                        }
                    }
                }
            }
            let sent = &rt.world.sent;
            if sent.len() != opened.len() || sent.iter().zip(&opened).any(|(m, o)| m.to != o.0 || !is_opening(&m.data)) {
                return Err(format!("{} openings are due, {} datagrams were sent, or to others", opened.len(), sent.len()));
            }
            for (m, o) in sent.iter().zip(&opened) {
                let mut made = rt.world.openings.iter().filter(|x| m.data.starts_with(&x.1)).peekable();
                if made.peek().is_some() && !made.any(|x| x.0 == o.1.as_ref()) {
                    return Err(format!("the opening for {} was made for another identity", o.0));
                }
            }
            if reads {
                let mut got: HashMap<SocketAddr, usize> = HashMap::new();
                let mut main = vec![];
                for e in &seen.events {
                    match e {
                        Said::Conn(a) => *got.entry(*a).or_default() += 1,
                        Said::Other(s) => return Err(format!("an event nobody caused: {}", s)),
                        e => main.push(e.clone()),
                    }
                }
                // a datagram longer than expected need not be measured
                let same = |a: &Said, b: &Said| a == b || matches!((a, b), (Said::Size(x, m), Said::Size(y, n)) if x == y && *m > SIZE && *n > SIZE);
                if main.len() != want.len() || main.iter().zip(&want).any(|(a, b)| !same(a, b)) {
                    let at = main.iter().zip(&want).take_while(|(a, b)| same(a, b)).count();
                    return Err(format!("{} events are due and {} were read; the first difference is at {}: {:?} instead of {:?}", want.len(), main.len(), at, main.get(at), want.get(at)));
                }
                for (a, (given, starts)) in &conn {
                    let n = got.remove(a).unwrap_or(0);
                    if n < *given || n > given + starts {
                        return Err(format!("the connections were given {} datagrams from {} and {} of their starts, {} were reported", given, a, starts, n));
                    }
                }
                if let Some((a, _)) = got.iter().next() {
                    return Err(format!("a connection reports a datagram from {} which was not for it", a));
                }
            }
            Ok(format!("{} datagrams, {} connections", rt.world.taken.len(), opened.len()))
        }),
    }
}

pub fn udp(ctx: &Ctx) -> Vec<Job> {
    let effects = ctx.id != "C18";
    let n = ctx.tier(3000, 20_000);
    let c = ctx.tier(400, 2000);
    let drawn = TEMPLATES.get().is_some_and(|t| t.drawn);
    let mut jobs = vec![];
    for reading in [Reading::AfterEnd, Reading::BeforeStop, Reading::Never, Reading::Dropped] {
        let mut add = |what: &str, phases: Vec<Vec<Do>>| jobs.push(job(what, phases, reading, effects));
        add(&format!("{} unknown senders", n), vec![(0..n).map(|i| Arrive(i, SIZE, NONE)).collect()]);
        add(&format!("{} unknown datagrams of one sender", n), (0..n).map(|_| vec![Arrive(1, SIZE, NONE)]).collect());
        add(&format!("{} wrong sizes", n), vec![(0..n).map(|i| Arrive(i % 7, i % 1280, NONE)).collect(), (0..n / 10).map(|i| Arrive(i % 7, 1281 + i, NONE)).collect()]);
        add(
            &format!("{} requests, each twice, and a datagram of every second", n),
            vec![
                (0..n).map(|i| Connect(i, i)).collect(),
                (0..n).map(|i| Connect(i, i + 1)).collect(),
                (0..c).map(|i| Arrive(2 * i, SIZE, NONE)).collect(),
                (0..c).map(|i| Arrive(2 * i, SIZE, NONE)).collect(),
            ],
        );
        // connections to one host and identity, made, used and made again
        let used: Vec<Do> = if drawn { (0..c).flat_map(|i| [Arrive(i, SIZE, i), Arrive((i + 1) % c, SIZE, i), Arrive(c, SIZE, i)]).collect() } else { vec![] };
        let connect = |first: usize, to: usize| -> Vec<Vec<Do>> { vec![(first..to).map(|i| Connect(i, i)).collect(), (first..to).map(|i| Arrive(i, SIZE, NONE)).collect()] };
        let mut phases = connect(0, c);
        phases.push(used.clone());
        phases.push((0..c).map(Local).collect());
        phases.push((0..c).map(Local).collect());
        phases.push(used.clone());
        phases.push((0..c).map(|i| Arrive(i, SIZE, NONE)).collect());
        add(&format!("{} connections", c), phases);
        let mut phases = vec![];
        for i in 0..c {
            phases.push(vec![Connect(3, 5)]);
            phases.push(vec![Arrive(3, SIZE, NONE)]);
            phases.push(vec![Local(5), Local(i)]);
            phases.push(vec![Arrive(3, SIZE, NONE)]);
            if drawn {
                phases.push(vec![Arrive(3, SIZE, i), Arrive(7, SIZE, i / 2)]);
            }
        }
        add(&format!("{} connections with one peer", c), phases);
        let mut phases = connect(0, 2);
        phases.push((0..n).map(|i| Local(i % 3)).collect());
        if drawn {
            phases.push((0..n).map(|i| Arrive(i % 5, SIZE, i % 2)).collect());
            phases.push((0..n).flat_map(|i| [Local(i % 3), Arrive(i % 5, SIZE, i % 2)]).collect());
        }
        phases.push(vec![Connect(9, 9)]);
        phases.push(vec![Arrive(9, SIZE, NONE)]);
        add(&format!("{} commands and datagrams of two connections", n), phases);
    }
    jobs
}

fn tcp_job(what: &str, to: Vec<usize>, refuse: fn(usize) -> bool, clear: bool, reading: Reading) -> Job {
    use vru_session::{Command, Event, Node as _, NodeRef as _};
    use vru_tcp::NodeError;
    Job {
        key: format!("long: tcp, {} connects{}, {}", what, if clear { ", flag cleared" } else { "" }, match reading {
            Reading::AfterEnd => "read after the end",
            Reading::BeforeStop => "read before the stop",
            Reading::Never => "not read",
            Reading::Dropped => "nobody reads",
        }),
        limits: limits(),
        world: Box::new(move || World { faults: Faults::default(), unreachable: (0..64).filter(|i| refuse(*i)).map(|i| (addr(i), 100 + i as i32)).collect(), ..World::default() }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let seen: Rc<RefCell<Seen>> = Rc::default();
            let got: Rc<RefCell<Vec<i32>>> = Rc::default();
            let (s, g, t) = (seen.clone(), got.clone(), to.clone());
            let end = rt.run("user", true, false, move || {
                let running = Arc::new(AtomicBool::new(true));
                let Ok((node, reader)) = crate::tcp::start(&running) else { return };
                let mut reader = Some(reader).filter(|_| reading != Reading::Dropped);
                for i in &t {
                    node.command(Command::Connect { peer_pi: crate::tcp::id(), address: addr(*i) });
                }
                rt::settle();
                rt::sleep(100 * SECOND + 7);
                s.borrow_mut().served = rt::program_threads().len() > 0;
                let take = |e| {
                    if let Event::Error(NodeError::Io(e)) = e {
                        g.borrow_mut().push(e.raw_os_error().unwrap_or(0));
                    }
                };
                if reading == Reading::BeforeStop {
                    while let Ok(Some(e)) = reader.as_ref().unwrap().try_recv() {
                        take(e);
                    }
                }
                if clear {
                    running.store(false, Ordering::Release);
                }
                node.join();
                s.borrow_mut().joined = true;
                s.borrow_mut().left = rt::program_threads();
                if reading == Reading::Never {
                    reader.take();
                }
                if let Some(r) = reader {
                    while let Ok(e) = r.recv() {
                        take(e);
                    }
                    s.borrow_mut().disconnected = r.try_recv().is_err();
                }
            });
            sound(rt, &end)?;
            let seen = seen.borrow();
            if !seen.served {
                return Err("the node ended although nobody stopped it".into());
            }
            if !seen.joined {
                return Err("the script did not end".into());
            }
            if !seen.left.is_empty() {
                return Err(format!("threads that outlive the node: {}", show(&seen.left)));
            }
            let asked: Vec<SocketAddr> = to.iter().map(|i| addr(*i)).collect();
            let made: Vec<SocketAddr> = rt.world.connects.iter().map(|c| c.0).collect();
            if asked != made {
                return Err(format!("asked for {} connections, {} were made, or to others", asked.len(), made.len()));
            }
            if matches!(reading, Reading::AfterEnd | Reading::BeforeStop) {
                let want: Vec<i32> = to.iter().filter(|i| refuse(**i)).map(|i| 100 + *i as i32).collect();
                if *got.borrow() != want {
                    return Err(format!("{} connects failed, {} failures were read, or others", want.len(), got.borrow().len()));
                }
                if !seen.disconnected {
                    return Err("after the last event the reader is not told that the node is gone".into());
                }
            }
            Ok(format!("{} connects", made.len()))
        }),
    }
}

pub fn tcp(ctx: &Ctx) -> Vec<Job> {
    let n = ctx.tier(3000, 20_000);
    let mut jobs = vec![];
    for reading in [Reading::AfterEnd, Reading::BeforeStop, Reading::Never, Reading::Dropped] {
        for clear in [false, true] {
            jobs.push(tcp_job(&format!("{} failing", n), (0..n).map(|i| i % 60).collect(), |_| true, clear, reading));
            jobs.push(tcp_job(&format!("{} good", n), (0..n).collect(), |_| false, clear, reading));
            jobs.push(tcp_job(&format!("{} mixed", n), (0..n).map(|i| i % 60).collect(), |i| i % 3 == 1, clear, reading));
        }
    }
    jobs
}
