//! C22 and the TCP half of C21: the TCP node under all schedules of commands, stops, wake-ups and failures.
use crate::sys::{budget, run, show, sound, Job};
use crate::udp::keys;
use mcx::Ctx;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;
use vmc_std::rt::{self, Limits, Rt, SECOND};
use vmc_std::sync::atomic::{AtomicBool, Ordering};
use vmc_std::sync::Arc;
use vmc_std::world::{Faults, World};
use vru_session::handshake::Identity;
use vru_session::{Command, Event, Node as _, NodeRef as _};
use vru_tcp::{Node, NodeError, NodeRef};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Connect(char),
    Local,
    In(char),
    Stop,
    Idle,
    DropRef,
}
use Op::*;

/// U and V cannot be connected to.
fn addr(c: char) -> SocketAddr {
    match c {
        'A' => "10.0.0.1:1001",
        'B' => "[fe80::1]:1002",
        'U' => "10.0.0.3:1",
        'V' => "10.0.0.4:1",
        _ => "10.9.9.9:9",
    }
    .parse()
    .unwrap()
}
fn errno(a: SocketAddr) -> i32 {
    if a == addr('U') { 113 } else { 111 }
}
pub fn id() -> Identity {
    let mut b = [7; 33];
    b[0] = 0;
    base64::encode(b).parse().unwrap()
}
fn world(faults: Faults) -> World {
    World { faults, unreachable: ['U', 'V'].iter().map(|c| (addr(*c), errno(addr(*c)))).collect(), ..World::default() }
}

#[derive(Default)]
struct Out {
    refused: bool,
    connects: Vec<SocketAddr>,
    errors: Vec<Option<i32>>,
    other: Vec<String>,
    reader: bool,
    ran: bool,
    ended: bool,
    stop_seconds: u64,
    joined: bool,
    /// where it takes connections
    local: Vec<SocketAddr>,
    left: Vec<(String, &'static str)>,
    disconnected: bool,
}

#[derive(Clone)]
struct Scenario {
    script: Vec<Op>,
    limits: Limits,
    faults: Faults,
    /// The flag is cleared by another thread at any time.
    async_stop: bool,
    /// The flag is cleared before joining.
    flag: bool,
}

fn take(out: &Rc<RefCell<Out>>, e: Event<NodeError>) {
    rt::note(|| format!("event {:?}", e));
    match e {
        Event::Error(NodeError::Io(e)) => out.borrow_mut().errors.push(e.raw_os_error()),
        e => out.borrow_mut().other.push(format!("{:?}", e)),
    }
}

const AT: &str = "10.1.2.3:4711";
pub fn start(running: &Arc<AtomicBool>) -> Result<(Node<()>, NodeRef), NodeError> {
    let (sk, pk) = keys();
    Node::<()>::spawn(sk, pk, AT.parse().unwrap(), (), running.clone())
}

fn drive(sc: &Scenario, out: &Rc<RefCell<Out>>) {
    let running = Arc::new(AtomicBool::new(true));
    let (node, reader) = match start(&running) {
        Ok(x) => x,
        Err(_) => {
            out.borrow_mut().refused = true;
            out.borrow_mut().left = rt::program_threads();
            return;
        }
    };
    let mut reader = Some(reader);
    out.borrow_mut().local = rt::world().local();
    let fd = rt::world().tcp_listeners()[0];
    if sc.async_stop {
        let r = running.clone();
        rt::spawn("stopper".into(), true, move || {
            rt::free_point("about to stop");
            r.store(false, Ordering::Release);
        });
    }
    let mut stopped = false;
    for op in &sc.script {
        rt::free_point("next step of the script");
        match *op {
            Connect(a) => {
                out.borrow_mut().connects.push(addr(a));
                node.command(Command::Connect { peer_pi: id(), address: addr(a) });
            }
            Local => node.command(Command::Local { destination: id(), command: vec![1, 2, 3] }),
            In(a) => {
                rt::world().tcp_arrival(fd, addr(a));
            }
            Stop => {
                stopped = true;
                running.store(false, Ordering::Release);
            }
            Idle => rt::sleep(3 * SECOND + 1),
            DropRef => drop(reader.take()),
        }
    }
    out.borrow_mut().reader = reader.is_some();
    if stopped {
        // it ends without being joined
        rt::sleep(10 * SECOND);
        out.borrow_mut().ended = rt::program_threads().is_empty();
    } else if !sc.async_stop {
        rt::settle();
        rt::sleep(30 * SECOND);
        out.borrow_mut().ran = !rt::program_threads().is_empty();
    }
    if sc.flag {
        rt::free_point("stop");
        running.store(false, Ordering::Release);
    }
    let t = rt::now();
    node.join();
    out.borrow_mut().stop_seconds = (rt::now() - t) / SECOND;
    out.borrow_mut().joined = true;
    out.borrow_mut().left = rt::program_threads();
    if let Some(r) = reader {
        while let Ok(e) = r.recv() {
            take(out, e);
        }
        out.borrow_mut().disconnected = r.try_recv().is_err();
    }
}

/// The reported failures are those that happened: each failed connect once and in order, the others at most once.
fn errors(out: &Out, w: &World) -> Result<(), String> {
    if let Some(s) = out.other.first() {
        return Err(format!("an event nobody caused: {}", s));
    }
    let failed: Vec<i32> = w.connects.iter().filter(|c| !c.1).map(|c| if w.unreachable.contains_key(&c.0) { errno(c.0) } else { 101 }).collect();
    let got: Vec<i32> = out.errors.iter().map(|e| e.unwrap_or(0)).collect();
    let of_connect: Vec<i32> = got.iter().cloned().filter(|e| [101, 111, 113].contains(e)).collect();
    if of_connect != failed {
        return Err(format!("connects failed with {:?}, reported were {:?}", failed, of_connect));
    }
    let rest = got.len() - of_connect.len();
    let injected = w.injected.iter().filter(|x| ["poll", "interrupt of poll", "accept"].contains(x)).count();
    // an accepted connection that nobody waits for any more is at most one more error
    if rest > injected + got.iter().filter(|e| **e == 0).count() {
        return Err(format!("{} failures reported, {} happened", rest, injected));
    }
    Ok(())
}

fn job(sc: Scenario) -> Job {
    let names: Vec<String> = sc
        .script
        .iter()
        .map(|o| match o {
            Connect(c) => format!("connect({})", c),
            Local => "local".into(),
            In(c) => format!("incoming({})", c),
            Stop => "stop".into(),
            Idle => "idle".into(),
            DropRef => "drop-reader".into(),
        })
        .collect();
    let key = format!(
        "{}{}{} [p{} f{}]",
        names.join(" "),
        if sc.async_stop { " || stop" } else { "" },
        if sc.flag { " clear" } else { "" },
        sc.limits.budget.preempt,
        sc.limits.budget.fault
    );
    let faults = sc.faults;
    Job {
        key,
        limits: sc.limits.clone(),
        world: Box::new(move || world(faults)),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let out = Rc::new(RefCell::new(Out::default()));
            let (o, s) = (out.clone(), sc.clone());
            let end = rt.run("user", true, false, move || drive(&s, &o));
            sound(rt, &end)?;
            let out = out.borrow();
            if !out.left.is_empty() {
                return Err(format!("threads that outlive the node: {}", show(&out.left)));
            }
            if out.refused {
                if !rt.world.injected.contains(&"bind") {
                    return Err("the node could not be started although nothing failed".into());
                }
                return Ok("not started".into());
            }
            if out.local != [AT.parse().unwrap()] {
                return Err(format!("told to listen at {}, the node listens at {:?}", AT, out.local));
            }
            if !out.joined {
                return Err("the script did not end".into());
            }
            let stopped = sc.script.contains(&Stop);
            if stopped && !out.ended {
                return Err("10 s after the flag was cleared the node's thread is still there".into());
            }
            if !stopped && !sc.async_stop && !out.ran {
                return Err("the node ended although nobody stopped it".into());
            }
            if out.stop_seconds > 10 {
                return Err(format!("join took {} s", out.stop_seconds));
            }
            let to: Vec<SocketAddr> = rt.world.connects.iter().map(|c| c.0).collect();
            if to != out.connects {
                return Err(format!("asked to connect to {:?}, connected to {:?}", out.connects, to));
            }
            if out.reader {
                if !out.disconnected {
                    return Err("after the last event the reader is not told that the node is gone".into());
                }
                errors(&out, &rt.world)?;
            }
            Ok(format!("connects {} errors {:?}", to.len(), out.errors))
        }),
    }
}

fn words<T: Copy>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<T>| alphabet.iter().map(move |o| w.iter().cloned().chain([*o]).collect())).collect();
    }
    v
}

pub fn check(ctx: &Ctx) {
    ctx.assume("sequentially consistent memory; threads are switched at synchronisation, channel, socket and time operations only");
    ctx.assume("mio is modelled: edge-triggered, a time-out is a success without events; connections are only opened, not used");
    let mut scs = vec![];
    let all = Faults { poll: true, interrupt: true, accept: true, connect: true, bind: true, ..Faults::default() };
    let ops = [Connect('A'), Connect('B'), Connect('U'), Local, In('A'), Idle, DropRef, Stop];
    for n in 0..=ctx.tier(3, 5) {
        for w in words(&ops, n) {
            for flag in [false, true] {
                for async_stop in [false, true] {
                    let p = if n <= ctx.tier(2, 3) { 2 } else if n <= 4 { 1 } else { 0 };
                    scs.push(Scenario { script: w.clone(), limits: budget(p, 0, 0), faults: Faults::default(), async_stop, flag });
                    let f = if n <= 1 { ctx.tier(2, 3) } else { 1 };
                    if n <= ctx.tier(2, 3) {
                        scs.push(Scenario { script: w.clone(), limits: budget(1, f, 0), faults: all, async_stop, flag });
                    }
                }
            }
        }
    }
    // many wake-ups and idle rounds
    for k in 2..=5 {
        scs.push(Scenario { script: vec![Idle; k], limits: budget(1, 1, 0), faults: all, async_stop: false, flag: false });
    }
    let jobs: Vec<Job> = scs.into_iter().map(job).collect();
    run(ctx, "long histories", &crate::volume::tcp(ctx), 1000);
    run(ctx, "schedules of the node", &jobs, 200_000_000);
}

/// C21: another thread reads.
pub fn readers(mix: &[bool], script: &[char], p: u32, spin: bool) -> Job {
    let (mix, script) = (mix.to_vec(), script.to_vec());
    let key = format!("tcp {} read by {}{}", script.iter().collect::<String>(), crate::reads::mix_name(&mix), if spin { "t*" } else { "r*" });
    Job {
        key: format!("{} [p{}]", key, p),
        limits: budget(p, 0, 0),
        world: Box::new(|| world(Faults::default())),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let got: Rc<RefCell<Vec<Option<i32>>>> = Rc::default();
            let bad: Rc<RefCell<Option<String>>> = Rc::default();
            let (g, b, s, m) = (got.clone(), bad.clone(), script.clone(), mix.clone());
            let end = rt.run("user", true, true, move || {
                let running = Arc::new(AtomicBool::new(true));
                let Ok((node, reader)) = start(&running) else { return };
                let gone = Rc::new(RefCell::new(false));
                let g2 = gone.clone();
                rt::spawn("reader".into(), true, move || {
                    crate::reads::read(
                        &m,
                        spin,
                        &b,
                        &g2,
                        || reader.recv().ok().map(|e| (e, 0)),
                        || reader.try_recv().ok(),
                        |e| {
                            let Event::Error(NodeError::Io(e)) = e else { return };
                            g.borrow_mut().push(e.raw_os_error());
                        },
                    );
                });
                for c in &s {
                    rt::free_point("next step of the script");
                    match c {
                        'i' => rt::sleep(SECOND),
                        c => node.command(Command::Connect { peer_pi: id(), address: addr(*c) }),
                    }
                }
                rt::free_point("stop");
                *gone.borrow_mut() = true;
                running.store(false, Ordering::Release);
                node.join();
            });
            sound(rt, &end)?;
            if let Some(b) = bad.borrow().as_ref() {
                return Err(b.clone());
            }
            let want: Vec<Option<i32>> = script.iter().filter(|c| ['U', 'V'].contains(c)).map(|c| Some(errno(addr(*c)))).collect();
            if *got.borrow() != want {
                return Err(format!("reported {:?}, read {:?}", want, got.borrow()));
            }
            Ok(format!("tcp {} events", want.len()))
        }),
    }
}
