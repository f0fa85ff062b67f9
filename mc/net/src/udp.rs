//! C18, C19, C20: the UDP node under all schedules of scripts of commands and datagrams.
use crate::sys::{budget, run, show, sound, Job};
use mcx::Ctx;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::net::SocketAddr;
use std::rc::Rc;
use std::sync::OnceLock;
use vmc_std::rt::{self, Limits, Rt, SECOND};
use vmc_std::sync::atomic::{AtomicBool, Ordering};
use vmc_std::sync::Arc;
use vmc_std::world::{Faults, World};
use vru_session::handshake::{Identity, PublicKey, SecretKey};
use vru_udp::{Command, Error, Event, LocalCommand, Node};

pub const SIZE: usize = 1280;
const LONG: &str = match std::str::from_utf8(&[b'a'; 70_000]) {
    Ok(s) => s,
    Err(_) => panic!(),
};
pub const PORT: u16 = 4711;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    /// sixteen equal bytes
    Is(u8),
    /// the same with this bit changed
    Near(u8, usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Connect(char, char),
    Local(char),
    LocalText(char, &'static str),
    Dg(char, usize, Tok),
    Stop,
    DropRef,
    Idle,
}
use Op::*;

fn addr(c: char) -> SocketAddr {
    match c {
        'A' => "10.0.0.1:1001",
        'B' => "10.0.0.1:1002",
        'C' => "10.0.0.2:1001",
        'S' => "[fe80::1]:1001",
        _ => "10.9.9.9:9",
    }
    .parse()
    .unwrap()
}
fn id(c: char) -> Identity {
    static IDS: OnceLock<BTreeMap<char, Identity>> = OnceLock::new();
    IDS.get_or_init(|| {
        ['X', 'Y', 'Z']
            .iter()
            .map(|c| {
                let mut b = [*c as u8; 33];
                b[0] = 0;
                (*c, base64::encode(b).parse().unwrap())
            })
            .collect()
    })[&c]
        .clone()
}
pub fn keys() -> (SecretKey, PublicKey) {
    static K: OnceLock<(SecretKey, PublicKey)> = OnceLock::new();
    let (s, p) = K.get_or_init(|| {
        let mut seed = rac::Array::default();
        seed.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8);
        let (p, s) = PublicKey::gen(&seed);
        (s, p)
    });
    (s.clone(), p.clone())
}
fn d(c: char) -> Op {
    Dg(c, SIZE, Tok::Is(0xEE))
}
fn t(c: char, b: u8) -> Op {
    Dg(c, SIZE, Tok::Is(b))
}
fn bytes(size: usize, tok: Tok) -> Vec<u8> {
    let mut v = vec![0x5A; size];
    for (i, x) in v.iter_mut().take(16).enumerate() {
        *x = match tok {
            Tok::Is(b) => b,
            Tok::Near(b, at) => {
                if i == at / 8 {
                    b ^ 1 << (at % 8)
                } else {
                    b
                }
            }
        };
    }
    v
}
pub fn name(script: &[Op]) -> String {
    script
        .iter()
        .map(|o| match o {
            Connect(a, i) => format!("connect({},{})", a, i),
            Local(i) => format!("local({})", i),
            LocalText(i, t) => format!("local({},{} bytes)", i, t.len()),
            Dg(a, SIZE, Tok::Is(0xEE)) => format!("datagram({})", a),
            Dg(a, s, Tok::Is(0xEE)) => format!("datagram({},{} bytes)", a, s),
            Dg(a, SIZE, t) => format!("datagram({},{:?})", a, t),
            Dg(a, s, t) => format!("datagram({},{} bytes,{:?})", a, s, t),
            Stop => "stop".into(),
            DropRef => "drop-reader".into(),
            Idle => "idle".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ev {
    Size(SocketAddr, usize),
    Failed(SocketAddr),
    Read,
    Write(SocketAddr),
    Unknown(SocketAddr),
    Conn(SocketAddr),
    Other(String),
}
pub struct Templates {
    pub unknown: String,
    pub conn: Option<String>,
    /// Tokens are what the node's random generator returned.
    pub drawn: bool,
}
pub static TEMPLATES: OnceLock<Templates> = OnceLock::new();

fn hide(text: &str, a: SocketAddr) -> String {
    text.replace(&a.to_string(), "{}")
}
fn classify(e: &Event) -> Ev {
    match e {
        Event::Error(Error::FrameSize(a, n)) => Ev::Size(*a, *n),
        Event::Error(Error::ConnectionFailed(a)) => Ev::Failed(*a),
        Event::Error(Error::ReadSocket(_)) => Ev::Read,
        Event::Error(Error::WriteTo(a, _)) => Ev::Write(*a),
        Event::Info(s) => {
            if let Some(t) = TEMPLATES.get() {
                for c in ['A', 'B', 'C', 'P', 'S'] {
                    let h = hide(s, addr(c));
                    if h != *s && h == t.unknown {
                        return Ev::Unknown(addr(c));
                    }
                    if h != *s && Some(&h) == t.conn.as_ref() {
                        return Ev::Conn(addr(c));
                    }
                }
            }
            Ev::Other(s.clone())
        }
        other => Ev::Other(format!("{:?}", other)),
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Connect(SocketAddr, Identity),
    Arrive(u64, SocketAddr, usize, Tok),
}

#[derive(Default)]
pub struct Out {
    started: bool,
    refused: bool,
    steps: Vec<Step>,
    events: Vec<(Ev, usize)>,
    reader: bool,
    stopped_early: bool,
    served: bool,
    joined: bool,
    /// where it took datagrams
    local: Vec<SocketAddr>,
    left: Vec<(String, &'static str)>,
    disconnected: bool,
    too_early: bool,
}

#[derive(Clone)]
pub struct Scenario {
    pub script: Vec<Op>,
    pub limits: Limits,
    pub faults: Faults,
    /// The flag is cleared by another thread, whenever the scheduler likes.
    pub async_stop: bool,
    /// The script waits after every step until the node has nothing left to do.
    pub calm: bool,
}

pub fn drive(sc: &Scenario, out: &Rc<RefCell<Out>>) {
    let (sk, pk) = keys();
    let running = Arc::new(AtomicBool::new(true));
    let (node, reader) = match Node::spawn(sk, pk, PORT, running.clone()) {
        Ok(x) => x,
        Err(_) => {
            out.borrow_mut().refused = true;
            out.borrow_mut().left = rt::program_threads();
            return;
        }
    };
    out.borrow_mut().started = true;
    let mut reader = Some(reader);
    out.borrow_mut().local = rt::world().local();
    let fd = rt::world().udp_sockets()[0];
    if sc.async_stop {
        let r = running.clone();
        rt::spawn("stopper".into(), true, move || {
            rt::free_point("about to stop");
            r.store(false, Ordering::Release);
        });
    }
    let mut stopped = false;
    for (i, op) in sc.script.iter().enumerate() {
        if sc.calm {
            rt::settle();
        } else {
            rt::free_point("next step of the script");
        }
        match *op {
            Connect(a, i) => {
                node.command(Command::Connect { peer_pi: id(i), address: addr(a) });
                out.borrow_mut().steps.push(Step::Connect(addr(a), id(i)));
            }
            Local(i) => node.command(Command::Local { destination: id(i), command: LocalCommand::SendText("text".into()) }),
            LocalText(i, t) => node.command(Command::Local { destination: id(i), command: LocalCommand::SendText(t.into()) }),
            Dg(a, size, tok) => {
                if rt::world().datagram(fd, addr(a), bytes(size, tok), i as u64) {
                    rt::note(|| format!("datagram {} of {} bytes from {} arrives", i, size, addr(a)));
                    out.borrow_mut().steps.push(Step::Arrive(i as u64, addr(a), size, tok));
                }
            }
            Stop => {
                stopped = true;
                running.store(false, Ordering::Release);
            }
            DropRef => drop(reader.take()),
            Idle => rt::sleep(7 * SECOND),
        }
    }
    out.borrow_mut().stopped_early = stopped || sc.async_stop;
    out.borrow_mut().reader = reader.is_some();
    let take = |out: &Rc<RefCell<Out>>, e: Event| {
        let from = rt::world().last_sender;
        let e = classify(&e);
        rt::note(|| format!("event {:?}", e));
        out.borrow_mut().events.push((e, from));
    };
    if !stopped && !sc.async_stop {
        // an unhurried node still serves
        rt::settle();
        rt::sleep(5 * SECOND);
        rt::world().faults = Faults::default();
        let n = sc.script.len() as u64;
        if rt::world().datagram(fd, addr('P'), bytes(SIZE, Tok::Is(0xEE)), n) {
            out.borrow_mut().steps.push(Step::Arrive(n, addr('P'), SIZE, Tok::Is(0xEE)));
        }
        rt::settle();
        rt::sleep(5 * SECOND);
        out.borrow_mut().served = rt::world().taken.last() == Some(&n);
        if let Some(r) = &reader {
            loop {
                match r.try_recv() {
                    Ok(Some(e)) => take(out, e),
                    Ok(None) => break,
                    Err(_) => {
                        out.borrow_mut().too_early = true;
                        break;
                    }
                }
            }
        }
        rt::free_point("stop");
        running.store(false, Ordering::Release);
    }
    node.join();
    out.borrow_mut().joined = true;
    out.borrow_mut().left = rt::program_threads();
    if let Some(r) = reader {
        while let Ok(e) = r.recv() {
            take(out, e);
        }
        out.borrow_mut().disconnected = r.try_recv().is_err();
    }
}

fn world(faults: Faults) -> World {
    World { faults, on_send: Some(|w| w.random += 1), ..World::default() }
}

pub fn is_opening(data: &[u8]) -> bool {
    use rac::LineValid;
    if data.len() != SIZE {
        return false;
    }
    vru_session::handshake::xx::Message0::try_clone_array(&rac::Array::clone_from_slice(&data[..1120])).is_ok()
}

struct Model<'a> {
    out: &'a Out,
    world: &'a World,
    taken: &'a [u64],
    main: Vec<&'a Ev>,
    failed: Vec<SocketAddr>,
    conn: BTreeMap<usize, Vec<SocketAddr>>,
    /// The tokens a connection can have which a datagram carries, and those none carries.
    tokens: Vec<u8>,
    others: Vec<u8>,
    dead: RefCell<HashSet<St>>,
}
#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct St {
    step: usize,
    arrived: usize,
    done: usize,
    pending: Vec<(SocketAddr, Identity)>,
    conns: Vec<(u8, Vec<SocketAddr>)>,
    sent: usize,
    main: usize,
    failed: usize,
}
impl Model<'_> {
    /// Is there an order of commands and datagrams that explains everything observed?
    fn explain(&self, s: St) -> bool {
        if self.dead.borrow().contains(&s) {
            return false;
        }
        let ok = self.explain_new(&s);
        if !ok {
            self.dead.borrow_mut().insert(s);
        }
        ok
    }
    fn explain_new(&self, s: &St) -> bool {
        if s.step == self.out.steps.len() && s.done == self.taken.len() {
            return s.sent == self.world.sent.len() && (!self.out.reader || s.main == self.main.len() && s.failed == self.failed.len() && self.conns(s));
        }
        if s.step < self.out.steps.len() {
            let mut n = s.clone();
            n.step += 1;
            let ok = match &self.out.steps[s.step] {
                Step::Arrive(..) => {
                    n.arrived += 1;
                    true
                }
                Step::Connect(a, i) => {
                    if n.pending.iter().any(|p| p.0 == *a) {
                        n.failed += 1;
                        !self.out.reader || self.failed.get(s.failed) == Some(a)
                    } else {
                        n.pending.push((*a, i.clone()));
                        true
                    }
                }
            };
            if ok && self.explain(n) {
                return true;
            }
        }
        if s.done < s.arrived && s.done < self.taken.len() {
            let (from, size, tok) = self
                .out
                .steps
                .iter()
                .find_map(|x| match x {
                    Step::Arrive(i, a, n, t) if *i == self.taken[s.done] => Some((*a, *n, *t)),
                    _ => None,
                })
                .expect("a taken datagram arrived");
            let mut n = s.clone();
            n.done += 1;
            if size != SIZE {
                n.main += 1;
                let ok = match self.main.get(s.main) {
                    Some(Ev::Size(a, len)) => *a == from && if size < SIZE { *len == size } else { *len > SIZE },
                    _ => !self.out.reader,
                };
                return ok && self.explain(n);
            }
            if let Tok::Is(b) = tok {
                if let Some(c) = n.conns.iter_mut().find(|c| c.0 == b) {
                    c.1.push(from);
                    return self.explain(n);
                }
            }
            if let Some(p) = n.pending.iter().position(|p| p.0 == from) {
                let (_, peer) = n.pending.remove(p);
                let Some(m) = self.world.sent.get(s.sent) else { return false };
                if m.to != from || !is_opening(&m.data) || !self.opens_for(&m.data, &peer) {
                    return false;
                }
                n.sent += 1;
                let free = |t: &&u8| n.conns.iter().all(|c| c.0 != **t);
                for t in self.tokens.iter().filter(free).chain(self.others.iter().find(free)) {
                    let mut k = n.clone();
                    k.conns.push((*t, vec![from]));
                    if self.explain(k) {
                        return true;
                    }
                }
                return !m.ok && self.explain(n);
            }
            n.main += 1;
            let ok = !self.out.reader || self.main.get(s.main) == Some(&&Ev::Unknown(from));
            return ok && self.explain(n);
        }
        false
    }
    /// Unless the node made this opening in some other way, it was made for this peer.
    fn opens_for(&self, data: &[u8], peer: &Identity) -> bool {
        let made: Vec<_> = self.world.openings.iter().filter(|o| data.starts_with(&o.1)).collect();
        made.is_empty() || made.iter().any(|o| o.0 == peer.as_ref())
    }
    /// The reports of the connections: for each what it was given, its start reported or not.
    fn conns(&self, s: &St) -> bool {
        if self.conn.len() <= 1 {
            // one thread may serve several connections
            let mut want: Vec<SocketAddr> = s.conns.iter().flat_map(|c| c.1[1..].to_vec()).collect();
            let mut got: Vec<SocketAddr> = self.conn.values().flatten().cloned().collect();
            for c in &s.conns {
                if got.len() > want.len() {
                    want.push(c.1[0]);
                }
            }
            want.sort();
            got.sort();
            return want == got;
        }
        fn assign(cs: &[(u8, Vec<SocketAddr>)], threads: &mut Vec<&Vec<SocketAddr>>) -> bool {
            let Some((c, rest)) = cs.split_first() else { return threads.is_empty() };
            if c.1.len() == 1 && assign(rest, threads) {
                return true;
            }
            for i in 0..threads.len() {
                if *threads[i] == c.1 || threads[i][..] == c.1[1..] {
                    let t = threads.remove(i);
                    let ok = assign(rest, threads);
                    threads.insert(i, t);
                    if ok {
                        return true;
                    }
                }
            }
            false
        }
        assign(&s.conns, &mut self.conn.values().collect())
    }
}

fn judge(out: &Out, w: &World) -> Result<(), String> {
    for (e, _) in &out.events {
        if let Ev::Other(s) = e {
            return Err(format!("an event nobody caused: {}", s));
        }
    }
    let count = |f: &dyn Fn(&Ev) -> bool| out.events.iter().filter(|e| f(&e.0)).count();
    let injected = |n: &[&str]| w.injected.iter().filter(|x| n.contains(x)).count();
    if out.reader {
        let reads = count(&|e| *e == Ev::Read);
        if reads > injected(&["poll", "interrupt of poll", "recv_from"]) {
            return Err(format!("{} receive errors reported, which did not happen", reads));
        }
        let mut writes: Vec<SocketAddr> = out.events.iter().filter_map(|e| if let Ev::Write(a) = e.0 { Some(a) } else { None }).collect();
        let mut failed: Vec<SocketAddr> = w.sent.iter().filter(|s| !s.ok).map(|s| s.to).collect();
        writes.sort();
        failed.sort();
        if writes != failed {
            return Err(format!("send errors reported for {:?}, they happened for {:?}", writes, failed));
        }
    }
    for (i, a) in w.sent.iter().enumerate() {
        for b in &w.sent[..i] {
            if a.data[..1120.min(a.data.len())] == b.data[..1120.min(b.data.len())] {
                return Err("the same opening was sent twice".into());
            }
        }
    }
    let mut conn: BTreeMap<usize, Vec<SocketAddr>> = BTreeMap::new();
    for (e, th) in &out.events {
        if let Ev::Conn(a) = e {
            conn.entry(*th).or_default().push(*a);
        }
    }
    let used: Vec<u8> = out.steps.iter().filter_map(|s| if let Step::Arrive(_, _, SIZE, Tok::Is(b)) = s { Some(*b) } else { None }).collect();
    let max = w.sent.len() as u8 + 1;
    // every random byte the node drew is one of these; tokens no datagram carries are all alike
    let (tokens, mut others): (Vec<u8>, Vec<u8>) = (1..=max).partition(|t| used.contains(t));
    if !TEMPLATES.get().is_some_and(|t| t.drawn) {
        others.extend((0..max).map(|i| 200 + i));
    }
    let m = Model {
        out,
        world: w,
        taken: &w.taken,
        main: out.events.iter().map(|e| &e.0).filter(|e| matches!(e, Ev::Size(..) | Ev::Unknown(_))).collect(),
        failed: out.events.iter().filter_map(|e| if let Ev::Failed(a) = e.0 { Some(a) } else { None }).collect(),
        conn,
        tokens,
        others,
        dead: RefCell::default(),
    };
    if m.explain(St::default()) {
        return Ok(());
    }
    Err(format!(
        "no order of the commands and datagrams explains what was observed: sent {:?}, events {:?}, datagrams taken {:?}",
        w.sent.iter().map(|s| (s.to, s.data.len(), is_opening(&s.data))).collect::<Vec<_>>(),
        out.events.iter().map(|e| &e.0).collect::<Vec<_>>(),
        w.taken
    ))
}

fn job(sc: Scenario) -> Job {
    let key = format!(
        "{}{}{} [{}]",
        if sc.calm { "calmly " } else { "" },
        name(&sc.script),
        if sc.async_stop { " || stop" } else { "" },
        format!("p{} f{}", sc.limits.budget.preempt, sc.limits.budget.fault)
    );
    let faults = sc.faults;
    Job {
        key,
        limits: sc.limits.clone(),
        world: Box::new(move || world(faults)),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let out = Rc::new(RefCell::new(Out::default()));
            let (o, s) = (out.clone(), sc.clone());
            let end = rt.run("user", true, false, move || drive(&s, &o));
            sound(rt, &end)?;
            let out = out.borrow();
            if out.refused {
                if !rt.world.injected.contains(&"bind") {
                    return Err("the node could not be started although nothing failed".into());
                }
                if !out.left.is_empty() {
                    return Err(format!("threads of a node that was never started: {}", show(&out.left)));
                }
                return Ok("not started".into());
            }
            if !out.local.iter().any(|a| a.port() == PORT && a.ip().is_unspecified()) {
                return Err(format!("asked for port {}, the node takes datagrams at {:?}", PORT, out.local));
            }
            if let Some(s) = rt.world.sent.iter().find(|s| s.from.port() != PORT) {
                return Err(format!("a datagram for {} leaves from {}, the node is at port {}", s.to, s.from, PORT));
            }
            if !out.joined {
                return Err("the script did not end".into());
            }
            if !out.left.is_empty() {
                return Err(format!("after join there are still threads: {}", show(&out.left)));
            }
            if !out.stopped_early && !out.served {
                return Err("the node took no more datagrams although nobody stopped it".into());
            }
            if out.too_early {
                return Err("the reader was told the node is gone while it was running".into());
            }
            if out.reader && !out.disconnected {
                return Err("after the last event the reader is not told that the node is gone".into());
            }
            judge(&out, &rt.world)?;
            let mut evs: Vec<String> = out
                .events
                .iter()
                .map(|e| match e.0 {
                    Ev::Size(..) => "size",
                    Ev::Failed(_) => "failed",
                    Ev::Read => "read",
                    Ev::Write(_) => "write",
                    Ev::Unknown(_) => "unknown",
                    Ev::Conn(_) => "conn",
                    Ev::Other(_) => "other",
                }.to_string())
                .collect();
            evs.sort();
            Ok(format!("sent {} taken {} events {}", rt.world.sent.len(), rt.world.taken.len(), evs.join(",")))
        }),
    }
}

/// Which texts the node uses for a datagram of an unknown sender and for one handed to a connection.
pub fn learn(ctx: &Ctx) -> bool {
    let texts = |script: Vec<Op>| -> Result<Vec<String>, String> {
        let sc = Scenario { script, limits: budget(0, 0, 0), faults: Faults::default(), async_stop: false, calm: false };
        let mut rt = Rt::start(sc.limits.clone(), vec![], world(sc.faults));
        let out = Rc::new(RefCell::new(Out::default()));
        let o = out.clone();
        let end = rt.run("user", true, false, move || drive(&sc, &o));
        sound(&rt, &end)?;
        drop(rt.finish());
        let r = out.borrow().events.iter().filter_map(|e| if let Ev::Other(s) = &e.0 { Some(s.clone()) } else { None }).collect();
        Ok(r)
    };
    let mut res = None;
    let keep = ctx.replay.is_some();
    let f = || -> Result<(), String> {
        let u = texts(vec![d('A')])?;
        // the script's datagram and the probe
        let t = u.first().map(|s| hide(s, addr('A'))).ok_or("a datagram of an unknown sender is not reported")?;
        if !t.contains("{}") || u.len() != 2 {
            return Err(format!("a datagram of an unknown sender is reported as {:?}", u));
        }
        let all: Vec<Op> = [Connect('A', 'X'), d('A'), Idle].into_iter().chain((1..=3).map(|b| self::t('A', b))).collect();
        let c = texts(all)?;
        let conn = c.iter().map(|s| hide(s, addr('A'))).find(|s| *s != t && s.contains("{}"));
        let handed = 3 - c.iter().filter(|s| hide(s, addr('A')) == t).count().min(3);
        res = Some(Templates { unknown: t, conn, drawn: handed > 0 });
        if ctx.id == "C19" && handed != 1 {
            return Err(format!("{} datagrams with different tokens were handed to the one connection there is", handed));
        }
        Ok(())
    };
    let ok = if keep { mcx::guard(f).and_then(|r| r).is_ok() } else { ctx.case("canonical", f) };
    if let Some(t) = res {
        ctx.note("texts", mcx::serde_json::json!({"unknown sender": t.unknown, "connection": t.conn}));
        let _ = TEMPLATES.set(t);
    }
    ok
}

pub fn words(alphabet: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<Op>| alphabet.iter().map(move |o| w.iter().cloned().chain([*o]).collect())).collect();
    }
    v
}

pub fn check(ctx: &Ctx) {
    ctx.assume("sequentially consistent memory; threads are switched at synchronisation, channel, socket and time operations only");
    ctx.assume("a socket reported readable has a datagram; sockets and waits fail only with the listed errors");
    ctx.assume("two draws of a 128-bit link token or of a handshake seed are different");
    if !learn(ctx) {
        return;
    }
    let all = Faults { poll: true, interrupt: true, recv: true, send: true, bind: true, ..Faults::default() };
    let mk = |script: Vec<Op>, limits: Limits, faults: Faults, async_stop: bool| Scenario { script, limits, faults, async_stop, calm: false };
    let calm = |script: Vec<Op>| Scenario { script, limits: budget(0, 0, 0), faults: Faults::default(), async_stop: false, calm: true };
    let none = Faults::default();
    let mut scs: Vec<Scenario> = vec![];
    let basic = vec![
        Connect('A', 'X'), Connect('A', 'Y'), Connect('B', 'Y'), Local('X'), d('A'), d('B'), d('C'),
        Dg('A', 1279, Tok::Is(0xEE)), Dg('C', 1281, Tok::Is(0xEE)), t('A', 2), t('C', 2), t('C', 1), Dg('A', SIZE, Tok::Near(2, 127)),
    ];
    let after = vec![
        t('A', 1), t('A', 2), t('C', 2), t('B', 3), t('A', 3), Dg('C', SIZE, Tok::Near(2, 7)), Dg('C', SIZE, Tok::Near(2, 127)), Dg('A', 1279, Tok::Is(2)), Dg('A', 1281, Tok::Is(2)),
        Connect('A', 'Y'), Connect('B', 'Y'), d('A'), d('B'), Local('X'), Local('Y'),
    ];
    let pre = |p: &[Op], w: Vec<Op>| p.iter().cloned().chain(w).collect::<Vec<_>>();
    let one = [Connect('A', 'X'), d('A')];
    let two = [Connect('A', 'X'), Connect('B', 'Y'), d('A'), d('B')];
    match ctx.id.as_str() {
        "C19" => {
            let (p2, p1) = (ctx.tier(2, 3), ctx.tier(0, 1));
            for n in 1..=ctx.tier(3, 4) {
                scs.extend(words(&basic, n).into_iter().map(|w| mk(w, budget(if n <= 2 { p2 } else if n == 3 { p1 } else { 0 }, 0, 0), none, false)));
            }
            for n in 0..=ctx.tier(2, 3) {
                scs.extend(words(&after, n).into_iter().map(|w| mk(pre(&one, w), budget(if n <= 1 { 2 } else if n == 2 { p1 + 1 } else { 0 }, 0, 0), none, false)));
                scs.extend(words(&after, n).into_iter().map(|w| mk(pre(&two, w), budget(if n <= 1 { 1 } else { 0 }, 0, 0), none, false)));
            }
            // longer ones, step by step
            scs.extend(words(&basic, ctx.tier(4, 5)).into_iter().map(calm));
            for p in [&one[..], &two[..]] {
                scs.extend(words(&after, ctx.tier(3, 4)).into_iter().map(|w| calm(pre(p, w))));
            }
            // a datagram for the connection leaves a later request for the same address alone
            for w in words(&[t('A', 2), t('A', 1), t('C', 2), t('C', 3), d('A'), d('C'), Connect('A', 'Z')], ctx.tier(3, 4)) {
                scs.push(calm(pre(&[Connect('A', 'X'), d('A'), Connect('A', 'Y')], w)));
            }
            for p in [&one[..], &two[..]] {
                for bit in 0..128 {
                    let near = |b| Dg('C', SIZE, Tok::Near(b, bit));
                    scs.push(calm(pre(p, vec![near(2), near(3), t('C', 1), t('C', 2), t('C', 3)])));
                }
            }
            let three = [Connect('A', 'X'), Connect('B', 'Y'), Connect('C', 'Z'), d('B'), d('A'), d('C')];
            for w in words(&[t('A', 1), t('B', 2), t('C', 3), t('A', 4), d('A'), Connect('A', 'Z')], ctx.tier(3, 4)) {
                scs.push(calm(pre(&three, w.iter().cloned().chain((1..=4).map(|b| t('P', b))).collect())));
            }
            // failures of the socket change nothing else
            let io = Faults { recv: true, send: true, interrupt: true, poll: true, ..none };
            for n in 1..=2 {
                scs.extend(words(&basic, n).into_iter().map(|w| mk(w, budget(0, ctx.tier(1, 2), 0), io, false)));
            }
            for n in 0..=1 {
                scs.extend(words(&after, n).into_iter().map(|w| mk(pre(&one, w), budget(0, ctx.tier(1, 2), 0), io, false)));
            }
        }
        "C18" => {
            let mut any = basic.clone();
            any.extend([Local('Z'), Idle, DropRef, Dg('A', 0, Tok::Is(0)), Dg('A', SIZE, Tok::Is(0)), Dg('S', 65507, Tok::Is(2))]);
            for n in 0..=ctx.tier(2, 3) {
                scs.extend(words(&any, n).into_iter().map(|w| mk(w, budget(if n <= 2 { 1 } else { 0 }, 1, 0), all, false)));
            }
            let mut later = after.clone();
            later.extend([Local('Z'), Idle, DropRef]);
            for n in 0..=ctx.tier(2, 3) {
                scs.extend(words(&later, n).into_iter().map(|w| mk(pre(&one, w), budget(if n <= 1 { ctx.tier(1, 2) } else { 0 }, 1, 0), all, false)));
            }
            for n in 0..=ctx.tier(1, 2) {
                scs.extend(words(&later, n).into_iter().map(|w| mk(pre(&two, w), budget(0, 1, 0), all, false)));
            }
            // commands while connections are being made
            for w in words(&[Local('X'), Local('Y'), Connect('A', 'Y'), t('A', 2)], ctx.tier(1, 2)) {
                scs.push(mk(pre(&two, w.clone()), budget(2, 0, 0), none, false));
                scs.push(mk(pre(&one, w), budget(3, 0, 0), none, false));
            }
            // texts
            for text in ["", "\0", "x\ny", "\u{2028}\u{1F600}", LONG] {
                for w in words(&[t('A', 2), d('A'), Local('X'), Connect('A', 'X')], 2) {
                    let v: Vec<Op> = pre(&one, pre(&[LocalText('X', text)], w));
                    scs.push(mk(v.clone(), budget(0, 0, 0), none, false));
                    scs.push(calm(v));
                }
            }
            // repeated failures
            for n in 0..=1 {
                scs.extend(words(&any, n).into_iter().map(|w| mk(w, budget(0, ctx.tier(2, 3), 0), all, false)));
            }
            scs.extend(words(&[Local('X'), t('A', 2), d('A')], ctx.tier(3, 4)).into_iter().map(|w| mk(pre(&one, w), budget(ctx.tier(1, 2), 0, 0), none, false)));
        }
        "C20" => {
            let small = [Connect('A', 'X'), Local('X'), d('A'), d('C'), Dg('C', 7, Tok::Is(2)), t('A', 2), DropRef, Idle];
            let io = Faults { recv: true, send: true, interrupt: true, poll: true, ..none };
            for n in 0..=ctx.tier(2, 3) {
                for w in words(&small, n) {
                    // another thread clears the flag, or the script does, at any of its places
                    scs.push(mk(w.clone(), budget(if n <= ctx.tier(1, 2) { 2 } else { 1 }, 0, 0), none, true));
                    scs.push(mk(w.clone(), budget(0, 1, 0), io, true));
                    for i in 0..=w.len() {
                        let mut v = w.clone();
                        v.insert(i, Stop);
                        scs.push(mk(v, budget(ctx.tier(1, 2), 0, 0), none, false));
                    }
                }
            }
            let tail = [Local('X'), Local('Y'), t('A', 2), t('B', 3), d('C'), DropRef, Idle, Connect('C', 'Z')];
            for (p, depth) in [(&one[..], 2), (&two[..], ctx.tier(1, 2))] {
                for n in 0..=depth {
                    for w in words(&tail, n) {
                        let w = pre(p, w);
                        scs.push(mk(w.clone(), budget(if p.len() == 2 { if n == 0 || ctx.thorough { 2 } else { 1 } } else if n == 0 || ctx.thorough { 1 } else { 0 }, 0, 0), none, true));
                        for i in p.len()..=w.len() {
                            let mut v = w.clone();
                            v.insert(i, Stop);
                            scs.push(mk(v, budget(if n <= 1 { 1 } else { 0 }, 0, 0), none, false));
                        }
                    }
                }
            }
        }
        i => panic!("{}", i),
    }
    let jobs: Vec<Job> = scs.into_iter().map(job).collect();
    run(ctx, "long histories", &crate::volume::udp(ctx), 1000);
    run(ctx, "schedules of the node", &jobs, 200_000_000);
}

/// C21: another thread reads.
pub fn readers(mix: &[bool], script: &[char], p: u32, spin: bool) -> Job {
    let (mix, script) = (mix.to_vec(), script.to_vec());
    let key = format!("udp {} read by {}{} [p{}]", script.iter().collect::<String>(), crate::reads::mix_name(&mix), if spin { "t*" } else { "r*" }, p);
    Job {
        key,
        limits: budget(p, 0, 0),
        world: Box::new(|| world(Faults::default())),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let out = Rc::new(RefCell::new(Out { reader: true, ..Out::default() }));
            let bad: Rc<RefCell<Option<String>>> = Rc::default();
            let (o, b, s, m) = (out.clone(), bad.clone(), script.clone(), mix.clone());
            let end = rt.run("user", true, true, move || {
                let (sk, pk) = keys();
                let running = Arc::new(AtomicBool::new(true));
                let Ok((node, reader)) = Node::spawn(sk, pk, PORT, running.clone()) else { return };
                let fd = rt::world().udp_sockets()[0];
                let gone = Rc::new(RefCell::new(false));
                let (g, o2) = (gone.clone(), o.clone());
                rt::spawn("reader".into(), true, move || {
                    crate::reads::read(
                        &m,
                        spin,
                        &b,
                        &g,
                        || reader.recv().ok().map(|e| (e, 0)),
                        || reader.try_recv().ok(),
                        |e| {
                            let from = rt::world().last_sender;
                            o2.borrow_mut().events.push((classify(&e), from));
                        },
                    );
                });
                if s.contains(&'f') {
                    // later requests for this address fail
                    node.command(Command::Connect { peer_pi: id('X'), address: addr('B') });
                    o.borrow_mut().steps.push(Step::Connect(addr('B'), id('X')));
                }
                for (i, c) in s.iter().enumerate() {
                    rt::free_point("next step of the script");
                    let (a, size, tok) = match c {
                        'i' => {
                            rt::sleep(SECOND);
                            continue;
                        }
                        'f' => {
                            node.command(Command::Connect { peer_pi: id('X'), address: addr('B') });
                            o.borrow_mut().steps.push(Step::Connect(addr('B'), id('X')));
                            continue;
                        }
                        'd' => {
                            node.command(Command::Connect { peer_pi: id('Y'), address: addr('A') });
                            o.borrow_mut().steps.push(Step::Connect(addr('A'), id('Y')));
                            (addr('A'), SIZE, Tok::Is(0xEE))
                        }
                        's' => (addr('C'), 1000 + i, Tok::Is(0xEE)),
                        _ => (addr(if i % 2 == 0 { 'C' } else { 'S' }), SIZE, Tok::Is(0xEE)),
                    };
                    if rt::world().datagram(fd, a, bytes(size, tok), i as u64) {
                        o.borrow_mut().steps.push(Step::Arrive(i as u64, a, size, tok));
                    }
                }
                rt::free_point("stop");
                *gone.borrow_mut() = true;
                running.store(false, Ordering::Release);
                node.join();
            });
            sound(rt, &end)?;
            if let Some(b) = bad.borrow().as_ref() {
                return Err(b.clone());
            }
            judge(&out.borrow(), &rt.world)?;
            Ok(format!("udp {} events", out.borrow().events.len()))
        }),
    }
}
