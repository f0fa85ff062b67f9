//! C23, C24, C25: the whole node program under the controlled scheduler.
use crate::sys::{budget, run, show, sound, Job};
use mcx::Ctx;
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;
use vmc_std::net::unix::{client_close, client_write, connect_to};
use vmc_std::rt::{self, End, Limits, Rt, SECOND};
use vmc_std::world::{Faults, Listener, Obj, Store, World};
use vru_session::handshake::{PublicKey, SecretKey};
use vru_tcp_recorder::{marker, Record, Recorded, ALIKE};

/// What a client of the control socket does.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Client {
    /// the whole command, in pieces that end at these positions, then close
    Good(usize, Vec<usize>),
    /// the whole command, and the connection stays open
    Held(usize),
    /// part of a command, then close
    Cut(usize, usize),
    /// part of a command, then nothing for ever
    Stall(usize, usize),
    Junk(Vec<u8>),
    /// two connections; the bytes of the second come first
    Crossed(usize, usize),
    /// a good and then a further one in the same connection
    Long(usize, usize),
    /// the head of a command without end, then so many bytes, one every 0.9 s
    Drip(Vec<u8>, usize),
}
use Client::*;

fn client_names(cs: &[Client]) -> String {
    if cs.len() > 20 {
        return format!("{} clients from {} to {}", cs.len(), client_name(&cs[0]), client_name(&cs[cs.len() - 1]));
    }
    cs.iter().map(client_name).collect::<Vec<_>>().join(" ")
}
fn client_name(c: &Client) -> String {
    match c {
        Good(i, s) if s.is_empty() => format!("good{}", i),
        Good(i, s) => format!("good{}/{}", i, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/")),
        Held(i) => format!("held{}", i),
        Cut(i, k) => format!("cut{}/{}", i, k),
        Stall(i, k) => format!("stall{}/{}", i, k),
        Junk(b) => format!("junk({})", mcx::short_hex(b)),
        Crossed(a, b) => format!("crossed{}{}", a, b),
        Long(a, b) => format!("long{}+{}", a, b),
        Drip(_, n) => format!("drip{}", n),
    }
}

pub type Wire = Vec<(Vec<u8>, Recorded)>;

fn listener() -> Option<i32> {
    rt::world().unix.values().next().copied()
}
/// Plays one client; false if nobody listens any more.
fn play(c: &Client, wire: &Wire) -> bool {
    let Some(l) = listener() else { return false };
    let fd = connect_to(l);
    rt::note(|| format!("client {}", client_name(c)));
    match c {
        Good(i, splits) => {
            let b = &wire[*i].0;
            let mut at = 0;
            for s in splits.iter().chain([&b.len()]) {
                if at > 0 {
                    rt::free_point("between two pieces");
                }
                client_write(fd, &b[at..*s]);
                at = *s;
            }
            client_close(fd);
        }
        Held(i) => {
            client_write(fd, &wire[*i].0);
        }
        Cut(i, k) => {
            client_write(fd, &wire[*i].0[..*k]);
            rt::free_point("before closing");
            client_close(fd);
        }
        Stall(i, k) => {
            client_write(fd, &wire[*i].0[..*k]);
        }
        Junk(b) => {
            client_write(fd, b);
            rt::free_point("before closing");
            client_close(fd);
        }
        Crossed(a, b) => {
            let Some(l) = listener() else { return false };
            let fd2 = connect_to(l);
            rt::free_point("two connections");
            client_write(fd2, &wire[*b].0);
            client_close(fd2);
            rt::free_point("the second was written");
            client_write(fd, &wire[*a].0);
            client_close(fd);
        }
        Long(a, b) => {
            client_write(fd, &wire[*a].0);
            client_write(fd, &wire[*b].0);
            client_close(fd);
        }
        Drip(head, n) => {
            client_write(fd, head);
            let n = *n;
            rt::spawn("dripping client".into(), true, move || {
                for _ in 0..n {
                    rt::sleep(SECOND * 9 / 10);
                    if !client_write(fd, b"x") {
                        break;
                    }
                }
                client_close(fd);
            });
        }
    }
    true
}
/// The commands of the clients, in the order they connected.
fn wanted(clients: &[Client], wire: &Wire) -> Vec<Recorded> {
    clients
        .iter()
        .flat_map(|c| match c {
            Good(i, _) | Held(i) => vec![wire[*i].1.clone()],
            // one command per connection
            Long(a, _) => vec![wire[*a].1.clone()],
            Crossed(a, b) => vec![wire[*a].1.clone(), wire[*b].1.clone()],
            _ => vec![],
        })
        .collect()
}

pub fn signal() {
    rt::block("a signal handler", None, false, || rt::world().handler.is_some());
    let mut h = rt::world().handler.take();
    rt::note(|| "stop is requested".into());
    if let Some(h) = h.as_mut() {
        h();
    }
    if rt::world().handler.is_none() {
        rt::world().handler = h;
    }
}

#[derive(Default)]
struct Seen {
    sent: Option<Vec<Recorded>>,
    alive: bool,
    stopped: bool,
    /// since when nobody does anything to the program
    last: u64,
}

/// Feeds the clients' bytes to the program with the recording node and returns what the node was asked to do.
pub fn feed(bytes: Vec<Vec<u8>>) -> Result<Vec<Recorded>, String> {
    let limits = Limits { max_steps: 50_000_000, ..budget(0, 0, 0) };
    let mut rt = Rt::start(limits, vec![], World::default());
    let end = rt.run("main", false, false, move || {
        rt::spawn("clients".into(), true, move || {
            for b in bytes {
                rt::block("the control socket", None, false, || listener().is_some());
                let fd = connect_to(listener().unwrap());
                client_write(fd, &b);
                client_close(fd);
            }
            rt::settle();
            signal();
        });
        vnode_recorded::vmc_entry();
    });
    sound(&rt, &end)?;
    let r = rt.world.user.take().map(|u| u.downcast::<vru_tcp_recorder::Record>().unwrap().commands.clone()).unwrap_or_default();
    rt.finish();
    Ok(r)
}

#[derive(Clone)]
struct Sc24 {
    clients: Vec<Client>,
    limits: Limits,
    faults: Faults,
    fd_limit: usize,
    settle: bool,
}

fn job24(sc: Sc24, wire: &Wire) -> Job {
    let names = client_names(&sc.clients);
    let key = format!(
        "{}{} [p{} f{} fds{}]",
        names,
        if sc.settle { "" } else { " stop" },
        sc.limits.budget.preempt,
        sc.limits.budget.fault,
        sc.fd_limit
    );
    let (faults, fd_limit, wire) = (sc.faults, sc.fd_limit, wire.clone());
    Job {
        key,
        limits: sc.limits.clone(),
        world: Box::new(move || World { faults, fd_limit, ..World::default() }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let seen: Rc<RefCell<Seen>> = Rc::default();
            let (s, c, w) = (seen.clone(), sc.clone(), wire.clone());
            let end = rt.run("main", false, false, move || {
                rt::spawn("clients".into(), true, move || {
                    rt::block("the control socket", None, false, || listener().is_some());
                    let mut ok = true;
                    for x in &c.clients {
                        rt::free_point("next client");
                        ok &= play(x, &w);
                    }
                    if ok {
                        s.borrow_mut().sent = Some(wanted(&c.clients, &w));
                    }
                    if c.settle {
                        rt::settle();
                    }
                    signal();
                });
                vnode_recorded::vmc_entry();
            });
            sound(rt, &end)?;
            let got = rt.world.user.as_ref().map(|u| u.downcast_ref::<vru_tcp_recorder::Record>().unwrap().commands.clone()).unwrap_or_default();
            let Some(want) = seen.borrow().sent.clone() else {
                return Err("the program ended before all clients were there and before it was told to stop".into());
            };
            if got != want && want.len() > 20 {
                let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return Err(format!("{} commands were sent and {} handled; the first difference is at {}: {:?} instead of {:?}", want.len(), got.len(), at, got.get(at), want.get(at)));
            }
            if got != want {
                return Err(format!("sent {:?}, handled {:?}", want, got));
            }
            Ok(format!("{} commands of {} clients", got.len(), sc.clients.len()))
        }),
    }
}

fn words<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<T>| alphabet.iter().map(move |o| w.iter().cloned().chain([o.clone()]).collect())).collect();
    }
    v
}

const ASSUME: &str = "sequentially consistent memory; threads are switched at synchronisation, channel, socket, store and time operations only";

/// Where the text of the third command starts, behind its length.
fn text_at(wire: &Wire) -> usize {
    wire[2].0.len() - if let Recorded::Local { command, .. } = &wire[2].1 { command.len() } else { 0 }
}
/// A command that says its text is longer than anyone can send.
fn endless(wire: &Wire) -> Vec<u8> {
    let n = text_at(wire);
    let mut b = wire[2].0[..n].to_vec();
    b[n - 8..].copy_from_slice(&(u64::MAX >> 1).to_le_bytes());
    b
}

pub fn c24(ctx: &Ctx, wire: &Wire) {
    ctx.assume(ASSUME);
    ctx.assume("a client that pauses while others could run is slow, one that pauses while nothing else can happen is stalled");
    let mut scs: Vec<Sc24> = vec![];
    let none = Faults::default();
    let all = Faults { poll: true, interrupt: true, accept: true, read: true, ..none };
    let len = wire[0].0.len();
    let mut bad_tag = wire[0].0.clone();
    bad_tag[0] = 9;
    let mut bad_length = wire[2].0.clone();
    let text = text_at(wire);
    bad_length[text - 8..text].copy_from_slice(&[0xFF; 8]);
    let endless = endless(wire);
    let mut bad_family = wire[0].0.clone();
    bad_family[36] = 7;
    let alphabet = vec![
        Good(0, vec![]), Good(2, vec![4]), Held(1), Cut(0, 0), Cut(0, 10), Stall(0, 0), Stall(2, 40), Junk(bad_tag.clone()), Junk(bad_length.clone()), Junk(bad_family), Crossed(1, 2), Long(0, 2), Drip(endless, 20),
    ];
    for k in 0..=ctx.tier(2, 3) {
        for w in words(&alphabet, k) {
            for settle in [true, false] {
                let p = if k <= ctx.tier(0, 2) { 2 } else if k <= ctx.tier(1, 2) { 1 } else { 0 };
                scs.push(Sc24 { clients: w.clone(), limits: budget(p, 0, 0), faults: none, fd_limit: 1024, settle });
            }
        }
    }
    // a good one after anything
    for w in words(&alphabet, ctx.tier(2, 3)) {
        let mut w = w;
        w.push(Good(3, vec![]));
        scs.push(Sc24 { clients: w, limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: false });
    }
    // every cut and every split of each kind of command, then a good one
    for (i, (b, _)) in wire.iter().enumerate().take(4) {
        for k in 0..b.len() {
            scs.push(Sc24 { clients: vec![Cut(i, k), Good(1, vec![])], limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: true });
            scs.push(Sc24 { clients: vec![Stall(i, k), Good(1, vec![])], limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: true });
            if k > 0 {
                scs.push(Sc24 { clients: vec![Good(i, vec![k]), Good(1, vec![])], limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: false });
                for j in k + 1..b.len().min(if ctx.quick() { k + 3 } else { usize::MAX }) {
                    scs.push(Sc24 { clients: vec![Good(i, vec![k, j])], limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: false });
                }
            }
        }
        for x in [0u8, 1, 2, 3, 0x7F, 0x80, 0xFF] {
            for at in (0..4).chain(36..40.min(b.len())) {
                let mut j = b.clone();
                if j[at] == x {
                    continue;
                }
                j[at] = x;
                // only what cannot be a command
                if at < 4 {
                    if u32::from_le_bytes(j[..4].try_into().unwrap()) < 2 {
                        continue;
                    }
                } else if i == 2 || i == 3 || u32::from_le_bytes(j[36..40].try_into().unwrap()) < 2 {
                    continue;
                }
                scs.push(Sc24 { clients: vec![Junk(j), Good(2, vec![])], limits: budget(0, 0, 0), faults: none, fd_limit: 1024, settle: true });
            }
        }
    }
    // more commands than descriptors
    for n in [5, 9, ctx.tier(12, 40)] {
        let long: Vec<Client> = (0..n).map(|i| if i % 4 == 2 { Cut(0, 3) } else if i % 4 == 3 { Held(i % 2) } else { Good(i % 3, vec![]) }).collect();
        for settle in [true, false] {
            scs.push(Sc24 { clients: long.clone(), limits: budget(0, 0, 0), faults: none, fd_limit: 3, settle });
        }
    }
    // a long life
    let n = ctx.tier(2000, 20_000);
    let long = |f: &dyn Fn(usize) -> Client| (0..n).map(f).collect::<Vec<_>>();
    let bad = bad_tag.clone();
    for clients in [
        long(&|i| Good(i % 4, vec![])),
        long(&|_| Good(1, vec![])),
        long(&|i| if i + 1 < n { Junk(bad.clone()) } else { Good(2, vec![]) }),
        long(&|i| if i + 1 < n { Cut(0, i % 40) } else { Good(2, vec![]) }),
        long(&|i| if i % 2 == 0 { Held(i % 4) } else { Good(i / 2 % 4, vec![]) }),
        long(&|i| if i < 300 { Stall(2, i % 40) } else { Good(i % 4, vec![]) }),
    ] {
        let limits = Limits { max_steps: 50_000_000, horizon: 1 << 60, delay_bounded: true, strict: true, ..budget(0, 0, 0) };
        for settle in [true, false] {
            scs.push(Sc24 { clients: clients.clone(), limits: limits.clone(), faults: none, fd_limit: 1024, settle });
        }
    }
    // failing and interrupted system calls
    for k in 1..=2 {
        for w in words(&alphabet, k) {
            let f = if k == 1 { ctx.tier(2, 3) } else { ctx.tier(1, 2) };
            scs.push(Sc24 { clients: w, limits: budget(0, f, 0), faults: all, fd_limit: 1024, settle: true });
        }
    }
    for w in words(&[Good(0, vec![]), Good(2, vec![4])], 2) {
        scs.push(Sc24 { clients: w, limits: budget(1, 1, 0), faults: all, fd_limit: 1024, settle: false });
    }
    let _ = len;
    let jobs: Vec<Job> = scs.into_iter().map(|s| job24(s, wire)).collect();
    run(ctx, "schedules of the control socket", &jobs, 200_000_000);
}

#[derive(Clone)]
struct Sc25 {
    clients: Vec<Client>,
    limits: Limits,
    faults: Faults,
    signal: bool,
    arrive_late: bool,
}

fn job25(sc: Sc25, wire: &Wire) -> Job {
    let names = client_names(&sc.clients);
    let key = format!(
        "{}{}{} [p{} f{}]",
        names,
        if sc.signal { " || signal" } else { " stays" },
        if sc.arrive_late { " late" } else { "" },
        sc.limits.budget.preempt,
        sc.limits.budget.fault
    );
    let (faults, wire) = (sc.faults, wire.clone());
    Job {
        key,
        limits: sc.limits.clone(),
        world: Box::new(move || World { faults, ..World::default() }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let seen: Rc<RefCell<Seen>> = Rc::default();
            let (s, c, w) = (seen.clone(), sc.clone(), wire.clone());
            let end = rt.run("main", false, false, move || {
                let s2 = s.clone();
                if c.signal {
                    rt::spawn("signal".into(), true, move || {
                        rt::block("a signal handler", None, false, || rt::world().handler.is_some());
                        rt::free_point("about to stop");
                        signal();
                        let mut s = s2.borrow_mut();
                        s.stopped = true;
                        s.last = s.last.max(rt::now());
                    });
                }
                rt::spawn("clients".into(), true, move || {
                    rt::block("the control socket", None, false, || listener().is_some());
                    for x in &c.clients {
                        rt::free_point("next client");
                        if c.arrive_late {
                            rt::sleep(SECOND * 3 / 2);
                        }
                        if !play(x, &w) {
                            return;
                        }
                        let mut s = s.borrow_mut();
                        s.last = s.last.max(rt::now());
                    }
                    if !c.signal {
                        rt::sleep(12 * SECOND);
                        // the process would have ended with its first thread
                        s.borrow_mut().alive = rt::program_threads().iter().filter(|t| t.0 != "main").count() > 0;
                        rt::world().faults = Faults::default();
                        signal();
                        let mut s = s.borrow_mut();
                        s.stopped = true;
                        s.last = rt::now();
                    }
                });
                vnode::vmc_entry();
            });
            sound(rt, &end)?;
            if let End::Exit(c) = end {
                return Err(format!("the program exited with status {} instead of returning", c));
            }
            let took = rt.now.saturating_sub(seen.borrow().last);
            if seen.borrow().stopped && took > (20 + 5 * sc.clients.len() as u64) * SECOND {
                return Err(format!("the program went on for {} s after the signal and the last of {} clients", took / SECOND, sc.clients.len()));
            }
            let took = (took / SECOND).to_string();
            let left: Vec<(String, &'static str)> = rt.leftover_program().into_iter().map(|n| (n, "running")).collect();
            if !left.is_empty() {
                return Err(format!("the program ended with threads running: {}", show(&left)));
            }
            let failed_start = rt.world.injected.iter().any(|x| *x == "bind");
            if !seen.borrow().stopped && !failed_start {
                return Err("the program ended although nobody asked for it".into());
            }
            if !sc.signal && !seen.borrow().alive && !failed_start {
                return Err("the program's node ended although nobody asked for it".into());
            }
            Ok(format!("{} clients, {}", sc.clients.len(), if failed_start { "failed start".into() } else { format!("ended after {} s", took) }))
        }),
    }
}

pub fn c25(ctx: &Ctx, wire: &Wire) {
    ctx.assume(ASSUME);
    ctx.assume("a signal before the handler is installed ends the process at once, as the operating system does");
    let none = Faults::default();
    let io = Faults { poll: true, interrupt: true, accept: true, read: true, connect: true, bind: true, ..none };
    let mut scs = vec![];
    let alphabet = vec![Good(0, vec![]), Good(2, vec![20]), Held(1), Cut(0, 10), Stall(0, 0), Stall(2, 40), Crossed(0, 1), Junk(vec![9, 9]), Drip(endless(wire), 60)];
    let base = |l: Limits| Limits { horizon: 400 * SECOND, ..l };
    for k in 0..=2 {
        for w in words(&alphabet, k) {
            let p = if k == 0 { ctx.tier(2, 3) } else if k == 1 { ctx.tier(1, 2) } else { ctx.tier(0, 1) };
            for arrive_late in [false, true] {
                if arrive_late && k == 0 {
                    continue;
                }
                let p = if ctx.quick() && (arrive_late || matches!(w.first(), Some(Crossed(..)))) { 0 } else { p };
                scs.push(Sc25 { clients: w.clone(), limits: base(budget(p, 0, 0)), faults: none, signal: true, arrive_late });
            }
            // the order of whatever is due at the same time counts as a deviation here
            let stay = |p, f| Limits { delay_bounded: true, ..base(budget(p, f, 0)) };
            scs.push(Sc25 { clients: w.clone(), limits: stay(if k == 0 { 2 } else { ctx.tier(1, 2) }, 0), faults: none, signal: false, arrive_late: false });
            if k <= 1 {
                let wide = ctx.quick() && matches!(w.first(), Some(Crossed(..)));
                scs.push(Sc25 { clients: w.clone(), limits: if wide { stay(0, 1) } else { base(budget(0, 1, 0)) }, faults: io, signal: true, arrive_late: false });
                scs.push(Sc25 { clients: w, limits: stay(ctx.tier(0, 1), ctx.tier(1, 2)), faults: io, signal: false, arrive_late: false });
            }
        }
    }
    // whatever went wrong before, the wait does not grow
    for c in alphabet.iter().filter(|c| !matches!(c, Crossed(..))) {
        for n in [6, 10] {
            let w = vec![c.clone(); n];
            let l = Limits { delay_bounded: true, strict: true, ..base(budget(ctx.tier(1, 2), 0, 0)) };
            scs.push(Sc25 { clients: w.clone(), limits: l.clone(), faults: none, signal: false, arrive_late: false });
            scs.push(Sc25 { clients: w, limits: l, faults: none, signal: true, arrive_late: false });
        }
    }
    let jobs: Vec<Job> = scs.into_iter().map(|s| job25(s, wire)).collect();
    run(ctx, "schedules of the program", &jobs, 200_000_000);
}

/// The identities a text names.
fn identities(text: &str) -> Vec<String> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '+' || c == '/' || c == '='))
        .filter(|t| t.len() == 44)
        .filter_map(|t| t.parse::<vru_session::handshake::Identity>().ok())
        .map(|i| i.to_string())
        .collect()
}

/// Whether the secret key belongs to the public one: a session of the pair with itself uses every part of both.
fn belong(pk: &PublicKey, sk: &SecretKey) -> bool {
    use rac::{generic_array::typenum::U96, Array, Concat};
    use vru_session::handshake::{xx, TrivialRotor};
    type P = Array<rac::generic_array::typenum::U16>;
    let id = pk.identity();
    let seed: Array<U96> = Array::default();
    let e = || Concat(Default::default(), Default::default());
    let (i, m) = xx::out0(&seed, &id);
    let (r, m) = xx::take0_out1(&Concat(seed, Default::default()), &id, pk, sk, m, P::default());
    let Ok((i, _, _, m)) = xx::take1_out2::<P, _, _>(&e(), i, pk, sk, m, P::default(), P::default()) else { return false };
    let Ok((_, _, _, _, _, m)) = xx::take2_out3::<P, P, _, TrivialRotor>(&Default::default(), r, pk, sk, m, P::default()) else { return false };
    xx::take_3::<P, TrivialRotor>(i, pk, sk, m).is_ok()
}

fn port_of(boot: usize) -> u16 {
    [2468, 2469, 1024, 65535, 50000, 1, 0][boot % 7]
}

/// The same directory and another port each time, spelled in several ways.
fn command_line(boot: usize) -> Vec<std::ffi::OsString> {
    let (d, p) = (["/data", "/data/", "/data/."][boot % 3], format!("{}", port_of(boot)));
    let v: Vec<String> = match boot % 4 {
        0 => vec!["--path".into(), d.into(), "--port".into(), p],
        1 => vec!["--port".into(), p, "--path".into(), d.into()],
        2 => vec![format!("--path={}", d), format!("--port={}", p)],
        _ => vec!["--port".into(), p, format!("--path={}", d)],
    };
    std::iter::once("vru-node".to_string()).chain(v).map(|s| s.into()).collect()
}

fn job23(starts: usize, limits: Limits, faults: Faults) -> Job {
    let key = format!("{} starts{} [p{} f{} crash{}]", starts, if limits.strict { ", in order" } else { "" }, limits.budget.preempt, limits.budget.fault, limits.budget.crash);
    Job {
        key,
        limits,
        world: Box::new(move || World { faults, ..World::default() }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let mut shown: Vec<(usize, String)> = vec![];
            let mut story = vec![];
            for boot in 0..starts {
                rt.world.random = (17 + 31 * boot) as u8;
                rt.world.args = Some(command_line(boot));
                rt.world.crash_enabled = true;
                rt.world.effects += 1;
                rt.world.logs.clear();
                rt.world.user = None;
                let faults_before = rt.world.injected.len();
                let end = rt.run("main", false, false, move || {
                    rt::spawn("user".into(), true, move || {
                        rt::block("the control socket", None, false, || listener().is_some());
                        rt::settle();
                        signal();
                    });
                    vnode_recorded::vmc_entry();
                });
                sound(rt, &end)?;
                let crashed = end == End::Crash;
                rt.world.crash_enabled = false;
                let failed = rt.world.injected.len() > faults_before;
                let spawned: Vec<String> =
                    rt.world.user.as_ref().map(|u| u.downcast_ref::<vru_tcp_recorder::Record>().unwrap().spawned.iter().map(|s| s.0.clone()).collect()).unwrap_or_default();
                let keys = rt.world.user.as_ref().map(|u| u.downcast_ref::<vru_tcp_recorder::Record>().unwrap().keys.clone()).unwrap_or_default();
                if keys.iter().any(|k| !belong(&k.0, &k.1)) {
                    return Err(format!("start {}: the node runs with a secret key that is not its identity's", boot + 1));
                }
                let announced: Vec<String> = rt.world.logs.iter().flat_map(|l| identities(&l.1)).collect();
                for i in announced.iter().chain(&spawned) {
                    shown.push((boot, i.clone()));
                }
                story.push(format!("{}{}{}", if crashed { "crash" } else { "stop" }, if failed { " fault" } else { "" }, if announced.is_empty() { "" } else { " announced" }));
                if let Some((b, i)) = shown.iter().find(|s| s.1 != shown[0].1) {
                    return Err(format!("start {} showed identity {}, start {} showed {}", shown[0].0 + 1, shown[0].1, b + 1, i));
                }
                if !crashed && !failed {
                    if announced.is_empty() {
                        return Err(format!("start {} announced no identity although nothing failed", boot + 1));
                    }
                    if spawned.is_empty() {
                        return Err(format!("start {} did not run the node although nothing failed", boot + 1));
                    }
                }
                if failed && !crashed {
                    // reported, or overcome
                    let reported = rt.world.logs.iter().any(|l| l.0 <= 2);
                    if spawned.is_empty() && !reported {
                        return Err(format!("start {}: the store failed, the node did not run and did not say why", boot + 1));
                    }
                }
                rt.kill();
                rt.world.process_died();
                // what the crash left of the writes that were not flushed; a running process that is only stopped loses none
                let pending: usize = rt.world.stores.values().map(|s| s.pending.len()).max().unwrap_or(0);
                if pending > 0 {
                    let end = rt.run("disk", true, true, move || {
                        let keep = pending - rt::choose("writes lost", pending + 1, rt::Cost::Free);
                        rt::note(|| format!("{} of {} unflushed writes survive", keep, pending));
                        for s in rt::world().stores.values_mut() {
                            let rest = std::mem::take(&mut s.pending);
                            for (k, v) in rest.into_iter().take(keep) {
                                match v {
                                    Some(v) => s.durable.insert(k, v),
                                    None => s.durable.remove(&k),
                                };
                            }
                        }
                    });
                    sound(rt, &end)?;
                    rt.kill();
                }
                for s in rt.world.stores.values_mut() {
                    s.open = 0;
                }
            }
            Ok(story.join(", "))
        }),
    }
}

/// First starts on fresh directories, each time with one random byte changed.
fn job23_fresh() -> Job {
    Job {
        key: "first starts".into(),
        limits: Limits { max_steps: 50_000_000, delay_bounded: true, strict: true, ..budget(0, 0, 0) },
        world: Box::new(World::default),
        body: Box::new(move |rt: &mut Box<Rt>| {
            use rac::{generic_array::{sequence::GenericSequence, typenum::U96}, Array};
            // a ciphertext that is not for the node: what becomes of it depends on every part of the secret key
            let (other, _) = PublicKey::gen(&Array::<U96>::generate(|i| i as u8));
            let foreign = other.encapsulate(&Default::default()).ct;
            let mut first = |rt: &mut Box<Rt>, random: u8, odd: Option<usize>| -> Result<(String, Vec<u8>, usize), String> {
                rt.world.random = random;
                rt.world.random_odd = odd;
                rt.world.random_bytes = 0;
                rt.world.stores.clear();
                rt.world.logs.clear();
                rt.world.user = None;
                let end = rt.run("main", false, false, move || {
                    rt::spawn("user".into(), true, move || {
                        rt::block("the control socket", None, false, || listener().is_some());
                        rt::settle();
                        signal();
                    });
                    vnode_recorded::vmc_entry();
                });
                sound(rt, &end)?;
                let keys = rt.world.user.as_ref().map(|u| u.downcast_ref::<Record>().unwrap().keys.clone()).unwrap_or_default();
                let [k] = &keys[..] else { return Err(format!("a first start ran {} nodes", keys.len())) };
                let r = (k.0.identity().to_string(), k.0.decapsulate(&k.1, &foreign).to_vec(), rt.world.random_bytes);
                rt.kill();
                rt.world.process_died();
                Ok(r)
            };
            let base = first(rt, 17, None)?;
            let mut seen = vec![base.0.clone()];
            for r in [0, 18, 255] {
                let (i, _, _) = first(rt, r, None)?;
                if seen.contains(&i) {
                    return Err("two fresh directories got the same identity".into());
                }
                seen.push(i);
            }
            let mut matter = 0;
            for i in 0..base.2 {
                let x = first(rt, 17, Some(i))?;
                matter += ((&x.0, &x.1) != (&base.0, &base.1)) as usize;
            }
            if matter < 96 {
                return Err(format!("of the {} random bytes drawn for a key only {} matter", base.2, matter));
            }
            Ok(format!("{} random bytes, {} matter", base.2, matter))
        }),
    }
}

pub fn c23(ctx: &Ctx) {
    ctx.assume(ASSUME);
    ctx.assume("a crash of the process keeps some prefix of the store's writes that were not flushed; a flush or an orderly close keeps all (checked against the real store)");
    ctx.assume("a store that was opened reads back what it holds");
    if ctx.replay.is_none() {
        match store_conformance() {
            Ok(v) => ctx.note("store_model_against_sled", v),
            Err(e) => {
                eprintln!("the model of the store does not fit the real one: {}", e);
                std::process::exit(3);
            }
        }
    }
    let none = Faults::default();
    let st = Faults { store: true, ..none };
    let mut jobs = vec![job23_fresh()];
    for (n, c) in [(2, 1), (3, 2), (3, 3), (4, 4), (ctx.tier(5, 6), ctx.tier(3, 6))] {
        jobs.push(job23(n, budget(0, 0, c), none));
    }
    // many lives, few choices
    for (n, c) in [(60, 0), (12, 1), (25, ctx.tier(0, 1))] {
        jobs.push(job23(n, Limits { delay_bounded: true, strict: true, ..budget(0, 0, c) }, none));
    }
    for (n, p, f, c) in [(2, 2, 0, 1), (2, 1, 1, 1), (3, 1, 0, 2), (3, 0, 1, 1), (3, 0, 2, 1), (3, 0, 1, 2), (3, ctx.tier(0, 1), ctx.tier(1, 3), 3), (ctx.tier(3, 4), 0, ctx.tier(2, 3), 3)] {
        jobs.push(job23(n, budget(p, f, c), if f > 0 { st } else { none }));
    }
    run(ctx, "histories of starts", &jobs, 200_000_000);
}

#[derive(Clone)]
struct Sc31 {
    plan: Vec<char>,
    clients: Vec<Client>,
    limits: Limits,
    faults: Faults,
    refuse: bool,
    /// another node is running on the same directory
    taken: bool,
}

fn job31(sc: Sc31, wire: &Wire) -> Job {
    let names = client_names(&sc.clients);
    let key = format!(
        "events {}{}{} with {} [p{} f{}]",
        if sc.plan.len() > 20 { format!("{} like {}", sc.plan.len(), sc.plan[..3].iter().collect::<String>()) } else { sc.plan.iter().collect::<String>() },
        if sc.refuse { " refused" } else { "" },
        if sc.taken { " in use" } else { "" },
        names,
        sc.limits.budget.preempt,
        sc.limits.budget.fault
    );
    let wire = wire.clone();
    let base = sc.clone();
    // another command line in each scenario
    let boot = key.bytes().map(|b| b as usize).sum::<usize>();
    Job {
        key,
        limits: sc.limits.clone(),
        world: Box::new(move || {
            let mut w = World { faults: base.faults, ..World::default() };
            w.user = Some(Box::new(Record { plan: base.plan.clone(), refuse: base.refuse, ..Record::default() }));
            w.args = Some(command_line(boot));
            if base.taken {
                let mut s = Store { open: 1, ..Store::default() };
                s.durable.insert(b"key_seed".to_vec(), vec![9; 96]);
                w.stores.insert("/data/db".into(), s);
                let l = Listener { path: "/data/ctrl.sock".into(), backlog: Default::default(), accepted: 0 };
                let fd = w.add(Obj::UnixListener(l), "another node");
                w.paths.insert("/data/ctrl.sock".into());
                w.unix.insert("/data/ctrl.sock".into(), fd);
            }
            w
        }),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let (c, w) = (sc.clone(), wire.clone());
            let end = rt.run("main", false, false, move || {
                if !c.taken {
                    rt::spawn("clients".into(), true, move || {
                        rt::block("the control socket", None, false, || listener().is_some());
                        for x in &c.clients {
                            rt::point("next client");
                            if !play(x, &w) {
                                return;
                            }
                        }
                    });
                    rt::spawn("signal".into(), true, move || {
                        // without a handler nobody can ask
                        rt::block("a signal handler", None, false, || rt::world().handler.is_some());
                        rt::block("the control socket", None, false, || listener().is_some());
                        rt::point("about to stop");
                        signal();
                    });
                }
                vnode_recorded::vmc_entry();
            });
            let failed = |n: &str| rt.world.injected.iter().any(|x| *x == n);
            let handler = failed("install the signal handler");
            let forever = handler && matches!(end, End::Time(_) | End::Deadlock(_));
            if !forever {
                sound(rt, &end)?;
            } else if let Some((t, p)) = rt.panics.first() {
                return Err(format!("thread {} panicked: {}", t, p));
            }
            if let End::Exit(c) = end {
                if c == 0 && (sc.refuse || sc.taken) {
                    return Err("a failed start ends with the status of success through exit".into());
                }
            }
            let rec = rt.world.user.as_ref().map(|u| u.downcast_ref::<Record>().unwrap().clone()).unwrap_or_default();
            let told = rt.world.logs.iter().any(|l| l.0 <= 2);
            if sc.taken {
                if !rec.spawned.is_empty() {
                    return Err("a node was started on a directory another node is using".into());
                }
                if !rt.world.unix.contains_key(&PathBuf::from("/data/ctrl.sock")) || rt.world.unix.len() != 1 {
                    return Err("the control socket of the node that is running was taken away".into());
                }
                let s = rt.world.stores.values().next().unwrap();
                if rt.world.stores.len() != 1 || s.durable.len() != 1 || s.durable.values().next().unwrap()[..] != [9; 96] || !s.pending.is_empty() {
                    return Err("the store of the node that is running was changed".into());
                }
                return if told { Ok("in use, said so".into()) } else { Err("the directory is in use and the program did not say so".into()) };
            }
            if sc.refuse {
                if listener().is_some() {
                    return Err("there is no node, and commands are taken".into());
                }
                return if told { Ok("refused, said so".into()) } else { Err("the node could not be started and the program did not say so".into()) };
            }
            if (handler || failed("bind")) && !told {
                return Err("the start was not complete and the program did not say so".into());
            }
            if rec.spawned.len() != 1 {
                return Err(format!("{} nodes were started", rec.spawned.len()));
            }
            if rec.spawned[0].1 != std::net::SocketAddr::from(([0, 0, 0, 0], port_of(boot))) {
                return Err(format!("the node was told to listen at {}", rec.spawned[0].1));
            }
            let mut at = 0;
            let found = |m: &str| {
                let list = format!("{:?}", m.as_bytes());
                rt.world.logs.iter().filter(|l| l.0 <= 3 && (l.1.contains(m) || l.1.contains(&list))).count()
            };
            let alike = sc.plan.iter().filter(|k| k.is_ascii_uppercase()).count();
            if found(&marker(ALIKE)) != alike {
                return Err(format!("of {} events with the same text {} are in the log", alike, found(&marker(ALIKE))));
            }
            for i in (0..sc.plan.len()).filter(|i| sc.plan[*i].is_ascii_lowercase()) {
                let m = marker(i);
                let list = format!("{:?}", m.as_bytes());
                let lines: Vec<usize> = rt
                    .world
                    .logs
                    .iter()
                    .enumerate()
                    .filter(|(_, l)| l.0 <= 3 && (l.1.contains(&m) || l.1.contains(&list)))
                    .map(|x| x.0)
                    .collect();
                if lines.len() != 1 {
                    return Err(format!("event {} is in the log {} times", i + 1, lines.len()));
                }
                if lines[0] < at {
                    return Err(format!("event {} is in the log before an earlier one", i + 1));
                }
                at = lines[0];
            }
            Ok(format!("{} events{}{}", sc.plan.len(), if forever { ", nobody could stop it" } else { "" }, if failed("bind") { ", no control socket" } else { "" }))
        }),
    }
}

pub fn c31(ctx: &Ctx, wire: &Wire) {
    ctx.assume(ASSUME);
    let none = Faults::default();
    let setup = Faults { bind: true, handler: true, ..none };
    let mut scs = vec![];
    // the order of whatever is due at the same time counts as a deviation here
    let near = |p, f, c| Limits { delay_bounded: true, ..budget(p, f, c) };
    let plans = |n| words(&['t', 'e', 'l'], n);
    for n in 0..=ctx.tier(3, 4) {
        for plan in plans(n) {
            let p = [4, 3, 2, 1, 1][n] + ctx.tier(0, 1);
            scs.push(Sc31 { plan: plan.clone(), clients: vec![], limits: near(p, 0, 0), faults: none, refuse: false, taken: false });
            if n <= 2 {
                scs.push(Sc31 { plan: plan.clone(), clients: vec![], limits: near(ctx.tier(1, 2), 2, 0), faults: setup, refuse: false, taken: false });
                for c in [Good(0, vec![]), Good(2, vec![4]), Cut(0, 10), Stall(2, 40), Junk(vec![9, 9])] {
                    scs.push(Sc31 { plan: plan.clone(), clients: vec![c], limits: near([3, 2, 1][n] + ctx.tier(0, 1), 0, 0), faults: none, refuse: false, taken: false });
                }
            }
        }
    }
    // events that do not differ
    for n in 2..=ctx.tier(3, 4) {
        for plan in words(&['T', 'E', 'L', 't'], n) {
            if plan.iter().filter(|k| k.is_ascii_uppercase()).count() > 1 {
                scs.push(Sc31 { plan, clients: vec![], limits: near(ctx.tier(0, 1), 0, 0), faults: none, refuse: false, taken: false });
            }
        }
    }
    for p in 0..=ctx.tier(2, 3) {
        for (refuse, taken) in [(true, false), (false, true)] {
            scs.push(Sc31 { plan: vec![], clients: vec![], limits: near(p, 0, 0), faults: none, refuse, taken });
        }
    }
    // a burst
    let one = Limits { max_steps: 50_000_000, strict: true, ..near(0, 0, 0) };
    for (n, l) in [(16, near(0, 0, 0)), (40, near(0, 0, 0)), (ctx.tier(1500, 5000), one)] {
        for kinds in [['t', 'e', 'l'], ['t'; 3], ['e'; 3], ['l'; 3], ['T'; 3], ['E'; 3]] {
            scs.push(Sc31 { plan: (0..n).map(|i| kinds[i % 3]).collect(), clients: vec![], limits: l.clone(), faults: none, refuse: false, taken: false });
        }
    }
    let jobs: Vec<Job> = scs.into_iter().map(|s| job31(s, wire)).collect();
    run(ctx, "schedules of events and starts", &jobs, 200_000_000);
}

/// The real store, killed at chosen moments in a child process.
fn store_conformance() -> Result<mcx::serde_json::Value, String> {
    let dir = std::env::temp_dir().join(format!("vru-mc-store-{}", std::process::id()));
    let res = (|| {
        let mut seen = vec![];
        for (what, must) in [("insert", false), ("flush", true), ("close", true)] {
            for round in 0..3 {
                let d: PathBuf = dir.join(format!("{}{}", what, round));
                std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
                let exe = std::fs::read_link("/proc/self/exe").map_err(|e| e.to_string())?;
                let s = std::process::Command::new(exe).env("MC_STORE", what).env("MC_STORE_DIR", &d).status().map_err(|e| e.to_string())?;
                use std::os::unix::process::ExitStatusExt;
                if s.signal() != Some(9) {
                    return Err(format!("the child of {} ended with {:?}", what, s));
                }
                let db = sled::open(&d).map_err(|e| e.to_string())?;
                let v = db.get(b"k").map_err(|e| e.to_string())?;
                match v.as_deref() {
                    Some(b"value") => seen.push(format!("{}: kept", what)),
                    None if !must => seen.push(format!("{}: lost", what)),
                    other => return Err(format!("after {} and a kill the store holds {:?}", what, other)),
                }
            }
        }
        Ok(mcx::serde_json::json!(seen))
    })();
    let _ = std::fs::remove_dir_all(&dir);
    res
}
/// The child of `store_conformance`.
pub fn store_child(what: &str) -> ! {
    let d = std::env::var("MC_STORE_DIR").unwrap();
    let db = sled::open(&d).unwrap();
    assert!(db.get(b"k").unwrap().is_none());
    db.insert(b"k", b"value").unwrap();
    match what {
        "flush" => {
            db.flush().unwrap();
            std::mem::forget(db);
        }
        "close" => drop(db),
        _ => std::mem::forget(db),
    }
    unsafe { libc::raise(libc::SIGKILL) };
    unreachable!()
}
