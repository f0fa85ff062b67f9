//! Controlled execution of a multi-threaded program on one OS thread.
//!
//! Every virtual thread is a coroutine.  All shims call `point` before a visible operation and `block` to wait;
//! which thread continues, which answer the environment gives and whether the process dies here are *choices*.
//! An execution is determined by its list of choices, so that a list can be replayed and enumerated.

use crate::world::World;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type Tid = usize;
const STACK: usize = 2048 * 1024;
pub const SECOND: u64 = 1_000_000_000;

/// What choosing an alternative uses up.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cost {
    Free,
    Preempt,
    Fault,
    Crash,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Budget {
    pub preempt: u32,
    pub fault: u32,
    pub crash: u32,
}
impl Budget {
    fn take(&mut self, c: Cost) -> bool {
        let x = match c {
            Cost::Free => return true,
            Cost::Preempt => &mut self.preempt,
            Cost::Fault => &mut self.fault,
            Cost::Crash => &mut self.crash,
        };
        if *x == 0 {
            return false;
        }
        *x -= 1;
        true
    }
    fn has(&self, c: Cost) -> bool {
        let mut b = *self;
        b.take(c)
    }
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub budget: Budget,
    pub max_steps: u32,
    pub horizon: u64,
    /// Alternatives at a blocking point cost a pre-emption as well (delay bounding).
    pub delay_bounded: bool,
    /// So does handing over at a free point.
    pub strict: bool,
    pub trace: bool,
}

impl Default for Limits {
    fn default() -> Self {
        Limits { budget: Budget::default(), max_steps: 20_000, horizon: 7200 * SECOND, delay_bounded: false, strict: false, trace: false }
    }
}

enum State {
    Ready,
    Blocked { what: &'static str, cond: Box<dyn FnMut() -> bool>, deadline: Option<u64>, early: bool },
    Done,
}

struct Th {
    name: String,
    state: State,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    timed_out: bool,
    /// A thread of the environment: it does not count as part of the program.
    env: bool,
    park: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// The first thread of this run returned.
    Finished,
    /// `process::exit`
    Exit(i32),
    Crash,
    /// Nothing can ever run again; the blocked threads with what they wait for.
    Deadlock(Vec<(String, &'static str)>),
    /// The step limit was reached.
    Steps,
    /// Virtual time ran past the horizon; the blocked threads.
    Time(Vec<(String, &'static str)>),
}

enum Next {
    Run(Tid),
    End(End),
}

pub struct Rt {
    threads: Vec<Th>,
    cur: Tid,
    first: Tid,
    pub now: u64,
    pub steps: u32,
    limits: Limits,
    left: Budget,
    prefix: Vec<u16>,
    /// The choices made, and for each the alternatives that fitted the budget.
    pub path: Vec<u16>,
    pub alts: Vec<(usize, u16)>,
    pub panics: Vec<(String, String)>,
    next: Option<Next>,
    teardown: bool,
    wait_all: bool,
    pub world: World,
    pub log: Vec<String>,
    diverged: bool,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

/// The current execution. Callers never keep the reference across a `point` or `block`.
#[allow(clippy::mut_from_ref)]
pub fn rt<'a>() -> Option<&'a mut Rt> {
    let p = RT.with(|r| r.get());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

pub fn world<'a>() -> &'a mut World {
    &mut rt().expect("used outside of an execution").world
}

pub fn try_world<'a>() -> Option<&'a mut World> {
    rt().map(|r| &mut r.world)
}

/// Is the process being taken down? What destructors do then, a process that was killed did not.
pub fn dying() -> bool {
    rt().is_some_and(|r| r.teardown)
}

/// Is the caller a virtual thread that may give up control?
fn live<'a>() -> Option<&'a mut Rt> {
    let r = rt()?;
    if r.teardown || r.cur == usize::MAX || std::thread::panicking() { None } else { Some(r) }
}

/// Before every visible operation.
pub fn point(what: &'static str) {
    if let Some(r) = live() {
        r.at_point(what, false);
    }
}

/// As `point`, for the scripts that drive a program: handing over here costs nothing.
pub fn free_point(what: &'static str) {
    if let Some(r) = live() {
        r.at_point(what, true);
    }
}

/// Waits until `cond` holds; false if the deadline came first (never without one).
/// `early`: the deadline may also come, as a fault, while other threads could still run.
pub fn block(what: &'static str, deadline: Option<u64>, early: bool, mut cond: impl FnMut() -> bool + 'static) -> bool {
    if cond() {
        return true;
    }
    let Some(r) = live() else { return false };
    if deadline.is_some_and(|d| d <= r.now) {
        return false;
    }
    let cur = r.cur;
    r.threads[cur].state = State::Blocked { what, cond: Box::new(cond), deadline, early };
    r.threads[cur].timed_out = false;
    if r.limits.trace {
        let s = format!("[{}] waits: {}", r.threads[cur].name, what);
        r.log.push(s);
    }
    r.switch();
    !rt().unwrap().threads[cur].timed_out
}

/// An answer of the environment: 0 is the normal one, each other costs `cost`.
pub fn choose(what: &'static str, n: usize, cost: Cost) -> usize {
    let Some(r) = live() else { return 0 };
    r.pick(what, n, |i| if i == 0 { Cost::Free } else { cost })
}

pub fn now() -> u64 {
    rt().map_or(0, |r| r.now)
}

pub fn current() -> Tid {
    rt().map_or(usize::MAX, |r| r.cur)
}

pub fn current_name() -> String {
    rt().and_then(|r| r.threads.get(r.cur).map(|t| t.name.clone())).unwrap_or_default()
}

pub fn thread_name(t: Tid) -> String {
    rt().and_then(|r| r.threads.get(t).map(|t| t.name.clone())).unwrap_or_default()
}

pub fn note(f: impl FnOnce() -> String) {
    if let Some(r) = rt() {
        if r.limits.trace {
            let n = r.threads.get(r.cur).map_or("-", |t| t.name.as_str());
            let s = format!("[{}] {}", n, f());
            r.log.push(s);
        }
    }
}

pub fn spawn(name: String, env: bool, f: impl FnOnce() + 'static) -> Tid {
    rt().expect("thread started outside of an execution").spawn(name, env, Box::new(f))
}

pub fn is_done(t: Tid) -> bool {
    rt().map_or(true, |r| matches!(r.threads[t].state, State::Done))
}

/// Ends the process as `process::exit` does.
pub fn exit(code: i32) -> ! {
    let r = rt().expect("exit outside of an execution");
    r.next = Some(Next::End(End::Exit(code)));
    r.suspend();
    unreachable!("resumed after exit")
}

pub fn park_flag(t: Tid) -> &'static mut bool {
    &mut rt().expect("execution").threads[t].park
}

/// True if no other thread of the program can run now: all wait for input or for time to pass.
pub fn others_idle() -> bool {
    let r = rt().unwrap();
    let cur = r.cur;
    for t in 0..r.threads.len() {
        if t != cur && r.enabled(t) {
            return false;
        }
    }
    true
}

/// Waits until every other thread waits for input or time.
pub fn settle() {
    let Some(r) = live() else { return };
    let me = r.cur;
    block("for the others to be idle", None, false, move || {
        let r = rt().unwrap();
        (0..r.threads.len()).all(|t| t == me || matches!(r.threads[t].state, State::Blocked { what: "for the others to be idle", .. }) || !r.enabled(t))
    });
}

/// Lets virtual time pass.
pub fn sleep(ns: u64) {
    let Some(r) = live() else { return };
    let d = r.now + ns;
    block("sleeping", Some(d), false, || false);
}

/// Threads of the program (not of the environment) that have not ended.
pub fn program_threads() -> Vec<(String, &'static str)> {
    let r = rt().unwrap();
    let cur = r.cur;
    r.threads
        .iter()
        .enumerate()
        .filter(|(i, t)| !t.env && *i != cur && !matches!(t.state, State::Done))
        .map(|(_, t)| (t.name.clone(), if let State::Blocked { what, .. } = t.state { what } else { "running" }))
        .collect()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static HOOK: std::sync::Once = std::sync::Once::new();

/// Panics of virtual threads are recorded, not printed.
fn install_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if rt().is_some_and(|r| r.cur != usize::MAX) {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let text = format!("{} at {}", text_of(info.payload()), loc);
                LAST_PANIC.with(|l| *l.borrow_mut() = Some(text));
            } else {
                old(info)
            }
        }));
    });
}

/// Runs the body of a virtual thread and records its panic.
pub fn run_body<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let rt = rt().unwrap();
        if rt.teardown {
            resume_unwind(p)
        }
        let text = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| text_of(&*p));
        note(|| text.clone());
        rt.panics.push((rt.threads[rt.cur].name.clone(), text));
        p
    })
}

impl Drop for Rt {
    fn drop(&mut self) {
        let me: *mut Rt = self;
        let before = RT.with(|r| r.get());
        if self.threads.iter().any(|t| t.co.is_some()) {
            self.kill_all();
        }
        RT.with(|r| r.set(if before == me { std::ptr::null_mut() } else { before }));
    }
}

impl Rt {
    pub fn start(limits: Limits, prefix: Vec<u16>, world: World) -> Box<Rt> {
        install_hook();
        Box::new(Rt {
            threads: vec![],
            cur: usize::MAX,
            first: 0,
            now: 0,
            steps: 0,
            left: limits.budget,
            limits,
            prefix,
            path: vec![],
            alts: vec![],
            panics: vec![],
            next: None,
            teardown: false,
            wait_all: false,
            world,
            log: vec![],
            diverged: false,
        })
    }

    pub fn diverged(&self) -> bool {
        self.diverged
    }

    fn spawn(&mut self, name: String, env: bool, f: Box<dyn FnOnce()>) -> Tid {
        let tid = self.threads.len();
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            rt().unwrap().threads[tid].yielder = y;
            let _ = run_body(f);
        });
        self.threads.push(Th { name, state: State::Ready, co: Some(co), yielder: std::ptr::null(), timed_out: false, env, park: false });
        tid
    }

    /// Runs a process: `f` is its first thread. With `wait_all` the run ends when all threads have.
    pub fn run(self: &mut Box<Self>, name: &str, env: bool, wait_all: bool, f: impl FnOnce() + 'static) -> End {
        let me: *mut Rt = &mut **self;
        RT.with(|r| r.set(me));
        // from here on only through the pointer
        let r = unsafe { &mut *me };
        r.wait_all = wait_all;
        r.first = r.spawn(name.to_string(), env, Box::new(f));
        r.cur = r.first;
        let end = loop {
            let r = unsafe { &mut *me };
            let cur = r.cur;
            let mut co = r.threads[cur].co.take().expect("coroutine");
            let res = co.resume(());
            let r = unsafe { &mut *me };
            if let CoroutineResult::Return(()) = res {
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                r.threads[cur].state = State::Done;
                if r.limits.trace {
                    let s = format!("[{}] ended", r.threads[cur].name);
                    r.log.push(s);
                }
                if cur == r.first && !r.wait_all {
                    break End::Finished;
                }
                if r.threads[r.first..].iter().all(|t| matches!(t.state, State::Done)) {
                    break End::Finished;
                }
                r.schedule("end of a thread", false, false);
            } else {
                r.threads[cur].co = Some(co);
            }
            match r.next.take().expect("a decision") {
                Next::Run(t) => r.cur = t,
                Next::End(e) => break e,
            }
        };
        let r = unsafe { &mut *me };
        r.cur = usize::MAX;
        end
    }

    /// Threads of the current process that have not ended.
    pub fn leftover(&self) -> Vec<String> {
        self.threads[self.first..].iter().filter(|t| !matches!(t.state, State::Done)).map(|t| t.name.clone()).collect()
    }
    pub fn leftover_program(&self) -> Vec<String> {
        self.threads[self.first..].iter().filter(|t| !t.env && !matches!(t.state, State::Done)).map(|t| t.name.clone()).collect()
    }

    /// Kills what is left of the process.
    pub fn kill(self: &mut Box<Self>) {
        (**self).kill_all()
    }

    fn kill_all(&mut self) {
        let me: *mut Rt = self;
        RT.with(|r| r.set(me));
        let r = unsafe { &mut *me };
        r.teardown = true;
        for i in 0..r.threads.len() {
            let r = unsafe { &mut *me };
            if let Some(mut co) = r.threads[i].co.take() {
                if !co.done() {
                    co.force_unwind();
                    STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                }
            }
            let r = unsafe { &mut *me };
            r.threads[i].state = State::Done;
        }
        let r = unsafe { &mut *me };
        r.teardown = false;
    }

    pub fn finish(mut self: Box<Self>) -> Box<Rt> {
        self.kill();
        // objects in the world may be dropped by shims that look for the execution
        let me: *mut Rt = &mut *self;
        let w = std::mem::take(unsafe { &mut (*me).world.user });
        drop(w);
        RT.with(|r| r.set(std::ptr::null_mut()));
        self
    }

    fn enabled(&mut self, t: Tid) -> bool {
        let th: *mut Th = &mut self.threads[t];
        match unsafe { &mut (*th).state } {
            State::Ready => true,
            State::Blocked { cond, .. } => cond(),
            State::Done => false,
        }
    }

    fn at_point(&mut self, what: &'static str, free: bool) {
        if self.limits.trace {
            let s = format!("[{}] {}", self.threads[self.cur].name, what);
            self.log.push(s);
        }
        self.steps += 1;
        if self.steps > self.limits.max_steps {
            self.next = Some(Next::End(End::Steps));
            return self.suspend();
        }
        let me = self.cur;
        self.schedule(what, true, free);
        match self.next {
            Some(Next::Run(t)) if t == me => self.next = None,
            _ => self.suspend(),
        }
    }

    fn switch(&mut self) {
        self.steps += 1;
        if self.steps > self.limits.max_steps {
            self.next = Some(Next::End(End::Steps));
            return self.suspend();
        }
        let me = self.cur;
        self.schedule("wait", false, false);
        match self.next {
            Some(Next::Run(t)) if t == me => self.next = None,
            _ => self.suspend(),
        }
    }

    fn suspend(&mut self) {
        let y = self.threads[self.cur].yielder;
        unsafe { (*y).suspend(()) };
    }

    fn waiting(&self) -> Vec<(String, &'static str)> {
        self.threads[self.first..]
            .iter()
            .filter_map(|t| if let State::Blocked { what, .. } = t.state { Some((t.name.clone(), what)) } else { None })
            .collect()
    }

    /// Decides who continues.
    fn schedule(&mut self, what: &'static str, cur_ready: bool, free: bool) {
        loop {
            // (thread, timed out, cost); the default comes first
            let mut opts: Vec<(Option<Tid>, bool, Cost)> = Vec::with_capacity(8);
            let n = self.threads.len();
            if cur_ready {
                opts.push((Some(self.cur), false, Cost::Free));
            }
            let base = if self.cur < n { self.cur } else { self.first };
            let other = if cur_ready && (!free || self.limits.strict) || !cur_ready && self.limits.delay_bounded { Cost::Preempt } else { Cost::Free };
            for k in 1..=n {
                let t = (base + k) % n;
                if t < self.first || cur_ready && t == self.cur {
                    continue;
                }
                if self.enabled(t) {
                    let c = if opts.is_empty() { Cost::Free } else { other };
                    opts.push((Some(t), false, c));
                }
            }
            if opts.is_empty() {
                // nobody can run: time passes
                let first = self.threads[self.first..]
                    .iter()
                    .filter_map(|t| if let State::Blocked { deadline: Some(d), .. } = t.state { Some(d) } else { None })
                    .min();
                let Some(d) = first else {
                    self.next = Some(Next::End(End::Deadlock(self.waiting())));
                    return;
                };
                if d > self.limits.horizon {
                    self.next = Some(Next::End(End::Time(self.waiting())));
                    return;
                }
                self.now = self.now.max(d);
                for t in self.first..n {
                    if let State::Blocked { deadline: Some(x), .. } = self.threads[t].state {
                        if x <= d {
                            let c = if opts.is_empty() { Cost::Free } else if self.limits.delay_bounded { Cost::Preempt } else { Cost::Free };
                            opts.push((Some(t), true, c));
                        }
                    }
                }
            } else if self.left.fault > 0 {
                for t in self.first..n {
                    if let State::Blocked { deadline: Some(_), early: true, .. } = self.threads[t].state {
                        if !self.enabled(t) {
                            opts.push((Some(t), true, Cost::Fault));
                        }
                    }
                }
            }
            if self.world.crash_enabled && self.world.crash_seen != self.world.effects {
                self.world.crash_seen = self.world.effects;
                opts.push((None, false, Cost::Crash));
            }
            let i = self.pick(what, opts.len(), |i| opts[i].2);
            let (t, timeout, _) = opts[i];
            let Some(t) = t else {
                self.next = Some(Next::End(End::Crash));
                return;
            };
            if timeout {
                if let State::Blocked { deadline: Some(d), .. } = self.threads[t].state {
                    self.now = self.now.max(d);
                }
                self.threads[t].timed_out = true;
                self.threads[t].state = State::Ready;
                if self.limits.trace {
                    let s = format!("[{}] time out at {:.1} s", self.threads[t].name, self.now as f64 / 1e9);
                    self.log.push(s);
                }
            } else if let State::Blocked { .. } = self.threads[t].state {
                self.threads[t].timed_out = false;
                self.threads[t].state = State::Ready;
            }
            self.next = Some(Next::Run(t));
            return;
        }
    }

    fn pick(&mut self, what: &'static str, n: usize, cost: impl Fn(usize) -> Cost) -> usize {
        if n <= 1 {
            return 0;
        }
        let allowed: Vec<u16> = (0..n).filter(|i| *i == 0 || self.left.has(cost(*i))).map(|i| i as u16).collect();
        if allowed.len() == 1 {
            return 0;
        }
        let at = self.path.len();
        let i = match self.prefix.get(at) {
            Some(&i) if allowed.contains(&i) => i,
            Some(_) => {
                self.diverged = true;
                0
            }
            None => 0,
        };
        if at >= self.prefix.len() {
            for a in &allowed[1..] {
                self.alts.push((at, *a));
            }
        }
        self.left.take(cost(i as usize));
        self.path.push(i);
        if self.limits.trace && i != 0 {
            let s = format!("  -- choice {} of {} at \"{}\" ({:?})", i, n, what, cost(i as usize));
            self.log.push(s);
        }
        i as usize
    }
}

fn text_of(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {}", s)
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {}", s)
    } else {
        "panic".into()
    }
}
