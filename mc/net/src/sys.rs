//! Jobs: programs under the controlled scheduler, all of whose executions within the budget are checked.
use mcx::serde_json::json;
use mcx::Ctx;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vmc_std::explore::explore;
use vmc_std::rt::{Budget, End, Limits, Rt};
use vmc_std::world::World;

pub type Body = Box<dyn Fn(&mut Box<Rt>) -> Result<String, String> + Sync + Send>;

pub struct Job {
    pub key: String,
    pub limits: Limits,
    pub world: Box<dyn Fn() -> World + Sync + Send>,
    pub body: Body,
}

pub fn budget(preempt: u32, fault: u32, crash: u32) -> Limits {
    Limits { budget: Budget { preempt, fault, crash }, ..Limits::default() }
}

struct Logger;
fn push(level: u8, s: String) {
    if let Some(w) = vmc_std::rt::try_world() {
        if level > w.log_level {
            return;
        }
        vmc_std::rt::note(|| format!("log {}: {}", level, s));
        w.effects += 1;
        w.logs.push((level, s));
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        push(r.level() as u8, r.args().to_string());
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

struct Sub;
struct Text(String);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        if f.name() == "message" {
            let _ = write!(self.0, "{:?} ", v);
        } else {
            let _ = write!(self.0, "{}={:?} ", f.name(), v);
        }
    }
}
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        let level = match *e.metadata().level() {
            tracing::Level::ERROR => 1,
            tracing::Level::WARN => 2,
            tracing::Level::INFO => 3,
            _ => 4,
        };
        push(level, t.0.trim_end().to_string());
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

pub fn install() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        let _ = log::set_logger(&LOGGER);
        log::set_max_level(log::LevelFilter::Trace);
        let _ = tracing::subscriber::set_global_default(Sub);
    });
}

/// The ways an execution can be wrong whatever the property says.
pub fn sound(rt: &Rt, end: &End) -> Result<(), String> {
    if let Some((t, p)) = rt.panics.first() {
        return Err(format!("thread {} panicked: {}", t, p));
    }
    match end {
        End::Finished | End::Exit(_) | End::Crash => Ok(()),
        End::Deadlock(w) => Err(format!("nothing can continue: {}", show(w))),
        End::Steps => Err("a thread runs without end".into()),
        End::Time(w) => Err(format!("waits without end: {}", show(w))),
    }
}
pub fn show(w: &[(String, &'static str)]) -> String {
    w.iter().map(|(t, x)| format!("{} for {}", t, x)).collect::<Vec<_>>().join(", ")
}

fn one(job: &Job, prefix: Vec<u16>, trace: bool) -> (Box<Rt>, Result<String, String>) {
    let mut limits = job.limits.clone();
    limits.trace = trace;
    let mut rt = Rt::start(limits, prefix, (job.world)());
    let r = (job.body)(&mut rt);
    (rt.finish(), r)
}

fn top(counts: &[AtomicU64], jobs: &[Job]) {
    let mut v: Vec<(u64, &str)> = counts.iter().zip(jobs).map(|(c, j)| (c.load(Ordering::Relaxed), j.key.as_str())).collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    v.iter().take(25).for_each(|x| eprintln!("{:>9} {}", x.0, x.1));
}

/// Explores all jobs; returns the number of executions.
pub fn run(ctx: &Ctx, label: &str, jobs: &[Job], cap: u64) -> u64 {
    install();
    if let Some(r) = &ctx.replay {
        if let Some(j) = jobs.iter().find(|j| Some(j.key.as_str()) == r["key"].as_str()) {
            let prefix: Vec<u16> = r["replay"]["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u16).collect()).unwrap_or_default();
            let (rt, res) = one(j, prefix, true);
            for l in &rt.log {
                println!("  {}", l);
            }
            match res {
                Ok(o) => println!("  outcome: {}", o),
                Err(e) => ctx.fail(&j.key, &e, json!(null)),
            }
        }
        return 0;
    }
    if ctx.stopped() {
        return 0;
    }
    let counts: Vec<AtomicU64> = jobs.iter().map(|_| Default::default()).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let stats = std::thread::scope(|sc| {
    if let Some(t) = std::env::var("MC_TOP").ok().and_then(|t| t.parse::<u64>().ok()).filter(|t| *t > 1) {
        let (counts, done) = (&counts, &done);
        sc.spawn(move || {
            for _ in 0..t * 10 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if done.load(Ordering::Relaxed) {
                    return;
                }
            }
            top(counts, jobs);
            std::process::exit(3);
        });
    }
    let stats = explore(jobs.len(), cap, &|| ctx.stopped(), &|| ctx.late(), |s, prefix| {
        let job = &jobs[s];
        counts[s].fetch_add(1, Ordering::Relaxed);
        let (rt, res) = one(job, prefix, false);
        ctx.steps(rt.steps as u64);
        ctx.state(&(&job.key, &rt.path));
        ctx.trace();
        match res {
            Ok(o) => ctx.outcome(&o),
            Err(e) => {
                if !ctx.stopped() {
                    let (t, again) = one(job, rt.path.clone(), true);
                    let log: Vec<String> = t.log.iter().rev().take(400).rev().cloned().collect();
                    match again {
                        Err(e2) if e2 == e => ctx.fail(&job.key, &e, json!({"choices": rt.path, "trace": log})),
                        other => {
                            eprintln!("not reproducible: {:?} / {:?} in {}", e, other, job.key);
                            std::process::exit(3)
                        }
                    }
                }
            }
        }
        rt
    });
    done.store(true, Ordering::Relaxed);
    stats
    });
    let n = stats.executions.load(Ordering::Relaxed);
    if stats.diverged.load(Ordering::Relaxed) > 0 {
        eprintln!("executions diverged from their prefix");
        std::process::exit(3);
    }
    if stats.capped.load(Ordering::Relaxed) {
        println!("{}: not exhausted, {} executions in {:.0} s", label, n, ctx.elapsed().as_secs_f64());
    }
    ctx.note(
        label,
        json!({"scenarios": jobs.len(), "schedules": n, "steps": stats.steps.load(Ordering::Relaxed), "choices": stats.choices.load(Ordering::Relaxed),
            "longest_execution": stats.longest.load(Ordering::Relaxed), "complete": !ctx.stopped() && !stats.capped.load(Ordering::Relaxed)}),
    );
    if std::env::var("MC_TOP").is_ok() {
        top(&counts, jobs);
    }
    eprintln!("{}: {} scenarios, {} executions, {:.1} s", label, jobs.len(), n, ctx.elapsed().as_secs_f64());
    n
}

/// The controlled scheduler finds the races and deadlocks planted in small programs, and only those.
pub fn litmus(ctx: &Ctx) {
    use vmc_std::sync::atomic::{AtomicU32, Ordering as O};
    use vmc_std::sync::{mpsc, Arc, Mutex};
    use vmc_std::thread;
    fn outcomes(limits: Limits, f: fn() -> String) -> std::collections::BTreeSet<String> {
        let out = std::sync::Mutex::new(std::collections::BTreeSet::new());
        explore(1, 1_000_000, &|| false, &|| false, |_, prefix| {
            let mut rt = Rt::start(limits.clone(), prefix, World::default());
            let o = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
            let o2 = o.clone();
            let end = rt.run("main", false, false, move || *o2.borrow_mut() = f());
            let s = match end {
                End::Finished => o.borrow().clone(),
                e => format!("{:?}", e).split('(').next().unwrap().to_string(),
            };
            out.lock().unwrap().insert(s);
            rt.finish()
        });
        out.into_inner().unwrap()
    }
    fn lost_update() -> String {
        let x = Arc::new(AtomicU32::new(0));
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let x = x.clone();
                thread::spawn(move || {
                    let v = x.load(O::SeqCst);
                    x.store(v + 1, O::SeqCst);
                })
            })
            .collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        x.load(O::SeqCst).to_string()
    }
    fn locks() -> String {
        let (a, b) = (Arc::new(Mutex::new(())), Arc::new(Mutex::new(())));
        let (a2, b2) = (a.clone(), b.clone());
        let h = thread::spawn(move || {
            let _x = a2.lock().unwrap();
            let _y = b2.lock().unwrap();
        });
        {
            let _y = b.lock().unwrap();
            let _x = a.lock().unwrap();
        }
        h.join().unwrap();
        "done".into()
    }
    fn channel() -> String {
        let (s, r) = mpsc::channel();
        let hs: Vec<_> = (0..2)
            .map(|i| {
                let s = s.clone();
                thread::spawn(move || {
                    s.send(i * 2).unwrap();
                    s.send(i * 2 + 1).unwrap();
                })
            })
            .collect();
        drop(s);
        let v: Vec<String> = r.iter().map(|x: u32| x.to_string()).collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        v.concat()
    }
    let set = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>();
    if ctx.replay.is_some() {
        return;
    }
    let got = (outcomes(budget(1, 0, 0), lost_update), outcomes(budget(0, 0, 0), lost_update), outcomes(budget(2, 0, 0), locks), outcomes(budget(3, 0, 0), channel));
    assert!(got.0 == set(&["1", "2"]) && got.1 == set(&["2"]) && got.2 == set(&["Deadlock", "done"]), "the scheduler does not explore as it should: {:?}", got);
    assert_eq!(got.3, set(&["0123", "0213", "0231", "2013", "2031", "2301"]));
    ctx.note("scheduler_litmus", json!("lost update, lock-order deadlock and channel orders found exactly"));
}
