//! Enumeration of all executions of scenarios within their budgets, on all cores.

use crate::rt::Rt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

pub struct Stats {
    pub executions: AtomicU64,
    pub steps: AtomicU64,
    pub choices: AtomicU64,
    pub diverged: AtomicU64,
    pub longest: AtomicU64,
    pub capped: AtomicBool,
}

fn branches(r: &Rt) -> Vec<Vec<u16>> {
    let next = |(at, alt): &(usize, u16)| {
        let mut p = Vec::with_capacity(at + 1);
        p.extend_from_slice(&r.path[..*at]);
        p.push(*alt);
        p
    };
    r.alts.iter().map(next).collect()
}

/// Runs `exec(scenario, prefix)` for every scenario and every list of choices; `exec` performs one execution to its
/// end and returns it. Stops early once `stop` is set. `cap`: executions per call after which the rest is dropped,
/// and so it is once `late` says so; the default execution of every scenario comes first and is never dropped.
pub fn explore<F>(scenarios: usize, cap: u64, stop: &dyn Fn() -> bool, late: &dyn Fn() -> bool, exec: F) -> Stats
where
    F: Fn(usize, Vec<u16>) -> Box<Rt> + Sync,
{
    let stats = Stats {
        executions: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        choices: AtomicU64::new(0),
        diverged: AtomicU64::new(0),
        longest: AtomicU64::new(0),
        capped: AtomicBool::new(false),
    };
    let count = |r: &Rt, p: usize| {
        stats.steps.fetch_add(r.steps as u64, Ordering::Relaxed);
        stats.choices.fetch_add((r.path.len() - p.min(r.path.len())) as u64, Ordering::Relaxed);
        stats.longest.fetch_max(r.steps as u64, Ordering::Relaxed);
        if r.diverged() {
            stats.diverged.fetch_add(1, Ordering::Relaxed);
        }
        stats.executions.fetch_add(1, Ordering::Relaxed) + 1
    };
    let queue: Mutex<Vec<(usize, Vec<u16>)>> = Mutex::new(vec![]);
    let default = AtomicUsize::new(0);
    let active = AtomicUsize::new(0);
    let halt = AtomicBool::new(false);
    let stopped = AtomicBool::new(false);
    let cv = Condvar::new();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let barrier = std::sync::Barrier::new(n);
    std::thread::scope(|sc| {
        let worker = || {
            let mut local: Vec<(usize, Vec<u16>)> = vec![];
            loop {
                if stopped.load(Ordering::Relaxed) {
                    break;
                }
                let s = default.fetch_add(1, Ordering::SeqCst);
                if s >= scenarios {
                    break;
                }
                let r = exec(s, vec![]);
                count(&r, 0);
                queue.lock().unwrap().extend(branches(&r).into_iter().map(|p| (s, p)));
            }
            barrier.wait();
            loop {
                if halt.load(Ordering::Relaxed) {
                    return;
                }
                let item = match local.pop() {
                    Some(i) => i,
                    None => {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if halt.load(Ordering::Relaxed) {
                                return;
                            }
                            if let Some(i) = q.pop() {
                                active.fetch_add(1, Ordering::SeqCst);
                                break i;
                            }
                            if active.load(Ordering::SeqCst) == 0 {
                                cv.notify_all();
                                return;
                            }
                            q = cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
                        }
                    }
                };
                let p = item.1.len();
                let r = exec(item.0, item.1);
                let e = count(&r, p);
                local.extend(branches(&r).into_iter().map(|p| (item.0, p)));
                drop(r);
                if e >= cap {
                    stats.capped.store(true, Ordering::Relaxed);
                    halt.store(true, Ordering::Relaxed);
                }
                if local.len() > 1 {
                    // share the oldest half when others are idle
                    if let Ok(mut q) = queue.try_lock() {
                        if q.len() < n {
                            let k = local.len() / 2;
                            q.extend(local.drain(..k));
                            cv.notify_all();
                        }
                    }
                }
                if local.is_empty() {
                    active.fetch_sub(1, Ordering::SeqCst);
                    cv.notify_all();
                }
            }
        };
        let hs: Vec<_> = (0..n).map(|_| sc.spawn(worker)).collect();
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            if stop() {
                stopped.store(true, Ordering::Relaxed);
                halt.store(true, Ordering::Relaxed);
                cv.notify_all();
            } else if late() && !halt.load(Ordering::Relaxed) && !hs.iter().all(|h| h.is_finished()) {
                stats.capped.store(true, Ordering::Relaxed);
                halt.store(true, Ordering::Relaxed);
                cv.notify_all();
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    });
    stats
}
