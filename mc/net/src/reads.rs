//! C21: mixes of blocking and non-blocking reads by a thread of their own.
use crate::sys::{run, Job};
use mcx::Ctx;
use std::cell::RefCell;
use std::rc::Rc;
use vmc_std::rt::{self, SECOND};

pub fn mix_name(mix: &[bool]) -> String {
    mix.iter().map(|b| if *b { 'r' } else { 't' }).collect()
}

/// What was reported and not read yet, if the reader's channel is known.
fn waiting() -> u64 {
    let w = rt::world();
    w.channels.get(w.last_channel).map_or(0, |c| c.0 - c.1)
}

pub fn read<E>(
    mix: &[bool],
    spin: bool,
    bad: &Rc<RefCell<Option<String>>>,
    gone: &Rc<RefCell<bool>>,
    recv: impl Fn() -> Option<(E, usize)>,
    try_recv: impl Fn() -> Option<Option<E>>,
    on: impl Fn(E),
) {
    let mut channel = usize::MAX;
    let mut i = 0;
    let mut rounds = 0;
    loop {
        let blocking = mix.get(i).copied().unwrap_or(!spin);
        i += 1;
        rt::world().last_channel = channel;
        let before = waiting();
        let at_start = *gone.borrow();
        let r = if blocking { recv().map(|e| Some(e.0)) } else { try_recv() };
        if channel == usize::MAX {
            channel = rt::world().last_channel;
        }
        rt::world().last_channel = channel;
        match r {
            Some(Some(e)) => on(e),
            Some(None) => {
                if before > 0 {
                    *bad.borrow_mut() = Some(format!("{} reported events were waiting and a non-blocking read returned none", before));
                }
                if at_start && rt::program_threads().is_empty() && rounds > 100 {
                    *bad.borrow_mut() = Some("the node is gone, all is read, and a non-blocking read does not say so".into());
                    return;
                }
                rounds += 1;
                if i >= mix.len() {
                    rt::sleep(SECOND * 7 / 10 + 13);
                }
            }
            None => {
                if !*gone.borrow() {
                    *bad.borrow_mut() = Some("a read says the node is gone while it is running".into());
                } else if waiting() > 0 {
                    *bad.borrow_mut() = Some(format!("a read says the node is gone with {} events unread", waiting()));
                }
                // and it stays so
                if recv().is_some() || !matches!(try_recv(), None) {
                    *bad.borrow_mut() = Some("a read after the node was reported gone says otherwise".into());
                }
                return;
            }
        }
    }
}

fn mixes(n: usize) -> Vec<Vec<bool>> {
    (0..=n).flat_map(|k| (0..1u32 << k).map(move |m| (0..k).map(|i| m >> i & 1 == 1).collect())).collect()
}
fn scripts(alphabet: &[char], n: usize) -> Vec<Vec<char>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<char>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|w| alphabet.iter().map(move |c| w.iter().cloned().chain([*c]).collect())).collect();
        all.extend(last.clone());
    }
    all
}

pub fn check(ctx: &Ctx) {
    ctx.assume("sequentially consistent memory; threads are switched at synchronisation, channel, socket and time operations only");
    if !crate::udp::learn(ctx) {
        return;
    }
    let mut jobs: Vec<Job> = crate::volume::udp(ctx);
    jobs.extend(crate::volume::tcp(ctx));
    run(ctx, "long histories", &jobs, 1000);
    let mut jobs: Vec<Job> = vec![];
    let (k, n) = (ctx.tier(3, 4), ctx.tier(3, 4));
    for mix in mixes(k) {
        for spin in [false, true] {
            for s in scripts(&['U', 'V', 'A', 'i'], n) {
                let t = s.len() + mix.len();
                let p = if t <= ctx.tier(2, 3) { 2 } else if t <= ctx.tier(3, 5) { 1 } else { 0 };
                if t <= ctx.tier(4, 6) {
                    jobs.push(crate::tcp::readers(&mix, &s, p, spin));
                }
            }
            // c: an unknown sender; s: a short datagram; f: a connect request that fails; d: a connection's datagram
            for s in scripts(&['c', 's', 'f', 'i', 'd'], n) {
                let t = s.len() + mix.len();
                let p = if t <= ctx.tier(1, 2) { 2 } else if t <= ctx.tier(2, 4) { 1 } else { 0 };
                if t <= ctx.tier(3, 5) {
                    jobs.push(crate::udp::readers(&mix, &s, p, spin));
                }
            }
        }
    }
    run(ctx, "schedules of reads", &jobs, 200_000_000);
}
