//! C33: the UDP node makes every opening from entropy of its own.
use crate::sys::{budget, run, sound, Job};
use crate::udp::{is_opening, name, words, Op, Op::*, Out, Scenario, Tok, SIZE};
use mcx::Ctx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::rc::Rc;
use vmc_std::rt::{Limits, Rt};
use vmc_std::world::{Faults, World};

/// The parts of the openings that were sent, in the order of the script.
type Openings = Vec<(SocketAddr, Vec<u8>, Vec<u8>)>;

fn openings(rt: &mut Box<Rt>, sc: &Scenario, key: u64, odd: Option<usize>) -> Result<(Openings, usize), String> {
    rt.world = World { random_stream: Some(key), random_odd: odd, faults: sc.faults, ..World::default() };
    let out = Rc::new(RefCell::new(Out::default()));
    let (o, s) = (out.clone(), sc.clone());
    let end = rt.run("user", true, false, move || crate::udp::drive(&s, &o));
    sound(rt, &end)?;
    let sent = rt.world.sent.iter().filter(|s| s.ok && is_opening(&s.data)).map(|s| (s.to, s.data[..32].to_vec(), s.data[32..1120].to_vec())).collect();
    let n = rt.world.random_bytes;
    rt.kill();
    rt.world.process_died();
    Ok((sent, n))
}

fn job(script: Vec<Op>, key: u64) -> Job {
    let sc = Scenario { script, limits: Limits { max_steps: 100_000_000, horizon: 1 << 60, delay_bounded: true, strict: true, ..budget(0, 0, 0) }, faults: Faults::default(), async_stop: false, calm: true };
    Job {
        key: format!("{} [stream {}]", name(&sc.script), key),
        limits: sc.limits.clone(),
        world: Box::new(World::default),
        body: Box::new(move |rt: &mut Box<Rt>| {
            let (base, drawn) = openings(rt, &sc, key, None)?;
            for (i, x) in base.iter().enumerate() {
                for (j, y) in base.iter().enumerate().take(i) {
                    if x.1 == y.1 || x.2 == y.2 {
                        return Err(format!("openings {} and {} have a key in common", j + 1, i + 1));
                    }
                }
            }
            // which of the bytes drawn reach which part of which opening
            let mut reach: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
            for at in 0..drawn {
                let (with, _) = openings(rt, &sc, key, Some(at))?;
                if with.len() != base.len() || with.iter().zip(&base).any(|(a, b)| a.0 != b.0) {
                    return Err(format!("byte {} of the entropy decides who gets an opening", at));
                }
                let mut whose = vec![];
                for (i, (a, b)) in with.iter().zip(&base).enumerate() {
                    for (part, changed) in [(0, a.1 != b.1), (1, a.2 != b.2)] {
                        if changed {
                            reach.entry((i, part)).or_default().push(at);
                            whose.push(i);
                        }
                    }
                }
                whose.dedup();
                if whose.len() > 1 {
                    return Err(format!("openings {} and {} share byte {} of the entropy", whose[0] + 1, whose[1] + 1, at));
                }
            }
            for i in 0..base.len() {
                for (part, what) in [(0, "curve"), (1, "lattice")] {
                    let n = reach.get(&(i, part)).map_or(0, |v| v.len());
                    if n < 32 {
                        return Err(format!("the {} key of opening {} is made from {} bytes of entropy", what, i + 1, n));
                    }
                }
            }
            Ok(format!("{} openings", base.len()))
        }),
    }
}

pub fn check(ctx: &Ctx) {
    ctx.assume("the operating system's random generator, as reached through the rand crate, is the only source of entropy");
    let d = |c| Dg(c, SIZE, Tok::Is(0xEE));
    // requests, datagrams that start openings, failing requests, datagrams that do not
    let alphabet = [Connect('A', 'X'), Connect('A', 'Y'), Connect('B', 'X'), d('A'), d('B'), Dg('A', 7, Tok::Is(1))];
    let mut scripts: Vec<Vec<Op>> = vec![];
    for n in 2..=ctx.tier(4, 5) {
        for w in words(&alphabet, n) {
            // only those that bring something new at the end
            let starts = |w: &[Op]| {
                let mut wait: Vec<char> = vec![];
                let mut k = 0;
                for o in w {
                    match o {
                        Connect(a, _) if !wait.contains(a) => wait.push(*a),
                        Dg(a, SIZE, _) if wait.contains(a) => {
                            wait.retain(|x| x != a);
                            k += 1;
                        }
                        _ => {}
                    }
                }
                k
            };
            if starts(&w) > starts(&w[..n - 1]) {
                scripts.push(w);
            }
        }
    }
    // many openings, for one peer and for several
    for many in [3, ctx.tier(5, 8)] {
        let one: Vec<Op> = (0..many).flat_map(|_| [Connect('A', 'X'), d('A')]).collect();
        let turns: Vec<Op> = (0..many).flat_map(|i| { let a = ['A', 'B', 'C'][i % 3]; [Connect(a, ['X', 'Y', 'Z'][i / 3 % 3]), Local('X'), d(a), Idle] }).collect();
        let first: Vec<Op> = ['A', 'B', 'C'].iter().map(|a| Connect(*a, 'X')).chain(['C', 'A', 'B'].iter().map(|a| d(*a))).collect();
        scripts.extend([one, turns, first]);
    }
    let jobs: Vec<Job> = scripts.into_iter().flat_map(|s| (0..ctx.tier(1, 3)).map(move |k| (s.clone(), k))).map(|(s, k)| job(s, ctx.seed + 1000 * k)).collect();
    run(ctx, "entropy of openings", &jobs, 200_000_000);
}
