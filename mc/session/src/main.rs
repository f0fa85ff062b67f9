#![allow(deprecated)]
mod evil;
mod world;

use curve25519_dalek::{constants::EIGHT_TORSION, edwards::CompressedEdwardsY};
use base64::{decode as b64d, encode as b64e};
use evil::*;
use mcx::{serde_json, Ctx};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::str::FromStr;
use world::*;

fn main() {
    let ctx = Ctx::from_args();
    ctx.assume("hash, AEAD and curve arithmetic of the sha3, chacha20poly1305 and curve25519-dalek crates are trusted");
    std::process::exit(ctx.decide(|| {
        match ctx.id.as_str() {
            "C09" => c09(&ctx),
            "C10" => c10(&ctx),
            "C11" => c11(&ctx),
            "C12" => c12(&ctx),
            "C13" => c13(&ctx),
            "C14" => c14(&ctx),
            "C32" => c32(&ctx),
            x => panic!("unknown property {}", x),
        }
    }));
}

// ---------------------------------------------------------------- forms of key objects

const PK_FORMS: [&str; 4] = ["computed", "cloned", "re-read", "deserialised"];
fn pk_form(pk: &PublicKey, f: usize) -> Result<PublicKey, String> {
    Ok(match f {
        0 | 1 => pk.clone(),
        2 => PublicKey::decompress(pk.compress()),
        3 => bincode::deserialize(&bincode::serialize(pk).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        _ => serde_json::from_str(&serde_json::to_string(pk).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
    })
}
fn id_form(id: &Identity, f: usize) -> Result<Identity, String> {
    Ok(match f {
        0 | 1 => id.clone(),
        2 => id.to_string().parse().map_err(|e| format!("identity text refused: {:?}", e))?,
        3 => bincode::deserialize(&bincode::serialize(id).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        _ => serde_json::from_str(&serde_json::to_string(id).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
    })
}

// ---------------------------------------------------------------- C09

/// An exchange with payload types of any length.
macro_rules! exchange {
    ($s:expr, $P:ty, $Q:ty, $R:ty, $S:ty, $fill:expr) => {{
        let s: &Session = $s;
        let fill = $fill;
        let mk = |i: usize, n: usize| -> Vec<u8> { (0..n).map(|j| (fill as usize * (j + 1) + i * 77 + j / 7) as u8).collect() };
        let np = <$P as LineValid>::clone_line(&<$P>::default()).len();
        let nq = <$Q as LineValid>::clone_line(&<$Q>::default()).len();
        let nr = <$R as LineValid>::clone_line(&<$R>::default()).len();
        let ns = <$S as LineValid>::clone_line(&<$S>::default()).len();
        let (p, q, r, t) = (mk(0, np), mk(1, nq), mk(2, nr), mk(3, ns));
        let (si, m0) = s.out0();
        let (sr, m1) = xx::take0_out1::<$P>(
            &Concat(arr(&s.seeds.e[1]), arr(&s.seeds.pq[2])), &s.claim, &s.r.pk, &s.r.sk, m0, Line::clone_array(Array::from_slice(&p)),
        );
        let (si, pk, gp, m2) = xx::take1_out2::<$P, $Q, $R>(
            &Concat(arr(&s.seeds.pq[0]), arr(&s.seeds.pq[1])), si, &s.i.pk, &s.i.sk, m1,
            Line::clone_array(Array::from_slice(&q)), Line::clone_array(Array::from_slice(&r)),
        )
        .map_err(|e| format!("initiator refused message 1: {}", e))?;
        let (mut rc, rh, ipk, gq, gr, m3) = xx::take2_out3::<$Q, $R, $S, TrivialRotor>(
            Array::from_slice(&s.seeds.pq[3]), sr, &s.r.pk, &s.r.sk, m2, Line::clone_array(Array::from_slice(&t)),
        )
        .map_err(|e| format!("responder refused message 2: {}", e))?;
        let (mut ic, ih, gs) = xx::take_3::<$S, TrivialRotor>(si, &s.i.pk, &s.i.sk, m3).map_err(|e| format!("initiator refused message 3: {}", e))?;
        if ih != rh {
            return Err("session hashes differ".into());
        }
        if bytes_of(&pk) != bytes_of(&s.r.pk) || bytes_of(&ipk) != bytes_of(&s.i.pk) {
            return Err("a party reports a wrong peer key".into());
        }
        for (n, (g, w)) in [(gp.clone_line().to_vec(), &p), (gq.clone_line().to_vec(), &q), (gr.clone_line().to_vec(), &r), (gs.clone_line().to_vec(), &t)]
            .into_iter()
            .enumerate()
        {
            if g != *w {
                return Err(format!("payload {} of {} bytes arrived changed", n, w.len()));
            }
        }
        talk(&mut ic, &mut rc)
    }};
}

/// A session with payloads of one type, of which bit `bit` of payload `which` or its tag is changed on the way.
macro_rules! corrupt {
    ($s:expr, $T:ty, $which:expr, $bit:expr) => {{
        let s: &Session = $s;
        // the payload as it is sent: its bytes, then the tag
        macro_rules! flip { ($w:expr, $p:expr) => {
            if $w == $which {
                let p = &mut $p;
                let n = p.0.len();
                let b = if $bit / 8 < n { &mut p.0[$bit / 8] } else { &mut p.1[$bit / 8 - n] };
                *b ^= 1 << ($bit % 8);
            }
        } }
        let (si, m0) = s.out0();
        let (sr, mut m1) = xx::take0_out1::<$T>(&Concat(arr(&s.seeds.e[1]), arr(&s.seeds.pq[2])), &s.claim, &s.r.pk, &s.r.sk, m0, Default::default());
        flip!(0, (m1.0).1);
        match xx::take1_out2::<$T, $T, $T>(&Concat(arr(&s.seeds.pq[0]), arr(&s.seeds.pq[1])), si, &s.i.pk, &s.i.sk, m1, Default::default(), Default::default()) {
            Err(_) if $which == 0 => Ok(()),
            Err(e) => Err(format!("an unchanged message 1 was refused: {}", e)),
            Ok(_) if $which == 0 => Err("the initiator accepted a changed message 1".to_string()),
            Ok((si, _, _, mut m2)) => {
                flip!(1, (m2.0).1);
                flip!(2, (m2.2).1);
                match xx::take2_out3::<$T, $T, $T, TrivialRotor>(Array::from_slice(&s.seeds.pq[3]), sr, &s.r.pk, &s.r.sk, m2, Default::default()) {
                    Err(_) if $which < 3 => Ok(()),
                    Err(e) => Err(format!("an unchanged message 2 was refused: {}", e)),
                    Ok(_) if $which < 3 => Err("the responder accepted a changed message 2".to_string()),
                    Ok((_, _, _, _, _, mut m3)) => {
                        flip!(3, m3.1);
                        match xx::take_3::<$T, TrivialRotor>(si, &s.i.pk, &s.i.sk, m3) {
                            Err(_) => Ok(()),
                            Ok(_) => Err("the initiator accepted a changed message 3".to_string()),
                        }
                    }
                }
            }
        }
    }};
}

fn c09(ctx: &Ctx) {
    // key material families
    let mut fam: Vec<(String, Seeds)> = vec![
        ("all zero".into(), Seeds::of(&mut |n| vec![0; n])),
        ("all ones".into(), Seeds::of(&mut |n| vec![0xff; n])),
        ("counting".into(), {
            let mut k = 0u8;
            Seeds::of(&mut |n| (0..n).map(|_| { k = k.wrapping_add(1); k }).collect())
        }),
    ];
    let n = ctx.tier(1500u64, 20000);
    for k in 0..n {
        fam.push((format!("derived {}", k), Seeds::derived(ctx.seed, &format!("c09/{}", k))));
    }
    // a single byte of a single seed at an extreme
    let base = Seeds::derived(ctx.seed, "c09/base");
    for part in 0..8 {
        let len = if part < 4 { 96 } else { 32 };
        for pos in 0..len {
            for v in ctx.tier(&[0u8, 0xff][..], &[0, 1, 0x40, 0x7f, 0x80, 0xff][..]) {
                let mut s = base.clone();
                let t = match part {
                    0 | 1 => &mut s.s[part],
                    2 | 3 => &mut s.e[part - 2],
                    _ => &mut s.pq[part - 4],
                };
                t[pos] = *v;
                fam.push((format!("seed {} byte {} = {:02x}", part, pos, v), s));
            }
        }
    }
    // coinciding keys: same static key on both ends, ephemeral equal to static, and so on
    for a in 0..4 {
        for b in 0..4 {
            let mut s = base.clone();
            let src = if a < 2 { s.s[a].clone() } else { s.e[a - 2].clone() };
            if b < 2 { s.s[b] = src } else { s.e[b - 2] = src }
            fam.push((format!("96-byte seed {} copied to {}", a, b), s));
            let mut s = base.clone();
            s.pq[b] = s.pq[a].clone();
            fam.push((format!("32-byte seed {} copied to {}", a, b), s));
        }
    }
    fam.push(("every seed equal".into(), Seeds::of(&mut |n| base.s[0][..n].to_vec())));
    let hashes = std::sync::Mutex::new(BTreeMap::<Vec<u8>, String>::new());
    ctx.par(&fam, |(name, s)| {
        ctx.case(&format!("seeds {}", name), || {
            let s = Session::honest(s.clone());
            let (mut i, mut r, _) = s.run()?;
            agree(&s, &mut i, &mut r)?;
            ctx.state(&i.hash);
            ctx.steps(11);
            ctx.trace();
            if name.starts_with("derived") {
                if let Some(o) = hashes.lock().unwrap().insert(i.hash.clone(), name.clone()) {
                    return Err(format!("same session hash as {}", o));
                }
            }
            Ok(())
        });
    });
    ctx.outcomes_n("agreement over key material", fam.len() as u64);
    // object forms: initiator key x responder key x identity x secret keys x encoded messages
    let seeds = Seeds::derived(ctx.seed, "c09/forms");
    let mut forms = vec![];
    for fi in 0..5usize {
        for fr in 0..5usize {
            for fid in 0..5usize {
                for enc in 0..16usize {
                    forms.push((fi, fr, fid, enc));
                }
            }
        }
    }
    let reference = std::sync::Mutex::new(None::<Vec<u8>>);
    let all_same = std::sync::atomic::AtomicBool::new(true);
    ctx.par(&forms, |&(fi, fr, fid, enc)| {
        ctx.case(&format!("initiator key {}, responder key {}, identity form {}, messages encoded {:04b}", fi, fr, fid, enc), || {
            let mut s = Session::honest(seeds.clone());
            s.dial = id_form(&s.dial, fid)?;
            s.claim = id_form(&s.claim, (fid + fi) % 5)?;
            if fi > 0 {
                s.i.pk = pk_form(&s.i.pk, fi)?;
                s.i.sk = s.i.sk.clone();
            }
            if fr > 0 {
                s.r.pk = pk_form(&s.r.pk, fr)?;
                s.r.sk = s.r.sk.clone();
            }
            let (si, m0) = s.out0();
            let m0 = if enc & 1 != 0 { m0_join(&m0_parts(&m0)) } else { m0 };
            let (sr, m1) = s.out1(m0);
            let m1 = if enc & 2 != 0 { m1_join(&m1_parts(&m1)) } else { m1 };
            let (si, pk, p, m2) = s.out2(si, m1).map_err(|e| format!("initiator refused message 1: {}", e))?;
            let m2 = if enc & 4 != 0 { m2_join(&m2_parts(&m2)) } else { m2 };
            let (mut r, m3) = s.out3(sr, m2).map_err(|e| format!("responder refused message 2: {}", e))?;
            let m3 = if enc & 8 != 0 { m3_join(&m3_parts(&m3)) } else { m3 };
            let mut i = s.end(si, m3).map_err(|e| format!("initiator refused message 3: {}", e))?;
            i.peer = bytes_of(&pk);
            i.payloads.insert(0, p.to_vec());
            agree(&s, &mut i, &mut r)?;
            ctx.steps(11);
            ctx.trace();
            ctx.state(&(fi, fr, fid, enc));
            let mut h = reference.lock().unwrap();
            match &*h {
                None => *h = Some(i.hash),
                Some(x) if *x == i.hash => {}
                _ => {
                    all_same.store(false, std::sync::atomic::Ordering::Relaxed);
                    return Err("the session hash depends on the form of the objects".into());
                }
            }
            Ok(())
        });
    });
    ctx.outcomes_n("agreement over object forms", forms.len() as u64);
    // payload lengths
    let s = Session::honest(Seeds::derived(ctx.seed, "c09/payloads"));
    macro_rules! sizes {
        ($($t:ident),*) => {{
            $(
                for fill in [0u8, 1, 0xff, 0xa5] {
                    macro_rules! one { ($what:expr, $P:ty, $Q:ty, $R:ty, $S:ty) => {
                        ctx.case(&format!("payload {} of length {} fill {:02x}", $what, stringify!($t), fill), || {
                            ctx.steps(11);
                            ctx.trace();
                            ctx.state(&($what, stringify!($t), fill));
                            exchange!(&s, $P, $Q, $R, $S, fill)
                        });
                    } }
                    type T = Array<typenum::$t>;
                    one!("all", T, T, T, T);
                    one!("p", T, B16, B16, B16);
                    one!("q", B16, T, B16, B16);
                    one!("r", B16, B16, T, B16);
                    one!("s", B16, B16, B16, T);
                }
                ctx.outcomes_n("agreement over payload lengths", 20);
            )*
        }};
    }
    sizes!(U0, U1, U15, U16, U17, U32, U64, U119, U120, U121, U135, U136, U137, U255, U256, U257, U272, U512, U1000);
    for fill in [0u8, 0x5a] {
        ctx.case(&format!("no payloads as byte arrays, fill {}", fill), || exchange!(&s, [u8; 0], [u8; 0], [u8; 0], [u8; 0], fill));
    }
    ctx.note("bound", json!({"key material": fam.len(), "object forms": forms.len(), "payload lengths": 20}));
    ctx.sample(json!({"case": fam[fam.len() / 2].0, "observed": "session hash, ciphers in both directions, peer keys, four payloads"}));
    let _ = PK_FORMS;
}

// ---------------------------------------------------------------- C10

fn c10(ctx: &Ctx) {
    let rounds = ctx.tier(1usize, 6);
    let mut bits_total = 0u64;
    for round in 0..rounds {
        let seeds = Seeds::derived(ctx.seed, &format!("c10/{}", round));
        let honest = Session::honest(seeds.clone());
        let wires = match mcx::guard(|| honest.run()) {
            Ok(Ok((_, _, w))) => w,
            Ok(Err(e)) | Err(e) => {
                ctx.fail("honest run", &e, json!(null));
                return;
            }
        };
        for m in 0..4 {
            ctx.case(&format!("round {} message {} unchanged", round, m), || match deliver(&Session::honest(seeds.clone()), m, &wires[m]) {
                Ok(_) => Err("the unchanged message was refused".into()),
                Err(_) => Ok(()),
            });
            ctx.outcome("unchanged message accepted");
        }
        let mut flips = vec![];
        for (m, parts) in wires.iter().enumerate() {
            for (k, p) in parts.iter().enumerate() {
                for bit in 0..p.len() * 8 {
                    flips.push((m, k, bit));
                }
            }
        }
        bits_total += flips.len() as u64;
        ctx.par(&flips, |&(m, k, bit)| {
            ctx.case(&format!("round {} message {} part {} bit {}", round, m, k, bit), || {
                let s = Session::honest(seeds.clone());
                let mut w = wires[m].clone();
                w[k][bit / 8] ^= 1 << (bit % 8);
                let out = deliver(&s, m, &w)?;
                ctx.steps(4);
                ctx.trace();
                ctx.outcome(&format!("message {}: {}", m, out));
                Ok(())
            });
        });
        // another point with the same Diffie-Hellman results: differs by a point of small order
        let mut shifts = vec![];
        for (m, parts) in wires.iter().enumerate() {
            for (k, p) in parts.iter().enumerate() {
                for t in 1..8 {
                    if p.len() >= 32 {
                        shifts.push((m, k, t));
                    }
                }
            }
        }
        ctx.par(&shifts, |&(m, k, t)| {
            let Some(point) = CompressedEdwardsY::from_slice(&wires[m][k][..32]).decompress() else { return };
            ctx.case(&format!("round {} message {} part {} shifted by torsion {}", round, m, k, t), || {
                let s = Session::honest(seeds.clone());
                let mut w = wires[m].clone();
                w[k][..32].clone_from_slice((point + EIGHT_TORSION[t]).compress().as_bytes());
                let out = deliver(&s, m, &w)?;
                ctx.steps(4);
                ctx.trace();
                ctx.outcome(&format!("message {}: {}", m, out));
                Ok(())
            });
        });
        // other whole-part corruptions
        let mut wipes = vec![];
        for (m, parts) in wires.iter().enumerate() {
            for k in 0..parts.len() {
                for what in ["zero", "ones", "reversed", "rotated", "incremented"] {
                    wipes.push((m, k, what));
                }
            }
        }
        ctx.par(&wipes, |&(m, k, what)| {
            ctx.case(&format!("round {} message {} part {} {}", round, m, k, what), || {
                let s = Session::honest(seeds.clone());
                let mut w = wires[m].clone();
                match what {
                    "zero" => w[k].iter_mut().for_each(|b| *b = 0),
                    "ones" => w[k].iter_mut().for_each(|b| *b = 0xff),
                    "reversed" => w[k].reverse(),
                    "rotated" => w[k].rotate_left(1),
                    _ => w[k].iter_mut().for_each(|b| *b = b.wrapping_add(1)),
                }
                if w == wires[m] {
                    return Ok(());
                }
                let out = deliver(&s, m, &w)?;
                ctx.steps(4);
                ctx.trace();
                ctx.outcome(&format!("message {}: {}", m, out));
                Ok(())
            });
        });
    }
    // payloads of other lengths: every bit of each of them and of its tag
    let s = Session::honest(Seeds::derived(ctx.seed, "c10/payloads"));
    macro_rules! lengths {
        ($($t:ident),*) => { $( {
            type T = Array<typenum::$t>;
            let bits = (<typenum::$t as typenum::Unsigned>::USIZE + 16) * 8;
            let jobs: Vec<(usize, usize)> = (0..4).flat_map(|w| (0..bits).map(move |b| (w, b))).collect();
            bits_total += jobs.len() as u64;
            ctx.par(&jobs, |&(which, bit)| {
                ctx.case(&format!("payload {} of length {} bit {}", ["p", "q", "r", "s"][which], stringify!($t), bit), || {
                    ctx.steps(4);
                    ctx.trace();
                    corrupt!(&s, T, which, bit)?;
                    ctx.outcome("changed payload refused");
                    Ok(())
                });
            });
        } )* };
    }
    lengths!(U0, U1, U32, U120);
    // splices between two sessions
    let base = Seeds::derived(ctx.seed, "c10/splice/a");
    let fresh = Seeds::derived(ctx.seed, "c10/splice/b");
    let mut others = vec![];
    {
        // everything different
        others.push(("other parties", Session::honest(fresh.clone())));
        // same static keys
        let mut s = fresh.clone();
        s.s = base.s.clone();
        others.push(("same static keys", Session::honest(s)));
        // same static keys and same initiator ephemeral: the initiator re-dialled with bad randomness
        let mut s = fresh.clone();
        s.s = base.s.clone();
        s.e[0] = base.e[0].clone();
        others.push(("same static keys and initiator ephemeral", Session::honest(s)));
        let mut s = fresh.clone();
        s.s = base.s.clone();
        s.e[1] = base.e[1].clone();
        others.push(("same static keys and responder ephemeral", Session::honest(s)));
        let mut s = base.clone();
        s.pq = fresh.pq.clone();
        others.push(("same keys, other encapsulations", Session::honest(s)));
        // roles exchanged
        let mut s = fresh.clone();
        s.s = [base.s[1].clone(), base.s[0].clone()];
        s.e = [base.e[1].clone(), base.e[0].clone()];
        others.push(("roles exchanged", Session::honest(s)));
        // same responder, other initiator
        let mut s = fresh;
        s.s[1] = base.s[1].clone();
        others.push(("same responder", Session::honest(s)));
    }
    let a = Session::honest(base.clone());
    let Ok(Ok((_, _, wa))) = mcx::guard(|| a.run()) else {
        ctx.fail("honest run", "failed", json!(null));
        return;
    };
    let mut jobs = vec![];
    let mut wbs = vec![];
    for (o, (name, b)) in others.iter().enumerate() {
        let Ok(Ok((_, _, wb))) = mcx::guard(|| b.run()) else {
            ctx.fail(&format!("honest run {}", name), "failed", json!(null));
            return;
        };
        for m in 0..4 {
            for mask in 1u32..1 << wa[m].len() {
                jobs.push((o, m, mask));
            }
        }
        wbs.push(wb);
    }
    ctx.par(&jobs, |&(o, m, mask)| {
        ctx.case(&format!("splice with {} message {} parts {:b}", others[o].0, m, mask), || {
            let mut w = wa[m].clone();
            for k in 0..w.len() {
                if mask >> k & 1 != 0 {
                    w[k] = wbs[o][m][k].clone();
                }
            }
            // the whole message of a session with the same history so far is an honest answer
            if w == wa[m] || (w == wbs[o][m] && wbs[o][..m] == wa[..m]) {
                ctx.outcome("splice that is an honest message");
                return Ok(());
            }
            let s = Session::honest(base.clone());
            let out = deliver(&s, m, &w)?;
            ctx.steps(4);
            ctx.trace();
            ctx.state(&(o, m, mask));
            ctx.outcome(&format!("splice of message {}: {}", m, out));
            Ok(())
        });
    });
    // parts of equal length exchanged within and across the messages of one session
    let mut swaps = vec![];
    for m in 0..4 {
        for k in 0..wa[m].len() {
            for m2 in 0..4 {
                for k2 in 0..wa[m2].len() {
                    if (m, k) != (m2, k2) && wa[m][k].len() == wa[m2][k2].len() && wa[m][k] != wa[m2][k2] {
                        swaps.push((m, k, m2, k2));
                    }
                }
            }
        }
    }
    ctx.par(&swaps, |&(m, k, m2, k2)| {
        ctx.case(&format!("message {} part {} replaced by part {} of message {}", m, k, k2, m2), || {
            let mut w = wa[m].clone();
            w[k] = wa[m2][k2].clone();
            let s = Session::honest(base.clone());
            let out = deliver(&s, m, &w)?;
            ctx.steps(4);
            ctx.trace();
            ctx.outcome(&format!("exchange in message {}: {}", m, out));
            Ok(())
        });
    });
    ctx.note("bound", json!({"single-bit corruptions": bits_total, "splices": jobs.len(), "part exchanges": swaps.len()}));
    ctx.note("exhaustive", json!(true));
    ctx.sample(json!({"case": "splice with same static keys, message 2, parts 1011", "observed": "responder refuses"}));
    ctx.assume("a panic of the responder on an invalid point in message 0 counts as not completing here; C12 judges the panic");
}

/// Runs the session with message `m` replaced by `w`; `Ok` says who stopped it.
fn deliver(s: &Session, m: usize, w: &[Vec<u8>]) -> Result<&'static str, String> {
    let (si, m0) = s.out0();
    if m == 0 {
        // the responder cannot know; the initiator must notice
        let Ok((sr, m1)) = mcx::guard(|| s.out1(m0_join(w))) else { return Ok("responder gave up") };
        return match s.out2(si, m1) {
            Err(_) => {
                drop(sr);
                Ok("initiator refused the reply")
            }
            Ok(_) => Err("the initiator accepted the reply to a different message 0".into()),
        };
    }
    let (sr, m1) = s.out1(m0);
    if m == 1 {
        return match s.out2(si, m1_join(w)) {
            Err(_) => Ok("initiator refused"),
            Ok(_) => Err("the initiator accepted a changed message 1".into()),
        };
    }
    let (si, _, _, _) = s.out2(si, m1)?;
    if m == 2 {
        return match s.out3(sr, m2_join(w)) {
            Err(_) => Ok("responder refused"),
            Ok(_) => Err("the responder accepted a changed message 2".into()),
        };
    }
    match s.end(si, m3_join(w)) {
        Err(_) => Ok("initiator refused"),
        Ok(_) => Err("the initiator accepted a changed message 3".into()),
    }
}

// ---------------------------------------------------------------- C11

fn c11(ctx: &Ctx) {
    let mut b = ctx.bytes("c11");
    let keys: Vec<Vec<u8>> = (0..3).map(|_| b.vec(96)).collect();
    let mixed = |k: usize| -> Holder {
        let (e, l) = (k / 3, k % 3);
        Holder::new(&[&keys[e][..32], &keys[l][32..]].concat())
    };
    let holders: Vec<Holder> = (0..9).map(mixed).collect();
    // key halves really are separate
    for k in 0..9 {
        ctx.case(&format!("key {} is composed of its halves", k), || {
            let p = holders[k].pk.compress();
            if p.0 != holders[k / 3 * 4].pk.compress().0 || p.1 != holders[k % 3 * 4].pk.compress().1 {
                return Err("a key's halves depend on each other".into());
            }
            Ok(())
        });
    }
    let seeds = Seeds::derived(ctx.seed, "c11");
    let copy = |k: usize| Holder { pk: holders[k].pk.clone(), sk: holders[k].sk.clone() };
    // a responder with any claimed identity, any public key and any secret key
    let mut jobs = vec![];
    for dial in 0..9 {
        for claim in 0..9 {
            for pk in 0..9 {
                for sk in 0..9 {
                    jobs.push((dial, claim, pk, sk));
                }
            }
        }
    }
    ctx.par(&jobs, |&(dial, claim, pk, sk)| {
        ctx.case(&format!("dialled {} responder claims {} presents {} holds {}", dial, claim, pk, sk), || {
            let s = Session {
                seeds: seeds.clone(),
                i: Holder::new(&seeds.s[0]),
                r: Holder { pk: copy(pk).pk, sk: copy(sk).sk },
                dial: holders[dial].pk.identity(),
                claim: holders[claim].pk.identity(),
            };
            ctx.state(&(dial, claim, pk, sk));
            ctx.steps(5);
            ctx.trace();
            let entitled = claim == dial && pk == dial && sk == dial;
            let (si, m0) = s.out0();
            let (sr, m1) = s.out1(m0);
            let (si, rpk, _, m2) = match s.out2(si, m1) {
                Ok(x) => x,
                Err(e) if entitled => return Err(format!("initiator refused the rightful responder: {}", e)),
                Err(_) => {
                    ctx.outcome("initiator refused message 1");
                    return Ok(());
                }
            };
            if bytes_of(&rpk) != bytes_of(&holders[pk].pk) {
                return Err("initiator reports another key than the one presented".into());
            }
            if pk != dial {
                return Err("initiator went on with a key that is not of the dialled identity".into());
            }
            let (r, m3) = match s.out3(sr, m2) {
                Ok(x) => x,
                Err(e) if entitled => return Err(format!("rightful responder failed: {}", e)),
                Err(_) => {
                    ctx.outcome("responder could not continue");
                    return Ok(());
                }
            };
            if r.peer != bytes_of(&s.i.pk) {
                return Err("responder reports a wrong key".into());
            }
            match s.end(si, m3) {
                Ok(_) if !entitled => Err("the initiator completed with a responder that lacks the key".into()),
                Ok(_) => {
                    ctx.outcome("completed with the rightful responder");
                    Ok(())
                }
                Err(e) if entitled => Err(format!("initiator refused the rightful responder at the end: {}", e)),
                Err(_) => {
                    ctx.outcome("initiator refused message 3");
                    Ok(())
                }
            }
        });
    });
    // an initiator with any public and any secret key
    let mut jobs = vec![];
    for pk in 0..9 {
        for sk in 0..9 {
            jobs.push((pk, sk));
        }
    }
    ctx.par(&jobs, |&(pk, sk)| {
        ctx.case(&format!("initiator presents {} holds {}", pk, sk), || {
            let r = Holder::new(&seeds.s[1]);
            let s = Session {
                seeds: seeds.clone(),
                i: Holder { pk: copy(pk).pk, sk: copy(sk).sk },
                dial: r.pk.identity(),
                claim: r.pk.identity(),
                r,
            };
            ctx.state(&("i", pk, sk));
            ctx.steps(5);
            ctx.trace();
            let (si, m0) = s.out0();
            let (sr, m1) = s.out1(m0);
            let (si, _, _, m2) = s.out2(si, m1)?;
            match s.out3(sr, m2) {
                Err(e) if pk == sk => Err(format!("responder refused the rightful initiator: {}", e)),
                Err(_) => {
                    ctx.outcome("responder refused an initiator without the key");
                    Ok(())
                }
                Ok(_) if pk / 3 != sk / 3 => Err("the responder accepted an initiator that lacks the elliptic half of the key it presents".into()),
                Ok((r, m3)) => {
                    if r.peer != bytes_of(&holders[pk].pk) {
                        return Err("the responder reports another key than the one presented".into());
                    }
                    match s.end(si, m3) {
                        Ok(_) if pk != sk => Err("an initiator that lacks the lattice half of its key got a usable session".into()),
                        Ok(_) => {
                            ctx.outcome("completed with the rightful initiator");
                            Ok(())
                        }
                        Err(e) if pk == sk => Err(format!("rightful initiator failed at the end: {}", e)),
                        Err(_) => {
                            ctx.outcome("initiator without the lattice half cannot finish");
                            Ok(())
                        }
                    }
                }
            }
        });
    });
    // dialled identities that differ from the responder's own in one byte, the responder claiming whatever was dialled
    let own = holders[0].pk.identity();
    ctx.par(&(0..32 * 8).collect::<Vec<usize>>(), |&x| {
        ctx.case(&format!("dialled own identity with bit {} changed", x), || {
            let mut raw = own.as_ref().to_vec();
            raw[x / 8] ^= 1 << (x % 8);
            let dial = identity_from(&raw)?;
            let s = Session { seeds: seeds.clone(), i: Holder::new(&seeds.s[0]), r: copy(0), dial: dial.clone(), claim: dial };
            ctx.state(&("bit", x));
            ctx.steps(3);
            ctx.trace();
            let (si, m0) = s.out0();
            let (_, m1) = s.out1(m0);
            match s.out2(si, m1) {
                Ok(_) => Err("initiator went on with a key that is not of the dialled identity".into()),
                Err(_) => {
                    ctx.outcome("initiator refused message 1");
                    Ok(())
                }
            }
        });
    });
    // identities nobody has, or that stand for something else, dialled at a responder that claims what was dialled, or its own
    let pieces: Vec<(String, Vec<u8>)> = {
        let mut v: Vec<(String, Vec<u8>)> = (0..256).map(|x| (format!("all bytes {}", x), vec![x as u8; 32])).collect();
        let id = |p: &PublicKey| p.identity().as_ref().to_vec();
        let o = own.as_ref().to_vec();
        for n in 1..32 {
            v.push((format!("own cut to {} bytes", n), [&o[..n], &vec![0; 32 - n][..]].concat()));
            v.push((format!("own from byte {} on", n), [&vec![0; n][..], &o[n..]].concat()));
            v.push((format!("own turned by {}", n), [&o[n..], &o[..n]].concat()));
        }
        v.push(("own backwards".into(), o.iter().rev().copied().collect()));
        v.push(("own inverted".into(), o.iter().map(|x| !x).collect()));
        v.push(("the elliptic half of the key".into(), holders[0].pk.elliptic().to_vec()));
        v.push(("the hash of the lattice half of the key".into(), holders[0].pk.lattice_hash().to_vec()));
        v.push(("the initiator's".into(), id(&Holder::new(&seeds.s[0]).pk)));
        v.push(("the initiator's ephemeral".into(), id(&Holder::new(&seeds.e[0]).pk)));
        v.push(("the responder's ephemeral".into(), id(&Holder::new(&seeds.e[1]).pk)));
        v.push(("another holder's".into(), id(&holders[4].pk)));
        v.push(("that of the same elliptic half".into(), id(&holders[1].pk)));
        v.push(("that of the same lattice half".into(), id(&holders[3].pk)));
        v
    };
    let jobs: Vec<(usize, bool)> = (0..pieces.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    ctx.par(&jobs, |&(i, honest)| {
        let (name, raw) = &pieces[i];
        ctx.case(&format!("dialled {}, claimed {}", name, if honest { "own" } else { "that" }), || {
            let dial = identity_from(raw)?;
            if dial == own {
                return Ok(());
            }
            let s = Session { seeds: seeds.clone(), i: Holder::new(&seeds.s[0]), r: copy(0), dial: dial.clone(), claim: if honest { own.clone() } else { dial } };
            ctx.state(&("piece", i, honest));
            ctx.steps(3);
            ctx.trace();
            let (si, m0) = s.out0();
            let (_, m1) = s.out1(m0);
            match s.out2(si, m1) {
                Ok(_) => Err("initiator went on with a key that is not of the dialled identity".into()),
                Err(_) => {
                    ctx.outcome("initiator refused message 1");
                    Ok(())
                }
            }
        });
    });
    // responders that replace or leave out secrets they cannot compute
    let kinds = |b: &mut mcx::Bytes| vec![Secret::True, Secret::Zero, Secret::Skip, Secret::Wrong(b.vec(32)), Secret::Wrong(vec![0xff; 32]), Secret::Wrong({ let mut v = vec![0; 32]; v[0] = 1; v })];
    let ks = kinds(&mut b);
    let mut jobs = vec![];
    for victim in 0..9usize {
        for own in 0..9usize {
            for (x, es) in ks.iter().enumerate() {
                for (y, sc) in ks.iter().enumerate() {
                    jobs.push((victim, own, x, y, es.clone(), sc.clone()));
                }
            }
        }
    }
    ctx.par(&jobs, |(victim, own, x, y, es, sc)| {
        ctx.case(&format!("impostor of {} holding {} with es {} and sc {}", victim, own, x, y), || {
            let i = Holder::new(&seeds.s[0]);
            let v = &holders[*victim];
            let ev = Evil1 { claim: v.pk.identity(), e: Holder::new(&seeds.e[1]), e_bytes: bytes_of(&Holder::new(&seeds.e[1]).pk), s_bytes: bytes_of(&v.pk), pq_seed: seeds.pq[2].clone() };
            let s = Session { seeds: seeds.clone(), i, r: copy(*victim), dial: v.pk.identity(), claim: v.pk.identity() };
            let (si, m0) = s.out0();
            let m0b = recode(&m0);
            let (st, m1) = ev.out1(&m0b);
            ctx.steps(5);
            ctx.trace();
            let (si, _, _, m2) = s.out2(si, m1).map_err(|e| format!("attacker model does not follow the protocol: {}", e))?;
            // the impostor has the victim's public key but only `own`'s secrets
            let hybrid = Holder { pk: v.pk.clone(), sk: holders[*own].sk.clone() };
            let m3 = ev.out3(st, &m0b, &m2, &hybrid, es, sc, &s.i.pk, &seeds.pq[3]);
            let entitled = *x == 0 && *y == 0 && own == victim;
            match s.end(si, m3) {
                Ok(_) if entitled => {
                    ctx.outcome("rightful responder (independent implementation) accepted");
                    Ok(())
                }
                Err(e) if entitled => Err(format!("rightful responder refused: {}", e)),
                Ok(_) if (*x == 0 && own / 3 == victim / 3) && (*y == 0 && own % 3 == victim % 3) => Ok(()),
                Ok(_) => Err("the initiator completed with an impostor".into()),
                Err(_) => {
                    ctx.outcome("impostor refused");
                    Ok(())
                }
            }
        });
    });
    // initiators that present a key they do not hold
    let mut jobs = vec![];
    for victim in 0..9usize {
        for own in 0..9usize {
            for (x, se) in ks.iter().enumerate() {
                jobs.push((victim, own, x, se.clone()));
            }
        }
    }
    ctx.par(&jobs, |(victim, own, x, se)| {
        ctx.case(&format!("initiator impostor of {} holding {} with se {}", victim, own, x), || {
            let r = Holder::new(&seeds.s[1]);
            let s = Session { seeds: seeds.clone(), i: copy(*victim), dial: r.pk.identity(), claim: r.pk.identity(), r };
            let ev = Evil2 { dial: s.dial.clone(), e: Holder::new(&seeds.e[0]), s_bytes: bytes_of(&holders[*victim].pk), seeds: [seeds.pq[0].clone(), seeds.pq[1].clone()] };
            let (sr, m1) = s.out1(ev.out0());
            let m2 = ev.out2(&m1, &s.r.pk, Some(&holders[*own]), se);
            ctx.steps(4);
            ctx.trace();
            let entitled = *x == 0 && own / 3 == victim / 3;
            match s.out3(sr, m2) {
                Ok((d, _)) if entitled => {
                    if d.peer != bytes_of(&holders[*victim].pk) {
                        return Err("wrong peer key reported".into());
                    }
                    ctx.outcome("holder of the elliptic half accepted");
                    Ok(())
                }
                Err(e) if entitled => Err(format!("holder of the elliptic half refused: {}", e)),
                Ok(_) => Err("the responder accepted an initiator impostor".into()),
                Err(_) => {
                    ctx.outcome("initiator impostor refused");
                    Ok(())
                }
            }
        });
    });
    // the identity is bound bit by bit
    let bits: Vec<usize> = (0..256).collect();
    ctx.par(&bits, |&bit| {
        for side in 0..2 {
            ctx.case(&format!("{} identity differs in bit {}", ["dialled", "claimed"][side], bit), || {
                let mut s = Session::honest(seeds.clone());
                let mut raw = s.dial.as_ref().to_vec();
                raw[bit / 8] ^= 1 << (bit % 8);
                let id = identity_from(&raw)?;
                if side == 0 { s.dial = id } else { s.claim = id }
                ctx.steps(3);
                match s.run() {
                    Ok(_) => Err("completed although the identities differ".into()),
                    Err(_) => {
                        ctx.outcome("other identity refused");
                        Ok(())
                    }
                }
            });
        }
    });
    ctx.note("bound", json!({"key holders": 3, "mixed keys": 9, "impostor strategies": jobs.len()}));
    ctx.sample(json!({"case": "dialled 4 responder claims 4 presents 4 holds 5 (own elliptic half, foreign lattice half)", "observed": "refused"}));
}

fn identity_from(raw: &[u8]) -> Result<Identity, String> {
    let mut t = vec![0];
    t.extend_from_slice(raw);
    Identity::from_str(&b64e(t)).map_err(|e| format!("identity text refused: {:?}", e))
}

// ---------------------------------------------------------------- C12

/// y coordinates of interest with both signs; the second item says whether curve25519-dalek finds a point
fn point_encodings(thorough: bool) -> Vec<([u8; 32], bool)> {
    let mut v: Vec<[u8; 32]> = vec![];
    let n: u64 = if thorough { 4096 } else { 128 };
    for y in 0..n {
        let mut a = [0u8; 32];
        a[..8].copy_from_slice(&y.to_le_bytes());
        v.push(a);
    }
    // around p = 2^255 - 19
    for d in 0..40u8 {
        let mut a = [0xff; 32];
        a[31] = 0x7f;
        a[0] = 0xff - d;
        v.push(a);
    }
    for bit in 0..255 {
        let mut a = [0u8; 32];
        a[bit / 8] = 1 << (bit % 8);
        v.push(a);
        let mut a = [0xff; 32];
        a[31] = 0x7f;
        a[bit / 8] &= !(1 << (bit % 8));
        v.push(a);
    }
    let mut w = vec![];
    for mut a in v {
        for sign in [0, 0x80] {
            a[31] = (a[31] & 0x7f) | sign;
            let ok = curve25519_dalek::edwards::CompressedEdwardsY(a).decompress().is_some();
            w.push((a, ok));
        }
    }
    w.sort();
    w.dedup();
    w
}

fn c12(ctx: &Ctx) {
    let enc = point_encodings(ctx.thorough);
    let invalid = enc.iter().filter(|e| !e.1).count();
    ctx.note("point encodings", json!({"total": enc.len(), "invalid": invalid}));
    let seeds = Seeds::derived(ctx.seed, "c12");
    ctx.par(&enc, |(e, valid)| {
        let hexe = mcx::hex(e);
        ctx.state(&e);
        let tag = if *valid { "valid point" } else { "invalid point" };
        // message 0
        ctx.case(&format!("message 0 elliptic half {} {}", tag, hexe), || {
            let s = Session::honest(seeds.clone());
            let (si, m0) = s.out0();
            let (_, m1) = s.out1(Concat(arr(e), m0.1));
            ctx.steps(3);
            ctx.trace();
            match s.out2(si, m1) {
                Ok(_) => Err("initiator accepted the reply to a changed message 0".into()),
                Err(_) => Ok(()),
            }
        });
        // message 1, ephemeral key
        ctx.case(&format!("message 1 ephemeral elliptic half {} {}", tag, hexe), || {
            let s = Session::honest(seeds.clone());
            let (si, m0) = s.out0();
            let (_, m1) = s.out1(m0);
            let mut w = m1_parts(&m1);
            w[3] = e.to_vec();
            ctx.steps(3);
            ctx.trace();
            match s.out2(si, m1_join(&w)) {
                Ok(_) => Err("initiator accepted a changed message 1".into()),
                Err(_) => Ok(()),
            }
        });
        // message 1, static key, correctly encrypted by a responder that says so
        ctx.case(&format!("message 1 static elliptic half {} {}", tag, hexe), || {
            let i = Holder::new(&seeds.s[0]);
            let lattice = Holder::new(&seeds.s[1]).pk.lattice();
            let raw = [&e[..], &lattice[..]].concat();
            // the identity the library itself derives for that key, if it is one
            let id = if *valid { PublicKey::decompress(Concat(arr(e), lattice)).identity() } else { sha3_id(&raw)? };
            let ev = Evil1 { claim: id.clone(), e: Holder::new(&seeds.e[1]), e_bytes: bytes_of(&Holder::new(&seeds.e[1]).pk), s_bytes: raw, pq_seed: seeds.pq[2].clone() };
            let s = Session { seeds: seeds.clone(), i, r: Holder::new(&seeds.s[1]), dial: id.clone(), claim: id };
            let (si, m0) = s.out0();
            let (_, m1) = ev.out1(&recode(&m0));
            ctx.steps(3);
            ctx.trace();
            match s.out2(si, m1) {
                Ok(_) if !valid => Err("accepted a static key that is no point".into()),
                Ok(_) => {
                    ctx.outcome("odd but valid static key accepted");
                    Ok(())
                }
                Err(_) => {
                    ctx.outcome("static key refused");
                    Ok(())
                }
            }
        });
        // message 2, static key
        ctx.case(&format!("message 2 static elliptic half {} {}", tag, hexe), || {
            let lattice = Holder::new(&seeds.s[0]).pk.lattice();
            let raw = [&e[..], &lattice[..]].concat();
            let s = Session::honest(seeds.clone());
            let ev = Evil2 { dial: s.dial.clone(), e: Holder::new(&seeds.e[0]), s_bytes: raw, seeds: [seeds.pq[0].clone(), seeds.pq[1].clone()] };
            let (sr, m1) = s.out1(ev.out0());
            let m2 = ev.out2(&m1, &s.r.pk, None, &Secret::Zero);
            ctx.steps(3);
            ctx.trace();
            match s.out3(sr, m2) {
                Ok(_) if !valid => Err("accepted a static key that is no point".into()),
                Ok((d, _)) => {
                    // a low-order point makes the shared secret the same for everybody
                    ctx.outcome(&format!("low-order static key accepted, {} bytes", d.peer.len()));
                    Ok(())
                }
                Err(_) => {
                    ctx.outcome("initiator's static key refused");
                    Ok(())
                }
            }
        });
        // serialised key
        ctx.case(&format!("serialised key elliptic half {} {}", tag, hexe), || {
            let pk = Holder::new(&seeds.s[0]).pk;
            let mut raw = bincode::serialize(&pk).map_err(|e| e.to_string())?;
            let at = find(&raw, &pk.elliptic()).ok_or("elliptic half not found in the serialised key")?;
            raw[at..at + 32].copy_from_slice(e);
            ctx.steps(1);
            ctx.trace();
            match bincode::deserialize::<PublicKey>(&raw) {
                Ok(_) if !valid => Err("an invalid point was accepted".into()),
                Err(_) if *valid => {
                    // refusing a non-canonical encoding is fine, refusing a canonical one is not
                    let canonical = curve25519_dalek::edwards::CompressedEdwardsY(*e).decompress().map(|p| p.compress().0 == *e).unwrap_or(false);
                    if canonical { Err("a valid key was refused".into()) } else { Ok(()) }
                }
                _ => Ok(()),
            }
        });
    });
    ctx.outcomes_n("curve point fields", enc.len() as u64 * 5);
    // truncated and extended serialised keys, wrong hash, JSON
    let pk = Holder::new(&seeds.s[0]).pk;
    let raw = bincode::serialize(&pk).unwrap();
    let cuts: Vec<usize> = (0..raw.len()).collect();
    ctx.par(&cuts, |&n| {
        ctx.state(&("cut", n));
        ctx.case(&format!("serialised key cut to {} bytes", n), || {
            ctx.steps(1);
            ctx.trace();
            match bincode::deserialize::<PublicKey>(&raw[..n]) {
                Ok(_) => Err("a truncated key was accepted".into()),
                Err(_) => Ok(()),
            }
        });
    });
    ctx.outcomes_n("truncated key refused", cuts.len() as u64);
    // every byte of a serialised key: the result is an error or exactly the key that was given
    ctx.par(&cuts, |&n| {
        for bit in 0..8 {
            ctx.case(&format!("serialised key byte {} bit {}", n, bit), || {
                let mut r = raw.clone();
                r[n] ^= 1 << bit;
                ctx.steps(1);
                ctx.trace();
                match bincode::deserialize::<PublicKey>(&r) {
                    Err(_) => Ok(()),
                    Ok(k) => {
                        let h = {
                            use sha3::Digest;
                            sha3::Sha3_256::digest(&k.lattice())
                        };
                        if k.lattice_hash()[..] != h[..] {
                            return Err("a key with a wrong hash of its lattice half was accepted".into());
                        }
                        let back = bincode::serialize(&k).map_err(|e| e.to_string())?;
                        if back != r {
                            return Err("invalid input was replaced by another key".into());
                        }
                        Ok(())
                    }
                }
            });
        }
    });
    ctx.outcomes_n("bit of a serialised key", cuts.len() as u64 * 8);
    let text = serde_json::to_string(&pk).unwrap();
    let cuts: Vec<usize> = (0..text.len()).collect();
    ctx.par(&cuts, |&n| {
        ctx.case(&format!("JSON key cut to {} characters", n), || match serde_json::from_str::<PublicKey>(&text[..n]) {
            Ok(_) => Err("truncated text accepted".into()),
            Err(_) => Ok(()),
        });
    });
    ctx.steps(cuts.len() as u64);
    // identities
    let id = pk.identity();
    let raw = bincode::serialize(&id).unwrap();
    for n in 0..raw.len() {
        ctx.case(&format!("serialised identity cut to {} bytes", n), || match bincode::deserialize::<Identity>(&raw[..n]) {
            Ok(_) => Err("a truncated identity was accepted".into()),
            Err(_) => Ok(()),
        });
        ctx.steps(1);
    }
    for n in 0..=200usize {
        for fill in [0u8, 0xff, 0x5a] {
            ctx.case(&format!("identity text of {} bytes fill {:02x}", n, fill), || {
                ctx.steps(1);
                ctx.trace();
                let mut b = vec![fill; n];
                if n > 0 {
                    b[0] = 0;
                }
                match Identity::from_str(&b64e(&b)) {
                    Ok(_) if n != 33 => Err("an identity of a wrong length was accepted".into()),
                    Err(e) if n == 33 => Err(format!("a well-formed identity was refused: {:?}", e)),
                    Ok(i) if i.as_ref() != &b[1..] => Err("replaced by another identity".into()),
                    _ => Ok(()),
                }
            });
            ctx.outcome(if n == 33 { "identity text accepted" } else { "identity text refused" });
        }
    }
    // every character of a good text replaced by every ASCII character, removed, doubled
    let good = id.to_string();
    let pos: Vec<usize> = (0..good.len()).collect();
    ctx.par(&pos, |&p| {
        for c in 0u8..=127 {
            ctx.case(&format!("identity text with character {} = {:02x}", p, c), || {
                let mut t = good.clone().into_bytes();
                t[p] = c;
                text_case(&String::from_utf8(t).unwrap(), ctx)
            });
        }
        for (what, t) in [
            ("removed", [&good[..p], &good[p + 1..]].concat()),
            ("doubled", [&good[..p + 1], &good[p..]].concat()),
            ("cut", good[..p].to_string()),
            ("unicode", [&good[..p], "é", &good[p + 1..]].concat()),
            ("inserted newline", [&good[..p], "\n", &good[p..]].concat()),
        ] {
            ctx.case(&format!("identity text with character {} {}", p, what), || text_case(&t, ctx));
        }
    });
    for t in ["", "=", "==", "====", "A", "AA", "AA=", "AA==", " ", "\0", "AAAA", "é", "日本"] {
        ctx.case(&format!("identity text {:?}", t), || text_case(t, ctx));
    }
    // transport buffers
    let s = Session::honest(seeds.clone());
    let Ok((i, r, _)) = s.run() else {
        ctx.fail("honest run", "failed", json!(null));
        return;
    };
    for n in 0..=64usize {
        for fill in [0u8, 0xff] {
            for side in 0..2 {
                ctx.case(&format!("transport buffer of {} bytes {:02x} to {}", n, fill, side), || {
                    ctx.steps(1);
                    ctx.trace();
                    let mut c = if side == 0 { i.cipher.clone() } else { r.cipher.clone() };
                    let mut p = if side == 0 { r.cipher.clone() } else { i.cipher.clone() };
                    let mut b = vec![fill; n];
                    if c.decrypt_ext(b"", &mut b).is_ok() {
                        return Err("junk accepted".into());
                    }
                    let mut m = b"hello".to_vec();
                    p.encrypt_ext(b"", &mut m);
                    c.decrypt_ext(b"", &mut m).map_err(|_| "the genuine message after the junk was refused")?;
                    Ok(())
                });
            }
        }
    }
    ctx.outcomes_n("junk transport buffer refused", 65 * 4);
    ctx.note("bound", json!("all point-field encodings listed, all truncations and single-bit changes of serialised keys, identity texts of all lengths to 200 and all single-character edits, transport buffers of all lengths to 64"));
    ctx.sample(json!({"case": "message 1 static elliptic half invalid point 0200..00", "observed": "error"}));
}

fn sha3_id(raw: &[u8]) -> Result<Identity, String> {
    use sha3::Digest;
    identity_from(&sha3::Sha3_256::digest(raw))
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// accepted exactly if standard base64 of 33 bytes; then it names those bytes
fn text_case(t: &str, ctx: &Ctx) -> Result<(), String> {
    ctx.steps(1);
    ctx.trace();
    let want = b64d(t).ok().filter(|b| b.len() == 33);
    match (Identity::from_str(t), want) {
        (Ok(i), Some(w)) if i.as_ref() == &w[1..] => {
            ctx.outcome("edited text names another identity");
            Ok(())
        }
        (Ok(_), Some(_)) => Err("replaced by another identity".into()),
        (Ok(_), None) => Err("invalid text accepted".into()),
        (Err(_), Some(w)) if w[0] == 0 => Err("valid text refused".into()),
        (Err(_), _) => {
            ctx.outcome("edited text refused");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C13

fn c13(ctx: &Ctx) {
    // identities: every value of every byte
    let base: Vec<u8> = ctx.bytes("c13/id").vec(32);
    let texts = std::sync::Mutex::new(BTreeMap::<String, Vec<u8>>::new());
    let mut ids: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], base.clone()];
    for p in 0..32 {
        for v in 0..=255u8 {
            for b in [base.clone(), vec![0; 32], vec![0xff; 32]] {
                let mut b = b;
                b[p] = v;
                ids.push(b);
            }
        }
    }
    ids.sort();
    ids.dedup();
    ctx.par(&ids, |raw| {
        ctx.case(&format!("identity {}", mcx::hex(raw)), || {
            let id = identity_from(raw)?;
            if id.as_ref() != &raw[..] {
                return Err("the text form names another identity".into());
            }
            // all chains of two external forms
            for f in 0..5 {
                for g in 0..5 {
                    let x = id_form(&id_form(&id, f)?, g)?;
                    if x != id || x.as_ref() != id.as_ref() || x.to_string() != id.to_string() {
                        return Err(format!("changed by forms {} and {}", f, g));
                    }
                    if bincode::serialize(&x).ok() != bincode::serialize(&id).ok() {
                        return Err(format!("serialised form changed by forms {} and {}", f, g));
                    }
                }
            }
            let t = id.to_string();
            if let Some(o) = texts.lock().unwrap().insert(t.clone(), raw.clone()) {
                return Err(format!("same text {} as identity {}", t, mcx::hex(&o)));
            }
            if b64d(&t).map(|b| b.len()) != Ok(33) {
                return Err("text of a wrong length".into());
            }
            if t != b64e([&[0u8][..], &raw[..]].concat()) {
                return Err("the text is not the base64 form of a zero byte and the identity".into());
            }
            // equality is equality of bytes
            for bit in [0, 7, 100, 255] {
                let mut o = raw.clone();
                o[bit / 8] ^= 1 << (bit % 8);
                if identity_from(&o)? == id {
                    return Err("two different identities compare equal".into());
                }
            }
            ctx.state(raw);
            ctx.steps(50);
            ctx.trace();
            Ok(())
        });
    });
    ctx.outcomes_n("identity unchanged by every pair of forms", ids.len() as u64);
    // wrong lengths
    for n in (0..33).chain(34..120) {
        ctx.case(&format!("identity text of {} bytes", n), || {
            ctx.steps(1);
            match Identity::from_str(&b64e(vec![0; n])) {
                Ok(_) => Err("accepted".into()),
                Err(_) => Ok(()),
            }
        });
        ctx.outcome("wrong length refused");
    }
    // public keys
    let n = ctx.tier(120u64, 4000);
    let mut seeds: Vec<(String, Vec<u8>)> = vec![("zero".into(), vec![0; 96]), ("ones".into(), vec![0xff; 96])];
    for k in 0..n {
        seeds.push((format!("derived {}", k), ctx.bytes(&format!("c13/{}", k)).vec(96)));
    }
    let msg = ctx.bytes("c13/enc").vec(32);
    let all = std::sync::Mutex::new(BTreeSet::new());
    ctx.par(&seeds, |(name, seed)| {
        ctx.case(&format!("key {}", name), || {
            let h = Holder::new(seed);
            let peer = Holder::new(&[&seed[1..], &[7]].concat());
            let enc = bytes_of(&h.pk);
            let id = h.pk.identity();
            if sha3_id(&enc)? != id {
                return Err("the identity is not the hash of the encoding".into());
            }
            if !all.lock().unwrap().insert(id.to_string()) {
                return Err("two keys with the same identity".into());
            }
            let want = h.pk.encapsulate(Array::from_slice(&msg));
            let want_ct = want.ct.clone_line();
            // a copy of a secret key is the same secret key, also towards ciphertexts nobody made for it
            let copies = [h.sk.clone(), h.sk.clone().clone()];
            for bit in [0, 77, want_ct.len() * 4 + 5, want_ct.len() * 8 - 1] {
                let mut raw = want_ct.clone();
                raw[bit / 8] ^= 1 << (bit % 8);
                let ct = Line::clone_array(&raw);
                let own = h.pk.decapsulate(&h.sk, &ct);
                if copies.iter().any(|c| h.pk.decapsulate(c, &ct) != own) {
                    return Err("a copied secret key treats a changed ciphertext differently".into());
                }
                if own == want.ss {
                    return Err("a changed ciphertext gives the same secret".into());
                }
                ctx.steps(3);
            }
            if h.pk.decapsulate(&h.sk, &want.ct) != want.ss {
                return Err("own encapsulation not readable".into());
            }
            for f in 0..5 {
                for g in 0..5 {
                    let k = pk_form(&pk_form(&h.pk, f)?, g)?;
                    if bytes_of(&k) != enc {
                        return Err(format!("encoding changed by forms {} and {}", f, g));
                    }
                    if k.identity() != id {
                        return Err(format!("identity changed by forms {} and {}", f, g));
                    }
                    if k.lattice_hash() != h.pk.lattice_hash() || k.lattice() != h.pk.lattice() || k.elliptic() != h.pk.elliptic() {
                        return Err(format!("parts changed by forms {} and {}", f, g));
                    }
                    let e = k.encapsulate(Array::from_slice(&msg));
                    if e.ss != want.ss || e.ct.clone_line() != want_ct {
                        return Err(format!("encapsulation changed by forms {} and {}", f, g));
                    }
                    if k.decapsulate(&h.sk.clone(), &e.ct) != want.ss {
                        return Err(format!("decapsulation changed by forms {} and {}", f, g));
                    }
                    if k.dh(&peer.sk) != h.pk.dh(&peer.sk) || k.dh(&peer.sk) != peer.pk.dh(&h.sk.clone()) {
                        return Err(format!("agreement changed by forms {} and {}", f, g));
                    }
                    ctx.steps(10);
                    ctx.trace();
                }
            }
            Ok(())
        });
    });
    ctx.outcomes_n("key unchanged by every pair of forms", seeds.len() as u64);
    ctx.note("bound", json!({"identities": ids.len(), "keys": seeds.len(), "chained forms": 25}));
    ctx.sample(json!({"case": "key derived 5, re-read then deserialised", "observed": "encoding, hash, identity, encapsulation, decapsulation, DH"}));
}

// ---------------------------------------------------------------- C14

struct Talk {
    /// ends: session*2 + (0 initiator, 1 responder)
    ends: Vec<TrivialCipher>,
    sent: Vec<Vec<(Vec<u8>, Vec<u8>)>>,
    got: Vec<usize>,
}
impl Clone for Talk {
    fn clone(&self) -> Self {
        Talk { ends: self.ends.clone(), sent: self.sent.clone(), got: self.got.clone() }
    }
}
impl Talk {
    fn send(&mut self, e: usize) {
        let n = self.sent[e].len();
        // the same texts in both sessions and directions, so that only the keys differ
        let text: Vec<u8> = (0..n % 3 * 9).map(|i| (i * 3 + n) as u8).collect();
        let mut c = text.clone();
        self.ends[e].encrypt_ext(b"x", &mut c);
        self.sent[e].push((text, c));
    }
    /// message `k` of sender `from` delivered to `to`
    fn deliver(&mut self, from: usize, k: usize, to: usize) -> Result<&'static str, String> {
        let (text, c) = self.sent[from][k].clone();
        let expected = from ^ 1 == to && self.got[to] == k;
        let mut b = c;
        match self.ends[to].decrypt_ext(b"x", &mut b) {
            Ok(()) if !expected => Err(format!("end {} accepted message {} of end {} although it waits for message {} of end {}", to, k, from, self.got[to], to ^ 1)),
            Ok(()) if b != text => Err("message changed".into()),
            Ok(()) => {
                self.got[to] += 1;
                Ok("accepted")
            }
            Err(_) if expected => Err(format!("end {} refused the next message of its peer", to)),
            Err(_) => Ok("refused"),
        }
    }
}

fn c14(ctx: &Ctx) {
    let a = Seeds::derived(ctx.seed, "c14/a");
    let mut configs: Vec<(&str, Seeds)> = vec![];
    let fresh = Seeds::derived(ctx.seed, "c14/b");
    let mut s = fresh.clone();
    s.s = a.s.clone();
    configs.push(("same static keys", s));
    let mut s = fresh.clone();
    s.s = a.s.clone();
    s.e = a.e.clone();
    configs.push(("same static and ephemeral keys", s));
    let mut s = a.clone();
    s.pq[3] = fresh.pq[3].clone();
    configs.push(("only the last encapsulation differs", s));
    let mut s = a.clone();
    s.pq[0] = fresh.pq[0].clone();
    configs.push(("only the initiator's first encapsulation differs", s));
    let mut s = a.clone();
    s.s = [a.s[1].clone(), a.s[0].clone()];
    configs.push(("roles exchanged", s));
    configs.push(("different parties", fresh));
    let max = ctx.tier(2usize, 3);
    let depth = ctx.tier(6usize, 8);
    ctx.par(&configs, |(name, b)| {
        let w = mcx::guard(|| -> Result<Talk, String> {
            let (ai, ar, _) = Session::honest(a.clone()).run()?;
            let (bi, br, _) = Session::honest(b.clone()).run()?;
            Ok(Talk { ends: vec![ai.cipher, ar.cipher, bi.cipher, br.cipher], sent: vec![vec![]; 4], got: vec![0; 4] })
        });
        let w = match w {
            Ok(Ok(w)) => w,
            Ok(Err(e)) | Err(e) => {
                ctx.case(&format!("{}: set-up", name), || Err(e));
                return;
            }
        };
        // merged states; in each one every possible delivery to every end
        let mut seen = BTreeSet::new();
        let mut q = VecDeque::from([w.clone()]);
        seen.insert(vec![0usize; 8]);
        while let Some(w) = q.pop_front() {
            if ctx.replay.is_none() && ctx.stopped() {
                return;
            }
            ctx.state(&(name, w.sent.iter().map(|s| s.len()).collect::<Vec<_>>(), &w.got));
            let mut next = vec![];
            for e in 0..4 {
                if w.sent[e].len() < max {
                    let mut x = w.clone();
                    let r = mcx::guard(|| x.send(e));
                    ctx.steps(1);
                    let good = r.is_ok();
                    ctx.case(&format!("{}: sent {:?} got {:?}: end {} sends", name, lens(&w), w.got, e), || r);
                    if good {
                        next.push(x);
                    }
                }
            }
            for from in 0..4 {
                for k in 0..w.sent[from].len() {
                    for to in 0..4 {
                        let mut x = w.clone();
                        let r = mcx::guard(|| x.deliver(from, k, to)).unwrap_or_else(Err);
                        ctx.steps(1);
                        ctx.trace();
                        if let Ok(o) = r {
                            ctx.outcome(o);
                        }
                        let advanced = x.got != w.got;
                        let good = r.is_ok();
                        ctx.case(&format!("{}: sent {:?} got {:?}: message {} of end {} to end {}", name, lens(&w), w.got, k, from, to), || r.map(|_| ()));
                        if good && advanced {
                            next.push(x);
                        } else if good && !advanced {
                            // a refused delivery must leave the end usable: its next genuine message, if any, is accepted
                            let mut y = x;
                            let g = y.got[to];
                            if g < y.sent[to ^ 1].len() {
                                let r = mcx::guard(|| y.deliver(to ^ 1, g, to)).unwrap_or_else(Err);
                                ctx.case(&format!("{}: sent {:?} got {:?}: message {} of end {} to end {}, then the genuine one", name, lens(&w), w.got, k, from, to), || r.map(|_| ()));
                                ctx.steps(1);
                            }
                        }
                    }
                }
            }
            for x in next {
                let key: Vec<usize> = lens(&x).into_iter().chain(x.got.iter().cloned()).collect();
                if seen.insert(key) {
                    q.push_back(x);
                }
            }
        }
        // all histories to a depth without merging
        fn dfs(ctx: &Ctx, name: &str, w: &Talk, path: &mut Vec<(u8, u8, u8, u8)>, left: usize) {
            if left == 0 || (ctx.replay.is_none() && ctx.stopped()) {
                ctx.trace();
                return;
            }
            let mut menu: Vec<(u8, u8, u8, u8)> = (0..4).map(|e| (0, e, 0, 0)).collect();
            for from in 0..4u8 {
                // the oldest undelivered and the newest message, to the peer, to a stranger and back to the sender
                let n = w.sent[from as usize].len() as u8;
                if n > 0 {
                    let g = (w.got[(from ^ 1) as usize] as u8).min(n - 1);
                    for to in [from ^ 1, from ^ 2] {
                        menu.push((1, from, g, to));
                    }
                }
            }
            for m in menu {
                let mut x = w.clone();
                path.push(m);
                let r = mcx::guard(|| {
                    if m.0 == 0 {
                        x.send(m.1 as usize);
                        Ok(())
                    } else {
                        x.deliver(m.1 as usize, m.2 as usize, m.3 as usize).map(|_| ())
                    }
                })
                .unwrap_or_else(Err);
                ctx.steps(1);
                let good = r.is_ok();
                ctx.case(&format!("{}: history {:?}", name, path), || r);
                if good {
                    dfs(ctx, name, &x, path, left - 1);
                }
                path.pop();
            }
        }
        dfs(ctx, name, &w, &mut vec![], depth);
        // a cipher cannot be assembled from halves of different sessions
        for x in 0..4usize {
            for y in 0..4usize {
                ctx.case(&format!("{}: sending half of end {} against receiving half of end {}", name, x, y), || {
                    let mut s = w.ends[x].send.clone();
                    let mut r = w.ends[y].receive.clone();
                    let mut t = *b"text";
                    let tag = s.encrypt(b"x", &mut t);
                    match (r.decrypt(b"x", &mut t, &tag), x ^ 1 == y) {
                        (Ok(()), true) if &t == b"text" => Ok(()),
                        (Err(_), false) => Ok(()),
                        (Ok(()), false) => Err("read by the wrong end".into()),
                        _ => Err("not read by the right end".into()),
                    }
                });
                ctx.steps(2);
            }
        }
    });
    ctx.note("bound", json!({"sessions": 2, "messages per direction": max, "history depth": depth, "session pairs": configs.iter().map(|c| c.0).collect::<Vec<_>>()}));
    ctx.note("exhaustive", json!(true));
    ctx.sample(json!({"case": "same static keys: sent [1, 0, 1, 0]: message 0 of end 0 to end 3", "observed": "refused"}));
}

fn lens(w: &Talk) -> Vec<usize> {
    w.sent.iter().map(|s| s.len()).collect()
}

// ---------------------------------------------------------------- C32

const SEEDS: [&str; 8] = [
    "initiator's static", "responder's static", "initiator's ephemeral", "responder's ephemeral",
    "initiator's first encapsulation", "initiator's second encapsulation", "responder's first encapsulation", "responder's second encapsulation",
];

fn seed_mut(s: &mut Seeds, part: usize) -> &mut Vec<u8> {
    match part {
        0 | 1 => &mut s.s[part],
        2 | 3 => &mut s.e[part - 2],
        _ => &mut s.pq[part - 4],
    }
}

/// What comes of a set of seeds: the parts of the message the seed is drawn for, everything sent, the hash with the first transport messages.
fn outcome_of(seeds: &Seeds, part: usize) -> Result<(Vec<Vec<u8>>, Vec<u8>, Vec<u8>), String> {
    let s = Session::honest(seeds.clone());
    let (mut i, mut r, w) = s.run()?;
    agree(&s, &mut i, &mut r)?;
    let mut last = i.hash.clone();
    for c in [&mut i.cipher, &mut r.cipher] {
        let mut m = vec![0; 4];
        c.encrypt_ext(b"", &mut m);
        last.extend(m);
    }
    let all = w.iter().flatten().flatten().cloned().collect();
    let first = match part {
        0 => vec![bytes_of(&s.i.pk)[..32].to_vec(), bytes_of(&s.i.pk)[32..].to_vec()],
        1 => vec![bytes_of(&s.r.pk)[..32].to_vec(), bytes_of(&s.r.pk)[32..].to_vec()],
        2 => {
            let m = w[0].concat();
            vec![m[..32].to_vec(), m[32..].to_vec()]
        }
        3 | 6 => vec![w[1].concat()],
        7 => vec![w[3].concat()],
        _ => vec![w[2].concat()],
    };
    Ok((first, all, last))
}

fn c32(ctx: &Ctx) {
    ctx.assume("of a 96-byte key seed 32 bytes choose the curve scalar (at most 5 bits are lost to clamping), 32 the lattice key and 32 the secret that answers wrong ciphertexts");
    let n = ctx.tier(3u64, 24);
    let bases: Vec<(String, Seeds)> = (0..n)
        .map(|k| (format!("derived {}", k), Seeds::derived(ctx.seed, &format!("c32/{}", k))))
        .chain([("all zero".to_string(), Seeds::of(&mut |n| vec![0; n])), ("all ones".to_string(), Seeds::of(&mut |n| vec![0xff; n]))])
        .collect();
    let items: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| (0..8).map(move |p| (b, p))).collect();
    // a ciphertext for somebody else: the answer depends on the whole of a secret key
    let foreign = PublicKey::gen(&arr(&[7; 96])).0.encapsulate(&arr(&[9; 32])).ct;
    ctx.par(&items, |&(b, part)| {
        ctx.case(&format!("every bit of the {} seed, {}", SEEDS[part], bases[b].0), || {
            let base = &bases[b].1;
            let (first, all, last) = outcome_of(base, part)?;
            let secret = |s: &Seeds| {
                let (pk, sk) = PublicKey::gen(Array::from_slice(&s.s[part]));
                (pk.dh(&sk).to_vec(), pk.decapsulate(&sk, &foreign).to_vec())
            };
            let bits = seed_mut(&mut base.clone(), part).len() * 8;
            let mut counts = vec![0; first.len()];
            let (mut matter, mut kept) = (0, 0);
            let mut seen = BTreeSet::from([all.clone()]);
            for bit in 0..bits {
                let mut s = base.clone();
                seed_mut(&mut s, part)[bit / 8] ^= 1 << (bit % 8);
                let (f, a, l) = outcome_of(&s, part)?;
                ctx.steps(9);
                ctx.trace();
                ctx.state(&a);
                let here = f != first;
                f.iter().zip(&first).zip(&mut counts).for_each(|((x, y), c)| *c += (x != y) as usize);
                matter += here as usize;
                if here && l == last {
                    return Err(format!("bit {} changes what is sent, but not what the session comes to", bit));
                }
                if a != all && !seen.insert(a) {
                    return Err(format!("bit {} has the same effect as one before", bit));
                }
                if part < 2 && (here || secret(&s) != secret(base)) {
                    kept += 1;
                }
            }
            let want = if part < 4 { 512 - 5 } else { 256 };
            if matter < want {
                return Err(format!("of {} bits of the seed {} reach the message", bits, matter));
            }
            if part < 3 && (counts[0] < 251 || counts[1] < 256) {
                return Err(format!("{} bits reach the curve key, {} the lattice key", counts[0], counts[1]));
            }
            if part < 2 && kept < 768 - 5 {
                return Err(format!("of {} bits of the seed {} reach the key pair", bits, kept));
            }
            ctx.outcome(&format!("{} seed: {} of {} bits reach the message", SEEDS[part], matter, bits));
            Ok(())
        });
    });
}
