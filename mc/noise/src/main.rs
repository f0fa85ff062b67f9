//! C05-C08: the Noise state machine against an independent model.
#[macro_use]
mod real;
mod chain;
mod model;
mod spy;
mod vectors;
use aead::NewAead;
use mcx::serde_json::json;
use mcx::{short_hex, Ctx};
use model::{State, Suite, A, H, O};
use real::{Born, Rec, St, BORN, ROTATIONS, SUITES};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::marker::PhantomData;
use std::sync::Mutex;
use vru_noise::{Cipher, Config, Rotor, Tag};

pub fn eq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {} expected {}", what, short_hex(got), short_hex(want)))
    }
}

fn data(label: u8, len: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(29).wrapping_add(label.wrapping_mul(73)).wrapping_add((i >> 8) as u8)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Hash(usize),
    Ss(usize),
    Psk(usize),
    Enc(usize, bool),
    Dec(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Finish,
    /// deliver a wrong ciphertext: what is changed
    Bad(u8),
}

/// Runs `ops` on the real code and the model, comparing after every step.
fn run<C: Config>(suite: Suite, name: &str, ops: &[Op]) -> Result<(St<C>, State), String> {
    let mut s = St::<C>::new(name);
    let mut m = State::new(suite, name.as_bytes());
    eq("hash after initialise", &s.hash(), &m.h)?;
    for (i, op) in ops.iter().enumerate() {
        let l = i as u8;
        s = match *op {
            Op::Hash(n) => {
                m.mix_hash(&data(l, n));
                s.mix_hash(&data(l, n))
            }
            Op::Ss(n) => {
                m.mix_key(&data(l, n));
                s.mix_ss(&data(l, n))
            }
            Op::Psk(n) => {
                m.mix_key_and_hash(&data(l, n));
                s.mix_psk(&data(l, n))
            }
            Op::Enc(n, ext) => {
                let want = m.seal(&data(l, n));
                let (s, got) = s.encrypt(&data(l, n), ext);
                eq(&format!("ciphertext of step {}", i), &got, &want)?;
                s
            }
            Op::Dec(n) => {
                let ct = m.seal(&data(l, n));
                let (s, pt) = s.decrypt(&ct[..n], &ct[n..]).map_err(|_| format!("step {}: honest ciphertext refused", i))?;
                eq(&format!("plaintext of step {}", i), &pt, &data(l, n))?;
                s
            }
        };
        eq(&format!("hash after step {} {:?}", i, op), &s.hash(), &m.h)?;
    }
    Ok((s, m))
}

fn finish_check<C: Config>(s: St<C>, m: &State) -> Result<(), String> {
    BORN.with(|b| b.borrow_mut().clear());
    let (mut c, h) = s.finish::<Rec<{ u64::MAX }>>();
    eq("handshake hash", &h, &m.h)?;
    let (k1, k2) = m.split();
    let born = BORN.with(|b| b.borrow().clone());
    let want = vec![Born { ck: m.ck.clone(), key: k1.clone() }, Born { ck: m.ck.clone(), key: k2.clone() }];
    let mut sorted = born.clone();
    sorted.sort_by(|a, b| a.key.cmp(&b.key));
    let mut ws = want;
    ws.sort_by(|a, b| a.key.cmp(&b.key));
    if sorted != ws {
        return Err(format!("rotors were started with {:?}", born));
    }
    let mut buf = data(200, 21);
    c.encrypt_ext(b"ad", &mut buf);
    eq("first transport message", &buf, &m.suite.seal(&k1, 0, b"ad", &data(200, 21)))?;
    let mut ct = m.suite.seal(&k2, 0, b"", &data(201, 7));
    c.decrypt_ext(b"", &mut ct).map_err(|_| "honest transport message refused".to_string())?;
    eq("transport plaintext", &ct, &data(201, 7))?;
    // one that is far longer than any block, with as much associated data
    if LONG.with(|l| l.get()) {
        let (long, ad) = (data(202, 66000), data(203, 66001));
        let mut buf = long.clone();
        c.encrypt_ext(&ad, &mut buf);
        eq("second transport message", &buf, &m.suite.seal(&k1, 1, &ad, &long))?;
        let mut ct = m.suite.seal(&k2, 1, &ad, &long);
        c.decrypt_ext(&ad, &mut ct).map_err(|_| "long honest transport message refused".to_string())?;
        eq("long transport plaintext", &ct, &long)?;
    }
    Ok(())
}

thread_local! {
    static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn step_case<C: Config>(suite: Suite, name: &str, ops: &[Op], end: End) -> Result<(), String> {
    let (s, mut m) = run::<C>(suite, name, ops)?;
    match end {
        End::Finish => finish_check(s, &m),
        End::Bad(k) => {
            let n = 20;
            let mut ct = match k {
                // sealed under the previous nonce, or for another transcript
                6 => {
                    let mut o = m.clone();
                    o.n = if m.n == 0 { 1 } else { m.n - 1 };
                    o.seal(&data(99, n))
                }
                7 => {
                    let mut o = m.clone();
                    o.h[0] ^= 1;
                    o.seal(&data(99, n))
                }
                _ => m.seal(&data(99, n)),
            };
            let (mut a, mut b) = (0, n);
            match k {
                0 => ct[0] ^= 1,
                1 => ct[n - 1] ^= 0x80,
                2 => ct[n] ^= 1,
                3 => ct[n + 15] ^= 0x80,
                4 => a = 1,
                5 => b = n - 1,
                _ => {}
            }
            match s.decrypt(&ct[a..b], &ct[n..]) {
                Err(()) => Ok(()),
                Ok(_) => Err(format!("wrong ciphertext (kind {}) was accepted", k)),
            }
        }
    }
}

fn keyed(ops: &[Op]) -> bool {
    ops.iter().any(|o| matches!(o, Op::Ss(_) | Op::Psk(_)))
}

const NAME: &str = "Noise_XX_25519+Kyber_ChaChaPoly_SHA256";

fn c05(ctx: &Ctx) {
    // 1. operation sequences
    let alphabet = [
        Op::Hash(33), Op::Ss(32), Op::Enc(20, true), Op::Dec(20), Op::Psk(32), Op::Hash(0), Op::Enc(0, false), Op::Dec(0), Op::Enc(129, false), Op::Ss(0), Op::Hash(150), Op::Dec(65),
    ];
    for (si, suite) in SUITES.iter().enumerate() {
        let depth = if si < 2 { ctx.tier(4, 5) } else { ctx.tier(3, 4) };
        let deep: Vec<Op> = if si < 2 { alphabet.to_vec() } else { alphabet.to_vec() };
        let firsts: Vec<(usize, usize)> = (0..deep.len()).flat_map(|a| (0..deep.len()).map(move |b| (a, b))).collect();
        let visit = |ops: &[Op]| {
            let key = format!("{:?} {:?}", suite, ops);
            ctx.case(&key, || {
                ctx.steps(ops.len() as u64 + 4);
                ctx.trace();
                with_suite!(suite, step_case(*suite, NAME, ops, End::Finish))
            });
            if keyed(ops) {
                for k in 0..8 {
                    if ops.len() > 3 && k % 3 != ops.len() as u8 % 3 {
                        continue;
                    }
                    ctx.case(&format!("{} then bad {}", key, k), || {
                        ctx.steps(ops.len() as u64 + 1);
                        ctx.trace();
                        with_suite!(suite, step_case(*suite, NAME, ops, End::Bad(k)))
                    });
                }
            }
            ctx.state(&(suite, ops));
        };
        fn rec(ctx: &Ctx, al: &[Op], ops: &mut Vec<Op>, depth: usize, visit: &dyn Fn(&[Op])) {
            if ctx.replay.is_none() && ctx.stopped() {
                return;
            }
            visit(ops);
            if ops.len() == depth {
                return;
            }
            for o in al {
                if matches!(o, Op::Enc(..) | Op::Dec(_)) && !keyed(ops) {
                    continue;
                }
                ops.push(*o);
                rec(ctx, al, ops, depth, visit);
                ops.pop();
            }
        }
        visit(&[]);
        for o in &deep {
            if !matches!(o, Op::Enc(..) | Op::Dec(_)) {
                visit(&[*o]);
            }
        }
        ctx.par(&firsts, |&(a, b)| {
            let mut ops = vec![deep[a], deep[b]];
            if matches!(ops[0], Op::Enc(..) | Op::Dec(_)) || (matches!(ops[1], Op::Enc(..) | Op::Dec(_)) && !keyed(&ops[..1])) {
                return;
            }
            rec(ctx, &deep, &mut ops, depth, &visit);
        });
        ctx.outcome(&format!("{:?} depth {}", suite, depth));

        // 2. every data length in every position that takes data
        let max = ctx.tier(3 * suite.0.block() + 40, 6 * suite.0.block() + 300);
        ctx.par(&(0..=max).collect::<Vec<_>>(), |&n| {
            let seqs: Vec<Vec<Op>> = vec![
                vec![Op::Hash(n), Op::Ss(32), Op::Enc(3, true)],
                vec![Op::Ss(n), Op::Enc(3, true)],
                vec![Op::Psk(n), Op::Enc(3, true)],
                vec![Op::Ss(32), Op::Enc(n, true), Op::Enc(1, true)],
                vec![Op::Ss(32), Op::Enc(n, false), Op::Dec(1)],
                vec![Op::Ss(32), Op::Dec(n), Op::Dec(1)],
                vec![Op::Ss(32), Op::Hash(5), Op::Enc(max - n, false), Op::Dec(n), Op::Enc(n, true)],
            ];
            for ops in seqs {
                ctx.case(&format!("{:?} len {:?}", suite, ops), || {
                    ctx.steps(ops.len() as u64 + 4);
                    ctx.trace();
                    ctx.state(&(suite, &ops));
                    with_suite!(suite, step_case(*suite, NAME, &ops, End::Finish))
                });
            }
            if n < 300 {
                let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let ops = [Op::Hash(1), Op::Ss(32), Op::Enc(3, true)];
                ctx.case(&format!("{:?} name {}", suite, n), || {
                    ctx.steps(7);
                    ctx.trace();
                    with_suite!(suite, step_case(*suite, &name, &ops, End::Finish))
                });
            }
        });
        // 3. nonces of the handshake state, runs of encryptions and decryptions
        for pat in 0..(1u32 << 11) {
            let mut ops = vec![Op::Psk(32)];
            for i in 0..11 {
                ops.push(if pat >> i & 1 == 1 { Op::Enc(i, i % 2 == 0) } else { Op::Dec(i) });
            }
            if si < 2 || pat % 64 == 0 {
                ctx.case(&format!("{:?} run {:011b}", suite, pat), || {
                    ctx.steps(16);
                    ctx.trace();
                    ctx.state(&(suite, &ops));
                    with_suite!(suite, step_case(*suite, NAME, &ops, End::Finish))
                });
            }
        }
    }
    // data far longer than any block, in every position that takes data
    for suite in &SUITES {
        let longs = ctx.tier(&[4096usize, 65519, 65520, 65536, 70001][..], &[4096, 65519, 65520, 65535, 65536, 70001, (1 << 20) + 3, (1 << 24) + 1][..]);
        let jobs: Vec<(usize, usize)> = longs.iter().flat_map(|n| (0..6).map(move |k| (*n, k))).collect();
        ctx.par(&jobs, |&(n, k)| {
            let ops = match k {
                0 => vec![Op::Hash(n), Op::Ss(32), Op::Enc(3, true)],
                1 => vec![Op::Ss(n), Op::Enc(3, true)],
                2 => vec![Op::Psk(n), Op::Enc(3, true)],
                3 => vec![Op::Ss(32), Op::Enc(n, true), Op::Enc(1, true)],
                4 => vec![Op::Ss(32), Op::Enc(n, false), Op::Dec(1)],
                _ => vec![Op::Ss(32), Op::Dec(n), Op::Dec(1)],
            };
            ctx.case(&format!("{:?} long {:?}", suite, ops), || {
                ctx.steps(ops.len() as u64 + 6);
                ctx.trace();
                ctx.state(&(suite, &ops));
                LONG.with(|l| l.set(true));
                let r = with_suite!(suite, step_case(*suite, NAME, &ops, End::Finish));
                LONG.with(|l| l.set(false));
                r
            });
            if k == 0 && n <= 70001 {
                let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                ctx.case(&format!("{:?} name {}", suite, n), || with_suite!(suite, step_case(*suite, &name, &[Op::Hash(1), Op::Ss(32), Op::Enc(3, true)], End::Finish)));
            }
        });
        ctx.outcomes_n("long data", jobs.len() as u64);
    }
    // 4. every bit of a ciphertext and of its tag
    for suite in &SUITES {
        for n in [0usize, 1, 17] {
            ctx.par(&(0..(n + 16) * 8).collect::<Vec<_>>(), |&bit| {
                ctx.case(&format!("{:?} ciphertext {} bit {}", suite, n, bit), || {
                    fn go<C: Config>(suite: Suite, n: usize, bit: usize) -> Result<(), String> {
                        let (s, mut m) = run::<C>(suite, NAME, &[Op::Ss(32), Op::Enc(4, true)])?;
                        let mut ct = m.seal(&data(3, n));
                        ct[bit / 8] ^= 1 << (bit % 8);
                        match s.decrypt(&ct[..n], &ct[n..]) {
                            Err(()) => Ok(()),
                            Ok(_) => Err("a changed ciphertext was accepted".into()),
                        }
                    }
                    ctx.steps(3);
                    ctx.trace();
                    with_suite!(suite, go(*suite, n, bit))
                });
            });
        }
    }
    // 5. the published vectors, through the real code
    vectors::replay(ctx);
    ctx.sample(json!({"suite": "Sha512/BE/AES256", "operations": "[Hash(33), Ss(32), Enc(20), Dec(0)] then finish", "compared": "hash after each step, ciphertexts, rotor keys, first transport messages"}));
    ctx.note("bound", json!("all operation sequences over 12 operations to the depth listed per suite, then finish or one of 8 wrong deliveries; all data lengths to several hash blocks; all 2^11 encrypt/decrypt runs; all ciphertext bits"));
}

// ---------------------------------------------------------------------------------------------- C06

fn c06(ctx: &Ctx) {
    // handshake histories seen by the spy
    let alphabet = [Op::Enc(5, true), Op::Dec(5), Op::Ss(32), Op::Psk(32), Op::Hash(3), Op::Enc(0, false), Op::Dec(70)];
    fn handshake<C: Config>(suite: Suite, ops: &[Op], tail: &[u8]) -> Result<usize, String> {
        spy::take_log();
        let (s, m) = run::<C>(suite, NAME, ops)?;
        let log = spy::take_log();
        let mut seen = HashSet::new();
        let mut count: HashMap<Vec<u8>, u64> = HashMap::new();
        // the model's own calls do not go through the log
        for c in &log {
            let n = count.entry(c.key.clone()).or_insert(0);
            if c.nonce != suite.nonce(*n) {
                return Err(format!("operation {} under a key used nonce {}", n, mcx::hex(&c.nonce)));
            }
            *n += 1;
            if c.enc && !seen.insert((c.key.clone(), c.nonce.clone())) {
                return Err("a nonce was used twice with one key".into());
            }
        }
        let used: HashSet<Vec<u8>> = count.keys().cloned().collect();
        let (mut c, _) = s.finish::<PhantomData<C>>();
        let (k1, k2) = m.split();
        if k1 == k2 || used.contains(&k1) || used.contains(&k2) {
            return Err("transport keys are not fresh".into());
        }
        let (mut sn, mut rn) = (0u64, 0u64);
        let (mut ks, mut kr) = (k1, k2);
        for (i, t) in tail.iter().enumerate() {
            spy::take_log();
            match t {
                0 => {
                    let mut b = data(i as u8, 4);
                    c.encrypt_ext(b"x", &mut b);
                }
                1 => {
                    let mut b = suite.seal(&kr, rn, b"y", &data(i as u8, 4));
                    c.decrypt_ext(b"y", &mut b).map_err(|_| format!("transport step {}: honest message refused", i))?;
                }
                2 => {
                    let mut b = suite.seal(&kr, rn, b"y", &data(i as u8, 4));
                    b[0] ^= 1;
                    if c.decrypt_ext(b"y", &mut b).is_ok() {
                        return Err("changed message accepted".into());
                    }
                }
                _ => {
                    c = c.swap();
                    std::mem::swap(&mut ks, &mut kr);
                    std::mem::swap(&mut sn, &mut rn);
                    continue;
                }
            }
            let l = spy::take_log();
            if l.len() != 1 {
                return Err(format!("transport step {}: {} cipher calls", i, l.len()));
            }
            let (k, n) = if *t == 0 { (&ks, sn) } else { (&kr, rn) };
            if l[0].key != *k || l[0].nonce != suite.nonce(n) || l[0].enc != (*t == 0) {
                return Err(format!("transport step {} ({}): expected nonce {}, got {} under {}", i, t, n, mcx::hex(&l[0].nonce), short_hex(&l[0].key)));
            }
            if l[0].enc && !seen.insert((l[0].key.clone(), l[0].nonce.clone())) {
                return Err("a nonce was used twice with one key".into());
            }
            match t {
                0 => sn += 1,
                1 => rn += 1,
                _ => {}
            }
        }
        Ok(log.len())
    }
    let spies = [Suite(H::Sha256, O::Le, A::Spy), Suite(H::Sha256, O::Be, A::Spy)];
    let hd = ctx.tier(4, 5);
    let mut hs: Vec<Vec<Op>> = vec![vec![]];
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..hd {
        let mut next = vec![];
        for p in &level {
            for o in &alphabet {
                if matches!(o, Op::Enc(..) | Op::Dec(_)) && !keyed(p) {
                    continue;
                }
                let mut q = p.clone();
                q.push(*o);
                next.push(q);
            }
        }
        hs.extend(next.clone());
        level = next;
    }
    ctx.note("handshake_histories", json!(hs.len()));
    let td = ctx.tier(4, 6);
    for suite in &spies {
        ctx.par(&hs, |ops| {
            // all transport tails after short handshakes, one representative tail after long ones
            let tails: Vec<Vec<u8>> = if ops.len() <= 1 {
                let mut v = vec![];
                for len in 0..=td + 2 {
                    for x in 0..4usize.pow(len as u32) {
                        v.push((0..len).map(|i| (x / 4usize.pow(i as u32) % 4) as u8).collect());
                    }
                }
                v
            } else {
                vec![vec![0, 1, 0, 1, 2, 1, 3, 0, 1]]
            };
            for t in &tails {
                ctx.case(&format!("{:?} {:?} tail {:?}", suite, ops, t), || {
                    ctx.steps((ops.len() + t.len()) as u64);
                    ctx.trace();
                    ctx.state(&(suite, ops, t));
                    let n = with_suite!(suite, handshake(*suite, ops, t))?;
                    ctx.outcome(&format!("handshake with {} cipher calls", n));
                    Ok(())
                });
            }
        });
    }
    // long runs under one handshake key: every run of 11 operations, and one operation repeated 300 times
    for suite in &spies {
        ctx.par(&(0..1u32 << 11).collect::<Vec<_>>(), |pat| {
            let mut ops = vec![Op::Ss(32)];
            ops.extend((0..11).map(|i| if pat >> i & 1 == 1 { Op::Enc(i, i % 2 == 0) } else { Op::Dec(i) }));
            ctx.case(&format!("{:?} handshake run {:011b}", suite, pat), || {
                ctx.steps(11);
                ctx.trace();
                ctx.state(&(suite, pat));
                let n = with_suite!(suite, handshake(*suite, &ops, &[0, 1]))?;
                ctx.outcome(&format!("handshake with {} cipher calls", n));
                Ok(())
            });
        });
        for turns in [false, true] {
            ctx.case(&format!("{:?} handshake chain of 300, taking turns {}", suite, turns), || {
                ctx.steps(600);
                ctx.trace();
                ctx.state(&(suite, "chain", turns));
                let go = if suite.1 == O::Le { chain::little } else { chain::big };
                spy::take_log();
                let r = go(turns);
                for (n, c) in spy::take_log().iter().enumerate() {
                    if c.nonce != suite.nonce(n as u64 / 2) {
                        return Err(format!("operation {} under a handshake key used nonce {}", n / 2, mcx::hex(&c.nonce)));
                    }
                }
                r.map_err(|_| "the two ends of a chain lost each other".to_string())
            });
        }
    }
    // both ends of a transport, with rotation: the union of all encryptions has no repetition
    fn pair<C: Config, R: Rotor<C>>(suite: Suite, i: u64, ops: &[u8]) -> Result<usize, String>
    where
        Cipher<C, R>: Sized,
    {
        let mk = || -> Result<Cipher<C, R>, String> { Ok(run::<C>(suite, NAME, &[Op::Ss(32)])?.0.finish::<R>().0) };
        let (mut a, mut b) = (mk()?, mk()?.swap());
        spy::take_log();
        let mut queue = [vec![], vec![]];
        let mut count = [[0u64; 2]; 2]; // [direction][sent, received]
        let mut seen = HashSet::new();
        let mut keys: [BTreeMap<u64, Vec<u8>>; 2] = Default::default(); // [direction][epoch]
        for (s, op) in ops.iter().enumerate() {
            let d = (*op % 2) as usize;
            let (tx, rx) = if d == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let what = op / 2;
            let n = match what {
                0 => {
                    let mut v = data(s as u8, 6);
                    tx.encrypt_ext(&[], &mut v);
                    queue[d].push(v);
                    count[d][0] += 1;
                    count[d][0] - 1
                }
                1 => {
                    if count[d][1] == count[d][0] {
                        continue;
                    }
                    let mut v: Vec<u8> = queue[d][count[d][1] as usize].clone();
                    rx.decrypt_ext(&[], &mut v).map_err(|_| format!("step {}: next message refused", s))?;
                    count[d][1] += 1;
                    count[d][1] - 1
                }
                _ => {
                    let mut v = vec![s as u8; 25];
                    if rx.decrypt_ext(&[], &mut v).is_ok() {
                        return Err("junk accepted".into());
                    }
                    count[d][1]
                }
            };
            for c in spy::take_log() {
                if c.nonce != suite.nonce(n) {
                    return Err(format!("step {}: expected nonce {}, got {}", s, n, mcx::hex(&c.nonce)));
                }
                if c.enc && !seen.insert((c.key.clone(), c.nonce.clone())) {
                    return Err(format!("step {}: a nonce was used twice with one key", s));
                }
                let epoch = if i == 0 { 0 } else { n / i };
                let k = keys[d].entry(epoch).or_insert_with(|| c.key.clone());
                if *k != c.key {
                    return Err(format!("step {}: the two ends use different keys for message {} or the key changed inside an interval", s, n));
                }
            }
        }
        for (d, x) in keys.iter().enumerate() {
            for k in x.values() {
                if keys[1 - d].values().any(|y| y == k) {
                    return Err("both directions use one key".into());
                }
            }
        }
        Ok(seen.len())
    }
    let pd = ctx.tier(7, 8);
    let total = 6usize.pow(pd as u32);
    let chunks: Vec<usize> = (0..216).collect();
    for suite in &spies {
        for i in [0u64, 1, 2, 3] {
            ctx.par(&chunks, |&c| {
                let (mut best, mut n) = (0, 0u64);
                for x in (c..total).step_by(216) {
                    if ctx.replay.is_none() && ctx.stopped() {
                        return;
                    }
                    let ops: Vec<u8> = (0..pd).map(|k| (x / 6usize.pow(k as u32) % 6) as u8).collect();
                    // skip sequences that deliver nothing new: only complete histories starting with a send
                    if ops[0] / 2 == 1 {
                        continue;
                    }
                    n += 1;
                    ctx.case(&format!("{:?} rotor {} pair {:?}", suite, i, ops), || {
                        let m = if suite.1 == O::Le {
                            type C = (sha2::Sha256, byteorder::LittleEndian, spy::Spy);
                            match i { 0 => pair::<C, PhantomData<C>>(*suite, i, &ops), 1 => pair::<C, Rec<1>>(*suite, i, &ops), 2 => pair::<C, Rec<2>>(*suite, i, &ops), _ => pair::<C, Rec<3>>(*suite, i, &ops) }
                        } else {
                            type C = (sha2::Sha256, byteorder::BigEndian, spy::Spy);
                            match i { 0 => pair::<C, PhantomData<C>>(*suite, i, &ops), 1 => pair::<C, Rec<1>>(*suite, i, &ops), 2 => pair::<C, Rec<2>>(*suite, i, &ops), _ => pair::<C, Rec<3>>(*suite, i, &ops) }
                        }?;
                        best = best.max(m);
                        Ok(())
                    });
                }
                ctx.steps(n * pd as u64);
                ctx.traces(n);
                ctx.state(&(suite, i, "pair", c));
                ctx.outcome(&format!("pair history with up to {} encryptions", best));
            });
        }
    }
    // one long history per direction and byte order, across the 8-, 16- and 32-bit boundaries
    let len = (1u64 << 32) + 70_000;
    let jobs = [(false, false), (false, true), (true, false), (true, true)];
    let done = Mutex::new(BTreeMap::new());
    ctx.par(&jobs, |&(be, recv)| {
        ctx.case(&format!("long history be={} receive={}", be, recv), || {
            fn go<C: Config>(recv: bool, len: u64) -> Result<u64, String> {
                spy::WRONG.with(|w| w.set(None));
                let s = St::<C>::new("x").mix_ss(&[1; 32]);
                let (mut c, _) = s.finish::<PhantomData<C>>();
                let bad = Tag::<C>::clone_from_slice(&[1; 16]);
                let good = Tag::<C>::clone_from_slice(&[0; 16]);
                let mut n = 0u64;
                while n < len {
                    if recv {
                        if n & 0xffff > 0xfff8 && c.decrypt(&[], &mut [], &bad).is_ok() {
                            return Err("bad tag accepted".into());
                        }
                        c.decrypt(&[], &mut [], &good).map_err(|_| format!("message {} refused", n))?;
                    } else {
                        c.encrypt(&[], &mut []);
                    }
                    n += 1;
                    if n & 0xffff == 0x10 {
                        if let Some((e, v)) = spy::WRONG.with(|w| w.get()) {
                            return Err(format!("operation number {} used nonce {}", e, v));
                        }
                    }
                }
                if let Some((e, v)) = spy::WRONG.with(|w| w.get()) {
                    return Err(format!("operation number {} used nonce {}", e, v));
                }
                Ok(n)
            }
            let n = if be { go::<(sha2::Sha256, byteorder::BigEndian, spy::Counter<true>)>(recv, len)? } else { go::<(sha2::Sha256, byteorder::LittleEndian, spy::Counter<false>)>(recv, len)? };
            ctx.steps(n);
            ctx.trace();
            done.lock().unwrap().insert(format!("be={} receive={}", be, recv), n);
            Ok(())
        });
    });
    ctx.note("long_histories", json!(*done.lock().unwrap()));
    ctx.sample(json!({"operations": "Ss, Enc, Dec, Psk, Enc, finish, send, receive, send, receive, junk, receive, swap, send, receive", "observed": "key and nonce of each cipher call"}));
    ctx.note("bound", json!({"handshake depth": hd, "pair history length": pd, "long history": len}));
}

// ---------------------------------------------------------------------------------------------- C07

/// What a delivery is made of: an alteration of message `j` of direction `d`.
fn alterations(ct: &[u8]) -> Vec<(String, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    let bits: Vec<usize> = vec![0, 7, (ct.len() - 16) * 8, ct.len() * 8 - 1, ct.len() * 4];
    for b in bits {
        let mut c = ct.to_vec();
        c[b / 8] ^= 1 << (b % 8);
        v.push((format!("bit {} changed", b), c, b"ad".to_vec()));
    }
    v.push(("other associated data".into(), ct.to_vec(), b"ae".to_vec()));
    v.push(("no associated data".into(), ct.to_vec(), vec![]));
    let mut c = ct.to_vec();
    c.push(0);
    v.push(("one byte longer".into(), c, b"ad".to_vec()));
    for n in 0..ct.len().min(19) {
        v.push((format!("cut to {} bytes", n), ct[..n].to_vec(), b"ad".to_vec()));
    }
    v.push(("cut by one".into(), ct[..ct.len() - 1].to_vec(), b"ad".to_vec()));
    if ct.len() > 16 {
        v.push(("first byte lost".into(), ct[1..].to_vec(), b"ad".to_vec()));
    }
    v.push(("zeros".into(), vec![0; ct.len()], b"ad".to_vec()));
    v
}

#[derive(Clone)]
struct World<C: Config + Clone, R: Rotor<C> + Clone> {
    ends: [Cipher<C, R>; 2],
    sent: [Vec<(Vec<u8>, Vec<u8>)>; 2], // by end: (plaintext, ciphertext)
    got: [usize; 2],                    // messages delivered from that end
}
impl<C: Config + Clone, R: Rotor<C> + Clone> World<C, R> {
    fn send(&mut self, d: usize) {
        let n = self.sent[d].len();
        let pt = data((40 * d + n) as u8, [5, 0, 1, 64, 17, 16, 130][n % 7]);
        let mut v = pt.clone();
        if n % 2 == 0 {
            self.ends[d].encrypt_ext(b"ad", &mut v);
        } else {
            let t = self.ends[d].encrypt(b"ad", &mut v);
            v.extend_from_slice(&t);
        }
        self.sent[d].push((pt, v));
    }
    fn receive(&mut self, d: usize) -> Result<(), String> {
        let j = self.got[d];
        let (pt, ct) = self.sent[d][j].clone();
        let mut v = ct;
        if j % 2 == 0 {
            let t = v.split_off(v.len() - 16);
            self.ends[1 - d].decrypt(b"ad", &mut v, &Tag::<C>::clone_from_slice(&t)).map_err(|_| format!("genuine message {} of direction {} refused", j, d))?;
        } else {
            self.ends[1 - d].decrypt_ext(b"ad", &mut v).map_err(|_| format!("genuine message {} of direction {} refused", j, d))?;
        }
        eq("delivered plaintext", &v, &pt)?;
        self.got[d] += 1;
        Ok(())
    }
    fn junk(&mut self, d: usize, ct: &[u8], ad: &[u8]) -> Result<(), String> {
        let mut v = ct.to_vec();
        match self.ends[1 - d].decrypt_ext(ad, &mut v) {
            Err(_) => Ok(()),
            Ok(()) => Err("accepted".into()),
        }
    }
    /// Everything still undelivered arrives, then one more message each way.
    fn drain(mut self) -> Result<u64, String> {
        let mut n = 0;
        for d in 0..2 {
            self.send(d);
            while self.got[d] < self.sent[d].len() {
                self.receive(d)?;
                n += 1;
            }
        }
        Ok(n)
    }
    /// Every delivery other than the genuine next message.
    fn junk_menu(&self, d: usize, short: bool) -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let mut v = vec![];
        for (j, (_, c)) in self.sent[d].iter().enumerate() {
            if j == self.got[d] {
                if !short {
                    v.extend(alterations(c).into_iter().map(|(n, c, a)| (format!("next message, {}", n), c, a)));
                } else {
                    let mut c = c.clone();
                    c[0] ^= 1;
                    v.push(("next message changed".into(), c, b"ad".to_vec()));
                }
            } else {
                v.push((format!("message {} instead of {}", j, self.got[d]), c.clone(), b"ad".to_vec()));
            }
        }
        for (j, (_, c)) in self.sent[1 - d].iter().enumerate() {
            v.push((format!("own message {} reflected", j), c.clone(), b"ad".to_vec()));
        }
        if !short {
            v.push(("empty".into(), vec![], b"ad".to_vec()));
            for n in [1, 15, 16, 17, 300] {
                v.push((format!("{} zero bytes", n), vec![0; n], b"ad".to_vec()));
            }
        }
        v
    }
}

fn c07(ctx: &Ctx) {
    fn world<C: Config + Clone, R: Rotor<C> + Clone>(suite: Suite) -> Result<World<C, R>, String> {
        let mk = || -> Result<Cipher<C, R>, String> { Ok(run::<C>(suite, NAME, &[Op::Ss(32), Op::Enc(3, true), Op::Psk(32)])?.0.finish::<R>().0) };
        Ok(World { ends: [mk()?, mk()?.swap()], sent: Default::default(), got: [0; 2] })
    }
    // breadth-first over the states of the model; in each state every junk delivery, singly and in pairs
    fn bfs<C: Config + Clone, R: Rotor<C> + Clone>(ctx: &Ctx, suite: Suite, name: &str, max: usize) {
        let base = format!("{:?} rotor {}", suite, name);
        let w = match mcx::guard(|| world::<C, R>(suite)) {
            Ok(Ok(w)) => w,
            Ok(Err(e)) | Err(e) => {
                ctx.case(&base, || Err(e));
                return;
            }
        };
        let mut seen = BTreeSet::new();
        let mut frontier = std::collections::VecDeque::from([(vec![], w)]);
        seen.insert([0usize; 4]);
        while let Some((path, w)) = frontier.pop_front() {
            if ctx.replay.is_none() && ctx.stopped() {
                return;
            }
            for d in 0..2 {
                for (what, ct, ad) in w.junk_menu(d, false) {
                    ctx.case(&format!("{} after {:?}: direction {} {}", base, path, d, what), || {
                        let mut x = w.clone();
                        x.junk(d, &ct, &ad).map_err(|e| format!("{}: {}", what, e))?;
                        x.junk(d, &ct, &ad).map_err(|e| format!("{} again: {}", what, e))?;
                        let n = x.drain()?;
                        ctx.steps(n + 2);
                        ctx.trace();
                        Ok(())
                    });
                    ctx.outcome(&format!("refused: {}", what.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")));
                }
            }
            ctx.state(&(suite, name, &w.got, w.sent[0].len(), w.sent[1].len()));
            for t in 0..4u8 {
                let d = (t % 2) as usize;
                if t < 2 && w.sent[d].len() >= max || t >= 2 && w.got[d] >= w.sent[d].len() {
                    continue;
                }
                let mut x = w.clone();
                let mut p = path.clone();
                p.push(t);
                let r = mcx::guard(|| {
                    if t < 2 {
                        x.send(d);
                        Ok(())
                    } else {
                        x.receive(d)
                    }
                });
                ctx.steps(1);
                let good = matches!(r, Ok(Ok(())));
                ctx.case(&format!("{} path {:?}", base, p), || r.unwrap_or_else(Err));
                if !good {
                    return;
                }
                let k = [x.sent[0].len(), x.got[0], x.sent[1].len(), x.got[1]];
                if seen.insert(k) {
                    frontier.push_back((p, x));
                }
            }
        }
    }
    // all histories, without merging states, with junk deliveries in between
    fn dfs<C: Config + Clone, R: Rotor<C> + Clone>(ctx: &Ctx, base: &str, w: &World<C, R>, path: &mut Vec<String>, left: usize) {
        if left == 0 || (ctx.replay.is_none() && ctx.stopped()) {
            ctx.trace();
            return;
        }
        for d in 0..2 {
            let mut menu: Vec<(String, Option<(Vec<u8>, Vec<u8>)>)> = vec![(format!("send {}", d), None)];
            if w.got[d] < w.sent[d].len() {
                menu.push((format!("receive {}", d), None));
            }
            menu.extend(w.junk_menu(d, true).into_iter().take(4).map(|(n, c, a)| (format!("{} {}", d, n), Some((c, a)))));
            for (what, junk) in menu {
                let mut x = w.clone();
                path.push(what.clone());
                let r = mcx::guard(|| match &junk {
                    Some((c, a)) => x.junk(d, c, a),
                    None if what.starts_with("send") => {
                        x.send(d);
                        Ok(())
                    }
                    None => x.receive(d),
                });
                ctx.steps(1);
                let good = matches!(r, Ok(Ok(())));
                ctx.case(&format!("{} history {:?}", base, path), || r.unwrap_or_else(Err));
                if good {
                    dfs(ctx, base, &x, path, left - 1);
                }
                path.pop();
            }
        }
    }
    type C1 = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
    type C2 = (sha2::Sha512, byteorder::BigEndian, aes_gcm::Aes256Gcm);
    let (s1, s2) = (SUITES[0], SUITES[1]);
    let max = ctx.tier(5, 8);
    let depth = ctx.tier(6, 7);
    let jobs: Vec<usize> = (0..16).collect();
    ctx.par(&jobs, |&j| match j {
        0 => bfs::<C1, PhantomData<C1>>(ctx, s1, "none", max),
        1 => bfs::<C1, Rec<1>>(ctx, s1, "1", max),
        2 => bfs::<C1, Rec<2>>(ctx, s1, "2", max),
        3 => bfs::<C1, Rec<3>>(ctx, s1, "3", max),
        4 => bfs::<C2, PhantomData<C2>>(ctx, s2, "none", max),
        5 => bfs::<C2, Rec<1>>(ctx, s2, "1", max),
        6 => bfs::<C2, Rec<2>>(ctx, s2, "2", max),
        7 => bfs::<C2, Rec<4>>(ctx, s2, "4", max),
        8 => drop(world::<C1, PhantomData<C1>>(s1).map(|w| dfs(ctx, "none", &w, &mut vec![], depth))),
        9 => drop(world::<C1, Rec<1>>(s1).map(|w| dfs(ctx, "1", &w, &mut vec![], depth))),
        10 => drop(world::<C1, Rec<2>>(s1).map(|w| dfs(ctx, "2", &w, &mut vec![], depth))),
        11 => drop(world::<C1, Rec<3>>(s1).map(|w| dfs(ctx, "3", &w, &mut vec![], depth))),
        12 => drop(world::<C2, Rec<2>>(s2).map(|w| dfs(ctx, "2be", &w, &mut vec![], depth))),
        13 => drop(world::<C2, PhantomData<C2>>(s2).map(|w| dfs(ctx, "nonebe", &w, &mut vec![], depth))),
        _ => {}
    });
    // every bit of a message, of its tag and of its associated data
    for len in [0usize, 1, 16, 33] {
        ctx.par(&(0..(len + 16 + 8) * 8).collect::<Vec<_>>(), |&bit| {
            ctx.case(&format!("message of {} bytes, bit {}", len, bit), || {
                let mut w = world::<C1, Rec<2>>(s1)?;
                let mut c = data(9, len);
                let mut ad = data(8, 8);
                w.ends[0].encrypt_ext(&ad, &mut c);
                let good = c.clone();
                if bit < (len + 16) * 8 {
                    c[bit / 8] ^= 1 << (bit % 8);
                } else {
                    ad[bit / 8 - len - 16] ^= 1 << (bit % 8);
                }
                w.junk(0, &c, &ad)?;
                let mut v = good;
                w.ends[1].decrypt_ext(&data(8, 8), &mut v).map_err(|_| "genuine message refused after a changed one".to_string())?;
                ctx.steps(3);
                ctx.trace();
                eq("plaintext", &v, &data(9, len))
            });
        });
    }
    // long messages and long associated data, changed in one bit at either end and around powers of two
    let longs = ctx.tier(&[4097usize, 65600, 70001][..], &[4097, 65600, 70001, (1 << 20) + 9, (1 << 24) + 9][..]);
    let mut jobs = vec![];
    for (i, n) in longs.iter().enumerate() {
        for (len, ad) in [(*n, 5), (5, *n), (longs[(i + 1) % longs.len()], *n)] {
            let places = |n: usize| {
                let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
                for k in 7..25 {
                    v.extend([(1usize << k) - 17, (1 << k) - 16, (1 << k) - 1, 1 << k]);
                }
                v.retain(|p| *p < n);
                v.sort();
                v.dedup();
                v
            };
            jobs.extend(places(len + 16).into_iter().map(|p| (len, ad, true, p)));
            jobs.extend(places(ad).into_iter().map(|p| (len, ad, false, p)));
        }
    }
    ctx.par(&jobs, |&(len, ad_len, body, at)| {
        ctx.case(&format!("message of {} bytes with {} of associated data, byte {} of the {}", len, ad_len, at, if body { "message" } else { "data" }), || {
            let mut w = world::<C1, Rec<2>>(s1)?;
            let (mut c, mut ad) = (data(9, len), data(8, ad_len));
            w.ends[0].encrypt_ext(&ad, &mut c);
            let good = c.clone();
            let x = if body { &mut c } else { &mut ad };
            x[at] ^= 1 << (at % 8);
            w.junk(0, &c, &ad)?;
            let mut v = good;
            w.ends[1].decrypt_ext(&data(8, ad_len), &mut v).map_err(|_| "genuine message refused after a changed one".to_string())?;
            ctx.steps(3);
            ctx.trace();
            eq("plaintext", &v, &data(9, len))
        });
    });
    ctx.outcomes_n("refused: long message changed", jobs.len() as u64);
    // rotation instants on both ends over a long conversation
    for i in [1u64, 2, 3, 7] {
        ctx.case(&format!("rotation every {} over 300 messages", i), || {
            fn go<R: Rotor<C1> + Clone>(s: Suite, i: u64) -> Result<(), String> {
                let mut w = world::<C1, R>(s)?;
                ROTATIONS.with(|r| *r.borrow_mut() = 0);
                for n in 0..300u64 {
                    let d = (n % 5 / 3) as usize;
                    let sent = w.sent[d].len() as u64 + 1;
                    let before = ROTATIONS.with(|r| *r.borrow());
                    w.send(d);
                    let mid = ROTATIONS.with(|r| *r.borrow());
                    w.receive(d)?;
                    let after = ROTATIONS.with(|r| *r.borrow());
                    let want = (sent % i == 0) as u64;
                    if mid - before != want || after - mid != want {
                        return Err(format!("message {}: sender rotated {} times, receiver {}", sent, mid - before, after - mid));
                    }
                }
                Ok(())
            }
            ctx.steps(600);
            ctx.trace();
            match i { 1 => go::<Rec<1>>(s1, i), 2 => go::<Rec<2>>(s1, i), 3 => go::<Rec<3>>(s1, i), _ => go::<Rec<7>>(s1, i) }
        });
    }
    ctx.sample(json!({"history": ["send 0", "send 0", "0 message 1 instead of 0", "receive 0", "1 own message 0 reflected", "send 1", "receive 1"], "expected": "junk refused, genuine accepted, state unchanged by junk"}));
    ctx.note("bound", json!({"messages per direction (merged states)": max, "history depth (unmerged)": depth, "rotation intervals": "1,2,3,4,7,none"}));
}

// ---------------------------------------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum T {
    H(&'static str),
    S(&'static str),
    P(&'static str),
    E(&'static str),
    D(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
struct Canon {
    hashes: Vec<Vec<u8>>,
    keys: Vec<(bool, Vec<u8>)>,
    /// messages since the last key, and whether there is a key
    n: Option<u64>,
}

fn c08_run<C: Config>(suite: Suite, name: &str, ops: &[T]) -> Result<(St<C>, Canon), String> {
    let mut s = St::<C>::new(name);
    let mut m = State::new(suite, name.as_bytes());
    let mut c = Canon::default();
    // names are padded with zero bytes or hashed: the framework does not tell apart names with equal results
    c.hashes.push(m.h.clone());
    c.keys.push((false, m.h.clone()));
    for op in ops {
        s = match op {
            T::H(d) => {
                m.mix_hash(d.as_bytes());
                c.hashes.push(d.as_bytes().to_vec());
                s.mix_hash(d.as_bytes())
            }
            T::S(d) => {
                m.mix_key(d.as_bytes());
                c.keys.push((false, d.as_bytes().to_vec()));
                c.n = Some(0);
                s.mix_ss(d.as_bytes())
            }
            T::P(d) => {
                let o = suite.0.hkdf(&m.ck, d.as_bytes(), 3);
                m.mix_key_and_hash(d.as_bytes());
                // two- and three-output expansions share their first output
                c.keys.push((false, d.as_bytes().to_vec()));
                c.hashes.push(o[1].clone());
                // the cipher key differs from that of S: recorded through the nonce slot below
                c.n = Some(1 << 40);
                s.mix_psk(d.as_bytes())
            }
            T::E(d) => {
                let ct = m.seal(d.as_bytes());
                c.hashes.push(ct);
                c.n = c.n.map(|n| n + 1);
                s.encrypt(d.as_bytes(), true).0
            }
            T::D(d) => {
                let ct = m.seal(d.as_bytes());
                let n = d.len();
                c.hashes.push(ct.clone());
                c.n = c.n.map(|n| n + 1);
                s.decrypt(&ct[..n], &ct[n..]).map_err(|_| "honest ciphertext refused".to_string())?.0
            }
        };
    }
    Ok((s, c))
}

fn c08(ctx: &Ctx) {
    let al = [T::H("a"), T::H("b"), T::H(""), T::H("ab"), T::S("a"), T::S("b"), T::S(""), T::P("a"), T::P("b"), T::E("a"), T::E("b"), T::D("a"), T::E(""), T::D("")];
    let names = ["n", "n\0", "m", "n\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"];
    let kd = |ops: &[T]| ops.iter().any(|o| matches!(o, T::S(_) | T::P(_)));
    let seqs = |depth: usize| {
        let mut all: Vec<Vec<T>> = vec![vec![]];
        let mut level = all.clone();
        for _ in 0..depth {
            let mut next = vec![];
            for p in &level {
                for o in &al {
                    if matches!(o, T::E(_) | T::D(_)) && !kd(p) {
                        continue;
                    }
                    let mut q: Vec<T> = p.clone();
                    q.push(*o);
                    next.push(q);
                }
            }
            all.extend(next.clone());
            level = next;
        }
        all
    };
    for (i, suite) in SUITES[..ctx.tier(4, 10)].iter().enumerate() {
        // 1. equal results exactly for equal transcripts
        let depth = if i == 0 { ctx.tier(4, 5) } else { ctx.tier(3, 4) };
        let all = seqs(depth);
        let mut work: Vec<(usize, &Vec<T>)> = vec![];
        for n in 0..names.len() {
            for s in all.iter().filter(|s| n == 0 || s.len() <= 2) {
                work.push((n, s));
            }
        }
        let by_hash: Mutex<HashMap<Vec<u8>, (Vec<Vec<u8>>, String)>> = Default::default();
        let by_keys: Mutex<HashMap<Vec<u8>, (Vec<(bool, Vec<u8>)>, String)>> = Default::default();
        let rev_hash: Mutex<HashMap<Vec<Vec<u8>>, Vec<u8>>> = Default::default();
        let rev_keys: Mutex<HashMap<Vec<(bool, Vec<u8>)>, Vec<u8>>> = Default::default();
        ctx.par(&work, |&(n, ops)| {
            let key = format!("{:?} name {} {:?}", suite, n, ops);
            let body = || {
                fn go<C: Config>(suite: Suite, name: &str, ops: &[T]) -> Result<(Canon, Vec<u8>, Vec<u8>), String> {
                    let (s, c) = c08_run::<C>(suite, name, ops)?;
                    let (mut x, h) = s.finish::<PhantomData<C>>();
                    // fingerprint of both transport keys
                    let mut f = vec![0u8; 8];
                    x.encrypt_ext(b"", &mut f);
                    let mut g = vec![0u8; 8];
                    x.swap().encrypt_ext(b"", &mut g);
                    f.extend(g);
                    Ok((c, h, f))
                }
                let (c, h, f) = with_suite!(suite, go(*suite, names[n], ops))?;
                ctx.steps(ops.len() as u64 + 3);
                ctx.trace();
                ctx.state(&(suite, &c.hashes, &c.keys));
                {
                    let mut m = by_hash.lock().unwrap();
                    let e = m.entry(h.clone()).or_insert_with(|| (c.hashes.clone(), key.clone()));
                    if e.0 != c.hashes {
                        return Err(format!("same handshake hash as the different transcript {}", e.1));
                    }
                }
                {
                    let mut m = by_keys.lock().unwrap();
                    let e = m.entry(f.clone()).or_insert_with(|| (c.keys.clone(), key.clone()));
                    if e.0 != c.keys {
                        return Err(format!("same transport keys as the different history {}", e.1));
                    }
                }
                if rev_hash.lock().unwrap().entry(c.hashes.clone()).or_insert_with(|| h.clone()) != &h {
                    return Err("equal transcripts, different hashes".into());
                }
                if rev_keys.lock().unwrap().entry(c.keys.clone()).or_insert_with(|| f.clone()) != &f {
                    return Err("equal histories, different transport keys".into());
                }
                Ok(())
            };
            // a collision needs both partners: when replaying, every case is run
            if ctx.replay.is_some() && !ctx.wants(&key) {
                let _ = mcx::guard(body);
            } else {
                ctx.case(&key, body);
            }
        });
        ctx.outcomes_n("distinct transcripts", rev_hash.lock().unwrap().len() as u64);
        ctx.outcomes_n("distinct key histories", rev_keys.lock().unwrap().len() as u64);

        // 2. a message of one party is readable by the other exactly if key, count and transcript agree
        let pd = if i < 2 { ctx.tier(3, 3) } else { 2 };
        let ks: Vec<Vec<T>> = seqs(pd).into_iter().filter(|s| kd(s)).collect();
        fn seal<C: Config>(suite: Suite, ops: &[T]) -> Result<(Vec<u8>, Canon), String> {
            let (s, c) = c08_run::<C>(suite, "n", ops)?;
            Ok((s.encrypt(b"hello", true).1, c))
        }
        fn open<C: Config>(suite: Suite, ops: &[T], ct: &[u8]) -> Result<(bool, Canon), String> {
            let (s, c) = c08_run::<C>(suite, "n", ops)?;
            let n = ct.len() - 16;
            match s.decrypt(&ct[..n], &ct[n..]) {
                Ok((_, pt)) => {
                    eq("plaintext", &pt, b"hello")?;
                    Ok((true, c))
                }
                Err(()) => Ok((false, c)),
            }
        }
        let sealed: Vec<Option<(Vec<u8>, Canon)>> = ks.iter().map(|s| mcx::guard(|| with_suite!(suite, seal(*suite, s)).ok()).ok().flatten()).collect();
        let counts = Mutex::new([0u64; 2]);
        ctx.par(&(0..ks.len()).collect::<Vec<_>>(), |&b| {
            let mut local = [0u64; 2];
            for a in 0..ks.len() {
                let key = format!("{:?} from {:?} to {:?}", suite, ks[a], ks[b]);
                if !ctx.wants(&key) {
                    continue;
                }
                ctx.case(&key, || {
                    let (ct, ca) = sealed[a].clone().ok_or("sender failed")?;
                    let (ok, cb) = with_suite!(suite, open(*suite, &ks[b], &ct))?;
                    local[ok as usize] += 1;
                    if ok != (ca == cb) {
                        return Err(format!("message {} although the transcripts {}", if ok { "accepted" } else { "refused" }, if ca == cb { "agree" } else { "differ" }));
                    }
                    Ok(())
                });
            }
            ctx.steps(ks.len() as u64 * (ks[b].len() as u64 + 1));
            ctx.traces(ks.len() as u64);
            let mut c = counts.lock().unwrap();
            c[0] += local[0];
            c[1] += local[1];
        });
        let c = counts.lock().unwrap();
        ctx.outcomes_n("pairs refused", c[0]);
        ctx.outcomes_n("pairs accepted", c[1]);
    }
    ctx.sample(json!({"party 1": "[S(a), E(a), H(b)]", "party 2": "[S(a), D(a), H(b)]", "result": "agree"}));
    ctx.sample(json!({"party 1": "[S(a), H(a), H(b)]", "party 2": "[S(a), H(ab)]", "result": "differ"}));
    ctx.note("bound", json!("all operation sequences over 14 operations to depth 4/5 (first suite) and 3/4 (others) compared pairwise by results; all pairs of sequences to depth 3 by message exchange"));
}

fn main() {
    let ctx = Ctx::from_args();
    ctx.assume("hash functions and AEADs of the sha2, sha3, aes-gcm and chacha20poly1305 crates are trusted");
    vectors::bind_model(&ctx);
    std::process::exit(ctx.decide(|| {
        match ctx.id.as_str() {
            "C05" => c05(&ctx),
            "C06" => c06(&ctx),
            "C07" => c07(&ctx),
            "C08" => c08(&ctx),
            x => panic!("unknown property {}", x),
        }
    }));
}

#[allow(dead_code)]
fn unused<C: Config>() -> Option<C::Aead>
where
    C::Aead: NewAead,
{
    None
}
