//! C27: contracts over every ordered pair of identities of an alphabet.
use mcx::Ctx;
use vru_processor::Contract;
use vru_session::handshake::Identity;

fn identity(bytes: &[u8; 32]) -> Identity {
    let mut b = vec![0];
    b.extend(bytes);
    base64::encode(b).parse().expect("identity")
}
fn bytes(i: &Identity) -> Vec<u8> {
    i.as_ref().to_vec()
}

fn main() {
    let ctx = Ctx::from_args();
    if ctx.id != "C27" {
        eprintln!("unknown property {}", ctx.id);
        std::process::exit(2);
    }
    let base: [u8; 32] = std::array::from_fn(|i| (ctx.seed as u8).wrapping_mul(31).wrapping_add(0x30 + i as u8));
    let mut ids = vec![base, [0; 32], [0xFF; 32], std::array::from_fn(|i| base[31 - i])];
    for i in 0..32 {
        for v in if ctx.quick() { vec![0x01u8, 0x80, 0xFF] } else { (0..8).map(|b| 1 << b).chain([0xFF]).collect() } {
            let mut b = base;
            b[i] ^= v;
            ids.push(b);
            let mut z = [0; 32];
            z[i] = v;
            ids.push(z);
        }
    }
    std::process::exit(ctx.decide(|| check(&ctx, &ids)));
}

fn check(ctx: &Ctx, ids: &[[u8; 32]]) {
    let rows: Vec<usize> = (0..ids.len()).collect();
    ctx.par(&rows, |a| {
        for b in 0..ids.len() {
            let (me, peer) = (&ids[*a], &ids[b]);
            let key = format!("me {} peer {}", mcx::hex(me), mcx::hex(peer));
            ctx.case(&key, || {
                let c = Contract::new(identity(me), identity(peer));
                ctx.steps(1);
                ctx.trace();
                ctx.state(&(me, peer));
                if bytes(&c.obligor) != me {
                    return Err(format!("the obligor is {}", c.obligor));
                }
                if bytes(&c.creditor) != peer {
                    return Err(format!("the creditor is {}", c.creditor));
                }
                if c.id != [0; 32] {
                    return Err(format!("the identifier is {}", mcx::hex(&c.id)));
                }
                if c.timestamp != 0 {
                    return Err(format!("the time is {}", c.timestamp));
                }
                if !c.balance.is_empty() || !c.currency.is_empty() {
                    return Err(format!("{} bytes of balance, {} of currency", c.balance.len(), c.currency.len()));
                }
                ctx.outcome(if me == peer { "contract with oneself" } else { "contract of two" });
                Ok(())
            });
        }
    });
}
