//! C15: fixed-size encodings.

use mcx::{serde_json, Ctx};
use rac::generic_array::{typenum, ArrayLength};
use rac::{Array, Concat, Line, LineLike, LineValid};

/// Builds a value from the bytes of its leaves and gives them back, without using the encodings.
trait Tree: LineValid {
    fn lens() -> Vec<usize>;
    fn build(leaves: &mut std::slice::Iter<Vec<u8>>) -> Self;
    fn leaves(&self, out: &mut Vec<Vec<u8>>);
    /// would this leaf sequence be accepted by every leaf?
    fn accepts(leaves: &mut std::slice::Iter<Vec<u8>>) -> bool;
}

impl<N: ArrayLength<u8>> Tree for Array<N> {
    fn lens() -> Vec<usize> {
        vec![N::USIZE]
    }
    fn build(l: &mut std::slice::Iter<Vec<u8>>) -> Self {
        Array::clone_from_slice(l.next().unwrap())
    }
    fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        out.push(self.to_vec());
    }
    fn accepts(l: &mut std::slice::Iter<Vec<u8>>) -> bool {
        l.next();
        true
    }
}

impl Tree for [u8; 0] {
    fn lens() -> Vec<usize> {
        vec![0]
    }
    fn build(l: &mut std::slice::Iter<Vec<u8>>) -> Self {
        l.next();
        []
    }
    fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        out.push(vec![]);
    }
    fn accepts(l: &mut std::slice::Iter<Vec<u8>>) -> bool {
        l.next();
        true
    }
}

/// refuses a byte string whose first byte is 0xbb or last byte is 0xee
struct Fussy<N: ArrayLength<u8>>(Array<N>);
fn fussy(b: &[u8]) -> bool {
    b.first() != Some(&0xbb) && b.last() != Some(&0xee)
}
impl<N: ArrayLength<u8>> LineValid for Fussy<N> {
    type Length = N;
    fn try_clone_array(a: &Array<N>) -> Result<Self, ()> {
        if fussy(a) { Ok(Fussy(a.clone())) } else { Err(()) }
    }
    fn clone_line(&self) -> Array<N> {
        self.0.clone()
    }
}
impl<N: ArrayLength<u8>> Tree for Fussy<N> {
    fn lens() -> Vec<usize> {
        vec![N::USIZE]
    }
    fn build(l: &mut std::slice::Iter<Vec<u8>>) -> Self {
        Fussy(Array::clone_from_slice(l.next().unwrap()))
    }
    fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        out.push(self.0.to_vec());
    }
    fn accepts(l: &mut std::slice::Iter<Vec<u8>>) -> bool {
        fussy(l.next().unwrap())
    }
}

impl<U: Tree, V: Tree> Tree for Concat<U, V>
where
    Concat<U, V>: LineValid,
{
    fn lens() -> Vec<usize> {
        [U::lens(), V::lens()].concat()
    }
    fn build(l: &mut std::slice::Iter<Vec<u8>>) -> Self {
        let u = U::build(l);
        let v = V::build(l);
        Concat(u, v)
    }
    fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        self.as_ref_u().leaves(out);
        self.as_ref_v().leaves(out);
    }
    fn accepts(l: &mut std::slice::Iter<Vec<u8>>) -> bool {
        let u = U::accepts(l);
        let v = V::accepts(l);
        u && v
    }
}

fn split(lens: &[usize], b: &[u8]) -> Vec<Vec<u8>> {
    let mut pos = 0;
    lens.iter()
        .map(|n| {
            pos += n;
            b[pos - n..pos].to_vec()
        })
        .collect()
}

/// every string over `alphabet` if there are at most `max` of them, else strings that mark every position
fn strings(n: usize, alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let total = (alphabet.len() as u64).checked_pow(n as u32).unwrap_or(u64::MAX);
    if total <= max as u64 {
        return (0..total)
            .map(|mut k| {
                (0..n)
                    .map(|_| {
                        let c = alphabet[(k % alphabet.len() as u64) as usize];
                        k /= alphabet.len() as u64;
                        c
                    })
                    .collect()
            })
            .collect();
    }
    let mut v = vec![vec![0; n], vec![0xff; n], (0..n).map(|i| i as u8 + 1).collect()];
    for p in 0..n {
        for c in alphabet {
            for fill in [0u8, 0x77] {
                let mut b = vec![fill; n];
                b[p] = *c;
                v.push(b);
            }
        }
        for q in 0..n {
            let mut b = vec![0u8; n];
            b[p] = 0xbb;
            b[q] = 0xee;
            v.push(b);
        }
    }
    v
}

fn check<T: Tree>(ctx: &Ctx, name: &str) {
    let lens = T::lens();
    let n: usize = lens.iter().sum();
    ctx.case(name, || {
        if <T::Length as typenum::Unsigned>::USIZE != n {
            return Err("wrong encoded length".into());
        }
        for b in strings(n, &[0, 0xbb, 0xee, 1], ctx.tier(300, 5000)) {
            let leaves = split(&lens, &b);
            let value = T::build(&mut leaves.iter());
            if value.clone_line()[..] != b[..] {
                return Err(format!("encoding of {:?} is {}", leaves, mcx::hex(&value.clone_line())));
            }
            let ok = T::accepts(&mut leaves.iter());
            match T::try_clone_array(&Array::clone_from_slice(&b)) {
                Ok(v) if ok => {
                    let mut got = vec![];
                    v.leaves(&mut got);
                    if got != leaves {
                        return Err(format!("{} decoded to {:?}", mcx::hex(&b), got));
                    }
                }
                Err(()) if !ok => {}
                Ok(_) => return Err(format!("{} accepted although a component refuses its part", mcx::hex(&b))),
                Err(()) => return Err(format!("{} refused although every component accepts its part", mcx::hex(&b))),
            }
            ctx.state(&(name, &b));
            ctx.steps(2);
            ctx.trace();
        }
        Ok(())
    });
    ctx.outcome("nesting encodes as its components in order");
}

fn check_line<T: Tree + Line>(ctx: &Ctx, name: &str) {
    check::<T>(ctx, name);
    let lens = T::lens();
    let n: usize = lens.iter().sum();
    ctx.case(&format!("{} infallible and serialised", name), || {
        for b in strings(n, &[0, 0xbb, 0xee, 1], ctx.tier(70, 1000)) {
            let leaves = split(&lens, &b);
            let mut got = vec![];
            T::clone_array(&Array::clone_from_slice(&b)).leaves(&mut got);
            if got != leaves {
                return Err(format!("{} decoded to {:?}", mcx::hex(&b), got));
            }
            let v = LineLike(T::build(&mut leaves.iter()));
            let mut outs = vec![v.clone()];
            let raw = bincode::serialize(&v).map_err(|e| e.to_string())?;
            outs.push(bincode::deserialize(&raw).map_err(|e| e.to_string())?);
            let text = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            outs.push(serde_json::from_str(&text).map_err(|e| e.to_string())?);
            for (k, o) in outs.iter().enumerate() {
                let mut got = vec![];
                o.0.leaves(&mut got);
                if got != leaves {
                    return Err(format!("{} came back as {:?} (form {})", mcx::hex(&b), got, k));
                }
            }
            for cut in 0..raw.len() {
                if bincode::deserialize::<LineLike<T>>(&raw[..cut]).is_ok() {
                    return Err(format!("serialised form cut to {} of {} bytes accepted", cut, raw.len()));
                }
            }
            ctx.steps(5 + raw.len() as u64);
            ctx.trace();
        }
        Ok(())
    });
    ctx.outcome("nesting survives serialisation");
}

pub fn c15(ctx: &Ctx) {
    use typenum::*;
    macro_rules! each {
        ($m:ident ! ($($pre:tt)*) ) => {
            $m!($($pre)* U0); $m!($($pre)* U1); $m!($($pre)* U2); $m!($($pre)* U3); $m!($($pre)* U4); $m!($($pre)* U5);
        };
    }
    macro_rules! one { ($a:ident) => {
        check_line::<Array<$a>>(ctx, stringify!($a));
        check::<Fussy<$a>>(ctx, concat!("F", stringify!($a)));
        check_line::<Concat<[u8; 0], Array<$a>>>(ctx, concat!("(0,", stringify!($a), ")"));
        check_line::<Concat<Array<$a>, [u8; 0]>>(ctx, concat!("(", stringify!($a), ",0)"));
    } }
    macro_rules! two { ($a:ident $b:ident) => {
        check_line::<Concat<Array<$a>, Array<$b>>>(ctx, concat!("(", stringify!($a), ",", stringify!($b), ")"));
        check::<Concat<Fussy<$a>, Array<$b>>>(ctx, concat!("(F", stringify!($a), ",", stringify!($b), ")"));
        check::<Concat<Array<$a>, Fussy<$b>>>(ctx, concat!("(", stringify!($a), ",F", stringify!($b), ")"));
        check::<Concat<Fussy<$a>, Fussy<$b>>>(ctx, concat!("(F", stringify!($a), ",F", stringify!($b), ")"));
        each!(three!($a $b));
    } }
    macro_rules! three { ($a:ident $b:ident $c:ident) => {
        check_line::<Concat<Concat<Array<$a>, Array<$b>>, Array<$c>>>(ctx, concat!("((", stringify!($a), ",", stringify!($b), "),", stringify!($c), ")"));
        check_line::<Concat<Array<$a>, Concat<Array<$b>, Array<$c>>>>(ctx, concat!("(", stringify!($a), ",(", stringify!($b), ",", stringify!($c), "))"));
        check::<Concat<Concat<Fussy<$a>, Fussy<$b>>, Fussy<$c>>>(ctx, concat!("((F", stringify!($a), ",F", stringify!($b), "),F", stringify!($c), ")"));
        check::<Concat<Fussy<$a>, Concat<Fussy<$b>, Fussy<$c>>>>(ctx, concat!("(F", stringify!($a), ",(F", stringify!($b), ",F", stringify!($c), "))"));
    } }
    macro_rules! two_all { ($a:ident) => { each!(two!($a)); } }
    each!(one!());
    each!(two_all!());
    // larger ones, and four leaves
    check_line::<Concat<Concat<Array<U32>, Array<U32>>, Concat<Array<U64>, Array<U16>>>>(ctx, "((32,32),(64,16))");
    check::<Concat<Concat<Fussy<U2>, Array<U3>>, Concat<Array<U1>, Fussy<U4>>>>(ctx, "((F2,3),(1,F4))");
    check::<Concat<Concat<Array<U2>, Fussy<U3>>, Concat<Fussy<U1>, Array<U4>>>>(ctx, "((2,F3),(F1,4))");
    check_line::<Concat<Array<U1>, Concat<Array<U2>, Concat<Array<U3>, Array<U4>>>>>(ctx, "(1,(2,(3,4)))");
    check_line::<Concat<Concat<Concat<Array<U4>, Array<U3>>, Array<U2>>, Array<U1>>>(ctx, "(((4,3),2),1)");
    ctx.case("serialised pair", || {
        // a pair of serialisable parts is itself serialisable
        for b in strings(5, &[0, 1, 0xff], 300) {
            let v: Concat<Array<U2>, Array<U3>> = Concat(Array::clone_from_slice(&b[..2]), Array::clone_from_slice(&b[2..]));
            let raw = bincode::serialize(&v).map_err(|e| e.to_string())?;
            let w: Concat<Array<U2>, Array<U3>> = bincode::deserialize(&raw).map_err(|e| e.to_string())?;
            let x: Concat<Array<U2>, Array<U3>> = serde_json::from_str(&serde_json::to_string(&v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            if (w.0 != v.0) | (w.1 != v.1) | (x.0 != v.0) | (x.1 != v.1) {
                return Err("changed".into());
            }
        }
        Ok(())
    });
    ctx.note("bound", serde_json::json!("all nestings of up to three leaves of 0..5 bytes, fallible and infallible; all strings over a 4-letter alphabet up to 300 (5000) per type, else all single and pairwise marked positions"));
    ctx.note("exhaustive", serde_json::json!(true));
    ctx.sample(serde_json::json!({"case": "(F2,(F3,F1)) with bytes bb 00 00 00 00 00", "observed": "refused, because the first component refuses"}));
}
