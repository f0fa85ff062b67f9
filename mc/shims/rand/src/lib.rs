//! rand with the operating system's entropy replaced: every byte drawn is the world's current `random` byte
//! or a function of its place, except one, if the world says so.
pub use rand_real::*;

use rand_real::distributions::{Distribution, Standard};

pub mod rngs {
    pub use rand_real::rngs::*;
    use rand_real::{CryptoRng, Error, RngCore};

    macro_rules! rng {
        ($n:ident) => {
            #[derive(Clone, Copy, Debug, Default)]
            pub struct $n;
            impl RngCore for $n {
                fn next_u32(&mut self) -> u32 {
                    let mut b = [0; 4];
                    self.fill_bytes(&mut b);
                    u32::from_le_bytes(b)
                }
                fn next_u64(&mut self) -> u64 {
                    let mut b = [0; 8];
                    self.fill_bytes(&mut b);
                    u64::from_le_bytes(b)
                }
                fn fill_bytes(&mut self, d: &mut [u8]) {
                    let v = vmc_std::rt::try_world().map_or(0, |w| {
                        w.random_draws += 1;
                        w.random
                    });
                    d.iter_mut().for_each(|x| *x = v);
                    if let Some(h) = vmc_std::rt::try_world().map(|w| w.random_high).filter(|h| *h != 0) {
                        d.iter_mut().skip(1).step_by(2).for_each(|x| *x = h);
                    }
                    if let Some(w) = vmc_std::rt::try_world() {
                        let at = w.random_bytes;
                        w.random_bytes += d.len();
                        if let Some(k) = w.random_stream {
                            d.iter_mut().enumerate().for_each(|(i, x)| *x = vmc_std::world::mixed(k, (at + i) as u64));
                        }
                        if let Some(x) = w.random_odd.and_then(|o| d.get_mut(o.checked_sub(at)?)) {
                            *x ^= 0x18;
                        }
                    }
                }
                fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
                    self.fill_bytes(d);
                    Ok(())
                }
            }
            impl CryptoRng for $n {}
        };
    }
    rng!(ThreadRng);
    rng!(OsRng);
}

pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub fn random<T>() -> T
where
    Standard: Distribution<T>,
{
    thread_rng().gen()
}
pub mod prelude {
    pub use super::rngs::ThreadRng;
    pub use super::{random, thread_rng};
    pub use rand_real::distributions::Distribution;
    pub use rand_real::rngs::StdRng;
    pub use rand_real::seq::{IteratorRandom, SliceRandom};
    pub use rand_real::{CryptoRng, Rng, RngCore, SeedableRng};
}
