pub mod prelude { pub use crate::{proptest, Gen, Rng}; }
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub trait Gen<T> { fn gen(&self, r: &mut Rng) -> T; }
macro_rules! g { ($t:ty) => {
    impl Gen<$t> for std::ops::Range<$t> {
        fn gen(&self, r: &mut Rng) -> $t {
            let span = (self.end - self.start) as u128;
            let wide = ((r.next() as u128) << 64) | r.next() as u128;
            let v = match 0u64 {
                0 => wide % span,                       // uniform
                1 => (wide % 4).min(span - 1),          // low edge
                2 => span - 1 - (wide % 4).min(span - 1), // high edge
                _ => { let bits = 128 - span.leading_zeros() as u64; let k = r.next() % bits + 1;
                       (wide & (u128::MAX >> (128 - k as u32))) % span }
            };
            self.start + v as $t
        }
    }
}}
g!(u64); g!(u128); g!(u32);
#[macro_export]
macro_rules! proptest {
    ($( $(#[$m:meta])* fn $n:ident ( $($a:ident in $s:expr),* $(,)? ) $b:block )*) => {
        $( $(#[$m])* fn $n() {
            let mut rng = $crate::Rng(0xC0FFEE);
            for _ in 0..2000 { $( let $a = $crate::Gen::gen(&($s), &mut rng); )* let r = (move || -> std::result::Result<(), Box<dyn std::error::Error>> { $b; #[allow(unreachable_code)] Ok(()) })(); if let Err(e) = r { panic!("case failed: {}", e); } }
        } )*
    };
}
