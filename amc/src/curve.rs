//! The curves in exact arithmetic. Stable curve (n reserves x_i, amplifier A):
//!   D^(n+1) + (A n^n - 1) n^n P D = A n^n n^n P S,  P = prod x_i, S = sum x_i
//! Quantities are integers in units of 10^-18 tokens.
use crate::big::Big;

pub const UNIT: u64 = 1_000_000_000_000_000_000;

pub fn units(x: u64) -> Big {
    Big::u(x as u128 * UNIT as u128)
}

fn nn(n: usize) -> u128 {
    (n as u128).pow(n as u32)
}

fn pow(d: &Big, e: usize) -> Big {
    let mut r = *d;
    for _ in 1..e {
        r = r.mul(d);
    }
    r
}

pub struct Stable {
    n: usize,
    /// (A n^n - 1) n^n P
    c: Big,
    /// A n^n n^n P S
    t: Big,
    s: Big,
}

impl Stable {
    pub fn new(a: u64, xs: &[u64]) -> Self {
        let n = xs.len();
        let (mut p, mut s) = (Big::u(nn(n)), Big::ZERO);
        for x in xs {
            p = p.mul(&units(*x));
            s = s.add(&units(*x));
        }
        let an = Big::u(a as u128).muls(nn(n));
        Stable { n, c: p.mul(&an.sat(&Big::u(1))), t: p.mul(&an).mul(&s), s }
    }
    /// D is at most the curve's invariant
    pub fn at_most_root(&self, d: &Big) -> bool {
        d.is_zero() || pow(d, self.n + 1).add(&self.c.mul(d)) <= self.t
    }
    /// the invariant, rounded down
    pub fn root(&self) -> Big {
        let (mut lo, mut hi) = (Big::ZERO, self.s); // root in [lo, hi]
        if self.at_most_root(&hi) {
            return hi;
        }
        loop {
            let mid = lo.add(&hi).half();
            if mid == lo {
                return lo;
            }
            if self.at_most_root(&mid) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
    }
}

/// Smallest balance of the remaining reserve for which the invariant is at
/// least `d`, given the others.
pub fn balance_for(a: u64, d: &Big, others: &[u64]) -> Big {
    let n = others.len() + 1;
    let (mut p, mut s) = (Big::u(nn(n)), Big::ZERO);
    for x in others {
        p = p.mul(&units(*x));
        s = s.add(&units(*x));
    }
    let an = Big::u(a as u128).muls(nn(n));
    let dn = pow(d, n + 1);
    let a1 = p.mul(&an.sat(&Big::u(1))).mul(d);
    let a2 = p.mul(&an);
    let enough = |y: &Big| dn.add(&a1.mul(y)) <= a2.mul(y).mul(&s.add(y));
    let mut hi = *d;
    let mut lo = Big::ZERO;
    while !enough(&hi) {
        lo = hi;
        hi = hi.add(&hi);
        if hi.bits() > 220 {
            return hi;
        }
    }
    loop {
        let mid = lo.add(&hi).half();
        if mid == lo {
            return hi;
        }
        if enough(&mid) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
}

/// How often `v` (in units) is divided by 1000 until it is at most 1000.
pub fn exponent(v: &Big) -> u32 {
    let mut v = *v;
    let mut e = 0;
    let bound = units(1000);
    while v > bound {
        v = v.div(1000);
        e += 1;
    }
    e
}

pub fn scale(e: u32) -> f64 {
    1000f64.powi(e as i32)
}

/// Product of the scaled down reserves, which must not be below 10^-12.
pub fn scaled_product(xs: &[u64]) -> f64 {
    let s = xs.iter().fold(Big::ZERO, |a, x| a.add(&units(*x)));
    let c = scale(exponent(&s));
    xs.iter().map(|x| *x as f64 / c).product()
}

/// A lower bound on what is left of that product when every multiplication is
/// truncated to 18 digits, whatever the order.
pub fn scaled_product_low(xs: &[u64]) -> f64 {
    let s = xs.iter().fold(Big::ZERO, |a, x| a.add(&units(*x)));
    let c = scale(exponent(&s));
    let mut v: Vec<f64> = xs.iter().map(|x| *x as f64 / c).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.iter().fold(1.0, |p, x| (p * x * (1.0 - 1e-14) - 1.0001e-18 * (1.0 + x)).max(0.0))
}

/// Largest documented error of the invariant, in tokens: Newton's method from
/// the sum of the reserves stops once two approximations differ by at most half
/// a token, or after 32 steps.
pub fn invariant_error(amp: u64, xs: &[u64], root: &Big) -> f64 {
    let n = xs.len() as f64;
    let d = root.f() / UNIT as f64;
    // a step from root + e leaves at most n e^2 / 2 root
    let c = n / (2.0 * d);
    let mut e = n * 0.5;
    if c < 0.5 {
        e = e.min(((1.0 - c) - (1.0 - 2.0 * c).sqrt()) / (2.0 * c));
    }
    e.max(unfinished(amp, xs, d))
}

/// What is missing to the root after 32 steps (only for reserves close to the
/// imbalance which is refused).
fn unfinished(amp: u64, xs: &[u64], root: f64) -> f64 {
    let n = xs.len();
    let nn = nn(n) as f64;
    let s: f64 = xs.iter().map(|x| *x as f64).sum();
    // everything relative to the sum
    let p: f64 = xs.iter().map(|x| *x as f64 / s).product();
    let c1 = (amp as f64 * nn - 1.0) * nn * p;
    let c2 = amp as f64 * nn * nn * p;
    let mut d = 1.0f64;
    for _ in 0..31 {
        let step = (d.powi(n as i32 + 1) + c1 * d - c2) / ((n + 1) as f64 * d.powi(n as i32) + c1);
        d -= step;
        if step * s <= 0.49 || step < 1e-9 * d {
            return 0.0;
        }
    }
    ((d * s - root) * (1.0 + 1e-6)).max(0.0)
}

/// Does computing the invariant fit into the program's decimals?
pub fn invariant_fits(a: u64, xs: &[u64]) -> bool {
    let n = xs.len();
    let s = xs.iter().fold(0u128, |a, x| a + *x as u128);
    let v = a as f64 * (nn(n) * nn(n)) as f64 * s as f64 * scaled_product(xs);
    v < 6.0e39
}

/// `x` tokens (not negative) in units, rounded up
pub fn f_units(x: f64) -> Big {
    let v = (x * UNIT as f64).ceil();
    // f64 -> integer
    let mut r = Big::u(1);
    let mut v = v;
    let mut k = 0;
    while v > 9.0e15 {
        v /= 2.0;
        k += 1;
    }
    r = r.muls(v.ceil() as u128 + 1);
    for _ in 0..k {
        r = r.add(&r);
    }
    r
}

/// floor(a * b / c)
pub fn mul_div(a: u64, b: u64, c: u64) -> u128 {
    a as u128 * b as u128 / c as u128
}

/// floor of a token amount in units
pub fn floor_tokens(v: &Big) -> u128 {
    v.div(UNIT).low()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn balanced() {
        for n in 2..5 {
            for a in [1, 7, 1000, u64::MAX] {
                for x in [1, 3, 10, 123_456_789, u64::MAX] {
                    let xs = vec![x; n];
                    assert!(Stable::new(a, &xs).root() == units(x).muls(n as u128));
                }
            }
        }
    }
}
