//! Unsigned integers of up to 1280 bits, exact (overflow panics).
use std::cmp::Ordering;

const N: usize = 20;

#[derive(Clone, Copy, Debug)]
pub struct Big {
    d: [u64; N],
    n: usize,
}

impl Big {
    pub const ZERO: Big = Big { d: [0; N], n: 0 };
    fn fix(mut self) -> Self {
        while self.n > 0 && self.d[self.n - 1] == 0 {
            self.n -= 1;
        }
        self
    }
    pub fn limbs(l: &[u64]) -> Self {
        let mut b = Self::ZERO;
        b.d[..l.len()].copy_from_slice(l);
        b.n = l.len();
        b.fix()
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn bits(&self) -> u32 {
        if self.n == 0 {
            0
        } else {
            self.n as u32 * 64 - self.d[self.n - 1].leading_zeros()
        }
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let n = self.n.max(o.n);
        let mut c = 0u128;
        for i in 0..n {
            c += self.d[i] as u128 + o.d[i] as u128;
            r.d[i] = c as u64;
            c >>= 64;
        }
        r.n = n;
        if c > 0 {
            r.d[n] = c as u64;
            r.n += 1;
        }
        r
    }
    /// `None`: negative
    pub fn sub(&self, o: &Big) -> Option<Big> {
        if (*self).cmp(o) == Ordering::Less {
            return None;
        }
        let mut r = Big::ZERO;
        let mut b = 0i128;
        for i in 0..self.n {
            let t = self.d[i] as i128 - o.d[i] as i128 - b;
            r.d[i] = t as u64;
            b = (t < 0) as i128;
        }
        r.n = self.n;
        Some(r.fix())
    }
    pub fn sat(&self, o: &Big) -> Big {
        self.sub(o).unwrap_or(Big::ZERO)
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        assert!(self.n + o.n <= N, "big overflow");
        for i in 0..self.n {
            let mut c = 0u128;
            let x = self.d[i] as u128;
            for j in 0..o.n {
                c += x * o.d[j] as u128 + r.d[i + j] as u128;
                r.d[i + j] = c as u64;
                c >>= 64;
            }
            r.d[i + o.n] = c as u64;
        }
        r.n = self.n + o.n;
        r.fix()
    }
    pub fn u(v: u128) -> Big {
        Big::limbs(&[v as u64, (v >> 64) as u64])
    }
    pub fn muls(&self, v: u128) -> Big {
        self.mul(&Big::u(v))
    }
    pub fn half(&self) -> Big {
        let mut r = *self;
        for i in 0..r.n {
            let hi = if i + 1 < r.n { r.d[i + 1] } else { 0 };
            r.d[i] = r.d[i] >> 1 | hi << 63;
        }
        r.fix()
    }
    /// floor(self / v)
    pub fn div(&self, v: u64) -> Big {
        let mut r = *self;
        let mut c = 0u128;
        for i in (0..r.n).rev() {
            let x = c << 64 | r.d[i] as u128;
            r.d[i] = (x / v as u128) as u64;
            c = x % v as u128;
        }
        r.fix()
    }
    pub fn low(&self) -> u128 {
        self.d[0] as u128 | (self.d[1] as u128) << 64
    }
    pub fn f(&self) -> f64 {
        self.d[..self.n].iter().rev().fold(0.0, |a, l| a * 18446744073709551616.0 + *l as f64)
    }
}

impl PartialEq for Big {
    fn eq(&self, o: &Big) -> bool {
        self.n == o.n && self.d[..self.n] == o.d[..o.n]
    }
}
impl Eq for Big {}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        self.n
            .cmp(&o.n)
            .then_with(|| self.d[..self.n].iter().rev().cmp(o.d[..o.n].iter().rev()))
    }
}
