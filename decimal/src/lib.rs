//! Stand-in for the git dependency `solana-decimal` 0.4.0 (not available
//! offline). Same public surface as far as this repository uses it:
//! fixed-point, 18 decimal places, 192-bit unsigned storage, intermediates wide
//! enough not to overflow, every operation truncating towards zero, `Err` on
//! overflow / division by zero / negative results.

#![allow(clippy::result_large_err)]

use anchor_lang::prelude::*;
use std::fmt;

pub mod wide;
use wide::*;

#[error_code]
pub enum ErrorCode {
    #[msg("Operation would result in an overflow")]
    MathOverflow,
}

fn overflow<T>() -> Result<T> {
    Err(error!(ErrorCode::MathOverflow))
}

/// 10^18
pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = 500_000_000_000_000_000;
pub const SCALE: usize = 18;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct U192(pub [u64; 3]);

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct U320(pub [u64; 5]);

impl PartialOrd for U192 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U192 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Decimal(pub U192);

/// Only named by the repository, never used.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct LargeDecimal(pub U320);

pub trait TryAdd<Rhs = Self>: Sized {
    fn try_add(self, rhs: Rhs) -> Result<Self>;
}
pub trait TrySub<Rhs = Self>: Sized {
    fn try_sub(self, rhs: Rhs) -> Result<Self>;
}
pub trait TryMul<Rhs>: Sized {
    fn try_mul(self, rhs: Rhs) -> Result<Self>;
}
pub trait TryDiv<Rhs>: Sized {
    fn try_div(self, rhs: Rhs) -> Result<Self>;
}
pub trait TryPow: Sized {
    fn try_pow(&self, exp: u64) -> Result<Self>;
}
pub trait TrySqrt: Sized {
    fn try_sqrt(&self) -> Result<Self>;
}
pub trait TryRound {
    fn try_floor(&self) -> Result<u64>;
    fn try_ceil(&self) -> Result<u64>;
    fn try_round(&self) -> Result<u64>;
}
pub trait ScaledVal: Sized {
    fn to_scaled_val(&self) -> Result<u128>;
    fn from_scaled_val(scaled_val: u128) -> Self;
}
pub trait AlmostEq {
    /// Equal after dropping the `precision` least significant decimal digits'
    /// worth of difference, ie. |a - b| <= 10^precision (scaled units.)
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}

fn fit(v: &[u64]) -> Result<Decimal> {
    if v.iter().skip(3).any(|l| *l != 0) {
        return overflow();
    }
    let mut o = [0u64; 3];
    for (i, l) in v.iter().take(3).enumerate() {
        o[i] = *l;
    }
    Ok(Decimal(U192(o)))
}

impl Decimal {
    pub fn one() -> Self {
        Self(U192([WAD, 0, 0]))
    }
    pub fn zero() -> Self {
        Self::default()
    }
    pub fn from_permillion(permillion: u64) -> Self {
        let v = permillion as u128 * 1_000_000_000_000u128;
        Self(U192([v as u64, (v >> 64) as u64, 0]))
    }
    pub fn from_percent(percent: u8) -> Self {
        Self::from_permillion(percent as u64 * 10_000)
    }
    pub fn from_scaled_val(scaled_val: u128) -> Self {
        Self(U192([scaled_val as u64, (scaled_val >> 64) as u64, 0]))
    }
    pub fn to_scaled_val(&self) -> Result<u128> {
        let U192([a, b, c]) = self.0;
        if c != 0 {
            return overflow();
        }
        Ok(a as u128 | ((b as u128) << 64))
    }
    fn limbs(&self) -> &[u64; 3] {
        &self.0 .0
    }
}

impl From<u64> for Decimal {
    fn from(v: u64) -> Self {
        let p = v as u128 * WAD as u128;
        Self(U192([p as u64, (p >> 64) as u64, 0]))
    }
}
impl From<u128> for Decimal {
    fn from(v: u128) -> Self {
        let lo = (v as u64) as u128 * WAD as u128;
        let hi = (v >> 64) * WAD as u128 + (lo >> 64);
        Self(U192([lo as u64, hi as u64, (hi >> 64) as u64]))
    }
}

impl TryAdd for Decimal {
    fn try_add(self, rhs: Self) -> Result<Self> {
        let mut o = [0u64; 4];
        let mut c = 0u128;
        for i in 0..3 {
            c += self.limbs()[i] as u128 + rhs.limbs()[i] as u128;
            o[i] = c as u64;
            c >>= 64;
        }
        o[3] = c as u64;
        fit(&o)
    }
}
impl TrySub for Decimal {
    fn try_sub(self, rhs: Self) -> Result<Self> {
        if self < rhs {
            return overflow();
        }
        let mut o = [0u64; 3];
        let mut borrow = false;
        for (i, o) in o.iter_mut().enumerate() {
            let (d, b1) = self.limbs()[i].overflowing_sub(rhs.limbs()[i]);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            borrow = b1 || b2;
            *o = d;
        }
        Ok(Self(U192(o)))
    }
}
impl TryMul<Decimal> for Decimal {
    fn try_mul(self, rhs: Decimal) -> Result<Self> {
        let mut p = [0u64; 6];
        mul(self.limbs(), rhs.limbs(), &mut p);
        let mut q = [0u64; 6];
        div_small(&p, WAD, &mut q);
        fit(&q)
    }
}
impl TryMul<u64> for Decimal {
    fn try_mul(self, rhs: u64) -> Result<Self> {
        let mut p = [0u64; 4];
        mul(self.limbs(), &[rhs], &mut p);
        fit(&p)
    }
}
impl TryDiv<Decimal> for Decimal {
    fn try_div(self, rhs: Decimal) -> Result<Self> {
        if rhs == Self::zero() {
            return overflow();
        }
        let mut n = [0u64; 4];
        mul(self.limbs(), &[WAD], &mut n);
        let mut q = [0u64; 4];
        div(&n, rhs.limbs(), &mut q);
        fit(&q)
    }
}
impl TryDiv<u64> for Decimal {
    fn try_div(self, rhs: u64) -> Result<Self> {
        if rhs == 0 {
            return overflow();
        }
        let mut q = [0u64; 3];
        div_small(self.limbs(), rhs, &mut q);
        fit(&q)
    }
}
impl TryPow for Decimal {
    /// Exponentiation by squaring, truncating after every multiplication.
    fn try_pow(&self, mut exp: u64) -> Result<Self> {
        let mut base = *self;
        let mut ret = if exp % 2 != 0 { base } else { Self::one() };
        loop {
            exp /= 2;
            if exp == 0 {
                return Ok(ret);
            }
            base = base.try_mul(base)?;
            if exp % 2 != 0 {
                ret = ret.try_mul(base)?;
            }
        }
    }
}
impl TrySqrt for Decimal {
    /// floor of the exact square root
    fn try_sqrt(&self) -> Result<Self> {
        let mut n = [0u64; 4];
        mul(self.limbs(), &[WAD], &mut n);
        fit(&isqrt(&n))
    }
}
impl TryRound for Decimal {
    fn try_floor(&self) -> Result<u64> {
        let mut q = [0u64; 3];
        div_small(self.limbs(), WAD, &mut q);
        to_u64(&q)
    }
    fn try_ceil(&self) -> Result<u64> {
        Decimal(fit(&[WAD - 1])?.0).try_add(*self)?.try_floor()
    }
    fn try_round(&self) -> Result<u64> {
        Decimal(fit(&[HALF_WAD])?.0).try_add(*self)?.try_floor()
    }
}
fn to_u64(q: &[u64]) -> Result<u64> {
    if q.iter().skip(1).any(|l| *l != 0) {
        return overflow();
    }
    Ok(q[0])
}
impl ScaledVal for Decimal {
    fn to_scaled_val(&self) -> Result<u128> {
        Decimal::to_scaled_val(self)
    }
    fn from_scaled_val(v: u128) -> Self {
        Decimal::from_scaled_val(v)
    }
}
impl AlmostEq for Decimal {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool {
        let d = if self > other {
            self.try_sub(*other)
        } else {
            other.try_sub(*self)
        };
        let d = d.unwrap();
        match 10u128.checked_pow(precision) {
            Some(p) => d <= Decimal::from_scaled_val(p),
            None => true,
        }
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut digits = Vec::new();
        let mut v = *self.limbs();
        while v.iter().any(|l| *l != 0) || digits.len() <= SCALE {
            let mut q = [0u64; 3];
            let r = div_small(&v, 10, &mut q);
            digits.push(b'0' + r as u8);
            v = q;
        }
        digits.insert(SCALE, b'.');
        digits.reverse();
        f.write_str(std::str::from_utf8(&digits).unwrap())
    }
}
