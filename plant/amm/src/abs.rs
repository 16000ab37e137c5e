//! Account contents of the AMM program, decoded independently of it.
use svm::solana_program::pubkey::Pubkey;
use svm::AccData;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Reserve {
    pub tokens: u64,
    pub mint: Pubkey,
    pub vault: Pubkey,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Curve {
    ConstProd,
    Stable { amp: u64, d: [u64; 3] },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pool {
    pub admin: Pubkey,
    pub signer: Pubkey,
    pub mint: Pubkey,
    pub toll_wallet: Pubkey,
    pub dim: u64,
    pub reserves: [Reserve; 4],
    pub curve: Curve,
    pub fee: u64,
}

impl Pool {
    pub fn r(&self) -> &[Reserve] {
        &self.reserves[..self.dim as usize]
    }
    pub fn tokens(&self) -> Vec<u64> {
        self.r().iter().map(|r| r.tokens).collect()
    }
    pub fn index(&self, mint: &Pubkey) -> Option<usize> {
        self.r().iter().position(|r| r.mint == *mint)
    }
    pub fn stable(&self) -> bool {
        self.curve != Curve::ConstProd
    }
}

pub const POOL: usize = 0;
pub const DISCOUNT: usize = 1;
pub const SETTINGS: usize = 2;
pub const TOLL: usize = 3;

pub fn disc(kind: usize) -> [u8; 8] {
    thread_local!(static D: Vec<[u8; 8]> = ["Pool", "Discount", "DiscountSettings", "ProgramToll"]
        .iter()
        .map(|n| svm::discriminator("account", n))
        .collect());
    D.with(|d| d[kind])
}

fn is(a: &AccData, kind: usize) -> bool {
    a.owner == amm::ID && a.data.len() >= 8 && a.data[..8] == disc(kind)
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u64(&mut self) -> Option<u64> {
        let v = u64::from_le_bytes(self.0.get(..8)?.try_into().unwrap());
        self.0 = &self.0[8..];
        Some(v)
    }
    fn u8(&mut self) -> Option<u8> {
        let v = *self.0.first()?;
        self.0 = &self.0[1..];
        Some(v)
    }
    fn key(&mut self) -> Option<Pubkey> {
        let k = Pubkey::new(self.0.get(..32)?);
        self.0 = &self.0[32..];
        Some(k)
    }
}

pub fn pool(a: &AccData) -> Option<Pool> {
    if !is(a, POOL) {
        return None;
    }
    let mut r = Rd(&a.data[8..]);
    let (admin, signer, mint, toll_wallet) = (r.key()?, r.key()?, r.key()?, r.key()?);
    let dim = r.u64()?;
    let mut one = || Some(Reserve { tokens: r.u64()?, mint: r.key()?, vault: r.key()? });
    let reserves = [one()?, one()?, one()?, one()?];
    let curve = match r.u8()? {
        0 => Curve::ConstProd,
        1 => Curve::Stable { amp: r.u64()?, d: [r.u64()?, r.u64()?, r.u64()?] },
        _ => return None,
    };
    let fee = r.u64()?;
    if dim > 4 {
        return None;
    }
    Some(Pool { admin, signer, mint, toll_wallet, dim, reserves, curve, fee })
}

/// Overwrites the contents of a pool account (for building states).
pub fn write_pool(a: &AccData, p: &Pool) -> AccData {
    let mut d = disc(POOL).to_vec();
    for k in [p.admin, p.signer, p.mint, p.toll_wallet] {
        d.extend_from_slice(k.as_ref());
    }
    d.extend_from_slice(&p.dim.to_le_bytes());
    for r in p.reserves {
        d.extend_from_slice(&r.tokens.to_le_bytes());
        d.extend_from_slice(r.mint.as_ref());
        d.extend_from_slice(r.vault.as_ref());
    }
    match p.curve {
        Curve::ConstProd => d.push(0),
        Curve::Stable { amp, d: v } => {
            d.push(1);
            d.extend_from_slice(&amp.to_le_bytes());
            for x in v {
                d.extend_from_slice(&x.to_le_bytes());
            }
        }
    }
    d.extend_from_slice(&p.fee.to_le_bytes());
    d.resize(a.data.len(), 0);
    AccData { data: d, ..a.clone() }
}

/// (amount, valid until)
pub fn discount(a: &AccData) -> Option<(u64, u64)> {
    if !is(a, DISCOUNT) {
        return None;
    }
    let mut r = Rd(&a.data[8..]);
    Some((r.u64()?, r.u64()?))
}

fn authority(a: &AccData, kind: usize) -> Option<Pubkey> {
    if !is(a, kind) {
        return None;
    }
    Rd(&a.data[8..]).key()
}
pub fn settings(a: &AccData) -> Option<Pubkey> {
    authority(a, SETTINGS)
}
pub fn toll(a: &AccData) -> Option<Pubkey> {
    authority(a, TOLL)
}
