//! Reference model of the AMM program: for an instruction in a world, what must
//! happen. Works on account contents only and never on the program's code.
//! Where rounding leaves the program some freedom, the amount it chose is taken
//! from its result and must lie within the bounds computed here.
use crate::abs::{self, Curve, Pool};
use crate::big::Big;
use crate::curve::{self, Stable, UNIT};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use svm::solana_program::{
    bpf_loader_upgradeable, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent,
    system_program,
};
use svm::spl_token;
use svm::{tok, AccData, Ix, Universe, World};

pub type T = &'static [&'static str];

/// Why an instruction must be refused, and which properties demand it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Why {
    pub tags: T,
    pub what: &'static str,
}
pub type R<X> = Result<X, Why>;

fn no<X>(tags: T, what: &'static str) -> R<X> {
    Err(Why { tags, what })
}

#[derive(Clone, Debug)]
pub enum Want {
    Raw(AccData),
    Pool(Box<Pool>),
    /// a new account of the program with these contents
    New { kind: usize, words: Vec<u8>, lamports: u64 },
    NewPool { pool: Box<Pool>, lamports: u64 },
}

#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub want: BTreeMap<usize, Want>,
    /// why refusal would be fine too
    pub may_fail: Option<&'static str>,
    /// amounts out of bounds
    pub notes: Vec<(T, String)>,
    /// out of bounds, but nothing which follows builds on it
    pub soft: Vec<(T, String)>,
    /// tokens which end up in a vault without being part of a reserve
    pub donate: Option<(usize, u64)>,
    /// statistics
    pub class: &'static str,
}

pub const ENDPOINTS: [&str; 8] = [
    "create_program_toll",
    "create_discount_settings",
    "create_pool",
    "put_discount",
    "set_pool_swap_fee",
    "deposit_liquidity",
    "redeem_liquidity",
    "swap",
];

pub const MAX_FEE: u64 = 10_000;
pub const PPM: u128 = 1_000_000;
/// a third, in parts per million
pub const TOLL_SHARE: u128 = 333_333;

fn div_up(a: u128, b: u128) -> u128 {
    a / b + u128::from(a % b > 0)
}

pub fn disc(name: &str) -> [u8; 8] {
    thread_local!(static T: HashMap<&'static str, [u8; 8]> = ENDPOINTS
        .iter()
        .map(|n| (*n, svm::discriminator("global", n)))
        .collect());
    T.with(|t| t[name])
}

pub fn endpoint(ix: &Ix) -> Option<&'static str> {
    ENDPOINTS.iter().copied().find(|n| ix.data.len() >= 8 && ix.data[..8] == disc(n))
}

// ---------------------------------------------------------------- addresses

thread_local! {
    static PDA: RefCell<HashMap<(u8, Pubkey), Pubkey>> = RefCell::default();
}
fn pda(kind: u8, a: &Pubkey) -> Pubkey {
    PDA.with(|c| {
        *c.borrow_mut().entry((kind, *a)).or_insert_with(|| {
            let id = &amm::ID;
            match kind {
                0 => Pubkey::find_program_address(&[b"signer", a.as_ref()], id),
                1 => Pubkey::find_program_address(&[b"discount", a.as_ref()], id),
                2 => Pubkey::find_program_address(&[b"discount_settings"], id),
                _ => Pubkey::find_program_address(&[b"toll"], id),
            }
            .0
        })
    })
}
pub fn signer_pda(pool: &Pubkey) -> Pubkey {
    pda(0, pool)
}
pub fn discount_pda(user: &Pubkey) -> Pubkey {
    pda(1, user)
}
pub fn settings_pda() -> Pubkey {
    pda(2, &system_program::ID)
}
pub fn toll_pda() -> Pubkey {
    pda(3, &system_program::ID)
}

// -------------------------------------------------------------- environment

pub struct Env<'a> {
    pub u: &'a Universe,
    pub w: &'a World,
    pub now: u64,
    pub ix: &'a Ix,
    /// what the program made of it, if it succeeded
    pub got: Option<&'a World>,
}

struct B<'a> {
    e: &'a Env<'a>,
    p: Pred,
}

/// access control: of pool operations, of administration, of creation
const ACC: T = &["A11"];
/// of the accounts of deposits and redemptions
const LIQ: T = &["A01", "A04", "A09", "A10", "A11"];
/// of the vaults of swaps
const VAULTS: T = &["A01", "A02", "A03", "A11"];
const ADM: T = &["A07"];
const NEW: T = &["A08"];

impl<'a> Env<'a> {
    fn n(&self) -> usize {
        self.ix.metas.len()
    }
    fn idx(&self, k: usize) -> usize {
        self.ix.metas[k].i
    }
    fn key(&self, k: usize) -> Pubkey {
        self.u.keys[self.idx(k)]
    }
    fn acc(&self, k: usize) -> &'a AccData {
        self.w.get(self.idx(k))
    }
    fn signs(&self, i: usize) -> bool {
        self.ix.metas.iter().any(|m| m.i == i && m.s)
    }
    fn writable(&self, i: usize) -> bool {
        self.ix.metas.iter().any(|m| m.i == i && m.w)
    }
    fn signer(&self, k: usize, t: T) -> R<()> {
        if self.signs(self.idx(k)) {
            Ok(())
        } else {
            no(t, "signature missing")
        }
    }
    fn mutable(&self, k: usize, t: T) -> R<()> {
        if self.writable(self.idx(k)) {
            Ok(())
        } else {
            no(t, "not writable")
        }
    }
    fn is(&self, k: usize, key: Pubkey, t: T, what: &'static str) -> R<()> {
        if self.key(k) == key {
            Ok(())
        } else {
            no(t, what)
        }
    }
    fn pool(&self, k: usize, t: T) -> R<Pool> {
        abs::pool(self.acc(k)).ok_or(Why { tags: t, what: "not a pool" })
    }
    fn token(&self, k: usize, t: T) -> R<spl_token::state::Account> {
        tok::read(self.acc(k)).ok_or(Why { tags: t, what: "not a token account" })
    }
    fn mint(&self, k: usize, t: T) -> R<spl_token::state::Mint> {
        tok::read_mint(self.acc(k)).ok_or(Why { tags: t, what: "not a mint" })
    }
    fn u64_at(&self, o: usize) -> u64 {
        self.ix.data.get(o..o + 8).map_or(0, |d| u64::from_le_bytes(d.try_into().unwrap()))
    }
    /// `Vec<TokenLimit>`; the last one for a mint counts
    fn limits(&self, o: usize) -> Option<BTreeMap<Pubkey, u64>> {
        let d = &self.ix.data;
        let n = u32::from_le_bytes(d.get(o..o + 4)?.try_into().unwrap()) as usize;
        let mut m = BTreeMap::new();
        for k in 0..n {
            let at = o + 4 + 40 * k;
            let mint = Pubkey::new(d.get(at..at + 32)?);
            d.get(at + 32..at + 40)?;
            m.insert(mint, self.u64_at(at + 32));
        }
        Some(m)
    }
}

impl<'a> B<'a> {
    fn raw(&self, i: usize) -> AccData {
        match self.p.want.get(&i) {
            Some(Want::Raw(a)) => a.clone(),
            _ => self.e.w.get(i).clone(),
        }
    }
    fn set(&mut self, i: usize, w: Want) {
        self.p.want.insert(i, w);
    }
    fn note(&mut self, tags: T, what: String) {
        self.p.notes.push((tags, what));
    }
    fn may_fail(&mut self, why: &'static str) {
        self.p.may_fail.get_or_insert(why);
    }

    fn transfer(&mut self, from: usize, to: usize, auth: usize, pda: bool, amount: u64) -> R<()> {
        let (f, t) = (self.raw(from), self.raw(to));
        let bad = Why { tags: ACC, what: "not a token account" };
        let mut fa = tok::read(&f).ok_or(bad)?;
        let mut ta = tok::read(&t).ok_or(bad)?;
        if !self.e.writable(from) || !self.e.writable(to) {
            return no(ACC, "not writable");
        }
        if fa.is_frozen() || ta.is_frozen() {
            return no(ACC, "frozen token account");
        }
        if fa.amount < amount {
            return no(&["A02", "A03", "A04", "A09", "A11"], "not enough tokens");
        }
        if fa.mint != ta.mint {
            return no(ACC, "token mints differ");
        }
        let key = self.e.u.keys[auth];
        if !(pda || self.e.signs(auth)) {
            return no(ACC, "signature missing");
        }
        let delegated = fa.delegate.contains(&key);
        if delegated {
            if fa.delegated_amount < amount {
                return no(ACC, "not enough delegated tokens");
            }
        } else if fa.owner != key {
            return no(ACC, "wrong token authority");
        }
        if from == to || amount == 0 && !delegated {
            return Ok(());
        }
        if delegated {
            fa.delegated_amount -= amount;
            if fa.delegated_amount == 0 {
                fa.delegate = Default::default();
            }
        }
        fa.amount -= amount;
        ta.amount = ta.amount.checked_add(amount).ok_or(Why { tags: ACC, what: "overflow" })?;
        let write = |mut a: AccData, x: spl_token::state::Account| {
            x.pack_into_slice(&mut a.data);
            a
        };
        self.set(from, Want::Raw(write(f, fa)));
        self.set(to, Want::Raw(write(t, ta)));
        Ok(())
    }

    /// positive: mint to `to` by the pool signer; negative: burn from `to` by `auth`
    fn mint_or_burn(&mut self, mint: usize, to: usize, auth: usize, amount: u64, burn: bool) -> R<()> {
        let bad = Why { tags: ACC, what: "not a token account" };
        let (mut ma, mut ta) = (self.raw(mint), self.raw(to));
        let mut m = tok::read_mint(&ma).ok_or(bad)?;
        let mut t = tok::read(&ta).ok_or(bad)?;
        if !self.e.writable(mint) || !self.e.writable(to) {
            return no(ACC, "not writable");
        }
        if t.mint != self.e.u.keys[mint] {
            return no(ACC, "token mints differ");
        }
        if t.is_frozen() {
            return no(ACC, "frozen token account");
        }
        let key = self.e.u.keys[auth];
        let over = Why { tags: ACC, what: "overflow" };
        if burn {
            if !self.e.signs(auth) {
                return no(ACC, "signature missing");
            }
            if t.amount < amount {
                return no(ACC, "not enough LP tokens");
            }
            if t.delegate.contains(&key) {
                if t.delegated_amount < amount {
                    return no(ACC, "not enough delegated tokens");
                }
                t.delegated_amount -= amount;
                if t.delegated_amount == 0 {
                    t.delegate = COption::None;
                }
            } else if t.owner != key {
                return no(ACC, "wrong token authority");
            }
            t.amount -= amount;
            m.supply -= amount;
        } else {
            if m.mint_authority != COption::Some(key) {
                return no(ACC, "wrong mint authority");
            }
            t.amount = t.amount.checked_add(amount).ok_or(over)?;
            m.supply = m.supply.checked_add(amount).ok_or(over)?;
        }
        m.pack_into_slice(&mut ma.data);
        t.pack_into_slice(&mut ta.data);
        self.set(mint, Want::Raw(ma));
        self.set(to, Want::Raw(ta));
        Ok(())
    }

    /// pays for an account of the program's own making; its lamports afterwards
    fn init(&mut self, i: usize, payer: usize, rent: u64, t: T) -> R<u64> {
        let a = self.raw(i);
        if a.owner != system_program::ID || !a.data.is_empty() {
            return no(t, "account exists already");
        }
        let pay = rent.saturating_sub(a.lamports);
        let mut p = self.raw(payer);
        if pay > 0 {
            if p.owner != system_program::ID || !p.data.is_empty() {
                return no(t, "payer is no wallet");
            }
            if !self.e.signs(payer) || !self.e.writable(payer) {
                return no(t, "payer does not sign");
            }
            if p.lamports < pay {
                return no(t, "not enough lamports");
            }
            p.lamports -= pay;
            self.set(payer, Want::Raw(p));
        }
        Ok(a.lamports + pay)
    }

    fn got_pool(&self, i: usize) -> Option<Pool> {
        abs::pool(self.e.got?.get(i))
    }
}

fn min_accounts(ep: &str) -> usize {
    match ep {
        "create_program_toll" | "create_discount_settings" => 6,
        "create_pool" => 8,
        "put_discount" => 4,
        "set_pool_swap_fee" => 2,
        "deposit_liquidity" | "redeem_liquidity" => 6,
        "swap" => 11,
        _ => 0,
    }
}

pub fn expect(e: &Env) -> R<Pred> {
    let Some(ep) = endpoint(e.ix) else { return no(ACC, "no such instruction") };
    if e.n() < min_accounts(ep) {
        return no(ACC, "accounts missing");
    }
    let mut b = B { e, p: Pred::default() };
    match ep {
        "create_program_toll" => singleton(&mut b, abs::TOLL)?,
        "create_discount_settings" => singleton(&mut b, abs::SETTINGS)?,
        "create_pool" => create_pool(&mut b)?,
        "put_discount" => put_discount(&mut b)?,
        "set_pool_swap_fee" => set_fee(&mut b)?,
        "deposit_liquidity" => deposit(&mut b)?,
        "redeem_liquidity" => redeem(&mut b)?,
        "swap" => swap(&mut b)?,
        _ => unreachable!(),
    }
    Ok(b.p)
}

// ------------------------------------------------------------------ settings

fn loader_program_data(a: &AccData) -> Option<Pubkey> {
    // UpgradeableLoaderState::Program { programdata_address }
    (a.owner == bpf_loader_upgradeable::ID && a.data.len() >= 36 && a.data[..4] == [2, 0, 0, 0])
        .then(|| Pubkey::new(&a.data[4..36]))
}
fn upgrade_authority(a: &AccData) -> Option<Pubkey> {
    // UpgradeableLoaderState::ProgramData { slot, upgrade_authority_address }
    (a.owner == bpf_loader_upgradeable::ID
        && a.data.len() >= 45
        && a.data[..4] == [3, 0, 0, 0]
        && a.data[12] == 1)
        .then(|| Pubkey::new(&a.data[13..45]))
}

fn singleton(b: &mut B, kind: usize) -> R<()> {
    let e = b.e;
    e.signer(0, ADM)?;
    e.mutable(0, ADM)?;
    e.is(1, amm::ID, ADM, "not the program")?;
    if loader_program_data(e.acc(1)) != Some(e.key(2)) {
        return no(ADM, "not the program's data");
    }
    if upgrade_authority(e.acc(2)) != Some(e.key(0)) {
        return no(ADM, "not the upgrade authority");
    }
    let at = if kind == abs::TOLL { toll_pda() } else { settings_pda() };
    e.is(4, at, ADM, "not the singleton's address")?;
    e.mutable(4, ADM)?;
    e.is(5, system_program::ID, ADM, "system program")?;
    let len = new_len(e, e.idx(4), 40);
    let lamports = b.init(e.idx(4), e.idx(0), Rent::default().minimum_balance(len), ADM)?;
    let words = e.key(3).to_bytes().to_vec();
    b.set(e.idx(4), Want::New { kind, words, lamports });
    Ok(())
}

/// How long the program made a new account (its own business).
fn new_len(e: &Env, i: usize, least: usize) -> usize {
    e.got.map_or(least, |w| w.get(i).data.len().max(least))
}

fn put_discount(b: &mut B) -> R<()> {
    let e = b.e;
    let user = Pubkey::new(&e.ix.data[8..40]);
    let (amount, until) = (e.u64_at(40), e.u64_at(48));
    e.signer(0, ADM)?;
    e.is(2, settings_pda(), ADM, "not the discount settings")?;
    let Some(auth) = abs::settings(e.acc(2)) else { return no(ADM, "no discount settings") };
    e.is(0, auth, ADM, "not the discount authority")?;
    e.is(1, discount_pda(&user), ADM, "not the user's discount")?;
    e.mutable(1, ADM)?;
    e.is(3, system_program::ID, ADM, "system program")?;
    if until <= e.now {
        return no(&["A07", "A06"], "expired already");
    }
    if amount as u128 > PPM {
        return no(&["A07", "A06"], "more than 100%");
    }
    let i = e.idx(1);
    let mut words = amount.to_le_bytes().to_vec();
    words.extend_from_slice(&until.to_le_bytes());
    if e.acc(1).owner == system_program::ID {
        e.mutable(0, ADM)?;
        let len = new_len(e, i, 24);
        let lamports = b.init(i, e.idx(0), Rent::default().minimum_balance(len), ADM)?;
        b.set(i, Want::New { kind: abs::DISCOUNT, words, lamports });
    } else {
        let mut a = b.raw(i);
        a.data[..8].copy_from_slice(&abs::disc(abs::DISCOUNT));
        a.data[8..24].copy_from_slice(&words);
        b.set(i, Want::Raw(a));
    }
    Ok(())
}

fn set_fee(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, ADM)?;
    e.mutable(1, ADM)?;
    let mut p = e.pool(1, ADM)?;
    e.is(0, p.admin, ADM, "not the pool's admin")?;
    let fee = e.u64_at(8);
    if fee > MAX_FEE {
        return no(&["A07", "A06"], "more than 1%");
    }
    p.fee = fee;
    b.set(e.idx(1), Want::Pool(Box::new(p)));
    Ok(())
}

fn create_pool(b: &mut B) -> R<()> {
    let e = b.e;
    let (admin, pool, signer, toll, toll_wallet, lp) = (0, 1, 2, 3, 4, 5);
    e.signer(admin, NEW)?;
    e.mutable(admin, NEW)?;
    e.signer(pool, NEW)?;
    e.mutable(pool, NEW)?;
    let sig = signer_pda(&e.key(pool));
    e.is(signer, sig, NEW, "not the pool's signer")?;
    e.is(toll, toll_pda(), NEW, "not the program toll")?;
    let Some(auth) = abs::toll(e.acc(toll)) else { return no(NEW, "no program toll") };
    let tw = e.token(toll_wallet, NEW)?;
    if tw.mint != e.key(lp) {
        return no(NEW, "toll wallet of another mint");
    }
    if tw.owner != auth {
        return no(NEW, "toll wallet of somebody else");
    }
    let m = e.mint(lp, NEW)?;
    if m.mint_authority != COption::Some(sig) {
        return no(NEW, "LP mint of somebody else");
    }
    if m.freeze_authority != COption::None {
        return no(NEW, "LP mint can be frozen");
    }
    e.is(6, spl_token::ID, NEW, "token program")?;
    e.is(7, system_program::ID, NEW, "system program")?;
    let vaults = &e.ix.metas[8..];
    if vaults.len() < 2 || vaults.len() > 4 {
        return no(NEW, "number of vaults");
    }
    let none = abs::Reserve { tokens: 0, mint: Pubkey::default(), vault: Pubkey::default() };
    let mut p = Pool {
        admin: e.key(admin),
        signer: sig,
        mint: e.key(lp),
        toll_wallet: e.key(toll_wallet),
        dim: vaults.len() as u64,
        reserves: [none; 4],
        curve: match e.u64_at(8) {
            0 => Curve::ConstProd,
            amp => Curve::Stable { amp, d: [0; 3] },
        },
        fee: 0,
    };
    for (k, meta) in vaults.iter().enumerate() {
        let v = e.token(8 + k, NEW)?;
        if (m.supply == 0) != (v.amount == 0) {
            return no(NEW, "LP supply and vault do not match");
        }
        if p.reserves[..k].iter().any(|r| r.mint == v.mint) {
            return no(NEW, "mint twice");
        }
        if v.close_authority.is_some() || v.delegate.is_some() || v.is_frozen() {
            return no(NEW, "vault is not the pool's alone");
        }
        if v.owner != sig {
            return no(NEW, "vault of somebody else");
        }
        p.reserves[k] = abs::Reserve { tokens: v.amount, mint: v.mint, vault: e.u.keys[meta.i] };
    }
    // a pool of vaults with tokens in them is ready for swaps
    new_invariant(b, e.idx(pool), &mut p);
    let len = new_len(e, e.idx(pool), 8 + 128 + 8 + 288 + 1 + 32 + 8);
    let lamports = b.init(e.idx(pool), e.idx(admin), Rent::default().minimum_balance(len), NEW)?;
    b.set(e.idx(pool), Want::NewPool { pool: Box::new(p), lamports });
    Ok(())
}

// ---------------------------------------------------------- deposit, redeem

struct Liquidity {
    pool: Pool,
    supply: u64,
    /// per reserve: vault, wallet (accounts)
    pairs: Vec<(usize, usize)>,
}

/// What deposits and redemptions have in common.
fn liquidity(b: &mut B) -> R<Liquidity> {
    let e = b.e;
    e.signer(0, ACC)?;
    e.mutable(1, ACC)?;
    let pool = e.pool(1, ACC)?;
    e.is(2, signer_pda(&e.key(1)), ACC, "not the pool's signer")?;
    e.is(3, pool.mint, LIQ, "not the pool's LP mint")?;
    e.mutable(3, ACC)?;
    let supply = e.mint(3, ACC)?.supply;
    e.mutable(4, ACC)?;
    if e.token(4, ACC)?.mint != pool.mint {
        return no(LIQ, "LP wallet of another mint");
    }
    e.is(5, spl_token::ID, ACC, "token program")?;
    let n = pool.dim as usize;
    if e.n() != 6 + 2 * n {
        return no(LIQ, "number of vaults and wallets");
    }
    let mut pairs = vec![None; n];
    for k in 0..n {
        let (v, w) = (6 + 2 * k, 7 + 2 * k);
        let (va, wa) = (e.token(v, ACC)?, e.token(w, ACC)?);
        if va.mint != wa.mint {
            return no(LIQ, "vault and wallet of different mints");
        }
        if wa.owner != e.key(0) {
            return no(ACC, "wallet of somebody else");
        }
        let Some(r) = pool.r().iter().position(|r| r.vault == e.key(v)) else {
            return no(LIQ, "not a vault of the pool");
        };
        if pairs[r].is_some() {
            return no(LIQ, "vault twice");
        }
        pairs[r] = Some((e.idx(v), e.idx(w)));
    }
    Ok(Liquidity { pool, supply, pairs: pairs.into_iter().map(|p| p.unwrap()).collect() })
}

/// Limits per reserve
fn per_reserve(pool: &Pool, m: &BTreeMap<Pubkey, u64>, t: T) -> R<Vec<u64>> {
    if m.len() != pool.dim as usize {
        return no(t, "limits for other mints");
    }
    pool.r()
        .iter()
        .map(|r| m.get(&r.mint).copied().ok_or(Why { tags: t, what: "no limit for a mint" }))
        .collect()
}

/// Puts the invariant the program computed for the new reserves into `pool`,
/// after judging it.
fn new_invariant(b: &mut B, i: usize, pool: &mut Pool) {
    let Curve::Stable { amp, .. } = pool.curve else { return };
    let xs = pool.tokens();
    if xs.contains(&0) {
        pool.curve = Curve::Stable { amp, d: [0; 3] };
        return;
    }
    let product = curve::scaled_product_low(&xs);
    if product < 1.001e-12 {
        b.may_fail("extreme imbalance");
    }
    if !curve::invariant_fits(amp, &xs) {
        b.may_fail("invariant beyond 192 bits");
    }
    let Some(got) = b.got_pool(i) else { return };
    let Curve::Stable { d, .. } = got.curve else { return };
    if got.tokens() != xs {
        return; // reported elsewhere
    }
    pool.curve = Curve::Stable { amp, d };
    let d = Big::limbs(&d);
    let s = xs.iter().fold(Big::ZERO, |a, x| a.add(&curve::units(*x)));
    let root = root(amp, &xs);
    let sc = curve::scale(curve::exponent(&s));
    let rd = root.f() / UNIT as f64 / sc;
    // the product's relative error is the invariant's at most
    let rel = (curve::scaled_product(&xs) / product.max(1e-18) - 1.0).max(0.0);
    let low = sc * (1e-17 * (1.0 + rd) + rd * (rel + 4e-18 / product.max(1e-18)));
    let high = curve::invariant_error(amp, &xs, &root) * (1.0 + 1e-9) + low;
    let text = || format!("invariant {} of {:?} with amplifier {}, exactly {}", show(&d), xs, amp, show(&root));
    if d.add(&curve::f_units(low)) < root {
        b.note(&["A12", "A03"], format!("{} is too low", text()));
    } else if d > root.add(&curve::f_units(high)) || d > s {
        b.note(&["A12", "A03"], format!("{} is too high", text()));
    } else if xs.iter().all(|x| *x == xs[0]) && s.sat(&d) > curve::f_units(low) {
        b.note(&["A12"], format!("{}: not their sum", text()));
    }
}

thread_local! {
    static ROOTS: RefCell<HashMap<(u64, Vec<u64>), Big>> = RefCell::default();
}
fn root(amp: u64, xs: &[u64]) -> Big {
    ROOTS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 {
            c.clear();
        }
        *c.entry((amp, xs.to_vec())).or_insert_with(|| Stable::new(amp, xs).root())
    })
}

/// units as tokens, for people
pub fn show(v: &Big) -> String {
    let t = v.div(UNIT);
    let f = v.sat(&t.muls(UNIT as u128)).low();
    format!("{}.{:018}", t.low(), f)
}

fn deposit(b: &mut B) -> R<()> {
    let e = b.e;
    let l = liquidity(b)?;
    let mut pool = l.pool.clone();
    let t: T = &["A09"];
    let Some(m) = e.limits(8) else { return no(ACC, "malformed") };
    let max = per_reserve(&pool, &m, t)?;
    if max.contains(&0) {
        return no(t, "deposit of nothing");
    }
    let x = pool.tokens();
    let n = x.len();
    let got = b.got_pool(e.idx(1)).map(|p| p.tokens());
    let got = got.filter(|g| g.len() == n);
    let seen = |i: usize| got.as_ref().map(|g| g[i] as i128 - x[i] as i128);
    let got_lp = e.got.and_then(|w| tok::read_mint(w.get(e.idx(3)))).map(|m| m.supply as i128 - l.supply as i128);
    let mut d = vec![0u64; n];
    let lp;
    if l.supply == 0 {
        b.p.class = "first";
        d.clone_from(&max);
        for i in 0..n {
            if let Some(s) = seen(i) {
                if s != d[i] as i128 {
                    b.note(&["A09", "A01"], format!("first deposit of {} where {} was given", s, d[i]));
                    if s > d[i] as i128 {
                        b.note(&["A05"], "deposit beyond its maximum".into());
                    }
                    d[i] = s.clamp(0, u64::MAX as i128) as u64;
                }
            }
        }
        let want = *max.iter().min().unwrap();
        lp = got_lp.map_or(want as i128, |g| g);
        if lp != want as i128 {
            b.note(&["A09", "A04"], format!("{} LP tokens for a first deposit of {:?}", lp, max));
        }
    } else {
        b.p.class = "further";
        if x.contains(&0) {
            return no(t, "reserve is empty");
        }
        // the limiting token
        let k = (0..n)
            .min_by(|i, j| (max[*i] as u128 * x[*j] as u128).cmp(&(max[*j] as u128 * x[*i] as u128)))
            .unwrap();
        let f = max[k] as f64 / x[k] as f64;
        let (mut lp_hi, mut lp_lo) = (u128::MAX, u128::MAX);
        for i in 0..n {
            let num = x[i] as u128 * max[k] as u128;
            let (q, r) = (num / x[k] as u128, num % x[k] as u128);
            let lo = q + u128::from(r as f64 / x[k] as f64 > 1e-6);
            // 18 digits of the ratio
            let extra = q as f64 * f * 1.01e-18;
            let hi = q + ((r as f64 / x[k] as f64 + extra + 1e-9).ceil() as u128).max(1);
            let (lo, hi) = (lo.min(max[i] as u128), hi.min(max[i] as u128));
            let v = seen(i).unwrap_or(lo as i128);
            if v < lo as i128 || v > hi as i128 {
                let text = format!(
                    "deposit of {} to reserve {} of {:?} with {:?} given, instead of {} to {}",
                    v, i, x, max, lo, hi
                );
                b.note(t, text.clone());
                if v > max[i] as i128 {
                    b.note(&["A05"], text);
                }
            }
            d[i] = v.clamp(0, u64::MAX as i128) as u64;
            let have = tok::amount(e.w.get(l.pairs[i].1)) as u128;
            if hi > have || x[i] as u128 + hi > u64::MAX as u128 {
                b.may_fail("rounded up beyond the wallet");
            }
            let share = l.supply as u128 * d[i] as u128;
            let slack = if share >= 1 << 126 {
                div_up(l.supply.min(d[i]) as u128, UNIT as u128)
            } else {
                0
            };
            lp_hi = lp_hi.min(share / x[i] as u128);
            lp_lo = lp_lo.min((share / x[i] as u128).saturating_sub(slack));
        }
        if lp_hi == 0 {
            return no(&["A09", "A04"], "too little for an LP token");
        }
        if lp_lo == 0 {
            b.may_fail("too little for an LP token");
        }
        if l.supply as u128 + lp_hi > u64::MAX as u128 {
            b.may_fail("LP supply beyond u64");
        }
        let (hi, lo) = (lp_hi.min(i128::MAX as u128) as i128, lp_lo.min(i128::MAX as u128) as i128);
        lp = got_lp.unwrap_or(lo);
        if lp > hi {
            b.note(
                &["A09", "A04"],
                format!("{} LP tokens of {} for {:?} to {:?}: at most {}", lp, l.supply, d, x, hi),
            );
        } else if lp < lo {
            b.note(t, format!("{} LP tokens of {} for {:?} to {:?}: at least {}", lp, l.supply, d, x, lo));
        }
    }
    for i in 0..n {
        let (v, w) = l.pairs[i];
        b.transfer(w, v, e.idx(0), false, d[i])?;
        pool.reserves[i].tokens = match x[i].checked_add(d[i]) {
            Some(s) => s,
            None => return no(ACC, "overflow"),
        };
    }
    if lp < 0 || lp > u64::MAX as i128 {
        if e.got.is_some() {
            b.note(&["A09", "A04"], format!("LP supply changed by {}", lp));
        }
        return no(ACC, "overflow");
    }
    b.mint_or_burn(e.idx(3), e.idx(4), e.idx(2), lp as u64, false)?;
    new_invariant(b, e.idx(1), &mut pool);
    b.set(e.idx(1), Want::Pool(Box::new(pool)));
    Ok(())
}

fn redeem(b: &mut B) -> R<()> {
    let e = b.e;
    let l = liquidity(b)?;
    let mut pool = l.pool.clone();
    let burn = e.u64_at(8);
    let Some(m) = e.limits(16) else { return no(ACC, "malformed") };
    let min = per_reserve(&pool, &m, &["A10"])?;
    if l.supply == 0 {
        return no(&["A10"], "no LP tokens");
    }
    let x = pool.tokens();
    let got = b.got_pool(e.idx(1)).map(|p| p.tokens()).filter(|g| g.len() == x.len());
    if burn > l.supply {
        return no(&["A10", "A04"], "more than the LP supply");
    }
    if burn > e.token(4, ACC)?.amount {
        return no(&["A10", "A11"], "not enough LP tokens");
    }
    b.p.class = if burn == l.supply { "everything" } else { "part" };
    for i in 0..x.len() {
        let hi = curve::mul_div(x[i], burn, l.supply);
        // 18 digits of the share; everything and nothing are exact
        let exact = burn == l.supply || burn == 0;
        let slack = if exact { 0 } else { 1 + x[i] as u128 / UNIT as u128 };
        let lo = hi.saturating_sub(slack);
        if hi < min[i] as u128 {
            return no(&["A05"], "less than the minimum");
        }
        if lo < min[i] as u128 {
            b.may_fail("minimum within rounding");
        }
        let v = got.as_ref().map_or(hi as i128, |g| x[i] as i128 - g[i] as i128);
        if v > hi as i128 || v < lo as i128 {
            b.note(
                if v > hi as i128 { &["A10", "A04"] } else { &["A10"] },
                format!("{} of {} redeemed for {} of {} LP tokens", v, x[i], burn, l.supply),
            );
        }
        if v < min[i] as i128 {
            b.note(&["A05"], format!("redeemed {} where at least {} was asked for", v, min[i]));
        }
        let v = v.clamp(0, u64::MAX as i128) as u64;
        let (va, wa) = l.pairs[i];
        b.transfer(va, wa, e.idx(2), true, v)?;
        pool.reserves[i].tokens = x[i].saturating_sub(v);
    }
    b.mint_or_burn(e.idx(3), e.idx(4), e.idx(0), burn, true)?;
    new_invariant(b, e.idx(1), &mut pool);
    b.set(e.idx(1), Want::Pool(Box::new(pool)));
    Ok(())
}

// ---------------------------------------------------------------------- swap

fn swap(b: &mut B) -> R<()> {
    let e = b.e;
    let (user, disc, pool_k, signer, sw, bw, sv, bv, lp, toll, token) = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    e.signer(user, ACC)?;
    e.is(disc, discount_pda(&e.key(user)), &["A11", "A06"], "not the user's discount")?;
    e.mutable(pool_k, ACC)?;
    let mut pool = e.pool(pool_k, ACC)?;
    e.is(signer, signer_pda(&e.key(pool_k)), ACC, "not the pool's signer")?;
    for k in [sw, bw, sv, bv, lp, toll] {
        e.mutable(k, ACC)?;
    }
    let (swa, bwa, sva, bva) = (e.token(sw, ACC)?, e.token(bw, ACC)?, e.token(sv, ACC)?, e.token(bv, ACC)?);
    if swa.mint == bwa.mint {
        return no(VAULTS, "same mint");
    }
    if swa.mint != sva.mint || bwa.mint != bva.mint {
        return no(VAULTS, "wallet and vault of different mints");
    }
    let at = |k: usize, m: &Pubkey| pool.index(m).filter(|i| pool.reserves[*i].vault == e.key(k));
    let (Some(s), Some(y)) = (at(sv, &sva.mint), at(bv, &bva.mint)) else {
        return no(VAULTS, "not a vault of the pool");
    };
    e.is(lp, pool.mint, &["A11", "A06"], "not the pool's LP mint")?;
    let supply = e.mint(lp, ACC)?.supply;
    if supply == 0 {
        return no(&["A11", "A10"], "no liquidity");
    }
    e.is(toll, pool.toll_wallet, &["A11", "A06"], "not the pool's toll wallet")?;
    e.token(toll, ACC)?;
    e.is(token, spl_token::ID, ACC, "token program")?;
    let (sell, min_buy) = (e.u64_at(8), e.u64_at(16));
    if sell == 0 {
        return no(&["A05"], "nothing to sell");
    }
    // fee
    let d = match abs::discount(e.acc(disc)) {
        Some((amount, until)) if amount > 0 && e.now <= until => (amount as u128).min(PPM),
        _ => 0,
    };
    let fee = div_up(sell as u128 * (pool.fee as u128 * (PPM - d)), PPM * PPM) as u64;
    let x = pool.tokens();
    let n = x.len();
    if x.contains(&0) {
        return no(&["A02", "A03"], "empty reserve");
    }
    if fee > sell {
        return no(&["A06"], "fee beyond the amount");
    }
    let net = sell - fee;
    let Some(sold) = x[s].checked_add(net) else { return no(ACC, "overflow") };
    if x[s].checked_add(sell).is_none() {
        return no(ACC, "overflow");
    }
    if net >= x[s] {
        b.may_fail("as much as the reserve");
    }
    let others: Vec<u64> = (0..n).filter(|i| *i != y).map(|i| if i == s { sold } else { x[i] }).collect();
    let got = b.got_pool(e.idx(pool_k)).map(|p| p.tokens()).filter(|g| g.len() == n);
    let seen = got.as_ref().map(|g| x[y] as i128 - g[y] as i128);
    let stable = pool.stable();
    let (lo, hi): (i128, i128);
    match pool.curve {
        Curve::ConstProd => {
            b.p.class = "const";
            let k = x.iter().fold(Big::u(UNIT as u128), |a, v| a.muls(*v as u128));
            let after = others.iter().fold(Big::u(UNIT as u128), |a, v| a.muls(*v as u128));
            if k.bits() > 192 || after.bits() > 192 {
                b.may_fail("product beyond 192 bits");
            }
            let keep = div_up(x[y] as u128 * x[s] as u128, sold as u128);
            hi = x[y] as i128 - keep as i128;
            lo = hi;
            if let Some(v) = seen {
                if v != hi {
                    let t: T = match (fee > 0 || pool.fee > 0, v > hi) {
                        (true, true) => &["A02", "A04", "A06"],
                        (true, false) => &["A02", "A06"],
                        (false, true) => &["A02", "A04"],
                        (false, false) => &["A02"],
                    };
                    b.note(
                        t,
                        format!(
                            "{} bought for {} (fee {}, discount {}) from {:?}[{}>{}], exactly {}",
                            v, sell, fee, d, x, s, y, hi
                        ),
                    );
                }
            }
        }
        Curve::Stable { amp, d: stored } => {
            b.p.class = "stable";
            let stored = Big::limbs(&stored);
            let ex = curve::exponent(&stored);
            let sc = curve::scale(ex);
            let ds = stored.f() / UNIT as f64 / sc;
            let product: f64 = others.iter().map(|v| *v as f64 / sc).product();
            let an = amp as f64 * (n as f64).powi(n as i32);
            let sum: f64 = others.iter().map(|v| *v as f64 / sc).sum();
            let constant = ds.powi(n as i32 + 1) / ((n as f64).powi(n as i32) * product);
            if product < 1.001e-12 {
                b.may_fail("extreme imbalance");
            }
            if (an * (sum + ds)).powi(2) + 4.0 * an * constant > 5e39 {
                b.may_fail("square beyond 192 bits");
            }
            // what has to stay, by the stored and by the exact invariant
            let stay = curve::balance_for(amp, &stored, &others);
            let exact = curve::balance_for(amp, &root(amp, &x), &others);
            let have = curve::units(x[y]);
            // 18 digits of the scaled values
            let ys = stay.f() / UNIT as f64;
            let tol_hi = curve::f_units(1e-18 * (sc * TOL + 8.0 * ys));
            let tol_lo = curve::f_units(1e-18 * (sc * TOL + 8.0 * ys + 4.0 * ys / product));
            hi = curve::floor_tokens(&have.add(&tol_hi).sat(&stay)) as i128;
            let low = have.sub(&stay).and_then(|v| v.sub(&tol_lo));
            lo = low.map_or(0, |v| curve::floor_tokens(&v) as i128);
            if low.is_none() {
                // refused instead of buying nothing
                if exact.add(&curve::units(1)).add(&tol_lo) > have {
                    b.may_fail("nothing to buy");
                }
            }
            if let Some(v) = seen {
                let text = || {
                    format!(
                        "{} bought for {} (fee {}, discount {}) from {:?}[{}>{}] amplifier {} invariant {}: exactly {} to {}",
                        v, sell, fee, d, x, s, y, amp, show(&stored), lo, hi
                    )
                };
                if v > hi {
                    b.note(if pool.fee > 0 { &["A03", "A04", "A06"] } else { &["A03", "A04"] }, text());
                } else if v < lo {
                    b.note(if pool.fee > 0 { &["A03", "A06"] } else { &["A03"] }, text());
                }
            }
        }
    }
    let bought = seen.unwrap_or(lo);
    if (min_buy as i128) > hi {
        return no(&["A05"], "less than the minimum");
    }
    if (min_buy as i128) > lo {
        b.may_fail("minimum within rounding");
    }
    if (min_buy as i128) > bought {
        b.note(&["A05"], format!("bought {} where at least {} was asked for", bought, min_buy));
    }
    if bought < 0 || bought > x[y] as i128 {
        return no(&["A02", "A03"], "more than the reserve");
    }
    let bought = bought as u64;
    pool.reserves[s].tokens += sell;
    pool.reserves[y].tokens -= bought;
    b.transfer(e.idx(sw), e.idx(sv), e.idx(user), false, sell)?;
    b.transfer(e.idx(bv), e.idx(bw), e.idx(signer), true, bought)?;
    // bought into a vault: a gift to that pool
    let to = e.key(bw);
    if (0..e.w.0.len()).any(|i| abs::pool(e.w.get(i)).map_or(false, |p| p.r().iter().any(|r| r.vault == to))) {
        b.p.donate = Some((e.idx(bw), bought));
    }
    // toll: what a deposit of a third of the fee, evenly split, would earn
    let share = (2 * fee as u128 * TOLL_SHARE + PPM * n as u128) / (2 * PPM * n as u128);
    let xs = pool.tokens();
    let mut lp_toll = 0i128;
    if share > 0 {
        let v = supply as u128 * share;
        let t_hi = v / xs[s] as u128;
        let mut slack = 1;
        if v >= 1 << 126 || xs.iter().any(|r| supply as u128 * *r as u128 >= 1 << 126) {
            slack += div_up(supply as u128, UNIT as u128);
        }
        // a proportional deposit is rounded to whole tokens of every reserve
        let t_lo = t_hi.saturating_sub(slack);
        if xs.iter().any(|r| *r as u128 + div_up(*r as u128 * share, xs[s] as u128) + 1 > u64::MAX as u128) {
            b.may_fail("reserves beyond u64");
        }
        if xs.contains(&0) {
            b.may_fail("empty reserve");
        }
        lp_toll = t_hi as i128;
        if let Some(w) = e.got {
            let now = tok::read_mint(w.get(e.idx(lp))).map_or(0, |m| m.supply);
            lp_toll = now as i128 - supply as i128;
            if lp_toll > t_hi as i128 || lp_toll < t_lo as i128 {
                b.note(
                    if lp_toll > t_hi as i128 { &["A06", "A04"] } else { &["A06"] },
                    format!(
                        "toll of {} LP tokens of {} for fee {} of {:?}[{}], exactly {}",
                        lp_toll, supply, fee, xs, s, t_hi
                    ),
                );
            }
        }
        if lp_toll < 0 || lp_toll > u64::MAX as i128 {
            return no(&["A06"], "overflow");
        }
        if lp_toll > 0 {
            b.mint_or_burn(e.idx(lp), e.idx(toll), e.idx(signer), lp_toll as u64, false)?;
        }
    }
    if e.got.is_some() && lp_toll >= 0 {
        worth(b, &x, &xs, y, supply, lp_toll as u64, &pool.curve);
    }
    new_invariant(b, e.idx(pool_k), &mut pool);
    let _ = stable;
    b.set(e.idx(pool_k), Want::Pool(Box::new(pool)));
    Ok(())
}

/// units of the last place of scaled values by which a swap may be off
const TOL: f64 = 64.0;

/// No swap lowers what an LP token is worth.
fn worth(b: &mut B, x: &[u64], xs: &[u64], y: usize, supply: u64, toll: u64, c: &Curve) {
    let prod = |v: &[u64]| v.iter().fold(Big::u(1), |a, v| a.muls(*v as u128));
    let pow = |v: u128| (0..x.len()).fold(Big::u(1), |a, _| a.muls(v));
    match c {
        Curve::ConstProd => {
            if prod(xs) < prod(x) {
                b.note(&["A02", "A04"], format!("product of reserves decreases: {:?} to {:?}", x, xs));
            }
            if prod(xs).mul(&pow(supply as u128)) < prod(x).mul(&pow(supply as u128 + toll as u128)) {
                b.note(
                    &["A04"],
                    format!("toll of {} LP tokens of {} worth more than the fee: {:?} to {:?}", toll, supply, x, xs),
                );
            }
        }
        Curve::Stable { amp, d } => {
            if xs.contains(&0) {
                b.note(&["A03"], format!("reserve emptied: {:?} to {:?}", x, xs));
                return;
            }
            // by the invariant the pool goes by, and up to the last bought token
            let before = root(*amp, x).min(Big::limbs(d));
            let mut up = xs.to_vec();
            up[y] += 1;
            let after = root(*amp, &up);
            let s = xs.iter().fold(Big::ZERO, |a, x| a.add(&curve::units(*x)));
            let tol = curve::f_units(1e-18 * curve::scale(curve::exponent(&s)) * TOL);
            if after.add(&tol) < before {
                b.note(&["A03", "A04"], format!("invariant decreases: {:?} to {:?}, amplifier {}", x, xs, amp));
            } else if after.add(&tol).muls(supply as u128) < before.muls(supply as u128 + toll as u128) {
                b.p.soft.push((
                    &["A04"],
                    format!(
                        "toll on a stable pool, split evenly over its reserves, is worth more than the fee: {} LP tokens of {}, {:?} to {:?}, amplifier {}",
                        toll, supply, x, xs, amp
                    ),
                ));
            }
        }
    }
}
