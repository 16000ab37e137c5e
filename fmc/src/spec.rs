//! Reference model of the farming program: for an instruction in a world, what
//! must happen. Works on account contents only and never on the program's code.
use crate::abs::{self, Farm, Farmer, Harvest, Period, Snap, PERIODS, RING};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use svm::solana_program::{program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program};
use svm::spl_token;
use svm::{tok, AccData, Ix, Universe, World};

pub const FP: u32 = 60;

/// Why an instruction must be refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    /// a signature is missing or is not the one needed
    Auth(&'static str),
    /// an account is not the one it has to be
    Account(&'static str),
    /// arguments or state do not allow it
    State(&'static str),
    /// somebody has not enough tokens
    Funds(&'static str),
    Overflow,
}

pub type R<T> = Result<T, Why>;

#[derive(Clone, Debug)]
pub struct FarmerWant {
    pub f: Farmer,
    /// same order as `f.harvests`: bounds of the amount
    pub bounds: Vec<(u128, u128)>,
}

#[derive(Clone, Debug)]
pub enum Want {
    Raw(AccData),
    Farm(Farm),
    Farmer { w: FarmerWant, lamports: u64 },
    Gone,
}

#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub want: BTreeMap<usize, Want>,
    /// refusal would be fine too
    pub may_fail: bool,
    /// farms on which a farmer was paid for the current slot
    pub paid: Vec<usize>,
}

pub const ENDPOINTS: [&str; 19] = [
    "create_farm",
    "add_harvest",
    "remove_harvest",
    "set_farm_owner",
    "new_harvest_period",
    "take_snapshot",
    "set_min_snapshot_window",
    "create_farmer",
    "close_farmer",
    "start_farming",
    "stop_farming",
    "update_eligible_harvest",
    "update_eligible_harvest_until",
    "claim_eligible_harvest",
    "whitelist_farm_for_compounding",
    "dewhitelist_farm_for_compounding",
    "compound_same_farm",
    "compound_across_farms",
    "airdrop",
];

pub fn disc(name: &str) -> [u8; 8] {
    thread_local!(static T: HashMap<&'static str, [u8; 8]> = ENDPOINTS
        .iter()
        .map(|n| (*n, svm::discriminator("global", n)))
        .collect());
    T.with(|t| t[name])
}

pub fn endpoint(ix: &Ix) -> Option<&'static str> {
    ENDPOINTS
        .iter()
        .copied()
        .find(|n| ix.data.len() >= 8 && ix.data[..8] == disc(n))
}

// ---------------------------------------------------------------- addresses

thread_local! {
    static PDA: RefCell<HashMap<(u8, Pubkey, Pubkey), Pubkey>> = RefCell::default();
}

fn pda(kind: u8, a: &Pubkey, b: &Pubkey) -> Pubkey {
    PDA.with(|c| {
        *c.borrow_mut().entry((kind, *a, *b)).or_insert_with(|| {
            let (x, y) = (a.as_ref(), b.as_ref());
            let id = &farming::ID;
            match kind {
                0 => Pubkey::find_program_address(&[b"signer", x], id),
                1 => Pubkey::find_program_address(&[b"stake_vault", x], id),
                2 => Pubkey::find_program_address(&[b"harvest_vault", x, y], id),
                3 => Pubkey::find_program_address(&[b"whitelist_compounding", x, y], id),
                _ => Pubkey::find_program_address(&[b"farmer", x, y], id),
            }
            .0
        })
    })
}
pub fn signer_pda(farm: &Pubkey) -> Pubkey {
    pda(0, farm, farm)
}
pub fn stake_vault(farm: &Pubkey) -> Pubkey {
    pda(1, farm, farm)
}
pub fn harvest_vault(farm: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(2, farm, mint)
}
pub fn whitelist(src: &Pubkey, dst: &Pubkey) -> Pubkey {
    pda(3, src, dst)
}
pub fn farmer_pda(farm: &Pubkey, user: &Pubkey) -> Pubkey {
    pda(4, farm, user)
}

// ------------------------------------------------------------------ accrual

/// `a * b / t` with `FP` fractional bits, rounded down (saturating).
pub fn mul_div_fp(a: u64, b: u128, t: u64) -> u128 {
    // a * b may need 192 bits: split b
    let (bh, bl) = (b >> 64, b & u64::MAX as u128);
    let part = |x: u128| -> (u128, u128) {
        let p = a as u128 * x;
        (p / t as u128, p % t as u128)
    };
    let (ql, rl) = part(bl);
    let (qh, rh) = part(bh);
    if qh > 0 || bh > 0 && rh > 0 {
        // far beyond any token amount
        return u128::MAX;
    }
    let frac = (rl << FP) / t as u128;
    if ql >> (127 - FP) > 0 {
        return u128::MAX;
    }
    (ql << FP) + frac
}

/// Exact harvest of a mint over slots `from..=to` for `staked` tokens.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Accrued {
    /// fixed point
    pub exact: u128,
    /// snapshot windows involved
    pub windows: u128,
    /// tokens emitted for everybody over those slots
    pub emitted: u128,
}

impl Accrued {
    pub fn hi(&self) -> u128 {
        self.exact >> FP
    }
    pub fn lo(&self) -> u128 {
        if self.windows == 0 {
            return 0;
        }
        let slack = (self.windows << FP)
            + (2 * self.emitted / 1_000_000_000 << FP) / 1_000_000_000
            + (1 << (FP / 2));
        match self.exact.checked_sub(slack) {
            None => 0,
            Some(x) => (x >> FP) + 1,
        }
    }
    pub fn add(&mut self, o: Accrued) {
        self.exact = self.exact.saturating_add(o.exact);
        self.windows += o.windows;
        self.emitted += o.emitted;
    }
}

/// Tokens emitted by `periods` over slots `from..=to`.
pub fn emitted(periods: &[Period], from: u64, to: u64) -> u128 {
    let mut sum = 0u128;
    for p in periods {
        let (s, e) = (p.start.max(from), p.end.min(to));
        if s <= e {
            sum += (e - s + 1) as u128 * p.tps as u128;
        }
    }
    sum
}

pub fn accrue(log: &[Snap], periods: &[Period], staked: u64, from: u64, to: u64) -> Accrued {
    let mut a = Accrued::default();
    if staked == 0 {
        return a;
    }
    let mut end = to;
    for s in log.iter().rev() {
        if s.at > end {
            continue;
        }
        if end < from {
            break;
        }
        if s.staked > 0 {
            let e = emitted(periods, s.at.max(from), end);
            if e > 0 {
                a.exact = a.exact.saturating_add(mul_div_fp(staked, e, s.staked));
                a.windows += 1;
                a.emitted += e;
            }
        }
        end = s.at - 1;
    }
    a
}

/// First snapshot taken after `slot`, of the retained ones.
pub fn first_after(log: &[Snap], slot: u64) -> Option<Snap> {
    let k = log.partition_point(|s| s.at <= slot);
    log.get(k).copied()
}

pub struct Settled {
    pub f: Farmer,
    /// same order as `f.harvests`
    pub bounds: Vec<(u128, u128)>,
    pub exact: Vec<Accrued>,
    /// paid for slot `now`
    pub paid_now: bool,
}

/// Settles a farmer up to and including `until`.
pub fn settle(farm: &Farm, f: &Farmer, until: u64, now: u64) -> Settled {
    let mut g = f.clone();
    let mut parts: Vec<(u64, u64, u64)> = vec![];
    let mut touched = false;
    if g.vested != 0 {
        if let Some(s) = first_after(&farm.log, g.vested_at) {
            touched = true;
            if g.next <= s.at - 1 {
                parts.push((g.staked, g.next, s.at - 1));
            }
            g.next = g.next.max(s.at);
            g.staked = g.staked.saturating_add(g.vested);
            g.vested = 0;
        }
    }
    if g.next <= until {
        touched = true;
        parts.push((g.staked, g.next, until));
        g.next = until + 1;
    }
    let paid_now = parts.iter().any(|(st, a, b)| *st > 0 && *a <= now && now <= *b);
    if !touched {
        let n = g.harvests.len();
        let bounds = g.harvests.iter().map(|h| (h.1 as u128, h.1 as u128)).collect();
        return Settled { f: g, bounds, exact: vec![Accrued::default(); n], paid_now };
    }
    let mut hs = vec![];
    let mut bounds = vec![];
    let mut exact = vec![];
    for h in &farm.harvests {
        let before = f.harvests.iter().find(|x| x.0 == h.mint).map_or(0, |x| x.1);
        let mut a = Accrued::default();
        for (st, from, to) in &parts {
            a.add(accrue(&farm.log, &h.periods, *st, *from, *to));
        }
        hs.push((h.mint, before));
        bounds.push((before as u128 + a.lo(), before as u128 + a.hi()));
        exact.push(a);
    }
    g.harvests = hs;
    Settled { f: g, bounds, exact, paid_now }
}

// ------------------------------------------------------------- instructions

pub struct Env<'a> {
    pub u: &'a Universe,
    pub w: &'a World,
    pub slot: u64,
    pub ix: &'a Ix,
    /// what the program made of it (only to learn amounts the model leaves open)
    pub got: Option<&'a World>,
}

struct B<'a> {
    e: &'a Env<'a>,
    p: Pred,
}

impl<'a> Env<'a> {
    fn n(&self) -> usize {
        self.ix.metas.len()
    }
    fn idx(&self, k: usize) -> usize {
        self.ix.metas[k].i
    }
    fn key(&self, k: usize) -> Pubkey {
        self.u.keys[self.idx(k)]
    }
    fn acc(&self, k: usize) -> &'a AccData {
        self.w.get(self.idx(k))
    }
    /// privileges are per address
    fn signs(&self, i: usize) -> bool {
        self.ix.metas.iter().any(|m| m.i == i && m.s)
    }
    fn writable(&self, i: usize) -> bool {
        self.ix.metas.iter().any(|m| m.i == i && m.w)
    }
    fn arg(&self, k: usize) -> u64 {
        let o = 8 + k * 8;
        u64::from_le_bytes(self.ix.data[o..o + 8].try_into().unwrap())
    }
    fn signer(&self, k: usize, what: &'static str) -> R<()> {
        if self.signs(self.idx(k)) {
            Ok(())
        } else {
            Err(Why::Auth(what))
        }
    }
    fn mutable(&self, k: usize) -> R<()> {
        if self.writable(self.idx(k)) {
            Ok(())
        } else {
            Err(Why::Account("not writable"))
        }
    }
    fn farm(&self, k: usize) -> R<Farm> {
        match abs::farm(&self.w.0[self.idx(k)]) {
            None => Err(Why::Account("not a farm")),
            Some(f) => match &*f {
                Ok(f) => Ok(f.clone()),
                Err(_) => Err(Why::Account("broken farm")),
            },
        }
    }
    fn farmer(&self, k: usize) -> R<Farmer> {
        match abs::farmer(self.acc(k)) {
            None => Err(Why::Account("not a farmer")),
            Some(Ok(f)) => Ok(f),
            Some(Err(_)) => Err(Why::Account("broken farmer")),
        }
    }
    fn token(&self, k: usize) -> R<spl_token::state::Account> {
        tok::read(self.acc(k)).ok_or(Why::Account("not a token account"))
    }
    fn is(&self, k: usize, key: Pubkey, what: &'static str) -> R<()> {
        if self.key(k) == key {
            Ok(())
        } else {
            Err(Why::Account(what))
        }
    }
    fn token_program(&self, k: usize) -> R<()> {
        self.is(k, spl_token::ID, "token program")
    }
    fn system_program(&self, k: usize) -> R<()> {
        self.is(k, system_program::ID, "system program")
    }
    fn admin(&self, k: usize, farm: &Farm) -> R<()> {
        if self.key(k) == farm.admin {
            Ok(())
        } else {
            Err(Why::Auth("not the farm's admin"))
        }
    }
}

impl<'a> B<'a> {
    fn raw(&self, i: usize) -> AccData {
        match self.p.want.get(&i) {
            Some(Want::Raw(a)) => a.clone(),
            Some(Want::Gone) => AccData::none(),
            _ => self.e.w.get(i).clone(),
        }
    }
    fn set(&mut self, i: usize, w: Want) {
        self.p.want.insert(i, w);
    }

    /// SPL token transfer. `pda`: address the program signs for.
    fn transfer(&mut self, from: usize, to: usize, auth: usize, pda: bool, amount: u64) -> R<()> {
        let f = self.raw(from);
        let t = self.raw(to);
        let mut fa = tok::read(&f).ok_or(Why::Account("not a token account"))?;
        let mut ta = tok::read(&t).ok_or(Why::Account("not a token account"))?;
        if !self.e.writable(from) || !self.e.writable(to) {
            return Err(Why::Account("not writable"));
        }
        if fa.is_frozen() || ta.is_frozen() {
            return Err(Why::State("frozen token account"));
        }
        if fa.amount < amount {
            return Err(Why::Funds("tokens"));
        }
        if fa.mint != ta.mint {
            return Err(Why::Account("token mints differ"));
        }
        let key = self.e.u.keys[auth];
        let signed = pda || self.e.signs(auth);
        if !signed {
            return Err(Why::Auth("token authority"));
        }
        let delegated = fa.delegate.contains(&key);
        if delegated {
            if fa.delegated_amount < amount {
                return Err(Why::Funds("delegated tokens"));
            }
        } else if fa.owner != key {
            return Err(Why::Auth("token authority"));
        }
        if from == to || amount == 0 && !delegated {
            return Ok(());
        }
        if delegated {
            fa.delegated_amount -= amount;
            if fa.delegated_amount == 0 {
                fa.delegate = Default::default();
            }
        }
        fa.amount -= amount;
        ta.amount = ta.amount.checked_add(amount).ok_or(Why::Overflow)?;
        let write = |mut a: AccData, x: spl_token::state::Account| {
            x.pack_into_slice(&mut a.data);
            a
        };
        self.set(from, Want::Raw(write(f, fa)));
        self.set(to, Want::Raw(write(t, ta)));
        Ok(())
    }

    /// Creates an account of the program's own making.
    fn init(&mut self, i: usize, payer: usize, space: usize) -> R<u64> {
        let a = self.raw(i);
        if a.owner != system_program::ID || !a.data.is_empty() {
            return Err(Why::State("account exists already"));
        }
        let rent = Rent::default().minimum_balance(space);
        let pay = rent.saturating_sub(a.lamports);
        let mut p = self.raw(payer);
        if pay > 0 {
            if p.owner != system_program::ID || !p.data.is_empty() {
                return Err(Why::Account("payer is no wallet"));
            }
            if p.lamports < pay {
                return Err(Why::Funds("lamports"));
            }
            p.lamports -= pay;
            self.set(payer, Want::Raw(p));
        }
        Ok(a.lamports + pay)
    }

    fn close(&mut self, i: usize, to: usize) {
        let l = self.raw(i).lamports;
        let mut t = self.raw(to);
        t.lamports += l;
        self.set(to, Want::Raw(t));
        self.set(i, Want::Gone);
    }

    fn settled(&mut self, farm_k: usize, farm: &Farm, f: &Farmer, until: u64) -> R<Settled> {
        if f.staked.checked_add(f.vested).is_none() {
            return Err(Why::Overflow);
        }
        let s = settle(farm, f, until, self.e.slot);
        for b in &s.bounds {
            if b.0 > u64::MAX as u128 {
                return Err(Why::Overflow);
            }
            if b.1 > u64::MAX as u128 {
                self.p.may_fail = true;
            }
        }
        if s.paid_now {
            let i = self.e.idx(farm_k);
            self.p.paid.push(i);
        }
        Ok(s)
    }

    fn put_farmer(&mut self, k: usize, s: Settled) {
        let i = self.e.idx(k);
        let lamports = self.e.w.get(i).lamports;
        self.set(i, Want::Farmer { w: FarmerWant { f: s.f, bounds: s.bounds }, lamports });
    }

    fn put_exact(&mut self, k: usize, f: Farmer) {
        let bounds = f.harvests.iter().map(|h| (h.1 as u128, h.1 as u128)).collect();
        let i = self.e.idx(k);
        let lamports = self.e.w.get(i).lamports;
        self.set(i, Want::Farmer { w: FarmerWant { f, bounds }, lamports });
    }
}

fn min_accounts(ep: &str) -> usize {
    match ep {
        "create_farm" => 8,
        "add_harvest" => 8,
        "remove_harvest" => 5,
        "set_farm_owner" => 3,
        "new_harvest_period" => 6,
        "take_snapshot" => 2,
        "set_min_snapshot_window" => 2,
        "create_farmer" => 5,
        "close_farmer" => 2,
        "start_farming" => 6,
        "stop_farming" => 7,
        "update_eligible_harvest" | "update_eligible_harvest_until" => 2,
        "claim_eligible_harvest" => 4,
        "whitelist_farm_for_compounding" | "dewhitelist_farm_for_compounding" => 5,
        "compound_same_farm" => 7,
        "compound_across_farms" => 9,
        "airdrop" => 5,
        _ => unreachable!(),
    }
}

/// Accounts which callers have to pass as writable.
fn writes(ep: &str, k: usize) -> bool {
    let all: &[usize] = match ep {
        "create_farm" => &[0, 1, 2, 4],
        "add_harvest" => &[0, 1, 4],
        "remove_harvest" => &[0, 1, 3],
        "set_farm_owner" => &[2],
        "new_harvest_period" => &[1, 2, 3],
        "take_snapshot" => &[0],
        "set_min_snapshot_window" => &[1],
        "create_farmer" => &[0, 2],
        "close_farmer" => &[0, 1],
        "start_farming" => &[1, 2, 4],
        "stop_farming" => &[1, 2, 5],
        "update_eligible_harvest" | "update_eligible_harvest_until" => &[1],
        "claim_eligible_harvest" => return k == 1 || k > 3,
        "whitelist_farm_for_compounding" | "dewhitelist_farm_for_compounding" => &[0, 3],
        "compound_same_farm" => &[3, 4, 5],
        "compound_across_farms" => &[4, 5, 6, 7],
        "airdrop" => &[1, 2, 3],
        _ => &[],
    };
    all.contains(&k)
}

/// What must happen.
pub fn expect(e: &Env) -> R<Pred> {
    let ep = endpoint(e.ix).ok_or(Why::State("no such instruction"))?;
    if e.n() < min_accounts(ep) {
        return Err(Why::Account("not enough accounts"));
    }
    let mut b = B { e, p: Pred::default() };
    if (0..e.n()).any(|k| writes(ep, k) && !e.writable(e.idx(k))) {
        // fails unless there is nothing to write
        b.p.may_fail = true;
    }
    match ep {
        "create_farm" => create_farm(&mut b)?,
        "add_harvest" => add_harvest(&mut b)?,
        "remove_harvest" => remove_harvest(&mut b)?,
        "set_farm_owner" => set_farm_owner(&mut b)?,
        "new_harvest_period" => new_harvest_period(&mut b)?,
        "take_snapshot" => take_snapshot(&mut b)?,
        "set_min_snapshot_window" => set_min_snapshot_window(&mut b)?,
        "create_farmer" => create_farmer(&mut b)?,
        "close_farmer" => close_farmer(&mut b)?,
        "start_farming" => start_farming(&mut b)?,
        "stop_farming" => stop_farming(&mut b)?,
        "update_eligible_harvest" => update(&mut b, e.slot)?,
        "update_eligible_harvest_until" => update(&mut b, e.slot.min(e.arg(0)))?,
        "claim_eligible_harvest" => claim(&mut b)?,
        "whitelist_farm_for_compounding" => whitelist_farm(&mut b)?,
        "dewhitelist_farm_for_compounding" => dewhitelist_farm(&mut b)?,
        "compound_same_farm" => compound(&mut b, false)?,
        "compound_across_farms" => compound(&mut b, true)?,
        "airdrop" => airdrop(&mut b)?,
        _ => unreachable!(),
    }
    Ok(b.p)
}

fn new_token_account(mint: Pubkey, owner: Pubkey, lamports: u64) -> Want {
    let mut a = tok::account(mint, owner, 0);
    a.lamports = lamports;
    Want::Raw(a)
}

fn create_farm(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    e.mutable(0)?;
    let fa = e.acc(1);
    if fa.owner != farming::ID || fa.data.len() < abs::FARM_LEN {
        return Err(Why::Account("not a blank farm"));
    }
    if fa.data[..8] != [0u8; 8] {
        return Err(Why::State("farm exists already"));
    }
    let farm = e.key(1);
    e.is(2, signer_pda(&farm), "signer pda")?;
    if tok::read_mint(e.acc(3)).is_none() {
        return Err(Why::Account("not a mint"));
    }
    e.is(4, stake_vault(&farm), "stake vault")?;
    e.token_program(5)?;
    e.system_program(6)?;
    e.is(7, svm::solana_program::sysvar::rent::ID, "rent")?;
    let l = b.init(e.idx(4), e.idx(0), 165)?;
    b.set(e.idx(4), new_token_account(e.key(3), signer_pda(&farm), l));
    b.set(
        e.idx(1),
        Want::Farm(Farm {
            admin: e.key(0),
            stake_mint: e.key(3),
            stake_vault: e.key(4),
            harvests: vec![],
            log: Arc::new(vec![]),
            window: 0,
        }),
    );
    Ok(())
}

fn add_harvest(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let mut f = e.farm(1)?;
    let farm = e.key(1);
    e.is(2, signer_pda(&farm), "signer pda")?;
    if tok::read_mint(e.acc(3)).is_none() {
        return Err(Why::Account("not a mint"));
    }
    let mint = e.key(3);
    e.is(4, harvest_vault(&farm, &mint), "harvest vault")?;
    e.token_program(5)?;
    e.system_program(6)?;
    e.is(7, svm::solana_program::sysvar::rent::ID, "rent")?;
    e.admin(0, &f)?;
    if f.harvest(&mint).is_some() {
        return Err(Why::State("mint is listed already"));
    }
    if f.harvests.len() >= abs::MINTS {
        return Err(Why::State("ten mints already"));
    }
    let l = b.init(e.idx(4), e.idx(0), 165)?;
    b.set(e.idx(4), new_token_account(mint, signer_pda(&farm), l));
    f.harvests.push(Harvest { mint, vault: e.key(4), periods: vec![] });
    f.harvests.sort_by_key(|h| h.mint);
    b.set(e.idx(1), Want::Farm(f));
    Ok(())
}

fn remove_harvest(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let mut f = e.farm(1)?;
    let farm = e.key(1);
    let mint = Pubkey::new(&e.ix.data[8..40]);
    e.is(2, signer_pda(&farm), "signer pda")?;
    e.is(3, harvest_vault(&farm, &mint), "harvest vault")?;
    let v = e.token(3)?;
    e.token_program(4)?;
    e.admin(0, &f)?;
    if v.amount != 0 {
        return Err(Why::State("vault is not empty"));
    }
    let n = f.harvests.len();
    f.harvests.retain(|h| h.mint != mint);
    if f.harvests.len() == n {
        return Err(Why::State("mint is not listed"));
    }
    b.close(e.idx(3), e.idx(0));
    b.set(e.idx(1), Want::Farm(f));
    Ok(())
}

fn set_farm_owner(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    e.signer(1, "new admin")?;
    let mut f = e.farm(2)?;
    e.admin(0, &f)?;
    f.admin = e.key(1);
    b.set(e.idx(2), Want::Farm(f));
    Ok(())
}

fn new_harvest_period(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let mut f = e.farm(1)?;
    let farm = e.key(1);
    let mint = Pubkey::new(&e.ix.data[8..40]);
    let (starts, len, tps) = (e.arg(4), e.arg(5), e.arg(6));
    e.token(2)?;
    e.is(3, harvest_vault(&farm, &mint), "harvest vault")?;
    e.token(3)?;
    e.is(4, signer_pda(&farm), "signer pda")?;
    e.token_program(5)?;
    e.admin(0, &f)?;
    if len == 0 {
        return Err(Why::State("empty period"));
    }
    let start = if starts == 0 { e.slot } else { starts };
    if start < e.slot {
        return Err(Why::State("period starts in the past"));
    }
    let end = start.checked_add(len).ok_or(Why::Overflow)? - 1;
    // the published interface allows it, the handler of today does not
    if len == 1 {
        b.p.may_fail = true;
    }
    let log = f.log.clone();
    let h = f
        .harvests
        .iter_mut()
        .find(|h| h.mint == mint)
        .ok_or(Why::State("mint is not listed"))?;
    if let Some(p) = h.periods.iter().find(|p| p.start <= e.slot) {
        if p.end >= start {
            return Err(Why::State("overlaps a started period"));
        }
    }
    let total = |p: &Period| -> R<u64> {
        ((p.end - p.start) as u128 + 1)
            .checked_mul(p.tps as u128)
            .and_then(|t| u64::try_from(t).ok())
            .ok_or(Why::Overflow)
    };
    let new = Period { tps, start, end };
    let cost = total(&new)?;
    let mut had = 0;
    match h.periods.first().copied() {
        Some(p) if p.start > e.slot => {
            had = total(&p)?;
            h.periods[0] = new;
        }
        _ => {
            if h.periods.len() == PERIODS {
                let old = h.periods[PERIODS - 1];
                if log.first().map_or(false, |s| old.end >= s.at) {
                    return Err(Why::State("oldest period is still needed"));
                }
                if log.len() < RING {
                    b.p.may_fail = true;
                }
                h.periods.pop();
            }
            h.periods.insert(0, new);
        }
    }
    if cost > had {
        b.transfer(e.idx(2), e.idx(3), e.idx(0), false, cost - had)?;
    } else if cost < had {
        b.transfer(e.idx(3), e.idx(2), e.idx(4), true, had - cost)?;
    }
    b.set(e.idx(1), Want::Farm(f));
    Ok(())
}

fn take_snapshot(b: &mut B) -> R<()> {
    let e = b.e;
    let mut f = e.farm(0)?;
    let v = e.token(1)?;
    if e.key(1) != f.stake_vault {
        return Err(Why::Account("stake vault"));
    }
    let window = if f.window == 0 { 7200 } else { f.window };
    let last = f.log.last().map_or(0, |s| s.at);
    if (e.slot as u128) < last as u128 + window as u128 {
        return Err(Why::State("too early for a snapshot"));
    }
    let mut log = (*f.log).clone();
    log.push(Snap { staked: v.amount, at: e.slot });
    if log.len() > RING {
        log.remove(0);
    }
    f.log = Arc::new(log);
    b.set(e.idx(0), Want::Farm(f));
    Ok(())
}

fn set_min_snapshot_window(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let mut f = e.farm(1)?;
    e.admin(0, &f)?;
    f.window = e.arg(0);
    b.set(e.idx(1), Want::Farm(f));
    Ok(())
}

fn create_farmer(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "payer")?;
    let f = e.farm(3)?;
    e.is(2, farmer_pda(&e.key(3), &e.key(1)), "farmer address")?;
    e.system_program(4)?;
    let lamports = b.init(e.idx(2), e.idx(0), abs::FARMER_LEN)?;
    let harvests: Vec<_> = f.harvests.iter().map(|h| (h.mint, 0)).collect();
    let bounds = vec![(0, 0); harvests.len()];
    b.set(
        e.idx(2),
        Want::Farmer {
            w: FarmerWant {
                f: Farmer {
                    authority: e.key(1),
                    farm: e.key(3),
                    staked: 0,
                    vested: 0,
                    vested_at: 0,
                    next: 0,
                    harvests,
                },
                bounds,
            },
            lamports,
        },
    );
    Ok(())
}

fn close_farmer(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "authority")?;
    let f = e.farmer(1)?;
    if f.authority != e.key(0) {
        return Err(Why::Auth("not the farmer's authority"));
    }
    if f.staked != 0 || f.vested != 0 {
        return Err(Why::State("farmer has a deposit"));
    }
    if f.harvests.iter().any(|h| h.1 != 0) {
        return Err(Why::State("farmer has harvest"));
    }
    b.close(e.idx(1), e.idx(0));
    Ok(())
}

fn start_farming(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "wallet authority")?;
    let farm = e.farm(3)?;
    let f = e.farmer(1)?;
    if f.farm != e.key(3) {
        return Err(Why::Account("farmer of another farm"));
    }
    e.is(4, stake_vault(&e.key(3)), "stake vault")?;
    e.token_program(5)?;
    let amount = e.arg(0);
    if amount == 0 {
        return Err(Why::State("zero amount"));
    }
    let mut s = b.settled(3, &farm, &f, e.slot)?;
    s.f.vested = s.f.vested.checked_add(amount).ok_or(Why::Overflow)?;
    s.f.vested_at = e.slot;
    b.put_farmer(1, s);
    b.transfer(e.idx(2), e.idx(4), e.idx(0), false, amount)
}

fn stop_farming(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "authority")?;
    let farm = e.farm(3)?;
    let f = e.farmer(1)?;
    if e.key(1) != farmer_pda(&e.key(3), &e.key(0)) {
        return Err(Why::Auth("not the farmer of this authority and farm"));
    }
    e.is(4, signer_pda(&e.key(3)), "signer pda")?;
    e.is(5, stake_vault(&e.key(3)), "stake vault")?;
    e.token_program(6)?;
    let max = e.arg(0);
    if max == 0 {
        return Err(Why::State("zero amount"));
    }
    let mut s = b.settled(3, &farm, &f, e.slot)?;
    let total = s.f.staked.checked_add(s.f.vested).ok_or(Why::Overflow)?;
    let take = max.min(total);
    let v = take.min(s.f.vested);
    s.f.vested -= v;
    s.f.staked -= take - v;
    b.put_farmer(1, s);
    b.transfer(e.idx(5), e.idx(2), e.idx(4), true, take)
}

fn update(b: &mut B, until: u64) -> R<()> {
    let e = b.e;
    let farm = e.farm(0)?;
    let f = e.farmer(1)?;
    if f.farm != e.key(0) {
        return Err(Why::Account("farmer of another farm"));
    }
    let s = b.settled(0, &farm, &f, until)?;
    b.put_farmer(1, s);
    Ok(())
}

fn claim(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "authority")?;
    let mut f = e.farmer(1)?;
    if e.key(1) != farmer_pda(&f.farm, &e.key(0)) {
        return Err(Why::Auth("not the farmer of this authority"));
    }
    e.is(2, signer_pda(&f.farm), "signer pda")?;
    e.token_program(3)?;
    let rest = e.n() - 4;
    if rest == 0 || rest % 2 != 0 {
        return Err(Why::Account("pairs of vault and wallet"));
    }
    for k in (4..e.n()).step_by(2) {
        let v = e.token(k)?;
        e.is(k, harvest_vault(&f.farm, &v.mint), "harvest vault")?;
        if let Some(h) = f.harvests.iter_mut().find(|h| h.0 == v.mint) {
            if h.1 > 0 {
                let amount = h.1;
                h.1 = 0;
                b.transfer(e.idx(k), e.idx(k + 1), e.idx(2), true, amount)?;
            }
        }
    }
    b.put_exact(1, f);
    Ok(())
}

fn whitelist_farm(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let src = e.farm(1)?;
    e.farm(2)?;
    e.is(3, whitelist(&e.key(1), &e.key(2)), "whitelist address")?;
    e.system_program(4)?;
    e.admin(0, &src)?;
    let lamports = b.init(e.idx(3), e.idx(0), 8)?;
    let mut a = AccData::owned(farming::ID, abs::white_disc().to_vec());
    a.lamports = lamports;
    b.set(e.idx(3), Want::Raw(a));
    Ok(())
}

fn dewhitelist_farm(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "admin")?;
    let src = e.farm(1)?;
    e.farm(2)?;
    e.is(3, whitelist(&e.key(1), &e.key(2)), "whitelist address")?;
    if !abs::is_whitelist(e.acc(3)) {
        return Err(Why::State("not whitelisted"));
    }
    e.system_program(4)?;
    e.admin(0, &src)?;
    b.close(e.idx(3), e.idx(0));
    Ok(())
}

fn compound(b: &mut B, across: bool) -> R<()> {
    let e = b.e;
    // source farm, target farm, signer, whitelist, stake vault, harvest vault,
    // source farmer, target farmer, token program
    let k: [usize; 9] = if across {
        [0, 1, 2, 3, 4, 5, 6, 7, 8]
    } else {
        [0, 0, 1, 2, 3, 4, 5, 5, 6]
    };
    let src = e.farm(k[0])?;
    let dst = e.farm(k[1])?;
    if across && e.idx(k[0]) == e.idx(k[1]) {
        return Err(Why::Account("same farm"));
    }
    e.is(k[2], signer_pda(&e.key(k[0])), "signer pda")?;
    e.is(k[3], whitelist(&e.key(k[0]), &e.key(k[1])), "whitelist address")?;
    if !abs::is_whitelist(e.acc(k[3])) {
        return Err(Why::State("not whitelisted"));
    }
    e.is(k[4], stake_vault(&e.key(k[1])), "stake vault")?;
    let sv = e.token(k[4])?;
    let hv = e.token(k[5])?;
    if hv.mint != sv.mint {
        return Err(Why::Account("token mints differ"));
    }
    e.is(k[5], harvest_vault(&e.key(k[0]), &hv.mint), "harvest vault")?;
    let sf = e.farmer(k[6])?;
    let df = e.farmer(k[7])?;
    if sf.farm != e.key(k[0]) || df.farm != e.key(k[1]) {
        return Err(Why::Account("farmer of another farm"));
    }
    if sf.authority != df.authority {
        return Err(Why::Account("farmers of two users"));
    }
    e.token_program(k[8])?;
    let mut s = b.settled(k[0], &src, &sf, e.slot)?;
    let at = s
        .f
        .harvests
        .iter()
        .position(|h| h.0 == dst.stake_mint)
        .ok_or(Why::State("stake mint is no harvest of the farmer"))?;
    let (lo, hi) = s.bounds[at];
    // learn the amount from what was moved
    let (hvi, svi) = (e.idx(k[5]), e.idx(k[4]));
    let amount = match e.got {
        Some(g) => {
            let moved = tok::amount(e.w.get(hvi)).saturating_sub(tok::amount(g.get(hvi)));
            (moved as u128).clamp(lo, hi)
        }
        None => lo,
    };
    if amount > u64::MAX as u128 {
        return Err(Why::Overflow);
    }
    if hi > hv.amount as u128 {
        b.p.may_fail = true;
    }
    let amount = amount as u64;
    s.f.harvests[at].1 = 0;
    s.bounds[at] = (0, 0);
    if across {
        let mut d = b.settled(k[1], &dst, &df, e.slot)?;
        d.f.vested = d.f.vested.checked_add(amount).ok_or(Why::Overflow)?;
        d.f.vested_at = e.slot;
        b.put_farmer(k[6], s);
        b.put_farmer(k[7], d);
    } else {
        s.f.vested = s.f.vested.checked_add(amount).ok_or(Why::Overflow)?;
        s.f.vested_at = e.slot;
        b.put_farmer(k[6], s);
    }
    b.transfer(hvi, svi, e.idx(k[2]), true, amount)
}

fn airdrop(b: &mut B) -> R<()> {
    let e = b.e;
    e.signer(0, "wallet authority")?;
    let mut f = e.farmer(1)?;
    let w = e.token(2)?;
    e.is(3, harvest_vault(&f.farm, &w.mint), "harvest vault")?;
    e.token_program(4)?;
    let amount = e.arg(0);
    if amount == 0 {
        return Err(Why::State("zero amount"));
    }
    let h = f
        .harvests
        .iter_mut()
        .find(|h| h.0 == w.mint)
        .ok_or(Why::State("farmer does not track the mint"))?;
    h.1 = h.1.checked_add(amount).ok_or(Why::Overflow)?;
    b.put_exact(1, f);
    b.transfer(e.idx(2), e.idx(3), e.idx(0), false, amount)
}
