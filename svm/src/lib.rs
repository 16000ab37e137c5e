//! A small in-process Solana runtime: runs a program's real entrypoint on
//! account data, with CPIs into the real SPL token processor and a system
//! program stand-in, and with the runtime's rules enforced (signer and writable
//! privileges, PDA signatures, read-only and ownership rules, lamport
//! conservation, all-or-nothing effects, purge of accounts without lamports).
//! Time (slot) is an explicit argument. Nothing here is random.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program, sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Once};

pub use solana_program;
pub use spl_token;

pub mod bfs;
pub mod hash;
pub mod report;
pub mod tok;

pub type Entry = for<'a, 'b, 'c, 'd> fn(
    &'a Pubkey,
    &'b [AccountInfo<'c>],
    &'d [u8],
) -> ProgramResult;

/// Some slack so that accounts can be created inside an instruction.
const GROW: usize = 1024;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AccData {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

/// Immutable, shared, with cached content hash.
#[derive(Debug)]
pub struct Acc {
    pub d: AccData,
    pub hash: u128,
}

impl std::ops::Deref for Acc {
    type Target = AccData;
    fn deref(&self) -> &AccData {
        &self.d
    }
}

impl AccData {
    pub fn none() -> Self {
        Self {
            lamports: 0,
            owner: system_program::ID,
            executable: false,
            data: vec![],
        }
    }
    pub fn wallet(lamports: u64) -> Self {
        Self { lamports, ..Self::none() }
    }
    pub fn program() -> Self {
        Self {
            lamports: 1,
            owner: solana_program::bpf_loader::ID,
            executable: true,
            data: vec![],
        }
    }
    pub fn owned(owner: Pubkey, data: Vec<u8>) -> Self {
        let lamports = Rent::default().minimum_balance(data.len());
        Self { lamports, owner, executable: false, data }
    }
    pub fn arc(self) -> Arc<Acc> {
        let mut h = hash::H::new(self.lamports, self.executable as u64);
        h.bytes(self.owner.as_ref());
        h.bytes(&self.data);
        Arc::new(Acc { hash: h.finish(), d: self })
    }
}

/// The fixed set of addresses an exploration knows about.
#[derive(Default, Clone)]
pub struct Universe {
    pub keys: Vec<Pubkey>,
    pub names: Vec<String>,
    pub by_key: HashMap<Pubkey, usize>,
}

impl Universe {
    pub fn add(&mut self, name: &str, key: Pubkey) -> usize {
        if let Some(i) = self.by_key.get(&key) {
            return *i;
        }
        let i = self.keys.len();
        self.keys.push(key);
        self.names.push(name.to_string());
        self.by_key.insert(key, i);
        i
    }
    pub fn find(&self, key: &Pubkey) -> Option<usize> {
        self.by_key.get(key).copied()
    }
    pub fn name(&self, i: usize) -> &str {
        &self.names[i]
    }
    /// The account and those named alike: parts of the name exchanged within
    /// the groups, copies of them.
    pub fn kin(&self, i: usize, groups: &[&[&str]]) -> Vec<usize> {
        let name = self.name(i);
        let mut all = vec![String::new()];
        for part in name.split_inclusive(['.', '/', '>', ':', ' ']) {
            let word = part.trim_end_matches(['.', '/', '>', ':', ' ']);
            let rest = &part[word.len()..];
            let alike: Vec<&str> =
                groups.iter().find(|g| g.contains(&word)).map_or(vec![word], |g| g.to_vec());
            all = all.iter().flat_map(|a| alike.iter().map(move |w| format!("{}{}{}", a, w, rest))).collect();
        }
        let mut out = vec![i];
        for a in &all {
            for n in [a.clone(), format!("look-alike {}", a), format!("forged {}", a)] {
                if let Some(j) = self.names.iter().position(|x| *x == n) {
                    if !out.contains(&j) {
                        out.push(j);
                    }
                }
            }
        }
        out
    }
    /// The call with every account exchanged for its kin, in all combinations;
    /// of the groups as many as keep their number below the cap.
    pub fn mixed(&self, ix: &Ix, groups: &[&[&str]], cap: usize) -> Vec<Ix> {
        let mut g = groups.len();
        let kin = loop {
            let k: Vec<Vec<usize>> = ix.metas.iter().map(|m| self.kin(m.i, &groups[..g])).collect();
            let n = k.iter().fold(1usize, |n, k| n.saturating_mul(k.len()));
            if n <= cap || g == 0 {
                break k;
            }
            g -= 1;
        };
        let mut out = vec![ix.clone()];
        for (p, k) in kin.iter().enumerate() {
            let before = out.len();
            for j in &k[1..] {
                for n in 0..before {
                    let mut x = out[n].clone();
                    x.metas[p].i = *j;
                    out.push(x);
                }
            }
        }
        out
    }
}

/// Accounts by index into the universe.
#[derive(Clone)]
pub struct World(pub Vec<Arc<Acc>>);

impl World {
    pub fn new(n: usize) -> Self {
        let none = AccData::none().arc();
        Self(vec![none; n])
    }
    pub fn set(&mut self, i: usize, a: AccData) {
        self.0[i] = a.arc();
    }
    pub fn get(&self, i: usize) -> &AccData {
        &self.0[i].d
    }
    pub fn exists(&self, i: usize) -> bool {
        self.0[i].lamports > 0
    }
    pub fn hash(&self) -> u128 {
        let mut h = hash::H::new(self.0.len() as u64, 7);
        for a in &self.0 {
            h.u128(a.hash);
        }
        h.finish()
    }
    pub fn same(&self, o: &World) -> bool {
        self.0.len() == o.0.len()
            && self.0.iter().zip(&o.0).all(|(a, b)| {
                Arc::ptr_eq(a, b) || (a.hash == b.hash && a.d == b.d)
            })
    }
    pub fn changed(&self, o: &World) -> Vec<usize> {
        (0..self.0.len())
            .filter(|i| {
                !Arc::ptr_eq(&self.0[*i], &o.0[*i]) && self.0[*i].d != o.0[*i].d
            })
            .collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub i: usize,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Program(String),
    Panic(String),
    Runtime(&'static str),
}

#[derive(Clone)]
struct Pre {
    lamports: u64,
    owner: Pubkey,
    data: Vec<u8>,
}

struct Ctx {
    program: Pubkey,
    flags: HashMap<Pubkey, (bool, bool)>,
    /// state of every account at the last point it was verified
    pre: HashMap<Pubkey, Pre>,
}

thread_local! {
    static SLOT: Cell<u64> = Cell::new(0);
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static RUNTIME_FAIL: Cell<Option<&'static str>> = Cell::new(None);
    static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
}

/// Runs `f` collecting program logs.
pub fn with_logs<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    LOGS.with(|l| *l.borrow_mut() = Some(vec![]));
    let r = f();
    let logs = LOGS.with(|l| l.borrow_mut().take().unwrap_or_default());
    (r, logs)
}

struct Stubs;

fn rt<T>(why: &'static str) -> Result<T, ProgramError> {
    RUNTIME_FAIL.with(|f| f.set(Some(why)));
    Err(ProgramError::Custom(0xdead))
}

fn verify(info: &AccountInfo, pre: &Pre, writable: bool, program: &Pubkey) -> Result<(), &'static str> {
    let lam = **info.lamports.borrow();
    if *info.owner != pre.owner && pre.owner != *program {
        return Err("owner modified");
    }
    if lam != pre.lamports {
        if !writable {
            return Err("readonly lamport change");
        }
        if lam < pre.lamports && pre.owner != *program {
            return Err("external lamport spend");
        }
    }
    let data = info.data.borrow();
    if data[..] != pre.data[..] {
        if !writable {
            return Err("readonly data modified");
        }
        if pre.owner != *program {
            return Err("external data modified");
        }
    }
    Ok(())
}

fn snap(info: &AccountInfo) -> Pre {
    Pre {
        lamports: **info.lamports.borrow(),
        owner: *info.owner,
        data: info.data.borrow().to_vec(),
    }
}

unsafe fn set_owner(info: &AccountInfo, owner: &Pubkey) {
    std::ptr::write_volatile(
        info.owner as *const Pubkey as *mut [u8; 32],
        owner.to_bytes(),
    );
}

unsafe fn set_len(info: &AccountInfo, len: usize) {
    // buffers are allocated with GROW spare zeroed bytes
    let mut d = info.data.borrow_mut();
    let p = d.as_mut_ptr();
    *d = std::slice::from_raw_parts_mut(p, len);
}

fn system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() < 4 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let u = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    let tag = u32::from_le_bytes(data[..4].try_into().unwrap());
    let create = |to: &AccountInfo, space: u64, owner: Pubkey| -> ProgramResult {
        if !to.is_signer || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !to.data_is_empty() || *to.owner != system_program::ID {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        if space as usize > GROW {
            return rt("account too large for the harness");
        }
        unsafe {
            set_len(to, space as usize);
            set_owner(to, &owner);
        }
        Ok(())
    };
    let transfer = |from: &AccountInfo, to: &AccountInfo, lamports: u64| -> ProgramResult {
        if !from.is_signer || !from.is_writable || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != system_program::ID {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < lamports {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() -= lamports;
        **to.lamports.borrow_mut() += lamports;
        Ok(())
    };
    match tag {
        0 => {
            let (lamports, space) = (u(4), u(12));
            let owner = Pubkey::new(&data[20..52]);
            if infos[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            create(&infos[1], space, owner)?;
            transfer(&infos[0], &infos[1], lamports)
        }
        1 => {
            let i = &infos[0];
            if !i.is_signer || *i.owner != system_program::ID {
                return Err(ProgramError::MissingRequiredSignature);
            }
            unsafe { set_owner(i, &Pubkey::new(&data[4..36])) };
            Ok(())
        }
        2 => transfer(&infos[0], &infos[1], u(4)),
        8 => {
            let i = &infos[0];
            if !i.is_signer || !i.data_is_empty() || *i.owner != system_program::ID {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if u(4) as usize > GROW {
                return rt("account too large for the harness");
            }
            unsafe { set_len(i, u(4) as usize) };
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push(m.to_string())
            }
        })
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        let slot = SLOT.with(|s| s.get());
        unsafe {
            *(a as *mut Clock) = Clock { slot, ..Clock::default() };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let (program, flags) = CTX.with(|c| {
            let c = c.borrow();
            let c = c.as_ref().expect("CPI outside of an instruction");
            (c.program, c.flags.clone())
        });
        let pdas: Vec<Pubkey> = seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, &program))
            .collect::<Result<_, _>>()
            .map_err(|_| ProgramError::InvalidSeeds)?;
        // the callee has to be among the caller's accounts
        if !flags.contains_key(&ix.program_id) {
            return rt("callee program account missing");
        }
        // the caller's own modifications must be legal at this point
        CTX.with(|c| -> ProgramResult {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            for i in infos {
                if i.data.try_borrow_mut().is_err() || i.lamports.try_borrow_mut().is_err() {
                    return Err(ProgramError::AccountBorrowFailed);
                }
                let (_, w) = *c.flags.get(i.key).unwrap_or(&(false, false));
                match c.pre.get_mut(i.key) {
                    None => return rt("CPI with unknown account"),
                    Some(p) => {
                        if let Err(e) = verify(i, p, w, &c.program) {
                            return rt(e);
                        }
                    }
                }
            }
            Ok(())
        })?;
        let mut callee = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let Some(info) = infos.iter().find(|i| *i.key == m.pubkey) else {
                return rt("CPI account missing");
            };
            let (s, w) = *flags.get(&m.pubkey).unwrap_or(&(false, false));
            let s = s || pdas.contains(&m.pubkey);
            if m.is_signer && !s {
                return rt("signer privilege escalated");
            }
            if m.is_writable && !w {
                return rt("writable privilege escalated");
            }
            let mut i = info.clone();
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            callee.push(i);
        }
        // same account several times: union of privileges
        for k in 0..callee.len() {
            let key = *callee[k].key;
            callee[k].is_signer = ix.accounts.iter().any(|m| m.pubkey == key && m.is_signer);
            callee[k].is_writable =
                ix.accounts.iter().any(|m| m.pubkey == key && m.is_writable);
        }
        if ix.program_id == spl_token::ID {
            spl_token::processor::Processor::process(&spl_token::ID, &callee, &ix.data)?;
        } else if ix.program_id == system_program::ID {
            system(&callee, &ix.data)?;
        } else if ix.program_id == evil_program() {
            // a hostile program which pretends that all went well
        } else {
            return rt("unknown program invoked");
        }
        // and so must be the callee's
        CTX.with(|c| -> ProgramResult {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            for i in infos {
                let w = ix.accounts.iter().any(|m| m.pubkey == *i.key && m.is_writable);
                if let Err(e) = verify(i, &c.pre[i.key], w, &ix.program_id) {
                    return rt(e);
                }
                c.pre.insert(*i.key, snap(i));
            }
            Ok(())
        })
    }
}

/// Address of an executable account which accepts any CPI and does nothing.
pub fn evil_program() -> Pubkey {
    key("evil program")
}

/// Deterministic address for a label.
pub fn key(label: &str) -> Pubkey {
    use sha2::{Digest, Sha256};
    Pubkey::new(&Sha256::digest(format!("verif key {}", label).as_bytes()))
}

pub fn discriminator(ns: &str, name: &str) -> [u8; 8] {
    use sha2::{Digest, Sha256};
    let h = Sha256::digest(format!("{}:{}", ns, name).as_bytes());
    h[..8].try_into().unwrap()
}

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|p| {
            let m = p.to_string();
            if CTX.with(|c| c.try_borrow().map_or(false, |c| c.is_none())) {
                eprintln!("not the program: {}", m);
            }
            PANIC.with(|x| *x.borrow_mut() = Some(m));
        }));
    });
}

/// Message of the last panic on this thread.
pub fn last_panic() -> Option<String> {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs a single-instruction transaction. `Err`: no effect.
pub fn exec(
    u: &Universe,
    world: &World,
    entry: Entry,
    slot: u64,
    ix: &Ix,
) -> Result<World, Fail> {
    init();
    // unique accounts, with merged privileges
    let mut uniq: Vec<usize> = vec![];
    let mut flag: HashMap<Pubkey, (bool, bool)> = HashMap::new();
    for m in &ix.metas {
        let f = flag.entry(u.keys[m.i]).or_insert((false, false));
        f.0 |= m.s;
        f.1 |= m.w;
        if !uniq.contains(&m.i) {
            uniq.push(m.i);
        }
    }
    struct Buf {
        data: Vec<u8>,
        lamports: u64,
        owner: Box<Pubkey>,
    }
    let mut bufs: Vec<Buf> = uniq
        .iter()
        .map(|i| {
            let a = world.get(*i);
            let cap = if a.data.is_empty() { GROW } else { a.data.len() };
            let mut data = Vec::with_capacity(cap);
            data.extend_from_slice(&a.data);
            if a.data.is_empty() {
                data.resize(GROW, 0);
            }
            Buf { data, lamports: a.lamports, owner: Box::new(a.owner) }
        })
        .collect();
    let mut pre = HashMap::new();
    let mut infos_u: Vec<AccountInfo> = Vec::with_capacity(uniq.len());
    for (i, b) in uniq.iter().zip(bufs.iter_mut()) {
        let a = world.get(*i);
        let k = &u.keys[*i];
        let (s, w) = flag[k];
        pre.insert(
            *k,
            Pre { lamports: a.lamports, owner: a.owner, data: a.data.clone() },
        );
        let slice: &mut [u8] = unsafe {
            std::slice::from_raw_parts_mut(b.data.as_mut_ptr(), a.data.len())
        };
        let owner: &Pubkey = unsafe { &*(&*b.owner as *const Pubkey) };
        infos_u.push(AccountInfo::new(
            k,
            s,
            w,
            &mut b.lamports,
            slice,
            owner,
            a.executable,
            0,
        ));
    }
    let infos: Vec<AccountInfo> = ix
        .metas
        .iter()
        .map(|m| infos_u[uniq.iter().position(|x| *x == m.i).unwrap()].clone())
        .collect();

    SLOT.with(|s| s.set(slot));
    RUNTIME_FAIL.with(|f| f.set(None));
    PANIC.with(|p| *p.borrow_mut() = None);
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx { program: ix.program, flags: flag.clone(), pre })
    });
    let r = catch_unwind(AssertUnwindSafe(|| entry(&ix.program, &infos, &ix.data)));
    let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
    if let Some(why) = RUNTIME_FAIL.with(|f| f.get()) {
        return Err(Fail::Runtime(why));
    }
    match r {
        Err(_) => {
            return Err(Fail::Panic(
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default(),
            ))
        }
        Ok(Err(e)) => return Err(Fail::Program(format!("{:?}", e))),
        Ok(Ok(())) => (),
    }
    let mut before = 0u128;
    let mut after = 0u128;
    for (i, info) in uniq.iter().zip(&infos_u) {
        let (_, w) = flag[info.key];
        if let Err(e) = verify(info, &ctx.pre[info.key], w, &ix.program) {
            return Err(Fail::Runtime(e));
        }
        before += world.get(*i).lamports as u128;
        after += **info.lamports.borrow() as u128;
    }
    if before != after {
        return Err(Fail::Runtime("unbalanced lamports"));
    }
    let mut out = world.clone();
    for (i, info) in uniq.iter().zip(&infos_u) {
        let old = world.get(*i);
        let lamports = **info.lamports.borrow();
        let data = info.data.borrow();
        let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
        if lamports == 0 {
            if world.exists(*i) {
                out.set(*i, AccData::none());
            }
            continue;
        }
        if lamports != old.lamports || owner != old.owner || data[..] != old.data[..] {
            out.set(
                *i,
                AccData {
                    lamports,
                    owner,
                    executable: old.executable,
                    data: data.to_vec(),
                },
            );
        }
    }
    Ok(out)
}

/// Account data of the rent sysvar.
pub fn rent_sysvar() -> AccData {
    let r = Rent::default();
    let mut data = vec![0u8; 17];
    data[..8].copy_from_slice(&r.lamports_per_byte_year.to_le_bytes());
    data[8..16].copy_from_slice(&r.exemption_threshold.to_le_bytes());
    data[16] = r.burn_percent;
    AccData::owned(sysvar::ID, data)
}
