//! Abstract views of the accounts of the farming program, decoded from bytes.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use svm::solana_program::pubkey::Pubkey;
use svm::{Acc, AccData};

pub const RING: usize = 1000;
pub const MINTS: usize = 10;
pub const PERIODS: usize = 10;
pub const FARM_LEN: usize =
    8 + 96 + MINTS * (64 + PERIODS * 24) + 8 + RING * 16 + 8;
pub const FARMER_LEN: usize = 8 + 64 + 32 + MINTS * 40;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Period {
    pub tps: u64,
    pub start: u64,
    pub end: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Snap {
    pub staked: u64,
    pub at: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Harvest {
    pub mint: Pubkey,
    pub vault: Pubkey,
    /// newest first
    pub periods: Vec<Period>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Farm {
    pub admin: Pubkey,
    pub stake_mint: Pubkey,
    pub stake_vault: Pubkey,
    /// sorted by mint
    pub harvests: Vec<Harvest>,
    /// oldest first
    pub log: Arc<Vec<Snap>>,
    pub window: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Farmer {
    pub authority: Pubkey,
    pub farm: Pubkey,
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    pub next: u64,
    /// sorted by mint
    pub harvests: Vec<(Pubkey, u64)>,
}

impl Farm {
    pub fn harvest(&self, mint: &Pubkey) -> Option<&Harvest> {
        self.harvests.iter().find(|h| h.mint == *mint)
    }
}

fn pk(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}
fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

pub fn farm_disc() -> [u8; 8] {
    static D: std::sync::OnceLock<[u8; 8]> = std::sync::OnceLock::new();
    *D.get_or_init(|| svm::discriminator("account", "Farm"))
}
pub fn farmer_disc() -> [u8; 8] {
    static D: std::sync::OnceLock<[u8; 8]> = std::sync::OnceLock::new();
    *D.get_or_init(|| svm::discriminator("account", "Farmer"))
}
pub fn white_disc() -> [u8; 8] {
    static D: std::sync::OnceLock<[u8; 8]> = std::sync::OnceLock::new();
    *D.get_or_init(|| svm::discriminator("account", "WhitelistCompounding"))
}

fn parse_farm(d: &[u8]) -> Result<Farm, String> {
    if d.len() != FARM_LEN {
        return Err(format!("farm account of {} bytes", d.len()));
    }
    let mut harvests = vec![];
    for i in 0..MINTS {
        let o = 8 + 96 + i * (64 + PERIODS * 24);
        let mint = pk(d, o);
        let vault = pk(d, o + 32);
        if mint == Pubkey::default() {
            continue;
        }
        let mut periods = vec![];
        for j in 0..PERIODS {
            let o = o + 64 + j * 24;
            let p = Period {
                tps: u64at(d, o),
                start: u64at(d, o + 8),
                end: u64at(d, o + 16),
            };
            if p != Period::default() {
                periods.push(p);
            }
        }
        harvests.push(Harvest { mint, vault, periods });
    }
    harvests.sort_by_key(|h| h.mint);
    for w in harvests.windows(2) {
        if w[0].mint == w[1].mint {
            return Err("a harvest mint is listed twice".into());
        }
    }
    let o = 8 + 96 + MINTS * (64 + PERIODS * 24);
    let tip = u64at(d, o) as usize;
    if tip >= RING {
        return Err(format!("ring buffer tip {}", tip));
    }
    let mut log = vec![];
    for k in 1..=RING {
        let o = o + 8 + ((tip + k) % RING) * 16;
        let s = Snap { staked: u64at(d, o), at: u64at(d, o + 8) };
        if s.at > 0 {
            log.push(s);
        } else if s.staked > 0 {
            return Err("a snapshot without a slot".into());
        }
    }
    Ok(Farm {
        admin: pk(d, 8),
        stake_mint: pk(d, 40),
        stake_vault: pk(d, 72),
        harvests,
        log: Arc::new(log),
        window: u64at(d, o + 8 + RING * 16),
    })
}

type Cache = Mutex<HashMap<u128, Arc<Result<Farm, String>>>>;
static CACHE: std::sync::OnceLock<Vec<Cache>> = std::sync::OnceLock::new();

fn is_prog(a: &AccData, disc: [u8; 8]) -> bool {
    a.owner == farming::ID && a.data.len() >= 8 && a.data[..8] == disc
}

/// `None`: not a farm account at all.
pub fn farm(a: &Acc) -> Option<Arc<Result<Farm, String>>> {
    if !is_prog(&a.d, farm_disc()) || a.d.data.len() < FARM_LEN {
        return None;
    }
    let cache = CACHE.get_or_init(|| (0..64).map(|_| Mutex::default()).collect());
    let c = &cache[(a.hash % 64) as usize];
    if let Some(f) = c.lock().unwrap().get(&a.hash) {
        return Some(f.clone());
    }
    let f = Arc::new(parse_farm(&a.d.data));
    let mut c = c.lock().unwrap();
    if c.len() > 4000 {
        c.clear();
    }
    c.insert(a.hash, f.clone());
    Some(f)
}

pub fn is_farmer(a: &AccData) -> bool {
    is_prog(a, farmer_disc()) && a.data.len() >= FARMER_LEN
}

pub fn farmer(a: &AccData) -> Option<Result<Farmer, String>> {
    if !is_farmer(a) {
        return None;
    }
    let d = &a.data;
    if d.len() != FARMER_LEN {
        return Some(Err(format!("farmer account of {} bytes", d.len())));
    }
    let mut harvests = vec![];
    for i in 0..MINTS {
        let o = 8 + 64 + 32 + i * 40;
        let (mint, tokens) = (pk(d, o), u64at(d, o + 32));
        if mint == Pubkey::default() {
            if tokens != 0 {
                return Some(Err("harvest of no mint".into()));
            }
            continue;
        }
        harvests.push((mint, tokens));
    }
    harvests.sort();
    for w in harvests.windows(2) {
        if w[0].0 == w[1].0 {
            return Some(Err("a harvest mint is listed twice".into()));
        }
    }
    Some(Ok(Farmer {
        authority: pk(d, 8),
        farm: pk(d, 40),
        staked: u64at(d, 72),
        vested: u64at(d, 80),
        vested_at: u64at(d, 88),
        next: u64at(d, 96),
        harvests,
    }))
}

pub fn is_whitelist(a: &AccData) -> bool {
    is_prog(a, white_disc())
}
