//! Runs instructions one after another and reads accounts.
#![allow(dead_code)]
use crate::kit::Kit;
use svm::solana_program::pubkey::Pubkey;
use svm::{tok, AccData, Fail, Ix, World};

pub struct Sim {
    pub k: Kit,
    pub w: World,
    pub slot: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Farmer {
    pub authority: Pubkey,
    pub farm: Pubkey,
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    pub next: u64,
    d: Vec<u8>,
}

impl Sim {
    pub fn new(k: Kit) -> Self {
        let w = k.world();
        Sim { k, w, slot: 1 }
    }
    pub fn go(&mut self, ix: &Ix) -> Result<(), Fail> {
        self.w = svm::exec(&self.k.u, &self.w, farming::entry, self.slot, ix)?;
        Ok(())
    }
    pub fn ok(&mut self, what: &str, ix: &Ix) {
        if let Err(e) = self.go(ix) {
            bad(&format!("{} failed: {:?}", what, e));
        }
    }
    pub fn no(&mut self, what: &str, ix: &Ix) {
        if self.go(ix).is_ok() {
            bad(&format!("{} succeeded", what));
        }
    }
    pub fn data(&self, name: &str) -> &AccData {
        self.w.get(self.k.i(name))
    }
    pub fn bal(&self, name: &str) -> u64 {
        tok::amount(self.data(name))
    }
    pub fn farmer(&self, user: &str, farm: &str) -> Farmer {
        let d = self.data(&format!("{}:{}", farm, user)).data.clone();
        if d.len() < 104 {
            bad("no farmer");
        }
        Farmer {
            authority: Pubkey::new(&d[8..40]),
            farm: Pubkey::new(&d[40..72]),
            staked: u64at(&d, 72),
            vested: u64at(&d, 80),
            vested_at: u64at(&d, 88),
            next: u64at(&d, 96),
            d,
        }
    }
    /// accrued harvest
    pub fn due(&self, user: &str, farm: &str, mint: &str) -> u64 {
        let (f, m) = (self.farmer(user, farm), self.k.k(mint));
        (0..10)
            .map(|i| 104 + 40 * i)
            .filter(|o| f.d[*o..*o + 32] == *m.as_ref())
            .map(|o| u64at(&f.d, o + 32))
            .sum()
    }
    pub fn tracks(&self, user: &str, farm: &str, mint: &str) -> bool {
        let (f, m) = (self.farmer(user, farm), self.k.k(mint));
        (0..10).map(|i| 104 + 40 * i).any(|o| f.d[o..o + 32] == *m.as_ref())
    }
    /// (tokens per slot, starts, ends), newest first
    pub fn periods(&self, farm: &str, mint: &str) -> Vec<(u64, u64, u64)> {
        let (d, m) = (&self.data(farm).data, self.k.k(mint));
        for i in 0..10 {
            let o = 104 + i * 304;
            if d[o..o + 32] == *m.as_ref() {
                return (0..10)
                    .map(|j| o + 64 + j * 24)
                    .map(|o| (u64at(d, o), u64at(d, o + 8), u64at(d, o + 16)))
                    .filter(|p| *p != (0, 0, 0))
                    .collect();
            }
        }
        vec![]
    }
    pub fn admin(&self, farm: &str) -> Pubkey {
        Pubkey::new(&self.data(farm).data[8..40])
    }
    /// Farm `f` of stake mint S with harvest mint H, administered by `admin`,
    /// who has tokens of both; `users` have 1000 of S each and farmers.
    pub fn basic(users: &[&str]) -> Self {
        let mut k = Kit::new(false);
        k.mint("S");
        k.mint("H");
        k.farm("f");
        k.user("admin");
        k.wallet("admin", "S", 1_000_000);
        k.wallet("admin", "H", 1_000_000);
        for u in users {
            k.user(u);
            k.wallet(u, "S", 1000);
            k.wallet(u, "H", 0);
        }
        let mut s = Sim::new(k);
        s.open("f", "S", &["H"], users);
        s
    }
    pub fn open(&mut self, farm: &str, stake: &str, harvests: &[&str], users: &[&str]) {
        let ix = self.k.create_farm("admin", farm, stake);
        self.ok("creating a farm", &ix);
        let ix = self.k.window("admin", farm, 1);
        self.ok("setting the window", &ix);
        for h in harvests {
            let ix = self.k.add_harvest("admin", farm, h);
            self.ok("adding a harvest mint", &ix);
        }
        for u in users {
            let ix = self.k.create_farmer(u, u, farm);
            self.ok("creating a farmer", &ix);
        }
    }
}

fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

pub fn bad(why: &str) -> ! {
    println!("BROKEN: {}", why);
    std::process::exit(1)
}
#[allow(dead_code)]
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, is: T, should: T) {
    if is != should {
        bad(&format!("{}: {:?} instead of {:?}", what, is, should));
    }
}
