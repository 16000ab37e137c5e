//! Runs instructions one after another and reads accounts.
#![allow(dead_code)]
use crate::abs;
use crate::kit::Kit;
use svm::{tok, AccData, Fail, Ix, World};

/// only here for the kit
pub struct St {
    pub w: World,
}

pub struct Sim {
    pub k: Kit,
    pub w: World,
    pub slot: u64,
}

impl Sim {
    pub fn new(k: Kit) -> Self {
        let w = k.world();
        Sim { k, w, slot: 1 }
    }
    pub fn go(&mut self, ix: &Ix) -> Result<(), Fail> {
        self.w = svm::exec(&self.k.u, &self.w, amm::entry, self.slot, ix)?;
        Ok(())
    }
    pub fn ok(&mut self, what: &str, ix: &Ix) {
        if let Err(e) = self.go(ix) {
            bad(&format!("{} failed: {:?}", what, e));
        }
    }
    pub fn no(&mut self, what: &str, ix: &Ix) {
        if self.go(ix).is_ok() {
            bad(&format!("{} succeeded", what));
        }
    }
    pub fn data(&self, name: &str) -> &AccData {
        self.w.get(self.k.i(name))
    }
    pub fn bal(&self, name: &str) -> u64 {
        tok::amount(self.data(name))
    }
    pub fn supply(&self, mint: &str) -> u64 {
        tok::read_mint(self.data(mint)).map_or(0, |m| m.supply)
    }
    pub fn pool(&self, name: &str) -> abs::Pool {
        abs::pool(self.data(name)).unwrap_or_else(|| bad("no pool"))
    }
    /// Pool `p` of these mints, empty; every user has `rich` of each mint.
    pub fn basic(mints: &[&str], amp: u64, users: &[&str], rich: u64) -> Self {
        let mut k = Kit::new(false);
        for m in mints {
            k.mint(m);
        }
        k.pool("p", mints);
        k.user("admin");
        for u in users {
            k.user(u);
            for m in mints {
                k.wallet(u, m, rich);
            }
            k.wallet(u, "p.lp", 0);
        }
        let mut s = Sim::new(k);
        let ix = s.k.create_toll("deployer", "tollkeeper");
        s.ok("creating the toll", &ix);
        let ix = s.k.create_settings("deployer", "discounter");
        s.ok("creating the settings", &ix);
        let ix = s.k.create_pool("admin", "p", amp);
        s.ok("creating the pool", &ix);
        s
    }
}

pub fn bad(why: &str) -> ! {
    println!("BROKEN: {}", why);
    std::process::exit(1)
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, is: T, should: T) {
    if is != should {
        bad(&format!("{}: {:?} instead of {:?}", what, is, should));
    }
}
