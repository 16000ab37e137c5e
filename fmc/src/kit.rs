//! Builds worlds (accounts) and instructions.
use crate::abs;
use crate::spec;
use std::collections::HashMap;
use svm::solana_program::{pubkey::Pubkey, system_program, sysvar};
use svm::{key, spl_token, tok, AccData, Ix, Meta, Universe, World};

#[derive(Clone, Default)]
pub struct Kit {
    pub u: Universe,
    pub a: Vec<AccData>,
    pub names: HashMap<String, usize>,
    pub farms: Vec<String>,
    pub mints: Vec<String>,
    pub users: Vec<String>,
    /// addresses are chosen such that bump seeds are 255 (fast)
    pub grind: bool,
}

fn bump(seeds: &[&[u8]]) -> u8 {
    Pubkey::find_program_address(seeds, &farming::ID).1
}

impl Kit {
    pub fn new(grind: bool) -> Self {
        let mut k = Kit { grind, ..Kit::default() };
        k.put("token", spl_token::ID, AccData::program());
        k.put("system", system_program::ID, AccData::program());
        k.put("rent", sysvar::rent::ID, svm::rent_sysvar());
        k
    }
    pub fn put(&mut self, name: &str, k: Pubkey, a: AccData) -> usize {
        let i = self.u.add(name, k);
        if i == self.a.len() {
            self.a.push(a);
        } else {
            self.a[i] = a;
        }
        self.names.insert(name.to_string(), i);
        i
    }
    pub fn i(&self, name: &str) -> usize {
        *self.names.get(name).unwrap_or_else(|| panic!("no account {}", name))
    }
    pub fn k(&self, name: &str) -> Pubkey {
        self.u.keys[self.i(name)]
    }
    fn pick(&self, label: &str, ok: impl Fn(&Pubkey) -> bool) -> Pubkey {
        if !self.grind {
            return key(label);
        }
        (0..)
            .map(|n| key(&format!("{}#{}", label, n)))
            .find(|k| ok(k))
            .unwrap()
    }
    /// An address for a farm (blank account) and what belongs to it.
    pub fn farm(&mut self, name: &str) {
        let k = self.pick(&format!("farm {}", name), |k| {
            bump(&[b"signer", k.as_ref()]) == 255 && bump(&[b"stake_vault", k.as_ref()]) == 255
        });
        self.put(name, k, AccData::owned(farming::ID, vec![0; abs::FARM_LEN]));
        self.put(&format!("{}.signer", name), spec::signer_pda(&k), AccData::none());
        self.put(&format!("{}.vault", name), spec::stake_vault(&k), AccData::none());
        self.farms.push(name.into());
        for m in self.mints.clone() {
            self.vault(name, &m);
        }
        for m in self.users.clone() {
            self.farmer(name, &m);
        }
        for f in self.farms.clone() {
            for (a, b) in [(name, f.as_str()), (f.as_str(), name)] {
                let p = spec::whitelist(&self.k(a), &self.k(b));
                self.put(&format!("{}>{}", a, b), p, AccData::none());
            }
        }
    }
    fn vault(&mut self, farm: &str, mint: &str) {
        let p = spec::harvest_vault(&self.k(farm), &self.k(mint));
        self.put(&format!("{}.{}", farm, mint), p, AccData::none());
    }
    fn farmer(&mut self, farm: &str, user: &str) {
        let p = spec::farmer_pda(&self.k(farm), &self.k(user));
        self.put(&format!("{}:{}", farm, user), p, AccData::none());
    }
    pub fn mint(&mut self, name: &str) {
        let fs: Vec<Pubkey> = self.farms.iter().map(|f| self.k(f)).collect();
        let k = self.pick(&format!("mint {}", name), |k| {
            fs.iter().all(|f| bump(&[b"harvest_vault", f.as_ref(), k.as_ref()]) == 255)
        });
        let auth = key("mint authority");
        self.put(name, k, tok::mint(Some(auth), None, u64::MAX));
        self.mints.push(name.into());
        for f in self.farms.clone() {
            self.vault(&f, name);
        }
    }
    pub fn user(&mut self, name: &str) {
        let fs: Vec<Pubkey> = self.farms.iter().map(|f| self.k(f)).collect();
        let k = self.pick(&format!("user {}", name), |k| {
            fs.iter().all(|f| bump(&[b"farmer", f.as_ref(), k.as_ref()]) == 255)
        });
        self.put(name, k, AccData::wallet(1_000_000_000_000));
        self.users.push(name.into());
        for f in self.farms.clone() {
            self.farmer(&f, name);
        }
    }
    /// token account of a user
    pub fn wallet(&mut self, user: &str, mint: &str, amount: u64) {
        let n = format!("{}/{}", user, mint);
        let a = tok::account(self.k(mint), self.k(user), amount);
        self.put(&n, key(&format!("wallet {}", n)), a);
    }
    pub fn world(&self) -> World {
        let mut w = World::new(self.a.len());
        for (i, a) in self.a.iter().enumerate() {
            w.set(i, a.clone());
        }
        w
    }

    // ------------------------------------------------------- instructions

    pub fn ix(&self, ep: &str, metas: &[(&str, &str)], args: &[u64]) -> Ix {
        self.ix_args(ep, metas, None, args)
    }
    fn ix_args(&self, ep: &str, metas: &[(&str, &str)], mint: Option<Pubkey>, args: &[u64]) -> Ix {
        let mut data = spec::disc(ep).to_vec();
        if let Some(m) = mint {
            data.extend_from_slice(m.as_ref());
        }
        for a in args {
            data.extend_from_slice(&a.to_le_bytes());
        }
        Ix {
            program: farming::ID,
            metas: metas
                .iter()
                .map(|(n, f)| Meta { i: self.i(n), s: f.contains('s'), w: f.contains('w') })
                .collect(),
            data,
        }
    }

    pub fn create_farm(&self, admin: &str, farm: &str, mint: &str) -> Ix {
        let (s, v) = (format!("{}.signer", farm), format!("{}.vault", farm));
        self.ix(
            "create_farm",
            &[(admin, "sw"), (farm, "w"), (&s, "w"), (mint, ""), (&v, "w"), ("token", ""), ("system", ""), ("rent", "")],
            &[],
        )
    }
    pub fn add_harvest(&self, admin: &str, farm: &str, mint: &str) -> Ix {
        let (s, v) = (format!("{}.signer", farm), format!("{}.{}", farm, mint));
        self.ix(
            "add_harvest",
            &[(admin, "sw"), (farm, "w"), (&s, ""), (mint, ""), (&v, "w"), ("token", ""), ("system", ""), ("rent", "")],
            &[],
        )
    }
    pub fn remove_harvest(&self, admin: &str, farm: &str, mint: &str) -> Ix {
        let (s, v) = (format!("{}.signer", farm), format!("{}.{}", farm, mint));
        self.ix_args(
            "remove_harvest",
            &[(admin, "sw"), (farm, "w"), (&s, ""), (&v, "w"), ("token", "")],
            Some(self.k(mint)),
            &[],
        )
    }
    pub fn set_owner(&self, admin: &str, new: &str, farm: &str) -> Ix {
        self.ix("set_farm_owner", &[(admin, "s"), (new, "s"), (farm, "w")], &[])
    }
    pub fn new_period(&self, admin: &str, farm: &str, mint: &str, start: u64, len: u64, tps: u64) -> Ix {
        self.new_period_w(admin, &format!("{}/{}", admin, mint), farm, mint, start, len, tps)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn new_period_w(&self, admin: &str, wallet: &str, farm: &str, mint: &str, start: u64, len: u64, tps: u64) -> Ix {
        let (s, v) = (format!("{}.signer", farm), format!("{}.{}", farm, mint));
        self.ix_args(
            "new_harvest_period",
            &[(admin, "s"), (farm, "w"), (wallet, "w"), (&v, "w"), (&s, ""), ("token", "")],
            Some(self.k(mint)),
            &[start, len, tps],
        )
    }
    pub fn snapshot(&self, farm: &str) -> Ix {
        let v = format!("{}.vault", farm);
        self.ix("take_snapshot", &[(farm, "w"), (&v, "")], &[])
    }
    pub fn window(&self, admin: &str, farm: &str, n: u64) -> Ix {
        self.ix("set_min_snapshot_window", &[(admin, "s"), (farm, "w")], &[n])
    }
    pub fn create_farmer(&self, payer: &str, user: &str, farm: &str) -> Ix {
        let f = format!("{}:{}", farm, user);
        self.ix("create_farmer", &[(payer, "sw"), (user, ""), (&f, "w"), (farm, ""), ("system", "")], &[])
    }
    pub fn close_farmer(&self, user: &str, farm: &str) -> Ix {
        let f = format!("{}:{}", farm, user);
        self.ix("close_farmer", &[(user, "sw"), (&f, "w")], &[])
    }
    pub fn start(&self, payer: &str, user: &str, farm: &str, mint: &str, n: u64) -> Ix {
        let f = format!("{}:{}", farm, user);
        let (w, v) = (format!("{}/{}", payer, mint), format!("{}.vault", farm));
        self.ix(
            "start_farming",
            &[(payer, "s"), (&f, "w"), (&w, "w"), (farm, ""), (&v, "w"), ("token", "")],
            &[n],
        )
    }
    pub fn stop(&self, user: &str, farm: &str, mint: &str, n: u64) -> Ix {
        self.stop_to(user, farm, &format!("{}/{}", user, mint), n)
    }
    pub fn stop_to(&self, user: &str, farm: &str, wallet: &str, n: u64) -> Ix {
        let f = format!("{}:{}", farm, user);
        let (s, v) = (format!("{}.signer", farm), format!("{}.vault", farm));
        self.ix(
            "stop_farming",
            &[(user, "s"), (&f, "w"), (wallet, "w"), (farm, ""), (&s, ""), (&v, "w"), ("token", "")],
            &[n],
        )
    }
    pub fn settle(&self, user: &str, farm: &str) -> Ix {
        let f = format!("{}:{}", farm, user);
        self.ix("update_eligible_harvest", &[(farm, ""), (&f, "w")], &[])
    }
    pub fn settle_until(&self, user: &str, farm: &str, until: u64) -> Ix {
        let f = format!("{}:{}", farm, user);
        self.ix("update_eligible_harvest_until", &[(farm, ""), (&f, "w")], &[until])
    }
    pub fn claim(&self, user: &str, farm: &str, mints: &[&str]) -> Ix {
        let pairs: Vec<(String, String)> = mints
            .iter()
            .map(|m| (format!("{}.{}", farm, m), format!("{}/{}", user, m)))
            .collect();
        self.claim_pairs(user, farm, &pairs)
    }
    pub fn claim_pairs(&self, user: &str, farm: &str, pairs: &[(String, String)]) -> Ix {
        let f = format!("{}:{}", farm, user);
        let s = format!("{}.signer", farm);
        let mut m: Vec<(&str, &str)> = vec![(user, "s"), (&f, "w"), (&s, ""), ("token", "")];
        for (v, w) in pairs {
            m.push((v, "w"));
            m.push((w, "w"));
        }
        self.ix("claim_eligible_harvest", &m, &[])
    }
    pub fn whitelist(&self, admin: &str, src: &str, dst: &str) -> Ix {
        let p = format!("{}>{}", src, dst);
        self.ix(
            "whitelist_farm_for_compounding",
            &[(admin, "sw"), (src, ""), (dst, ""), (&p, "w"), ("system", "")],
            &[],
        )
    }
    pub fn dewhitelist(&self, admin: &str, src: &str, dst: &str) -> Ix {
        let p = format!("{}>{}", src, dst);
        self.ix(
            "dewhitelist_farm_for_compounding",
            &[(admin, "sw"), (src, ""), (dst, ""), (&p, "w"), ("system", "")],
            &[],
        )
    }
    pub fn compound_same(&self, user: &str, farm: &str, mint: &str) -> Ix {
        let (s, p) = (format!("{}.signer", farm), format!("{}>{}", farm, farm));
        let (v, h) = (format!("{}.vault", farm), format!("{}.{}", farm, mint));
        let f = format!("{}:{}", farm, user);
        self.ix(
            "compound_same_farm",
            &[(farm, ""), (&s, ""), (&p, ""), (&v, "w"), (&h, "w"), (&f, "w"), ("token", "")],
            &[],
        )
    }
    pub fn compound_across(&self, user: &str, src: &str, dst: &str, mint: &str) -> Ix {
        let (s, p) = (format!("{}.signer", src), format!("{}>{}", src, dst));
        let (v, h) = (format!("{}.vault", dst), format!("{}.{}", src, mint));
        let (f, g) = (format!("{}:{}", src, user), format!("{}:{}", dst, user));
        self.ix(
            "compound_across_farms",
            &[(src, ""), (dst, ""), (&s, ""), (&p, ""), (&v, "w"), (&h, "w"), (&f, "w"), (&g, "w"), ("token", "")],
            &[],
        )
    }
    pub fn airdrop(&self, payer: &str, user: &str, farm: &str, mint: &str, n: u64) -> Ix {
        let f = format!("{}:{}", farm, user);
        let (w, v) = (format!("{}/{}", payer, mint), format!("{}.{}", farm, mint));
        self.ix(
            "airdrop",
            &[(payer, "s"), (&f, "w"), (&w, "w"), (&v, "w"), ("token", "")],
            &[n],
        )
    }
}
