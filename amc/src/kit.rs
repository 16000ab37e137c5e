//! Builds worlds (accounts) and instructions.
use crate::abs::{self, Curve};
use crate::judge::St;
use crate::spec;
use std::collections::HashMap;
use svm::solana_program::{bpf_loader_upgradeable, pubkey::Pubkey, system_program};
use svm::{key, spl_token, tok, AccData, Ix, Meta, Universe, World};

#[derive(Clone, Default)]
pub struct Kit {
    pub u: Universe,
    pub a: Vec<AccData>,
    pub names: HashMap<String, usize>,
    pub pools: Vec<(String, Vec<String>)>,
    pub users: Vec<String>,
    /// addresses are chosen such that bump seeds are 255 (fast)
    pub grind: bool,
}

fn bump(seeds: &[&[u8]]) -> u8 {
    Pubkey::find_program_address(seeds, &amm::ID).1
}

fn program(data_key: &Pubkey) -> AccData {
    let mut d = vec![2, 0, 0, 0];
    d.extend_from_slice(data_key.as_ref());
    AccData { lamports: 1, owner: bpf_loader_upgradeable::ID, executable: true, data: d }
}

pub fn program_data(authority: Option<Pubkey>) -> AccData {
    let mut d = vec![3, 0, 0, 0];
    d.extend_from_slice(&7u64.to_le_bytes());
    match authority {
        Some(k) => {
            d.push(1);
            d.extend_from_slice(k.as_ref());
        }
        None => d.resize(45, 0),
    }
    d.extend_from_slice(b"elf");
    AccData { lamports: 1, owner: bpf_loader_upgradeable::ID, executable: false, data: d }
}

impl Kit {
    /// `deployer` may upgrade the program
    pub fn new(grind: bool) -> Self {
        let mut k = Kit { grind, ..Kit::default() };
        k.put("token", spl_token::ID, AccData::program());
        k.put("system", system_program::ID, AccData::program());
        let dk = key("amm program data");
        k.put("amm", amm::ID, program(&dk));
        k.put("toll", spec::toll_pda(), AccData::none());
        k.put("settings", spec::settings_pda(), AccData::none());
        for u in ["deployer", "tollkeeper", "discounter"] {
            k.user(u);
        }
        let dep = k.k("deployer");
        k.put("amm data", dk, program_data(Some(dep)));
        k
    }
    pub fn put(&mut self, name: &str, k: Pubkey, a: AccData) -> usize {
        let i = self.u.add(name, k);
        if i == self.a.len() {
            self.a.push(a);
        } else {
            self.a[i] = a;
        }
        self.names.insert(name.to_string(), i);
        i
    }
    pub fn i(&self, name: &str) -> usize {
        *self.names.get(name).unwrap_or_else(|| panic!("no account {}", name))
    }
    pub fn k(&self, name: &str) -> Pubkey {
        self.u.keys[self.i(name)]
    }
    fn pick(&self, label: &str, seed: &[u8]) -> Pubkey {
        if !self.grind {
            return key(label);
        }
        (0..)
            .map(|n| key(&format!("{}#{}", label, n)))
            .find(|k| bump(&[seed, k.as_ref()]) == 255)
            .unwrap()
    }
    pub fn user(&mut self, name: &str) {
        let k = self.pick(&format!("user {}", name), b"discount");
        self.put(name, k, AccData::wallet(1_000_000_000_000));
        self.put(&format!("discount {}", name), spec::discount_pda(&k), AccData::none());
        self.users.push(name.into());
    }
    pub fn mint(&mut self, name: &str) {
        let auth = key("mint authority");
        self.put(name, key(&format!("mint {}", name)), tok::mint(Some(auth), None, u64::MAX));
    }
    /// token account of a user
    pub fn wallet(&mut self, user: &str, mint: &str, amount: u64) {
        let n = format!("{}/{}", user, mint);
        let a = tok::account(self.k(mint), self.k(user), amount);
        self.put(&n, key(&format!("wallet {}", n)), a);
    }
    /// What is needed to create a pool of these mints.
    pub fn pool(&mut self, name: &str, mints: &[&str]) {
        let k = self.pick(&format!("pool {}", name), b"signer");
        let s = spec::signer_pda(&k);
        self.put(name, k, AccData::none());
        self.put(&format!("{}.signer", name), s, AccData::none());
        let lp = format!("{}.lp", name);
        self.put(&lp, key(&format!("LP mint of {}", name)), tok::mint(Some(s), None, 0));
        let a = tok::account(self.k(&lp), self.k("tollkeeper"), 0);
        let t = self.put(&format!("{}.toll", name), key(&format!("toll wallet of {}", name)), a);
        self.names.insert(format!("tollkeeper/{}", lp), t);
        for m in mints {
            let v = format!("{}.{}", name, m);
            self.put(&v, key(&format!("vault {}", v)), tok::account(self.k(m), s, 0));
        }
        self.pools.push((name.into(), mints.iter().map(|m| m.to_string()).collect()));
    }
    pub fn world(&self) -> World {
        let mut w = World::new(self.a.len());
        for (i, a) in self.a.iter().enumerate() {
            w.set(i, a.clone());
        }
        w
    }
    pub fn mints(&self, pool: &str) -> Vec<String> {
        self.pools.iter().find(|p| p.0 == pool).unwrap().1.clone()
    }

    // ------------------------------------------------------- instructions

    pub fn ix(&self, ep: &str, metas: &[(&str, &str)], args: Vec<u8>) -> Ix {
        let mut data = spec::disc(ep).to_vec();
        data.extend(args);
        Ix {
            program: amm::ID,
            metas: metas
                .iter()
                .map(|(n, f)| Meta { i: self.i(n), s: f.contains('s'), w: f.contains('w') })
                .collect(),
            data,
        }
    }
    pub fn words(v: &[u64]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn create_toll(&self, by: &str, authority: &str) -> Ix {
        self.ix(
            "create_program_toll",
            &[(by, "sw"), ("amm", ""), ("amm data", ""), (authority, ""), ("toll", "w"), ("system", "")],
            vec![],
        )
    }
    pub fn create_settings(&self, by: &str, authority: &str) -> Ix {
        self.ix(
            "create_discount_settings",
            &[(by, "sw"), ("amm", ""), ("amm data", ""), (authority, ""), ("settings", "w"), ("system", "")],
            vec![],
        )
    }
    pub fn put_discount(&self, by: &str, user: &str, amount: u64, until: u64) -> Ix {
        let mut d = self.k(user).to_bytes().to_vec();
        d.extend(Self::words(&[amount, until]));
        let pda = format!("discount {}", user);
        self.ix("put_discount", &[(by, "sw"), (&pda, "w"), ("settings", ""), ("system", "")], d)
    }
    pub fn set_fee(&self, by: &str, pool: &str, fee: u64) -> Ix {
        self.ix("set_pool_swap_fee", &[(by, "s"), (pool, "w")], Self::words(&[fee]))
    }
    pub fn create_pool(&self, admin: &str, pool: &str, amp: u64) -> Ix {
        let (s, t, lp) = (format!("{}.signer", pool), format!("{}.toll", pool), format!("{}.lp", pool));
        let vs: Vec<String> = self.mints(pool).iter().map(|m| format!("{}.{}", pool, m)).collect();
        let mut m: Vec<(&str, &str)> = vec![
            (admin, "sw"),
            (pool, "sw"),
            (&s, ""),
            ("toll", ""),
            (&t, ""),
            (&lp, ""),
            ("token", ""),
            ("system", ""),
        ];
        m.extend(vs.iter().map(|v| (v.as_str(), "")));
        self.ix("create_pool", &m, Self::words(&[amp]))
    }
    fn limits(&self, pool: &str, v: &[u64]) -> Vec<u8> {
        let ms = self.mints(pool);
        let mut d = (v.len() as u32).to_le_bytes().to_vec();
        for (m, x) in ms.iter().zip(v) {
            d.extend_from_slice(self.k(m).as_ref());
            d.extend_from_slice(&x.to_le_bytes());
        }
        d
    }
    fn liquidity(&self, ep: &str, user: &str, pool: &str, args: Vec<u8>) -> Ix {
        let (s, lp, lw) = (format!("{}.signer", pool), format!("{}.lp", pool), format!("{}/{}.lp", user, pool));
        let ms = self.mints(pool);
        let vs: Vec<(String, String)> =
            ms.iter().map(|m| (format!("{}.{}", pool, m), format!("{}/{}", user, m))).collect();
        let mut m: Vec<(&str, &str)> =
            vec![(user, "s"), (pool, "w"), (&s, ""), (&lp, "w"), (&lw, "w"), ("token", "")];
        for (v, w) in &vs {
            m.push((v, "w"));
            m.push((w, "w"));
        }
        self.ix(ep, &m, args)
    }
    pub fn deposit(&self, user: &str, pool: &str, max: &[u64]) -> Ix {
        self.liquidity("deposit_liquidity", user, pool, self.limits(pool, max))
    }
    pub fn redeem(&self, user: &str, pool: &str, lp: u64, min: &[u64]) -> Ix {
        let mut d = lp.to_le_bytes().to_vec();
        d.extend(self.limits(pool, min));
        self.liquidity("redeem_liquidity", user, pool, d)
    }
    pub fn swap(&self, user: &str, pool: &str, sell: &str, buy: &str, n: u64, min: u64) -> Ix {
        let names = [
            (user.to_string(), "s"),
            (format!("discount {}", user), ""),
            (pool.to_string(), "w"),
            (format!("{}.signer", pool), ""),
            (format!("{}/{}", user, sell), "w"),
            (format!("{}/{}", user, buy), "w"),
            (format!("{}.{}", pool, sell), "w"),
            (format!("{}.{}", pool, buy), "w"),
            (format!("{}.lp", pool), "w"),
            (format!("{}.toll", pool), "w"),
            ("token".to_string(), ""),
        ];
        let m: Vec<(&str, &str)> = names.iter().map(|(n, f)| (n.as_str(), *f)).collect();
        self.ix("swap", &m, Self::words(&[n, min]))
    }

    pub fn is_vault(&self, i: usize) -> bool {
        self.pools.iter().any(|(p, ms)| ms.iter().any(|m| self.i(&format!("{}.{}", p, m)) == i))
    }

    // ------------------------------------------------------------- states

    /// Overwrites reserves (and vaults), LP supply (all of it `holder`'s) and fee.
    pub fn shape(&self, st: &mut St, pool: &str, x: Option<&[u64]>, lp: Option<(&str, u64)>, fee: Option<u64>) {
        let i = self.i(pool);
        let Some(mut p) = abs::pool(st.w.get(i)) else { return };
        if let Some(x) = x {
            for (k, n) in x.iter().enumerate() {
                p.reserves[k].tokens = *n;
                if let Some(v) = self.u.find(&p.reserves[k].vault) {
                    let a = tok::with_amount(st.w.get(v), *n);
                    st.w.set(v, a);
                }
            }
        }
        if let Some(f) = fee {
            p.fee = f;
        }
        if let Some((holder, n)) = lp {
            let m = self.i(&format!("{}.lp", pool));
            let mut a = st.w.get(m).clone();
            let mut mint = tok::read_mint(&a).unwrap();
            mint.supply = n;
            use svm::solana_program::program_pack::Pack;
            mint.pack_into_slice(&mut a.data);
            st.w.set(m, a);
            let w = self.i(&format!("{}/{}.lp", holder, pool));
            let a = tok::with_amount(st.w.get(w), n);
            st.w.set(w, a);
        }
        let a = abs::write_pool(st.w.get(i), &p);
        st.w.set(i, a);
    }
    /// Turns the curve of a pool into another (stable: without invariant).
    pub fn curve(&self, st: &mut St, pool: &str, amp: u64) {
        let i = self.i(pool);
        let Some(mut p) = abs::pool(st.w.get(i)) else { return };
        p.curve = match amp {
            0 => Curve::ConstProd,
            amp => Curve::Stable { amp, d: [0; 3] },
        };
        let a = abs::write_pool(st.w.get(i), &p);
        st.w.set(i, a);
    }
    pub fn discount(&self, st: &mut St, user: &str, amount: u64, until: u64) {
        let mut d = abs::disc(abs::DISCOUNT).to_vec();
        d.extend(Self::words(&[amount, until]));
        st.w.set(self.i(&format!("discount {}", user)), AccData::owned(amm::ID, d));
    }
}
