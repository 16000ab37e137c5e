//! Compares what the program did with what the model demands and labels every
//! difference with the properties it contradicts.
use crate::abs::{self, Pool};
use crate::spec::{self, Env, Want};
use std::sync::Arc;
use svm::{tok, AccData, Fail, Ix, Universe, World};

pub use svm::bfs::{Tags, Violation};

#[derive(Clone)]
pub struct St {
    pub w: World,
    pub now: u64,
    /// per vault: tokens transferred to it by somebody outside of the program
    pub donated: Arc<Vec<(usize, u64)>>,
}

impl St {
    pub fn new(w: World, now: u64) -> Self {
        Self { w, now, donated: Arc::default() }
    }
    pub fn hash(&self) -> u128 {
        let mut x = svm::hash::H::new(self.now, 0);
        x.u128(self.w.hash());
        for (i, a) in self.donated.iter() {
            x.u64(*i as u64);
            x.u64(*a);
        }
        x.finish()
    }
    pub fn donate(&mut self, i: usize, n: u64) {
        let mut d = (*self.donated).clone();
        match d.iter_mut().find(|x| x.0 == i) {
            Some(x) => x.1 += n,
            None => d.push((i, n)),
        }
        d.sort();
        self.donated = Arc::new(d);
    }
}

pub struct Outcome {
    pub next: Option<St>,
    pub violation: Option<Violation>,
    /// statistics
    pub class: String,
    pub ok: bool,
}

/// What a failure which must not happen contradicts.
fn availability(ep: &str, stable: bool) -> &'static [&'static str] {
    match (ep, stable) {
        ("swap", false) => &["A02", "A06"],
        ("swap", true) => &["A03", "A12"],
        ("deposit_liquidity", false) => &["A09"],
        ("deposit_liquidity", true) => &["A09", "A12"],
        ("redeem_liquidity", false) => &["A10"],
        ("redeem_liquidity", true) => &["A10", "A12"],
        ("create_pool", _) => &["A08"],
        _ => &["A07"],
    }
}

enum Role {
    Vault,
    LpMint,
    LpWallet,
    Toll,
    Other,
}

fn role(u: &Universe, w: &World, i: usize, a: &AccData) -> Role {
    let k = u.keys[i];
    let mint = tok::read(a).map(|t| t.mint);
    for j in 0..w.0.len() {
        let Some(p) = abs::pool(w.get(j)) else { continue };
        if p.reserves.iter().any(|r| r.vault == k) {
            return Role::Vault;
        }
        if p.mint == k {
            return Role::LpMint;
        }
        if p.toll_wallet == k {
            return Role::Toll;
        }
        if mint == Some(p.mint) {
            return Role::LpWallet;
        }
    }
    Role::Other
}

/// Minting and burning in an operation
fn lp_tags(ep: &str) -> &'static [&'static str] {
    match ep {
        "deposit_liquidity" => &["A09", "A04"],
        "redeem_liquidity" => &["A10", "A04"],
        "swap" => &["A06", "A04"],
        _ => &["A11", "A04"],
    }
}

fn diff_raw(u: &Universe, w: &World, i: usize, ep: &str, want: &AccData, got: &AccData, tags: &mut Tags) -> String {
    let name = u.name(i);
    match role(u, w, i, want) {
        Role::Vault => {
            tags.insert("A01");
        }
        Role::LpMint | Role::LpWallet | Role::Toll => {
            tags.extend(lp_tags(ep));
        }
        Role::Other => {
            if tok::read(want).is_some() {
                tags.insert("A01");
            }
        }
    }
    match (tok::read(want), tok::read(got)) {
        (Some(a), Some(b)) => {
            if a.amount != b.amount {
                if b.amount < a.amount && matches!(role(u, w, i, want), Role::Other | Role::LpWallet) {
                    tags.insert("A05");
                }
                return format!("{}: balance {} instead of {}", name, b.amount, a.amount);
            }
            tags.insert("A11");
            format!("{}: token account {:?} instead of {:?}", name, b, a)
        }
        (Some(_), None) | (None, Some(_)) => {
            tags.insert("A11");
            format!("{}: is{} a token account", name, if tok::read(got).is_some() { "" } else { " not" })
        }
        _ => {
            if let (Some(a), Some(b)) = (tok::read_mint(want), tok::read_mint(got)) {
                if a.supply != b.supply {
                    return format!("{}: supply {} instead of {}", name, b.supply, a.supply);
                }
                tags.insert("A11");
                return format!("{}: mint {:?} instead of {:?}", name, b, a);
            }
            if let (Some(a), Some(b)) = (abs::pool(want), abs::pool(got)) {
                tags.insert("A11");
                if let Some(d) = diff_pool(&a, &b, ep, tags) {
                    return format!("{}: {}", name, d);
                }
            }
            for (x, y, t) in [
                (abs::discount(want).is_some(), abs::discount(got).is_some(), &["A07", "A06"][..]),
                (abs::toll(want).is_some(), abs::toll(got).is_some(), &["A07"][..]),
                (abs::settings(want).is_some(), abs::settings(got).is_some(), &["A07"][..]),
            ] {
                if x || y {
                    tags.extend(t);
                }
            }
            if want.data == got.data && want.owner == got.owner {
                tags.insert("A11");
                return format!("{}: {} lamports instead of {}", name, got.lamports, want.lamports);
            }
            tags.insert("A11");
            format!("{}: unexpected contents", name)
        }
    }
}

/// All differences between two pools
fn diff_pool(a: &Pool, b: &Pool, ep: &str, tags: &mut Tags) -> Option<String> {
    let mut all: Vec<String> = vec![];
    if ep == "create_pool" && a != b {
        tags.insert("A08");
    }
    if a.admin != b.admin {
        tags.extend(["A07", "A08"]);
        all.push("wrong admin".into());
    }
    if a.signer != b.signer || a.mint != b.mint || a.toll_wallet != b.toll_wallet || a.dim != b.dim {
        tags.extend(["A11", "A08"]);
        all.push(format!("signer, LP mint, toll wallet or dimension changed: {:?} instead of {:?}", b, a));
    }
    let f = |p: &Pool| p.reserves.map(|r| (r.mint, r.vault));
    if f(a) != f(b) {
        tags.extend(["A11", "A08", "A01"]);
        all.push(format!("mints and vaults changed: {:?} instead of {:?}", f(b), f(a)));
    }
    let f = |p: &Pool| p.reserves.map(|r| r.tokens);
    if f(a) != f(b) {
        tags.insert("A01");
        all.push(format!("reserves {:?} instead of {:?}", f(b), f(a)));
    }
    if a.fee != b.fee {
        tags.extend(["A07", "A06"]);
        all.push(format!("fee {} instead of {}", b.fee, a.fee));
    }
    if a.curve != b.curve {
        tags.extend(["A03", "A12"]);
        all.push(format!("curve {:?} instead of {:?}", b.curve, a.curve));
    }
    (!all.is_empty()).then(|| all.join(", "))
}

fn stable(e: &Env) -> bool {
    e.ix.metas.iter().any(|m| abs::pool(e.w.get(m.i)).map_or(false, |p| p.stable()))
}

fn made(a: &AccData, kind: usize, lamports: u64) -> Result<&[u8], String> {
    if a.owner != amm::ID || a.data.len() < 8 || a.data[..8] != abs::disc(kind) || a.executable {
        return Err("is not an account of the program".into());
    }
    if a.lamports != lamports {
        return Err(format!("{} lamports instead of {}", a.lamports, lamports));
    }
    Ok(&a.data[8..])
}

fn zeros(d: &[u8]) -> bool {
    d.iter().all(|b| *b == 0)
}

/// Runs one instruction and judges it. What does not contradict the property
/// being checked is passed over, and what the program made of it is gone on with.
pub fn call(u: &Universe, st: &St, ix: &Ix) -> Outcome {
    let mut o = judge(u, st, ix);
    o.violation = svm::bfs::only_wanted(o.violation);
    let stop = o.violation.as_ref().map_or(false, |v| !v.soft);
    if stop || !o.next.as_ref().map_or(true, |n| sound(st, n)) {
        o.next = None;
    }
    o
}

/// Accounts can still be read.
fn sound(a: &St, b: &St) -> bool {
    (0..a.w.0.len()).all(|i| {
        let (x, y) = (&a.w.0[i], &b.w.0[i]);
        Arc::ptr_eq(x, y)
            || ((abs::pool(&x.d).is_none() || abs::pool(&y.d).is_some())
                && (tok::read(&x.d).is_none() || tok::read(&y.d).is_some())
                && (tok::read_mint(&x.d).is_none() || tok::read_mint(&y.d).is_some()))
    })
}

fn judge(u: &Universe, st: &St, ix: &Ix) -> Outcome {
    let ep = spec::endpoint(ix).unwrap_or("?");
    let r = svm::exec(u, &st.w, amm::entry, st.now, ix);
    let env = Env { u, w: &st.w, now: st.now, ix, got: r.as_ref().ok() };
    let want = spec::expect(&env);
    let stop = |mut tags: Tags, what: String, ok: bool, next: Option<St>| {
        if ep == "create_pool" {
            tags.insert("A08");
        }
        Outcome {
            next,
            class: format!("{} VIOLATION", ep),
            violation: Some(Violation::new(tags, format!("{}: {}", ep, what))),
            ok,
        }
    };
    let quiet = |class: String| Outcome { next: None, violation: None, class, ok: false };
    let stable = stable(&env);
    match (want, r) {
        (Err(why), Err(_)) => quiet(format!("{} refused: {}", ep, why.what)),
        (Err(why), Ok(got)) => stop(
            why.tags.iter().copied().collect(),
            format!("succeeded although it must be refused: {}", why.what),
            true,
            Some(St { w: got, ..st.clone() }),
        ),
        (Ok(p), Err(f)) => {
            if let Some(w) = p.may_fail {
                return quiet(format!("{} refused: {}, optional", ep, w));
            }
            let mut tags: Tags = availability(ep, stable).iter().copied().collect();
            // an address somebody sent lamports to before
            if p.want.iter().any(|(i, w)| matches!(w, Want::New { .. }) && st.w.get(*i).lamports > 0) {
                tags.insert("A13");
            }
            if matches!(f, Fail::Runtime(_)) {
                tags.insert("A11");
            }
            stop(tags, format!("fails although it must succeed: {:?}", f), false, None)
        }
        (Ok(p), Ok(got)) => {
            let mut tags = Tags::new();
            let mut what = vec![];
            for (t, w) in &p.notes {
                tags.extend(t.iter());
                what.push(w.clone());
            }
            for i in 0..got.0.len() {
                let (a, b) = (st.w.get(i), got.get(i));
                match p.want.get(&i) {
                    None => {
                        if !Arc::ptr_eq(&got.0[i], &st.w.0[i]) && a != b {
                            let d = diff_raw(u, &st.w, i, ep, a, b, &mut tags);
                            what.push(format!("must not change: {}", d));
                        }
                    }
                    Some(Want::Raw(a)) => {
                        if a != b {
                            what.push(diff_raw(u, &st.w, i, ep, a, b, &mut tags));
                        }
                    }
                    Some(Want::Pool(p)) => match abs::pool(b) {
                        Some(q) => {
                            if let Some(d) = diff_pool(p, &q, ep, &mut tags) {
                                what.push(format!("{}: {}", u.name(i), d));
                            } else if a.lamports != b.lamports || a.data.len() != b.data.len() {
                                tags.insert("A11");
                                what.push(format!("{}: pool account changed", u.name(i)));
                            }
                        }
                        None => {
                            tags.insert("A11");
                            what.push(format!("{} is no pool any more", u.name(i)));
                        }
                    },
                    Some(Want::New { kind, words, lamports }) => match made(b, *kind, *lamports) {
                        Err(e) => {
                            tags.insert("A07");
                            what.push(format!("{} {}", u.name(i), e));
                        }
                        Ok(d) => {
                            if d.len() < words.len() || d[..words.len()] != words[..] || !zeros(&d[words.len()..]) {
                                tags.insert("A07");
                                if *kind == abs::DISCOUNT {
                                    tags.insert("A06");
                                }
                                what.push(format!("{}: wrong contents {:?} instead of {:?}", u.name(i), d, words));
                            }
                        }
                    },
                    Some(Want::NewPool { pool, lamports }) => match (made(b, abs::POOL, *lamports), abs::pool(b)) {
                        (Err(e), _) => {
                            tags.insert("A08");
                            what.push(format!("{} {}", u.name(i), e));
                        }
                        (_, Some(q)) => {
                            if let Some(d) = diff_pool(pool, &q, ep, &mut tags) {
                                what.push(format!("{}: {}", u.name(i), d));
                            }
                        }
                        _ => {
                            tags.insert("A08");
                            what.push(format!("{} is no pool", u.name(i)));
                        }
                    },
                }
            }
            let mut next = St { w: got, ..st.clone() };
            if let Some((i, n)) = p.donate {
                next.donate(i, n);
            }
            if !what.is_empty() {
                return stop(tags, what.join("; "), true, Some(next));
            }
            let mut class = format!("{} ok", ep);
            if !p.class.is_empty() {
                class = format!("{} ({})", class, p.class);
            }
            let violation = (!p.soft.is_empty()).then(|| Violation {
                tags: p.soft.iter().flat_map(|(t, _)| t.iter().copied()).collect(),
                what: format!("{}: {}", ep, p.soft.into_iter().map(|x| x.1).collect::<Vec<_>>().join("; ")),
                soft: true,
            });
            Outcome { next: Some(next), violation, class, ok: true }
        }
    }
}

/// Conditions on every reachable state.
pub fn invariants(u: &Universe, st: &St) -> Option<Violation> {
    let mut found: Vec<Violation> = vec![];
    let w = &st.w;
    for i in 0..w.0.len() {
        let Some(p) = abs::pool(w.get(i)) else { continue };
        let mut bad = |tags: &[&'static str], what: String| {
            found.push(Violation::new(tags.iter().copied().collect(), format!("{}: {}", u.name(i), what)))
        };
        if !(2..=4).contains(&p.dim) {
            bad(&["A08"], format!("{} reserves", p.dim));
        }
        if p.fee > spec::MAX_FEE {
            bad(&["A07", "A06"], format!("fee of {}", p.fee));
        }
        for r in p.r() {
            let Some(v) = u.find(&r.vault) else { continue };
            let extra = st.donated.iter().find(|x| x.0 == v).map_or(0, |x| x.1) as u128;
            let bal = tok::amount(w.get(v)) as u128;
            if bal != r.tokens as u128 + extra {
                bad(
                    &["A01"],
                    format!("{} holds {} with a recorded reserve of {} and {} sent directly", u.name(v), bal, r.tokens, extra),
                );
            }
        }
    }
    found.into_iter().find_map(|v| svm::bfs::only_wanted(Some(v)))
}
