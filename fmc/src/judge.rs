//! Compares what the program did with what the model demands and labels every
//! difference with the properties it contradicts.
use crate::abs;
use crate::spec::{self, Env, Want, Why};
use std::sync::Arc;
use svm::solana_program::pubkey::Pubkey;
use svm::{tok, AccData, Fail, Ix, Universe, World};

pub use svm::bfs::{Tags, Violation};

/// Transferred to a vault by somebody outside the program, or owed because a
/// slot had to be paid for twice (see DESIGN.md, boundary slots).
#[derive(Clone)]
pub struct St {
    pub w: World,
    pub now: u64,
    /// bit k: on the k-th farm account of the universe somebody was already
    /// paid for slot `now`
    pub paid: u64,
    /// per account: tokens which may be missing in that harvest vault
    pub owed: Arc<Vec<(usize, u128)>>,
    /// per account: tokens donated to that stake vault
    pub donated: Arc<Vec<(usize, u64)>>,
}

impl St {
    pub fn new(w: World, now: u64) -> Self {
        Self { w, now, paid: 0, owed: Arc::default(), donated: Arc::default() }
    }
    pub fn hash(&self) -> u128 {
        let h = self.w.hash();
        let mut x = svm::hash::H::new(self.now, self.paid);
        x.u128(h);
        for (i, a) in self.owed.iter() {
            x.u64(*i as u64);
            x.u128(*a);
        }
        for (i, a) in self.donated.iter() {
            x.u64(*i as u64 | 1 << 40);
            x.u64(*a);
        }
        x.finish()
    }
    pub fn owed(&self, i: usize) -> u128 {
        self.owed.iter().find(|x| x.0 == i).map_or(0, |x| x.1)
    }
}

pub struct Outcome {
    pub next: Option<St>,
    pub violation: Option<Violation>,
    /// statistics
    pub class: String,
    pub ok: bool,
}

fn endpoint_tags(ep: &str) -> &'static [&'static str] {
    match ep {
        "create_farm" => &["F01", "F08", "F10", "F18"],
        "add_harvest" => &["F14"],
        "remove_harvest" => &["F14"],
        "set_farm_owner" => &["F08"],
        "new_harvest_period" => &["F06", "F07"],
        "take_snapshot" => &["F05"],
        "set_min_snapshot_window" => &["F05", "F08"],
        "create_farmer" => &["F12"],
        "close_farmer" => &["F12", "F16"],
        "start_farming" => &["F01"],
        "stop_farming" => &["F01", "F16"],
        "update_eligible_harvest" | "update_eligible_harvest_until" => &["F03", "F17"],
        "claim_eligible_harvest" => &["F11", "F16"],
        "whitelist_farm_for_compounding" => &["F13"],
        "dewhitelist_farm_for_compounding" => &["F13"],
        "compound_same_farm" | "compound_across_farms" => &["F13"],
        "airdrop" => &["F15"],
        _ => &[],
    }
}

fn is_admin_op(ep: &str) -> bool {
    matches!(
        ep,
        "add_harvest"
            | "remove_harvest"
            | "set_farm_owner"
            | "new_harvest_period"
            | "set_min_snapshot_window"
            | "whitelist_farm_for_compounding"
            | "dewhitelist_farm_for_compounding"
    )
}

fn settles(ep: &str) -> bool {
    matches!(
        ep,
        "start_farming"
            | "stop_farming"
            | "update_eligible_harvest"
            | "update_eligible_harvest_until"
            | "compound_same_farm"
            | "compound_across_farms"
    )
}

/// Roles of token accounts by content: stake vault of farm / harvest vault / other
pub enum Role {
    StakeVault(usize),
    HarvestVault(usize),
    Other,
}

pub fn role(u: &Universe, w: &World, i: usize) -> Role {
    let k = u.keys[i];
    for j in 0..w.0.len() {
        if let Some(f) = abs::farm(&w.0[j]) {
            if let Ok(f) = &*f {
                if f.stake_vault == k || spec::stake_vault(&u.keys[j]) == k {
                    return Role::StakeVault(j);
                }
                if f.harvests.iter().any(|h| h.vault == k) {
                    return Role::HarvestVault(j);
                }
            }
        }
    }
    Role::Other
}

fn diff_raw(
    u: &Universe,
    w: &World,
    i: usize,
    ep: &str,
    want: &AccData,
    got: &AccData,
    tags: &mut Tags,
) -> String {
    let name = u.name(i);
    let money = |tags: &mut Tags| match role(u, w, i) {
        Role::StakeVault(_) => {
            tags.insert("F01");
            if ep != "start_farming" {
                tags.insert("F09");
            }
            tags.insert("F16");
        }
        Role::HarvestVault(_) => {
            tags.insert("F02");
            tags.insert("F07");
            tags.insert("F16");
        }
        Role::Other => {
            tags.insert("F09");
        }
    };
    match (tok::read(want), tok::read(got)) {
        (Some(a), Some(b)) => {
            if a.amount != b.amount {
                money(tags);
                return format!("{}: balance {} instead of {}", name, b.amount, a.amount);
            }
            money(tags);
            tags.insert("F10");
            format!("{}: token account {:?} instead of {:?}", name, b, a)
        }
        (Some(_), None) | (None, Some(_)) => {
            money(tags);
            tags.insert("F14");
            tags.insert("F10");
            format!("{}: is{} a token account", name, if tok::read(got).is_some() { "" } else { " not" })
        }
        _ => {
            if abs::is_whitelist(want) != abs::is_whitelist(got) {
                tags.insert("F13");
            }
            if want.data == got.data && want.owner == got.owner {
                tags.insert("F09");
                return format!("{}: {} lamports instead of {}", name, got.lamports, want.lamports);
            }
            if abs::is_farmer(want) || abs::is_farmer(got) {
                tags.insert("F09");
                tags.insert("F10");
                tags.insert("F12");
            }
            tags.insert("F10");
            format!("{}: unexpected contents", name)
        }
    }
}

fn joined(all: Vec<String>) -> Option<String> {
    (!all.is_empty()).then(|| all.join(", "))
}

/// All differences between two farms
fn diff_farm(a: &abs::Farm, b: &abs::Farm, ep: &str, tags: &mut Tags) -> Option<String> {
    let mut all = vec![];
    if a.admin != b.admin {
        tags.insert("F08");
        all.push("wrong admin".into());
    }
    if a.stake_mint != b.stake_mint || a.stake_vault != b.stake_vault {
        tags.extend(["F01", "F10"]);
        all.push("wrong stake mint or vault".into());
    }
    if a.log != b.log {
        tags.extend(["F05", "F03", "F04"]);
        all.push(format!(
            "snapshot log of {} ending in {:?} instead of {} ending in {:?}",
            b.log.len(),
            &b.log[b.log.len().saturating_sub(2)..],
            a.log.len(),
            &a.log[a.log.len().saturating_sub(2)..],
        ));
    }
    if a.window != b.window {
        tags.extend(["F05", "F08"]);
        all.push(format!("window {} instead of {}", b.window, a.window));
    }
    let am: Vec<_> = a.harvests.iter().map(|h| (h.mint, h.vault)).collect();
    let bm: Vec<_> = b.harvests.iter().map(|h| (h.mint, h.vault)).collect();
    if am != bm {
        tags.extend(["F14", "F10"]);
        all.push(format!("harvest mints {:?} instead of {:?}", bm, am));
    }
    for x in &a.harvests {
        let Some(y) = b.harvests.iter().find(|y| y.mint == x.mint) else { continue };
        if x.periods != y.periods {
            tags.extend(["F06", "F02"]);
            if ep == "add_harvest" || ep == "remove_harvest" {
                tags.insert("F14");
            }
            all.push(format!("periods {:?} instead of {:?}", y.periods, x.periods));
        }
    }
    joined(all)
}

/// All differences of a farmer from what is demanded
fn diff_farmer(
    w: &spec::FarmerWant,
    b: &abs::Farmer,
    before: Option<&abs::Farmer>,
    past: &[&'static str],
    ep: &str,
    tags: &mut Tags,
) -> Option<String> {
    let a = &w.f;
    let mut all = vec![];
    if a.authority != b.authority || a.farm != b.farm {
        tags.extend(["F12", "F09", "F10"]);
        all.push("wrong authority or farm of a farmer".into());
    }
    if a.staked as u128 + a.vested as u128 != b.staked as u128 + b.vested as u128 {
        tags.extend(["F01", "F16", "F09"]);
        if settles(ep) {
            tags.extend(["F04"]);
        }
        all.push(format!("deposit {}+{} instead of {}+{}", b.staked, b.vested, a.staked, a.vested));
    } else if a.staked != b.staked {
        tags.extend(["F04", "F03", "F17"]);
        if before.map_or(false, |f| f.vested > 0) {
            // what matures follows the first snapshot after the deposit
            tags.insert("F05");
        }
        if ep == "stop_farming" {
            tags.insert("F01");
        }
        all.push(format!("deposit {}+{} instead of {}+{}", b.staked, b.vested, a.staked, a.vested));
    }
    if a.vested_at != b.vested_at {
        tags.extend(["F04"]);
        all.push(format!("vested at {} instead of {}", b.vested_at, a.vested_at));
    }
    let am: Vec<_> = a.harvests.iter().map(|h| h.0).collect();
    let bm: Vec<_> = b.harvests.iter().map(|h| h.0).collect();
    if am != bm {
        tags.insert("F14");
        if ep == "create_farmer" {
            tags.insert("F12");
        }
        if am.iter().any(|m| !bm.contains(m)) {
            tags.extend(["F03", "F09", "F16"]);
        }
        all.push(format!("harvest mints of the farmer {:?} instead of {:?}", bm, am));
    }
    for ((m, _), (lo, hi)) in a.harvests.iter().zip(&w.bounds) {
        let Some((_, got)) = b.harvests.iter().find(|h| h.0 == *m) else { continue };
        let got = *got as u128;
        if got < *lo || got > *hi {
            let had = before
                .and_then(|f| f.harvests.iter().find(|h| h.0 == *m))
                .map_or(0, |h| h.1 as u128);
            if got > *hi {
                tags.insert("F02");
            } else if had <= *hi && got < had {
                tags.extend(["F09", "F14", "F16"]);
            }
            if settles(ep) {
                tags.extend(["F03", "F17", "F04"]);
                tags.extend(past);
            }
            if ep == "claim_eligible_harvest" {
                tags.extend(["F11"]);
            }
            all.push(format!("harvest {} of {:?} instead of {}..={}", got, m, lo, hi));
        }
    }
    if a.next != b.next {
        tags.extend(["F03", "F17", "F04"]);
        if before.map_or(false, |f| f.vested > 0) {
            tags.insert("F05");
        }
        if ep == "create_farmer" {
            tags.insert("F12");
        }
        all.push(format!("next slot to settle {} instead of {}", b.next, a.next));
    }
    joined(all)
}

/// What settling this farmer looks up: the snapshot history, past periods.
fn past(u: &Universe, st: &St, f: Option<&abs::Farmer>) -> Vec<&'static str> {
    let mut tags = vec![];
    let Some(f) = f else { return tags };
    let Some(i) = u.find(&f.farm) else { return tags };
    let Some(farm) = abs::farm(&st.w.0[i]) else { return tags };
    let Ok(farm) = &*farm else { return tags };
    if farm.log.last().map_or(false, |l| l.at > f.next || l.at > f.vested_at) {
        tags.push("F05");
    }
    if farm.harvests.iter().any(|h| h.periods.len() > 1) {
        tags.push("F06");
    }
    tags
}

fn violation(ep: &'static str, mut tags: Tags, what: String) -> Violation {
    tags.extend(endpoint_tags(ep));
    Violation::new(tags, format!("{}: {}", ep, what))
}

/// Runs one instruction and judges it. What does not contradict the property
/// being checked is passed over, and what the program made of it is gone on with.
pub fn call(u: &Universe, st: &St, ix: &Ix, exit: bool) -> Outcome {
    let mut o = judge(u, st, ix, exit);
    o.violation = svm::bfs::only_wanted(o.violation);
    if o.violation.is_some() || !o.next.as_ref().map_or(true, |n| sound(st, n)) {
        o.next = None;
    }
    o
}

/// Accounts can still be read.
fn sound(a: &St, b: &St) -> bool {
    (0..a.w.0.len()).all(|i| {
        let (x, y) = (&a.w.0[i], &b.w.0[i]);
        Arc::ptr_eq(x, y)
            || (!matches!(abs::farm(y).as_deref(), Some(Err(_)))
                && (abs::farm(x).is_none() || abs::farm(y).is_some())
                && !matches!(abs::farmer(&y.d), Some(Err(_))))
    })
}

fn judge(u: &Universe, st: &St, ix: &Ix, exit: bool) -> Outcome {
    let ep = spec::endpoint(ix).unwrap_or("?");
    let r = svm::exec(u, &st.w, farming::entry, st.now, ix);
    let env = Env { u, w: &st.w, slot: st.now, ix, got: r.as_ref().ok() };
    let want = spec::expect(&env);
    let go_on = |got: World, paid: &[usize]| {
        let mut next = St { w: got, ..st.clone() };
        for i in paid {
            next.paid |= 1 << farm_bit(u, *i);
        }
        if ep == "take_snapshot" {
            boundary(u, &mut next, ix.metas[0].i);
        }
        next
    };
    let stop = |v: Violation, ok: bool, next: Option<St>| Outcome {
        next,
        class: format!("{} VIOLATION", ep),
        violation: Some(v),
        ok,
    };
    match (want, r) {
        (Err(why), Err(_)) => {
            // the owner of a farmer must be able to leave
            if exit {
                let shortfall = match why {
                    Why::Overflow => true,
                    Why::Funds(_) => st.owed.iter().all(|x| x.1 == 0),
                    _ => false,
                };
                if shortfall {
                    let mut tags: Tags = ["F16", "F02"].into();
                    if ep == "stop_farming" {
                        tags.insert("F01");
                    }
                    return stop(
                        violation(ep, tags, format!("a farmer cannot leave: {:?}", why)),
                        false,
                        None,
                    );
                }
            }
            Outcome {
                next: None,
                violation: None,
                class: format!("{} refused: {}", ep, describe(&why)),
                ok: false,
            }
        }
        (Err(why), Ok(got)) => {
            let mut tags: Tags = Tags::new();
            match why {
                Why::Auth(_) => {
                    tags.insert(if is_admin_op(ep) { "F08" } else { "F09" });
                    if !is_admin_op(ep) {
                        tags.insert("F10");
                    }
                }
                Why::Account(_) => {
                    tags.insert("F10");
                    tags.insert(if is_admin_op(ep) { "F08" } else { "F09" });
                    match ep {
                        "take_snapshot" => tags.extend(["F03", "F04"]),
                        "compound_same_farm" | "compound_across_farms" => tags.extend(["F01", "F02"]),
                        "claim_eligible_harvest" | "airdrop" | "new_harvest_period" | "remove_harvest" => {
                            tags.insert("F02");
                        }
                        _ => (),
                    }
                }
                Why::State(s) => {
                    if ep == "close_farmer" {
                        tags.insert("F09");
                    }
                    match s {
                        "oldest period is still needed" => tags.extend(["F05", "F03", "F02"]),
                        "overlaps a started period" => tags.extend(["F03", "F02"]),
                        "vault is not empty" => tags.extend(["F02", "F11"]),
                        _ => (),
                    }
                }
                Why::Funds(_) | Why::Overflow => {
                    tags.extend(["F01", "F02"]);
                }
            }
            stop(
                violation(ep, tags, format!("succeeded although it must be refused: {}", describe(&why))),
                true,
                Some(go_on(got, &[])),
            )
        }
        (Ok(p), Err(f)) => {
            if p.may_fail {
                return Outcome {
                    next: None,
                    violation: None,
                    class: format!("{} refused: optional", ep),
                    ok: false,
                };
            }
            let mut tags = Tags::new();
            if is_admin_op(ep) {
                tags.insert("F08");
            }
            if settles(ep) {
                tags.extend(["F03", "F04", "F16", "F17"]);
                let vesting = |i: usize| matches!(abs::farmer(st.w.get(i)), Some(Ok(f)) if f.vested > 0);
                if ix.metas.iter().any(|m| vesting(m.i)) {
                    tags.insert("F05");
                }
            }
            // an address somebody sent lamports to before
            if p.want.iter().any(|(i, w)| {
                let a = st.w.get(*i);
                a.lamports > 0
                    && a.data.is_empty()
                    && match w {
                        Want::Raw(b) => b.owner != a.owner,
                        Want::Farmer { .. } => true,
                        _ => false,
                    }
            }) {
                tags.insert("F19");
            }
            if matches!(f, Fail::Runtime(_)) {
                tags.insert("F09");
            }
            stop(violation(ep, tags, format!("fails although it must succeed: {:?}", f)), false, None)
        }
        (Ok(p), Ok(got)) => {
            let mut tags = Tags::new();
            let mut what = vec![];
            for i in 0..got.0.len() {
                match p.want.get(&i) {
                    None => {
                        if !Arc::ptr_eq(&got.0[i], &st.w.0[i]) && got.get(i) != st.w.get(i) {
                            // an account the call must not touch
                            what.push(untouched(u, st, &got, i, ep, &mut tags));
                        }
                    }
                    Some(Want::Raw(a)) => {
                        if a != got.get(i) {
                            what.push(diff_raw(u, &st.w, i, ep, a, got.get(i), &mut tags));
                        }
                    }
                    Some(Want::Gone) => {
                        if got.exists(i) {
                            tags.insert("F12");
                            what.push(format!("{} is not closed", u.name(i)));
                        }
                    }
                    Some(Want::Farm(f)) => {
                        let (a, b) = (st.w.get(i), got.get(i));
                        if a.lamports != b.lamports || a.owner != b.owner || a.data.len() != b.data.len() {
                            tags.insert("F10");
                            what.push(format!("{}: farm account changed", u.name(i)));
                            continue;
                        }
                        match abs::farm(&got.0[i]).as_deref() {
                            Some(Ok(g)) => {
                                if let Some(d) = diff_farm(f, g, ep, &mut tags) {
                                    what.push(format!("{}: {}", u.name(i), d));
                                }
                            }
                            Some(Err(e)) => {
                                tags.extend(["F05", "F06", "F14"]);
                                what.push(format!("{}: {}", u.name(i), e));
                            }
                            None => {
                                tags.insert("F10");
                                what.push(format!("{} is no farm any more", u.name(i)));
                            }
                        }
                    }
                    Some(Want::Farmer { w, lamports }) => {
                        if got.get(i).lamports != *lamports {
                            tags.insert("F12");
                            what.push(format!("{}: {} lamports instead of {}", u.name(i), got.get(i).lamports, lamports));
                        }
                        match abs::farmer(got.get(i)) {
                            Some(Ok(g)) => {
                                let before = abs::farmer(st.w.get(i)).and_then(|x| x.ok());
                                if let Some(d) = diff_farmer(w, &g, before.as_ref(), &past(u, st, before.as_ref()), ep, &mut tags) {
                                    what.push(format!("{}: {}", u.name(i), d));
                                }
                            }
                            Some(Err(e)) => {
                                tags.extend(["F14", "F12"]);
                                what.push(format!("{}: {}", u.name(i), e));
                            }
                            None => {
                                tags.insert("F12");
                                what.push(format!("{} is no farmer", u.name(i)));
                            }
                        }
                    }
                }
            }
            if !what.is_empty() {
                let next = go_on(got, &p.paid);
                return stop(violation(ep, tags, what.join("; ")), true, Some(next));
            }
            let next = go_on(got, &p.paid);
            Outcome { next: Some(next), violation: None, class: format!("{} ok", ep), ok: true }
        }
    }
}

pub fn farm_bit(_u: &Universe, i: usize) -> u32 {
    (i % 64) as u32
}

/// A snapshot in a slot for which somebody was already paid: the others will be
/// paid for it out of the new window's shares.
fn boundary(u: &Universe, st: &mut St, farm: usize) {
    if st.paid >> farm_bit(u, farm) & 1 == 0 {
        return;
    }
    let Some(f) = abs::farm(&st.w.0[farm]) else { return };
    let Ok(f) = &*f else { return };
    let mut owed = (*st.owed).clone();
    for h in &f.harvests {
        let e = spec::emitted(&h.periods, st.now, st.now);
        if e == 0 {
            continue;
        }
        if let Some(i) = u.find(&h.vault) {
            match owed.iter_mut().find(|x| x.0 == i) {
                Some(x) => x.1 += e,
                None => owed.push((i, e)),
            }
        }
    }
    owed.sort();
    st.owed = Arc::new(owed);
}

fn untouched(u: &Universe, st: &St, got: &World, i: usize, ep: &str, tags: &mut Tags) -> String {
    let (a, b) = (&st.w.0[i], &got.0[i]);
    if let (Some(x), Some(y)) = (abs::farm(a), abs::farm(b)) {
        if let (Ok(x), Ok(y)) = (&*x, &*y) {
            if let Some(d) = diff_farm(x, y, ep, tags) {
                return format!("{} must not change: {}", u.name(i), d);
            }
        }
    }
    if let (Some(Ok(x)), Some(Ok(y))) = (abs::farmer(&a.d), abs::farmer(&b.d)) {
        let bounds = x.harvests.iter().map(|h| (h.1 as u128, h.1 as u128)).collect();
        let w = spec::FarmerWant { f: x.clone(), bounds };
        tags.extend(["F09", "F10"]);
        if let Some(d) = diff_farmer(&w, &y, Some(&x), &[], ep, tags) {
            return format!("{} must not change: {}", u.name(i), d);
        }
    }
    format!("must not change: {}", diff_raw(u, &st.w, i, ep, &a.d, &b.d, tags))
}

pub fn describe(w: &Why) -> String {
    match w {
        Why::Auth(x) => format!("signature ({})", x),
        Why::Account(x) => format!("account ({})", x),
        Why::State(x) => format!("state ({})", x),
        Why::Funds(x) => format!("funds ({})", x),
        Why::Overflow => "overflow".into(),
    }
}

/// Conditions on every reachable state.
pub fn invariants(u: &Universe, st: &St) -> Option<Violation> {
    let mut found: Vec<Violation> = vec![];
    let w = &st.w;
    let mut farms: Vec<(usize, Pubkey, Arc<Result<abs::Farm, String>>)> = vec![];
    let mut farmers = vec![];
    for i in 0..w.0.len() {
        if let Some(f) = abs::farm(&w.0[i]) {
            farms.push((i, u.keys[i], f));
        } else if let Some(Ok(f)) = abs::farmer(w.get(i)) {
            farmers.push((i, f));
        }
    }
    for (_, key, f) in &farms {
        let f = match &**f {
            Ok(f) => f,
            Err(e) => {
                found.push(Violation {
                    tags: ["F05", "F06", "F14"].into(),
                    soft: false,
                    what: format!("broken farm: {}", e),
                });
                continue;
            }
        };
        let mut deposits = 0u128;
        for (_, x) in farmers.iter().filter(|x| x.1.farm == *key) {
            deposits += x.staked as u128 + x.vested as u128;
        }
        if let Some(v) = u.find(&f.stake_vault) {
            let bal = tok::amount(w.get(v)) as u128;
            if bal < deposits {
                found.push(Violation {
                    tags: ["F01", "F16"].into(),
                    soft: false,
                    what: format!("stake vault holds {} of {} deposited", bal, deposits),
                });
            }
        }
        for h in &f.harvests {
            // schedule
            for p in h.periods.windows(2) {
                if p[0].start <= p[1].end {
                    found.push(Violation {
                        tags: ["F06", "F02"].into(),
                        soft: false,
                        what: format!("periods overlap: {:?}", p),
                    });
                }
            }
            let Some(v) = u.find(&h.vault) else { continue };
            let bal = tok::amount(w.get(v)) as u128 + st.owed(v);
            let mut need = spec::emitted(&h.periods, st.now + 1, u64::MAX) << spec::FP;
            for (_, x) in farmers.iter().filter(|x| x.1.farm == *key) {
                let s = spec::settle(f, x, st.now, st.now);
                if let Some(k) = s.f.harvests.iter().position(|y| y.0 == h.mint) {
                    need = need
                        .saturating_add((s.f.harvests[k].1 as u128) << spec::FP)
                        .saturating_add(s.exact[k].exact);
                }
            }
            if bal << spec::FP < need {
                found.push(Violation {
                    tags: ["F02", "F16"].into(),
                    soft: false,
                    what: format!(
                        "harvest vault can pay {} of {}.{:03} owed",
                        bal,
                        need >> spec::FP,
                        (need & ((1 << spec::FP) - 1)) * 1000 >> spec::FP
                    ),
                });
            }
        }
    }
    found.into_iter().find_map(|v| svm::bfs::only_wanted(Some(v)))
}
