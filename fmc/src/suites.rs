//! Finite families of single calls (or short histories), enumerated completely.
use crate::abs;
use crate::judge::{self, St};
use crate::kit::Kit;
use crate::model::{tick, Script};
use crate::profiles::MAX;
use crate::spec;
use std::collections::HashSet;
use std::time::Duration;
use svm::bfs::{Found, Violation};
use svm::report::{sweep, Case, Suite};
use svm::solana_program::program_option::COption;
use svm::solana_program::program_pack::Pack;
use svm::spl_token;
use svm::{key, tok, AccData, Ix, Meta};

/// Starting points of a suite; a failing script becomes a finding.
struct Starts<'a> {
    kit: &'a Kit,
    ok: Vec<(String, St)>,
    found: Vec<Found>,
    stuck: Vec<String>,
}

impl<'a> Starts<'a> {
    fn new(kit: &'a Kit) -> Self {
        Starts { kit, ok: vec![], found: vec![], stuck: vec![] }
    }
    fn add(&mut self, name: &str, s: Script) {
        match s.done() {
            Ok(st) => self.ok.push((name.into(), st)),
            Err((path, Some(v))) => {
                self.found.push(Found { v, root: format!("(building {})", name), path })
            }
            Err((path, None)) => self.stuck.push(format!("{}: {}", name, path.join(" "))),
        }
    }
    fn run(
        self,
        name: &str,
        space: &str,
        time: u64,
        cases: &[(usize, Ix, u64)], // start, call, slot (0: of the start)
        edit: impl Fn(&mut St, usize) + Sync,
    ) -> Suite {
        let u = &self.kit.u;
        let label = |i: usize| {
            let (r, ix, _) = &cases[i];
            format!("{}: {}", self.ok[*r].0, crate::show(u, ix))
        };
        let mut s = sweep(name, space, cases.len(), Duration::from_secs(time), label, |i| {
            let (r, ix, slot) = &cases[i];
            let mut st = self.ok[*r].1.clone();
            if *slot > st.now {
                st = tick(&st, *slot - st.now);
            }
            edit(&mut st, i);
            let o = judge::call(u, &st, ix, false);
            let mut v = o.violation;
            if v.is_none() {
                if let Some(n) = &o.next {
                    v = judge::invariants(u, n);
                }
            }
            Case {
                class: o.class,
                runs: 1,
                found: v.map(|v| Found {
                    v,
                    root: self.ok[*r].0.clone(),
                    path: vec![format!("slot {}", st.now), crate::show(u, ix)],
                }),
            }
        });
        s.found.splice(0..0, self.found);
        if !self.stuck.is_empty() {
            s.capped = Some(format!("starting points not reached: {}", self.stuck.join(", ")));
        }
        s
    }
}

/// Claims: every sequence of vault and wallet pairs.
pub fn claims(thorough: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    for m in ["S", "H1", "H2", "H3"] {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
        for m in ["S", "H1", "H2", "H3"] {
            k.wallet(u, m, 1 << 40);
        }
    }
    let mut frozen = tok::read(&k.a[k.i("alice/H1")]).unwrap();
    frozen.state = spl_token::state::AccountState::Frozen;
    k.put("alice/H1 frozen", key("frozen"), tok::pack(&frozen));
    let mut full = tok::read(&k.a[k.i("alice/H1")]).unwrap();
    full.amount = MAX - 2;
    k.put("alice/H1 full", key("full"), tok::pack(&full));
    let fake = tok::account(k.k("H1"), k.k("A.signer"), 50);
    k.put("look-alike A.H1", key("look-alike"), fake);
    let kit = k.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("admin", "B", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H1"))
        .run(k.add_harvest("admin", "A", "H2"))
        .run(k.add_harvest("admin", "A", "H3"))
        .run(k.add_harvest("admin", "A", "S"))
        .run(k.add_harvest("admin", "B", "H1"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("alice", "alice", "B"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 9))
        .run(k.airdrop("admin", "bob", "A", "H1", 6))
        .run(k.airdrop("admin", "alice", "B", "H1", 8));
    let mut st = Starts::new(k);
    let rich = base
        .clone()
        .run(k.airdrop("admin", "alice", "A", "H1", 5))
        .run(k.airdrop("admin", "alice", "A", "S", 4))
        .run(k.airdrop("admin", "alice", "A", "H3", 7));
    st.add("three accrued", rich.clone());
    st.add("one accrued", base.clone().run(k.airdrop("admin", "alice", "A", "H2", 1)));
    st.add("nothing accrued", base.clone());
    st.add(
        "accrued, of a removed mint nothing",
        base.run(k.airdrop("admin", "alice", "A", "H1", 5)).run(k.remove_harvest("admin", "A", "H2")),
    );
    let pairs: Vec<(String, String)> = [
        ("A.H1", "alice/H1"),
        ("A.H2", "alice/H2"),
        ("A.H3", "alice/H3"),
        ("A.S", "alice/S"),
        ("A.H1", "bob/H1"),
        ("A.H1", "alice/H2"),
        ("B.H1", "alice/H1"),
        ("alice/H1", "A.H1"),
        ("A.vault", "alice/S"),
        ("A.H1", "A.H1"),
        ("A.H1", "alice/H1 frozen"),
        ("A.H1", "alice/H1 full"),
        ("look-alike A.H1", "alice/H1"),
        ("A.H2", "alice"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    let max = if thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<(String, String)>> = vec![vec![]];
    let mut level = vec![vec![]];
    for _ in 0..max {
        let mut next: Vec<Vec<(String, String)>> = vec![];
        for s in &level {
            for p in &pairs {
                let mut t: Vec<(String, String)> = s.clone();
                t.push(p.clone());
                next.push(t);
            }
        }
        seqs.extend(next.iter().cloned());
        level = next;
    }
    let mut cases = vec![];
    for r in 0..st.ok.len() {
        for s in &seqs {
            cases.push((r, k.claim_pairs("alice", "A", s), 0));
        }
        for s in seqs.iter().filter(|s| s.len() < 3) {
            // an odd account more, without the signature, somebody else
            let mut ix = k.claim_pairs("alice", "A", s);
            ix.metas.push(Meta { i: k.i("A.H3"), s: false, w: true });
            cases.push((r, ix, 0));
            let mut ix = k.claim_pairs("alice", "A", s);
            ix.metas[0].s = false;
            cases.push((r, ix, 0));
            let mut ix = k.claim_pairs("bob", "A", s);
            ix.metas[1].i = k.i("A:alice");
            cases.push((r, ix, 0));
            cases.push((r, k.claim_pairs("bob", "A", s), 0));
        }
    }
    st.run(
        "claims",
        &format!("all sequences of up to {} of {} vault/wallet pairs, {} farmer states", max, pairs.len(), 4),
        600,
        &cases,
        |_, _| (),
    )
}

/// Period funding: boundary arithmetic.
pub fn funding(_thorough: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    for m in ["S", "H"] {
        k.mint(m);
    }
    for u in ["admin", "alice"] {
        k.user(u);
        for m in ["S", "H"] {
            k.wallet(u, m, MAX / 2);
        }
    }
    let kit = k.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H"));
    let mut st = Starts::new(k);
    st.add("no period", base.clone().at(20));
    st.add("scheduled", base.clone().run(k.new_period("admin", "A", "H", 30, 10, 7)).at(20));
    st.add("running", base.clone().run(k.new_period("admin", "A", "H", 0, 11, 7)).at(20));
    st.add("just ended", base.clone().run(k.new_period("admin", "A", "H", 0, 10, 7)).at(20));
    st.add(
        "ended and scheduled",
        base.clone()
            .run(k.new_period("admin", "A", "H", 0, 3, 7))
            .run(k.new_period("admin", "A", "H", 25, 4, 9))
            .at(20),
    );
    st.add(
        "running and scheduled",
        base.clone()
            .run(k.new_period("admin", "A", "H", 0, 13, 7))
            .run(k.new_period("admin", "A", "H", 25, 4, 1 << 40))
            .at(20),
    );
    st.add("starts now", base.clone().run(k.new_period("admin", "A", "H", 20, 4, 9)).at(20));
    st.add("dear one scheduled", base.run(k.new_period("admin", "A", "H", 30, 2, MAX / 4 - 1)).at(20));
    let now = 20u64;
    let starts = [0, now, now + 1, now + 2, now + 3, now + 5, now + 20, now - 1, 1, MAX, MAX - 2, MAX / 2];
    let lens = [0, 1, 2, 3, 4, 10, 1 << 32, MAX - now, MAX - now + 1, MAX];
    let rates = [0, 1, 7, 9, 1 << 32, 1 << 40, 1 << 62, 1 << 63, MAX / 2, MAX / 3, MAX / 4, MAX / 10, MAX / 10 + 1, MAX];
    // 0: plenty; 1: exactly enough; 2: one too little
    let mut cases = vec![];
    let mut how = vec![];
    for r in 0..st.ok.len() {
        for s in starts {
            for l in lens {
                for t in rates {
                    for h in 0..3u8 {
                        cases.push((r, k.new_period("admin", "A", "H", s, l, t), 0));
                        how.push((h, l, t));
                    }
                }
            }
        }
    }
    let wallet = k.i("admin/H");
    let farm = k.i("A");
    let mint = k.k("H");
    st.run(
        "period funding",
        "8 schedules x 12 starts x 10 lengths x 14 rates x 3 wallet balances",
        600,
        &cases,
        move |s, i| {
            let (h, l, t) = how[i];
            if h == 0 {
                return;
            }
            let had: u128 = match abs::farm(&s.w.0[farm]).as_deref() {
                Some(Ok(f)) => f.harvest(&mint).map_or(0, |h| {
                    h.periods
                        .first()
                        .filter(|p| p.start > s.now)
                        .map_or(0, |p| (p.end - p.start + 1) as u128 * p.tps as u128)
                }),
                _ => 0,
            };
            let need = (l as u128 * t as u128).saturating_sub(had).min(MAX as u128) as u64;
            let bal = if h == 1 { need } else { need.saturating_sub(1) };
            let a = tok::with_amount(s.w.get(wallet), bal);
            s.w.set(wallet, a);
        },
    )
}

/// Snapshot history: a run of more than two full rings, with questions at every
/// fill level.
pub fn history(thorough: bool) -> Suite {
    let t0 = std::time::Instant::now();
    let mut k = Kit::new(true);
    k.farm("A");
    for m in ["S", "H", "P"] {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob", "carol", "dave", "erin", "n999", "n1000", "n1001", "n2000"] {
        k.user(u);
        for m in ["S", "H", "P"] {
            k.wallet(u, m, 1 << 50);
        }
    }
    let kit = k.clone();
    let k = &kit;
    let mut s = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 2))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.add_harvest("admin", "A", "P"))
        .run(k.new_period("admin", "A", "H", 0, 20_000, 1_000_007_003));
    for u in ["alice", "bob", "carol", "dave", "erin", "n999", "n1000", "n1001", "n2000"] {
        s = s.run(k.create_farmer(u, u, "A"));
    }
    s = s.run(k.start("alice", "alice", "A", "S", 3));
    let last = if thorough { 3_100 } else { 2_050 };
    let mut st = Starts::new(k);
    let mut now = s.st.now + 1;
    for n in 1..=last {
        now += 2 + (n * n) % 3;
        s = s.at(now);
        match n {
            1 => s = s.run(k.start("erin", "erin", "A", "S", 7)),
            // matures now and is never settled again
            3 => s = s.run(k.settle("erin", "A")),
            2 => s = s.run(k.start("bob", "bob", "A", "S", 4)),
            700 => s = s.run(k.start("carol", "carol", "A", "S", 5)),
            // nine short periods of P, the tenth is long; two more when the
            // ring has passed the oldest ones
            5 | 8 | 11 | 14 | 17 | 20 | 23 | 26 | 29 | 1_008 | 1_010 => {
                s = s.run(k.new_period("admin", "A", "P", 0, 3 + n % 4, 5 + n))
            }
            32 => s = s.run(k.new_period("admin", "A", "P", 0, 2_000, 11)),
            1_001 => s = s.run(k.settle("bob", "A")).run(k.start("bob", "bob", "A", "S", 2)),
            1_500 => s = s.run(k.start("dave", "dave", "A", "S", 6)),
            _ => (),
        }
        // between two certain snapshots, and never settled again
        let late = format!("n{}", n);
        if k.users.contains(&late) {
            s = s.run(k.start(&late, &late, "A", "S", 8));
        }
        if n % 7 == 0 {
            s = s.run(k.start("dave", "carol", "A", "S", 1 + n % 5));
        }
        s = s.run(k.snapshot("A"));
        st.add(&format!("{} snapshots", n), s.clone());
        if s.bad.is_some() || s.stuck.is_some() {
            break;
        }
    }
    let mut cases = vec![];
    for r in 0..st.ok.len() {
        let now = st.ok[r].1.now;
        for u in ["alice", "bob", "carol", "dave", "erin", "n999", "n1000", "n1001", "n2000"] {
            cases.push((r, k.settle(u, "A"), now));
            cases.push((r, k.settle(u, "A"), now + 1));
            cases.push((r, k.settle_until(u, "A", now - 1), now + 5));
        }
        cases.push((r, k.snapshot("A"), now));
        cases.push((r, k.snapshot("A"), now + 1));
        cases.push((r, k.snapshot("A"), now + 2));
        cases.push((r, k.snapshot("A"), now + 9));
        cases.push((r, k.new_period("admin", "A", "P", 0, 2, 3), now));
        cases.push((r, k.new_period("admin", "A", "P", now + 2, 3, 3), now));
        cases.push((r, k.stop("alice", "A", "S", MAX), now));
        cases.push((r, k.window("admin", "A", n_window(r)), now));
    }
    let mut s = st.run(
        "snapshot history",
        &format!("{} snapshots in one history, 35 calls judged after each", last),
        600,
        &cases,
        |_, _| (),
    );
    s.wall = t0.elapsed().as_secs_f64();
    s
}

fn n_window(r: usize) -> u64 {
    [0, 1, 7_200, u64::MAX][r % 4]
}

/// Snapshot timing: window values x slots since the last snapshot.
pub fn windows(_: bool) -> Suite {
    let kit = crate::profiles::one_farm(&["S", "H"]);
    let k = &kit;
    let base = Script::new(k, 10_000)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.start("alice", "alice", "A", "S", 3));
    let mut st = Starts::new(k);
    let wins = [0u64, 1, 2, 3, 5, 7_199, 7_200, 7_201, 1 << 32, MAX - 1, MAX];
    for w in wins {
        let s = base.clone().run(k.window("admin", "A", w));
        st.add(&format!("window {}, none yet", w), s);
        let s = base.clone().run(k.snapshot("A")).run(k.window("admin", "A", w));
        st.add(&format!("window {}, one", w), s);
        let s = base
            .clone()
            .run(k.window("admin", "A", 1))
            .run(k.snapshot("A"))
            .tick(3)
            .run(k.snapshot("A"))
            .run(k.window("admin", "A", w));
        st.add(&format!("window {}, two", w), s);
    }
    st.add("window never set", base.clone().run(k.snapshot("A")));
    st.add("window never set, none", base);
    let mut cases = vec![];
    for r in 0..st.ok.len() {
        let now = st.ok[r].1.now;
        for d in [0, 1, 2, 3, 4, 5, 6, 7_196, 7_197, 7_198, 7_199, 7_200, 7_201, 7_202, 7_203, 7_204, 1 << 32] {
            cases.push((r, k.snapshot("A"), now + d));
        }
    }
    st.run("snapshot windows", "35 farm states x 17 distances from the last snapshot", 600, &cases, |_, _| ())
}

/// A farm with ten mints, any subset of which is removed and replaced by new
/// ones, while two farmers have accrued some of the others.
pub fn ten_mints(deep: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    let old: Vec<String> = (0..10).map(|n| format!("H{}", n)).collect();
    let new: Vec<String> = (0..10).map(|n| format!("N{}", n)).collect();
    k.mint("S");
    for m in old.iter().chain(&new) {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob", "carol"] {
        k.user(u);
        k.wallet(u, "S", 1 << 40);
        for m in old.iter().chain(&new) {
            k.wallet(u, m, 1 << 40);
        }
    }
    let kit = k.clone();
    let k = &kit;
    let mut base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.start("alice", "alice", "A", "S", 2))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("bob", "bob", "A", "S", 6));
    for m in &old {
        base = base.run(k.add_harvest("admin", "A", m));
    }
    base = base.tick(1).run(k.snapshot("A")).run(k.settle("alice", "A")).run(k.settle("bob", "A")).tick(1);
    // each has had periods which are paid out to the last token: the shares are
    // 1/4 and 3/4
    let names: Vec<&str> = old.iter().map(|m| m.as_str()).collect();
    for r in 0..2 {
        for (n, m) in names.iter().enumerate() {
            base = base.run(k.new_period("admin", "A", m, 0, 2, 8 * (n as u64 + r)));
        }
        base = base.tick(2);
    }
    for u in ["alice", "bob"] {
        base = base.run(k.settle(u, "A")).run(k.claim(u, "A", &names));
    }
    let mut kinds: Vec<(u32, usize)> = (0..1 << 10).map(|r| (r, 0)).collect();
    if deep {
        kinds.extend((0..1 << 10).flat_map(|r| [(r, 1), (r, 2)]));
    } else {
        kinds.extend((0..1 << 10).filter(|r: &u32| r.count_ones() % 4 == 2).flat_map(|r| [(r, 1), (r, 2)]));
    }
    let case = |i: usize| {
        let (r, kind) = kinds[i];
        let gone: Vec<&str> = (0..10).filter(|b| r >> b & 1 == 1).map(|b| old[b].as_str()).collect();
        let kept: Vec<&str> = (0..10).filter(|b| r >> b & 1 == 0).map(|b| old[b].as_str()).collect();
        let mut s = base.clone();
        for (n, m) in kept.iter().enumerate() {
            s = s.run(k.airdrop("admin", "alice", "A", m, 100 + n as u64));
            if (n + kind) % 2 == 0 {
                s = s.run(k.airdrop("alice", "bob", "A", m, 7 + n as u64));
            }
        }
        let mut order = gone.clone();
        if kind == 1 {
            order.reverse();
        }
        for m in &order {
            s = s.run(k.remove_harvest("admin", "A", m));
        }
        if kind < 2 {
            s = s.tick(1).run(k.settle("alice", "A"));
        }
        let mut half: Vec<&str> = kept.iter().copied().step_by(2).collect();
        if !half.is_empty() {
            s = s.run(k.claim("alice", "A", &half));
        }
        // a removed mint may return
        let mut fresh: Vec<&str> = new.iter().map(|m| m.as_str()).take(gone.len()).collect();
        if kind > 0 && !gone.is_empty() {
            fresh[0] = gone[gone.len() / 2];
        }
        for m in &fresh {
            s = s.run(k.add_harvest("admin", "A", m));
        }
        for (n, m) in fresh.iter().chain(&kept).enumerate() {
            if n == 0 || n == 4 || n == 9 {
                s = s.run(k.new_period("admin", "A", m, 0, 3, 7 * (10 + n as u64)));
            }
        }
        // somebody who joins with ten mints, and gets some of them at once
        s = s.run(k.create_farmer("carol", "carol", "A"));
        let all: Vec<&str> = fresh.iter().chain(&kept).copied().collect();
        for (n, m) in all.iter().enumerate().filter(|(n, _)| (r >> n & 1 == 1) != (kind == 2)) {
            s = s.run(k.airdrop("admin", "carol", "A", m, 1 + n as u64));
        }
        s = s.attempt(k.close_farmer("carol", "A")).attempt(k.create_farmer("carol", "carol", "A"));
        s = s.tick(1).run(k.snapshot("A")).tick(1).run(k.settle("bob", "A")).tick(3).run(k.settle("alice", "A"));
        half = all.clone();
        if kind != 1 {
            half.reverse();
        }
        // all but one, then that one
        for u in ["carol", "alice"] {
            let last = half[r as usize % 10];
            let most: Vec<&str> = half.iter().copied().filter(|m| *m != last).collect();
            s = s.attempt(k.stop(u, "A", "S", MAX)).run(k.claim(u, "A", &most)).attempt(k.close_farmer(u, "A"));
            s = s.attempt(k.claim(u, "A", &[last])).attempt(k.close_farmer(u, "A"));
            // closed by now
            s = s.run(k.create_farmer("admin", u, "A")).run(k.close_farmer(u, "A"));
        }
        s = s.run(k.stop("bob", "A", "S", MAX)).run(k.claim("bob", "A", &half)).run(k.close_farmer("bob", "A"));
        let runs = s.path.iter().filter(|p| !p.starts_with("tick")).count() as u64;
        let (class, found) = match s.done() {
            Ok(_) => ("left".to_string(), None),
            Err((path, Some(v))) => ("difference".into(), Some(Found { v, root: format!("{:?} removed", gone), path })),
            Err((path, None)) => (format!("stuck: {}", path.join(" ")), None),
        };
        Case { class, runs, found }
    };
    sweep(
        "ten mints",
        "all subsets of ten harvest mints removed, replaced, funded, settled and claimed in one call",
        kinds.len(),
        Duration::from_secs(600),
        |i| format!("{:010b} removed, variant {}", kinds[i].0, kinds[i].1),
        case,
    )
}

/// Farms which emit ten mints, their own stake mint and that of a second farm
/// at each place of the list: compounding, claiming and closing.
pub fn ten_compounding(_: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    let names: Vec<String> = (0..10).map(|n| format!("M{}", n)).collect();
    for m in &names {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
        for m in &names {
            k.wallet(u, m, 1 << 40);
        }
    }
    let kit = k.clone();
    let k = &kit;
    let kinds: Vec<[usize; 4]> = (0..10)
        .flat_map(|q| (0..10).flat_map(move |p| (0..4).flat_map(move |w| (0..6).map(move |a| [q, p, w, a]))))
        .collect();
    let case = |i: usize| {
        let [q, p, way, amounts] = kinds[i];
        let (own, other) = (names[q].as_str(), names[(q + 3) % 10].as_str());
        // the order in which they are added
        let order: Vec<&str> = (0..10).map(|n| names[(n * 3 + p) % 10].as_str()).collect();
        let mut s = Script::new(k, 10)
            .run(k.create_farm("admin", "A", own))
            .run(k.create_farm("admin", "B", other))
            .run(k.window("admin", "A", 1))
            .run(k.whitelist("admin", "A", "A"))
            .run(k.whitelist("admin", "A", "B"));
        if way % 2 == 0 {
            s = s.run(k.create_farmer("alice", "alice", "A"));
        }
        for m in &order {
            s = s.run(k.add_harvest("admin", "A", m));
        }
        s = if way % 2 == 0 { s.run(k.settle("alice", "A")) } else { s.run(k.create_farmer("alice", "alice", "A")) };
        s = s.run(k.create_farmer("bob", "bob", "A")).run(k.create_farmer("alice", "bob", "B")).run(k.create_farmer("alice", "alice", "B"));
        s = s.run(k.start("alice", "alice", "A", own, 20)).tick(1).run(k.snapshot("A"));
        if way > 1 {
            for (n, m) in order.iter().enumerate().step_by(3) {
                s = s.run(k.new_period("admin", "A", m, 0, 5, 100 + n as u64));
            }
            s = s.tick(2);
        }
        for (n, m) in order.iter().enumerate() {
            let give = match amounts {
                0 => false,
                1 => true,
                2 => *m == own,
                3 => *m == other,
                4 => *m != own,
                _ => n % 2 == 0,
            };
            if give {
                s = s.run(k.airdrop("admin", "alice", "A", m, 1 + n as u64)).run(k.airdrop("admin", "bob", "A", m, 50 + n as u64));
            }
        }
        if amounts == 5 {
            s = s.run(k.settle("bob", "A"));
        }
        s = s.attempt(k.compound_across("alice", "A", "B", other)).attempt(k.compound_same("bob", "A", own));
        s = s.attempt(k.compound_across("alice", "A", "B", other)).attempt(k.compound_same("alice", "A", own));
        s = s.tick(1).run(k.snapshot("A")).tick(5).attempt(k.compound_across("bob", "A", "B", other));
        for u in ["alice", "bob"] {
            s = s.attempt(k.stop(u, "A", own, MAX)).attempt(k.stop(u, "B", other, MAX));
            let most: Vec<&str> = order.iter().copied().filter(|m| *m != order[9 - p]).collect();
            s = s.run(k.claim(u, "A", &most)).attempt(k.close_farmer(u, "A")).attempt(k.claim(u, "A", &[order[9 - p]]));
            s = s.attempt(k.close_farmer(u, "A")).run(k.close_farmer(u, "B"));
            s = s.run(k.create_farmer("admin", u, "A"));
        }
        let runs = s.path.iter().filter(|p| !p.starts_with("tick")).count() as u64;
        let (class, found) = match s.done() {
            Ok(_) => ("left".to_string(), None),
            Err((path, Some(v))) => ("difference".into(), Some(Found { v, root: format!("{:?}", kinds[i]), path })),
            Err((path, None)) => (format!("stuck: {}", path.join(" ")), None),
        };
        Case { class, runs, found }
    };
    sweep(
        "ten compounding",
        "10 stake mints x 10 orders of the harvest mints x 4 histories x 6 sets of amounts",
        kinds.len(),
        Duration::from_secs(300),
        |i| format!("{:?}", kinds[i]),
        case,
    )
}

/// Airdrop amounts against balances and amounts accrued before.
pub fn airdrops(_: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    for m in ["S", "H", "J"] {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
        for m in ["S", "H", "J"] {
            k.wallet(u, m, MAX / 4);
        }
    }
    let kit = k.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("admin", "B", "S"))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.add_harvest("admin", "B", "J"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.create_farmer("alice", "alice", "B"));
    let mut st = Starts::new(k);
    st.add("nothing yet", base.clone());
    st.add("one before", base.clone().run(k.airdrop("bob", "alice", "A", "H", 7)));
    st.add("much before", base.clone().run(k.airdrop("bob", "alice", "A", "H", MAX / 4)));
    st.add("mint added later", base.run(k.add_harvest("admin", "A", "J")));
    let mut cases = vec![];
    let mut bals = vec![];
    for r in 0..st.ok.len() {
        for (u, f) in [("alice", "A"), ("bob", "A"), ("alice", "B"), ("bob", "B")] {
            for m in ["S", "H", "J"] {
                for a in [0, 1, 2, 255, 1 << 32, MAX / 4, MAX / 4 + 1, MAX / 2, MAX - MAX / 4, MAX - MAX / 4 + 1, MAX - 1, MAX] {
                    for bal in [0, 1, a.wrapping_sub(1), a, a.wrapping_add(1), MAX] {
                        for taken in [0, 1, MAX / 2, MAX] {
                            cases.push((r, k.airdrop("bob", u, f, m, a), 0));
                            bals.push((k.i(&format!("bob/{}", m)), bal, k.i(&format!("{}:{}", f, u)), k.k(m), taken));
                        }
                    }
                }
            }
        }
    }
    st.run(
        "airdrops",
        "4 states x 4 farmers x 3 mints x 12 amounts x 6 wallet balances x 4 amounts accrued before",
        600,
        &cases,
        move |s, i| {
            let (w, bal, f, mint, taken) = bals[i];
            s.w.set(w, tok::with_amount(s.w.get(w), bal));
            // an amount accrued before which the vault need not cover here
            if taken > 0 {
                if let Some(Ok(_)) = abs::farmer(s.w.get(f)) {
                    let mut a = s.w.get(f).clone();
                    for k in 0..abs::MINTS {
                        let o = 8 + 64 + 32 + k * 40;
                        if a.data[o..o + 32] == mint.to_bytes() {
                            a.data[o + 32..o + 40].copy_from_slice(&u64::to_le_bytes(taken));
                        }
                    }
                    s.w.set(f, a);
                    // not a reachable balance of the vault: keep the invariant quiet
                    let owed = s.owed.iter().copied().chain((0..s.w.0.len()).map(|v| (v, u64::MAX as u128 * 2))).collect();
                    s.owed = std::sync::Arc::new(owed);
                }
            }
        },
    )
}

// -------------------------------------------------------------- substitution

/// Two farms, three users, forged and hostile accounts.
fn crowd() -> Kit {
    let mut k = Kit::new(false);
    k.farm("A");
    k.farm("B");
    for m in ["S", "H"] {
        k.mint(m);
    }
    k.mint("J");
    for u in ["admin", "boss", "alice", "mallory"] {
        k.user(u);
        for m in ["S", "H"] {
            k.wallet(u, m, 1_000);
        }
    }
    // not created yet
    k.farm("C");
    let evil = svm::evil_program();
    k.put("evil program", evil, AccData::program());
    let sp = |k: &Kit, n: &str| k.k(n);
    let (s, h, asig, bsig) = (sp(&k, "S"), sp(&k, "H"), sp(&k, "A.signer"), sp(&k, "B.signer"));
    let (alice, mallory) = (k.k("alice"), k.k("mallory"));
    k.put("look-alike A.vault", key("lav"), tok::account(s, asig, 500));
    k.put("look-alike A.H", key("lah"), tok::account(h, asig, 500));
    k.put("look-alike B.vault", key("lbv"), tok::account(s, bsig, 500));
    k.put("alice/S 2", key("a2"), tok::account(s, alice, 20));
    k.put("mallory/H 2", key("m2"), tok::account(h, mallory, 20));
    // alice's wallet with mallory as delegate
    let mut d = tok::read(&tok::account(s, alice, 300)).unwrap();
    d.delegate = COption::Some(mallory);
    d.delegated_amount = 40;
    k.put("alice/S delegated", key("ad"), tok::pack(&d));
    let mut f = tok::read(&tok::account(s, alice, 300)).unwrap();
    f.state = spl_token::state::AccountState::Frozen;
    k.put("alice/S frozen", key("af"), tok::pack(&f));
    k.put("blank token account", key("btok"), AccData::owned(spl_token::ID, vec![0; spl_token::state::Account::LEN]));
    k.put("short farm", key("sfarm"), AccData::owned(farming::ID, abs::farm_disc().to_vec()));
    k
}

/// Copies of the program's accounts owned by somebody else.
fn forge(k: &mut Kit, st: &St) -> St {
    let mut st = st.clone();
    let owner = key("forger's program");
    for n in ["A", "A:alice", "A>B", "A.vault", "A.H"] {
        let mut a = st.w.get(k.i(n)).clone();
        if a.data.is_empty() {
            continue;
        }
        a.owner = owner;
        let i = k.put(&format!("forged {}", n), key(&format!("forged {}", n)), a.clone());
        while st.w.0.len() <= i {
            st.w.0.push(AccData::none().arc());
        }
        st.w.set(i, a);
    }
    st
}

/// Every instruction with every account replaced by every other one.
pub fn substitution(thorough: bool) -> Suite {
    let k0 = crowd();
    let k = &k0;
    // what farm B stakes
    let build = |b: &str| {
        Script::new(k, 10)
            .run(k.create_farm("admin", "A", "S"))
            .run(k.create_farm("boss", "B", b))
            .run(k.window("admin", "A", 1))
            .run(k.window("boss", "B", 1))
            .run(k.add_harvest("admin", "A", "S"))
            .run(k.add_harvest("admin", "A", "H"))
            .run(k.add_harvest("boss", "B", "H"))
            .run(k.add_harvest("boss", "B", "S"))
            .run(k.create_farmer("alice", "alice", "A"))
            .run(k.create_farmer("alice", "alice", "B"))
            .run(k.create_farmer("mallory", "mallory", "A"))
            .run(k.create_farmer("admin", "boss", "A"))
            .run(k.start("alice", "alice", "A", "S", 30))
            .run(k.start("alice", "alice", "B", b, 11))
            .run(k.start("mallory", "mallory", "A", "S", 50))
            .run(k.airdrop("admin", "alice", "A", "H", 13))
            .run(k.airdrop("admin", "alice", "A", "S", 17))
            .run(k.airdrop("admin", "alice", "B", "H", 19))
            .run(k.airdrop("admin", "mallory", "A", "H", 7))
            .tick(1)
            .run(k.snapshot("A"))
            .run(k.snapshot("B"))
    };
    let white = |b: &str| {
        build(b)
            .run(k.whitelist("admin", "A", "B"))
            .run(k.whitelist("admin", "A", "A"))
            .run(k.new_period("admin", "A", "H", 0, 20, 8))
            .run(k.new_period("boss", "B", "H", 13, 4, 8))
            .tick(1)
    };
    // everybody everywhere, nothing vesting
    let settled = || {
        let mut s = build("S")
            .run(k.whitelist("admin", "A", "B"))
            .run(k.whitelist("boss", "B", "A"))
            .run(k.whitelist("admin", "A", "A"))
            .run(k.create_farmer("mallory", "mallory", "B"))
            .run(k.start("mallory", "mallory", "B", "S", 21))
            .run(k.airdrop("admin", "mallory", "A", "S", 23))
            .run(k.airdrop("admin", "mallory", "B", "S", 29))
            .run(k.airdrop("admin", "alice", "B", "S", 31))
            .run(k.new_period("admin", "A", "H", 0, 20, 8))
            .run(k.new_period("boss", "B", "H", 13, 4, 8))
            .tick(1)
            .run(k.snapshot("A"))
            .run(k.snapshot("B"))
            .tick(1);
        for (u, f) in [("alice", "A"), ("alice", "B"), ("mallory", "A"), ("mallory", "B")] {
            s = s.run(k.settle(u, f));
        }
        s
    };
    let mut kit = k0.clone();
    let mut states = vec![];
    let mut early = vec![];
    let mut stuck = vec![];
    for (n, s) in [
        ("whitelisted", white("S")),
        ("plain", build("S").tick(1)),
        ("different stakes", white("H")),
        ("settled", settled()),
    ] {
        match s.done() {
            Ok(st) => states.push((n, forge(&mut kit, &st))),
            Err((path, Some(v))) => early.push(Found { v, root: format!("(building {})", n), path }),
            Err((p, None)) => stuck.push(p.join(" ")),
        }
    }
    let k = &kit;
    let len = k.u.keys.len();
    let mut st = Starts::new(k);
    for (n, mut s) in states {
        while s.w.0.len() < len {
            s.w.0.push(AccData::none().arc());
        }
        let mut rich = s.clone();
        for (i, a) in k.a.iter().enumerate() {
            if *a == AccData::none() && !rich.w.exists(i) {
                rich.w.set(i, AccData::wallet(1 << 40));
            }
        }
        st.ok.push((n.into(), s));
        st.ok.push((format!("{}, lamports at every address", n), rich));
    }
    st.found = early;
    st.stuck = stuck;
    let instead = |mut x: Ix, old: &str, new: &str| {
        let m = x.metas.iter_mut().find(|m| m.i == k.i(old)).unwrap();
        m.i = k.i(new);
        x
    };
    let mut calls: Vec<Ix> = vec![
        // out of a wallet lent to the signer
        instead(k.start("mallory", "mallory", "A", "S", 5), "mallory/S", "alice/S delegated"),
        instead(k.start("mallory", "alice", "A", "S", 5), "mallory/S", "alice/S delegated"),
        instead(k.airdrop("mallory", "alice", "A", "S", 3), "mallory/S", "alice/S delegated"),
        k.create_farm("mallory", "C", "S"),
        k.set_owner("admin", "mallory", "A"),
        k.window("admin", "A", 4),
        k.remove_harvest("admin", "A", "S"),
        k.remove_harvest("boss", "B", "H"),
        k.add_harvest("boss", "B", "J"),
        k.new_period("admin", "A", "S", 0, 3, 5),
        k.new_period("boss", "B", "H", 14, 2, 3),
        k.snapshot("A"),
        k.create_farmer("mallory", "mallory", "B"),
        k.close_farmer("mallory", "A"),
        k.close_farmer("boss", "A"),
        k.remove_harvest("boss", "B", "S"),
        k.start("mallory", "alice", "A", "S", 5),
        k.start("alice", "alice", "B", "S", 5),
        k.stop("alice", "A", "S", 12),
        k.stop("alice", "A", "S", MAX),
        k.stop("mallory", "A", "S", MAX),
        k.settle("alice", "A"),
        k.settle_until("alice", "A", 11),
        k.claim("alice", "A", &["H"]),
        k.claim("mallory", "A", &["H", "S"]),
        k.whitelist("boss", "B", "A"),
        k.whitelist("boss", "B", "B"),
        k.dewhitelist("admin", "A", "B"),
        k.compound_same("alice", "A", "S"),
        k.compound_same("mallory", "A", "S"),
        k.compound_across("alice", "A", "B", "S"),
        k.compound_across("mallory", "A", "B", "S"),
        k.compound_across("alice", "A", "B", "H"),
        k.compound_across("alice", "B", "A", "S"),
        k.stop("mallory", "B", "S", 4),
        k.start("alice", "alice", "B", "H", 5),
        k.stop("alice", "B", "H", 5),
        k.airdrop("mallory", "alice", "A", "H", 3),
        k.airdrop("alice", "alice", "B", "H", 3),
    ];
    calls.retain(|c| !c.metas.is_empty());
    // whatever is not derived by a program may have a key
    let can_sign: HashSet<usize> = (0..len)
        .filter(|i| {
            let n = k.u.name(*i);
            let derived = k.farms.iter().any(|f| n.strip_prefix(f.as_str()).map_or(false, |r| r.starts_with(['.', ':', '>'])));
            !k.a[*i].executable && !derived
        })
        .collect();
    let mut cases: Vec<(usize, Ix, u64)> = vec![];
    for r in 0..st.ok.len() {
        for c in &calls {
            let n = c.metas.len();
            let single = |p: usize| -> Vec<Ix> {
                let mut out = vec![];
                if c.metas[p].s {
                    let mut x = c.clone();
                    x.metas[p].s = false;
                    out.push(x);
                }
                if c.metas[p].w {
                    let mut x = c.clone();
                    x.metas[p].w = false;
                    out.push(x);
                }
                for i in 0..len {
                    if i == c.metas[p].i {
                        continue;
                    }
                    let mut x = c.clone();
                    x.metas[p].i = i;
                    if c.metas[p].s && !can_sign.contains(&i) {
                        x.metas[p].s = false;
                    }
                    out.push(x);
                }
                out
            };
            cases.push((r, c.clone(), 0));
            for p in 0..n {
                for x in single(p) {
                    // pairs without the lamports
                    if thorough && r % 2 == 0 {
                        for q in p + 1..n {
                            if c.metas[q].s {
                                let mut y = x.clone();
                                y.metas[q].s = false;
                                cases.push((r, y, 0));
                            }
                            for i in 0..len {
                                let mut y = x.clone();
                                y.metas[q].i = i;
                                if c.metas[q].s && !can_sign.contains(&i) {
                                    y.metas[q].s = false;
                                }
                                cases.push((r, y, 0));
                            }
                        }
                    }
                    cases.push((r, x, 0));
                }
            }
            if r % 2 == 0 {
                // everything of the one farm, user, mint for that of the other
                let cap = if thorough { 400_000 } else { 60_000 };
                for mut x in k.u.mixed(c, &[&["A", "B"], &["alice", "mallory"], &["S", "H"]], cap) {
                    for m in x.metas.iter_mut() {
                        m.s &= can_sign.contains(&m.i);
                    }
                    cases.push((r, x, 0));
                }
            }
            for m in 0..n {
                let mut x = c.clone();
                x.metas.truncate(m);
                cases.push((r, x, 0));
            }
            for p in 0..n {
                // vault and wallet, farm and farm: exchanged
                for q in p + 1..n {
                    let mut x = c.clone();
                    x.metas[p].i = c.metas[q].i;
                    x.metas[q].i = c.metas[p].i;
                    for j in [p, q] {
                        x.metas[j].s &= can_sign.contains(&x.metas[j].i);
                    }
                    cases.push((r, x, 0));
                }
            }
            for i in 0..len {
                let mut x = c.clone();
                x.metas.push(svm::Meta { i, s: false, w: true });
                cases.push((r, x, 0));
            }
        }
    }
    let space = format!(
        "8 states x {} calls x every {} replaced by each of {} accounts, flags dropped, accounts cut off, added and exchanged; all mixtures of the accounts of two farms and users and their look-alikes",
        calls.len(),
        if thorough { "pair of accounts" } else { "account" },
        len
    );
    st.run("account substitution", &space, 700, &cases, |_, _| ())
}

/// Accounts which exist or hold lamports before they are created; closing and
/// creating again.
pub fn births(_: bool) -> Suite {
    let mut k = Kit::new(false);
    k.farm("A");
    k.farm("B");
    for m in ["S", "H"] {
        k.mint(m);
    }
    for u in ["admin", "alice", "poor"] {
        k.user(u);
        for m in ["S", "H"] {
            k.wallet(u, m, 1_000);
        }
    }
    let poor = k.i("poor");
    k.a[poor] = AccData::wallet(900_000);
    let kit = k.clone();
    let k = &kit;
    let mut st = Starts::new(k);
    st.add("blank", Script::new(k, 10));
    let one = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("admin", "B", "S"))
        .run(k.add_harvest("admin", "A", "S"));
    st.add("farms", one.clone());
    st.add("farmer", one.clone().run(k.create_farmer("alice", "alice", "A")).run(k.whitelist("admin", "A", "B")));
    st.add(
        "closed again",
        one.run(k.create_farmer("admin", "alice", "A"))
            .run(k.close_farmer("alice", "A"))
            .run(k.whitelist("admin", "A", "B"))
            .run(k.dewhitelist("admin", "A", "B"))
            .run(k.remove_harvest("admin", "A", "S")),
    );
    let mut calls = vec![];
    for payer in ["admin", "alice", "poor"] {
        for f in ["A", "B"] {
            calls.push(k.create_farm(payer, f, "S"));
            calls.push(k.create_farm(payer, f, "H"));
            for u in ["alice", "admin", "poor"] {
                calls.push(k.create_farmer(payer, u, f));
            }
            calls.push(k.add_harvest(payer, f, "S"));
            calls.push(k.add_harvest(payer, f, "H"));
            calls.push(k.close_farmer(payer, f));
            for g in ["A", "B"] {
                calls.push(k.whitelist(payer, f, g));
                calls.push(k.dewhitelist(payer, f, g));
            }
        }
    }
    let rent = |n: usize| svm::solana_program::rent::Rent::default().minimum_balance(n);
    let gifts = [
        0,
        1,
        890_880,
        rent(8) - 1,
        rent(8),
        rent(8) + 1,
        rent(165) - 1,
        rent(165),
        rent(165) + 1,
        rent(abs::FARMER_LEN) - 1,
        rent(abs::FARMER_LEN),
        rent(abs::FARMER_LEN) + 1,
        1 << 40,
    ];
    let targets = ["A.vault", "A.H", "A.S", "B.S", "A:alice", "B:alice", "A:poor", "A>B", "A>A", "B>A"];
    let mut cases = vec![];
    let mut how = vec![];
    for r in 0..st.ok.len() {
        for c in &calls {
            for (n, g) in gifts.iter().enumerate() {
                for t in targets {
                    let i = k.i(t);
                    if n > 0 && !c.metas.iter().any(|m| m.i == i) {
                        continue;
                    }
                    cases.push((r, c.clone(), 0));
                    how.push((i, *g));
                    if n == 0 {
                        break;
                    }
                }
            }
        }
    }
    st.run(
        "creating and closing",
        "4 states x 84 calls x 13 amounts of lamports sent to the new address before",
        600,
        &cases,
        move |s, i| {
            let (t, g) = how[i];
            if g > 0 && !s.w.exists(t) {
                s.w.set(t, AccData::wallet(g));
            }
        },
    )
}

/// The recorded finding: a slot paid out of the old window before the snapshot
/// in the same slot opens the new one.
pub fn boundary(_: bool) -> Suite {
    let mut kit = crate::profiles::one_farm(&["S", "H"]);
    kit.user("carol");
    let k = &kit;
    let mut s = Suite {
        name: "slot of a snapshot".into(),
        space: "one history: settled before and after a snapshot in the same slot".into(),
        ..Suite::default()
    };
    let script = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 5))
        .tick(1)
        .run(k.snapshot("A"))
        .run(k.settle("alice", "A"))
        .tick(1)
        .run(k.start("bob", "bob", "A", "S", 5))
        .run(k.new_period("admin", "A", "H", 13, 2, 10))
        // slots 13 and 14 pay 10 tokens each; alice takes all of slot 13
        .tick(1)
        .run(k.settle("alice", "A"))
        .run(k.snapshot("A"))
        .tick(1)
        .run(k.settle("bob", "A"))
        .run(k.settle("alice", "A"));
    let path = script.path.clone();
    s.cases = 1;
    s.runs = path.len() as u64;
    match script.done() {
        Err((path, Some(v))) => s.found.push(Found { v, root: "history".into(), path }),
        Err((p, None)) => s.capped = Some(p.join(" ")),
        Ok(st) => {
            let farm = spec::harvest_vault(&k.k("A"), &k.k("H"));
            let vault = tok::amount(st.w.get(k.u.find(&farm).unwrap()));
            let mut sum = 0;
            for u in ["alice", "bob"] {
                if let Some(Ok(f)) = abs::farmer(st.w.get(k.i(&format!("A:{}", u)))) {
                    sum += f.harvests.iter().map(|h| h.1).sum::<u64>();
                }
            }
            s.sample.push(path.join(" | "));
            let class = if sum > vault { "more accrued than funded" } else { "covered" };
            s.classes.insert(class.into(), 1);
            if sum > vault {
                s.found.push(Found {
                    v: Violation {
                        tags: ["F02", "F16"].into(),
                        soft: false,
                        what: format!("farmers accrued {} of {} funded: settled in the slot of a snapshot, before it", sum, vault),
                    },
                    root: "history".into(),
                    path,
                });
            }
        }
    }
    s
}

/// Amounts around every power of two: staked, vesting, accrued, funded; every
/// sequence of calls up to a length from there.
pub fn powers(deep: bool) -> Suite {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    for m in ["S", "H"] {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
    }
    for (u, m, n) in [
        ("alice", "S", 1u64 << 63),
        ("admin", "S", (1 << 63) - 2),
        ("bob", "S", 1),
        ("admin", "H", MAX),
        ("alice", "H", 0),
        ("bob", "H", 0),
    ] {
        k.wallet(u, m, n);
    }
    let kit = k.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("admin", "B", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.add_harvest("admin", "A", "S"))
        .run(k.whitelist("admin", "A", "A"))
        .run(k.whitelist("admin", "A", "B"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("alice", "alice", "B"))
        .run(k.create_farmer("bob", "bob", "A"));
    let mut st = Starts::new(k);
    let mut ops: Vec<Vec<Option<Ix>>> = vec![];
    for bit in 0..64u32 {
        for off in [0i128, 1, -1] {
            let n = ((1i128 << bit) + off) as u64;
            if bit < 2 && off != 0 || n > 1 << 63 {
                continue;
            }
            let give = n.min((1 << 63) - 2);
            let staked = || {
                base.clone().run(k.start("alice", "alice", "A", "S", n)).tick(1).run(k.snapshot("A")).tick(1)
            };
            let mut all = vec![
                ("vesting", base.clone().run(k.start("alice", "alice", "A", "S", n))),
                ("staked", staked().run(k.settle("alice", "A"))),
                ("H accrued", base.clone().run(k.airdrop("admin", "alice", "A", "H", n))),
                ("S accrued", base.clone().run(k.airdrop("admin", "alice", "A", "S", give))),
                (
                    "paid each slot",
                    base.clone()
                        .run(k.start("alice", "alice", "A", "S", 2))
                        .run(k.start("bob", "bob", "A", "S", 1))
                        .tick(1)
                        .run(k.snapshot("A"))
                        .run(k.new_period("admin", "A", "H", 0, 2, n.min(MAX / 2)))
                        .tick(1),
                ),
                (
                    "staked beside one",
                    base.clone()
                        .run(k.start("alice", "alice", "A", "S", n))
                        .run(k.start("bob", "bob", "A", "S", 1))
                        .tick(1)
                        .run(k.snapshot("A"))
                        .run(k.new_period("admin", "A", "H", 0, 4, 1000))
                        .tick(2),
                ),
            ];
            if n > 1 {
                all.push(("half vesting", base.clone().run(k.start("alice", "alice", "A", "S", n / 2)).tick(1).run(k.snapshot("A")).tick(1).run(k.start("alice", "alice", "A", "S", n - n / 2))));
            }
            for (name, s) in all {
                let before = st.ok.len();
                st.add(&format!("{} {}", n, name), s);
                if st.ok.len() == before {
                    continue;
                }
                let mut o = vec![None];
                for a in [n - 1, n, n.saturating_add(1)] {
                    o.push(Some(k.stop("alice", "A", "S", a)));
                }
                o.extend(
                    [
                        k.stop("alice", "A", "S", MAX),
                        k.stop("bob", "A", "S", MAX),
                        k.close_farmer("alice", "A"),
                        k.claim("alice", "A", &["H", "S"]),
                        k.claim("bob", "A", &["H"]),
                        k.settle("alice", "A"),
                        k.settle("bob", "A"),
                        k.snapshot("A"),
                        k.start("alice", "alice", "A", "S", n),
                        k.compound_same("alice", "A", "S"),
                        k.compound_across("alice", "A", "B", "S"),
                        k.airdrop("admin", "bob", "A", "H", n),
                        k.new_period("admin", "A", "H", 0, 1, n),
                        k.new_period("admin", "A", "S", 0, n, 1),
                    ]
                    .map(Some),
                );
                ops.push(o);
            }
        }
    }
    let depth = if deep { 3 } else { 2 };
    let ok = &st.ok;
    let case = |i: usize| {
        let mut c = Case { class: String::new(), runs: 0, found: None };
        let mut level = vec![(ok[i].1.clone(), vec![])];
        let (mut yes, mut no) = (0u64, 0u64);
        for d in 0..depth {
            let mut next = vec![];
            for (s, path) in &level {
                for o in &ops[i] {
                    let (n, what) = match o {
                        None => (Some(tick(s, 1)), "tick 1".to_string()),
                        Some(ix) => {
                            c.runs += 1;
                            let out = judge::call(&kit.u, s, ix, false);
                            let v = out.violation.or_else(|| out.next.as_ref().and_then(|n| judge::invariants(&kit.u, n)));
                            if let Some(v) = v {
                                let mut p: Vec<String> = path.clone();
                                p.push(crate::show(&kit.u, ix));
                                c.found = Some(Found { v, root: ok[i].0.clone(), path: p });
                                c.class = "difference".into();
                                return c;
                            }
                            (out.next, crate::show(&kit.u, ix))
                        }
                    };
                    match n {
                        None => no += 1,
                        Some(n) => {
                            yes += 1;
                            if d + 1 < depth {
                                let mut p = path.clone();
                                p.push(what);
                                next.push((n, p));
                            }
                        }
                    }
                }
            }
            level = next;
        }
        c.class = format!("{}: {} calls went through, {} refused", ok[i].0.split(' ').skip(1).collect::<Vec<_>>().join(" "), if yes > no { "most" } else { "some" }, if no > 0 { "some" } else { "none" });
        c
    };
    let n = ok.len();
    let mut s = sweep(
        "powers of two",
        &format!("every 2^k and its neighbours, staked, vesting, accrued or paid: all sequences of {} calls of 18", depth),
        n,
        Duration::from_secs(600),
        |i| ok[i].0.clone(),
        case,
    );
    s.found.splice(0..0, st.found);
    if !st.stuck.is_empty() {
        s.capped = Some(format!("starting points not reached: {}", st.stuck.join(", ")));
    }
    s
}
