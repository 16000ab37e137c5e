//! Finite families of single calls (or short histories), enumerated completely.
use crate::abs;
use crate::judge::{self, St};
use crate::kit::{program_data, Kit};
use crate::model::Script;
use crate::profiles::{created, one_pool, MAX, MINTS};
use std::collections::HashSet;
use std::time::Duration;
use svm::bfs::{Found, Violation};
use svm::report::{sweep, Case, Suite};
use svm::solana_program::program_option::COption;
use svm::solana_program::program_pack::Pack;
use svm::solana_program::pubkey::Pubkey;
use svm::solana_program::rent::Rent;
use svm::spl_token;
use svm::{key, tok, AccData, Ix, Meta};

/// One case: a short judged history.
pub struct Go<'a> {
    pub k: &'a Kit,
    pub st: St,
    pub path: Vec<String>,
    pub runs: u64,
    pub v: Option<Violation>,
    pub soft: Option<Violation>,
    pub class: String,
}

impl<'a> Go<'a> {
    fn new(k: &'a Kit, st: &St) -> Self {
        Go { k, st: st.clone(), path: vec![], runs: 0, v: None, soft: None, class: String::new() }
    }
    fn note(&mut self, s: String) {
        self.path.push(s);
    }
    /// runs it in the current state, does not go on from there
    fn try_ix(&mut self, ix: &Ix) -> Option<St> {
        if self.v.is_some() {
            return None;
        }
        self.runs += 1;
        let o = judge::call(&self.k.u, &self.st, ix);
        let mut v = o.violation;
        if v.as_ref().map_or(false, |v| v.soft) {
            self.soft = v.take();
        }
        if v.is_none() {
            if let Some(n) = &o.next {
                v = judge::invariants(&self.k.u, n);
            }
        }
        self.class = o.class;
        if v.is_some() {
            self.path.push(crate::show(&self.k.u, ix));
            self.v = v;
            return None;
        }
        o.next
    }
    fn step(&mut self, ix: &Ix) -> bool {
        match self.try_ix(ix) {
            Some(n) => {
                self.path.push(crate::show(&self.k.u, ix));
                self.st = n;
                true
            }
            None => false,
        }
    }
    fn bad(&mut self, tags: &[&'static str], what: String) {
        self.v.get_or_insert(Violation::new(tags.iter().copied().collect(), what));
    }
    fn amount(&self, name: &str) -> u64 {
        tok::amount(self.st.w.get(self.k.i(name)))
    }
}

/// Bases (built by judged scripts) and cases over them.
struct Base<'a> {
    kit: &'a Kit,
    ok: Vec<(String, St)>,
    found: Vec<Found>,
    stuck: Vec<String>,
}

impl<'a> Base<'a> {
    fn new(kit: &'a Kit) -> Self {
        Base { kit, ok: vec![], found: vec![], stuck: vec![] }
    }
    fn add(&mut self, name: &str, s: Script) {
        match s.done() {
            Ok(st) => self.ok.push((name.into(), st)),
            Err((path, Some(v))) => self.found.push(Found { v, root: format!("(building {})", name), path }),
            Err((path, None)) => self.stuck.push(format!("{}: {}", name, path.join(" "))),
        }
    }
    fn run<C: Sync>(
        self,
        name: &str,
        space: &str,
        cases: &[(usize, C)],
        label: impl Fn(&C) -> String,
        f: impl Fn(&mut Go, &C) + Sync,
    ) -> Suite {
        let ok = &self.ok;
        let kit = self.kit;
        let usable: Vec<&(usize, C)> = cases.iter().filter(|c| c.0 < ok.len()).collect();
        let mut s = sweep(
            name,
            space,
            usable.len(),
            Duration::from_secs(700),
            |i| format!("{}: {}", ok[usable[i].0].0, label(&usable[i].1)),
            |i| {
                let (b, c) = usable[i];
                let mut g = Go::new(kit, &ok[*b].1);
                f(&mut g, c);
                Case {
                    class: g.class,
                    runs: g.runs,
                    found: g.v.or(g.soft).map(|v| Found { v, root: ok[*b].0.clone(), path: g.path }),
                }
            },
        );
        s.found.splice(0..0, self.found);
        if !self.stuck.is_empty() {
            s.capped = Some(format!("starting points not reached: {}", self.stuck.join(", ")));
        }
        s
    }
}

/// Created pools of two to four reserves, at positions 0, 1, 2; users are rich.
fn pools(amp: u64, kits: &[Kit]) -> Vec<Base> {
    kits.iter()
        .map(|k| {
            let mut b = Base::new(k);
            b.add(&format!("{} reserves", k.mints("P").len()), created(k, amp));
            b
        })
        .collect()
}

fn join(name: &str, space: &str, parts: Vec<Suite>) -> Suite {
    let mut s = Suite { name: name.into(), space: space.into(), ..Suite::default() };
    for p in parts {
        s.cases += p.cases;
        s.runs += p.runs;
        for (k, v) in p.classes {
            *s.classes.entry(k).or_default() += v;
        }
        s.found.extend(p.found);
        s.sample.extend(p.sample);
        s.wall += p.wall;
        if s.capped.is_none() {
            s.capped = p.capped;
        }
    }
    s
}

fn vectors(n: usize, vals: &[u64]) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .iter()
            .flat_map(|v| {
                vals.iter().map(move |x| {
                    let mut v = v.clone();
                    v.push(*x);
                    v
                })
            })
            .collect();
    }
    out
}

fn uniq(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v.dedup();
    v
}

struct Trade {
    x: Vec<u64>,
    supply: u64,
    fee: u64,
    dir: (usize, usize),
    sell: u64,
}

fn trade_label(t: &Trade) -> String {
    format!("{:?} supply {} fee {}: sell {} of {:?}", t.x, t.supply, t.fee, t.sell, t.dir)
}

/// A swap, and the same one with the limit exactly met and missed by one.
fn trade(g: &mut Go, t: &Trade, seeded: bool) {
    let k = g.k;
    g.note(trade_label(t));
    if seeded {
        // the stable invariant has to be the program's own
        let ix = k.deposit("alice", "P", &t.x);
        if !g.step(&ix) {
            return;
        }
        k.shape(&mut g.st, "P", None, Some(("alice", t.supply)), Some(t.fee));
    } else {
        k.shape(&mut g.st, "P", Some(&t.x), Some(("alice", t.supply)), Some(t.fee));
    }
    let (a, b) = (MINTS[t.dir.0], MINTS[t.dir.1]);
    let w = format!("carol/{}", b);
    let before = g.amount(&w);
    let Some(n) = g.try_ix(&k.swap("carol", "P", a, b, t.sell, 0)) else { return };
    let class = g.class.clone();
    let got = tok::amount(n.w.get(k.i(&w))) - before;
    g.try_ix(&k.swap("carol", "P", a, b, t.sell, got));
    if let Some(after) = got.checked_add(1) {
        if g.try_ix(&k.swap("carol", "P", a, b, t.sell, after)).is_some() {
            g.bad(&["A05"], format!("bought {} where at least {} was asked for", got, after));
        }
    }
    g.class = class;
}

fn magnitudes() -> Vec<u64> {
    vec![
        1,
        2,
        10,
        999,
        1_000_003,
        999_999_999,
        9_999_999_999,
        10_000_000_001,
        1 << 40,
        123_456_789_012_345,
        999_999_999_999_999_989,
        1 << 62,
        MAX / 2 - 1,
    ]
}

/// Swaps on constant product pools.
pub fn product_swaps(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5).map(|n| one_pool(n, MAX / 2)).collect();
    let mut parts = vec![];
    for (b, n) in pools(0, &kits).into_iter().zip(2..) {
        let mut cases = vec![];
        let mut add = |x: &[u64], supply, fee, dir, sell| {
            cases.push((0, Trade { x: x.to_vec(), supply, fee, dir, sell }));
        };
        let dirs: Vec<(usize, usize)> = if n == 2 { vec![(0, 1), (1, 0)] } else { vec![(0, n - 1), (n - 1, 1), (1, 0)] };
        // small
        let vals: Vec<u64> = match (n, deep) {
            (2, false) => (1..=14).collect(),
            (2, true) => (1..=30).collect(),
            (3, false) => vec![1, 2, 3, 5, 8, 13],
            (3, true) => vec![1, 2, 3, 4, 5, 6, 7, 9, 12, 17],
            (_, false) => vec![1, 3, 7],
            (_, true) => vec![1, 2, 3, 5, 11],
        };
        let fees: &[u64] = if deep { &[0, 1, 3_000, 10_000] } else { &[0, 10_000] };
        for x in vectors(n, &vals) {
            for &fee in fees {
                for &d in &dirs {
                    for sell in 1..=x[d.0] + 1 {
                        add(&x, 7 * n as u64, fee, d, sell);
                    }
                }
            }
        }
        // hundreds to thousands, where fee and toll are whole tokens
        for x in vectors(n, if n == 2 { &[150, 1_999, 2_000, 70_001] } else { &[150, 3_001] }) {
            for supply in [1, 50, 100_000] {
                for fee in [1, 3_000, 9_999, 10_000] {
                    for &d in &dirs {
                        let r = x[d.0];
                        for sell in uniq(vec![r / 30, r / 7, r / 3, r / 2, r - 1, r, r + r / 99, r + r / 99 + 1]) {
                            if sell > 0 {
                                add(&x, supply, fee, d, sell);
                            }
                        }
                    }
                }
            }
        }
        let m = magnitudes();
        let pick: Vec<u64> = match n {
            2 => m.clone(),
            3 => vec![1, 999, 10_000_000_001, 123_456_789_012_345, MAX / 2 - 1],
            _ => vec![3, 1_000_003, 999_999_999_999],
        };
        for x in vectors(n, &pick) {
            for &d in &dirs {
                let r = x[d.0];
                let o = x[d.1];
                let mut sells = uniq(vec![1, 2, 1_000, 1_000_001, r / 1_000, r / 3, r / 2, r - 1, r, r + 1, o, r / o.max(1), r / o.max(1) + 1, MAX / 2]);
                sells.retain(|s| *s > 0);
                for sell in sells {
                    for fee in [0, 2_999] {
                        for supply in [1, 1_000_003, 1 << 61] {
                            if supply != 1_000_003 && (fee == 0 || n > 2 && !deep) {
                                continue;
                            }
                            add(&x, supply, fee, d, sell);
                        }
                    }
                }
            }
        }
        // every digit matters: products just around multiples
        if n == 2 {
            let base: &[u64] = &[1_000_000_007, 1_000_000_000_039, 4_611_686_018_427_387_847];
            for &p in base {
                for dx in 0..if deep { 40 } else { 12 } {
                    for dy in 0..6 {
                        for sell in [1, 2, 3, p / 2, p - 1] {
                            add(&[p - dx, p - 1 + dy], 1_000, 0, (0, 1), sell);
                        }
                    }
                }
            }
        }
        parts.push(b.run("swaps", "", &cases, trade_label, |g, t| trade(g, t, false)));
    }
    join(
        "constant product swaps",
        "2-4 reserves: all small reserves x every sell amount, hundreds and thousands, magnitudes up to 2^63, x fee x LP supply x direction; each also with its limit met and missed by one",
        parts,
    )
}

/// Fee, discount and its expiry.
pub fn fees(deep: bool) -> Suite {
    let kits = [one_pool(2, MAX / 2), one_pool(3, MAX / 2)];
    let mut parts = vec![];
    for b in pools(0, &kits) {
        let n = b.kit.mints("P").len();
        let mut cases = vec![];
        let fees: &[u64] = if deep {
            &[0, 1, 2, 3, 10, 100, 333, 999, 2_999, 3_000, 3_001, 5_000, 7_777, 9_999, 10_000]
        } else {
            &[0, 1, 3, 333, 3_000, 9_999, 10_000]
        };
        // amount, now, valid until
        let mut ds: Vec<Option<(u64, u64, u64)>> = vec![None];
        for a in [0, 1, 1_000, 333_333, 500_000, 999_999, 1_000_000] {
            for until in [9, 10, 11, MAX] {
                if until == 10 || until == 11 || a == 500_000 {
                    ds.push(Some((a, 10, until)));
                }
            }
        }
        // slots which do not fit into fewer bits
        for b in [31, 32, 48, 53, 63] {
            let b = 1u64 << b;
            for (now, until) in [(10, b), (10, b + 5), (b, b - 1), (b + 3, 10), (b + 3, b + 3), (b + 3, b + 2)] {
                ds.push(Some((500_000, now, until)));
            }
        }
        let mut sells: Vec<u64> = if deep { (1..=120).collect() } else { (1..=12).collect() };
        sells.extend([
            99, 100, 101, 199, 200, 201, 333, 334, 999, 1_000, 1_001, 9_999, 10_000, 10_001, 99_999, 100_000,
            100_001, 999_999, 1_000_000, 1_000_001, 123_456_789, 1_000_000_000_001,
        ]);
        let sells = uniq(sells);
        let shapes: &[(u64, u64, u64)] = &[
            (3_000_000_000_000, 2_000_000_000_000, 1_000_000),
            (3_000_000_000_000, 2_000_000_000_000, 4_000_000_000_000),
            (2_000_000_000_000, 1_000_001, 9_000_000_000_000_000_000),
            (2_000_000, 9_000_000_000, 1_000_000_000_000),
        ];
        for &fee in fees {
            for &d in &ds {
                for &sell in &sells {
                    for (k, &s) in shapes.iter().enumerate() {
                        if k > 1 && !deep && d.map_or(false, |d| (d.1, d.2) != (10, 10)) || k > 0 && d.map_or(false, |d| d.1 != 10) {
                            continue;
                        }
                        cases.push((0, (fee, d, sell, s)));
                    }
                }
            }
        }
        type C = (u64, Option<(u64, u64, u64)>, u64, (u64, u64, u64));
        parts.push(b.run(
            "fees",
            "",
            &cases,
            |c: &C| format!("{:?}", c),
            |g, (fee, d, sell, (x, y, supply))| {
                let k = g.k;
                g.st.now = d.map_or(10, |d| d.1);
                g.note(format!("fee {} discount {:?} reserves {} {} supply {} slot {}", fee, d, x, y, supply, g.st.now));
                let mut r = vec![*x, *y];
                r.resize(n, *y + 17);
                k.shape(&mut g.st, "P", Some(&r), Some(("alice", *supply)), Some(*fee));
                if let Some((a, _, until)) = d {
                    k.discount(&mut g.st, "carol", *a, *until);
                    // must not matter
                    k.discount(&mut g.st, "bob", 123_456, MAX);
                }
                g.step(&k.swap("carol", "P", "X", "Y", *sell, 0));
            },
        ));
    }
    join("fees and discounts", "fee x discount x expiry slot x sell amount x four pool shapes, 2 and 3 reserves", parts)
}

/// Swaps on stable pools whose invariant the program computed from a first deposit.
pub fn stable_swaps(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5).map(|n| one_pool(n, MAX / 2)).collect();
    let amps: &[u64] = if deep { &[1, 2, 10, 85, 100, 1_000, 20_000] } else { &[1, 10, 100, 1_000] };
    let mut parts = vec![];
    for k in &kits {
        let n = k.mints("P").len();
        let mut b = Base::new(k);
        for a in amps {
            b.add(&format!("{} reserves, amplifier {}", n, a), created(k, *a));
        }
        let mut xs: Vec<Vec<u64>> = vec![];
        let small: Vec<u64> = match (n, deep) {
            (2, false) => vec![1, 2, 3, 5, 7, 10, 13, 20],
            (2, true) => (1..=24).collect(),
            (3, false) => vec![1, 4, 9],
            (3, true) => vec![1, 2, 4, 7, 11, 16],
            (_, false) => vec![2, 9],
            (_, true) => vec![1, 3, 9],
        };
        xs.extend(vectors(n, &small));
        let mid: &[u64] = if n == 2 { &[150, 500, 2_000, 9_999, 70_001] } else { &[150, 2_000, 9_999] };
        if n < 4 || deep {
            xs.extend(vectors(n, mid));
        } else {
            xs.extend(vectors(n, &[150, 9_999]));
        }
        let large: &[u64] = match n {
            2 => &[
                1_000_003,
                30_000_000,
                999_999_999,
                10_000_000_001,
                1_234_567_890_123,
                1_230_000_000_001,
                123_456_789_012_345,
                999_999_999_999_999_989,
                1 << 61,
                MAX / 2 - 1,
            ],
            3 => &[1_000_003, 77_777_777, 1_234_567_890_123, 999_999_999_999_999_989],
            _ => &[1_000_003, 20_000_000, 1_234_567_890_123],
        };
        xs.extend(vectors(n, large));
        // far out of balance
        let apart: &[u64] = match n {
            2 => &[1, 40, 999, 1_000_003, 999_999_999_999_999_989],
            3 => &[3, 999, 1_234_567_890_123],
            _ => &[20, 1_234_567_890],
        };
        xs.extend(vectors(n, apart));
        let dirs: Vec<(usize, usize)> = if n == 2 { vec![(0, 1), (1, 0)] } else { vec![(0, n - 1), (n - 1, 1)] };
        let mut cases = vec![];
        for a in 0..amps.len() {
            for x in &xs {
                for &dir in &dirs {
                    let r = x[dir.0];
                    let mut sells = if r < 30 {
                        (1..=r).collect()
                    } else {
                        uniq(vec![1, 2, 3, r / 1_000, r / 30, r / 3, r / 2, r - 1, r])
                    };
                    sells.retain(|s| *s > 0);
                    for sell in sells {
                        for fee in [0, 10_000] {
                            if fee > 0 && !deep && sell < r / 3 {
                                continue;
                            }
                            let supply = if sell % 2 == 0 { 1_000_003 } else { x[0] };
                            cases.push((a, Trade { x: x.clone(), supply, fee, dir, sell }));
                        }
                    }
                }
            }
        }
        parts.push(b.run("swaps", "", &cases, trade_label, |g, t| trade(g, t, true)));
    }
    join(
        "stable swaps",
        "2-4 reserves: amplifier x reserves (small, hundreds to thousands, magnitudes, far out of balance) x sell amount x fee x direction, after a first deposit; each also with its limit met and missed by one",
        parts,
    )
}

/// Invariants of first deposits, and of what redemptions and further deposits leave.
pub fn invariants(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5).map(|n| one_pool(n, MAX / 2)).collect();
    let amps: &[u64] = if deep {
        &[1, 2, 3, 5, 10, 50, 85, 100, 200, 1_000, 5_000, 20_000, 1_000_000]
    } else {
        &[1, 2, 10, 100, 5_000]
    };
    let mut parts = vec![];
    for k in &kits {
        let n = k.mints("P").len();
        let mut b = Base::new(k);
        for a in amps {
            b.add(&format!("{} reserves, amplifier {}", n, a), created(k, *a));
        }
        let mut xs: Vec<Vec<u64>> = vec![];
        // equal reserves of all magnitudes and digits
        let mut v = 1u64;
        let mut eq = vec![];
        while v < MAX / 40 {
            for d in [0, 1, 3, 7] {
                eq.push(v + d);
            }
            eq.push(v / 9 * 10 + 1);
            v = v / 10 * 17 + v % 10 * 17 / 10 + 1;
        }
        eq.extend([1 << 10, 1 << 20, 1 << 30, 1 << 40, 1 << 50, 1 << 60, 1 << 62, MAX / 2]);
        eq.extend([1_230_000_000_001, 1_234_567_890_123, 999_999_999_999, 333_333_333_333_333_333]);
        for x in uniq(eq) {
            xs.push(vec![x; n]);
            // almost equal
            let mut y = vec![x; n];
            y[n - 1] += 1;
            xs.push(y);
        }
        let grid: Vec<u64> = match (n, deep) {
            (2, false) => vec![
                1, 2, 3, 5, 8, 13, 21, 50, 100, 333, 1_000, 1_001, 4_567, 10_000, 99_999, 1_000_000, 7_654_321, 100_000_000,
                1_000_000_007, 10_000_000_000, 123_456_789_012, 1_000_000_000_000, 98_765_432_109_876, 1_000_000_000_000_000,
                999_999_999_999_999_999, 1 << 60, MAX / 2,
            ],
            (2, true) => {
                let mut g = vec![];
                let mut v = 1u64;
                while v < MAX / 4 {
                    g.extend([v, v + 1, v * 2 + 1]);
                    v = v * 3 + v / 2 + 1;
                }
                uniq(g)
            }
            (3, false) => vec![1, 9, 100, 1_001, 30_000, 1_000_003, 500_000_000, 10_000_000_001, 123_456_789_012_345, 1 << 60],
            (3, true) => vec![
                1, 2, 9, 100, 333, 1_001, 30_000, 262_144, 1_000_003, 20_000_000, 500_000_000, 10_000_000_001,
                777_777_777_777, 123_456_789_012_345, 11_111_111_111_111_111, 1 << 60, MAX / 2,
            ],
            (_, false) => vec![3, 1_001, 1_000_003, 12_345_678_901, 1 << 58],
            (_, true) => vec![1, 9, 1_001, 77_777, 1_000_003, 300_000_000, 12_345_678_901, 98_765_432_109_876, 1 << 58],
        };
        xs.extend(vectors(n, &grid));
        let mut cases = vec![];
        for a in 0..amps.len() {
            for x in &xs {
                cases.push((a, x.clone()));
            }
        }
        parts.push(b.run("invariants", "", &cases, |x| format!("{:?}", x), |g, x| {
            let k = g.k;
            g.note(format!("{:?}", x));
            if !g.step(&k.deposit("alice", "P", x)) {
                return;
            }
            let class = g.class.clone();
            // what is left or added
            let lp = g.amount("alice/P.lp");
            if lp > 2 {
                g.try_ix(&k.redeem("alice", "P", lp / 3, &vec![0; x.len()]));
            }
            g.try_ix(&k.redeem("alice", "P", lp, x));
            g.try_ix(&k.deposit("bob", "P", x));
            g.class = class;
        }));
    }
    join(
        "stable invariants",
        "2-4 reserves: amplifier x reserves (equal and almost equal ones of all magnitudes, grids up to 2^63), each followed by a partial and a full redemption and a further deposit",
        parts,
    )
}

struct Add {
    x: Vec<u64>,
    supply: u64,
    max: Vec<u64>,
}

/// Deposits to pools of a given shape.
pub fn deposits(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5).map(|n| one_pool(n, MAX / 2)).collect();
    let mut parts = vec![];
    for (b, n) in pools(0, &kits).into_iter().zip(2..) {
        let mut cases = vec![];
        let mut add = |x: &[u64], supply: u64, max: &[u64]| {
            cases.push((0, Add { x: x.to_vec(), supply, max: max.to_vec() }));
        };
        let (xs, ms): (Vec<u64>, Vec<u64>) = match (n, deep) {
            (2, false) => ((1..=7).collect(), (0..=8).collect()),
            (2, true) => ((1..=12).collect(), (0..=14).collect()),
            (3, false) => (vec![1, 2, 5], vec![1, 2, 3, 7]),
            (3, true) => (vec![1, 2, 3, 5, 8], vec![0, 1, 2, 3, 7, 9]),
            (_, false) => (vec![1, 6], vec![1, 2, 7]),
            (_, true) => (vec![1, 2, 7], vec![1, 2, 3, 7]),
        };
        for x in vectors(n, &xs) {
            for m in vectors(n, &ms) {
                for supply in [1, 2, 5, 7, 100] {
                    if (supply == 2 || supply == 7) && (n > 2 || !deep) {
                        continue;
                    }
                    add(&x, supply, &m);
                }
            }
        }
        // magnitudes around the switch to the inverted ratio and up
        let vals: Vec<u64> = match n {
            2 => vec![
                3,
                1_000,
                999_983,
                9_999_999_999,
                10_000_000_000,
                10_000_000_001,
                30_000_000_000,
                100_000_000_000,
                1_000_000_000_039,
                123_456_789_012_345_678,
                1 << 60,
                MAX / 4,
            ],
            3 => vec![7, 10_000_000_000, 100_000_000_003, 1 << 60],
            _ => vec![1_000, 10_000_000_001, 1 << 59],
        };
        for x in vectors(n, &vals) {
            let scaled = |num: u64, den: u64| -> Vec<u64> {
                x.iter().map(|v| ((*v as u128 * num as u128 / den as u128) as u64).max(1).min(MAX / 2)).collect()
            };
            let mut ms = vec![
                vec![1; n],
                x.clone(),
                scaled(3, 10),
                scaled(1, 3),
                scaled(7, 9),
                scaled(1, 1_000_003),
                scaled(3, 2),
                scaled(1, 1_000_000_000_000),
            ];
            for i in 0..n {
                for d in [1, 3, 7] {
                    let mut m = scaled(1, 3);
                    m[i] = (m[i] / d).max(1);
                    ms.push(m);
                }
                let mut m = vec![MAX / 2; n];
                m[i] = (x[i] / 7).max(1);
                ms.push(m);
            }
            for m in ms {
                for supply in [3, 1_000_003, x[0].min(MAX / 8), 1 << 61] {
                    if n > 2 && !deep && supply == 3 {
                        continue;
                    }
                    add(&x, supply, &m);
                }
            }
        }
        parts.push(b.run(
            "deposits",
            "",
            &cases,
            |c: &Add| format!("{:?} supply {}: {:?}", c.x, c.supply, c.max),
            |g, c| {
                let k = g.k;
                g.note(format!("reserves {:?} supply {}", c.x, c.supply));
                k.shape(&mut g.st, "P", Some(&c.x), Some(("alice", c.supply)), None);
                let before: Vec<u64> = MINTS[..c.x.len()].iter().map(|m| g.amount(&format!("bob/{}", m))).collect();
                if !g.step(&k.deposit("bob", "P", &c.max)) {
                    return;
                }
                let class = g.class.clone();
                let lp = g.amount("bob/P.lp");
                let mut h = Go::new(k, &g.st);
                h.step(&k.redeem("bob", "P", lp, &vec![0; c.x.len()]));
                g.runs += h.runs;
                if let Some(v) = h.v {
                    g.path.extend(h.path);
                    g.v = Some(v);
                    return;
                }
                for (m, b) in MINTS.iter().zip(&before) {
                    if h.amount(&format!("bob/{}", m)) > *b {
                        g.bad(&["A04"], format!("depositing and redeeming yields more {}", m));
                    }
                }
                g.class = class;
            },
        ));
    }
    join(
        "deposits",
        "2-4 reserves: all small reserves x maxima x LP supply, magnitudes around the switch of the ratio's computation and up to 2^62; each followed by redeeming what it earned",
        parts,
    )
}

/// Redemptions from pools of a given shape.
pub fn redemptions(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5).map(|n| one_pool(n, MAX / 2)).collect();
    let mut parts = vec![];
    for (b, n) in pools(0, &kits).into_iter().zip(2..) {
        let mut cases = vec![];
        let vals: Vec<u64> = match (n, deep) {
            (2, false) => (1..=9).collect(),
            (2, true) => (1..=20).collect(),
            (3, _) => vec![1, 2, 5, 11],
            _ => vec![1, 4, 9],
        };
        let mut xs = vectors(n, &vals);
        xs.extend(vectors(
            n,
            match n {
                2 => &[1, 999_983, 10_000_000_001, 123_456_789_012_345_678, 1 << 60, MAX / 2][..],
                _ => &[7, 10_000_000_001, 1 << 60][..],
            },
        ));
        for x in xs {
            let big = x.iter().any(|v| *v > 1_000);
            let supplies: Vec<u64> = match (big, deep) {
                (true, _) => vec![1, 7, 999_999_937, 1 << 62, MAX / 2],
                (false, false) => vec![1, 3, 7, 10],
                (false, true) => (1..=16).collect(),
            };
            for s in supplies {
                let mut burns: Vec<u64> = if s <= 16 { (0..=s + 1).collect() } else { vec![0, 1, 2, s / 1_000_003, s / 3, s / 2, s - 1, s, s + 1] };
                burns.retain(|b| *b <= MAX / 2 + 1);
                for burn in uniq(burns) {
                    cases.push((0, (x.clone(), s, burn)));
                }
            }
        }
        parts.push(b.run(
            "redemptions",
            "",
            &cases,
            |c: &(Vec<u64>, u64, u64)| format!("{:?}", c),
            |g, (x, supply, burn)| {
                let k = g.k;
                let n = x.len();
                g.note(format!("reserves {:?} supply {}", x, supply));
                // somebody else holds the rest (nobody can burn it)
                k.shape(&mut g.st, "P", Some(x), Some(("bob", *supply)), None);
                let before: Vec<u64> = MINTS[..n].iter().map(|m| g.amount(&format!("bob/{}", m))).collect();
                let ix = k.redeem("bob", "P", *burn, &vec![0; n]);
                let Some(t) = g.try_ix(&ix) else { return };
                let class = g.class.clone();
                let got: Vec<u64> = MINTS[..n]
                    .iter()
                    .zip(&before)
                    .map(|(m, b)| tok::amount(t.w.get(k.i(&format!("bob/{}", m)))) - b)
                    .collect();
                g.try_ix(&k.redeem("bob", "P", *burn, &got));
                for i in 0..n {
                    let mut m = got.clone();
                    m[i] += 1;
                    if g.try_ix(&k.redeem("bob", "P", *burn, &m)).is_some() {
                        g.bad(&["A05"], format!("redeemed {:?} where at least {:?} was asked for", got, m));
                    }
                }
                g.class = class;
            },
        ));
    }
    join(
        "redemptions",
        "2-4 reserves: all small reserves x supply x every burn, magnitudes up to 2^63; each also with the limits met and missed by one token",
        parts,
    )
}


// -------------------------------------------------------------------- limits

/// Maxima and minima for other mints, missing, duplicate or malformed ones.
pub fn limits(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5)
        .map(|n| {
            let mut k = one_pool(n, 1_000_000);
            k.mint("foreign");
            for u in ["alice", "bob"] {
                k.wallet(u, "foreign", 1_000);
            }
            k
        })
        .collect();
    let mut parts = vec![];
    for (kit, n) in kits.iter().zip(2..) {
        let mut b = Base::new(kit);
        let x: Vec<u64> = (0..n as u64).map(|i| 600 + 100 * i).collect();
        b.add("empty", created(kit, 0));
        b.add("in use", created(kit, 0).run(kit.deposit("alice", "P", &x)));
        b.add("stable", created(kit, 10).run(kit.deposit("alice", "P", &x)));
        // entries: mint (n: foreign, n + 1: default key, n + 2: LP mint) and amount
        let amounts: &[u64] = if n == 2 { &[0, 1, 7, 100, MAX] } else { &[0, 60] };
        let kinds = n + 3;
        let mut lists: Vec<Vec<(usize, u64)>> = vec![vec![]];
        let mut last = lists.clone();
        for len in 1..=n + 1 {
            let wide = len <= 2 || n == 2 || deep && n == 3;
            let mut next = vec![];
            for l in &last {
                for m in 0..kinds {
                    for &a in amounts {
                        // long lists: in order, except the last two entries
                        if !wide && len + 1 < n && m != len - 1 {
                            continue;
                        }
                        if len == n + 1 && !deep && a != amounts[1] {
                            continue;
                        }
                        let mut v = l.clone();
                        v.push((m, a));
                        next.push(v);
                    }
                }
            }
            lists.extend(next.iter().cloned());
            last = next;
        }
        let keys: Vec<Pubkey> = MINTS[..n]
            .iter()
            .map(|m| kit.k(m))
            .chain([kit.k("foreign"), Pubkey::default(), kit.k("P.lp")])
            .collect();
        let bytes = |l: &[(usize, u64)]| {
            let mut d = (l.len() as u32).to_le_bytes().to_vec();
            for (m, a) in l {
                d.extend_from_slice(keys[*m].as_ref());
                d.extend_from_slice(&a.to_le_bytes());
            }
            d
        };
        let mut cases: Vec<(usize, Ix)> = vec![];
        for r in 0..3 {
            for l in &lists {
                let mut ix = kit.deposit("alice", "P", &vec![1; n]);
                ix.data.truncate(8);
                ix.data.extend(bytes(l));
                cases.push((r, ix));
                for burn in [0, 1, 100, 600, 601] {
                    if n > 2 && burn != 100 {
                        continue;
                    }
                    let mut ix = kit.redeem("alice", "P", burn, &vec![1; n]);
                    ix.data.truncate(16);
                    ix.data.extend(bytes(l));
                    cases.push((r, ix));
                }
            }
        }
        // order of the pairs, pairs left out, repeated, of foreign mints
        let mut pairs: Vec<(String, String)> =
            MINTS[..n].iter().map(|m| (format!("P.{}", m), format!("alice/{}", m))).collect();
        pairs.push(("alice/foreign".into(), "bob/foreign".into()));
        pairs.push(("bob/X".into(), "alice/X".into()));
        pairs.push(("P.X".into(), "P.X".into()));
        pairs.push(("P.X".into(), "bob/X".into()));
        pairs.push(("alice/X".into(), "P.X".into()));
        pairs.push(("P.X".into(), "alice/Y".into()));
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        let mut last = lists.clone();
        for len in 1..=n + 1 {
            let mut next = vec![];
            for l in &last {
                for p in 0..pairs.len() {
                    if n == 4 && !deep && len < 3 && p > 3 {
                        continue;
                    }
                    let mut v = l.clone();
                    v.push(p);
                    next.push(v);
                }
            }
            lists.extend(next.iter().cloned());
            last = next;
        }
        for r in 1..3 {
            for l in &lists {
                for ix in [kit.deposit("alice", "P", &vec![77; n]), kit.redeem("alice", "P", 50, &vec![0; n])] {
                    let mut ix = ix;
                    ix.metas.truncate(6);
                    for p in l {
                        for name in [&pairs[*p].0, &pairs[*p].1] {
                            ix.metas.push(Meta { i: kit.i(name), s: false, w: true });
                        }
                    }
                    cases.push((r, ix));
                }
            }
        }
        // wallets which hold less than the call takes
        let first = b.ok.len();
        let states: Vec<(String, St)> = b.ok[1.min(first)..].to_vec();
        for (name, st) in states {
            for w in MINTS[..n].iter().copied().chain(["P.lp"]) {
                let i = kit.i(&format!("alice/{}", w));
                for v in 0..=if deep { 400 } else { 130 } {
                    let mut s = st.clone();
                    tok_edit(&mut s, i, |a| a.amount = v);
                    let r = b.ok.len();
                    b.ok.push((format!("{}, alice holds {} {}", name, v, w), s));
                    for a in [77, 90] {
                        cases.push((r, kit.deposit("alice", "P", &vec![a; n])));
                    }
                    if w == "P.lp" {
                        cases.push((r, kit.redeem("alice", "P", 50, &vec![0; n])));
                        cases.push((r, kit.redeem("alice", "P", 130, &vec![0; n])));
                    } else {
                        let to = if w == "X" { "Y" } else { "X" };
                        cases.push((r, kit.swap("alice", "P", w, to, 100, 0)));
                        cases.push((r, kit.swap("alice", "P", w, to, 1, 0)));
                    }
                }
            }
        }
        parts.push(b.run(
            "limits",
            "",
            &cases,
            |ix: &Ix| crate::show(&kit.u, ix),
            |g, ix| {
                g.try_ix(ix);
            },
        ));
    }
    join(
        "limits",
        "2-4 reserves: lists of limits of every length with own, foreign and repeated mints; every sequence of vault and wallet pairs; wallets which hold 0 to 130 tokens",
        parts,
    )
}

// ------------------------------------------------------------------ creation

type Edit = Box<dyn Fn(&Kit, &mut St, &mut Ix) + Send + Sync>;
struct Dev {
    what: String,
    f: Edit,
}

fn tok_edit(st: &mut St, i: usize, f: impl Fn(&mut spl_token::state::Account)) {
    if let Some(mut t) = tok::read(st.w.get(i)) {
        f(&mut t);
        let a = tok::pack(&t);
        st.w.set(i, a);
    }
}
fn mint_edit(st: &mut St, i: usize, f: impl Fn(&mut spl_token::state::Mint)) {
    if let Some(mut t) = tok::read_mint(st.w.get(i)) {
        f(&mut t);
        let mut a = st.w.get(i).clone();
        t.pack_into_slice(&mut a.data);
        st.w.set(i, a);
    }
}

fn deviations(n: usize) -> Vec<Dev> {
    let mut v: Vec<Dev> = vec![];
    let mut dev = |what: &str, f: Edit| v.push(Dev { what: what.into(), f });
    for r in 0..n {
        let name = format!("P.{}", MINTS[r]);
        let vault = |what: &str, f: fn(&Kit, &mut spl_token::state::Account)| -> (String, Edit) {
            let name = name.clone();
            (
                format!("{}: {}", name, what),
                Box::new(move |k: &Kit, st: &mut St, _: &mut Ix| tok_edit(st, k.i(&name), |t| f(k, t))),
            )
        };
        let mut all = vec![
            vault("1 token", |_, t| t.amount = 1),
            vault("500 tokens", |_, t| t.amount = 500),
            vault("owned by the admin", |k, t| t.owner = k.k("admin")),
            vault("owned by the pool", |k, t| t.owner = k.k("P")),
            vault("owned by another pool's signer", |k, t| t.owner = k.k("Q.signer")),
            vault("owned by the toll authority", |k, t| t.owner = k.k("tollkeeper")),
            vault("with a delegate", |k, t| {
                t.delegate = COption::Some(k.k("admin"));
                t.delegated_amount = 5;
            }),
            vault("with a delegate for nothing", |k, t| t.delegate = COption::Some(k.k("admin"))),
            vault("closed by the admin", |k, t| t.close_authority = COption::Some(k.k("admin"))),
            vault("closed by the signer", |k, t| t.close_authority = COption::Some(k.k("P.signer"))),
            vault("frozen", |_, t| t.state = spl_token::state::AccountState::Frozen),
            vault("not initialized", |_, t| t.state = spl_token::state::AccountState::Uninitialized),
            vault("of X", |k, t| t.mint = k.k("X")),
            vault("of Y", |k, t| t.mint = k.k("Y")),
            vault("of a foreign mint", |k, t| t.mint = k.k("foreign")),
        ];
        for (w, f) in all.drain(..) {
            dev(&w, f);
        }
        let n1 = name.clone();
        dev(&format!("{}: of another program", name), Box::new(move |k, st, _| {
            let mut a = st.w.get(k.i(&n1)).clone();
            a.owner = key("forger's program");
            st.w.set(k.i(&n1), a);
        }));
        let at = 8 + r;
        dev(&format!("{}: left out", name), Box::new(move |_, _, ix| {
            if at < ix.metas.len() {
                ix.metas.remove(at);
            }
        }));
        for other in ["P.X", "P.Y", "Q.X", "alice/X", "P.lp", "P.toll", "P.signer", "look-alike P.X"] {
            dev(&format!("{} for {}", other, name), Box::new(move |k, _, ix| {
                if at < ix.metas.len() {
                    ix.metas[at].i = k.i(other);
                }
            }));
        }
    }
    for extra in ["Q.X", "extra vault", "another extra vault", "P.X", "system"] {
        dev(&format!("{} added", extra), Box::new(move |k, _, ix| {
            ix.metas.push(Meta { i: k.i(extra), s: false, w: false });
        }));
    }
    dev("first and last vault exchanged", Box::new(|_, _, ix| {
        let l = ix.metas.len();
        if l > 9 {
            ix.metas.swap(8, l - 1);
        }
    }));
    dev("500 tokens in all vaults", Box::new(move |k, st, _| {
        for m in &MINTS[..n] {
            tok_edit(st, k.i(&format!("P.{}", m)), |t| t.amount = 500);
        }
    }));
    dev("different amounts in all vaults", Box::new(move |k, st, _| {
        for (i, m) in MINTS[..n].iter().enumerate() {
            tok_edit(st, k.i(&format!("P.{}", m)), |t| t.amount = 1_000 << (3 * i));
        }
    }));
    // LP mint
    let mut lp = |what: &str, f: fn(&Kit, &mut spl_token::state::Mint)| {
        dev(
            &format!("LP mint {}", what),
            Box::new(move |k: &Kit, st: &mut St, _: &mut Ix| mint_edit(st, k.i("P.lp"), |t| f(k, t))),
        )
    };
    lp("without authority", |_, m| m.mint_authority = COption::None);
    lp("of the admin", |k, m| m.mint_authority = COption::Some(k.k("admin")));
    lp("of the pool", |k, m| m.mint_authority = COption::Some(k.k("P")));
    lp("of another pool", |k, m| m.mint_authority = COption::Some(k.k("Q.signer")));
    lp("frozen by the admin", |k, m| m.freeze_authority = COption::Some(k.k("admin")));
    lp("frozen by the signer", |k, m| m.freeze_authority = COption::Some(k.k("P.signer")));
    lp("not initialized", |_, m| m.is_initialized = false);
    lp("with supply 1", |_, m| m.supply = 1);
    lp("with other decimals", |_, m| m.decimals = 0);
    dev("alice holds 700 LP tokens", Box::new(|k, st, _| {
        mint_edit(st, k.i("P.lp"), |m| m.supply = 700);
        tok_edit(st, k.i("alice/P.lp"), |t| t.amount = 700);
    }));
    dev("LP mint of another program", Box::new(|k, st, _| {
        let mut a = st.w.get(k.i("P.lp")).clone();
        a.owner = key("forger's program");
        st.w.set(k.i("P.lp"), a);
    }));
    // toll wallet
    let mut toll = |what: &str, f: fn(&Kit, &mut spl_token::state::Account)| {
        dev(
            &format!("toll wallet {}", what),
            Box::new(move |k: &Kit, st: &mut St, _: &mut Ix| tok_edit(st, k.i("P.toll"), |t| f(k, t))),
        )
    };
    toll("of another mint", |k, t| t.mint = k.k("Q.lp"));
    toll("of X", |k, t| t.mint = k.k("X"));
    toll("of the admin", |k, t| t.owner = k.k("admin"));
    toll("of the signer", |k, t| t.owner = k.k("P.signer"));
    toll("of the deployer", |k, t| t.owner = k.k("deployer"));
    toll("not initialized", |_, t| t.state = spl_token::state::AccountState::Uninitialized);
    dev("toll wallet of another program", Box::new(|k, st, _| {
        let mut a = st.w.get(k.i("P.toll")).clone();
        a.owner = key("forger's program");
        st.w.set(k.i("P.toll"), a);
    }));
    // the program's toll
    dev("no program toll", Box::new(|k, st, _| st.w.set(k.i("toll"), AccData::none())));
    dev("program toll of the admin", Box::new(|k, st, _| {
        let mut a = st.w.get(k.i("toll")).clone();
        if a.data.len() >= 40 {
            a.data[8..40].copy_from_slice(k.k("admin").as_ref());
            st.w.set(k.i("toll"), a);
        }
    }));
    dev("program toll of another program", Box::new(|k, st, _| {
        let mut a = st.w.get(k.i("toll")).clone();
        a.owner = key("forger's program");
        st.w.set(k.i("toll"), a);
    }));
    dev("discount settings as program toll", Box::new(|k, _, ix| ix.metas[3].i = k.i("settings")));
    dev("forged program toll", Box::new(|k, st, ix| {
        let mut a = st.w.get(k.i("toll")).clone();
        if a.data.len() >= 40 {
            a.data[8..40].copy_from_slice(k.k("admin").as_ref());
        }
        st.w.set(k.i("forged toll"), a);
        ix.metas[3].i = k.i("forged toll");
    }));
    // others
    for (p, names) in [
        (0, &["alice", "poor", "P", "P.signer"][..]),
        (1, &["Q", "admin", "alice/X", "old pool"][..]),
        (2, &["Q.signer", "admin", "P"][..]),
        (4, &["Q.toll", "alice/P.lp", "P.X"][..]),
        (5, &["Q.lp", "X"][..]),
        (6, &["system", "amm"][..]),
        (7, &["token", "amm"][..]),
    ] {
        for name in names {
            dev(&format!("{} as account {}", name, p), Box::new(move |k, _, ix| {
                ix.metas[p].i = k.i(name);
                if ix.metas[p].s && name.contains('.') {
                    ix.metas[p].s = false;
                }
            }));
        }
    }
    for p in [0, 1] {
        dev(&format!("account {} does not sign", p), Box::new(move |_, _, ix| ix.metas[p].s = false));
        dev(&format!("account {} not writable", p), Box::new(move |_, _, ix| ix.metas[p].w = false));
    }
    for g in [1, 890_880, 1 << 40] {
        dev(&format!("{} lamports on the pool's address", g), Box::new(move |k, st, _| {
            st.w.set(k.i("P"), AccData::wallet(g));
        }));
    }
    dev("pool account prepared", Box::new(|k, st, _| {
        st.w.set(k.i("P"), AccData { lamports: 1 << 40, ..AccData::owned(amm::ID, vec![0; 1_000]) });
    }));
    dev("pool account of another program", Box::new(|k, st, _| {
        st.w.set(k.i("P"), AccData { lamports: 1 << 40, ..AccData::owned(key("forger's program"), vec![0; 500]) });
    }));
    v
}

/// Creating pools from accounts which deviate from what is needed in one or
/// two respects; what comes out is used.
pub fn creation(deep: bool) -> Suite {
    let kits: Vec<Kit> = (2..5)
        .map(|n| {
            let mut k = one_pool(n, 1 << 40);
            k.pool("Q", &["X", "Y"]);
            k.mint("foreign");
            k.user("poor");
            let i = k.i("poor");
            k.a[i] = AccData::wallet(900_000);
            let sig = k.k("P.signer");
            let (x, f) = (k.k("X"), k.k("foreign"));
            k.put("look-alike P.X", key("look-alike"), tok::account(x, sig, 0));
            k.put("extra vault", key("extra"), tok::account(f, sig, 0));
            let f2 = key("mint foreign 2");
            k.put("foreign 2", f2, tok::mint(None, None, 0));
            k.put("another extra vault", key("extra 2"), tok::account(f2, sig, 0));
            k.put("forged toll", key("forged toll"), AccData::none());
            k.put("old pool", key("old pool"), AccData::none());
            k
        })
        .collect();
    let mut parts = vec![];
    for (kit, n) in kits.iter().zip(2..) {
        let mut b = Base::new(kit);
        let ready = Script::new(kit, 10)
            .run(kit.create_toll("deployer", "tollkeeper"))
            .run(kit.create_settings("deployer", "discounter"));
        b.add(
            &format!("{} mints", n),
            ready.clone().edit("an old pool exists", |k, st| {
                // the same layout, some other admin
                let s = Script { st: st.clone(), ..Script::new(k, 10) }.run(k.create_pool("alice", "Q", 0));
                let a = s.st.w.get(k.i("Q")).clone();
                st.w.set(k.i("old pool"), a);
            }),
        );
        let devs = deviations(n);
        let mut cases: Vec<(usize, (u64, Vec<usize>))> = vec![];
        for amp in [0, 1, 85, MAX] {
            cases.push((0, (amp, vec![])));
            for i in 0..devs.len() {
                cases.push((0, (amp, vec![i])));
                if amp > 1 && !(deep && amp == 85) {
                    continue;
                }
                for j in 0..devs.len() {
                    if j != i {
                        cases.push((0, (amp, vec![i, j])));
                        if deep && n == 2 && amp < 2 && devs[i].what.contains("vaults") {
                            for h in j + 1..devs.len() {
                                cases.push((0, (amp, vec![i, j, h])));
                            }
                        }
                    }
                }
            }
        }
        let devs = &devs;
        parts.push(b.run(
            "creation",
            "",
            &cases,
            |(amp, d): &(u64, Vec<usize>)| {
                format!("amplifier {} {:?}", amp, d.iter().map(|i| &devs[*i].what).collect::<Vec<_>>())
            },
            |g, (amp, d)| {
                let k = g.k;
                let mut ix = k.create_pool("admin", "P", *amp);
                for i in d {
                    g.note(devs[*i].what.clone());
                    (devs[*i].f)(k, &mut g.st, &mut ix);
                }
                if !g.step(&ix) {
                    return;
                }
                let class = g.class.clone();
                // not a second time
                g.try_ix(&ix);
                g.try_ix(&k.create_pool("alice", "P", 0));
                // the pool may have been created at another address
                if abs::pool(g.st.w.get(k.i("P"))).map_or(false, |p| {
                    p.r().iter().map(|r| r.vault).eq(MINTS[..n].iter().map(|m| k.k(&format!("P.{}", m))))
                }) {
                    g.step(&k.swap("carol", "P", "X", "Y", 100, 0));
                    g.step(&k.redeem("alice", "P", 300, &vec![0; n]));
                    g.step(&k.deposit("alice", "P", &vec![1_000; n]));
                    g.step(&k.swap("carol", "P", "Y", "X", 100, 0));
                    g.step(&k.redeem("alice", "P", 200, &vec![0; n]));
                }
                g.class = class;
            },
        ));
    }
    join(
        "pool creation",
        "2-4 mints x amplifier x every single and every ordered pair of deviations from what is needed; pools which come out are swapped in, redeemed from and deposited to",
        parts,
    )
}


// ------------------------------------------------------------ administration

/// Who may create the program's settings, put discounts and set fees, with
/// which arguments; accounts which exist or hold lamports before.
pub fn administration(deep: bool) -> Suite {
    let mut k = one_pool(2, 1_000_000);
    k.user("mallory");
    k.user("poor");
    let i = k.i("poor");
    k.a[i] = AccData::wallet(900_000);
    for m in ["X", "Y"] {
        k.wallet("mallory", m, 1_000_000);
    }
    let (dep, mal) = (k.k("deployer"), k.k("mallory"));
    // variants of the program's data account
    let right = program_data(Some(dep));
    let mut datas: Vec<(&str, AccData)> = vec![
        ("the deployer's", right.clone()),
        ("nobody's", program_data(None)),
        ("mallory's", program_data(Some(mal))),
        ("poor's", program_data(Some(k.k("poor")))),
        ("empty", AccData { data: vec![], ..right.clone() }),
        ("of another program", AccData { owner: key("forger's program"), ..right.clone() }),
    ];
    for (what, at, v) in [
        ("uninitialized", 0, 0u8),
        ("a buffer", 0, 1),
        ("a program", 0, 2),
        ("none with a key", 12, 0),
        ("malformed", 12, 2),
    ] {
        let mut a = right.clone();
        a.data[at] = v;
        datas.push((what, a));
    }
    for (what, len) in [("short", 44), ("shorter", 13), ("without authority", 12)] {
        let mut a = right.clone();
        a.data.truncate(len);
        datas.push((what, a));
    }
    // another program of mallory's
    k.put("other program data", key("other data"), program_data(Some(mal)));
    let mut prog = vec![2, 0, 0, 0];
    prog.extend_from_slice(key("other data").as_ref());
    k.put(
        "other program",
        key("other program"),
        AccData { lamports: 1, owner: svm::solana_program::bpf_loader_upgradeable::ID, executable: true, data: prog },
    );
    let kit = k;
    let k = &kit;
    let mut parts = vec![];
    // the program's singletons
    {
        let mut b = Base::new(k);
        b.add("deployed", Script::new(k, 10));
        b.add("toll", Script::new(k, 10).run(k.create_toll("deployer", "tollkeeper")));
        b.add("settings", Script::new(k, 10).run(k.create_settings("deployer", "discounter")));
        let mut cases = vec![];
        for r in 0..3 {
            for d in 0..datas.len() {
                for by in ["deployer", "mallory", "poor", "admin"] {
                    for auth in ["deployer", "tollkeeper", "mallory", "system"] {
                        for (prog, data) in [
                            ("amm", "amm data"),
                            ("other program", "other program data"),
                            ("amm", "other program data"),
                            ("other program", "amm data"),
                        ] {
                            for toll in [true, false] {
                                for signs in [true, false] {
                                    for gift in [0u64, 1, 890_880, 1_169_280, 1_169_281, 1 << 40] {
                                        if gift > 0 && (!signs || prog != "amm" || d > 3 && !deep) {
                                            continue;
                                        }
                                        let mut ix =
                                            if toll { k.create_toll(by, auth) } else { k.create_settings(by, auth) };
                                        ix.metas[0].s = signs;
                                        ix.metas[1].i = k.i(prog);
                                        ix.metas[2].i = k.i(data);
                                        cases.push((r, (d, gift, ix)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        parts.push(b.run(
            "singletons",
            "",
            &cases,
            |(d, g, ix): &(usize, u64, Ix)| format!("program data {}, {} lamports: {}", datas[*d].0, g, crate::show(&k.u, ix)),
            |g, (d, gift, ix)| {
                g.note(format!("program data {}, {} lamports sent before", datas[*d].0, gift));
                g.st.w.set(k.i("amm data"), datas[*d].1.clone());
                if *gift > 0 {
                    for n in ["toll", "settings"] {
                        if !g.st.w.exists(k.i(n)) {
                            g.st.w.set(k.i(n), AccData::wallet(*gift));
                        }
                    }
                }
                if g.step(ix) {
                    let class = g.class.clone();
                    // once only
                    g.try_ix(ix);
                    g.class = class;
                }
            },
        ));
    }
    // fees and discounts
    {
        let mut b = Base::new(k);
        let used = created(k, 0)
            .run(k.set_fee("admin", "P", 10_000))
            .run(k.deposit("alice", "P", &[100_000, 200_000]));
        b.add("in use", used.clone());
        b.add("discounter is mallory", {
            Script::new(k, 10)
                .run(k.create_toll("deployer", "tollkeeper"))
                .run(k.create_settings("deployer", "mallory"))
                .run(k.create_pool("mallory", "P", 0))
        });
        b.add("no settings", Script::new(k, 10).run(k.create_toll("deployer", "tollkeeper")).run(k.create_pool("admin", "P", 7)));
        b.add("discount before", used.clone().run(k.put_discount("discounter", "carol", 400_000, 12)));
        b.add("discount expired", used.clone().run(k.put_discount("discounter", "carol", 400_000, 12)).tick(3));
        b.add("much later", used.tick((1 << 32) + 2));
        let mut cases = vec![];
        let rent = Rent::default().minimum_balance(24);
        for r in 0..b.ok.len() {
            for by in ["admin", "discounter", "deployer", "mallory", "poor", "carol", "tollkeeper"] {
                for signs in [true, false] {
                    for fee in [0, 1, 3_000, 9_999, 10_000, 10_001, 1_000_000, 1 << 32, (1 << 32) + 3_000, MAX] {
                        let mut ix = k.set_fee(by, "P", fee);
                        ix.metas[0].s = signs;
                        cases.push((r, (0, ix)));
                    }
                    for user in ["carol", "mallory", "discounter"] {
                        for amount in [0, 1, 500_000, 999_999, 1_000_000, 1_000_001, 1 << 32, MAX] {
                            for until in [0, 1, 9, 10, 11, 12, 13, 14, 15, 1_000, (1 << 32) + 11, (1 << 32) + 12, (1 << 32) + 13, 1 << 63, MAX] {
                                for gift in [0, 1, 890_880, rent - 1, rent, rent + 1, 1 << 40] {
                                    if gift > 0 && (amount != 500_000 || !signs && !deep) {
                                        continue;
                                    }
                                    let mut ix = k.put_discount(by, user, amount, until);
                                    ix.metas[0].s = signs;
                                    cases.push((r, (gift, ix)));
                                }
                            }
                        }
                    }
                }
            }
        }
        parts.push(b.run(
            "administration",
            "",
            &cases,
            |(g, ix): &(u64, Ix)| format!("{} lamports: {}", g, crate::show(&k.u, ix)),
            |g, (gift, ix)| {
                if *gift > 0 {
                    g.note(format!("{} lamports sent before", gift));
                    for m in &ix.metas {
                        if m.w && !g.st.w.exists(m.i) {
                            g.st.w.set(m.i, AccData::wallet(*gift));
                        }
                    }
                }
                g.step(ix);
                if g.v.is_some() || *gift > 0 {
                    return;
                }
                let class = g.class.clone();
                // what it means for a trade now, and until it has expired
                for t in 0..4 {
                    g.try_ix(&k.swap("carol", "P", "X", "Y", 10_000, 0));
                    g.st.now += 1 + t / 3;
                }
                g.class = class;
            },
        ));
    }
    join(
        "administration",
        "singletons: 3 states x 14 program data accounts x signers x authorities x programs x lamports sent before; fees and discounts: 6 states x 7 signers x arguments x lamports, followed by trades in the next slots",
        parts,
    )
}

// -------------------------------------------------------------- substitution

/// Two pools, hostile users, forged and look-alike accounts.
fn crowd() -> Kit {
    let mut k = Kit::new(false);
    for m in ["X", "Y", "Z"] {
        k.mint(m);
    }
    for u in ["admin", "boss", "alice", "mallory"] {
        k.user(u);
    }
    k.pool("P", &["X", "Y"]);
    k.pool("Q", &["Y", "X", "Z"]);
    k.pool("R", &["X", "Z"]);
    for u in ["alice", "mallory"] {
        for m in ["X", "Y", "Z"] {
            k.wallet(u, m, 5_000);
        }
        for p in ["P.lp", "Q.lp"] {
            k.wallet(u, p, 0);
        }
    }
    let evil = svm::evil_program();
    k.put("evil program", evil, AccData::program());
    let (x, y) = (k.k("X"), k.k("Y"));
    let (ps, qs) = (k.k("P.signer"), k.k("Q.signer"));
    let (alice, mallory, toll) = (k.k("alice"), k.k("mallory"), k.k("tollkeeper"));
    let plp = k.k("P.lp");
    k.put("look-alike P.X", key("lpx"), tok::account(x, ps, 700));
    k.put("look-alike P.Y", key("lpy"), tok::account(y, ps, 700));
    k.put("look-alike Q.Y", key("lqy"), tok::account(y, qs, 700));
    k.put("look-alike P.toll", key("lpt"), tok::account(plp, toll, 0));
    let fake = key("lpl");
    k.put("look-alike P.lp", fake, tok::mint(Some(ps), None, 1_000));
    k.put("look-alike alice/P.lp", key("alp"), tok::account(fake, alice, 400));
    k.put("look-alike mallory/P.lp", key("mlp"), tok::account(fake, mallory, 600));
    k.put("signer's LP wallet", key("slw"), tok::account(plp, ps, 0));
    k.put("alice/X 2", key("ax2"), tok::account(x, alice, 300));
    k.put("mallory/Y 2", key("my2"), tok::account(y, mallory, 300));
    let lent = |amount, to| {
        let mut d = tok::read(&tok::account(x, alice, 3_000)).unwrap();
        d.delegate = COption::Some(to);
        d.delegated_amount = amount;
        tok::pack(&d)
    };
    k.put("alice/X lent to mallory", key("axm"), lent(400, mallory));
    k.put("alice/X lent to P.signer", key("axp"), lent(2_000, ps));
    k.put("alice/P.lp lent to mallory", key("alm"), tok::account(plp, alice, 0));
    let mut f = tok::read(&tok::account(x, alice, 300)).unwrap();
    f.state = spl_token::state::AccountState::Frozen;
    k.put("alice/X frozen", key("axf"), tok::pack(&f));
    k.put("blank token account", key("btok"), AccData::owned(spl_token::ID, vec![0; spl_token::state::Account::LEN]));
    k.put("blank account", key("bacc"), AccData::owned(amm::ID, vec![0; 600]));
    let mut short = abs::disc(abs::POOL).to_vec();
    short.extend_from_slice(&[7; 9]);
    k.put("short pool", key("spool"), AccData::owned(amm::ID, short));
    k
}

fn forge(k: &mut Kit, st: &mut St) {
    let owner = key("forger's program");
    for n in ["P", "P.X", "P.Y", "P.lp", "P.toll", "toll", "settings", "discount alice", "amm", "amm data"] {
        let mut a = st.w.get(k.i(n)).clone();
        if a.data.is_empty() {
            continue;
        }
        a.owner = owner;
        let i = k.put(&format!("forged {}", n), key(&format!("forged {}", n)), a.clone());
        while st.w.0.len() <= i {
            st.w.0.push(AccData::none().arc());
        }
        st.w.set(i, a);
    }
}

/// Every instruction with every account (thorough: every pair of accounts)
/// replaced by every other one.
pub fn substitution(thorough: bool) -> Suite {
    let k0 = crowd();
    let used = {
        let k = &k0;
        Script::new(k, 10)
            .run(k.create_toll("deployer", "tollkeeper"))
            .run(k.create_settings("deployer", "discounter"))
            .run(k.create_pool("admin", "P", 0))
            .run(k.create_pool("boss", "Q", 85))
            .run(k.set_fee("admin", "P", 10_000))
            .run(k.set_fee("boss", "Q", 5_000))
            .run(k.deposit("alice", "P", &[1_000, 1_300]))
            .run(k.deposit("mallory", "P", &[500, 700]))
            .run(k.deposit("alice", "Q", &[900, 1_000, 1_100]))
            .run(k.deposit("mallory", "Q", &[200, 300, 300]))
            .run(k.swap("mallory", "P", "X", "Y", 900, 0))
            .run(k.swap("mallory", "Q", "Z", "X", 1_000, 0))
            .run(k.put_discount("discounter", "alice", 1_000_000, 20))
            .run(k.put_discount("discounter", "mallory", 10_000, 11))
            .edit("alice lends 300 P.lp to mallory", |k, st| {
                tok_edit(st, k.i("alice/P.lp"), |a| a.amount -= 300);
                tok_edit(st, k.i("alice/P.lp lent to mallory"), |a| {
                    a.amount = 300;
                    a.delegate = COption::Some(k.k("mallory"));
                    a.delegated_amount = 280;
                });
            })
            .tick(1)
    };
    let bare = Script::new(&k0, 10);
    let mut kit = k0.clone();
    let mut early = vec![];
    let mut stuck = vec![];
    let mut states = vec![];
    for (n, s) in [("in use", used), ("deployed", bare)] {
        match s.done() {
            Ok(mut st) => {
                forge(&mut kit, &mut st);
                states.push((n, st));
            }
            Err((path, Some(v))) => early.push(Found { v, root: format!("(building {})", n), path }),
            Err((p, None)) => stuck.push(p.join(" ")),
        }
    }
    let k = &kit;
    let len = k.u.keys.len();
    let mut b = Base::new(k);
    for (n, mut s) in states {
        while s.w.0.len() < len {
            s.w.0.push(AccData::none().arc());
        }
        let mut rich = s.clone();
        for (i, a) in k.a.iter().enumerate() {
            if *a == AccData::none() && !rich.w.exists(i) {
                rich.w.set(i, AccData::wallet(1 << 40));
            }
        }
        b.ok.push((n.into(), s));
        b.ok.push((format!("{}, lamports at every address", n), rich));
    }
    b.found = early;
    b.stuck = stuck;
    let instead = |mut x: Ix, old: &str, new: &str| {
        let m = x.metas.iter_mut().find(|m| m.i == k.i(old)).unwrap();
        m.i = k.i(new);
        x
    };
    let calls: Vec<Ix> = vec![
        k.swap("alice", "P", "X", "Y", 300, 0),
        k.swap("mallory", "P", "Y", "X", 300, 5),
        k.swap("mallory", "Q", "Z", "Y", 250, 0),
        instead(k.swap("mallory", "P", "X", "Y", 300, 5), "mallory/X", "alice/X lent to mallory"),
        k.deposit("alice", "P", &[200, 200]),
        k.deposit("mallory", "Q", &[100, 300, 300]),
        k.redeem("alice", "P", 250, &[1, 1]),
        instead(k.redeem("mallory", "P", 250, &[1, 1]), "mallory/P.lp", "alice/P.lp lent to mallory"),
        k.redeem("mallory", "Q", 100, &[0, 0, 1]),
        k.set_fee("admin", "P", 77),
        k.set_fee("boss", "Q", 0),
        k.put_discount("discounter", "mallory", 900_000, 30),
        k.put_discount("discounter", "boss", 900_000, 30),
        k.create_pool("boss", "R", 0),
        k.create_pool("mallory", "R", 12),
        k.create_toll("deployer", "tollkeeper"),
        k.create_settings("deployer", "discounter"),
    ];
    // whatever is not derived by a program may have a key
    let can_sign: HashSet<usize> = (0..len)
        .filter(|i| {
            let n = k.u.name(*i);
            !k.a[*i].executable && !n.ends_with(".signer") && !n.starts_with("discount ") && n != "toll" && n != "settings"
        })
        .collect();
    let set = |x: &mut Ix, c: &Ix, p: usize, i: usize| {
        x.metas[p].i = i;
        x.metas[p].s = c.metas[p].s && can_sign.contains(&i);
    };
    let mut cases: Vec<(usize, Ix)> = vec![];
    for r in 0..b.ok.len() {
        for c in &calls {
            let n = c.metas.len();
            cases.push((r, c.clone()));
            for p in 0..n {
                let mut singles = vec![];
                for flag in 0..2 {
                    let mut x = c.clone();
                    let m = &mut x.metas[p];
                    if flag == 0 && m.s {
                        m.s = false;
                    } else if flag == 1 && m.w {
                        m.w = false;
                    } else {
                        continue;
                    }
                    singles.push(x);
                }
                for i in 0..len {
                    if i != c.metas[p].i {
                        let mut x = c.clone();
                        set(&mut x, c, p, i);
                        singles.push(x);
                    }
                }
                for x in singles {
                    // pairs without the lamports
                    if (thorough || n <= 4) && r % 2 == 0 {
                        for q in p + 1..n {
                            if c.metas[q].s {
                                let mut y = x.clone();
                                y.metas[q].s = false;
                                cases.push((r, y));
                            }
                            for i in 0..len {
                                let mut y = x.clone();
                                set(&mut y, c, q, i);
                                cases.push((r, y));
                            }
                        }
                    } else {
                        // vault and wallet, signer and wallet: exchanged
                        for q in p + 1..n {
                            let mut y = x.clone();
                            let (a, b) = (y.metas[p].i, y.metas[q].i);
                            set(&mut y, c, p, b);
                            set(&mut y, c, q, a);
                            cases.push((r, y));
                        }
                    }
                    cases.push((r, x));
                }
            }
            if r % 2 == 0 {
                // everything of the one pool, user, mint for that of the other
                let cap = if thorough { 400_000 } else { 60_000 };
                for mut x in k.u.mixed(c, &[&["P", "Q"], &["alice", "mallory"], &["X", "Y", "Z"]], cap) {
                    for m in x.metas.iter_mut() {
                        m.s &= can_sign.contains(&m.i);
                    }
                    cases.push((r, x));
                }
            }
            for m in 0..n {
                let mut x = c.clone();
                x.metas.truncate(m);
                cases.push((r, x));
            }
            for i in 0..len {
                let mut x = c.clone();
                x.metas.push(Meta { i, s: false, w: true });
                cases.push((r, x));
            }
        }
    }
    let space = format!(
        "4 states x {} calls x every {} replaced by each of {} accounts, flags dropped, accounts cut off, added and exchanged; all mixtures of the accounts of two pools and users and their look-alikes",
        calls.len(),
        if thorough { "pair of accounts" } else { "account" },
        len
    );
    b.run(
        "account substitution",
        &space,
        &cases,
        |ix: &Ix| crate::show(&k.u, ix),
        |g, ix| {
            g.try_ix(ix);
        },
    )
}
