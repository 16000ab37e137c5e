//! Further questions asked in every reachable state.
use crate::abs;
use crate::judge::{self, St};
use crate::kit::Kit;
use crate::model::Am;
use svm::bfs::{Tags, Violation};
use svm::{tok, Ix};

fn bad(tags: &[&'static str], what: String) -> Option<Violation> {
    Some(Violation::new(tags.iter().copied().collect::<Tags>(), what))
}

struct Walk<'a> {
    k: &'a Kit,
    runs: u64,
    v: Option<Violation>,
    soft: Option<Violation>,
}

impl<'a> Walk<'a> {
    fn step(&mut self, s: &St, ix: &Ix, how: &str) -> Option<St> {
        if self.v.is_some() {
            return None;
        }
        self.runs += 1;
        let o = judge::call(&self.k.u, s, ix);
        if let Some(mut v) = o.violation {
            v.what = format!("{}: {}", how, v.what);
            if v.soft {
                self.soft = Some(v);
            } else {
                self.v = Some(v);
                return None;
            }
        }
        if let Some(n) = &o.next {
            if let Some(mut v) = judge::invariants(&self.k.u, n) {
                v.what = format!("{}: {}", how, v.what);
                self.v = Some(v);
                return None;
            }
        }
        o.next
    }
    fn balance(&self, s: &St, name: &str) -> u64 {
        tok::amount(s.w.get(self.k.i(name)))
    }
}

/// Every holder redeems everything, in both orders; the empty pool can be
/// seeded again (A10).
pub fn leave(m: &Am, s: &St) -> (u64, Option<Violation>) {
    let k = &m.kit;
    let mut w = Walk { k, runs: 0, v: None, soft: None };
    for (pool, mints) in &k.pools {
        let Some(p) = abs::pool(s.w.get(k.i(pool))) else { continue };
        let lp = k.i(&format!("{}.lp", pool));
        let mut holders: Vec<&String> = k
            .users
            .iter()
            .filter(|u| {
                let n = format!("{}/{}.lp", u, pool);
                k.names.contains_key(&n)
                    && k.names.contains_key(&format!("{}/{}", u, mints[0]))
                    && tok::amount(s.w.get(k.i(&n))) > 0
            })
            .collect();
        for turn in 0..2 {
            if turn == 1 {
                if holders.len() < 2 {
                    break;
                }
                holders.reverse();
            }
            let mut st = s.clone();
            let mut stuck = false;
            for u in &holders {
                let n = w.balance(&st, &format!("{}/{}.lp", u, pool));
                let before: Vec<u64> =
                    mints.iter().map(|x| w.balance(&st, &format!("{}/{}", u, x))).collect();
                let x = abs::pool(st.w.get(k.i(pool))).unwrap().tokens();
                let supply = tok::read_mint(st.w.get(lp)).unwrap().supply;
                let ix = k.redeem(u, pool, n, &vec![0; mints.len()]);
                match w.step(&st, &ix, "leaving") {
                    Some(t) => {
                        if n == supply {
                            for (j, m) in mints.iter().enumerate() {
                                let got = w.balance(&t, &format!("{}/{}", u, m)) - before[j];
                                if got != x[j] {
                                    w.v = bad(&["A10"], format!("the last holder gets {} of {} {}", got, x[j], m));
                                    return (w.runs, w.v);
                                }
                            }
                        }
                        st = t;
                    }
                    None => {
                        if w.v.is_some() {
                            return (w.runs, w.v);
                        }
                        if !p.stable() {
                            w.v = bad(&["A10"], format!("{} cannot redeem {} LP tokens of {}: {:?}", u, n, supply, x));
                            return (w.runs, w.v);
                        }
                        stuck = true;
                        break;
                    }
                }
            }
            let empty = tok::read_mint(st.w.get(lp)).map_or(0, |m| m.supply) == 0;
            if stuck || !empty {
                continue;
            }
            let q = abs::pool(st.w.get(k.i(pool))).unwrap();
            // unless LP tokens were burnt outside of the program
            if !holders.is_empty() && q.tokens().iter().any(|x| *x > 0) {
                w.v = bad(&["A10"], format!("all LP tokens redeemed, but {:?} left", q.tokens()));
                return (w.runs, w.v);
            }
            for u in k.users.iter().filter(|u| k.names.contains_key(&format!("{}/{}.lp", u, pool))) {
                let ms: Vec<String> = mints.iter().map(|x| format!("{}/{}", u, x)).collect();
                if ms.iter().any(|n| !k.names.contains_key(n) || tok::amount(st.w.get(k.i(n))) == 0) {
                    continue;
                }
                let ix = k.deposit(u, pool, &vec![1; mints.len()]);
                if w.step(&st, &ix, "seeding again").is_none() {
                    if w.v.is_none() {
                        w.v = bad(&["A10", "A09"], "an emptied pool cannot be seeded again".into());
                    }
                    return (w.runs, w.v);
                }
                break;
            }
        }
    }
    (w.runs, w.v.or(w.soft))
}

/// Swapping there and back, around, and depositing and redeeming right away
/// never yields more than was put in (A02, A03, A04).
pub fn trips(m: &Am, s: &St) -> (u64, Option<Violation>) {
    let k = &m.kit;
    let mut w = Walk { k, runs: 0, v: None, soft: None };
    for (pool, mints) in &k.pools {
        let Some(p) = abs::pool(s.w.get(k.i(pool))) else { continue };
        let n = mints.len();
        let user = |what: &str| {
            k.users
                .iter()
                .find(|u| {
                    k.names.contains_key(&format!("{}/{}{}", u, pool, what))
                        && mints.iter().all(|x| k.names.contains_key(&format!("{}/{}", u, x)))
                })
                .cloned()
        };
        let Some(u) = user(".lp") else { continue };
        let x = p.tokens();
        let tags: &[&'static str] = if p.stable() { &["A03", "A04"] } else { &["A02", "A04"] };
        let cycles: Vec<Vec<usize>> = (0..n)
            .flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| vec![i, j]))
            .chain((0..n).flat_map(|i| {
                (0..n).flat_map(move |j| {
                    (0..n).filter(move |h| i != j && j != *h && i != *h).map(move |h| vec![i, j, h])
                })
            }))
            .collect();
        for c in cycles {
            for a in [1, x[c[0]] / 3, x[c[0]].saturating_sub(1)] {
                let have = w.balance(s, &format!("{}/{}", u, mints[c[0]]));
                if a == 0 || a > have {
                    continue;
                }
                let mut st = s.clone();
                let mut sell = a;
                let mut done = true;
                for h in 0..c.len() {
                    let (i, j) = (c[h], c[(h + 1) % c.len()]);
                    let b = format!("{}/{}", u, mints[j]);
                    let before = w.balance(&st, &b);
                    let ix = k.swap(&u, pool, &mints[i], &mints[j], sell, 0);
                    match w.step(&st, &ix, "round trip") {
                        Some(t) => {
                            sell = w.balance(&t, &b) - before;
                            st = t;
                        }
                        None => {
                            done = false;
                            break;
                        }
                    }
                }
                if w.v.is_some() {
                    return (w.runs, w.v);
                }
                // 18 digits of the reserves have to resolve less than a hundredth
                // of a token; each single swap is judged at any size
                let fine = !p.stable() || x.iter().map(|v| *v as u128).sum::<u128>() < 1_000_000_000_000_000;
                if done && sell > a && fine {
                    w.v = bad(tags, format!("swapping {} around {:?} yields {}: {:?}", a, c, sell, x));
                    return (w.runs, w.v);
                }
            }
        }
        // deposit and redeem
        let lpw = format!("{}/{}.lp", u, pool);
        let wallets: Vec<String> = mints.iter().map(|m| format!("{}/{}", u, m)).collect();
        for max in [
            vec![1; n],
            x.iter().map(|v| v / 2 + 1).collect(),
            x.iter().enumerate().map(|(i, v)| if i == 0 { 1 } else { v + 1 }).collect::<Vec<u64>>(),
            x.iter().enumerate().map(|(i, v)| if i == n - 1 { 3 } else { v * 2 + 1 }).collect(),
        ] {
            let supply = tok::read_mint(s.w.get(k.i(&format!("{}.lp", pool)))).map_or(0, |m| m.supply);
            if supply == 0 {
                break; // first deposits take over whatever is left in the pool
            }
            let before: Vec<u64> = wallets.iter().map(|m| w.balance(s, m)).collect();
            if before.iter().zip(&max).any(|(b, m)| b < m) {
                continue;
            }
            let lp = w.balance(s, &lpw);
            let ix = k.deposit(&u, pool, &max);
            let Some(t) = w.step(s, &ix, "deposit and redeem") else {
                if w.v.is_some() {
                    return (w.runs, w.v);
                }
                continue;
            };
            let ix = k.redeem(&u, pool, w.balance(&t, &lpw) - lp, &vec![0; n]);
            let Some(t) = w.step(&t, &ix, "deposit and redeem") else {
                if w.v.is_some() {
                    return (w.runs, w.v);
                }
                continue;
            };
            for (i, m) in wallets.iter().enumerate() {
                if w.balance(&t, m) > before[i] {
                    w.v = bad(&["A04"], format!("depositing up to {:?} and redeeming yields more of {}: {:?}", max, m, x));
                    return (w.runs, w.v);
                }
            }
        }
    }
    (w.runs, w.v.or(w.soft))
}

pub fn both(m: &Am, s: &St) -> (u64, Option<Violation>) {
    let (a, v) = leave(m, s);
    if v.as_ref().map_or(false, |v| !v.soft) {
        return (a, v);
    }
    let (b, w) = trips(m, s);
    (a + b, w.or(v))
}

/// What outsiders can do to the accounts of pools: send tokens to any vault,
/// send lamports to any address which is to be created. Nothing that works
/// without it may stop working or work differently because of it (A13).
pub fn gifts(m: &Am, s: &St) -> (u64, Option<Violation>) {
    let u = &m.kit.u;
    let mut runs = 0;
    let vaults: Vec<usize> = (0..s.w.0.len())
        .filter_map(|i| abs::pool(s.w.get(i)))
        .flat_map(|p| p.r().iter().filter_map(|r| u.find(&r.vault)).collect::<Vec<_>>())
        .filter(|v| tok::amount(s.w.get(*v)) < u64::MAX / 2)
        .collect();
    let bad = |op: &str, gift: String, what: String| {
        let t: Tags = ["A13"].into();
        svm::bfs::only_wanted(Some(Violation::new(t, format!("{} after {}: {}", op, gift, what))))
    };
    for op in &m.ops {
        let Some(ix) = op.ix(s) else { continue };
        runs += 1;
        let Ok(plain) = svm::exec(u, &s.w, amm::entry, s.now, &ix) else { continue };
        for v in &vaults {
            for n in [1, 1_000_000_007] {
                let gift = format!("{} tokens sent to {}", n, u.name(*v));
                let mut w = s.w.clone();
                w.set(*v, tok::with_amount(w.get(*v), tok::amount(w.get(*v)) + n));
                runs += 1;
                match svm::exec(u, &w, amm::entry, s.now, &ix) {
                    Err(e) => return (runs, bad(&op.label, gift, format!("fails: {:?}", e))),
                    Ok(mut got) => {
                        got.set(*v, tok::with_amount(got.get(*v), tok::amount(got.get(*v)).wrapping_sub(n)));
                        if let Some(i) = (0..got.0.len()).find(|i| got.get(*i) != plain.get(*i)) {
                            return (runs, bad(&op.label, gift, format!("{} differs", u.name(i))));
                        }
                    }
                }
            }
        }
        for x in &ix.metas {
            let i = x.i;
            if s.w.exists(i) || !plain.exists(i) || plain.get(i).owner == svm::solana_program::system_program::ID {
                continue;
            }
            for n in [1, 1 << 40] {
                let gift = format!("{} lamports sent to {}", n, u.name(i));
                let mut w = s.w.clone();
                w.set(i, svm::AccData::wallet(n));
                runs += 1;
                match svm::exec(u, &w, amm::entry, s.now, &ix) {
                    Err(e) => return (runs, bad(&op.label, gift, format!("fails: {:?}", e))),
                    Ok(got) => {
                        for j in 0..got.0.len() {
                            let (a, b) = (plain.get(j), got.get(j));
                            // cheaper for the payer
                            if a != b && (a.data != b.data || a.owner != b.owner) {
                                return (runs, bad(&op.label, gift, format!("{} differs", u.name(j))));
                            }
                        }
                    }
                }
            }
        }
    }
    (runs, None)
}

/// Every operation with every one of its numbers replaced by those at which
/// something may change: around every amount and slot recorded in the state.
pub fn args(m: &Am, s: &St) -> (u64, Option<Violation>) {
    let u = &m.kit.u;
    let mut runs = 0;
    let mut seen = std::collections::HashSet::new();
    let mut vals: Vec<u64> = vec![s.now, 1_000, 10_000, 1_000_000];
    for i in 0..s.w.0.len() {
        let a = s.w.get(i);
        vals.extend(tok::read(a).map(|t| t.amount));
        vals.extend(tok::read_mint(a).map(|t| t.supply));
        if let Some(p) = abs::pool(a) {
            vals.extend(p.tokens().iter().flat_map(|x| [*x, x / 2]));
            vals.push(p.fee);
        }
    }
    let mut vals: Vec<u64> = vals.iter().flat_map(|v| [v.wrapping_sub(1), *v, v.wrapping_add(1)]).collect();
    vals.extend([0, 1, 2, 10, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]);
    vals.sort();
    vals.dedup();
    for op in &m.ops {
        let Some(ix) = op.ix(s) else { continue };
        let n = |from: usize| (0..(ix.data.len() - from) / 40).map(|k| from + 40 * k + 32).collect::<Vec<_>>();
        let at = match crate::spec::endpoint(&ix).unwrap_or("?") {
            "put_discount" => vec![40, 48],
            "set_pool_swap_fee" | "create_pool" => vec![8],
            "swap" => vec![8, 16],
            "deposit_liquidity" => n(12),
            "redeem_liquidity" => [vec![8], n(20)].concat(),
            _ => vec![],
        };
        let who: Vec<_> = ix.metas.iter().map(|x| (x.i, x.s, x.w)).collect();
        let fixed: Vec<u8> = (0..ix.data.len()).filter(|i| !at.iter().any(|a| (*a..a + 8).contains(i))).map(|i| ix.data[i]).collect();
        if !seen.insert((fixed, who)) {
            continue;
        }
        for (k, at) in at.iter().enumerate() {
            for v in &vals {
                let mut ix = ix.clone();
                ix.data[*at..at + 8].copy_from_slice(&v.to_le_bytes());
                let r = judge::call(u, s, &ix);
                runs += 1;
                let x = r.violation.filter(|v| !v.soft).or_else(|| r.next.and_then(|n| judge::invariants(u, &n)));
                if let Some(mut x) = x {
                    x.what = format!("{} with {} as number {}: {}", op.label, v, k + 1, x.what);
                    return (runs, Some(x));
                }
            }
        }
    }
    (runs, None)
}
