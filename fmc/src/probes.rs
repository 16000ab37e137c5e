//! Further questions asked in every reachable state.
use crate::abs;
use crate::judge::{self, St};
use crate::model::Fm;
use svm::bfs::{Tags, Violation};
use svm::solana_program::pubkey::Pubkey;
use svm::tok;

fn farmers(m: &Fm, s: &St) -> Vec<(String, String, abs::Farmer)> {
    let mut out = vec![];
    for f in &m.kit.farms {
        for u in &m.kit.users {
            if let Some(Ok(x)) = abs::farmer(s.w.get(m.kit.i(&format!("{}:{}", f, u)))) {
                out.push((f.clone(), u.clone(), x));
            }
        }
    }
    out
}

fn prefix(p: &str, mut v: Violation) -> Violation {
    v.what = format!("{}: {}", p, v.what);
    v
}

/// Settling every farmer with every explicit `until` slot, and the same again
/// in two steps: the result must not depend on it (F17).
pub fn settle_everywhere(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    let mut runs = 0;
    let u = &m.kit.u;
    for (farm, user, f) in farmers(m, s) {
        let i = m.kit.i(&format!("{}:{}", farm, user));
        let once = judge::call(u, s, &m.kit.settle(&user, &farm), false);
        runs += 1;
        if let Some(v) = once.violation {
            return (runs, Some(prefix(&format!("settling {}", user), v)));
        }
        let Some(once) = once.next else { continue };
        let Some(Ok(a)) = abs::farmer(once.w.get(i)) else { continue };
        let last = f.next.max(f.vested_at);
        let mut untils: Vec<u64> = vec![0, last.saturating_sub(1), s.now + 1, u64::MAX];
        untils.extend(last.max(s.now.saturating_sub(12))..=s.now);
        for t in untils {
            let o = judge::call(u, s, &m.kit.settle_until(&user, &farm, t), false);
            runs += 1;
            if let Some(v) = o.violation {
                return (runs, Some(prefix(&format!("settling {} until {}", user, t), v)));
            }
            let Some(mid) = o.next else { continue };
            let o = judge::call(u, &mid, &m.kit.settle(&user, &farm), false);
            runs += 1;
            if let Some(v) = o.violation {
                let p = format!("settling {} until {} and then now", user, t);
                return (runs, Some(prefix(&p, v)));
            }
            let Some(two) = o.next else { continue };
            let Some(Ok(b)) = abs::farmer(two.w.get(i)) else { continue };
            if let Some(d) = same(&a, &b, s, &farm, m) {
                return (
                    runs,
                    Some(Violation {
                        tags: ["F17", "F03"].into(),
                        soft: false,
                        what: format!("settling {} until {} and then now, or once: {}", user, t, d),
                    }),
                );
            }
        }
    }
    (runs, None)
}

/// Settles every farmer.
pub fn settle_now(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    let mut runs = 0;
    for (farm, user, _) in farmers(m, s) {
        let o = judge::call(&m.kit.u, s, &m.kit.settle(&user, &farm), false);
        runs += 1;
        if let Some(v) = o.violation {
            return (runs, Some(prefix(&format!("settling {}", user), v)));
        }
    }
    (runs, None)
}

fn same(a: &abs::Farmer, b: &abs::Farmer, s: &St, farm: &str, m: &Fm) -> Option<String> {
    if (a.staked, a.vested, a.next) != (b.staked, b.vested, b.next) {
        return Some(format!(
            "staked {}, vesting {}, next {} against {}, {}, {}",
            b.staked, b.vested, b.next, a.staked, a.vested, a.next
        ));
    }
    let windows = match abs::farm(&s.w.0[m.kit.i(farm)]).as_deref() {
        Some(Ok(f)) => f.log.len() as u128 + 2,
        _ => 2,
    };
    for (x, y) in a.harvests.iter().zip(&b.harvests) {
        let slack = windows + 2 * (x.1 as u128 / 1_000_000_000_000_000);
        if x.0 != y.0 || (x.1 as u128).abs_diff(y.1 as u128) > slack {
            return Some(format!("harvest {} against {}", y.1, x.1));
        }
    }
    None
}

/// Everybody leaves, in both orders: unstake all, claim all, close (F16), and
/// gets exactly the deposit and no more harvest than entitled to (F01, F02).
pub fn leave(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    if s.owed.iter().any(|x| x.1 > 0) {
        return (0, None);
    }
    let all = farmers(m, s);
    let mut runs = 0;
    let orders: Vec<Vec<usize>> = if all.len() < 2 {
        vec![(0..all.len()).collect()]
    } else {
        vec![(0..all.len()).collect(), (0..all.len()).rev().collect()]
    };
    for order in orders {
        let mut st = s.clone();
        let mut path = vec![];
        for k in order {
            let (farm, user, f) = &all[k];
            match leave_one(m, &mut st, farm, user, f, &mut runs, &mut path) {
                None => (),
                Some(v) => return (runs, Some(prefix(&format!("leaving ({})", path.join(", ")), v))),
            }
        }
    }
    (runs, None)
}

fn wallet(m: &Fm, user: &str, mint: &Pubkey) -> Option<usize> {
    let n = m.kit.u.find(mint)?;
    m.kit.names.get(&format!("{}/{}", user, m.kit.u.name(n))).copied()
}

fn leave_one(
    m: &Fm,
    st: &mut St,
    farm: &str,
    user: &str,
    f: &abs::Farmer,
    runs: &mut u64,
    path: &mut Vec<String>,
) -> Option<Violation> {
    let u = &m.kit.u;
    let fa = abs::farm(&st.w.0[m.kit.i(farm)])?;
    let fa = match &*fa {
        Ok(f) => f.clone(),
        Err(_) => return None,
    };
    let bad = |tags: &[&'static str], what: String| {
        Some(Violation::new(tags.iter().copied().collect::<Tags>(), what))
    };
    // would exceed what an account can hold: not a matter of leaving
    let fits = |st: &St, w: usize, n: u64| tok::amount(st.w.get(w)).checked_add(n).is_some();
    let deposit = f.staked.checked_add(f.vested)?;
    let w = wallet(m, user, &fa.stake_mint)?;
    if deposit > 0 {
        if !fits(st, w, deposit) {
            return None;
        }
        let mint = u.name(u.find(&fa.stake_mint)?).to_string();
        path.push(format!("{} unstakes", user));
        let before = tok::amount(st.w.get(w));
        let o = judge::call(u, st, &m.kit.stop(user, farm, &mint, u64::MAX), true);
        *runs += 1;
        if o.violation.is_some() {
            return o.violation;
        }
        let Some(n) = o.next else {
            return bad(&["F16", "F01"], format!("unstaking is refused: {}", o.class));
        };
        *st = n;
        if tok::amount(st.w.get(w)) - before != deposit {
            return bad(&["F16", "F01"], "unstaking does not pay the deposit".into());
        }
    }
    let Some(Ok(now)) = abs::farmer(st.w.get(m.kit.i(&format!("{}:{}", farm, user)))) else {
        return bad(&["F16", "F12"], "no farmer after unstaking".into());
    };
    let mints: Vec<String> = now
        .harvests
        .iter()
        .filter(|h| h.1 > 0)
        .filter_map(|h| u.find(&h.0).map(|i| u.name(i).to_string()))
        .collect();
    if !mints.is_empty() {
        for h in &now.harvests {
            if h.1 > 0 && !wallet(m, user, &h.0).map_or(false, |w| fits(st, w, h.1)) {
                return None;
            }
        }
        path.push(format!("{} claims {}", user, mints.join("+")));
        let names: Vec<&str> = mints.iter().map(|s| s.as_str()).collect();
        let o = judge::call(u, st, &m.kit.claim(user, farm, &names), true);
        *runs += 1;
        if o.violation.is_some() {
            return o.violation;
        }
        let before = st.clone();
        let Some(n) = o.next else {
            return bad(&["F16", "F02"], format!("claiming is refused: {}", o.class));
        };
        *st = n;
        for h in &now.harvests {
            if h.1 > 0 {
                let w = wallet(m, user, &h.0)?;
                if tok::amount(st.w.get(w)) - tok::amount(before.w.get(w)) != h.1 {
                    return bad(&["F16", "F11"], "claiming does not pay the harvest".into());
                }
            }
        }
    }
    path.push(format!("{} closes", user));
    let o = judge::call(u, st, &m.kit.close_farmer(user, farm), true);
    *runs += 1;
    if o.violation.is_some() {
        return o.violation;
    }
    let Some(n) = o.next else {
        return bad(&["F16", "F12"], format!("closing is refused: {}", o.class));
    };
    *st = n;
    judge::invariants(u, st)
}

pub fn both(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    let (a, v) = settle_everywhere(m, s);
    if v.is_some() {
        return (a, v);
    }
    let (b, v) = leave(m, s);
    (a + b, v)
}


/// What outsiders can do to the accounts of farms: send a token to any vault,
/// send lamports to any address which is to be created. Nothing that works
/// without it may stop working or work differently because of it (F19).
pub fn gifts(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    let u = &m.kit.u;
    let mut runs = 0;
    let vaults: Vec<usize> = (0..s.w.0.len())
        .filter(|i| s.w.exists(*i) && !matches!(judge::role(u, &s.w, *i), judge::Role::Other))
        .filter(|i| tok::read(s.w.get(*i)).map_or(false, |t| t.amount < u64::MAX / 2))
        .collect();
    let bad = |op: &str, gift: String, what: String| {
        let t: Tags = ["F19"].into();
        svm::bfs::only_wanted(Some(Violation::new(t, format!("{} after {}: {}", op, gift, what))))
    };
    for op in &m.ops {
        let Some(ix) = op.ix(s.now) else { continue };
        runs += 1;
        let Ok(plain) = svm::exec(u, &s.w, farming::entry, s.now, &ix) else { continue };
        let ep = crate::spec::endpoint(&ix).unwrap_or("?");
        for v in &vaults {
            // a mint can only be removed while its vault is empty
            if ep == "remove_harvest" && ix.metas.iter().any(|x| x.i == *v) {
                continue;
            }
            let gift = format!("a token sent to {}", u.name(*v));
            let mut w = s.w.clone();
            w.set(*v, tok::with_amount(w.get(*v), tok::amount(w.get(*v)) + 1));
            runs += 1;
            match svm::exec(u, &w, farming::entry, s.now, &ix) {
                Err(e) => return (runs, bad(&op.label, gift, format!("fails: {:?}", e))),
                Ok(mut got) => {
                    got.set(*v, tok::with_amount(got.get(*v), tok::amount(got.get(*v)).wrapping_sub(1)));
                    for i in 0..got.0.len() {
                        if got.get(i) == plain.get(i) {
                            continue;
                        }
                        if ep == "take_snapshot" {
                            // records the vault's balance
                            if let (Some(a), Some(b)) = (abs::farm(&plain.0[i]), abs::farm(&got.0[i])) {
                                if let (Ok(a), Ok(b)) = (&*a, &*b) {
                                    let mut l = (*b.log).clone();
                                    if let Some(x) = l.last_mut() {
                                        x.staked = x.staked.wrapping_sub(u64::from(b.stake_vault == u.keys[*v]));
                                    }
                                    let b = abs::Farm { log: std::sync::Arc::new(l), ..b.clone() };
                                    if format!("{:?}", b) == format!("{:?}", a) {
                                        continue;
                                    }
                                }
                            }
                        }
                        return (runs, bad(&op.label, gift, format!("{} differs", u.name(i))));
                    }
                }
            }
        }
        for k in 0..ix.metas.len() {
            let i = ix.metas[k].i;
            if s.w.exists(i) || !plain.exists(i) || plain.get(i).owner == svm::solana_program::system_program::ID {
                continue;
            }
            for n in [1, 1 << 40] {
                let gift = format!("{} lamports sent to {}", n, u.name(i));
                let mut w = s.w.clone();
                w.set(i, svm::AccData::wallet(n));
                runs += 1;
                match svm::exec(u, &w, farming::entry, s.now, &ix) {
                    Err(e) => return (runs, bad(&op.label, gift, format!("fails: {:?}", e))),
                    Ok(got) => {
                        for j in 0..got.0.len() {
                            let (a, b) = (plain.get(j), got.get(j));
                            // cheaper for the payer
                            if a != b && (a.data != b.data || a.owner != b.owner) {
                                return (runs, bad(&op.label, gift, format!("{} differs", u.name(j))));
                            }
                        }
                    }
                }
            }
        }
    }
    (runs, None)
}

/// Every operation with every one of its numbers replaced by those at which
/// something may change: around every amount and slot recorded in the state.
pub fn args(m: &Fm, s: &St) -> (u64, Option<Violation>) {
    let u = &m.kit.u;
    let mut runs = 0;
    let mut seen = std::collections::HashSet::new();
    let mut vals: Vec<u64> = vec![s.now];
    for i in 0..s.w.0.len() {
        let a = s.w.get(i);
        vals.extend(tok::read(a).map(|t| t.amount));
        if let Some(Ok(f)) = abs::farmer(a) {
            vals.extend([f.staked, f.vested, f.vested_at, f.next, f.staked.wrapping_add(f.vested)]);
            vals.extend(f.harvests.iter().map(|h| h.1));
        }
        if let Some(f) = abs::farm(&s.w.0[i]) {
            if let Ok(f) = &*f {
                vals.push(f.window);
                vals.extend(f.log.iter().rev().take(2).flat_map(|x| [x.at, x.staked]));
                for h in f.harvests.iter().take(2) {
                    vals.extend(h.periods.iter().take(2).flat_map(|p| [p.start, p.end, p.tps]));
                }
            }
        }
    }
    let mut vals: Vec<u64> = vals.iter().flat_map(|v| [v.wrapping_sub(1), *v, v.wrapping_add(1)]).collect();
    vals.extend([0, 1, 2, 10, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]);
    vals.sort();
    vals.dedup();
    for op in &m.ops {
        let Some(ix) = op.ix(s.now) else { continue };
        let exit = matches!(op.act, crate::model::Act::Exit(_));
        let ep = crate::spec::endpoint(&ix).unwrap_or("?");
        let o = if matches!(ep, "new_harvest_period" | "remove_harvest") { 40 } else { 8 };
        let who: Vec<_> = ix.metas.iter().map(|x| (x.i, x.s, x.w)).collect();
        if !seen.insert((ix.data[..o].to_vec(), who)) {
            continue;
        }
        for at in (o..ix.data.len()).step_by(8) {
            for v in &vals {
                let mut ix = ix.clone();
                ix.data[at..at + 8].copy_from_slice(&v.to_le_bytes());
                let r = judge::call(u, s, &ix, exit);
                runs += 1;
                let how = || format!("{} with {} as number {}", op.label, v, (at - o) / 8 + 1);
                if let Some(x) = r.violation {
                    return (runs, Some(prefix(&how(), x)));
                }
                if let Some(n) = r.next {
                    if let Some(x) = judge::invariants(u, &n) {
                        return (runs, Some(prefix(&how(), x)));
                    }
                }
            }
        }
    }
    (runs, None)
}
