//! The explored systems: accounts, roots, alphabets.
use crate::abs;
use crate::judge::St;
use crate::kit::Kit;
use crate::model::{Am, Script};
use svm::{tok, Ix};

pub const MAX: u64 = u64::MAX;
pub const MINTS: [&str; 4] = ["X", "Y", "Z", "W"];

/// One pool "P" of n reserves; alice and bob provide liquidity, carol trades.
pub fn one_pool(n: usize, rich: u64) -> Kit {
    let mut k = Kit::new(true);
    for m in &MINTS[..n] {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob", "carol"] {
        k.user(u);
    }
    for u in ["alice", "bob", "carol", "tollkeeper", "admin", "deployer", "discounter"] {
        for m in &MINTS[..n] {
            k.wallet(u, m, rich);
        }
    }
    k.pool("P", &MINTS[..n]);
    for u in ["alice", "bob", "carol", "admin", "deployer", "discounter"] {
        k.wallet(u, "P.lp", 0);
    }
    k
}

pub fn created<'a>(k: &'a Kit, amp: u64) -> Script<'a> {
    Script::new(k, 10)
        .run(k.create_toll("deployer", "tollkeeper"))
        .run(k.create_settings("deployer", "discounter"))
        .run(k.create_pool("admin", "P", amp))
}

/// Redeems a share of what `user` holds.
fn redeem_share(k: &Kit, user: &str, num: u64, den: u64) -> impl Fn(&St) -> Option<Ix> + Send + Sync + 'static {
    let (k, user) = (k.clone(), user.to_string());
    let w = k.i(&format!("{}/P.lp", user));
    let n = k.mints("P").len();
    move |s| {
        let have = tok::amount(s.w.get(w)) as u128;
        let x = (have * num as u128 / den as u128) as u64;
        (x > 0).then(|| k.redeem(&user, "P", x, &vec![0; n]))
    }
}

fn reserves(k: &Kit, s: &St) -> Vec<u64> {
    abs::pool(s.w.get(k.i("P"))).map_or(vec![], |p| p.tokens())
}

/// Small numbers, where every rounding shows.
pub fn small(n: usize, amp: u64) -> Am {
    let mut m = Am::new(&format!("{}{}", if amp == 0 { "product" } else { "stable" }, n), one_pool(n, 1 << 40));
    let kit = m.kit.clone();
    let k = &kit;
    let base = created(k, amp);
    let mut first: Vec<u64> = [20, 33, 25, 41][..n].to_vec();
    let mut skew: Vec<u64> = [3, 47, 5, 11][..n].to_vec();
    let mut big: Vec<u64> = [1_000_003, 999_983, 1_000_000, 1_100_009][..n].to_vec();
    if amp > 0 {
        skew[0] = 9;
        first[0] = 31;
        big[0] += 4;
    }
    m.root("empty", base.clone());
    m.root(
        "two providers",
        base.clone()
            .run(k.set_fee("admin", "P", 3_000))
            .run(k.deposit("alice", "P", &first))
            .run(k.deposit("bob", "P", &first.iter().map(|x| x / 2).collect::<Vec<_>>())),
    );
    m.root("skewed", base.clone().run(k.deposit("alice", "P", &skew)).run(k.set_fee("admin", "P", 10_000)));
    m.root(
        "million",
        base.run(k.set_fee("admin", "P", 10_000))
            .run(k.put_discount("discounter", "carol", 333_333, 12))
            .run(k.deposit("alice", "P", &big))
            .run(k.deposit("bob", "P", &vec![123_457; n])),
    );
    m.tick(1);
    m.call("fee 1%", k.set_fee("admin", "P", 10_000));
    m.call("no fee", k.set_fee("admin", "P", 0));
    m.call("discount of 50% for carol", k.put_discount("discounter", "carol", 500_000, 12));
    m.call("alice seeds", k.deposit("alice", "P", &first));
    m.call("bob deposits little", k.deposit("bob", "P", &vec![2; n]));
    m.call("bob deposits unevenly", k.deposit("bob", "P", &(0..n).map(|i| 40 - 13 * i as u64 % 40).map(|v| v + 1).collect::<Vec<_>>()));
    {
        let k2 = kit.clone();
        m.dynamic("carol deposits a third", move |s| {
            let x: Vec<u64> = reserves(&k2, s).iter().map(|v| v / 3 + 1).collect();
            (x.len() == n).then(|| k2.deposit("carol", "P", &x))
        });
    }
    m.dynamic("alice redeems everything", redeem_share(k, "alice", 1, 1));
    m.dynamic("alice redeems a third", redeem_share(k, "alice", 1, 3));
    m.dynamic("bob redeems everything", redeem_share(k, "bob", 1, 1));
    m.call("bob redeems 1", k.redeem("bob", "P", 1, &vec![0; n]));
    for (a, b) in (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))) {
        if n > 2 && (b + n - a) % n != 1 && !(a == n - 1 && b == n - 2) {
            continue;
        }
        let (a, b) = (MINTS[a], MINTS[b]);
        m.call(&format!("carol swaps 7 {} for {}", a, b), k.swap("carol", "P", a, b, 7, 0));
        if n < 4 {
            m.call(&format!("bob swaps 1 {} for {}", a, b), k.swap("bob", "P", a, b, 1, 1));
        }
        let k2 = kit.clone();
        let i = MINTS.iter().position(|m| *m == a).unwrap();
        let (a2, b2) = (a.to_string(), b.to_string());
        m.dynamic(&format!("carol swaps most of the {} for {}", a, b), move |s| {
            let x = *reserves(&k2, s).get(i)?;
            (x > 1).then(|| k2.swap("carol", "P", &a2, &b2, x - 1, 0))
        });
    }
    if n == 2 {
        m.call("admin swaps 11 Y for X", k.swap("admin", "P", "Y", "X", 11, 0));
        m.call("admin deposits little", k.deposit("admin", "P", &[3, 4]));
        m.dynamic("admin redeems half", redeem_share(k, "admin", 1, 2));
        m.dynamic("tollkeeper redeems half", redeem_share(k, "tollkeeper", 1, 2));
        let k2 = kit.clone();
        m.dynamic("tollkeeper sells half of the Y for X", move |s| {
            let x = *reserves(&k2, s).get(1)?;
            (x > 1).then(|| k2.swap("tollkeeper", "P", "Y", "X", x / 2, 0))
        });
    }
    m.donate("bob/X", "P.X", 5);
    m.burn("alice/P.lp", "P.lp", 3);
    m.donate("alice/P.lp", "bob/P.lp", 4);
    m.max_now = 14;
    m.depth = (4, 5);
    m
}

/// Magnitudes up to what a token account can hold.
pub fn big(amp: u64) -> Am {
    let mut m = Am::new(if amp == 0 { "big product" } else { "big stable" }, one_pool(2, MAX / 8));
    let kit = m.kit.clone();
    let k = &kit;
    let base = created(k, amp).run(k.set_fee("admin", "P", 2_999));
    let seed = |a: u64, b: u64| base.clone().run(k.deposit("alice", "P", &[a, b]));
    m.root("empty", base.clone());
    m.root("around the switch", seed(10_000_000_000, 9_999_999_999));
    m.root("beyond the switch", seed(100_000_000_000, 300_000_000_007));
    m.root("large", seed(1_234_567_890_123_456_789, 1_111_111_111_111_111_111));
    m.root("large and small", if amp == 0 { seed(1 << 60, 1_000_003) } else { seed(1 << 60, 1 << 58) });
    for (l, a, b) in [
        ("little", 1, 1),
        ("ten", 10, 10),
        ("much of one", 3, 30_000_000_000),
        ("much of the other", 30_000_000_000, 3),
        ("around", 9_999_999_999, 10_000_000_000),
        ("all", MAX / 16, MAX / 16),
    ] {
        m.call(&format!("bob deposits {}", l), k.deposit("bob", "P", &[a, b]));
    }
    for (a, b) in [("X", "Y"), ("Y", "X")] {
        for n in [1, 1_000, 12_345_678_901, MAX / 20] {
            m.call(&format!("carol swaps {} {}", n, a), k.swap("carol", "P", a, b, n, 0));
        }
        let k2 = kit.clone();
        let i = usize::from(a == "Y");
        let (a2, b2) = (a.to_string(), b.to_string());
        m.dynamic(&format!("carol swaps a third of the {}", a), move |s| {
            let x = *reserves(&k2, s).get(i)? / 3;
            (x > 0).then(|| k2.swap("carol", "P", &a2, &b2, x, 0))
        });
    }
    m.dynamic("alice redeems everything", redeem_share(k, "alice", 1, 1));
    m.dynamic("alice redeems a third", redeem_share(k, "alice", 1, 3));
    m.dynamic("bob redeems everything", redeem_share(k, "bob", 1, 1));
    m.call("bob redeems 1", k.redeem("bob", "P", 1, &[0, 0]));
    m.call("fee 1%", k.set_fee("admin", "P", 10_000));
    m.donate("bob/X", "P.X", 1 << 50);
    m.depth = (3, 4);
    m
}

/// From deployment on: who may create and set what.
pub fn life() -> Am {
    let mut k = one_pool(2, 1_000);
    k.user("mallory");
    for m in ["X", "Y"] {
        k.wallet("mallory", m, 1_000);
    }
    k.wallet("mallory", "P.lp", 0);
    k.pool("Q", &["Y", "X"]);
    k.wallet("carol", "Q.lp", 0);
    let mut m = Am::new("life", k);
    let kit = m.kit.clone();
    let k = &kit;
    m.root("deployed", Script::new(k, 10));
    m.root(
        "in use",
        created(k, 0)
            .run(k.set_fee("admin", "P", 5_000))
            .run(k.deposit("alice", "P", &[100, 200]))
            .run(k.put_discount("discounter", "carol", 500_000, 12)),
    );
    m.tick(1);
    for by in ["deployer", "mallory"] {
        m.call(&format!("{} creates the toll", by), k.create_toll(by, "tollkeeper"));
        m.call(&format!("{} creates the toll for mallory", by), k.create_toll(by, "mallory"));
        m.call(&format!("{} creates the settings", by), k.create_settings(by, "discounter"));
        m.call(&format!("{} creates the settings for mallory", by), k.create_settings(by, "mallory"));
    }
    for by in ["admin", "mallory"] {
        m.call(&format!("{} creates P", by), k.create_pool(by, "P", 0));
        m.call(&format!("{} creates stable P", by), k.create_pool(by, "P", 10));
        m.call(&format!("{} creates Q", by), k.create_pool(by, "Q", 85));
        for f in [0, 3_000, 10_000, 10_001, MAX] {
            m.call(&format!("{} sets fee {}", by, f), k.set_fee(by, "P", f));
        }
    }
    for by in ["discounter", "mallory"] {
        for (a, until) in [(1_000_000, 12), (1_000_001, 12), (250_000, 10), (250_000, 11), (0, 13), (MAX, MAX)] {
            m.call(
                &format!("{} gives carol {} until {}", by, a, until),
                k.put_discount(by, "carol", a, until),
            );
        }
    }
    m.call("discounter gives mallory 100%", k.put_discount("discounter", "mallory", 1_000_000, 11));
    m.call("alice deposits", k.deposit("alice", "P", &[100, 200]));
    m.call("carol deposits to Q", k.deposit("carol", "Q", &[300, 300]));
    m.call("carol swaps", k.swap("carol", "P", "X", "Y", 60, 0));
    m.call("carol swaps in Q", k.swap("carol", "Q", "X", "Y", 60, 0));
    m.call("mallory swaps", k.swap("mallory", "P", "Y", "X", 50, 0));
    m.call("mallory redeems", k.redeem("mallory", "P", 1, &[0, 0]));
    m.call("alice redeems", k.redeem("alice", "P", 100, &[0, 0]));
    // those in charge are users like any other
    for u in ["deployer", "discounter", "tollkeeper", "admin"] {
        m.call(&format!("{} swaps", u), k.swap(u, "P", "X", "Y", 31, 0));
        m.call(&format!("{} deposits", u), k.deposit(u, "P", &[11, 22]));
        m.call(&format!("{} redeems", u), k.redeem(u, "P", 5, &[0, 0]));
    }
    m.call("discounter gives admin 30%", k.put_discount("discounter", "admin", 300_000, 12));
    m.donate("mallory/X", "P.X", 5);
    m.donate("mallory/Y", "Q.Y", 5);
    m.max_now = 13;
    m.depth = (4, 5);
    m
}
