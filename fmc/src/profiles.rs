//! The explored systems: accounts, roots, alphabets.
use crate::kit::Kit;
use crate::model::{Fm, Script};

pub const MAX: u64 = u64::MAX;

pub fn one_farm(mints: &[&str]) -> Kit {
    let mut k = Kit::new(true);
    k.farm("A");
    for m in mints {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
    }
    for u in ["admin", "alice", "bob"] {
        for m in mints {
            k.wallet(u, m, if u == "admin" { 1 << 50 } else { 40 });
        }
    }
    k
}

/// Deposits, withdrawals, snapshots and settling of two farmers.
pub fn stake() -> Fm {
    let mut m = Fm::new("stake", one_farm(&["S", "H"]));
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 2))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("admin", "bob", "A"));
    let funded = base.clone().run(k.new_period("admin", "A", "H", 0, 60, 84_000));
    m.root("fresh", funded.clone());
    m.root(
        "running",
        funded
            .clone()
            .run(k.start("alice", "alice", "A", "S", 3))
            .at(11)
            .run(k.start("bob", "bob", "A", "S", 4))
            .at(13)
            .run(k.snapshot("A"))
            .at(14)
            .run(k.settle("alice", "A")),
    );
    m.root(
        "vesting on top",
        funded
            .clone()
            .run(k.start("alice", "alice", "A", "S", 3))
            .run(k.start("bob", "bob", "A", "S", 2))
            .at(12)
            .run(k.snapshot("A"))
            .at(13)
            .run(k.start("alice", "alice", "A", "S", 2)),
    );
    m.tick(1);
    m.tick(2);
    m.call("snapshot", k.snapshot("A"));
    m.call("settle alice", k.settle("alice", "A"));
    m.call("alice stakes 3", k.start("alice", "alice", "A", "S", 3));
    m.exit("alice unstakes all", k.stop("alice", "A", "S", MAX));
    m.call("alice unstakes 2", k.stop("alice", "A", "S", 2));
    m.exit("alice claims", k.claim("alice", "A", &["H"]));
    m.call("bob stakes 5", k.start("bob", "bob", "A", "S", 5));
    m.call("bob stakes 1 for alice", k.start("bob", "alice", "A", "S", 1));
    m.call("settle bob", k.settle("bob", "A"));
    m.exit("bob unstakes all", k.stop("bob", "A", "S", MAX));
    m.exit("bob claims", k.claim("bob", "A", &["H"]));
    {
        let k = kit.clone();
        m.dynamic("settle alice until one slot ago", move |n| k.settle_until("alice", "A", n - 1));
        let k = kit.clone();
        m.dynamic("settle bob until two slots ago", move |n| k.settle_until("bob", "A", n - 2));
    }
    m.call("alice closes", k.close_farmer("alice", "A"));
    m.call("bob creates alice's farmer", k.create_farmer("bob", "alice", "A"));
    m.donate("bob/S", "A.vault", 5);
    m.max_now = 40;
    m.depth = (6, 8);
    m
}

/// The schedule of periods.
pub fn periods() -> Fm {
    let mut m = Fm::new("periods", one_farm(&["S", "H"]));
    m.kit.wallet("bob", "S", 40);
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 4))
        .at(12)
        .run(k.snapshot("A"));
    m.root("no period", base.clone());
    m.root("one running", base.clone().run(k.new_period("admin", "A", "H", 0, 4, 84_000)));
    let mut nine = base.clone();
    for n in 0..9 {
        nine = nine.run(k.new_period("admin", "A", "H", 0, 2, 84_000 + 420 * n)).tick(2 + n % 2);
    }
    m.root("nine periods", nine.clone());
    let mut free = base.clone();
    for n in 0..10 {
        free = free.run(k.new_period("admin", "A", "H", 0, 2, if n % 3 == 0 { 0 } else { 420 * n })).tick(2 + n % 2);
    }
    m.root("ten periods, the oldest free", free);
    m.root("ten periods", nine.run(k.new_period("admin", "A", "H", 0, 2, 42_000)).tick(2));
    m.tick(1);
    m.tick(3);
    for (l, off, len, tps) in [
        ("now, 2 slots", None, 2, 84_000),
        ("now, 3 slots, dearer", None, 3, 126_000),
        ("from next slot, 2 slots", Some(1), 2, 42_000),
        ("from next slot, 4 slots, free", Some(1), 4, 0),
        ("from in 3 slots, 3 slots", Some(3), 3, 84_000),
        ("from last slot", Some(u64::MAX), 3, 84_000),
        ("now, no slots", None, 0, 84_000),
        ("now, 1 slot", None, 1, 84_000),
        ("now, 3 slots, 1 token each", None, 3, 1),
    ] {
        let k = kit.clone();
        m.dynamic(&format!("period {}", l), move |n| {
            let s = off.map_or(0, |o: u64| n.wrapping_add(o));
            k.new_period("admin", "A", "H", s, len, tps)
        });
    }
    m.call("snapshot", k.snapshot("A"));
    m.call("settle alice", k.settle("alice", "A"));
    m.call("settle bob", k.settle("bob", "A"));
    m.exit("alice claims", k.claim("alice", "A", &["H"]));
    m.max_now = 80;
    m.depth = (5, 7);
    m
}

pub fn two_farms(mints: &[&str]) -> Kit {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    for m in mints {
        k.mint(m);
    }
    for u in ["admin", "boss", "alice", "bob"] {
        k.user(u);
    }
    for u in ["admin", "boss", "alice", "bob"] {
        for m in mints {
            k.wallet(u, m, if u == "admin" || u == "boss" { 1 << 50 } else { 40 });
        }
    }
    k
}

/// Compounding within and across two farms.
pub fn compound() -> Fm {
    let mut m = Fm::new("compound", two_farms(&["S", "H"]));
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("boss", "B", "S"))
        .run(k.window("admin", "A", 2))
        .run(k.window("boss", "B", 2))
        .run(k.add_harvest("admin", "A", "S"))
        .run(k.add_harvest("boss", "B", "S"))
        .run(k.add_harvest("boss", "B", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("alice", "alice", "B"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.create_farmer("bob", "bob", "B"))
        .run(k.new_period("admin", "A", "S", 0, 40, 30))
        .run(k.new_period("boss", "B", "H", 0, 40, 8_400))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 2))
        .run(k.start("bob", "bob", "B", "S", 3));
    m.root("not whitelisted", base.clone().at(12).run(k.snapshot("A")).run(k.snapshot("B")));
    let white = base
        .run(k.whitelist("admin", "A", "B"))
        .run(k.whitelist("admin", "A", "A"))
        .at(12)
        .run(k.snapshot("A"))
        .run(k.snapshot("B"));
    m.root("whitelisted", white.clone());
    m.root(
        "vesting in B",
        white
            .at(13)
            .run(k.start("alice", "alice", "B", "S", 4))
            .at(15)
            .run(k.snapshot("B"))
            .run(k.snapshot("A")),
    );
    m.tick(1);
    m.tick(3);
    m.call("alice compounds A", k.compound_same("alice", "A", "S"));
    m.call("alice compounds A to B", k.compound_across("alice", "A", "B", "S"));
    m.call("bob compounds A to B", k.compound_across("bob", "A", "B", "S"));
    m.call("alice compounds B to A", k.compound_across("alice", "B", "A", "S"));
    m.call("snapshot A", k.snapshot("A"));
    m.call("snapshot B", k.snapshot("B"));
    m.call("settle alice on A", k.settle("alice", "A"));
    m.call("settle alice on B", k.settle("alice", "B"));
    m.call("whitelist A to B", k.whitelist("admin", "A", "B"));
    m.call("dewhitelist A to B", k.dewhitelist("admin", "A", "B"));
    m.call("whitelist B to A", k.whitelist("boss", "B", "A"));
    m.exit("alice claims S on A", k.claim("alice", "A", &["S"]));
    m.exit("alice unstakes all of B", k.stop("alice", "B", "S", MAX));
    m.call("alice stakes 2 on B", k.start("alice", "alice", "B", "S", 2));
    m.exit("alice claims H and S on B", k.claim("alice", "B", &["H", "S"]));
    m.max_now = 40;
    m.depth = (5, 7);
    m
}

/// Compounding between farms which stake different mints.
pub fn cross() -> Fm {
    let mut m = Fm::new("cross", two_farms(&["S", "H", "J"]));
    let kit = m.kit.clone();
    let k = &kit;
    let mut base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("boss", "B", "H"))
        .run(k.window("admin", "A", 2))
        .run(k.window("boss", "B", 2));
    for (who, farm, mints) in [("admin", "A", ["J", "S", "H"]), ("boss", "B", ["H", "S", "J"])] {
        for x in mints {
            base = base.run(k.add_harvest(who, farm, x));
        }
    }
    let base = base
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("alice", "alice", "B"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.create_farmer("bob", "bob", "B"))
        .run(k.new_period("admin", "A", "S", 0, 40, 31))
        .run(k.new_period("admin", "A", "H", 0, 40, 107))
        .run(k.new_period("boss", "B", "S", 0, 40, 1_009))
        .run(k.new_period("boss", "B", "H", 0, 40, 53))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 2))
        .run(k.start("bob", "bob", "B", "H", 3))
        .run(k.start("alice", "alice", "B", "H", 1));
    let white = base.run(k.whitelist("admin", "A", "B")).run(k.whitelist("boss", "B", "B"));
    m.root("started", white.clone().at(12).run(k.snapshot("A")).run(k.snapshot("B")));
    m.root(
        "accrued",
        white
            .run(k.whitelist("boss", "B", "A"))
            .run(k.whitelist("admin", "A", "A"))
            .at(12)
            .run(k.snapshot("A"))
            .run(k.snapshot("B"))
            .at(15)
            .run(k.settle("alice", "A"))
            .run(k.settle("bob", "B"))
            .run(k.start("alice", "alice", "B", "H", 4))
            .run(k.snapshot("A")),
    );
    m.tick(2);
    for u in ["alice", "bob"] {
        m.call(&format!("{} compounds A to B", u), k.compound_across(u, "A", "B", "H"));
    }
    m.call("alice compounds A to B with S", k.compound_across("alice", "A", "B", "S"));
    m.call("alice compounds B to A", k.compound_across("alice", "B", "A", "S"));
    m.call("alice compounds B to A with H", k.compound_across("alice", "B", "A", "H"));
    m.call("alice compounds A", k.compound_same("alice", "A", "S"));
    m.call("bob compounds B", k.compound_same("bob", "B", "H"));
    m.call("alice compounds B with S", k.compound_same("alice", "B", "S"));
    m.call("snapshot A", k.snapshot("A"));
    m.call("snapshot B", k.snapshot("B"));
    m.call("settle alice on B", k.settle("alice", "B"));
    m.call("dewhitelist A to B", k.dewhitelist("admin", "A", "B"));
    m.exit("alice claims S and H on A", k.claim("alice", "A", &["S", "H"]));
    m.exit("alice unstakes all of B", k.stop("alice", "B", "H", MAX));
    m.exit("bob claims H on B", k.claim("bob", "B", &["H"]));
    m.max_now = 40;
    m.depth = (4, 6);
    m
}

/// Long silences; the farm's admin is a farmer like any other.
pub fn long() -> Fm {
    let mut m = Fm::new("long", one_farm(&["S", "H"]));
    m.kit.wallet("admin", "H", 1 << 62);
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10_000)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("admin", "admin", "A"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("admin", "admin", "A", "S", 4));
    m.root("no snapshot", base.clone().run(k.new_period("admin", "A", "H", 0, 5_000_000, 1_000_003)));
    let run = base.tick(1).run(k.snapshot("A")).run(k.settle("admin", "A"));
    m.root("one snapshot", run.clone().run(k.new_period("admin", "A", "H", 0, 1 << 33, 1_003)));
    m.root("two snapshots", run.run(k.new_period("admin", "A", "H", 0, 9_000, 1_000_000_007)).tick(7_200).run(k.snapshot("A")));
    for d in [1, 7_199, 7_200, 70_000, 3_000_000, 1 << 32] {
        m.tick(d);
    }
    m.call("snapshot", k.snapshot("A"));
    for u in ["alice", "admin"] {
        m.call(&format!("settle {}", u), k.settle(u, "A"));
        m.call(&format!("{} stakes 2", u), k.start(u, u, "A", "S", 2));
        m.exit(&format!("{} unstakes all", u), k.stop(u, "A", "S", MAX));
        m.exit(&format!("{} claims", u), k.claim(u, "A", &["H"]));
        m.call(&format!("{} closes", u), k.close_farmer(u, "A"));
    }
    m.call("admin stakes 1 for alice", k.start("admin", "alice", "A", "S", 1));
    m.call("alice airdrops 3 to admin", k.airdrop("alice", "admin", "A", "H", 3));
    m.call("period of 8000 slots", k.new_period("admin", "A", "H", 0, 8_000, 50_021));
    {
        let k = kit.clone();
        m.dynamic("period from in 7200 slots", move |n| k.new_period("admin", "A", "H", n + 7_200, 20_000, 77_003));
        let k = kit.clone();
        m.dynamic("settle alice until 7200 slots ago", move |n| k.settle_until("alice", "A", n.saturating_sub(7_200)));
    }
    m.depth = (4, 5);
    m
}

/// Harvest mints coming and going; farmers following; airdrops and claims.
pub fn mints() -> Fm {
    let mut k = Kit::new(true);
    k.farm("A");
    let names: Vec<String> =
        ["S".to_string()].into_iter().chain((1..=11).map(|n| format!("H{}", n))).collect();
    for m in &names {
        k.mint(m);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
        for m in &names {
            k.wallet(u, m, if u == "admin" { 1 << 50 } else { 60 });
        }
    }
    let mut m = Fm::new("mints", k);
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.create_farmer("bob", "alice", "A"));
    m.root("no mint", base.clone());
    let two = base
        .clone()
        .run(k.add_harvest("admin", "A", "H1"))
        .run(k.add_harvest("admin", "A", "H2"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 4))
        .tick(1)
        .run(k.snapshot("A"))
        .run(k.settle("alice", "A"))
        .run(k.new_period("admin", "A", "H2", 0, 3, 1_000));
    m.root("two mints", two.clone());
    m.root(
        "airdropped",
        two.clone()
            .run(k.airdrop("bob", "alice", "A", "H1", 5))
            .run(k.airdrop("bob", "bob", "A", "H1", 7))
            .tick(3)
            .run(k.settle("alice", "A")),
    );
    let mut ten = two;
    for n in [4, 5, 6, 7, 8, 9, 10, 11] {
        ten = ten.run(k.add_harvest("admin", "A", &format!("H{}", n)));
    }
    let ten = ten
        .run(k.new_period("admin", "A", "H1", 0, 5, 7))
        .run(k.new_period("admin", "A", "H11", 0, 5, 70))
        .tick(2);
    m.root("ten mints", ten.clone().run(k.settle("bob", "A")));
    m.root(
        "ten mints, one gone",
        ten.tick(1)
            .run(k.settle("bob", "A"))
            .run(k.settle("alice", "A"))
            .run(k.airdrop("bob", "alice", "A", "H10", 3))
            .run(k.remove_harvest("admin", "A", "H5")),
    );
    m.tick(1);
    m.tick(3);
    for h in ["H1", "H2", "H3"] {
        m.call(&format!("add {}", h), k.add_harvest("admin", "A", h));
        m.call(&format!("remove {}", h), k.remove_harvest("admin", "A", h));
        m.call(&format!("airdrop 5 {} to alice", h), k.airdrop("bob", "alice", "A", h, 5));
    }
    m.call("airdrop 2 H1 to bob", k.airdrop("alice", "bob", "A", "H1", 2));
    m.call("airdrop 0 H1 to bob", k.airdrop("alice", "bob", "A", "H1", 0));
    m.call("airdrop too much H1 to bob", k.airdrop("alice", "bob", "A", "H1", 61));
    m.call("period of H1", k.new_period("admin", "A", "H1", 0, 2, 21));
    m.call("period of H3", k.new_period("admin", "A", "H3", 0, 2, 700));
    m.call("settle alice", k.settle("alice", "A"));
    m.call("settle bob", k.settle("bob", "A"));
    m.exit("alice claims H1", k.claim("alice", "A", &["H1"]));
    m.exit("alice claims H2, H1", k.claim("alice", "A", &["H2", "H1"]));
    m.exit("alice claims H3 twice", k.claim("alice", "A", &["H3", "H3"]));
    m.exit("bob claims H1", k.claim("bob", "A", &["H1"]));
    m.exit("bob claims H2, H2, H1", k.claim("bob", "A", &["H2", "H2", "H1"]));
    m.exit("alice unstakes all", k.stop("alice", "A", "S", MAX));
    m.call("alice closes", k.close_farmer("alice", "A"));
    m.call("bob creates alice's farmer", k.create_farmer("bob", "alice", "A"));
    m.donate("bob/H1", "A.H1", 1);
    m.max_now = 60;
    m.depth = (4, 5);
    m
}

/// Who may administer which farm.
pub fn admin() -> Fm {
    let mut k = Kit::new(true);
    k.farm("A");
    k.farm("B");
    for x in ["S", "H"] {
        k.mint(x);
    }
    for u in ["admin", "boss", "carol", "alice"] {
        k.user(u);
        for x in ["S", "H"] {
            k.wallet(u, x, 1 << 40);
        }
    }
    let mut m = Fm::new("admin", k);
    let kit = m.kit.clone();
    let k = &kit;
    m.root("blank", Script::new(k, 10));
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.create_farm("boss", "B", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.window("boss", "B", 1))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("alice", "alice", "B"))
        .run(k.start("alice", "alice", "A", "S", 3));
    m.root("two farms", base.clone());
    m.root(
        "with mints",
        base.run(k.add_harvest("admin", "A", "S"))
            .run(k.add_harvest("boss", "B", "S"))
            .run(k.whitelist("admin", "A", "B"))
            .run(k.set_owner("admin", "carol", "A"))
            .run(k.new_period("boss", "B", "S", 12, 4, 9))
            .tick(1)
            .run(k.snapshot("A")),
    );
    let actors = ["admin", "boss", "carol"];
    for f in ["A", "B"] {
        for a in actors {
            for b in actors {
                if a != b {
                    m.call(&format!("{} gives {} to {}", a, f, b), k.set_owner(a, b, f));
                }
            }
            m.call(&format!("{} sets window 3 of {}", a, f), k.window(a, f, 3));
            m.call(&format!("{} adds S to {}", a, f), k.add_harvest(a, f, "S"));
            m.call(&format!("{} removes S from {}", a, f), k.remove_harvest(a, f, "S"));
            m.call(&format!("{} funds {}", a, f), k.new_period(a, f, "S", 0, 3, 12));
            m.call(&format!("{} schedules {}", a, f), k.new_period(a, f, "S", 14, 2, 5));
            m.call(&format!("{} creates {}", a, f), k.create_farm(a, f, "H"));
            for g in ["A", "B"] {
                m.call(&format!("{} whitelists {}>{}", a, f, g), k.whitelist(a, f, g));
                m.call(&format!("{} dewhitelists {}>{}", a, f, g), k.dewhitelist(a, f, g));
            }
        }
        m.call(&format!("snapshot {}", f), k.snapshot(f));
    }
    m.call("alice compounds A to B", k.compound_across("alice", "A", "B", "S"));
    m.call("alice compounds B to A", k.compound_across("alice", "B", "A", "S"));
    m.call("alice compounds A", k.compound_same("alice", "A", "S"));
    m.tick(1);
    m.max_now = 30;
    m.depth = (3, 4);
    m
}

/// Exact accrual over many layouts of snapshots and periods.
pub fn accrual() -> Fm {
    let mut m = Fm::new("accrual", one_farm(&["S", "H", "J"]));
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "J"))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 4));
    m.root("before the first snapshot", base.clone());
    m.root(
        "both staked",
        base.clone()
            .tick(1)
            .run(k.snapshot("A"))
            .run(k.settle("alice", "A"))
            .run(k.settle("bob", "A"))
            .tick(1)
            .run(k.new_period("admin", "A", "J", 14, 4, 1_000_000_007)),
    );
    m.root(
        "more vesting",
        base.tick(1)
            .run(k.snapshot("A"))
            .tick(1)
            .run(k.new_period("admin", "A", "J", 13, 9, 10_007))
            .tick(2)
            .run(k.start("alice", "alice", "A", "S", 6)),
    );
    m.tick(1);
    m.tick(2);
    m.call("snapshot", k.snapshot("A"));
    m.call("period of H, 3 slots", k.new_period("admin", "A", "H", 0, 3, 1_000_003));
    m.call("period of J, 2 slots", k.new_period("admin", "A", "J", 0, 2, 39));
    let k2 = kit.clone();
    m.dynamic("period of H in 2 slots, 2 slots", move |n| {
        k2.new_period("admin", "A", "H", n + 2, 2, 123_456_789_012_345)
    });
    m.call("bob stakes 5", k.start("bob", "bob", "A", "S", 5));
    m.call("settle alice", k.settle("alice", "A"));
    m.max_now = 30;
    m.depth = (7, 9);
    m.probe = Some(Box::new(crate::probes::settle_everywhere));
    m
}

/// Slot after slot, one of a few things happens; everybody is settled in every
/// state: all layouts of snapshots, periods of two mints, deposits and
/// settlements over a number of slots.
pub fn slots() -> Fm {
    let mut m = Fm::new("slots", one_farm(&["S", "H", "J"]));
    for u in ["H", "J"] {
        m.kit.wallet("admin", u, 1 << 62);
    }
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "J"))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 4))
        .tick(1)
        .run(k.snapshot("A"))
        .run(k.settle("alice", "A"));
    m.root(
        "staked",
        base.run(k.new_period("admin", "A", "J", 0, 2, 1_000_000_000_039)).tick(1),
    );
    // no two periods pay alike
    let tps = |n: u64| 1_000_000_000_003 * (1 + n % 13) + n;
    let mut op = |l: &str, f: Box<dyn Fn(&Kit, u64) -> Vec<svm::Ix> + Send + Sync>| {
        let k = kit.clone();
        m.slot(l, move |n| f(&k, n));
    };
    op("nothing", Box::new(|_, _| vec![]));
    op("snapshot", Box::new(|k, _| vec![k.snapshot("A")]));
    op("H for 2 slots", Box::new(move |k, n| vec![k.new_period("admin", "A", "H", 0, 2, tps(n))]));
    op("H for 3 slots", Box::new(move |k, n| vec![k.new_period("admin", "A", "H", 0, 3, tps(n + 1))]));
    op("J in 2 slots for 2", Box::new(move |k, n| vec![k.new_period("admin", "A", "J", n + 2, 2, tps(n + 2))]));
    op(
        "H and J for 2 slots, snapshot",
        Box::new(move |k, n| {
            vec![
                k.new_period("admin", "A", "H", 0, 2, tps(n + 3)),
                k.new_period("admin", "A", "J", 0, 2, tps(n + 4)),
                k.snapshot("A"),
            ]
        }),
    );
    op("bob stakes 2", Box::new(|k, _| vec![k.start("bob", "bob", "A", "S", 2)]));
    op("alice stakes 1, snapshot", Box::new(|k, _| vec![k.start("alice", "alice", "A", "S", 1), k.snapshot("A")]));
    op("settle alice", Box::new(|k, _| vec![k.settle("alice", "A")]));
    op("snapshot, bob stakes 1", Box::new(|k, _| vec![k.snapshot("A"), k.start("bob", "bob", "A", "S", 1)]));
    m.depth = (4, 6);
    m
}

/// The ring buffer of snapshots around its wrap.
pub fn ring() -> Fm {
    let mut m = Fm::new("ring", one_farm(&["S", "H"]));
    m.kit.user("carol");
    m.kit.wallet("carol", "S", 40);
    m.kit.wallet("carol", "H", 0);
    let kit = m.kit.clone();
    let k = &kit;
    let base = Script::new(k, 10)
        .run(k.create_farm("admin", "A", "S"))
        .run(k.window("admin", "A", 1))
        .run(k.add_harvest("admin", "A", "H"))
        .run(k.create_farmer("alice", "alice", "A"))
        .run(k.create_farmer("bob", "bob", "A"))
        .run(k.create_farmer("carol", "carol", "A"))
        .run(k.new_period("admin", "A", "H", 0, 5_000, 10_007))
        .run(k.start("alice", "alice", "A", "S", 3))
        .run(k.start("bob", "bob", "A", "S", 4))
        .at(12)
        .run(k.snapshot("A"))
        .run(k.settle("bob", "A"))
        .run(k.start("bob", "bob", "A", "S", 2))
        .at(14);
    let mut s = base;
    // snapshot number n is in slot 12 + 2n (n = 0, 1, ...)
    for n in 1..=2003u64 {
        s = s.at(12 + 2 * n);
        // the total changes in every 100th window
        if n % 100 == 50 && n < 3000 {
            s = s.run(k.start("admin", "carol", "A", "S", 1));
        }
        s = s.run(k.snapshot("A"));
        if [3, 998, 999, 1000, 1001, 1002, 1500, 1997, 1998, 1999, 2001].contains(&n) {
            m.root(&format!("{} snapshots", n + 1), s.clone());
        }
    }
    m.tick(1);
    m.tick(2);
    m.call("snapshot", k.snapshot("A"));
    m.call("settle alice", k.settle("alice", "A"));
    m.call("settle bob", k.settle("bob", "A"));
    m.call("settle carol", k.settle("carol", "A"));
    m.call("alice stakes 2", k.start("alice", "alice", "A", "S", 2));
    m.call("bob stakes 1", k.start("bob", "bob", "A", "S", 1));
    m.exit("alice unstakes all", k.stop("alice", "A", "S", MAX));
    m.exit("bob unstakes all", k.stop("bob", "A", "S", MAX));
    for d in [1u64, 500, 1_990, 2_000] {
        let k = kit.clone();
        m.dynamic(&format!("settle alice until {} slots ago", d), move |n| {
            k.settle_until("alice", "A", n.saturating_sub(d))
        });
    }
    m.donate("alice/S", "A.vault", 1);
    m.depth = (3, 4);
    m
}

/// Amounts and slots near the limits of their types.
pub fn big() -> Fm {
    let mut k = Kit::new(true);
    k.farm("A");
    for x in ["S", "H", "J"] {
        k.mint(x);
    }
    for u in ["admin", "alice", "bob"] {
        k.user(u);
    }
    for (u, x, n) in [
        ("alice", "S", 1u64 << 63),
        ("bob", "S", (1 << 63) - 1),
        ("admin", "H", MAX),
        ("admin", "J", MAX - 5),
        ("alice", "H", 0),
        ("alice", "J", 0),
        ("bob", "H", 0),
        ("bob", "J", 5),
    ] {
        k.wallet(u, x, n);
    }
    let mut m = Fm::new("big", k);
    let kit = m.kit.clone();
    let k = &kit;
    for (name, t0) in [("", 10u64), (" at 2^32", (1 << 32) - 4), (" at 2^62", 1 << 62)] {
        let base = Script::new(k, t0)
            .run(k.create_farm("admin", "A", "S"))
            .run(k.window("admin", "A", 2))
            .run(k.add_harvest("admin", "A", "H"))
            .run(k.add_harvest("admin", "A", "J"))
            .run(k.create_farmer("alice", "alice", "A"))
            .run(k.create_farmer("bob", "bob", "A"));
        m.root(&format!("empty{}", name), base.clone());
        let all = base
            .clone()
            .run(k.new_period("admin", "A", "H", 0, 3, MAX / 3))
            .run(k.new_period("admin", "A", "J", 0, 10, (MAX - 5) / 10))
            .run(k.start("alice", "alice", "A", "S", 1 << 63))
            .run(k.start("bob", "bob", "A", "S", (1 << 63) - 1))
            .tick(2)
            .run(k.snapshot("A"));
        m.root(&format!("all staked{}", name), all);
        m.root(
            &format!("one token against all{}", name),
            base.run(k.new_period("admin", "A", "J", 0, 7, (MAX - 5) / 7))
                .run(k.start("alice", "alice", "A", "S", 1))
                .run(k.start("bob", "bob", "A", "S", (1 << 63) - 1))
                .tick(2)
                .run(k.snapshot("A"))
                .run(k.settle("bob", "A")),
        );
    }
    m.tick(1);
    m.tick(2);
    m.call("snapshot", k.snapshot("A"));
    for u in ["alice", "bob"] {
        m.call(&format!("{} stakes 2^62", u), k.start(u, u, "A", "S", 1 << 62));
        m.call(&format!("{} stakes 2^63-1", u), k.start(u, u, "A", "S", (1 << 63) - 1));
        m.exit(&format!("{} unstakes all", u), k.stop(u, "A", "S", MAX));
        m.call(&format!("{} unstakes 2^62+1", u), k.stop(u, "A", "S", (1 << 62) + 1));
        m.call(&format!("settle {}", u), k.settle(u, "A"));
        m.exit(&format!("{} claims", u), k.claim(u, "A", &["J", "H"]));
    }
    m.call("airdrop 5 J to alice", k.airdrop("bob", "alice", "A", "J", 5));
    m.call("airdrop 2^63 H to alice", k.airdrop("admin", "alice", "A", "H", 1 << 63));
    m.call("airdrop all H to bob", k.airdrop("admin", "bob", "A", "H", MAX));
    m.call("dear period of H", k.new_period("admin", "A", "H", 0, 2, 1 << 63));
    m.call("dearest period of H", k.new_period("admin", "A", "H", 0, 2, (1 << 63) - 1));
    m.depth = (4, 5);
    m
}
