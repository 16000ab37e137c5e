//! Which explorations decide which property.
use crate::model::{Fm, Probe};
use crate::{probes, profiles, suites};
use svm::bfs::{Limits, Report};
use svm::report::Suite;

pub enum Item {
    /// model, quick depth, thorough depth, probe
    M(&'static str, usize, usize, &'static str),
    /// suite, and whether its deep variant is cheap enough for quick
    S(&'static str, bool),
}
use Item::*;

pub const ASSUMPTIONS: [&str; 5] = [
    "the program is driven through its real entrypoint on an in-process Solana runtime (svm/) with the real SPL token processor; compute limits and transaction size are not modelled",
    "solana-decimal is replaced by a stand-in with the same API and rounding (decimal/), validated by the repository's own unit tests",
    "bounds: the alphabets, roots and depths listed here; every operation was tried in every state reachable within the depth",
    "slots only grow; one instruction is atomic; nobody finds a key for a program-derived address",
    "recorded harvest may fall short of the exact amount by less than one token per window, as F03 states",
];

pub fn model(name: &str) -> Option<Fm> {
    Some(match name {
        "stake" => profiles::stake(),
        "periods" => profiles::periods(),
        "compound" => profiles::compound(),
        "mints" => profiles::mints(),
        "admin" => profiles::admin(),
        "accrual" => profiles::accrual(),
        "slots" => profiles::slots(),
        "cross" => profiles::cross(),
        "long" => profiles::long(),
        "ring" => profiles::ring(),
        "big" => profiles::big(),
        _ => return None,
    })
}

pub fn suite(name: &str, deep: bool) -> Option<Suite> {
    Some(match name {
        "claims" => suites::claims(deep),
        "period funding" => suites::funding(deep),
        "snapshot history" => suites::history(deep),
        "snapshot windows" => suites::windows(deep),
        "ten mints" => suites::ten_mints(deep),
        "ten compounding" => suites::ten_compounding(deep),
        "airdrops" => suites::airdrops(deep),
        "powers of two" => suites::powers(deep),
        "account substitution" => suites::substitution(deep),
        "creating and closing" => suites::births(deep),
        "slot of a snapshot" => suites::boundary(deep),
        _ => return None,
    })
}

pub fn probe(name: &str) -> Option<Probe> {
    match name {
        "leave" => Some(Box::new(probes::leave)),
        "settle" => Some(Box::new(probes::settle_everywhere)),
        "gifts" => Some(Box::new(probes::gifts)),
        "now" => Some(Box::new(probes::settle_now)),
        "args" => Some(Box::new(probes::args)),
        "both" => Some(Box::new(probes::both)),
        _ => None,
    }
}

pub fn run_model(m: &Fm, lim: &Limits) -> Report {
    crate::explore_model(m, lim)
}

pub fn plan(id: &str) -> Option<Vec<Item>> {
    Some(match id {
        "F01" => vec![M("stake", 6, 8, ""), M("compound", 5, 7, ""), M("big", 4, 5, ""), M("mints", 3, 5, ""), M("ring", 2, 4, ""), S("account substitution", false), M("stake", 2, 4, "args"), M("big", 1, 2, "args"), M("cross", 4, 6, ""), M("long", 3, 5, ""), S("ten compounding", false), S("powers of two", false)],
        "F02" => vec![
            M("stake", 5, 7, "leave"),
            M("periods", 5, 7, "leave"),
            M("compound", 4, 6, "leave"),
            M("mints", 4, 5, "leave"),
            M("accrual", 5, 8, "leave"),
            M("big", 4, 5, "leave"),
            M("ring", 2, 3, "leave"),
            S("slot of a snapshot", false),
            S("period funding", false),
            M("slots", 4, 5, "leave"),
            S("ten mints", false),
            M("cross", 4, 5, "leave"), M("long", 3, 4, "leave"), S("powers of two", false), S("account substitution", false),
        ],
        "F03" => vec![
            M("accrual", 6, 8, "settle"),
            M("stake", 5, 7, "settle"),
            M("ring", 2, 3, "settle"),
            M("big", 3, 4, "settle"),
            M("compound", 4, 6, ""),
            M("mints", 3, 5, "settle"),
            S("snapshot history", false),
            M("slots", 5, 7, "now"), M("stake", 2, 4, "args"),
            S("ten mints", false),
            M("cross", 3, 5, "settle"), M("long", 3, 4, "settle"), S("powers of two", false), S("account substitution", false),
        ],
        "F04" => vec![M("stake", 6, 8, ""), M("accrual", 5, 8, "settle"), M("compound", 5, 6, ""), M("ring", 3, 4, ""), M("big", 3, 4, ""), S("snapshot history", false), M("slots", 5, 7, "now"), M("long", 4, 5, "settle"), M("cross", 4, 5, ""), S("powers of two", false), S("account substitution", false)],
        "F05" => vec![M("big", 3, 4, ""), M("ring", 3, 4, "settle"), M("stake", 5, 7, ""), M("admin", 3, 3, ""), S("snapshot history", false), S("snapshot windows", false), S("account substitution", false), M("admin", 1, 2, "args"), M("slots", 4, 6, "now"), M("long", 3, 5, "settle"), S("powers of two", false)],
        "F06" => vec![M("periods", 6, 7, ""), M("admin", 3, 4, ""), M("mints", 3, 5, ""), M("accrual", 5, 8, ""), S("period funding", false), S("snapshot history", false), M("slots", 5, 7, "now"), M("periods", 2, 3, "args"), S("ten mints", false), M("long", 3, 4, "settle"), S("powers of two", false), S("account substitution", false)],
        "F07" => vec![M("periods", 6, 7, ""), M("admin", 3, 4, ""), M("big", 4, 5, ""), M("mints", 3, 5, ""), S("period funding", false), S("account substitution", false), M("periods", 2, 3, "args"), M("mints", 1, 2, "args"), M("big", 1, 2, "args"), M("long", 3, 5, ""), S("powers of two", false)],
        "F08" => vec![M("admin", 4, 4, ""), M("periods", 4, 6, ""), S("account substitution", true), S("creating and closing", false), M("admin", 1, 2, "args")],
        "F09" => vec![
            M("stake", 5, 7, ""),
            M("compound", 5, 6, ""),
            M("mints", 3, 5, ""),
            S("account substitution", true),
            S("claims", false),
            S("airdrops", false),
            M("stake", 1, 3, "args"),
            M("cross", 4, 6, ""),
            S("ten compounding", false),
        ],
        "F10" => vec![M("admin", 3, 4, ""), M("compound", 4, 6, ""), S("account substitution", true), S("creating and closing", false), S("claims", false), M("cross", 4, 5, "")],
        "F11" => vec![M("mints", 4, 5, ""), M("compound", 4, 6, ""), M("stake", 5, 7, ""), M("big", 3, 5, ""), S("claims", false), S("ten mints", false), M("cross", 4, 6, ""), S("ten compounding", false), S("powers of two", false), S("account substitution", false)],
        "F12" => vec![M("mints", 4, 5, ""), M("stake", 6, 8, ""), S("creating and closing", false), S("account substitution", false), S("ten mints", false), M("long", 4, 5, ""), S("ten compounding", false), S("powers of two", false)],
        "F13" => vec![M("compound", 5, 7, ""), M("admin", 4, 4, ""), S("account substitution", true), M("cross", 5, 7, ""), S("ten compounding", false), S("powers of two", false)],
        "F14" => vec![M("mints", 4, 6, ""), M("admin", 3, 4, ""), S("creating and closing", false), S("account substitution", false), S("ten mints", false), S("ten compounding", false)],
        "F15" => vec![M("mints", 4, 5, ""), M("big", 4, 5, ""), S("airdrops", false), S("account substitution", true), M("mints", 1, 2, "args"), M("big", 1, 2, "args"), S("ten mints", false), S("powers of two", false)],
        "F16" => vec![
            M("stake", 5, 7, "leave"),
            M("periods", 5, 6, "leave"),
            M("compound", 4, 6, "leave"),
            M("mints", 4, 5, "leave"),
            M("ring", 2, 3, "leave"),
            M("big", 4, 5, "leave"),
            M("admin", 3, 3, "leave"),
            S("slot of a snapshot", false),
            M("slots", 4, 5, "leave"),
            S("ten mints", false),
            M("cross", 3, 5, "leave"), M("long", 3, 4, "leave"),
            S("ten compounding", false), S("powers of two", false), S("account substitution", false),
        ],
        "F17" => vec![M("accrual", 6, 8, "settle"), M("stake", 5, 7, "settle"), M("compound", 4, 5, "settle"), M("ring", 2, 3, "settle"), M("big", 3, 4, "settle"), S("snapshot history", false), M("slots", 4, 5, "settle"), M("cross", 3, 4, "settle"), M("long", 3, 4, "settle"), S("powers of two", false)],
        "F18" => vec![M("admin", 3, 4, ""), S("creating and closing", false), S("account substitution", true)],
        "F19" => vec![
            M("stake", 4, 6, "gifts"),
            M("periods", 4, 5, "gifts"),
            M("compound", 3, 5, "gifts"),
            M("mints", 3, 4, "gifts"),
            M("admin", 2, 3, "gifts"),
            M("ring", 2, 3, "gifts"),
            S("creating and closing", false),
        ],
        _ => return None,
    })
}
