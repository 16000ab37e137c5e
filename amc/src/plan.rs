//! Which explorations decide which property.
use crate::model::{Am, Probe};
use crate::{probes, profiles, suites};
use svm::bfs::{Limits, Report};
use svm::report::Suite;

pub enum Item {
    /// model, quick depth, thorough depth, probe
    M(&'static str, usize, usize, &'static str),
    /// suite, and whether its deep variant is cheap enough for quick
    S(&'static str, bool),
}
use Item::*;

pub const ASSUMPTIONS: [&str; 4] = [
    "the program is driven through its real entrypoint on an in-process Solana runtime (svm/) with the real SPL token processor; compute limits and transaction size are not modelled",
    "solana-decimal is replaced by a stand-in with the same API and rounding (decimal/), validated by the repository's own unit tests",
    "bounds: the alphabets, roots, grids and depths listed here; every operation was tried in every state reachable within the depth, every case of a grid was run",
    "slots only grow; one instruction is atomic; nobody finds a key for a program-derived address",
];

pub fn model(name: &str) -> Option<Am> {
    Some(match name {
        "product2" => profiles::small(2, 0),
        "product3" => profiles::small(3, 0),
        "product4" => profiles::small(4, 0),
        "stable2" => profiles::small(2, 10),
        "stable3" => profiles::small(3, 85),
        "stable4" => profiles::small(4, 100),
        "big product" => profiles::big(0),
        "big stable" => profiles::big(50),
        "life" => profiles::life(),
        _ => return None,
    })
}

pub fn suite(name: &str, deep: bool) -> Option<Suite> {
    Some(match name {
        "constant product swaps" => suites::product_swaps(deep),
        "fees and discounts" => suites::fees(deep),
        "stable swaps" => suites::stable_swaps(deep),
        "stable invariants" => suites::invariants(deep),
        "deposits" => suites::deposits(deep),
        "redemptions" => suites::redemptions(deep),
        "administration" => suites::administration(deep),
        "account substitution" => suites::substitution(deep),
        "limits" => suites::limits(deep),
        "pool creation" => suites::creation(deep),
        _ => return None,
    })
}

pub fn probe(name: &str) -> Option<Probe> {
    match name {
        "leave" => Some(Box::new(probes::leave)),
        "trips" => Some(Box::new(probes::trips)),
        "gifts" => Some(Box::new(probes::gifts)),
        "args" => Some(Box::new(probes::args)),
        "both" => Some(Box::new(probes::both)),
        _ => None,
    }
}

pub fn run_model(m: &Am, lim: &Limits) -> Report {
    crate::explore_model(m, lim)
}

pub fn plan(id: &str) -> Option<Vec<Item>> {
    Some(match id {
        // reserves and vault balances
        "A01" => vec![
            M("product2", 4, 6, ""),
            M("product3", 4, 5, ""),
            M("product4", 3, 5, ""),
            M("stable2", 4, 5, ""),
            M("stable3", 3, 5, ""),
            M("big product", 4, 5, ""),
            M("big stable", 3, 5, ""),
            M("life", 4, 6, ""),
            S("deposits", true),
            S("redemptions", true),
            S("constant product swaps", false),
            S("stable swaps", false),
            S("limits", false),
            S("pool creation", true),
            S("account substitution", false),
            M("product2", 1, 3, "args"), M("stable3", 1, 2, "args"), M("big product", 1, 2, "args"),
        ],
        // constant product
        "A02" => vec![
            M("product2", 3, 4, "trips"),
            M("product3", 3, 4, "trips"),
            M("product4", 2, 3, "trips"),
            M("big product", 3, 4, "trips"),
            M("life", 3, 5, ""),
            S("constant product swaps", true),
            S("fees and discounts", false),
            M("product2", 1, 3, "args"), M("big product", 1, 2, "args"),
            S("account substitution", false),
        ],
        // stable curve
        "A03" => vec![
            M("stable2", 3, 4, "trips"),
            M("stable3", 3, 3, "trips"),
            M("stable4", 2, 3, "trips"),
            M("big stable", 3, 4, "trips"),
            S("stable swaps", true),
            S("stable invariants", false),
            S("pool creation", true),
            M("stable2", 1, 3, "args"), M("big stable", 1, 2, "args"),
            S("account substitution", false),
        ],
        // worth of LP tokens
        "A04" => vec![
            M("product2", 3, 4, "trips"),
            M("product3", 2, 4, "trips"),
            M("product4", 2, 3, "trips"),
            M("stable2", 3, 4, "trips"),
            M("stable3", 2, 3, "trips"),
            M("stable4", 2, 3, "trips"),
            M("big product", 3, 4, "trips"),
            M("big stable", 2, 4, "trips"),
            S("constant product swaps", false),
            S("stable swaps", false),
            S("fees and discounts", true),
            S("deposits", true),
            S("redemptions", true),
            M("product3", 1, 2, "args"), M("big product", 1, 2, "args"),
            S("account substitution", false),
            S("limits", false),
        ],
        // limits
        "A05" => vec![
            M("product2", 4, 5, ""),
            M("stable2", 3, 5, ""),
            M("big product", 3, 5, ""),
            M("life", 3, 5, ""),
            S("constant product swaps", true),
            S("stable swaps", true),
            S("deposits", true),
            S("redemptions", true),
            S("limits", false),
            M("product3", 1, 2, "args"), M("stable2", 1, 3, "args"), M("big product", 1, 2, "args"),
        ],
        // fee, discount, toll
        "A06" => vec![
            M("product2", 4, 5, ""),
            M("product3", 3, 5, ""),
            M("product4", 3, 4, ""),
            M("stable2", 3, 5, ""),
            M("stable3", 3, 4, ""),
            M("big product", 3, 5, ""),
            M("big stable", 3, 4, ""),
            M("life", 4, 6, ""),
            S("fees and discounts", true),
            S("constant product swaps", true),
            S("stable swaps", false),
            S("administration", true),
            S("account substitution", false),
            M("product2", 1, 3, "args"), M("life", 1, 2, "args"),
        ],
        // administration
        "A07" => vec![
            M("life", 4, 6, ""),
            M("product2", 3, 5, ""),
            S("administration", true),
            S("pool creation", false),
            S("account substitution", true),
            M("life", 2, 3, "args"),
        ],
        // creation
        "A08" => vec![
            M("life", 4, 6, ""),
            S("pool creation", true),
            S("account substitution", true),
            M("life", 1, 3, "args"),
        ],
        // deposits
        "A09" => vec![
            M("product2", 4, 6, ""),
            M("product3", 3, 5, ""),
            M("product4", 3, 5, ""),
            M("stable3", 3, 4, ""),
            M("big product", 4, 5, ""),
            M("big stable", 3, 5, ""),
            S("deposits", true),
            S("limits", false),
            M("product3", 1, 2, "args"), M("product4", 0, 2, "args"), M("big product", 1, 2, "args"),
            S("account substitution", false),
        ],
        // redemptions
        "A10" => vec![
            M("product2", 3, 5, "leave"),
            M("product3", 3, 4, "leave"),
            M("product4", 3, 4, "leave"),
            M("stable2", 3, 5, "leave"),
            M("stable3", 2, 4, "leave"),
            M("big product", 3, 4, "leave"),
            M("big stable", 3, 4, "leave"),
            S("redemptions", true),
            S("limits", false),
            S("pool creation", false),
            M("product3", 1, 2, "args"), M("product4", 0, 2, "args"), M("big product", 1, 2, "args"),
            S("account substitution", false),
        ],
        // accounts
        "A11" => vec![
            M("life", 4, 5, ""),
            M("product3", 3, 4, ""),
            S("account substitution", true),
            S("limits", false),
            S("administration", true),
        ],
        // the invariant
        "A12" => vec![
            M("stable2", 4, 5, ""),
            M("stable3", 3, 5, ""),
            M("stable4", 3, 5, ""),
            M("big stable", 4, 5, ""),
            S("stable invariants", true),
            S("stable swaps", true),
            S("deposits", false),
            S("pool creation", false),
            M("stable3", 1, 2, "args"), M("stable4", 0, 2, "args"), M("big stable", 1, 2, "args"),
        ],
        // outsiders
        "A13" => vec![
            M("product2", 3, 4, "gifts"),
            M("product3", 2, 3, "gifts"),
            M("stable2", 3, 4, "gifts"),
            M("stable4", 2, 3, "gifts"),
            M("big product", 2, 3, "gifts"),
            M("life", 3, 4, "gifts"),
            S("administration", true),
        ],
        _ => return None,
    })
}
