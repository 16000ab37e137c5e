//! Model checker of the farming program.
//!   fmc check <property> <quick|thorough> <dir>
//!   fmc replay <file>
//!   fmc run <model or suite> [depth] [secs] [probe]
mod abs;
mod judge;
mod kit;
mod model;
mod plan;
mod probes;
mod profiles;
mod spec;
mod suites;

use std::path::Path;
use std::time::{Duration, Instant};
use svm::bfs::{explore, replay, Found, Limits, Report};
use svm::report::{Suite, Verdict};
use svm::{Ix, Universe};

pub fn show(u: &Universe, ix: &Ix) -> String {
    let ep = spec::endpoint(ix).unwrap_or("?");
    let accs: Vec<String> = ix
        .metas
        .iter()
        .map(|m| format!("{}{}", u.name(m.i), if m.s { "*" } else { "" }))
        .collect();
    let at = if matches!(ep, "new_harvest_period" | "remove_harvest") { 40 } else { 8 };
    let args: Vec<String> = ix.data[at.min(ix.data.len())..]
        .chunks(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()).to_string())
        .collect();
    format!("{}({})[{}]", ep, args.join(","), accs.join(" "))
}

fn print_report(r: &Report) {
    eprintln!(
        "{}: {} states, {} transitions, {} runs, depth {}/{}{}{} in {:.1} s, {} found",
        r.model,
        r.states,
        r.transitions,
        r.runs,
        r.depth,
        r.want_depth,
        if r.closed { ", closed" } else { "" },
        r.capped.as_ref().map_or(String::new(), |c| format!(", capped: {}", c)),
        r.wall,
        r.found.len()
    );
}

fn print_suite(s: &Suite) {
    eprintln!(
        "{}: {} cases, {} runs{} in {:.1} s, {} found",
        s.name,
        s.cases,
        s.runs,
        s.capped.as_ref().map_or(String::new(), |c| format!(", capped: {}", c)),
        s.wall,
        s.found.len()
    );
}

fn print_found(found: &[Found]) {
    let mut seen = std::collections::BTreeSet::new();
    for f in found {
        let d: String = f.v.what.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
        if seen.insert(d) {
            println!("--- {:?}\n  root {} {:#?}\n {}", f.v.tags, f.root, f.path, f.v.what);
        }
    }
}

fn check(id: &str, tier: &str, dir: &Path) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(items) = plan::plan(id) else {
        eprintln!("no such property: {}", id);
        return 2;
    };
    let mut v = Verdict {
        id,
        tier,
        reports: vec![],
        suites: vec![],
        assumptions: plan::ASSUMPTIONS.iter().map(|s| s.to_string()).collect(),
        wall: 0.0,
    };
    svm::bfs::set_target(id);
    let budget = Duration::from_secs(if thorough { 6 * 3600 } else { 600 });
    for it in items {
        if v.decided(dir) || t0.elapsed() > budget {
            break;
        }
        match it {
            plan::Item::M(name, quick, deep, probe) => {
                let mut m = plan::model(name).unwrap();
                m.probe = plan::probe(probe);
                let r = plan::run_model(
                    &m,
                    &Limits {
                        depth: if thorough { deep } else { quick },
                        time: Duration::from_secs(if thorough { 900 } else { 100 }).min(budget.saturating_sub(t0.elapsed())),
                        max_states: 8_000_000,
                        replays: if thorough { 200 } else { 50 },
                    },
                );
                print_report(&r);
                v.reports.push(r);
            }
            plan::Item::S(name, deep_in_quick) => {
                let s = plan::suite(name, thorough || deep_in_quick).unwrap();
                print_suite(&s);
                v.suites.push(s);
            }
        }
    }
    v.wall = t0.elapsed().as_secs_f64();
    v.finish(dir)
}

fn replay_file(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string()
    };
    let (name, root) = (field("model: "), field("root: "));
    if !field("property: ").is_empty() {
        svm::bfs::set_target(&field("property: "));
    }
    let path: Vec<String> =
        text.lines().filter_map(|l| l.strip_prefix("op: ")).map(|s| s.to_string()).collect();
    if let Some(mut m) = plan::model(&name) {
        m.probe = plan::probe("both");
        for f in &m.early {
            if f.root == root {
                print_found(&[f.clone()]);
                return 1;
            }
        }
        let (lines, v) = replay(&m, &root, &path);
        for l in lines {
            println!("{}", l);
        }
        return match v {
            Some(v) => {
                println!("{:?} {}", v.tags, v.what);
                1
            }
            None => 0,
        };
    }
    for deep in [false, true] {
        if let Some(s) = plan::suite(&name, deep) {
            if let Some(f) = s.found.iter().find(|f| f.root == root && f.path == path) {
                print_found(&[f.clone()]);
                return 1;
            }
        }
    }
    0
}

/// Everything once; stops at the first difference (for mutation campaigns).
fn all() -> i32 {
    let show = |name: &str, found: &[Found]| {
        let bad: Vec<&Found> = found.iter().filter(|f| !f.v.soft).collect();
        if let Some(f) = bad.first() {
            let mut tags = svm::bfs::Tags::new();
            for f in &bad {
                tags.extend(f.v.tags.iter());
            }
            println!("FOUND {} by {}: {}", tags.into_iter().collect::<Vec<_>>().join(","), name, f.v.what);
        }
        !bad.is_empty()
    };
    for name in ["claims", "period funding", "snapshot history", "snapshot windows", "airdrops", "powers of two", "ten mints", "ten compounding", "account substitution", "creating and closing"] {
        let s = plan::suite(name, false).unwrap();
        if show(name, &s.found) {
            return 1;
        }
    }
    for (name, depth, probe) in [
        ("ring", 2, "both"),
        ("stake", 4, "both"),
        ("accrual", 4, "both"),
        ("periods", 4, "both"),
        ("compound", 4, "both"),
        ("mints", 3, "both"),
        ("big", 3, "both"),
        ("admin", 3, "leave"),
        ("slots", 5, "now"),
        ("cross", 4, "both"),
        ("long", 3, "both"),
        ("stake", 1, "args"),
        ("periods", 1, "args"),
        ("mints", 1, "args"),
        ("admin", 1, "args"),
        ("big", 1, "args"),
    ] {
        let mut m = plan::model(name).unwrap();
        m.probe = plan::probe(probe);
        let lim = Limits { depth, time: Duration::from_secs(60), max_states: 8_000_000, replays: 5 };
        if show(name, &plan::run_model(&m, &lim).found) {
            return 1;
        }
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[1..] {
        ["check", id, tier, dir] => check(id, tier, Path::new(dir)),
        ["replay", file] => replay_file(file),
        ["all"] => all(),
        ["run", name, ref rest @ ..] => {
            if let Some(mut m) = plan::model(name) {
                if let Some(p) = rest.get(2) {
                    m.probe = plan::probe(p);
                }
                let r = plan::run_model(
                    &m,
                    &Limits {
                        depth: rest.first().map_or(m.depth.0, |x| x.parse().unwrap()),
                        time: Duration::from_secs(rest.get(1).map_or(60, |x| x.parse().unwrap())),
                        max_states: 8_000_000,
                        replays: 50,
                    },
                );
                for (k, v) in &r.classes {
                    println!("{:>9} {}", v, k);
                }
                print_found(&r.found);
                print_report(&r);
            } else {
                let s = plan::suite(name, rest.first() == Some(&"t")).expect("model or suite");
                for (k, v) in &s.classes {
                    println!("{:>9} {}", v, k);
                }
                print_found(&s.found);
                print_suite(&s);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}

pub fn explore_model(m: &model::Fm, lim: &Limits) -> Report {
    let mut r = explore(m, lim);
    r.found.splice(0..0, m.early.iter().cloned());
    if !m.stuck.is_empty() {
        r.capped = Some(format!("roots not reached: {}", m.stuck.join("; ")));
    }
    r
}
