//! Verdicts: known findings, replay files, evidence.
use crate::bfs::{Found, Report};
use std::fmt::Write as _;
use std::path::Path;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One family of cases a check ran, other than a breadth-first search.
#[derive(Default, Clone)]
pub struct Suite {
    pub name: String,
    /// the finite space enumerated
    pub space: String,
    pub cases: u64,
    pub runs: u64,
    pub classes: std::collections::BTreeMap<String, u64>,
    pub found: Vec<Found>,
    pub capped: Option<String>,
    pub sample: Vec<String>,
    pub wall: f64,
}

pub struct Case {
    pub class: String,
    pub runs: u64,
    pub found: Option<Found>,
}

/// Evaluates every case of a finite space on all cores.
pub fn sweep(
    name: &str,
    space: &str,
    n: usize,
    time: std::time::Duration,
    label: impl Fn(usize) -> String,
    f: impl Fn(usize) -> Case + Sync,
) -> Suite {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let t0 = std::time::Instant::now();
    let cursor = AtomicUsize::new(0);
    let mut s = Suite { name: name.into(), space: space.into(), ..Suite::default() };
    let parts: Vec<(u64, u64, std::collections::HashMap<String, u64>, Vec<(usize, Found)>)> =
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..crate::bfs::threads())
                .map(|_| {
                    sc.spawn(|| {
                        let mut p = (0, 0, std::collections::HashMap::new(), vec![]);
                        let mut few = crate::bfs::Few::default();
                        loop {
                            let a = cursor.fetch_add(16, Ordering::Relaxed);
                            if a >= n || t0.elapsed() > time {
                                break;
                            }
                            for i in a..(a + 16).min(n) {
                                let Some(c) = crate::bfs::guard(|| f(i)) else {
                                    p.0 += 1;
                                    continue;
                                };
                                p.0 += 1;
                                p.1 += c.runs;
                                *p.2.entry(c.class).or_default() += 1;
                                if let Some(x) = c.found {
                                    if few.take(&x.v) {
                                        p.3.push((i, x));
                                    }
                                }
                            }
                        }
                        p
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("sweep thread")).collect()
        });
    let mut found = vec![];
    for p in parts {
        s.cases += p.0;
        s.runs += p.1;
        for (k, v) in p.2 {
            *s.classes.entry(k).or_default() += v;
        }
        found.extend(p.3);
    }
    found.sort_by_key(|f| f.0);
    s.found = found.into_iter().map(|f| f.1).collect();
    if s.cases < n as u64 {
        s.capped = Some(format!("time limit of {} s after {} of {} cases", time.as_secs(), s.cases, n));
    }
    for k in 0..3.min(n) {
        s.sample.push(label(k * (n - 1) / 2.max(1)));
    }
    s.sample.dedup();
    s.wall = t0.elapsed().as_secs_f64();
    s
}

pub struct Verdict<'a> {
    pub id: &'a str,
    pub tier: &'a str,
    pub reports: Vec<Report>,
    pub suites: Vec<Suite>,
    pub assumptions: Vec<String>,
    pub wall: f64,
}

/// `KNOWN-FINDING` entries: `property=<id> model=<model> what=<prefix>`
fn known(dir: &Path, id: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let Ok(s) = std::fs::read_to_string(dir.join("known-findings.txt")) else {
        return out;
    };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={} model=", id)) else {
            continue;
        };
        if let Some((model, what)) = rest.split_once(" what=") {
            out.push((model.to_string(), what.to_string(), l.to_string()));
        }
    }
    out
}

impl<'a> Verdict<'a> {
    /// Something not listed as known was found: no need to look further.
    pub fn decided(&self, dir: &Path) -> bool {
        let known = known(dir, self.id);
        let new = |model: &str, f: &Found| {
            f.v.tags.contains(self.id)
                && !known.iter().any(|k| k.0 == model && f.v.what.starts_with(&k.1))
        };
        self.reports.iter().any(|r| r.found.iter().any(|f| new(&r.model, f)))
            || self.suites.iter().any(|s| s.found.iter().any(|f| new(&s.name, f)))
    }

    /// Prints, writes evidence; returns the exit code.
    pub fn finish(self, dir: &Path) -> i32 {
        let known = known(dir, self.id);
        let mut seen_known = std::collections::BTreeSet::new();
        let mut seen = std::collections::BTreeSet::new();
        let mut bad: Vec<(String, &Found)> = vec![];
        let mut other = crate::bfs::others();
        let all = self
            .reports
            .iter()
            .flat_map(|r| r.found.iter().map(move |f| (r.model.clone(), f)))
            .chain(self.suites.iter().flat_map(|s| s.found.iter().map(move |f| (s.name.clone(), f))));
        for (model, f) in all {
            if !f.v.tags.contains(self.id) {
                other += 1;
                continue;
            }
            if let Some(k) = known.iter().find(|k| k.0 == model && f.v.what.starts_with(&k.1)) {
                seen_known.insert(k.2.clone());
                continue;
            }
            let digits: String = f.v.what.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            if seen.insert((model.clone(), digits)) {
                bad.push((model, f));
            }
        }
        for k in &seen_known {
            let (_, rest) = k.split_once("known: ").unwrap();
            println!("KNOWN-FINDING: {}", rest);
        }
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (n, (model, f)) in bad.iter().take(5).enumerate() {
            let p = rdir.join(format!("{}-{}-{}.txt", self.id, self.tier, n));
            let mut s = format!("property: {}\nmodel: {}\nroot: {}\n", self.id, model, f.root);
            for l in &f.path {
                let _ = writeln!(s, "op: {}", l);
            }
            let _ = writeln!(s, "# {}", f.v.what.replace('\n', " "));
            let _ = std::fs::write(&p, s);
            println!("VIOLATION property={} replay={}", self.id, p.display());
            println!("  model {} root {}", model, f.root);
            for l in &f.path {
                println!("    {}", l);
            }
            println!("  {}", f.v.what);
        }
        self.evidence(dir, bad.len(), other);
        if bad.is_empty() && crate::bfs::panics() > 0 && other == 0 {
            eprintln!("the checker itself failed");
            return 2;
        }
        i32::from(!bad.is_empty())
    }

    fn evidence(&self, dir: &Path, violations: usize, other: u64) {
        let mut o = String::new();
        let states: u64 = self.reports.iter().map(|r| r.states).sum();
        let trans: u64 = self.reports.iter().map(|r| r.transitions).sum();
        let replayed: u64 = self.reports.iter().map(|r| r.replayed).sum();
        let runs: u64 = self.reports.iter().map(|r| r.runs).sum::<u64>()
            + self.suites.iter().map(|r| r.runs).sum::<u64>();
        let cases: u64 = self.suites.iter().map(|r| r.cases).sum();
        let capped = self.reports.iter().any(|r| r.capped.is_some())
            || self.suites.iter().any(|r| r.capped.is_some());
        let mut samples: Vec<String> = vec![];
        for r in &self.reports {
            samples.extend(r.sample.iter().map(|s| format!("{}: {}", r.model, s)));
        }
        for r in &self.suites {
            samples.extend(r.sample.iter().map(|s| format!("{}: {}", r.name, s)));
        }
        samples.truncate(12);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let _ = write!(
            o,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n",
            esc(self.id),
            esc(self.tier),
            seed
        );
        let _ = write!(
            o,
            "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"evaluations\": {}, \"program_runs\": {},\n",
            states, trans, replayed, cases, runs
        );
        let _ = write!(o, "  \"exhaustive\": {},\n  \"explanation\": {},\n  \"samples\": [{}],\n",
            !capped,
            esc("Every transition runs the real program entrypoint and is compared with the reference model. states: distinct account states explored breadth first. evaluations: cases of the exhaustively enumerated suites. traces_validated_against_impl: complete histories re-executed from their root with identical result. Differences which contradict other properties only are counted in other_differences; exploration goes on from the states they lead to."),
            samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(o, "  \"other_differences\": {},\n  \"models\": [", other);
        for (i, r) in self.reports.iter().enumerate() {
            let _ = write!(
                o,
                "{}\n   {{\"model\": {}, \"operations\": {}, \"roots\": {}, \"states\": {}, \"transitions\": {}, \"program_runs\": {}, \"complete_depth\": {}, \"wanted_depth\": {}, \"closed\": {}, \"capped\": {}, \"wall_s\": {:.2}, \"outcomes\": {{",
                if i > 0 { "," } else { "" },
                esc(&r.model), r.ops, r.roots, r.states, r.transitions, r.runs, r.depth, r.want_depth, r.closed,
                r.capped.as_deref().map_or("null".into(), esc), r.wall
            );
            for (j, (k, v)) in r.classes.iter().enumerate() {
                let _ = write!(o, "{}{}: {}", if j > 0 { ", " } else { "" }, esc(k), v);
            }
            o.push_str("}}");
        }
        o.push_str("],\n  \"suites\": [");
        for (i, r) in self.suites.iter().enumerate() {
            let _ = write!(
                o,
                "{}\n   {{\"suite\": {}, \"space\": {}, \"cases\": {}, \"program_runs\": {}, \"capped\": {}, \"wall_s\": {:.2}, \"outcomes\": {{",
                if i > 0 { "," } else { "" },
                esc(&r.name), esc(&r.space), r.cases, r.runs, r.capped.as_deref().map_or("null".into(), esc), r.wall
            );
            for (j, (k, v)) in r.classes.iter().enumerate() {
                let _ = write!(o, "{}{}: {}", if j > 0 { ", " } else { "" }, esc(k), v);
            }
            o.push_str("}}");
        }
        let _ = write!(
            o,
            "]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
            self.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            self.wall,
            violations
        );
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        let _ = std::fs::write(dir.join("evidence").join(format!("{}.json", self.id)), o);
    }
}
