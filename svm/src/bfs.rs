//! Exhaustive breadth-first exploration over a finite alphabet of operations.
//! Every operation is tried in every distinct reachable state up to a depth.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Tags = std::collections::BTreeSet<&'static str>;

#[derive(Clone, Debug)]
pub struct Violation {
    /// properties it contradicts
    pub tags: Tags,
    pub what: String,
    /// the state it leads to is sound all the same: explore on
    pub soft: bool,
}

static TARGET: std::sync::OnceLock<String> = std::sync::OnceLock::new();

/// The property which is being checked. Differences which do not contradict it
/// are not reported, and explorations go on from the states they lead to.
pub fn set_target(id: &str) {
    let _ = TARGET.set(id.to_string());
}

pub fn wanted(tags: &Tags) -> bool {
    TARGET.get().map_or(true, |t| tags.contains(t.as_str()))
}

static OTHER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Keeps a violation only if it contradicts the property being checked.
pub fn only_wanted(v: Option<Violation>) -> Option<Violation> {
    match v {
        Some(v) if !wanted(&v.tags) => {
            OTHER.fetch_add(1, Ordering::Relaxed);
            None
        }
        v => v,
    }
}

pub fn others() -> u64 {
    OTHER.load(Ordering::Relaxed)
}

static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn panics() -> u64 {
    PANICS.load(Ordering::Relaxed)
}

/// The checker's own arithmetic may not be up to states which only a broken
/// program reaches.
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(_) => {
            PANICS.fetch_add(1, Ordering::Relaxed);
            None
        }
    }
}

impl Violation {
    pub fn new(tags: Tags, what: String) -> Self {
        Violation { tags, what, soft: false }
    }
    fn kind(&self) -> String {
        let w = self.what.chars().take(90).map(|c| if c.is_ascii_digit() { '#' } else { c });
        w.chain(self.tags.iter().flat_map(|t| t.chars())).collect()
    }
}

/// Keeps some of every kind, so that frequent ones do not hide others.
#[derive(Default)]
pub struct Few(HashMap<String, u32>);
impl Few {
    pub fn take(&mut self, v: &Violation) -> bool {
        let n = self.0.entry(v.kind()).or_default();
        *n += 1;
        *n <= 40
    }
}

pub struct Step<S> {
    /// `None`: no effect (or not applicable)
    pub next: Option<S>,
    pub violation: Option<Violation>,
    /// for statistics; empty: operation does not apply in this state
    pub class: String,
    /// runs of the real program
    pub runs: u64,
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    fn name(&self) -> &str;
    fn roots(&self) -> &[(String, Self::S)];
    fn ops(&self) -> usize;
    fn label(&self, op: usize) -> String;
    fn step(&self, s: &Self::S, op: usize) -> Step<Self::S>;
    fn hash(&self, s: &Self::S) -> u128;
    /// state invariant, and probes from a new state; returns runs of the program
    fn check(&self, s: &Self::S) -> (u64, Option<Violation>);
    /// called between levels
    fn level_done(&self) {}
}

#[derive(Default)]
struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, v: u128) {
        self.0 = v as u64;
    }
}
type Set = HashSet<u128, BuildHasherDefault<Id>>;

#[derive(Clone, Debug)]
pub struct Found {
    pub v: Violation,
    pub root: String,
    pub path: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub model: String,
    pub ops: usize,
    pub roots: usize,
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    /// every operation was tried in every state reachable in this many steps
    pub depth: usize,
    pub want_depth: usize,
    pub capped: Option<String>,
    /// the whole reachable space was explored
    pub closed: bool,
    pub classes: BTreeMap<String, u64>,
    pub found: Vec<Found>,
    pub replayed: u64,
    pub sample: Vec<String>,
    pub wall: f64,
}

pub struct Limits {
    pub depth: usize,
    pub time: Duration,
    pub max_states: u64,
    pub replays: usize,
}

const SHARDS: usize = 256;

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(8, |n| n.get()).min(16)
}

pub fn explore<M: Model>(m: &M, lim: &Limits) -> Report {
    let t0 = Instant::now();
    let mut rep = Report {
        model: m.name().to_string(),
        ops: m.ops(),
        roots: m.roots().len(),
        want_depth: lim.depth,
        ..Report::default()
    };
    let seen: Vec<Mutex<Set>> = (0..SHARDS).map(|_| Mutex::default()).collect();
    let add = |h: u128| seen[(h >> 64) as usize % SHARDS].lock().unwrap().insert(h);
    // (parent in previous level, op); level 0: (root, 0)
    let mut nodes: Vec<Vec<(u32, u16)>> = vec![vec![]];
    let mut frontier: Vec<M::S> = vec![];
    let mut raw: Vec<(usize, u32, u16, Violation)> = vec![]; // level of parent, parent, op
    for (i, (_, s)) in m.roots().iter().enumerate() {
        let (runs, v) = m.check(s);
        rep.runs += runs;
        if let Some(v) = v {
            let soft = v.soft;
            rep.found.push(Found { v, root: m.roots()[i].0.clone(), path: vec![] });
            if !soft {
                continue;
            }
        }
        if add(m.hash(s)) {
            nodes[0].push((i as u32, 0));
            frontier.push(s.clone());
        }
    }
    rep.states = frontier.len() as u64;
    let stop = AtomicBool::new(false);
    let total = AtomicUsize::new(frontier.len());
    for level in 0..lim.depth {
        if frontier.is_empty() {
            rep.closed = true;
            break;
        }
        let cursor = AtomicUsize::new(0);
        struct Part<S> {
            new: Vec<(u32, u16, S)>,
            bad: Vec<(u32, u16, Violation)>,
            few: Few,
            classes: HashMap<String, u64>,
            transitions: u64,
            runs: u64,
        }
        let fr = &frontier;
        let parts: Vec<Part<M::S>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads())
                .map(|_| {
                    let (cursor, stop, total, add) = (&cursor, &stop, &total, &add);
                    sc.spawn(move || {
                        let mut p = Part {
                            new: vec![],
                            bad: vec![],
                            few: Few::default(),
                            classes: HashMap::new(),
                            transitions: 0,
                            runs: 0,
                        };
                        loop {
                            let a = cursor.fetch_add(8, Ordering::Relaxed);
                            if a >= fr.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if t0.elapsed() > lim.time
                                || total.load(Ordering::Relaxed) as u64 > lim.max_states
                            {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in a..(a + 8).min(fr.len()) {
                                for op in 0..m.ops() {
                                    let Some(r) = guard(|| m.step(&fr[i], op)) else { continue };
                                    if r.class.is_empty() {
                                        continue;
                                    }
                                    p.transitions += 1;
                                    p.runs += r.runs;
                                    *p.classes.entry(r.class).or_default() += 1;
                                    if let Some(v) = r.violation {
                                        let soft = v.soft;
                                        if p.few.take(&v) {
                                            p.bad.push((i as u32, op as u16, v));
                                        }
                                        if !soft {
                                            continue;
                                        }
                                    }
                                    if let Some(s) = r.next {
                                        if add(m.hash(&s)) {
                                            let Some((runs, v)) = guard(|| m.check(&s)) else { continue };
                                            p.runs += runs;
                                            let soft = v.as_ref().map_or(true, |v| v.soft);
                                            if let Some(v) = v {
                                                if p.few.take(&v) {
                                                    p.bad.push((i as u32, op as u16, v));
                                                }
                                            }
                                            if soft {
                                                total.fetch_add(1, Ordering::Relaxed);
                                                p.new.push((i as u32, op as u16, s));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        p
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("explorer thread")).collect()
        });
        let mut next = vec![];
        let mut links = vec![];
        for p in parts {
            rep.transitions += p.transitions;
            rep.runs += p.runs;
            for (k, v) in p.classes {
                *rep.classes.entry(k).or_default() += v;
            }
            for (i, op, v) in p.bad {
                raw.push((level, i, op, v));
            }
            for (i, op, s) in p.new {
                links.push((i, op));
                next.push(s);
            }
        }
        rep.states += next.len() as u64;
        nodes.push(links);
        frontier = next;
        m.level_done();
        if stop.load(Ordering::Relaxed) {
            rep.capped = Some(if t0.elapsed() > lim.time {
                format!("time limit of {} s in level {}", lim.time.as_secs(), level + 1)
            } else {
                format!("state limit of {} in level {}", lim.max_states, level + 1)
            });
            break;
        }
        rep.depth = level + 1;
    }
    if frontier.is_empty() {
        rep.closed = rep.capped.is_none();
    }
    let path = |level: usize, i: u32| -> (usize, Vec<usize>) {
        let mut ops = vec![];
        let (mut l, mut i) = (level, i);
        while l > 0 {
            let (p, op) = nodes[l][i as usize];
            ops.push(op as usize);
            i = p;
            l -= 1;
        }
        ops.reverse();
        (nodes[0][i as usize].0 as usize, ops)
    };
    let mut found = vec![];
    for (l, i, op, v) in raw {
        let (root, mut ops) = path(l, i);
        ops.push(op as usize);
        found.push((ops, root, v));
    }
    found.sort_by(|a, b| (a.0.len(), &a.0, a.1).cmp(&(b.0.len(), &b.0, b.1)));
    for (ops, root, v) in found {
        rep.found.push(Found {
            v,
            root: m.roots()[root].0.clone(),
            path: ops.iter().map(|o| m.label(*o)).collect(),
        });
    }
    // replay some traces from the root: same observations, hence deterministic
    let last = nodes.len() - 1;
    let lvl = if nodes[last].is_empty() && last > 0 { last - 1 } else { last };
    let n = nodes[lvl].len();
    if n > 0 && rep.capped.is_none() {
        let k = lim.replays.min(n);
        for j in 0..k {
            let i = j * n / k;
            let (root, ops) = path(lvl, i as u32);
            let mut s = m.roots()[root].1.clone();
            for o in &ops {
                match m.step(&s, *o).next {
                    Some(n) => s = n,
                    None => {
                        rep.capped = Some("a replay diverges".into());
                        break;
                    }
                }
            }
            if lvl == last && m.hash(&s) != m.hash(&frontier[i]) {
                rep.capped = Some("a replay diverges".into());
            }
            rep.replayed += 1;
            if j < 3 {
                rep.sample.push(format!(
                    "{}: {}",
                    m.roots()[root].0,
                    ops.iter().map(|o| m.label(*o)).collect::<Vec<_>>().join(" | ")
                ));
            }
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Re-executes a recorded path. Returns a line per step and the violation.
pub fn replay<M: Model>(m: &M, root: &str, path: &[String]) -> (Vec<String>, Option<Violation>) {
    let mut out = vec![];
    let Some((_, s)) = m.roots().iter().find(|r| r.0 == root) else {
        return (vec![format!("no root {}", root)], None);
    };
    let mut s = s.clone();
    let mut soft = m.check(&s).1;
    if soft.as_ref().map_or(false, |v| !v.soft) {
        return (out, soft);
    }
    for l in path {
        let Some(op) = (0..m.ops()).find(|o| m.label(*o) == *l) else {
            out.push(format!("no operation {}", l));
            return (out, None);
        };
        let r = m.step(&s, op);
        out.push(format!("{} -> {}", l, r.class));
        for v in [r.violation, r.next.and_then(|n| {
            s = n;
            m.check(&s).1
        })]
        .into_iter()
        .flatten()
        {
            if !v.soft {
                return (out, Some(v));
            }
            soft = Some(v);
        }
    }
    (out, soft)
}
