//! The explored system: real program + clock, with the reference model as judge.
use crate::judge::{self, St};
use crate::kit::Kit;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use svm::bfs::{Found, Model, Step, Violation};
use svm::{tok, Acc, Ix};

pub enum Act {
    Tick(u64),
    /// tokens moved by their owner outside of the program
    Donate(usize, usize, u64),
    Call(Ix),
    /// a call with which a farmer leaves: must never fail for lack of funds
    Exit(Ix),
    Dyn(Box<dyn Fn(u64) -> Ix + Send + Sync>),
    /// what happens in one slot; the next one begins
    Slot(Box<dyn Fn(u64) -> Vec<Ix> + Send + Sync>),
}

pub struct Op {
    pub label: String,
    pub act: Act,
}

impl Op {
    pub fn ix(&self, now: u64) -> Option<Ix> {
        match &self.act {
            Act::Call(ix) | Act::Exit(ix) => Some(ix.clone()),
            Act::Dyn(f) => Some(f(now)),
            _ => None,
        }
    }
}

pub type Probe = Box<dyn Fn(&Fm, &St) -> (u64, Option<Violation>) + Send + Sync>;

pub struct Fm {
    pub name: String,
    pub kit: Kit,
    pub roots: Vec<(String, St)>,
    pub ops: Vec<Op>,
    pub max_now: u64,
    /// differences met while building the roots
    pub early: Vec<Found>,
    pub stuck: Vec<String>,
    pub probe: Option<Probe>,
    pub depth: (usize, usize),
    intern: Vec<Mutex<HashMap<u128, Arc<Acc>>>>,
}

impl Fm {
    pub fn new(name: &str, kit: Kit) -> Self {
        Fm {
            name: name.into(),
            kit,
            roots: vec![],
            ops: vec![],
            max_now: u64::MAX,
            early: vec![],
            stuck: vec![],
            probe: None,
            depth: (4, 5),
            intern: (0..64).map(|_| Mutex::default()).collect(),
        }
    }
    pub fn call(&mut self, label: &str, ix: Ix) {
        self.ops.push(Op { label: label.into(), act: Act::Call(ix) });
    }
    pub fn exit(&mut self, label: &str, ix: Ix) {
        self.ops.push(Op { label: label.into(), act: Act::Exit(ix) });
    }
    pub fn dynamic(&mut self, label: &str, f: impl Fn(u64) -> Ix + Send + Sync + 'static) {
        self.ops.push(Op { label: label.into(), act: Act::Dyn(Box::new(f)) });
    }
    pub fn slot(&mut self, label: &str, f: impl Fn(u64) -> Vec<Ix> + Send + Sync + 'static) {
        self.ops.push(Op { label: label.into(), act: Act::Slot(Box::new(f)) });
    }
    pub fn tick(&mut self, d: u64) {
        self.ops.push(Op { label: format!("tick {}", d), act: Act::Tick(d) });
    }
    pub fn donate(&mut self, from: &str, to: &str, n: u64) {
        let act = Act::Donate(self.kit.i(from), self.kit.i(to), n);
        self.ops.push(Op { label: format!("{} sends {} to {}", from, n, to), act });
    }
    pub fn root(&mut self, name: &str, script: Script) {
        if let Some(s) = script.stuck {
            self.stuck.push(format!("{}: {}", name, s));
            return;
        }
        match script.bad {
            Some((path, v)) => self.early.push(Found { v, root: format!("(building {})", name), path }),
            None => self.roots.push((name.into(), script.st)),
        }
    }
    fn intern(&self, s: &mut St) {
        for a in s.w.0.iter_mut() {
            if a.data.len() > 4000 {
                let mut m = self.intern[(a.hash % 64) as usize].lock().unwrap();
                match m.get(&a.hash) {
                    Some(x) => {
                        if !Arc::ptr_eq(x, a) {
                            *a = x.clone()
                        }
                    }
                    None => {
                        m.insert(a.hash, a.clone());
                    }
                }
            }
        }
    }
}

pub fn tick(st: &St, d: u64) -> St {
    St { now: st.now + d, paid: 0, ..st.clone() }
}

impl Model for Fm {
    type S = St;
    fn name(&self) -> &str {
        &self.name
    }
    fn roots(&self) -> &[(String, St)] {
        &self.roots
    }
    fn ops(&self) -> usize {
        self.ops.len()
    }
    fn label(&self, op: usize) -> String {
        self.ops[op].label.clone()
    }
    fn hash(&self, s: &St) -> u128 {
        s.hash()
    }
    fn step(&self, s: &St, op: usize) -> Step<St> {
        let none = Step { next: None, violation: None, class: String::new(), runs: 0 };
        let (ix, exit) = match &self.ops[op].act {
            Act::Tick(d) => {
                if s.now + d > self.max_now {
                    return none;
                }
                return Step { next: Some(tick(s, *d)), violation: None, class: "tick".into(), runs: 0 };
            }
            Act::Donate(from, to, n) => {
                let (a, b) = (s.w.get(*from), s.w.get(*to));
                let (Some(x), Some(y)) = (tok::read(a), tok::read(b)) else { return none };
                if x.amount < *n {
                    return none;
                }
                let mut t = s.clone();
                t.w.set(*from, tok::with_amount(a, x.amount - n));
                t.w.set(*to, tok::with_amount(b, y.amount + n));
                return Step { next: Some(t), violation: None, class: "donation".into(), runs: 0 };
            }
            Act::Call(ix) => (std::borrow::Cow::Borrowed(ix), false),
            Act::Exit(ix) => (std::borrow::Cow::Borrowed(ix), true),
            Act::Dyn(f) => (std::borrow::Cow::Owned(f(s.now)), false),
            Act::Slot(f) => {
                if s.now + 1 > self.max_now {
                    return none;
                }
                let mut t = s.clone();
                let mut runs = 0;
                for ix in f(s.now) {
                    let o = judge::call(&self.kit.u, &t, &ix, false);
                    runs += 1;
                    match o.next {
                        Some(n) if o.violation.is_none() => t = n,
                        _ => return Step { next: None, violation: o.violation, class: o.class, runs },
                    }
                }
                self.intern(&mut t);
                return Step { next: Some(tick(&t, 1)), violation: None, class: "slot".into(), runs };
            }
        };
        let mut o = judge::call(&self.kit.u, s, &ix, exit);
        if let Some(n) = &mut o.next {
            self.intern(n);
        }
        Step { next: o.next, violation: o.violation, class: o.class, runs: 1 }
    }
    fn check(&self, s: &St) -> (u64, Option<Violation>) {
        if let Some(v) = judge::invariants(&self.kit.u, s) {
            return (0, Some(v));
        }
        match &self.probe {
            Some(p) => p(self, s),
            None => (0, None),
        }
    }
    fn level_done(&self) {
        for m in &self.intern {
            m.lock().unwrap().retain(|_, a| Arc::strong_count(a) > 1);
        }
    }
}

/// A judged sequence of calls which builds a state.
#[derive(Clone)]
pub struct Script<'a> {
    pub kit: &'a Kit,
    pub st: St,
    pub path: Vec<String>,
    pub bad: Option<(Vec<String>, Violation)>,
    /// the script could not go on (never on the tree it was written for)
    pub stuck: Option<String>,
}

impl<'a> Script<'a> {
    pub fn new(kit: &'a Kit, now: u64) -> Self {
        Script { kit, st: St::new(kit.world(), now), path: vec![], bad: None, stuck: None }
    }
    pub fn tick(mut self, d: u64) -> Self {
        self.st = tick(&self.st, d);
        self.path.push(format!("tick {}", d));
        self
    }
    pub fn at(mut self, now: u64) -> Self {
        assert!(now >= self.st.now);
        let d = now - self.st.now;
        if d > 0 {
            self = self.tick(d);
        }
        self
    }
    pub fn run(mut self, ix: Ix) -> Self {
        if self.bad.is_some() || self.stuck.is_some() {
            return self;
        }
        let label = crate::show(&self.kit.u, &ix);
        self.path.push(label.clone());
        let o = judge::call(&self.kit.u, &self.st, &ix, false);
        if let Some(v) = o.violation {
            self.bad = Some((self.path.clone(), v));
        } else if let Some(n) = o.next {
            if let Some(v) = judge::invariants(&self.kit.u, &n) {
                self.bad = Some((self.path.clone(), v));
            }
            self.st = n;
        } else if !o.class.ends_with("VIOLATION") {
            self.stuck = Some(format!("{} ({})", label, o.class));
        }
        self
    }
    /// whatever the outcome, as long as it is the right one
    pub fn attempt(self, ix: Ix) -> Self {
        if self.bad.is_some() || self.stuck.is_some() {
            return self;
        }
        let mut s = self.run(ix);
        s.stuck = None;
        s
    }
    /// the state, unless something went wrong on the way
    pub fn done(self) -> Result<St, (Vec<String>, Option<Violation>)> {
        if let Some(s) = self.stuck {
            return Err((vec![s], None));
        }
        match self.bad {
            Some((p, v)) => Err((p, Some(v))),
            None => Ok(self.st),
        }
    }
}
