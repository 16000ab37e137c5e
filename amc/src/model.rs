//! The explored system: real program + clock, with the reference model as judge.
use crate::judge::{self, St};
use crate::kit::Kit;
use svm::bfs::{Found, Model, Step, Violation};
use svm::{tok, Ix};

pub enum Act {
    Tick(u64),
    /// tokens moved by their owner outside of the program
    Donate(usize, usize, u64),
    /// LP tokens burned by their holder outside of the program: wallet, mint
    Burn(usize, usize, u64),
    Call(Ix),
    /// depends on the state
    Dyn(Box<dyn Fn(&St) -> Option<Ix> + Send + Sync>),
}

pub struct Op {
    pub label: String,
    pub act: Act,
}

impl Op {
    pub fn ix(&self, s: &St) -> Option<Ix> {
        match &self.act {
            Act::Call(ix) => Some(ix.clone()),
            Act::Dyn(f) => f(s),
            _ => None,
        }
    }
}

pub type Probe = Box<dyn Fn(&Am, &St) -> (u64, Option<Violation>) + Send + Sync>;

pub struct Am {
    pub name: String,
    pub kit: Kit,
    pub roots: Vec<(String, St)>,
    pub ops: Vec<Op>,
    pub max_now: u64,
    /// differences met while building the roots
    pub early: Vec<Found>,
    pub stuck: Vec<String>,
    pub probe: Option<Probe>,
    pub depth: (usize, usize),
}

impl Am {
    pub fn new(name: &str, kit: Kit) -> Self {
        Am {
            name: name.into(),
            kit,
            roots: vec![],
            ops: vec![],
            max_now: u64::MAX,
            early: vec![],
            stuck: vec![],
            probe: None,
            depth: (4, 5),
        }
    }
    pub fn call(&mut self, label: &str, ix: Ix) {
        self.ops.push(Op { label: label.into(), act: Act::Call(ix) });
    }
    pub fn dynamic(&mut self, label: &str, f: impl Fn(&St) -> Option<Ix> + Send + Sync + 'static) {
        self.ops.push(Op { label: label.into(), act: Act::Dyn(Box::new(f)) });
    }
    pub fn tick(&mut self, d: u64) {
        self.ops.push(Op { label: format!("tick {}", d), act: Act::Tick(d) });
    }
    pub fn donate(&mut self, from: &str, to: &str, n: u64) {
        let act = Act::Donate(self.kit.i(from), self.kit.i(to), n);
        self.ops.push(Op { label: format!("{} sends {} to {}", from, n, to), act });
    }
    pub fn burn(&mut self, wallet: &str, mint: &str, n: u64) {
        let act = Act::Burn(self.kit.i(wallet), self.kit.i(mint), n);
        self.ops.push(Op { label: format!("{} burnt of {}", n, wallet), act });
    }
    pub fn root(&mut self, name: &str, script: Script) {
        if let Some(s) = script.stuck {
            self.stuck.push(format!("{}: {}", name, s));
            return;
        }
        match script.bad {
            Some((path, v)) => self.early.push(Found { v, root: format!("(building {})", name), path }),
            None => self.roots.push((name.into(), script.st)),
        }
    }
}

pub fn tick(st: &St, d: u64) -> St {
    St { now: st.now + d, ..st.clone() }
}

impl Model for Am {
    type S = St;
    fn name(&self) -> &str {
        &self.name
    }
    fn roots(&self) -> &[(String, St)] {
        &self.roots
    }
    fn ops(&self) -> usize {
        self.ops.len()
    }
    fn label(&self, op: usize) -> String {
        self.ops[op].label.clone()
    }
    fn hash(&self, s: &St) -> u128 {
        s.hash()
    }
    fn step(&self, s: &St, op: usize) -> Step<St> {
        let none = Step { next: None, violation: None, class: String::new(), runs: 0 };
        let ix = match &self.ops[op].act {
            Act::Tick(d) => {
                if s.now + d > self.max_now {
                    return none;
                }
                return Step { next: Some(tick(s, *d)), violation: None, class: "tick".into(), runs: 0 };
            }
            Act::Donate(from, to, n) => {
                let (a, b) = (s.w.get(*from), s.w.get(*to));
                let (Some(x), Some(y)) = (tok::read(a), tok::read(b)) else { return none };
                if x.amount < *n {
                    return none;
                }
                let mut t = s.clone();
                t.w.set(*from, tok::with_amount(a, x.amount - n));
                t.w.set(*to, tok::with_amount(b, y.amount + n));
                if self.kit.is_vault(*to) {
                    t.donate(*to, *n);
                }
                return Step { next: Some(t), violation: None, class: "donation".into(), runs: 0 };
            }
            Act::Burn(wallet, mint, n) => {
                let (a, b) = (s.w.get(*wallet), s.w.get(*mint));
                let (Some(x), Some(mut y)) = (tok::read(a), tok::read_mint(b)) else { return none };
                if x.amount < *n {
                    return none;
                }
                let mut t = s.clone();
                t.w.set(*wallet, tok::with_amount(a, x.amount - n));
                y.supply -= n;
                let mut b = b.clone();
                svm::solana_program::program_pack::Pack::pack_into_slice(&y, &mut b.data);
                t.w.set(*mint, b);
                return Step { next: Some(t), violation: None, class: "burning".into(), runs: 0 };
            }
            Act::Call(ix) => std::borrow::Cow::Borrowed(ix),
            Act::Dyn(f) => match f(s) {
                Some(ix) => std::borrow::Cow::Owned(ix),
                None => return none,
            },
        };
        let o = judge::call(&self.kit.u, s, &ix);
        Step { next: o.next, violation: o.violation, class: o.class, runs: 1 }
    }
    fn check(&self, s: &St) -> (u64, Option<Violation>) {
        if let Some(v) = judge::invariants(&self.kit.u, s) {
            return (0, Some(v));
        }
        match &self.probe {
            Some(p) => p(self, s),
            None => (0, None),
        }
    }
}

/// A judged sequence of calls which builds a state.
#[derive(Clone)]
pub struct Script<'a> {
    pub kit: &'a Kit,
    pub st: St,
    pub path: Vec<String>,
    pub bad: Option<(Vec<String>, Violation)>,
    /// the script could not go on (never on the tree it was written for)
    pub stuck: Option<String>,
}

impl<'a> Script<'a> {
    pub fn new(kit: &'a Kit, now: u64) -> Self {
        Script { kit, st: St::new(kit.world(), now), path: vec![], bad: None, stuck: None }
    }
    pub fn tick(mut self, d: u64) -> Self {
        self.st = tick(&self.st, d);
        self.path.push(format!("tick {}", d));
        self
    }
    pub fn at(mut self, now: u64) -> Self {
        assert!(now >= self.st.now);
        let d = now - self.st.now;
        if d > 0 {
            self = self.tick(d);
        }
        self
    }
    pub fn run(mut self, ix: Ix) -> Self {
        if self.bad.is_some() || self.stuck.is_some() {
            return self;
        }
        let label = crate::show(&self.kit.u, &ix);
        self.path.push(label.clone());
        let o = judge::call(&self.kit.u, &self.st, &ix);
        if let Some(v) = o.violation.filter(|v| !v.soft) {
            self.bad = Some((self.path.clone(), v));
        } else if let Some(n) = o.next {
            if let Some(v) = judge::invariants(&self.kit.u, &n) {
                self.bad = Some((self.path.clone(), v));
            }
            self.st = n;
        } else if !o.class.ends_with("VIOLATION") {
            self.stuck = Some(format!("{} ({})", label, o.class));
        }
        self
    }
    /// changes the state behind the program's back
    pub fn edit(mut self, what: &str, f: impl Fn(&Kit, &mut St)) -> Self {
        if self.bad.is_none() && self.stuck.is_none() {
            self.path.push(what.into());
            f(self.kit, &mut self.st);
        }
        self
    }
    /// the state, unless something went wrong on the way
    pub fn done(self) -> Result<St, (Vec<String>, Option<Violation>)> {
        if let Some(s) = self.stuck {
            return Err((vec![s], None));
        }
        match self.bad {
            Some((p, v)) => Err((p, Some(v))),
            None => Ok(self.st),
        }
    }
}
