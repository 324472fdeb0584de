//! Path enumeration and obligation discharge. The repository's code runs on symbolic
//! scalars; every comparison is a fork, every feasible path is executed to its end, and
//! every obligation met on a path is discharged under that path's condition.
use crate::norm::{not, Ak, Norm, NF};
use crate::rat::EngineOverflow;
use crate::poly::TooBig;
use crate::smt::{self, Ans, Solver};
use crate::term::{self, Sym, F};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Infeasible;
/// the engine's own limits; never an alarm
pub struct Limit(pub String);

#[derive(Clone, Debug)]
pub struct Fail {
    pub contract: String,
    pub obligation: String,
    pub site: String,
    pub kind: &'static str, // "refuted" | "unproved" | "panic"
    pub detail: String,
    pub model: Vec<(String, f64)>,
    pub path: Vec<String>,
}
#[derive(Default, Clone)]
pub struct ObStat {
    pub n: u64,
    pub by: BTreeMap<&'static str, u64>,
    pub secs: f64,
    pub failed: u64,
}
pub struct Eng {
    pub nm: Norm,
    script: Vec<bool>,
    pos: usize,
    trail: Vec<bool>,
    alts: Vec<Vec<bool>>,
    pub solver: Solver,
    pub site: String,
    pub contract: String,
    pub sites: BTreeMap<String, u64>,
    pub obs: BTreeMap<String, ObStat>,
    pub fails: Vec<Fail>,
    pub path_desc: Vec<String>,
    pub ms: u64,
    pub constants: Vec<f64>,
    pub unproved_budget: u32,
    pub known_ids: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub lazy: bool,
    pub few: u32,
    falses: u32,
    pub thorough: bool,
    pub restricted: bool,
}
thread_local! {
    static ENG: RefCell<Option<Eng>> = RefCell::new(None);
}
pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("no engine")))
}
pub fn branch(f: F<Sym>) -> bool {
    with(|e| e.branch(f))
}
pub fn wf(what: &'static str, cond: F<Sym>) {
    with(|e| {
        let n = e.nm.nf(&cond);
        if n == NF::B(true) {
            return;
        }
        if let F::Le(z, t) = &cond {
            if z.0 == 0 && term::shape_nonneg(*t) {
                if e.pos >= e.script.len() {
                    e.note(&format!("defined: {}", what), "sum-of-squares", 0.0);
                }
                e.nm.add_hyp(cond);
                return;
            }
        }
        if let F::And(v) = &cond {
            if let [F::Le(_, t), F::Le(u, _)] = &v[..] {
                if t.0 == u.0 && term::shape_cosine(*t) {
                    if e.pos >= e.script.len() {
                        e.note(&format!("defined: {}", what), "sum-of-squares", 0.0);
                    }
                    e.nm.add_hyp(cond);
                    return;
                }
            }
        }
        let known = e.nm.decide(&n) == Some(true);
        if !known && e.nm.base.is_some() {
            // before the cut the operands' real values were known
            let mut base = e.nm.base.take().unwrap();
            let b = base.nf(&cond);
            let mut ok = base.decide(&b) == Some(true);
            if let NF::Not(x) = &b {
                if let NF::Eq(p) = &**x {
                    ok = ok || base.known_nonzero(p);
                }
            }
            if !ok && e.pos >= e.script.len() {
                let t0 = Instant::now();
                let q = smt::build(&e.nm, &not(n.clone()), true, true, false);
                if let Ans::Unsat = e.solver.z3(&q, 1000) {
                    e.nm.base = Some(base);
                    e.note(&format!("defined: {}", what), "z3", t0.elapsed().as_secs_f64());
                    e.nm.add_hyp(cond);
                    return;
                }
            }
            if !ok && e.pos >= e.script.len() {
                let q = smt::build(&base, &not(b), true, true, false);
                ok = matches!(e.solver.z3(&q, 3000), Ans::Unsat);
            }
            e.nm.base = Some(base);
            if ok {
                if e.pos >= e.script.len() {
                    e.note(&format!("defined: {}", what), "path-facts", 0.0);
                }
                e.nm.add_hyp(cond);
                return;
            }
        }
        e.prove_nf(&format!("defined: {}", what), n, true);
        if !known {
            e.nm.add_hyp(cond);
        }
    })
}
pub fn requires(f: F<Sym>) {
    with(|e| {
        e.nm.add_hyp(f);
        if e.nm.inconsistent {
            std::panic::panic_any(Infeasible);
        }
    })
}
/// a precondition whose equations are facts for the solver and not rewrite rules
pub fn requires_plain(f: F<Sym>) {
    with(|e| {
        e.nm.add_hyp_as(f, true);
        if e.nm.inconsistent {
            std::panic::panic_any(Infeasible);
        }
    })
}
pub fn ensures(name: &str, f: F<Sym>) {
    with(|e| match f {
        F::And(v) if v.is_empty() => {
            if e.pos >= e.script.len() {
                e.note(name, "ring", 0.0)
            }
        }
        F::And(v) => {
            for (i, g) in v.iter().enumerate() {
                let n = e.nm.nf(g);
                e.prove_nf(&format!("{} #{}", name, i), n, false);
            }
        }
        f => {
            let n = e.nm.nf(&f);
            e.prove_nf(name, n, false)
        }
    })
}

/// proves `f`, then uses it
pub fn lemma(name: &str, f: F<Sym>) {
    ensures(name, f.clone());
    requires_plain(f);
}
/// proves the facts, then forgets everything else about the values of `ts`
pub fn cut(name: &str, ts: &[Sym], keep: u8, facts: &dyn Fn(&[Sym]) -> Vec<F<Sym>>) {
    for f in facts(ts) {
        ensures(name, f);
    }
    let vs: Vec<Sym> = (0..ts.len()).map(|i| term::var(&format!("{}#{}", name, i))).collect();
    with(|e| {
        let pairs: Vec<(Sym, Sym)> = ts.iter().copied().zip(vs.iter().copied()).collect();
        let kept = e.nm.cut(&pairs, keep == 2);
        // a value that is a constant is not hidden
        let args: Vec<Sym> = (0..ts.len()).map(|i| if kept.contains(&i) { vs[i] } else { ts[i] }).collect();
        for f in facts(&args) {
            e.nm.add_hyp_as(f, keep == 0);
        }
    });
}
/// a sum of squares at most zero: every one of them is zero
pub fn zero_squares(name: &str, ts: &[Sym]) {
    let mut s = Sym(0);
    for t in ts {
        s = s + *t * *t;
    }
    ensures(name, F::Le(s, Sym(0)));
    for t in ts {
        requires(F::Eq(*t, Sym(0)));
    }
}
/// forks are not tested for feasibility any more (sound: extra paths, extra obligations)
pub fn lazy(on: bool) {
    with(|e| e.lazy = on)
}

/// quick tier only: paths with more than `k` failed comparison predicates are left to the thorough tier
pub fn few(k: u32) {
    with(|e| {
        if !e.thorough {
            e.few = k
        }
    })
}
pub static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// the obligation, or, where it fails, the recorded deviation of known finding `id`
pub fn ensures_known(name: &str, f: F<Sym>, id: &str, dev: F<Sym>) {
    with(|e| {
        if e.pos < e.script.len() {
            return;
        }
        let n = e.nm.nf(&f);
        if e.holds(&n) {
            e.note(name, "ring", 0.0);
            return;
        }
        let d = e.nm.nf(&dev);
        if e.known_ids.iter().any(|k| k == id) && e.holds(&d) {
            *e.known_hits.entry(id.to_string()).or_insert(0) += 1;
            e.note(&format!("{} [known finding {}]", name, id), "ring", 0.0);
            return;
        }
        e.prove_nf(name, n, false);
    })
}

impl Eng {
    fn holds(&mut self, n: &NF) -> bool {
        match n {
            NF::B(b) => return *b,
            NF::And(v) => return v.clone().iter().all(|x| self.holds(x)),
            _ => {}
        }
        if let Some(b) = self.nm.decide(n) {
            return b;
        }
        let q = smt::build(&self.nm, &not(n.clone()), true, true, false);
        matches!(self.solver.z3(&q, 5000), Ans::Unsat)
    }
    fn branch(&mut self, f: F<Sym>) -> bool {
        self.harvest(&f);
        let n = self.nm.nf(&f);
        if let Some(b) = self.nm.decide(&n) {
            return b;
        }
        let pred_only = matches!(n, NF::Pred(_));
        let b = if self.pos < self.script.len() {
            self.script[self.pos]
        } else if pred_only && self.falses >= self.few {
            self.restricted = true;
            true
        } else {
            let (mut t, mut e) = (true, true);
            let ask = if pred_only { !self.nm.facts.is_empty() && self.trail.len() < 12 } else { true };
            if ask && !self.lazy && !self.nm.free_branch(&n) {
                t = self.feasible(&n);
                e = !t || self.feasible(&not(n.clone()));
            }
            if t && e {
                let mut alt = self.trail.clone();
                alt.push(false);
                self.alts.push(alt);
                true
            } else {
                t
            }
        };
        self.pos += 1;
        self.trail.push(b);
        if pred_only && !b {
            self.falses += 1;
        }
        if self.trail.len() > 400 {
            std::panic::panic_any(Limit("more than 400 decisions on one path".into()));
        }
        if self.path_desc.len() < 30 {
            self.path_desc.push(format!("{}{}", if b { "" } else { "not " }, crate::sc::show_f(&f)));
        }
        let h = if b { f } else { F::Not(Box::new(f)) };
        self.nm.add_hyp(h);
        if self.nm.inconsistent {
            std::panic::panic_any(Infeasible);
        }
        b
    }
    fn harvest(&mut self, f: &F<Sym>) {
        if let F::Eq(a, b) | F::Lt(a, b) | F::Le(a, b) = f {
            for s in [a, b] {
                if let term::Node::Const(r) = term::node(*s) {
                    let v = r.to_f64();
                    if !self.constants.contains(&v) && self.constants.len() < 40 {
                        self.constants.push(v);
                    }
                }
                if let term::Node::Opaque(bits) = term::node(*s) {
                    let v = f64::from_bits(bits);
                    if !self.constants.contains(&v) && self.constants.len() < 40 {
                        self.constants.push(v);
                    }
                }
            }
        }
    }
    fn feasible(&mut self, n: &NF) -> bool {
        let q = smt::build(&self.nm, n, true, true, false);
        let t0 = Instant::now();
        let a = self.solver.z3(&q, 2500);
        if std::env::var("VCGEN_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 0.5 {
            eprintln!("slow branch {:.1}s {} {}: {}", t0.elapsed().as_secs_f64(), matches!(a, Ans::Unsat), self.contract, show_nf(&self.nm, n));
        }
        !matches!(a, Ans::Unsat)
    }
    fn note(&mut self, name: &str, by: &'static str, secs: f64) {
        let key = format!("{}: {}", self.site, name);
        let o = self.obs.entry(key).or_default();
        o.n += 1;
        *o.by.entry(by).or_insert(0) += 1;
        o.secs += secs;
    }
    fn prove_nf(&mut self, name: &str, n: NF, is_wf: bool) {
        if self.pos < self.script.len() {
            return; // already discharged on the sibling path that shares this prefix
        }
        if let NF::And(v) = n {
            for x in v {
                self.prove_nf(name, x, is_wf);
            }
            return;
        }
        let t0 = Instant::now();
        match n {
            NF::B(true) => {
                self.note(name, "ring", 0.0);
                return;
            }
            _ => {}
        }
        if self.nm.decide(&n) == Some(true) {
            self.note(name, "path-facts", 0.0);
            return;
        }
        if let NF::Not(x) = &n {
            if let NF::Eq(p) = &**x {
                if self.nm.known_nonzero(p) {
                    self.note(name, "path-facts", 0.0);
                    return;
                }
            }
        }
        if let NF::Eq(p) = &n {
            if self.nm.in_span(p) {
                let t = t0.elapsed().as_secs_f64();
                self.note(name, "linear-span", t);
                return;
            }
            if self.nm.in_ideal(p) {
                let t = t0.elapsed().as_secs_f64();
                self.note(name, "groebner", t);
                return;
            }
        }
        let (ans, by) = self.solve(&n);
        let secs = t0.elapsed().as_secs_f64();
        if secs > 1.0 && std::env::var("VCGEN_SLOW").is_ok() {
            eprintln!("slow {:.1}s by {}: {} / {} / {}: {}", secs, by, self.contract, self.site, name, show_nf(&self.nm, &n));
        }
        match ans {
            Ans::Unsat => self.note(name, by, secs),
            other => {
                let key = format!("{}: {}", self.site, name);
                let o = self.obs.entry(key).or_default();
                o.n += 1;
                o.failed += 1;
                o.secs += secs;
                let (kind, model) = match other {
                    Ans::Sat(m) => ("refuted", self.model(&m)),
                    _ => ("unproved", vec![]),
                };
                if self.fails.len() < 60 {
                    let detail = format!("goal: {}", show_nf(&self.nm, &n));
                    let f = Fail { contract: self.contract.clone(), obligation: name.to_string(), site: self.site.clone(), kind, detail, model, path: self.path_desc.clone() };
                    self.fails.push(f);
                }
            }
        }
    }
    fn solve(&mut self, goal: &NF) -> (Ans, &'static str) {
        let neg = not(goal.clone());
        let ms = if self.unproved_budget == 0 { 300 } else { self.ms };
        let q0 = smt::build(&self.nm, &neg, false, false, false);
        match self.solver.z3(&q0, ms.min(3000)) {
            Ans::Unsat => return (Ans::Unsat, "z3"),
            _ => {}
        }
        let q = smt::build(&self.nm, &neg, true, true, true);
        if std::env::var("VCGEN_DUMP").is_ok() {
            eprintln!("; {} {}\n{}", self.contract, self.site, q.text);
        }
        match self.solver.z3(&q, ms) {
            Ans::Unsat => return (Ans::Unsat, "z3"),
            a @ Ans::Sat(_) => return (a, "z3"),
            _ => {}
        }
        if self.unproved_budget > 0 {
            for s in ["cvc5", "z3-4.8"] {
                for qq in [&q0, &q] {
                    match self.solver.other(s, qq, ms) {
                        Ans::Unsat => return (Ans::Unsat, if s == "cvc5" { "cvc5" } else { "z3-4.8" }),
                        a @ Ans::Sat(_) if std::ptr::eq(qq, &q) => return (a, s),
                        _ => {}
                    }
                }
            }
            self.unproved_budget -= 1;
        }
        (Ans::Unknown, "none")
    }
    fn model(&self, m: &HashMap<u32, f64>) -> Vec<(String, f64)> {
        let mut out: Vec<(String, f64)> = vec![];
        for (i, a) in self.nm.atoms.iter().enumerate() {
            if let Ak::Var(_) = a.k {
                if let Some(v) = m.get(&(i as u32)) {
                    out.push((self.nm.atom_name(i as u32), *v));
                }
            }
        }
        // angle variables from the values of their sine and cosine
        for (i, a) in self.nm.atoms.iter().enumerate() {
            if let Ak::Fun("cos", args) = &a.k {
                let c = match m.get(&(i as u32)) {
                    Some(c) => *c,
                    None => continue,
                };
                let s = self.nm.atoms.iter().enumerate().find_map(|(j, b)| match &b.k {
                    Ak::Fun("sin", x) if x[0].n == args[0].n && x[0].d.is_empty() && args[0].d.is_empty() => m.get(&(j as u32)).copied(),
                    _ => None,
                });
                let s = s.unwrap_or_else(|| (1.0 - c * c).max(0.0).sqrt());
                if args[0].n.0.len() == 1 {
                    let (mo, k) = args[0].n.0.iter().next().unwrap();
                    if mo.0.len() == 1 && mo.0[0].1 == 1 {
                        if let Ak::Var(_) = self.nm.atoms[mo.0[0].0 as usize].k {
                            let nme = self.nm.atom_name(mo.0[0].0);
                            out.retain(|x| x.0 != nme);
                            out.push((nme, s.atan2(c) / k.to_f64()));
                        }
                    }
                }
            }
        }
        out
    }
}
pub fn show_nf(nm: &Norm, n: &NF) -> String {
    match n {
        NF::B(b) => b.to_string(),
        NF::Eq(p) => format!("{} = 0", nm.show_poly(p)),
        NF::Lt(p) => format!("{} < 0", nm.show_poly(p)),
        NF::Le(p) => format!("{} <= 0", nm.show_poly(p)),
        NF::Pred(i) => format!("{}({})", nm.preds[*i].0, nm.preds[*i].1.iter().map(|r| nm.show_poly(&r.n)).collect::<Vec<_>>().join(", ")),
        NF::Not(x) => format!("not ({})", show_nf(nm, x)),
        NF::And(v) => format!("({})", v.iter().map(|x| show_nf(nm, x)).collect::<Vec<_>>().join(" and ")),
        NF::Or(v) => format!("({})", v.iter().map(|x| show_nf(nm, x)).collect::<Vec<_>>().join(" or ")),
    }
}
pub struct Outcome {
    pub paths: u64,
    pub infeasible: u64,
    pub obs: BTreeMap<String, ObStat>,
    pub sites: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
    pub error: Option<String>,
    pub solver_calls: u64,
    pub solver_secs: f64,
    pub constants: Vec<f64>,
    pub known_hits: BTreeMap<String, u64>,
    pub restricted: bool,
}
pub const MAX_PATHS: u64 = 70_000;
impl Outcome {
    pub fn empty() -> Self {
        Outcome { paths: 0, infeasible: 0, obs: BTreeMap::new(), sites: BTreeMap::new(), fails: vec![], error: None, solver_calls: 0, solver_secs: 0.0, constants: vec![], known_hits: BTreeMap::new(), restricted: false }
    }
}
pub fn run(name: &str, known: &[String], ms: u64, deadline: Instant, body: &dyn Fn()) -> Outcome {
    let mut out = Outcome::empty();
    let mut work: Vec<Vec<bool>> = vec![vec![]];
    let mut eng = Eng {
        nm: Norm::new(),
        script: vec![],
        pos: 0,
        trail: vec![],
        alts: vec![],
        solver: Solver::default(),
        site: String::new(),
        contract: name.to_string(),
        sites: BTreeMap::new(),
        obs: BTreeMap::new(),
        fails: vec![],
        path_desc: vec![],
        ms,
        constants: vec![],
        unproved_budget: 6,
        known_ids: known.to_vec(),
        known_hits: BTreeMap::new(),
        lazy: false,
        few: u32::MAX,
        falses: 0,
        thorough: THOROUGH.load(std::sync::atomic::Ordering::Relaxed),
        restricted: false,
    };
    while let Some(script) = work.pop() {
        if out.paths + out.infeasible >= MAX_PATHS {
            out.error = Some("path limit".into());
            break;
        }
        if Instant::now() > deadline {
            out.error = Some("time limit".into());
            break;
        }
        term::reset();
        eng.nm = Norm::new();
        eng.script = script;
        eng.pos = 0;
        eng.trail.clear();
        eng.alts.clear();
        eng.path_desc.clear();
        eng.lazy = false;
        eng.few = u32::MAX;
        eng.falses = 0;
        eng.site = "contract".into();
        ENG.with(|e| *e.borrow_mut() = Some(eng));
        let r = catch_unwind(AssertUnwindSafe(body));
        eng = ENG.with(|e| e.borrow_mut().take().unwrap());
        work.append(&mut eng.alts);
        match r {
            Ok(()) => out.paths += 1,
            Err(p) => {
                if p.is::<Infeasible>() {
                    out.infeasible += 1;
                } else if p.is::<EngineOverflow>() {
                    out.error = Some(format!("coefficient overflow at {}", eng.site));
                    break;
                } else if p.is::<TooBig>() {
                    out.error = Some(format!("term size limit at {}", eng.site));
                    break;
                } else if let Some(l) = p.downcast_ref::<Limit>() {
                    out.error = Some(format!("{} at {}", l.0, eng.site));
                    break;
                } else {
                    let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                    out.paths += 1;
                    // is the panicking path reachable?
                    let (ans, kind) = {
                        let q = smt::build(&eng.nm, &NF::B(true), true, true, true);
                        match eng.solver.z3(&q, ms) {
                            Ans::Sat(m) => (eng.model(&m), "panic"),
                            Ans::Unsat => (vec![], ""),
                            Ans::Unknown => (vec![], "panic"),
                        }
                    };
                    if kind.is_empty() {
                        continue;
                    }
                    let key = format!("{}: returns without panicking", eng.site);
                    let o = eng.obs.entry(key).or_default();
                    o.n += 1;
                    o.failed += 1;
                    let f = Fail { contract: name.into(), obligation: "returns without panicking".into(), site: eng.site.clone(), kind: "panic", detail: msg, model: ans, path: eng.path_desc.clone() };
                    eng.fails.push(f);
                }
            }
        }
        if eng.fails.len() > 40 {
            break;
        }
    }
    out.obs = eng.obs;
    out.sites = eng.sites;
    out.fails = eng.fails;
    out.solver_calls = eng.solver.calls;
    out.solver_secs = eng.solver.secs;
    out.constants = eng.constants;
    out.known_hits = eng.known_hits;
    out.restricted = eng.restricted;
    out
}
