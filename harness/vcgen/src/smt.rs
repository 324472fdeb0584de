//! SMT back end: exports normalised facts and a goal with the contracts of the primitives
//! that occur, and runs z3 / cvc5.
use crate::norm::*;
use crate::poly::*;
use crate::rat::Rat;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Ans {
    Unsat,
    Sat(HashMap<Atom, f64>),
    Unknown,
}

fn poly_smt(p: &Poly) -> String {
    if p.is_zero() {
        return "0.0".into();
    }
    let mut o = String::new();
    let many = p.0.len() > 1;
    if many {
        o.push_str("(+");
    }
    for (m, c) in &p.0 {
        o.push(' ');
        if m.0.is_empty() {
            o.push_str(&c.smt());
            continue;
        }
        let mut fs: Vec<String> = vec![];
        if *c != Rat::ONE {
            fs.push(c.smt());
        }
        for &(a, e) in &m.0 {
            for _ in 0..e {
                fs.push(format!("v{}", a));
            }
        }
        if fs.len() == 1 {
            o.push_str(&fs[0]);
        } else {
            o.push_str(&format!("(* {})", fs.join(" ")));
        }
    }
    if many {
        o.push(')');
    }
    o
}
/// (num, den) as SMT text
fn rf_eq(v: &str, r: &Rf) -> String {
    if r.d.is_empty() {
        format!("(= {} {})", v, poly_smt(&r.n))
    } else {
        format!("(= (* {} {}) {})", v, poly_smt(&r.den_poly()), poly_smt(&r.n))
    }
}
pub fn nf_smt(n: &NF) -> String {
    match n {
        NF::B(b) => b.to_string(),
        NF::Eq(p) => format!("(= {} 0.0)", poly_smt(p)),
        NF::Lt(p) => format!("(< {} 0.0)", poly_smt(p)),
        NF::Le(p) => format!("(<= {} 0.0)", poly_smt(p)),
        NF::Pred(i) => format!("p{}", i),
        NF::Not(x) => format!("(not {})", nf_smt(x)),
        NF::And(v) => format!("(and {})", v.iter().map(nf_smt).collect::<Vec<_>>().join(" ")),
        NF::Or(v) => format!("(or {})", v.iter().map(nf_smt).collect::<Vec<_>>().join(" ")),
    }
}
fn nf_atoms(n: &NF, out: &mut Vec<Atom>, preds: &mut Vec<usize>) {
    match n {
        NF::B(_) => {}
        NF::Eq(p) | NF::Lt(p) | NF::Le(p) => p.atoms(out),
        NF::Pred(i) => {
            if !preds.contains(i) {
                preds.push(*i)
            }
        }
        NF::Not(x) => nf_atoms(x, out, preds),
        NF::And(v) | NF::Or(v) => v.iter().for_each(|x| nf_atoms(x, out, preds)),
    }
}

pub struct Query {
    pub text: String,
    pub vars: Vec<Atom>,
}

/// asserts every fact and `goal` (already negated by the caller when proving)
pub fn build(nm: &Norm, goal: &NF, with_preds: bool, all_facts: bool, models: bool) -> Query {
    let mut atoms: Vec<Atom> = vec![];
    let mut preds = vec![];
    nf_atoms(goal, &mut atoms, &mut preds);
    // facts that share an atom with the goal (transitively), or every fact
    let mut use_fact = vec![all_facts; nm.facts.len()];
    let mut axioms: Vec<String> = vec![];
    let mut done: Vec<Atom> = vec![];
    let mut pdone: Vec<usize> = vec![];
    let close = |atoms: &mut Vec<Atom>| {
        // cone: rule right-hand sides and arguments of interpreted functions
        let mut i = 0;
        while i < atoms.len() {
            let a = atoms[i];
            if let Some((_, rhs)) = nm.rules.get(&a) {
                rhs.atoms(atoms);
            }
            if let Ak::Fun(n, args) = &nm.atoms[a as usize].k {
                match *n {
                    "sqrt" | "abs" | "rem" | "floor" | "round" | "trunc" | "acos" | "asin" | "atan" | "atan2" | "sin" | "cos" | "exp" | "ln" | "cbrt" | "clamp" => {
                        for r in args {
                            r.atoms(atoms);
                        }
                    }
                    _ => {}
                }
            }
            i += 1;
        }
    };
    if all_facts {
        for f in &nm.facts {
            nf_atoms(f, &mut atoms, &mut preds);
        }
    }
    if models {
        for (a, (pw, _)) in nm.rules.iter() {
            // an eliminated variable stays real: v^2 = rhs bounds rhs from below
            if *pw <= 2 && matches!(nm.atoms[*a as usize].k, Ak::Var(_)) && !atoms.contains(a) {
                atoms.push(*a);
            }
        }
    }
    loop {
        close(&mut atoms);
        if with_preds {
            for p in preds.clone() {
                for r in &nm.preds[p].1 {
                    r.atoms(&mut atoms);
                }
            }
            close(&mut atoms);
        }
        let mut changed = false;
        if !all_facts {
            for (i, f) in nm.facts.iter().enumerate() {
                if use_fact[i] {
                    continue;
                }
                let mut fa = vec![];
                let mut fp = vec![];
                nf_atoms(f, &mut fa, &mut fp);
                if fa.iter().any(|a| atoms.contains(a)) || fp.iter().any(|p| preds.contains(p)) {
                    use_fact[i] = true;
                    changed = true;
                    for a in fa {
                        if !atoms.contains(&a) {
                            atoms.push(a);
                        }
                    }
                    for p in fp {
                        if !preds.contains(&p) {
                            preds.push(p);
                        }
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    for &a in &atoms {
        if done.contains(&a) {
            continue;
        }
        done.push(a);
        let v = format!("v{}", a);
        let ak = &nm.atoms[a as usize].k;
        if let Some((pw, rhs)) = nm.rules.get(&a) {
            let abs_atom = matches!(ak, Ak::Fun("abs", _));
            if !abs_atom {
                let vp = if *pw == 1 { v.clone() } else { format!("(* {})", vec![v.clone(); *pw as usize].join(" ")) };
                axioms.push(rf_eq(&vp, rhs));
            }
        }
        match ak {
            Ak::Opaque(b) => {
                let f = f64::from_bits(*b);
                axioms.push(format!("(= {} {})", v, f64_smt(f)));
            }
            Ak::Var(_) => {}
            Ak::Fun(n, args) => {
                let lin = |r: &Rf| r.d.is_empty();
                let arg = |i: usize| poly_smt(&args[i].n);
                match *n {
                    "pi" => axioms.push(format!("(and (< 3.14159265 {v}) (< {v} 3.14159266))")),
                    "eps" => axioms.push(format!("(and (< 0.0 {v}) (< {v} 0.0000002))")),
                    "minpos" => axioms.push(format!("(and (< 0.0 {v}) (< {v} 0.0000000000000000000000001))")),
                    "maxval" => axioms.push(format!("(< 1000000000000000000000000.0 {v})")),
                    "max_ulps" => axioms.push(format!("(= {v} 4.0)")),
                    "sqrt" => axioms.push(format!("(>= {v} 0.0)")),
                    "abs" if lin(&args[0]) => axioms.push(format!("(= {v} (ite (>= {0} 0.0) {0} (- {0})))", arg(0))),
                    "exp" => {
                        axioms.push(format!("(> {v} 0.0)"));
                        if lin(&args[0]) {
                            axioms.push(format!("(>= {v} (+ 1.0 {}))", arg(0)));
                            axioms.push(format!("(=> (= {0} 0.0) (= {v} 1.0))", arg(0)));
                            axioms.push(format!("(=> (< {0} 0.0) (< {v} 1.0))", arg(0)));
                        }
                    }
                    "acos" => {
                        axioms.push(format!("(and (<= 0.0 {v}) (<= {v} 3.14159266))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) {
                                axioms.push(format!("(and (<= 0.0 {v}) (<= {v} v{pi}))"));
                            }
                        }
                    }
                    "asin" => {
                        axioms.push(format!("(and (<= (- 1.57079634) {v}) (<= {v} 1.57079634))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) {
                                axioms.push(format!("(and (<= (- v{pi}) (* 2.0 {v})) (<= (* 2.0 {v}) v{pi}))"));
                            }
                        }
                    }
                    "atan" => {
                        axioms.push(format!("(and (< (- 1.57079634) {v}) (< {v} 1.57079634))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) {
                                axioms.push(format!("(and (< (- v{pi}) (* 2.0 {v})) (< (* 2.0 {v}) v{pi}))"));
                            }
                        }
                    }
                    "atan2" => {
                        axioms.push(format!("(and (< (- 3.14159266) {v}) (<= {v} 3.14159266))"));
                        let (y, x) = (poly_smt(&args[0].sign_poly()), poly_smt(&args[1].sign_poly()));
                        axioms.push(format!("(=> (> {y} 0.0) (> {v} 0.0))"));
                        axioms.push(format!("(=> (< {y} 0.0) (< {v} 0.0))"));
                        axioms.push(format!("(=> (and (= {y} 0.0) (> {x} 0.0)) (= {v} 0.0))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) {
                                axioms.push(format!("(and (< (- v{pi}) {v}) (<= {v} v{pi}))"));
                                axioms.push(format!("(=> (or (> {y} 0.0) (< {y} 0.0)) (< {v} v{pi}))"));
                                axioms.push(format!("(=> (and (= {y} 0.0) (< {x} 0.0)) (= {v} v{pi}))"));
                                axioms.push(format!("(=> (> {x} 0.0) (and (< (- v{pi}) (* 2.0 {v})) (< (* 2.0 {v}) v{pi})))"));
                                axioms.push(format!("(=> (< {x} 0.0) (or (> (* 2.0 {v}) v{pi}) (< (* 2.0 {v}) (- v{pi}))))"));
                            }
                        }
                    }
                    "sin" => {
                        if let Some((y, x)) = nm.half_atan2(&args[0]) {
                            let (y, x) = (poly_smt(&y.sign_poly()), poly_smt(&x.sign_poly()));
                            axioms.push(format!("(=> (> {y} 0.0) (> {v} 0.0))"));
                            axioms.push(format!("(=> (< {y} 0.0) (< {v} 0.0))"));
                            axioms.push(format!("(=> (and (= {y} 0.0) (< {x} 0.0)) (= {v} 1.0))"));
                        }
                        axioms.push(format!("(and (<= (- 1.0) {v}) (<= {v} 1.0))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) && lin(&args[0]) {
                                let x = arg(0);
                                axioms.push(format!("(=> (and (< 0.0 {x}) (< {x} v{pi})) (> {v} 0.0))"));
                                axioms.push(format!("(=> (and (< (- v{pi}) {x}) (< {x} 0.0)) (< {v} 0.0))"));
                            }
                        }
                        if lin(&args[0]) {
                            let x = arg(0);
                            axioms.push(format!("(=> (= {x} 0.0) (= {v} 0.0))"));
                            axioms.push(format!("(=> (and (< 0.0 {x}) (< {x} 3.1415926)) (> {v} 0.0))"));
                            axioms.push(format!("(=> (and (< (- 3.1415926) {x}) (< {x} 0.0)) (< {v} 0.0))"));
                        }
                    }
                    "cos" => {
                        if nm.half_atan2(&args[0]).is_some() {
                            axioms.push(format!("(>= {v} 0.0)"));
                        }
                        axioms.push(format!("(and (<= (- 1.0) {v}) (<= {v} 1.0))"));
                        if let Some(pi) = pi_atom(nm) {
                            if atoms.contains(&pi) && lin(&args[0]) {
                                let x = arg(0);
                                axioms.push(format!("(=> (and (< (- v{pi}) (* 2.0 {x})) (< (* 2.0 {x}) v{pi})) (> {v} 0.0))"));
                                axioms.push(format!("(=> (and (< v{pi} (* 2.0 {x})) (< (* 2.0 {x}) (* 3.0 v{pi}))) (< {v} 0.0))"));
                                axioms.push(format!("(=> (and (< 0.0 {x}) (< {x} (* 2.0 v{pi}))) (< {v} 1.0))"));
                            }
                        }
                        if lin(&args[0]) {
                            let x = arg(0);
                            axioms.push(format!("(=> (= {x} 0.0) (= {v} 1.0))"));
                            axioms.push(format!("(=> (and (< (- 1.5707963) {x}) (< {x} 1.5707963)) (> {v} 0.0))"));
                        }
                    }
                    "ln" => {
                        if lin(&args[0]) {
                            let x = arg(0);
                            axioms.push(format!("(<= {v} (- {x} 1.0))"));
                            axioms.push(format!("(=> (> {x} 1.0) (> {v} 0.0))"));
                            axioms.push(format!("(=> (< {x} 1.0) (< {v} 0.0))"));
                        }
                    }
                    "floor" if lin(&args[0]) => {
                        axioms.push(format!("(and (<= {v} {0}) (< {0} (+ {v} 1.0)))", arg(0)));
                    }
                    "trunc" if lin(&args[0]) => {
                        let x = arg(0);
                        axioms.push(format!("(and (ite (>= {x} 0.0) (and (<= {v} {x}) (< {x} (+ {v} 1.0))) (and (>= {v} {x}) (> {x} (- {v} 1.0)))))"));
                    }
                    "round" if lin(&args[0]) => {
                        let x = arg(0);
                        axioms.push(format!("(and (ite (>= {x} 0.0) (and (<= (- {v} 0.5) {x}) (< {x} (+ {v} 0.5))) (and (>= (+ {v} 0.5) {x}) (> {x} (- {v} 0.5)))))"));
                    }
                    _ => {}
                }
            }
        }
    }
    for e in &nm.side {
        let mut v = vec![];
        e.atoms(&mut v);
        if v.iter().all(|a| done.contains(a)) {
            axioms.push(format!("(= {} 0.0)", poly_smt(e)));
        }
    }
    if with_preds {
        for &p in &preds {
            if pdone.contains(&p) {
                continue;
            }
            pdone.push(p);
            let (n, a) = &nm.preds[p];
            if a.iter().any(|r| !r.d.is_empty()) {
                // clear denominators: only the difference against the tolerance matters
                if a.len() >= 3 {
                    let d = a[0].sub(&a[1]);
                    let lo = d.add(&a[2]).sign_poly();
                    let hi = d.sub(&a[2]).sign_poly();
                    let within = format!("(and (>= {} 0.0) (<= {} 0.0))", poly_smt(&lo), poly_smt(&hi));
                    let mut extra = vec![];
                    lo.atoms(&mut extra);
                    hi.atoms(&mut extra);
                    if extra.iter().all(|x| done.contains(x)) {
                        match *n {
                            "abs_diff_eq" => axioms.push(format!("(= p{p} {within})")),
                            "relative_eq" | "ulps_eq" => axioms.push(format!("(=> {within} p{p})")),
                            _ => {}
                        }
                    }
                }
                continue;
            }
            let s = |i: usize| poly_smt(&a[i].n);
            match *n {
                "abs_diff_eq" => axioms.push(format!("(= p{p} (and (<= (- {0} {1}) {2}) (<= (- {1} {0}) {2})))", s(0), s(1), s(2))),
                "relative_eq" | "ulps_eq" => {
                    let within = format!("(and (<= (- {0} {1}) {2}) (<= (- {1} {0}) {2}))", s(0), s(1), s(2));
                    axioms.push(format!("(=> {within} p{p})"));
                    axioms.push(format!("(=> (= {} {}) p{p})", s(0), s(1)));
                    // true only for numbers that agree to within the tolerance or one part in a thousand
                    let small = if *n == "ulps_eq" { "1000.0" } else { "0.001" };
                    axioms.push(format!(
                        "(=> (and p{p} (<= {2} 0.001) (<= {3} {small})) (and (<= (* 1000.0 (- {0} {1})) (+ (* 1000.0 {2}) (ite (>= {0} 0.0) {0} (- {0})) (ite (>= {1} 0.0) {1} (- {1})))) (<= (* 1000.0 (- {1} {0})) (+ (* 1000.0 {2}) (ite (>= {0} 0.0) {0} (- {0})) (ite (>= {1} 0.0) {1} (- {1}))))))",
                        s(0),
                        s(1),
                        s(2),
                        s(3)
                    ));
                }
                _ => {}
            }
        }
    }
    let mut t = String::new();
    // integer-valued atoms, their sums and differences avoid the gaps between small integers
    let ints: Vec<Atom> = done.iter().copied().filter(|a| matches!(&nm.atoms[*a as usize].k, Ak::Fun("floor" | "trunc" | "round", _))).collect();
    for (i, a) in ints.iter().enumerate() {
        let mut gaps = vec![format!("v{a}")];
        for b in &ints[i + 1..] {
            gaps.push(format!("(- v{a} v{b})"));
            gaps.push(format!("(+ v{a} v{b})"));
        }
        for d in gaps {
            for k in -2i32..=1 {
                let s = |k: i32| if k < 0 { format!("(- {}.0)", -k) } else { format!("{k}.0") };
                axioms.push(format!("(or (<= {d} {}) (>= {d} {}))", s(k), s(k + 1)));
            }
        }
    }
    t.push_str("(set-logic QF_NRA)\n");
    for &a in &done {
        let _ = writeln!(t, "(declare-const v{} Real) ; {}", a, nm.atom_name(a).replace('\n', " "));
    }
    for p in &preds {
        let _ = writeln!(t, "(declare-const p{} Bool) ; {}", p, nm.preds[*p].0);
    }
    for x in &axioms {
        let _ = writeln!(t, "(assert {})", x);
    }
    for (i, f) in nm.facts.iter().enumerate() {
        if use_fact[i] {
            let _ = writeln!(t, "(assert {})", nf_smt(f));
        }
    }
    let _ = writeln!(t, "(assert {}) ; goal", nf_smt(goal));
    Query { text: t, vars: done }
}
fn pi_atom(nm: &Norm) -> Option<Atom> {
    nm.atoms.iter().position(|a| matches!(a.k, Ak::Fun("pi", _))).map(|i| i as Atom)
}
fn f64_smt(f: f64) -> String {
    // exact dyadic rational when small enough, else a decimal
    let s = format!("{:.40}", f.abs());
    if f < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

struct Proc {
    ch: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
fn spawn(cmd: &[&str]) -> Proc {
    let mut ch = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    let stdin = ch.stdin.take().unwrap();
    let out = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { ch, stdin, rx }
}
#[derive(Default)]
pub struct Solver {
    z3: Option<Proc>,
    pub calls: u64,
    pub secs: f64,
}
impl Solver {
    fn ask(p: &mut Proc, q: &Query, head: &str, tail: &str, timeout: Duration) -> Option<Vec<String>> {
        let vals = if q.vars.is_empty() { String::new() } else { format!("(get-value ({}))\n", q.vars.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" ")) };
        let msg = format!("{}{}(check-sat)\n{}(echo \"done\")\n{}", head, q.text, vals, tail);
        if p.stdin.write_all(msg.as_bytes()).is_err() || p.stdin.flush().is_err() {
            return None;
        }
        let end = Instant::now() + timeout;
        let mut lines = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return None;
            }
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim_matches('"') == "done" {
                        return Some(lines);
                    }
                    lines.push(l);
                }
                Err(_) => return None,
            }
        }
    }
    fn parse(lines: &[String], q: &Query) -> Ans {
        match lines.iter().map(|s| s.as_str()).find(|s| matches!(*s, "sat" | "unsat" | "unknown")) {
            Some("unsat") => Ans::Unsat,
            Some("sat") => {
                let text = lines.join("\n");
                let mut m = HashMap::new();
                let toks = tokenize(&text);
                for &v in &q.vars {
                    let name = format!("v{}", v);
                    if let Some(i) = toks.iter().position(|t| *t == name) {
                        let (val, _) = parse_val(&toks, i + 1);
                        if let Some(x) = val {
                            m.insert(v, x);
                        }
                    }
                }
                Ans::Sat(m)
            }
            _ => Ans::Unknown,
        }
    }
    pub fn z3(&mut self, q: &Query, ms: u64) -> Ans {
        let t0 = Instant::now();
        self.calls += 1;
        if self.z3.is_none() {
            self.z3 = Some(spawn(&["z3-new", "-in", "-smt2"]));
        }
        let head = format!("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n(set-option :timeout {})\n(set-option :memory_max_size 3000)\n", ms);
        let r = Self::ask(self.z3.as_mut().unwrap(), q, &head, "", Duration::from_millis(ms + 1500));
        let a = match r {
            Some(l) => Self::parse(&l, q),
            None => {
                self.z3 = None;
                Ans::Unknown
            }
        };
        self.secs += t0.elapsed().as_secs_f64();
        a
    }
    pub fn other(&mut self, which: &str, q: &Query, ms: u64) -> Ans {
        let t0 = Instant::now();
        self.calls += 1;
        let tl = format!("--tlimit={}", ms);
        let tz = format!("-T:{}", ms / 1000 + 1);
        let mut p = match which {
            "cvc5" => spawn(&["cvc5", "--lang=smt2", "--produce-models", "--incremental", &tl, "--nl-cov"]),
            _ => spawn(&["z3", "-in", "-smt2", &tz]),
        };
        let head = if which == "cvc5" { String::new() } else { "(set-option :pp.decimal true)\n".into() };
        let r = Self::ask(&mut p, q, &head, "(exit)\n", Duration::from_millis(ms + 1500));
        self.secs += t0.elapsed().as_secs_f64();
        match r {
            Some(l) => Self::parse(&l, q),
            None => Ans::Unknown,
        }
    }
}
fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn parse_val(t: &[String], i: usize) -> (Option<f64>, usize) {
    if i >= t.len() {
        return (None, i);
    }
    if t[i] == "(" {
        let op = t.get(i + 1).cloned().unwrap_or_default();
        let mut j = i + 2;
        let mut args = vec![];
        while j < t.len() && t[j] != ")" {
            let (v, k) = parse_val(t, j);
            args.push(v);
            if k == j {
                return (None, j);
            }
            j = k;
        }
        let a: Option<Vec<f64>> = args.into_iter().collect();
        let r = a.and_then(|a| match (op.as_str(), a.len()) {
            ("-", 1) => Some(-a[0]),
            ("-", 2) => Some(a[0] - a[1]),
            ("/", 2) => Some(a[0] / a[1]),
            ("+", 2) => Some(a[0] + a[1]),
            ("*", 2) => Some(a[0] * a[1]),
            _ => None,
        });
        (r, j + 1)
    } else {
        (t[i].trim_end_matches('?').parse().ok(), i + 1)
    }
}
