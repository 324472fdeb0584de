//! Normal forms: every symbolic term becomes a rational function over atoms (variables and
//! irreducible function applications), reduced by the primitive contracts (sqrt(t)^2 = t,
//! sin^2 + cos^2 = 1, ...) and by equality hypotheses used as rewrite rules.
use crate::poly::*;
use crate::rat::Rat;
use crate::term::{self, Node, Sym, F};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Ak {
    Var(u32),
    Fun(&'static str, Vec<Rf>),
    Opaque(u64),
}
#[derive(Clone, Debug)]
pub struct AtomInfo {
    pub k: Ak,
}
#[derive(Clone, Debug, PartialEq)]
pub enum NF {
    B(bool),
    Eq(Poly),
    Lt(Poly),
    Le(Poly),
    Pred(usize),
    Not(Box<NF>),
    And(Vec<NF>),
    Or(Vec<NF>),
}
/// at least two terms, all with even exponents and coefficients of one sign
fn definite(p: &Poly) -> bool {
    let pos = |c: &Rat| *c > Rat::ZERO;
    p.0.len() > 1
        && p.0.keys().all(|m| !m.0.is_empty() && m.0.iter().all(|&(_, e)| e % 2 == 0))
        && (p.0.values().all(|c| pos(c)) || p.0.values().all(|c| !pos(c)))
}
pub fn not(n: NF) -> NF {
    match n {
        NF::B(b) => NF::B(!b),
        NF::Not(x) => *x,
        NF::Lt(p) => NF::Le(p.neg()),
        NF::Le(p) => NF::Lt(p.neg()),
        NF::And(v) => NF::Or(v.into_iter().map(not).collect()),
        NF::Or(v) => NF::And(v.into_iter().map(not).collect()),
        x => NF::Not(Box::new(x)),
    }
}
#[derive(Clone)]
struct Unit {
    rf: Rf,
    l: i128,
}
#[derive(Clone)]
pub struct Norm {
    pub atoms: Vec<AtomInfo>,
    pub rules: HashMap<Atom, (u32, Rf)>,
    memo: HashMap<u32, Rf>,
    known: Vec<Poly>,
    ang: Vec<Unit>,
    exps: Vec<Unit>,
    pub preds: Vec<(&'static str, Vec<Rf>)>,
    pub epoch: u32,
    hyps: Vec<(F<Sym>, bool)>,
    plain: bool,
    pub facts: Vec<NF>,
    restart: bool,
    pub inconsistent: bool,
    /// values hidden behind fresh variables by `cut`: (node, variable node)
    cuts: Vec<(u32, u32)>,
    cut_vals: Vec<(Rf, u32)>,
    cut_epoch: u32,
    /// equations between function atoms that no rewrite rule expresses
    pub side: Vec<Poly>,
    pub finite: bool,
    /// definitions of named values, for the linear-span back end
    defs: Vec<(Atom, Rf)>,
    /// the state before the first cut: what the cut values really are
    pub base: Option<Box<Norm>>,
}

impl Norm {
    pub fn new() -> Norm {
        Norm {
            atoms: vec![],
            rules: HashMap::new(),
            memo: HashMap::new(),
            known: vec![],
            ang: vec![],
            exps: vec![],
            preds: vec![],
            epoch: 0,
            hyps: vec![],
            plain: false,
            facts: vec![],
            restart: false,
            inconsistent: false,
            cuts: vec![],
            cut_vals: vec![],
            cut_epoch: 0,
            side: vec![],
            finite: false,
            defs: vec![],
            base: None,
        }
    }
    // ---------------------------------------------------------------- atoms
    fn push_atom(&mut self, k: Ak) -> Atom {
        self.atoms.push(AtomInfo { k });
        (self.atoms.len() - 1) as Atom
    }
    fn var_atom(&mut self, ix: u32) -> Atom {
        for (i, a) in self.atoms.iter().enumerate() {
            if matches!(a.k, Ak::Var(j) if j == ix) {
                return i as Atom;
            }
        }
        self.push_atom(Ak::Var(ix))
    }
    fn opaque_atom(&mut self, bits: u64) -> Atom {
        for (i, a) in self.atoms.iter().enumerate() {
            if matches!(a.k, Ak::Opaque(j) if j == bits) {
                return i as Atom;
            }
        }
        self.push_atom(Ak::Opaque(bits))
    }
    pub fn fun_atom(&mut self, name: &'static str, args: &[Rf]) -> (Atom, bool) {
        for i in 0..self.atoms.len() {
            if let Ak::Fun(n, a) = &self.atoms[i].k {
                if *n == name && a.len() == args.len() {
                    let a = a.clone();
                    if a.iter().zip(args).all(|(x, y)| self.same(x, y)) {
                        return (i as Atom, false);
                    }
                }
            }
        }
        (self.push_atom(Ak::Fun(name, args.to_vec())), true)
    }
    pub fn fun_rf(&mut self, name: &'static str, args: &[Rf]) -> Rf {
        let (a, _) = self.fun_atom(name, args);
        Rf::poly(Poly::atom(a))
    }
    fn square_atom(&mut self, name: &'static str, args: &[Rf], pow: u32, rhs: Rf) -> Rf {
        let (a, new) = self.fun_atom(name, args);
        if new {
            self.rules.insert(a, (pow, rhs));
        }
        Rf::poly(Poly::atom(a))
    }
    pub fn same(&mut self, a: &Rf, b: &Rf) -> bool {
        if a.n == b.n && a.d == b.d {
            return true;
        }
        if a.d.is_empty() && b.d.is_empty() && self.rules.is_empty() {
            return false;
        }
        let d = a.sub(b);
        self.reduce(d).n.is_zero()
    }
    // ---------------------------------------------------------------- reduction
    fn reduce_poly(&mut self, p: &Poly) -> Rf {
        let mut cur = Rf::poly(p.clone());
        let mut steps = 0;
        loop {
            // highest atom with an applicable rule
            let mut best: Option<(Atom, u32)> = None;
            for m in cur.n.0.keys() {
                for &(a, e) in &m.0 {
                    if let Some((pw, _)) = self.rules.get(&a) {
                        if e >= *pw && best.map_or(true, |b| a > b.0) {
                            best = Some((a, *pw));
                        }
                    }
                }
            }
            let (a, pw) = match best {
                None => return cur,
                Some(b) => b,
            };
            steps += 1;
            if steps > 400 {
                std::panic::panic_any(TooBig);
            }
            let rhs = self.rules[&a].1.clone();
            // group by j
            let mut groups: Vec<Poly> = vec![];
            for (m, c) in &cur.n.0 {
                let e = m.exp(a);
                let j = (e / pw) as usize;
                while groups.len() <= j {
                    groups.push(Poly::zero());
                }
                let mut mm = m.without(a);
                if e % pw > 0 {
                    mm = mm.mul(&Mono(vec![(a, e % pw)]));
                }
                groups[j].add_term(mm, *c);
            }
            // Horner
            let mut acc = Rf::poly(groups.pop().unwrap());
            while let Some(g) = groups.pop() {
                acc = acc.mul(&rhs).add(&Rf::poly(g));
            }
            let mut d = cur.d;
            for (f, e) in acc.d {
                match d.iter_mut().find(|x| x.0 == f) {
                    Some(x) => x.1 += e,
                    None => d.push((f, e)),
                }
            }
            cur = Rf { n: acc.n, d };
        }
    }
    fn reducible(&self, p: &Poly) -> bool {
        p.0.keys().any(|m| m.0.iter().any(|(a, e)| self.rules.get(a).map_or(false, |r| *e >= r.0)))
    }
    pub fn reduce(&mut self, r: Rf) -> Rf {
        if self.rules.is_empty() {
            return r;
        }
        let mut r = r;
        for _ in 0..20 {
            let mut changed = false;
            if self.reducible(&r.n) {
                let q = self.reduce_poly(&r.n);
                let mut d = r.d.clone();
                for (f, e) in q.d {
                    match d.iter_mut().find(|x| x.0 == f) {
                        Some(x) => x.1 += e,
                        None => d.push((f, e)),
                    }
                }
                r = Rf { n: q.n, d }.cancel();
                changed = true;
            }
            if r.n.is_zero() {
                return Rf::int(0);
            }
            for i in 0..r.d.len() {
                let (f, e) = r.d[i].clone();
                // den factor that is itself a power of a ruled atom
                let single = if f.0.len() == 1 { f.0.keys().next().unwrap().0.first().copied() } else { None };
                let rep = if self.reducible(&f) {
                    Some((self.reduce_poly(&f), e, 0))
                } else if let Some((a, 1)) = single {
                    match self.rules.get(&a) {
                        Some((pw, rhs)) if e >= *pw => Some((rhs.clone(), e / pw, e % pw)),
                        _ => None,
                    }
                } else {
                    None
                };
                if let Some((q, k, rest)) = rep {
                    if q.n.is_zero() {
                        // denominator vanishes under the hypotheses: undefined
                        return self.fun_rf("undef", &[]);
                    }
                    let mut base = Rf { n: r.n.clone(), d: r.d.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.clone()).collect() };
                    if rest > 0 {
                        base.d.push((f.clone(), rest));
                    }
                    let iv = self.inv(&q).pow(k);
                    r = base.mul(&iv);
                    changed = true;
                    break;
                }
            }
            if !changed {
                return r.cancel();
            }
        }
        r
    }
    fn factor_into(&mut self, p: &Poly, e: u32, d: &mut Vec<(Poly, u32)>) -> Rat {
        let (c, p) = p.monic();
        let mut push = |f: Poly, e: u32| match d.iter_mut().find(|x| x.0 == f) {
            Some(x) => x.1 += e,
            None => d.push((f, e)),
        };
        let ct = p.mono_content();
        for &(a, k) in &ct.0 {
            push(Poly::atom(a), k * e);
        }
        let mut p = p.div_mono(&ct);
        if p.is_const().is_none() {
            for f in &self.known {
                while p.is_const().is_none() {
                    match p.div_exact(f) {
                        Some(q) => {
                            push(f.clone(), e);
                            p = q;
                        }
                        None => break,
                    }
                }
            }
            let (c2, p2) = p.monic();
            debug_assert!(c2 == Rat::ONE || p2.is_const().is_some());
            if p2.is_const().is_none() {
                push(p2.clone(), e);
                self.known.push(p2);
            }
        }
        c.pow(e)
    }
    pub fn inv(&mut self, r: &Rf) -> Rf {
        if r.n.is_zero() {
            return self.fun_rf("undef", &[]);
        }
        let mut d = vec![];
        let c = self.factor_into(&r.n, 1, &mut d);
        Rf { n: r.den_poly().scale(c.inv()), d }.cancel()
    }
    // ---------------------------------------------------------------- signs
    /// (y, x) when the argument is atan2(y, x) / 2
    pub fn half_atan2(&self, r: &Rf) -> Option<(Rf, Rf)> {
        if !r.d.is_empty() || r.n.0.len() != 1 {
            return None;
        }
        let (m, c) = r.n.0.iter().next().unwrap();
        if *c != Rat::new(1, 2) || m.0.len() != 1 || m.0[0].1 != 1 {
            return None;
        }
        match &self.atoms[m.0[0].0 as usize].k {
            Ak::Fun("atan2", a) => Some((a[0].clone(), a[1].clone())),
            _ => None,
        }
    }
    fn atom_nonneg(&self, a: Atom) -> bool {
        match &self.atoms[a as usize].k {
            Ak::Fun("cos", x) if self.half_atan2(&x[0]).is_some() => true,
            Ak::Fun(n, _) => matches!(*n, "sqrt" | "abs" | "exp" | "pi" | "eps" | "acos" | "maxval" | "minpos" | "max_ulps"),
            Ak::Opaque(b) => f64::from_bits(*b) >= 0.0,
            _ => self.fact_nonneg(&Poly::atom(a)),
        }
    }
    fn terms_nonneg(&self, p: &Poly) -> bool {
        p.0.iter().all(|(m, c)| c.n >= 0 && m.0.iter().all(|&(a, e)| e % 2 == 0 || self.atom_sign(a)))
    }
    /// nonnegative by the kind of atom, or by a fact that says so directly
    fn atom_sign(&self, a: Atom) -> bool {
        match &self.atoms[a as usize].k {
            Ak::Fun(n, _) => matches!(*n, "sqrt" | "abs" | "exp" | "pi" | "eps" | "acos" | "maxval" | "minpos" | "max_ulps"),
            Ak::Opaque(b) => f64::from_bits(*b) >= 0.0,
            Ak::Var(_) => self.facts.iter().any(|f| match f {
                NF::Lt(q) | NF::Le(q) => q.0.len() == 1 && q.0.iter().all(|(m, c)| m.0 == vec![(a, 1)] && c.n < 0),
                _ => false,
            }),
        }
    }
    /// some fact q < 0 (or <= 0) with c p + q >= 0 term by term, c > 0: then p > 0 (or >= 0)
    fn fact_bounds(&self, p: &Poly, strict: bool) -> bool {
        if p.is_zero() {
            return !strict;
        }
        let (lm, lc) = p.lead();
        for f in &self.facts {
            let q = match f {
                NF::Lt(q) => q,
                NF::Le(q) if !strict => q,
                _ => continue,
            };
            if q.0.len() < p.0.len() {
                continue;
            }
            let c = match q.0.get(lm) {
                Some(k) => -(*k * lc.inv()),
                None => continue,
            };
            if c.n <= 0 {
                continue;
            }
            if self.terms_nonneg(&p.scale(c).add(q)) {
                return true;
            }
        }
        false
    }
    fn fact_nonneg(&self, p: &Poly) -> bool {
        self.fact_bounds(p, false)
    }
    /// known to be strictly positive
    pub fn positive(&self, p: &Poly, depth: u32) -> bool {
        if let Some(c) = p.is_const() {
            return c.n > 0;
        }
        if self.fact_bounds(p, true) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        if self.terms_nonneg(p) && p.0.iter().any(|(m, _)| m.0.iter().all(|&(a, _)| self.atom_nonzero(a, depth - 1))) {
            return true;
        }
        let ct = p.mono_content();
        if !ct.0.is_empty() && ct.0.iter().all(|&(a, e)| self.atom_nonzero(a, depth - 1) && (e % 2 == 0 || self.atom_sign(a))) {
            let q = p.div_mono(&ct);
            return self.positive(&q, depth - 1);
        }
        false
    }
    fn atom_nonzero(&self, a: Atom, depth: u32) -> bool {
        if self.decide(&NF::Eq(Poly::atom(a))) == Some(false) {
            return true;
        }
        match &self.atoms[a as usize].k {
            Ak::Fun("exp" | "pi" | "eps" | "maxval" | "minpos" | "max_ulps", _) => true,
            Ak::Fun("sqrt", args) => {
                let t = &args[0];
                self.positive(&t.sign_poly(), depth)
            }
            Ak::Fun("abs", args) => self.decide(&NF::Eq(args[0].n.monic().1)) == Some(false) || self.positive(&args[0].sign_poly(), depth) || self.positive(&args[0].sign_poly().neg(), depth),
            Ak::Opaque(b) => f64::from_bits(*b) != 0.0,
            _ => false,
        }
    }
    pub fn nonneg(&self, p: &Poly) -> bool {
        let term_ok = |m: &Mono, c: &Rat| c.n >= 0 && m.0.iter().all(|&(a, e)| e % 2 == 0 || self.atom_nonneg(a));
        if p.0.iter().all(|(m, c)| term_ok(m, c)) {
            return true;
        }
        if self.fact_nonneg(p) {
            return true;
        }
        let ct = p.mono_content();
        if !ct.0.is_empty() && term_ok(&ct, &Rat::ONE) {
            let q = p.div_mono(&ct);
            if self.fact_nonneg(&q) {
                return true;
            }
        }
        p.0.len() < 40 && p.sqrt().is_some()
    }
    /// x - z with both known nonnegative and z the only term with a square root: the sign is
    /// that of x^2 - z^2
    fn unsqrt(&mut self, p: &Poly) -> Option<Poly> {
        let is_root = |s: &Norm, a: Atom| matches!(&s.atoms[a as usize].k, Ak::Fun("sqrt", _));
        let mut it = p.0.iter().filter(|(m, _)| m.0.iter().any(|&(a, e)| e % 2 == 1 && is_root(self, a)));
        let (m, c) = it.next()?;
        if it.next().is_some() || p.0.len() < 2 || p.0.len() > 60 {
            return None;
        }
        if !m.0.iter().all(|&(a, e)| e % 2 == 0 || self.atom_nonneg(a)) {
            return None;
        }
        let (m, c) = (m.clone(), *c);
        let mut x = p.clone();
        x.0.remove(&m);
        let z = Poly::mono(m, c);
        let (x2, z2) = (Rf::poly(x.mul(&x)), Rf::poly(z.mul(&z)));
        let d = if c.n > 0 {
            if !self.nonneg(&x.neg()) {
                return None;
            }
            z2.sub(&x2)
        } else {
            if !self.nonneg(&x) {
                return None;
            }
            x2.sub(&z2)
        };
        let d = self.reduce(d);
        Some(d.sign_poly())
    }
    // ---------------------------------------------------------------- normalisation
    pub fn norm(&mut self, s: Sym) -> Rf {
        loop {
            self.restart = false;
            let r = self.go(s.0);
            if !self.restart {
                return r;
            }
            self.refresh();
        }
    }
    /// new angle bases or rules: everything normalised so far is recomputed
    fn refresh(&mut self) {
        self.memo.clear();
        self.epoch += 1;
        self.rebuild_facts();
    }
    /// from here on the value of each node is known only through facts about its variable
    pub fn cut(&mut self, pairs: &[(Sym, Sym)], keep_defs: bool) -> Vec<usize> {
        let mut kept = vec![];
        if keep_defs {
            for (t, v) in pairs {
                let r = self.norm(*t);
                let v = self.norm(*v);
                let mut at = vec![];
                v.n.atoms(&mut at);
                if at.len() == 1 && r.is_const().is_none() {
                    self.defs.push((at[0], r));
                }
            }
        }
        if self.base.is_none() {
            self.base = Some(Box::new(self.clone()));
        }
        for (i, (t, v)) in pairs.iter().enumerate() {
            if self.norm(*t).is_const().is_none() {
                self.cuts.push((t.0, v.0));
                kept.push(i);
            }
        }
        self.cut_vals.clear();
        self.refresh();
        kept
    }
    /// the variable that stands for node i's value, if a cut hides it
    fn hidden(&mut self, i: u32) -> Option<u32> {
        if self.cuts.is_empty() {
            return None;
        }
        if let Some(&(_, v)) = self.cuts.iter().find(|c| c.0 == i) {
            return Some(v);
        }
        if matches!(term::node(Sym(i)), Node::Const(_) | Node::Var(_) | Node::Opaque(_)) {
            return None;
        }
        let base = self.base.as_mut().unwrap();
        let r = base.norm(Sym(i));
        if r.is_const().is_some() {
            return None;
        }
        if base.epoch != self.cut_epoch || self.cut_vals.is_empty() {
            self.cut_vals = self.cuts.iter().map(|(t, v)| (base.norm(Sym(*t)), *v)).collect();
            self.cut_epoch = base.epoch;
        }
        self.cut_vals.iter().find(|c| c.0.n == r.n && c.0.d == r.d).map(|c| c.1)
    }
    fn go(&mut self, i: u32) -> Rf {
        if let Some(r) = self.memo.get(&i) {
            return r.clone();
        }
        if let Some(v) = self.hidden(i) {
            let r = self.go(v);
            self.memo.insert(i, r.clone());
            return r;
        }
        let r = match term::node(Sym(i)) {
            Node::Const(c) => Rf::konst(c),
            Node::Var(v) => {
                let a = self.var_atom(v);
                Rf::poly(Poly::atom(a))
            }
            Node::Opaque(b) => {
                let a = self.opaque_atom(b);
                Rf::poly(Poly::atom(a))
            }
            Node::Add(a, b) => self.go(a).add(&self.go(b)),
            Node::Sub(a, b) => self.go(a).sub(&self.go(b)),
            Node::Mul(a, b) => self.go(a).mul(&self.go(b)),
            Node::Neg(a) => self.go(a).neg(),
            Node::Div(a, b) => {
                let x = self.go(a);
                let y = self.go(b);
                if y.n.is_zero() {
                    self.fun_rf("undef", &[])
                } else {
                    let iv = self.inv(&y);
                    x.mul(&iv)
                }
            }
            Node::Fun(n, args) => {
                let a: Vec<Rf> = args.iter().map(|x| self.go(*x)).collect();
                self.norm_fun(n, a)
            }
        };
        let r = self.reduce(r);
        self.memo.insert(i, r.clone());
        r
    }
    fn half(r: &Rf) -> Rf {
        r.scale(Rat::new(1, 2))
    }
    pub fn norm_fun(&mut self, n: &'static str, a: Vec<Rf>) -> Rf {
        match n {
            "sqrt" => self.sqrt(&a[0]),
            "abs" => self.abs(&a[0]),
            "max" => {
                let d = self.abs(&a[0].sub(&a[1]));
                Self::half(&a[0].add(&a[1]).add(&d))
            }
            "min" => {
                let d = self.abs(&a[0].sub(&a[1]));
                Self::half(&a[0].add(&a[1]).sub(&d))
            }
            "sin" => self.sincos(&a[0]).1,
            "cos" => self.sincos(&a[0]).0,
            "tan" => {
                let (c, s) = self.sincos(&a[0]);
                let iv = self.inv(&c);
                s.mul(&iv)
            }
            "exp" => self.exp(&a[0]),
            "sinh" | "cosh" | "tanh" => {
                let e = self.exp(&a[0]);
                let f = self.exp(&a[0].neg());
                match n {
                    "sinh" => Self::half(&e.sub(&f)),
                    "cosh" => Self::half(&e.add(&f)),
                    _ => {
                        let den = e.add(&f);
                        let iv = self.inv(&den);
                        e.sub(&f).mul(&iv)
                    }
                }
            }
            "asinh" => {
                let t = a[0].mul(&a[0]).add(&Rf::int(1));
                let q = self.sqrt(&t);
                self.ln(&a[0].add(&q))
            }
            "acosh" => {
                let t = a[0].mul(&a[0]).sub(&Rf::int(1));
                let q = self.sqrt(&t);
                self.ln(&a[0].add(&q))
            }
            "atanh" => {
                let den = self.inv(&Rf::int(1).sub(&a[0]));
                let t = Rf::int(1).add(&a[0]).mul(&den);
                let t = self.reduce(t);
                let l = self.ln(&t);
                Self::half(&l)
            }
            "ln" => self.ln(&a[0]),
            "acos" => {
                if let Some(k) = a[0].is_const() {
                    if let Some(q) = [(1, 1, 0, 1), (0, 1, 1, 2), (-1, 1, 1, 1), (1, 2, 1, 3), (-1, 2, 2, 3)].iter().find(|x| Rat::new(x.0, x.1) == k) {
                        return self.fun_rf("pi", &[]).scale(Rat::new(q.2, q.3));
                    }
                }
                self.fun_rf("acos", &a)
            }
            "asin" => {
                if let Some(k) = a[0].is_const() {
                    if let Some(q) = [(1, 1, 1, 2), (0, 1, 0, 1), (-1, 1, -1, 2), (1, 2, 1, 6), (-1, 2, -1, 6)].iter().find(|x| Rat::new(x.0, x.1) == k) {
                        return self.fun_rf("pi", &[]).scale(Rat::new(q.2, q.3));
                    }
                }
                self.odd("asin", &a[0])
            }
            "atan" => {
                if let Some(k) = a[0].is_const() {
                    if k.is_zero() || k.abs() == Rat::ONE {
                        return self.fun_rf("pi", &[]).scale(k * Rat::new(1, 4));
                    }
                }
                self.odd("atan", &a[0])
            }
            "cbrt" => {
                if a[0].n.is_zero() {
                    return Rf::int(0);
                }
                self.square_atom("cbrt", &a, 3, a[0].clone())
            }
            "atan2" => {
                if a[0].n.is_zero() {
                    let x = a[1].sign_poly();
                    if self.nonneg(&x) {
                        return Rf::int(0);
                    }
                    if self.decide(&NF::Lt(x)) == Some(true) {
                        return self.fun_rf("pi", &[]);
                    }
                }
                if a[1].n.is_zero() {
                    let y = a[0].sign_poly();
                    let h = Self::half(&self.fun_rf("pi", &[]));
                    if self.positive(&y, 2) || self.decide(&NF::Lt(y.neg())) == Some(true) {
                        return h;
                    }
                    if self.positive(&y.neg(), 2) || self.decide(&NF::Lt(y)) == Some(true) {
                        return h.neg();
                    }
                }
                self.fun_rf("atan2", &a)
            }
            _ => self.fun_rf(n, &a),
        }
    }
    fn odd(&mut self, n: &'static str, x: &Rf) -> Rf {
        if x.n.is_zero() {
            return Rf::int(0);
        }
        if x.n.lead().1.n < 0 {
            self.fun_rf(n, &[x.neg()]).neg()
        } else {
            self.fun_rf(n, &[x.clone()])
        }
    }
    /// c = s^2 * m with m a squarefree integer
    fn sqrt_rat(&mut self, c: Rat) -> Rf {
        // sqrt(n/d) = sqrt(n d)/d
        let mut m = match c.n.checked_mul(c.d) {
            Some(m) => m,
            None => std::panic::panic_any(crate::rat::EngineOverflow),
        };
        let mut out = Rat::new(1, c.d);
        let mut f = 2i128;
        while f * f <= m && f < 5000 {
            while m % (f * f) == 0 {
                m /= f * f;
                out = out * Rat::int(f);
            }
            f += 1;
        }
        if let Some(q) = Rat::int(m).sqrt_exact() {
            return Rf::konst(out * q);
        }
        self.square_atom("sqrt", &[Rf::int(m)], 2, Rf::int(m)).scale(out)
    }
    pub fn sqrt(&mut self, t: &Rf) -> Rf {
        if t.n.is_zero() {
            return Rf::int(0);
        }
        // t = n / prod d^e  =>  sqrt(n * prod d_odd) / prod |d|^ceil(e/2)
        let mut p = t.n.clone();
        let mut out = Rf::int(1);
        for (f, e) in &t.d {
            if e % 2 == 1 {
                p = p.mul(f);
            }
            let k = (e + 1) / 2;
            let af = self.abs(&Rf::poly(f.clone()));
            let iv = self.inv(&af).pow(k);
            out = out.mul(&iv);
        }
        let q = self.reduce_poly(&p);
        if !q.d.is_empty() {
            // rule right-hand sides with denominators: give up on splitting
            let o = self.square_atom("sqrt", &[t.clone()], 2, t.clone());
            return o;
        }
        let p = q.n;
        if p.is_zero() {
            return Rf::int(0);
        }
        let c = p.lead().1.abs();
        let p = p.scale(c.inv());
        let sc = self.sqrt_rat(c);
        out = out.mul(&sc);
        let ct = p.mono_content();
        let mut even = vec![];
        for &(a, e) in &ct.0 {
            if e >= 2 {
                even.push((a, e / 2 * 2));
                let ab = self.abs(&Rf::poly(Poly::atom(a)));
                out = out.mul(&ab.pow(e / 2));
            }
        }
        let mut p = p.div_mono(&Mono(even));
        if let Some(k) = p.is_const() {
            if k == Rat::ONE {
                return self.reduce(out);
            }
        }
        if p.0.len() < 200 {
            if let Some(q) = p.sqrt() {
                let ab = self.abs(&Rf::poly(q));
                let r = out.mul(&ab);
                return self.reduce(r);
            }
            let known = self.known.clone();
            for f in &known {
                if f.0.len() < 2 {
                    continue;
                }
                let f2 = f.mul(f);
                while let Some(q) = p.div_exact(&f2) {
                    p = q;
                    let ab = self.abs(&Rf::poly(f.clone()));
                    out = out.mul(&ab);
                }
            }
            if let Some(k) = p.is_const() {
                let sc = self.sqrt_rat(k);
                let r = out.mul(&sc);
                return self.reduce(r);
            }
        }
        let rp = Rf::poly(p);
        let s = self.square_atom("sqrt", &[rp.clone()], 2, rp);
        let r = out.mul(&s);
        self.reduce(r)
    }
    pub fn abs(&mut self, t: &Rf) -> Rf {
        if let Some(c) = t.is_const() {
            return Rf::konst(c.abs());
        }
        let mut out = self.abs_poly(&t.n);
        for (f, e) in &t.d {
            if e % 2 == 0 {
                let iv = self.inv(&Rf::poly(f.clone())).pow(*e);
                out = out.mul(&iv);
            } else {
                let ab = self.abs_poly(f);
                let iv = self.inv(&ab).pow(*e);
                out = out.mul(&iv);
            }
        }
        self.reduce(out)
    }
    fn abs_poly(&mut self, p: &Poly) -> Rf {
        if let Some(c) = p.is_const() {
            return Rf::konst(c.abs());
        }
        if self.nonneg(p) {
            return Rf::poly(p.clone());
        }
        if self.nonneg(&p.neg()) {
            return Rf::poly(p.neg());
        }
        let c = p.lead().1;
        let p = p.scale(c.inv());
        let ct = p.mono_content();
        let q = p.div_mono(&ct);
        let mut out = Rf::konst(c.abs());
        for &(a, e) in &ct.0 {
            let ap = Rf::poly(Poly::atom(a));
            if e % 2 == 0 || self.atom_nonneg(a) {
                out = out.mul(&ap.pow(e));
            } else if self.fact_nonneg(&Poly::atom(a).neg()) {
                out = out.mul(&ap.neg().pow(e));
            } else {
                let sq = self.reduce(ap.pow(2));
                let x = self.square_atom("abs", &[ap.clone()], 2, sq);
                out = out.mul(&ap.pow(e - 1)).mul(&x);
            }
        }
        if q.is_const().is_none() {
            if self.nonneg(&q) {
                out = out.mul(&Rf::poly(q));
            } else if self.nonneg(&q.neg()) {
                out = out.mul(&Rf::poly(q.neg()));
            } else {
                let rq = Rf::poly(q);
                let sq = self.reduce(rq.mul(&rq));
                let x = self.square_atom("abs", &[rq], 2, sq);
                out = out.mul(&x);
            }
        } else if q.is_const().map_or(false, |k| k.n < 0) {
            unreachable!();
        }
        out
    }
    /// splits an argument into rational multiples of basis units
    fn split(&mut self, t: &Rf, exps: bool) -> Vec<(usize, Rat)> {
        let mut parts: Vec<(Rf, Rat)> = vec![];
        if t.d.is_empty() {
            for (m, c) in t.n.0.iter() {
                parts.push((Rf::poly(Poly::mono(m.clone(), Rat::ONE)), *c));
            }
        } else {
            let (c, p) = t.n.monic();
            parts.push((Rf { n: p, d: t.d.clone() }, c));
        }
        let mut out = vec![];
        for (u, c) in parts {
            let len = if exps { self.exps.len() } else { self.ang.len() };
            let mut hit = None;
            for i in 0..len {
                let r = if exps { self.exps[i].rf.clone() } else { self.ang[i].rf.clone() };
                if self.same(&r, &u) {
                    hit = Some(i);
                    break;
                }
            }
            let tab = if exps { &mut self.exps } else { &mut self.ang };
            let i = hit.unwrap_or_else(|| {
                tab.push(Unit { rf: u, l: 1 });
                tab.len() - 1
            });
            if tab[i].l % c.d != 0 {
                let g = Rat::new(tab[i].l, c.d);
                tab[i].l = g.n * c.d; // lcm
                self.restart = true;
            }
            out.push((i, c));
        }
        out
    }
    fn pi_value(&mut self, q: Rat) -> Option<(Rf, Rf)> {
        // q*pi with q reduced into [0,2)
        let two = Rat::int(2);
        let mut q = q;
        let k = (q / two).n.div_euclid((q / two).d);
        q = q - two * Rat::int(k);
        let cosv = |s: &mut Norm, q: Rat| -> Option<Rf> {
            // q in [0,2); cos(q pi)
            let q = if q > Rat::ONE { Rat::int(2) - q } else { q };
            let (neg, q) = if q > Rat::new(1, 2) { (true, Rat::ONE - q) } else { (false, q) };
            let v = if q == Rat::ZERO {
                Rf::int(1)
            } else if q == Rat::new(1, 6) {
                s.sqrt_rat(Rat::new(3, 4))
            } else if q == Rat::new(1, 4) {
                s.sqrt_rat(Rat::new(1, 2))
            } else if q == Rat::new(1, 3) {
                Rf::konst(Rat::new(1, 2))
            } else if q == Rat::new(1, 2) {
                Rf::int(0)
            } else {
                return None;
            };
            Some(if neg { v.neg() } else { v })
        };
        let c = cosv(self, q)?;
        let mut qs = Rat::new(1, 2) - q;
        if qs < Rat::ZERO {
            qs = qs + two;
        }
        let s = cosv(self, qs)?;
        Some((c, s))
    }
    /// (cos, sin) of an argument
    pub fn sincos(&mut self, t: &Rf) -> (Rf, Rf) {
        let mut c = Rf::int(1);
        let mut s = Rf::int(0);
        for (u, q) in self.split(t, false) {
            let (cu, su) = self.unit_sincos(u, q);
            let c2 = c.mul(&cu).sub(&s.mul(&su));
            let s2 = s.mul(&cu).add(&c.mul(&su));
            c = self.reduce(c2);
            s = self.reduce(s2);
        }
        (c, s)
    }
    fn unit_atom(&self, u: &Rf) -> Option<(&'static str, Vec<Rf>)> {
        if !u.d.is_empty() || u.n.0.len() != 1 {
            return None;
        }
        let m = u.n.0.keys().next().unwrap();
        if m.0.len() != 1 || m.0[0].1 != 1 {
            return None;
        }
        match &self.atoms[m.0[0].0 as usize].k {
            Ak::Fun(n, a) => Some((*n, a.clone())),
            _ => None,
        }
    }
    /// pi times integer-valued atoms
    fn pi_times_integer(&self, u: &Rf) -> bool {
        if !u.d.is_empty() || u.n.0.len() != 1 {
            return false;
        }
        let m = u.n.0.keys().next().unwrap();
        let mut pi = 0;
        for &(a, e) in &m.0 {
            match &self.atoms[a as usize].k {
                Ak::Fun("pi", _) => pi += e,
                Ak::Fun("floor" | "trunc" | "round", _) => {}
                _ => return false,
            }
        }
        pi == 1
    }
    fn unit_sincos(&mut self, u: usize, q: Rat) -> (Rf, Rf) {
        let rf = self.ang[u].rf.clone();
        let l = self.ang[u].l;
        if rf.is_const() == None {
            if let Some(("pi", _)) = self.unit_atom(&rf) {
                if let Some(v) = self.pi_value(q) {
                    return v;
                }
            }
        }
        if q.is_int() && q.n % 2 == 0 && self.pi_times_integer(&rf) {
            return (Rf::int(1), Rf::int(0));
        }
        let (cb, sb) = self.base_sincos(&rf, l);
        let k = q * Rat::int(l);
        if !k.is_int() {
            return (Rf::int(1), Rf::int(0)); // restart pending
        }
        let n = k.n.unsigned_abs();
        if n > 64 {
            std::panic::panic_any(TooBig);
        }
        let (mut c, mut s) = (Rf::int(1), Rf::int(0));
        for _ in 0..n {
            let c2 = c.mul(&cb).sub(&s.mul(&sb));
            let s2 = s.mul(&cb).add(&c.mul(&sb));
            c = self.reduce(c2);
            s = self.reduce(s2);
        }
        if k.n < 0 {
            s = s.neg();
        }
        (c, s)
    }
    fn base_sincos(&mut self, rf: &Rf, l: i128) -> (Rf, Rf) {
        let one = Rf::int(1);
        if let Some((n, a)) = self.unit_atom(rf) {
            let t = a.get(0).cloned().unwrap_or(Rf::int(0));
            match (n, l) {
                ("acos", 1) => {
                    let q = one.sub(&t.mul(&t));
                    let q = self.reduce(q);
                    let s = self.sqrt(&q);
                    return (t, s);
                }
                ("acos", 2) => {
                    let a = self.reduce(Self::half(&one.add(&t)));
                    let b = self.reduce(Self::half(&one.sub(&t)));
                    return (self.sqrt(&a), self.sqrt(&b));
                }
                ("asin", 1) => {
                    let q = one.sub(&t.mul(&t));
                    let q = self.reduce(q);
                    let c = self.sqrt(&q);
                    return (c, t);
                }
                ("atan", 1) => {
                    let q = one.add(&t.mul(&t));
                    let q = self.reduce(q);
                    let r = self.sqrt(&q);
                    let iv = self.inv(&r);
                    return (iv.clone(), t.mul(&iv));
                }
                ("atan2", 1) => {
                    let (y, x) = (t, a[1].clone());
                    let q = self.reduce(x.mul(&x).add(&y.mul(&y)));
                    let nz = q.sign_poly();
                    if self.known_nonzero(&nz) {
                        let r = self.sqrt(&q);
                        let iv = self.inv(&r);
                        return (x.mul(&iv), y.mul(&iv));
                    }
                }
                ("atan2", 2 | 3) => {
                    // r cos(l u) = x and r sin(l u) = y for u = atan2(y, x) / l
                    let (y, x) = (t, a[1].clone());
                    let q = self.reduce(x.mul(&x).add(&y.mul(&y)));
                    if self.known_nonzero(&q.sign_poly()) {
                        let r = self.sqrt(&q);
                        let iv = self.inv(&r);
                        let co = self.reduce(x.mul(&iv));
                        let arg = rf.scale(Rat::new(1, l));
                        let (ca, _) = self.fun_atom("cos", &[arg.clone()]);
                        let new = !self.rules.contains_key(&ca);
                        let c = Rf::poly(Poly::atom(ca));
                        let s = if l == 2 {
                            self.rules.insert(ca, (2, Self::half(&one.add(&co))));
                            self.square_atom("sin", &[arg], 2, Self::half(&one.sub(&co)))
                        } else {
                            self.rules.insert(ca, (3, co.add(&c.scale(Rat::int(3))).scale(Rat::new(1, 4))));
                            self.square_atom("sin", &[arg], 2, one.sub(&c.mul(&c)))
                        };
                        if new {
                            let m = if l == 2 { s.mul(&c).scale(Rat::int(2)) } else { s.mul(&c.mul(&c).scale(Rat::int(4)).sub(&one)) };
                            let e = self.reduce(m.mul(&r).sub(&y));
                            self.side.push(e.n);
                        }
                        return (c, s);
                    }
                }
                _ => {}
            }
        }
        let arg = rf.scale(Rat::new(1, l));
        let c = self.fun_rf("cos", &[arg.clone()]);
        let s = self.square_atom("sin", &[arg], 2, one.sub(&c.mul(&c)));
        (c, s)
    }
    pub fn known_nonzero(&mut self, p: &Poly) -> bool {
        if let Some(c) = p.is_const() {
            return !c.is_zero();
        }
        let ct = p.mono_content();
        let q = p.div_mono(&ct);
        let ok = |s: &mut Norm, p: &Poly| -> bool {
            if s.decide(&NF::Eq(p.monic().1)) == Some(false) {
                return true;
            }
            if p.0.len() == 1 {
                if let Some((m, _)) = p.0.iter().next() {
                    return m.0.iter().all(|&(a, _)| s.atom_nonzero(a, 3));
                }
            }
            s.positive(p, 2) || s.positive(&p.neg(), 2)
        };
        if ok(self, p) {
            return true;
        }
        for &(a, _) in &ct.0 {
            if !ok(self, &Poly::atom(a)) {
                return false;
            }
        }
        if let Some(c) = q.is_const() {
            return !c.is_zero();
        }
        if ok(self, &q) {
            return true;
        }
        // nonneg sum with a nonzero part: one term known nonzero
        if q.0.iter().all(|(m, c)| c.n > 0 && m.0.iter().all(|&(a, e)| e % 2 == 0 || self.atom_nonneg(a))) {
            for (m, _) in q.0.iter() {
                if m.0.iter().all(|&(a, _)| self.decide(&NF::Eq(Poly::atom(a))) == Some(false)) {
                    return true;
                }
            }
        }
        false
    }
    pub fn exp(&mut self, t: &Rf) -> Rf {
        let mut out = Rf::int(1);
        for (u, q) in self.split(t, true) {
            let rf = self.exps[u].rf.clone();
            let l = self.exps[u].l;
            let k = q * Rat::int(l);
            if !k.is_int() {
                continue; // restart pending
            }
            let base = match (self.unit_atom(&rf), l) {
                (Some(("ln", a)), 1) => a[0].clone(),
                (Some(("ln", a)), 2) => self.sqrt(&a[0]),
                _ => {
                    let arg = rf.scale(Rat::new(1, l));
                    self.fun_rf("exp", &[arg])
                }
            };
            let n = k.n.unsigned_abs() as u32;
            if n > 64 {
                std::panic::panic_any(TooBig);
            }
            let p = base.pow(n);
            let p = if k.n < 0 { self.inv(&p) } else { p };
            out = out.mul(&p);
        }
        self.reduce(out)
    }
    pub fn ln(&mut self, t: &Rf) -> Rf {
        if t.is_const() == Some(Rat::ONE) {
            return Rf::int(0);
        }
        // monomial over positive atoms: sum of logarithms
        let mut parts: Vec<(Atom, i64)> = vec![];
        if t.n.0.len() == 1 {
            let (m, c) = t.n.0.iter().next().unwrap();
            if c.n > 0 {
                let ok = m.0.iter().all(|x| self.atom_nonneg(x.0)) && t.d.iter().all(|f| f.0 .0.len() == 1 && f.0 .0.keys().all(|m| m.0.iter().all(|x| self.atom_nonneg(x.0))));
                if ok {
                    for &(a, e) in &m.0 {
                        parts.push((a, e as i64));
                    }
                    for (f, e) in &t.d {
                        for &(a, k) in &f.0.keys().next().unwrap().0 {
                            parts.push((a, -((e * k) as i64)));
                        }
                    }
                    let mut out = Rf::int(0);
                    if *c != Rat::ONE {
                        for (k, sg) in [(c.n, 1), (c.d, -1)] {
                            if k != 1 {
                                let l = self.fun_rf("ln", &[Rf::int(k)]);
                                out = out.add(&l.scale(Rat::int(sg)));
                            }
                        }
                    }
                    for (a, e) in parts {
                        let l = match self.atoms[a as usize].k.clone() {
                            Ak::Fun("exp", x) => x[0].clone(),
                            Ak::Fun("sqrt", x) => {
                                let l = self.ln(&x[0].clone());
                                Self::half(&l)
                            }
                            _ => self.fun_rf("ln", &[Rf::poly(Poly::atom(a))]),
                        };
                        out = out.add(&l.scale(Rat::int(e as i128)));
                    }
                    return out;
                }
            }
        }
        self.fun_rf("ln", &[t.clone()])
    }
    // ---------------------------------------------------------------- formulas
    pub fn nf(&mut self, f: &F<Sym>) -> NF {
        loop {
            self.restart = false;
            let r = self.nf_go(f);
            if !self.restart {
                return r;
            }
            self.refresh();
        }
    }
    fn scale_pos(p: Poly) -> Poly {
        if p.is_zero() {
            return p;
        }
        let c = p.lead().1.abs();
        p.scale(c.inv())
    }
    fn nf_go(&mut self, f: &F<Sym>) -> NF {
        match f {
            F::True => NF::B(true),
            F::False => NF::B(false),
            F::Eq(a, b) => {
                if a.0 == b.0 {
                    return NF::B(true);
                }
                let d = self.go(a.0).sub(&self.go(b.0));
                let d = self.reduce(d);
                match d.is_const() {
                    Some(c) => NF::B(c.is_zero()),
                    None => {
                        if let Some(c) = d.n.is_const() {
                            return NF::B(c.is_zero());
                        }
                        NF::Eq(d.n.monic().1)
                    }
                }
            }
            F::Lt(a, b) | F::Le(a, b) => {
                let strict = matches!(f, F::Lt(..));
                if a.0 == b.0 {
                    return NF::B(!strict);
                }
                let d = self.go(a.0).sub(&self.go(b.0));
                let d = self.reduce(d);
                let p = d.sign_poly();
                let q = self.reduce_poly(&p);
                let p = if q.d.is_empty() { q.n } else { q.sign_poly() };
                if let Some(c) = p.is_const() {
                    return NF::B(if strict { c.n < 0 } else { c.n <= 0 });
                }
                let mut p = Self::scale_pos(p);
                for _ in 0..3 {
                    match self.unsqrt(&p) {
                        Some(q) => p = Self::scale_pos(q),
                        None => break,
                    }
                    if let Some(c) = p.is_const() {
                        return NF::B(if strict { c.n < 0 } else { c.n <= 0 });
                    }
                }
                if strict {
                    if self.nonneg(&p) {
                        return NF::B(false);
                    }
                    NF::Lt(p)
                } else {
                    if self.nonneg(&p.neg()) {
                        return NF::B(true);
                    }
                    NF::Le(p)
                }
            }
            F::Pred(n, a) => {
                let args: Vec<Rf> = a.iter().map(|x| self.go(x.0)).collect();
                for i in 0..self.preds.len() {
                    if self.preds[i].0 == *n && self.preds[i].1.len() == args.len() {
                        let b = self.preds[i].1.clone();
                        if b.iter().zip(&args).all(|(x, y)| self.same(x, y)) {
                            return NF::Pred(i);
                        }
                        // the three closeness predicates are symmetric in their operands
                        if b.len() >= 3 && self.same(&b[0], &args[1]) && self.same(&b[1], &args[0]) && b[2..].iter().zip(&args[2..]).all(|(x, y)| self.same(x, y)) {
                            return NF::Pred(i);
                        }
                    }
                }
                self.preds.push((n, args));
                NF::Pred(self.preds.len() - 1)
            }
            F::Not(g) => not(self.nf_go(g)),
            F::And(v) => {
                let mut o = vec![];
                for g in v {
                    match self.nf_go(g) {
                        NF::B(true) => {}
                        NF::B(false) => return NF::B(false),
                        x => o.push(x),
                    }
                }
                match o.len() {
                    0 => NF::B(true),
                    1 => o.pop().unwrap(),
                    _ => NF::And(o),
                }
            }
            F::Or(v) => {
                let mut o = vec![];
                for g in v {
                    match self.nf_go(g) {
                        NF::B(false) => {}
                        NF::B(true) => return NF::B(true),
                        x => o.push(x),
                    }
                }
                match o.len() {
                    0 => NF::B(false),
                    1 => o.pop().unwrap(),
                    _ => NF::Or(o),
                }
            }
        }
    }
    /// decision from the recorded facts alone
    pub fn decide(&self, g: &NF) -> Option<bool> {
        match g {
            NF::B(b) => return Some(*b),
            NF::Not(x) => return self.decide(x).map(|b| !b),
            NF::And(v) => {
                let mut all = true;
                for x in v {
                    match self.decide(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                return if all { Some(true) } else { None };
            }
            NF::Or(v) => {
                let mut none = true;
                for x in v {
                    match self.decide(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                return if none { Some(false) } else { None };
            }
            _ => {}
        }
        let canon = |p: &Poly| p.monic();
        for f in &self.facts {
            match (f, g) {
                (NF::Pred(i), NF::Pred(j)) if i == j => return Some(true),
                (NF::Not(x), NF::Pred(j)) if matches!(**x, NF::Pred(i) if i == *j) => return Some(false),
                _ => {}
            }
            let (fp, fk) = match f {
                NF::Eq(p) => (p, 0),
                NF::Lt(p) => (p, 1),
                NF::Le(p) => (p, 2),
                NF::Not(x) => match &**x {
                    NF::Eq(p) => (p, 3),
                    _ => continue,
                },
                _ => continue,
            };
            let (gp, gk) = match g {
                NF::Eq(p) => (p, 0),
                NF::Lt(p) => (p, 1),
                NF::Le(p) => (p, 2),
                _ => continue,
            };
            if fp.0.len() != gp.0.len() {
                continue;
            }
            let (c1, m1) = canon(fp);
            let (c2, m2) = canon(gp);
            if m1 != m2 {
                continue;
            }
            let same_dir = (c1.n > 0) == (c2.n > 0);
            let r = match (fk, gk, same_dir) {
                (0, 0, _) | (0, 2, _) => Some(true),
                (0, 1, _) => Some(false),
                (1, 0, _) => Some(false),
                (1, _, true) => Some(true),
                (1, _, false) => Some(false),
                (2, 2, true) => Some(true),
                (2, 1, false) => Some(false),
                (3, 0, _) => Some(false),
                _ => None,
            };
            if r.is_some() {
                return r;
            }
        }
        None
    }
    /// p is a combination of the equations on the path, with monomial multipliers
    pub fn in_span(&mut self, p: &Poly) -> bool {
        let mut eqs: Vec<Poly> = self.facts.iter().filter_map(|f| if let NF::Eq(q) = f { Some(q.clone()) } else { None }).filter(|q| q.0.len() <= 60).collect();
        for q in self.side.clone() {
            eqs.push(self.reduce_poly(&q).n);
        }
        let mut p = p.clone();
        if !self.defs.is_empty() {
            let run = std::panic::AssertUnwindSafe(|| {
                let mut all = vec![self.unfold(&p)];
                for e in &eqs {
                    all.push(self.unfold(e));
                }
                all
            });
            if let Ok(mut all) = std::panic::catch_unwind(run) {
                p = all.remove(0);
                eqs = all.into_iter().filter(|q| !q.is_zero() && q.0.len() <= 60).collect();
            }
            if p.is_zero() {
                return true;
            }
        }
        let run = std::panic::AssertUnwindSafe(|| self.divide(&p, &eqs));
        if let Ok(true) = std::panic::catch_unwind(run) {
            return true;
        }
        let p = &p;
        if eqs.is_empty() || p.0.len() > 400 {
            return false;
        }
        let run = std::panic::AssertUnwindSafe(|| self.span(p, &eqs));
        std::panic::catch_unwind(run).unwrap_or(false)
    }
    /// ideal membership: the goal follows from the path equations and the rewrite rules
    pub fn in_ideal(&mut self, p: &Poly) -> bool {
        let mut eqs: Vec<Poly> = self.facts.iter().filter_map(|f| if let NF::Eq(q) = f { Some(q.clone()) } else { None }).collect();
        eqs.extend(self.side.iter().cloned());
        let mut rules: Vec<(Atom, Poly)> = vec![];
        for (a, (pw, r)) in &self.rules {
            let l = Poly::mono(Mono(vec![(*a, *pw)]), Rat::ONE);
            let run = std::panic::AssertUnwindSafe(|| l.mul(&r.den_poly()).sub(&r.n));
            if let Ok(q) = std::panic::catch_unwind(run) {
                rules.push((*a, q));
            }
        }
        rules.sort_by_key(|x| x.0);
        eqs.extend(rules.into_iter().map(|x| x.1));
        eqs.retain(|q| !q.is_zero() && q.0.len() <= 60);
        // the equations connected to the goal
        let mut seen: Vec<Atom> = vec![];
        p.atoms(&mut seen);
        let mut use_: Vec<Poly> = vec![];
        loop {
            let mut more = false;
            eqs.retain(|q| {
                let mut v = vec![];
                q.atoms(&mut v);
                if v.iter().any(|a| seen.contains(a)) {
                    for a in v {
                        if !seen.contains(&a) {
                            seen.push(a);
                        }
                    }
                    use_.push(q.clone());
                    more = true;
                    false
                } else {
                    true
                }
            });
            if !more {
                break;
            }
        }
        if use_.len() < 2 || use_.len() > 30 || p.0.len() > 600 {
            return false;
        }
        let run = std::panic::AssertUnwindSafe(|| crate::groebner::member(p, &use_, std::time::Duration::from_millis(1500)));
        std::panic::catch_unwind(run).unwrap_or(false)
    }
    /// division by the short equations, each headed by its monomial of highest degree
    fn divide(&mut self, p: &Poly, eqs: &[Poly]) -> bool {
        let deg = |m: &Mono| m.0.iter().map(|x| x.1).sum::<u32>();
        let rules: Vec<(Mono, Poly)> = eqs
            .iter()
            .filter(|q| q.0.len() <= 8)
            .filter_map(|q| {
                let (m, c) = q.0.iter().max_by_key(|x| deg(x.0))?;
                if q.0.keys().filter(|k| deg(k) == deg(m)).count() > 1 {
                    return None;
                }
                let mut rest = q.clone();
                rest.0.remove(m);
                Some((m.clone(), rest.scale(-c.inv())))
            })
            .collect();
        if rules.is_empty() {
            return false;
        }
        let mut p = p.clone();
        for _ in 0..40 {
            let mut out = Poly::zero();
            let mut changed = false;
            for (m, c) in &p.0 {
                match rules.iter().find_map(|(h, r)| m.div(h).map(|k| (k, r))) {
                    Some((k, r)) => {
                        changed = true;
                        out = out.add(&r.mul_mono(&k, *c));
                    }
                    None => out.add_term(m.clone(), *c),
                }
            }
            p = self.reduce_poly(&out).n;
            if p.is_zero() {
                return true;
            }
            if !changed {
                return false;
            }
        }
        false
    }
    /// named values replaced by their definitions; the numerator of the result
    fn unfold(&mut self, p: &Poly) -> Poly {
        let defs = self.defs.clone();
        let mut out = Rf::konst(Rat::ZERO);
        for (m, c) in &p.0 {
            let mut t = Rf::konst(*c);
            for (a, e) in &m.0 {
                match defs.iter().find(|d| d.0 == *a) {
                    Some((_, r)) => t = t.mul(&r.pow(*e)),
                    None => t = t.mul(&Rf::poly(Poly::mono(Mono(vec![(*a, *e)]), Rat::ONE))),
                }
            }
            out = out.add(&t);
        }
        self.reduce(out).n
    }
    fn span(&mut self, p: &Poly, eqs: &[Poly]) -> bool {
        let deg = p.total_degree();
        let mut basis: HashMap<Mono, Poly> = HashMap::new();
        let mut rows = 0;
        fn cancel(q: &mut Poly, basis: &HashMap<Mono, Poly>) -> bool {
            while !q.is_zero() {
                let (m, c) = {
                    let l = q.lead();
                    (l.0.clone(), l.1)
                };
                match basis.get(&m) {
                    Some(b) => *q = q.sub(&b.scale(c)),
                    None => return false,
                }
            }
            true
        }
        let mut goal = p.clone();
        for level in 0..3u32 {
            for f in eqs {
                let fd = f.total_degree();
                let mut mult: Vec<Mono> = vec![];
                for mf in f.0.keys() {
                    for mg in p.0.keys() {
                        if let Some(m) = mg.div(mf) {
                            let d: u32 = m.0.iter().map(|x| x.1).sum();
                            if d == level && fd + d <= deg + 1 && !mult.contains(&m) {
                                mult.push(m);
                            }
                        }
                    }
                }
                for m in mult {
                    rows += 1;
                    if rows > 3000 {
                        return false;
                    }
                    let r = self.reduce_poly(&f.mul_mono(&m, Rat::ONE));
                    let mut q = r.n;
                    if !cancel(&mut q, &basis) {
                        let q = q.monic().1;
                        let l = q.lead().0.clone();
                        basis.insert(l, q);
                    }
                }
            }
            if cancel(&mut goal, &basis) {
                return true;
            }
            // a later level may supply the missing leading monomials
            goal = p.clone();
        }
        false
    }
    fn deep_atoms(&self, p: &Poly, out: &mut Vec<Atom>) {
        let mut v = vec![];
        p.atoms(&mut v);
        for a in v {
            if out.contains(&a) {
                continue;
            }
            out.push(a);
            if let Ak::Fun(_, args) = &self.atoms[a as usize].k {
                for r in args {
                    self.deep_atoms(&r.n, out);
                    for (q, _) in &r.d {
                        self.deep_atoms(q, out);
                    }
                }
            }
        }
    }
    fn nf_atoms(&self, n: &NF, out: &mut Vec<Atom>) {
        match n {
            NF::B(_) => {}
            NF::Eq(p) | NF::Lt(p) | NF::Le(p) => self.deep_atoms(p, out),
            NF::Pred(i) => {
                for r in &self.preds[*i].1 {
                    self.deep_atoms(&r.n, out);
                    for (q, _) in &r.d {
                        self.deep_atoms(q, out);
                    }
                }
            }
            NF::Not(x) => self.nf_atoms(x, out),
            NF::And(v) | NF::Or(v) => {
                for x in v {
                    self.nf_atoms(x, out)
                }
            }
        }
    }
    /// both outcomes of the test are obviously possible: it compares a variable that no fact
    /// on the path mentions (a sufficient test; the solver is asked otherwise)
    pub fn free_branch(&self, n: &NF) -> bool {
        let mut used = vec![];
        for f in &self.facts {
            self.nf_atoms(f, &mut used);
        }
        for (a, (pw, rhs)) in &self.rules {
            if *pw != 1 {
                used.push(*a);
                self.deep_atoms(&rhs.n, &mut used);
            }
        }
        match n {
            NF::Not(x) => self.free_branch(x),
            NF::Pred(_) => {
                let mut v = vec![];
                self.nf_atoms(n, &mut v);
                v.iter().any(|a| matches!(self.atoms[*a as usize].k, Ak::Var(_)) && !used.contains(a))
            }
            NF::Eq(p) | NF::Lt(p) | NF::Le(p) => {
                let mut v = vec![];
                p.atoms(&mut v);
                v.iter().any(|&a| {
                    matches!(self.atoms[a as usize].k, Ak::Var(_))
                        && !used.contains(&a)
                        && p.0.contains_key(&Mono(vec![(a, 1)]))
                        && p.0.keys().filter(|k| k.exp(a) > 0).count() == 1
                        && !v.iter().any(|&b| b != a && self.depends(b, a))
                })
            }
            _ => false,
        }
    }
    pub fn add_hyp(&mut self, f: F<Sym>) {
        self.add_hyp_as(f, false)
    }
    /// `plain`: an equation is kept as a fact and not used for rewriting
    pub fn add_hyp_as(&mut self, f: F<Sym>, plain: bool) {
        let n = self.nf(&f);
        self.hyps.push((f, plain));
        let e = self.epoch;
        self.plain = plain;
        self.record(n);
        self.plain = false;
        if e != self.epoch {
            self.refresh();
        }
    }
    fn rebuild_facts(&mut self) {
        let hyps = std::mem::take(&mut self.hyps);
        self.facts.clear();
        for (h, plain) in &hyps {
            let n = self.nf_go(h);
            self.plain = *plain;
            self.record(n);
            self.plain = false;
        }
        self.hyps = hyps;
    }
    fn record(&mut self, n: NF) {
        match n {
            NF::B(true) => {}
            NF::B(false) => self.inconsistent = true,
            NF::And(v) => {
                for x in v {
                    self.record(x);
                }
            }
            NF::Eq(p) if definite(&p) => {
                // a sum of squares of monomials is zero only if each of them is
                for m in p.0.keys() {
                    let h = Mono(m.0.iter().map(|&(a, e)| (a, e / 2)).collect());
                    if h.0.len() == 1 {
                        let q = Poly::atom(h.0[0].0);
                        self.record(NF::Eq(q));
                    } else {
                        self.facts.push(NF::Eq(Poly::mono(h, Rat::ONE)));
                    }
                }
            }
            NF::Eq(p) => {
                if (self.plain || !self.try_rule(&p)) && !self.facts.contains(&NF::Eq(p.clone())) {
                    self.facts.push(NF::Eq(p));
                }
            }
            n @ (NF::Lt(_) | NF::Le(_)) => {
                if self.decide(&n) != Some(true) {
                    self.facts.push(n);
                    self.epoch += 1; // sign facts can simplify |x|
                    self.memo.clear();
                }
            }
            n => {
                if self.decide(&n) != Some(true) {
                    self.facts.push(n);
                }
            }
        }
    }
    /// turns p = 0 into a rewrite rule v -> rhs or v^2 -> rhs when that is possible
    fn try_rule(&mut self, p: &Poly) -> bool {
        let mut atoms = vec![];
        p.atoms(&mut atoms);
        atoms.sort();
        // only variables (and uninterpreted function atoms without a rule) may be eliminated
        let free = |s: &Norm, a: Atom| !s.rules.contains_key(&a) && matches!(s.atoms[a as usize].k, Ak::Var(_));
        for pw in [1u32, 2] {
            for &a in atoms.iter().rev() {
                if !free(self, a) || p.degree_in(a) != pw {
                    continue;
                }
                let m = Mono(vec![(a, pw)]);
                let c = match p.0.get(&m) {
                    Some(c) => *c,
                    None => continue,
                };
                // every other occurrence of a must be absent
                if p.0.keys().any(|k| *k != m && k.exp(a) > 0) {
                    continue;
                }
                // no remaining atom may depend on a through a function argument
                let mut rest = p.clone();
                rest.0.remove(&m);
                let mut ra = vec![];
                rest.atoms(&mut ra);
                if ra.iter().any(|x| self.depends(*x, a)) {
                    continue;
                }
                let rhs = Rf::poly(rest.scale(-c.inv()));
                self.rules.insert(a, (pw, rhs));
                self.epoch += 1;
                self.memo.clear();
                return true;
            }
        }
        false
    }
    fn depends(&self, x: Atom, a: Atom) -> bool {
        if x == a {
            return true;
        }
        match &self.atoms[x as usize].k {
            Ak::Fun(_, args) => args.iter().any(|r| {
                let mut v = vec![];
                r.atoms(&mut v);
                v.iter().any(|y| self.depends(*y, a))
            }),
            _ => false,
        }
    }
    pub fn show_poly(&self, p: &Poly) -> String {
        let mut o = String::new();
        for (i, (m, c)) in p.0.iter().rev().enumerate() {
            if i > 12 {
                o.push_str(" + ...");
                break;
            }
            if i > 0 {
                o.push_str(" + ");
            }
            o.push_str(&format!("{}", c));
            for &(a, e) in &m.0 {
                o.push_str(&format!("*{}", self.atom_name(a)));
                if e > 1 {
                    o.push_str(&format!("^{}", e));
                }
            }
        }
        if o.is_empty() {
            o.push('0');
        }
        o
    }
    pub fn atom_name(&self, a: Atom) -> String {
        match &self.atoms[a as usize].k {
            Ak::Var(i) => term::CTX.with(|c| c.borrow().vars[*i as usize].clone()),
            Ak::Opaque(b) => format!("{:e}", f64::from_bits(*b)),
            Ak::Fun(n, args) => {
                if args.is_empty() {
                    n.to_string()
                } else {
                    format!("{}({})", n, args.iter().map(|r| if r.d.is_empty() { self.show_poly(&r.n) } else { format!("({})/({})", self.show_poly(&r.n), self.show_poly(&r.den_poly())) }).collect::<Vec<_>>().join(", "))
                }
            }
        }
    }
}
