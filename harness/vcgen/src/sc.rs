//! The contract language. A contract is a function generic in the scalar: at `Sym` it is
//! verified for all inputs, at `f64` the same text replays counterexamples on the real code.
use crate::engine::{self, Infeasible};
use crate::rat::Rat;
use crate::term::{self, Sym, F};
use cglinalg_core::*;
use cglinalg_numeric::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gen {
    Real,
    Pos,
    NonNeg,
    NonZero,
    Angle,
    Unit01,
}
pub struct Skip;

pub struct Cx<S> {
    pub vals: HashMap<String, f64>,
    pub used: Vec<(String, f64)>,
    pub rng: u64,
    pub specials: Vec<f64>,
    pub fails: Vec<String>,
    pub checked: u64,
    pub site: String,
    pub scale: f64,
    _p: std::marker::PhantomData<S>,
}
impl<S> Cx<S> {
    pub fn new(seed: u64) -> Self {
        Cx { vals: HashMap::new(), used: vec![], rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, specials: vec![], fails: vec![], checked: 0, site: "contract".into(), scale: 1.0, _p: std::marker::PhantomData }
    }
    pub fn next(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn unif(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub trait Sc: SimdScalarFloat + 'static {
    const SYMBOLIC: bool;
    fn mk(cx: &mut Cx<Self>, name: &str, g: Gen) -> Self;
    fn requires(cx: &mut Cx<Self>, f: F<Self>);
    fn ensures(cx: &mut Cx<Self>, name: &str, f: F<Self>);
    fn ensures_known(cx: &mut Cx<Self>, name: &str, f: F<Self>, id: &str, dev: F<Self>);
    fn enter(cx: &mut Cx<Self>, site: &str) -> String;
    fn leave(cx: &mut Cx<Self>, old: String);
    /// a length-n vector of unit norm
    fn unit_vec(cx: &mut Cx<Self>, name: &str, n: usize) -> Vec<Self>;
    fn q(n: i64, d: i64) -> Self;
    fn control(p: &Box<dyn std::any::Any + Send>) -> bool;
    /// an ulps tolerance, both as the comparison traits take it and as a scalar
    fn ulps(cx: &mut Cx<Self>, name: &str) -> (Self::IntegerRepr, Self);
    fn ulps_val(u: Self::IntegerRepr) -> Self;
    /// the library's default comparison tolerances as scalars
    fn eps() -> Self;
    fn default_ulps() -> Self;
    fn requires_plain(cx: &mut Cx<Self>, f: F<Self>);
    fn lemma(cx: &mut Cx<Self>, name: &str, f: F<Self>);
    fn cut(cx: &mut Cx<Self>, name: &str, ts: &[Self], keep: u8, facts: &dyn Fn(&[Self]) -> Vec<F<Self>>);
    fn zero_squares(cx: &mut Cx<Self>, name: &str, ts: &[Self]);
    fn lazy(cx: &mut Cx<Self>, on: bool);
    fn few(cx: &mut Cx<Self>, k: u32);
    fn finite(cx: &mut Cx<Self>);
}
impl Sc for Sym {
    const SYMBOLIC: bool = true;
    fn mk(_: &mut Cx<Sym>, name: &str, g: Gen) -> Sym {
        let v = term::var(name);
        let z = Sym(0);
        match g {
            Gen::Real | Gen::Angle => {}
            Gen::Pos => engine::requires(F::Lt(z, v)),
            Gen::NonNeg => engine::requires(F::Le(z, v)),
            Gen::NonZero => engine::requires(F::Not(Box::new(F::Eq(v, z)))),
            Gen::Unit01 => {
                engine::requires(F::Le(z, v));
                engine::requires(F::Le(v, Sym(1)));
            }
        }
        v
    }
    fn requires(_: &mut Cx<Sym>, f: F<Sym>) {
        engine::requires(f)
    }
    fn ensures(_: &mut Cx<Sym>, name: &str, f: F<Sym>) {
        engine::ensures(name, f)
    }
    fn ensures_known(_: &mut Cx<Sym>, name: &str, f: F<Sym>, id: &str, dev: F<Sym>) {
        engine::ensures_known(name, f, id, dev)
    }
    fn enter(_: &mut Cx<Sym>, site: &str) -> String {
        engine::with(|e| {
            *e.sites.entry(site.to_string()).or_insert(0) += 1;
            std::mem::replace(&mut e.site, site.to_string())
        })
    }
    fn leave(_: &mut Cx<Sym>, old: String) {
        let _ = old; // the last function called names the obligations that follow
    }
    fn unit_vec(_: &mut Cx<Sym>, name: &str, n: usize) -> Vec<Sym> {
        let v: Vec<Sym> = (0..n).map(|i| term::var(&format!("{}{}", name, i))).collect();
        let mut s = Sym(0);
        for x in &v {
            s = s + *x * *x;
        }
        engine::requires(F::Eq(s, Sym(1)));
        v
    }
    fn q(n: i64, d: i64) -> Sym {
        term::konst(Rat::new(n as i128, d as i128))
    }
    fn control(p: &Box<dyn std::any::Any + Send>) -> bool {
        p.is::<Infeasible>() || p.is::<engine::Limit>() || p.is::<crate::rat::EngineOverflow>() || p.is::<crate::poly::TooBig>()
    }
    fn ulps(_: &mut Cx<Sym>, name: &str) -> (Sym, Sym) {
        let v = term::var(name);
        (v, v)
    }
    fn ulps_val(u: Sym) -> Sym {
        u
    }
    fn eps() -> Sym {
        Sym::default_epsilon()
    }
    fn default_ulps() -> Sym {
        Sym::default_max_ulps()
    }
    fn requires_plain(_: &mut Cx<Sym>, f: F<Sym>) {
        engine::requires_plain(f)
    }
    fn lemma(_: &mut Cx<Sym>, name: &str, f: F<Sym>) {
        engine::lemma(name, f)
    }
    fn cut(_: &mut Cx<Sym>, name: &str, ts: &[Sym], keep: u8, facts: &dyn Fn(&[Sym]) -> Vec<F<Sym>>) {
        engine::cut(name, ts, keep, facts)
    }
    fn zero_squares(_: &mut Cx<Sym>, name: &str, ts: &[Sym]) {
        engine::zero_squares(name, ts)
    }
    fn lazy(_: &mut Cx<Sym>, on: bool) {
        engine::lazy(on)
    }
    fn few(_: &mut Cx<Sym>, k: u32) {
        engine::few(k)
    }
    fn finite(_: &mut Cx<Sym>) {
        engine::with(|e| e.nm.finite = true)
    }
}
impl Sc for f64 {
    const SYMBOLIC: bool = false;
    fn mk(cx: &mut Cx<f64>, name: &str, g: Gen) -> f64 {
        let v = if let Some(v) = cx.vals.get(name) {
            *v
        } else {
            let k = cx.next() % 16;
            let base = if k < 2 && !cx.specials.is_empty() {
                let i = cx.next() as usize % cx.specials.len();
                cx.specials[i]
            } else if k < 5 {
                [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0][cx.next() as usize % 8]
            } else if k < 7 {
                ((cx.next() % 13) as f64) - 6.0
            } else {
                (cx.unif() * 2.0 - 1.0) * 4.0
            };
            let base = if matches!(g, Gen::Angle | Gen::Unit01) { base } else { base * cx.scale };
            match g {
                Gen::Real | Gen::Angle => base,
                Gen::Pos => {
                    if base == 0.0 {
                        0.75
                    } else {
                        base.abs()
                    }
                }
                Gen::NonNeg => base.abs(),
                Gen::NonZero => {
                    if base == 0.0 {
                        1.25
                    } else {
                        base
                    }
                }
                Gen::Unit01 => {
                    if base.abs() <= 1.0 {
                        base.abs()
                    } else {
                        base.abs().fract()
                    }
                }
            }
        };
        cx.used.push((name.to_string(), v));
        let ok = match g {
            Gen::Pos => v > 0.0,
            Gen::NonNeg => v >= 0.0,
            Gen::NonZero => v != 0.0,
            Gen::Unit01 => (0.0..=1.0).contains(&v),
            _ => true,
        };
        if !ok {
            std::panic::panic_any(Skip);
        }
        v
    }
    fn requires(_: &mut Cx<f64>, f: F<f64>) {
        if !eval(&f, 1e-9, true) {
            std::panic::panic_any(Skip);
        }
    }
    fn ensures(cx: &mut Cx<f64>, name: &str, f: F<f64>) {
        cx.checked += 1;
        if !eval(&f, 1e-5, true) {
            let s = format!("{}: {}: {}", cx.site, name, show_f64(&f));
            cx.fails.push(s);
        }
    }
    fn ensures_known(cx: &mut Cx<f64>, name: &str, f: F<f64>, _: &str, dev: F<f64>) {
        cx.checked += 1;
        if !eval(&f, 1e-5, true) && !eval(&dev, 1e-5, true) {
            let s = format!("{}: {}: {}", cx.site, name, show_f64(&f));
            cx.fails.push(s);
        }
    }
    fn enter(cx: &mut Cx<f64>, site: &str) -> String {
        std::mem::replace(&mut cx.site, site.to_string())
    }
    fn leave(_: &mut Cx<f64>, _: String) {}
    fn unit_vec(cx: &mut Cx<f64>, name: &str, n: usize) -> Vec<f64> {
        let mut v: Vec<f64> = vec![];
        for i in 0..n {
            let nm = format!("{}{}", name, i);
            let x = match cx.vals.get(&nm) {
                Some(x) => *x,
                None => f64::mk(cx, &nm, Gen::Real),
            };
            cx.used.retain(|u| u.0 != nm);
            v.push(x);
        }
        let mut l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if !(l > 1e-9) {
            v[0] = 1.0;
            l = 1.0;
        }
        for (i, x) in v.iter_mut().enumerate() {
            *x /= l;
            cx.used.push((format!("{}{}", name, i), *x));
        }
        v
    }
    fn q(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn control(p: &Box<dyn std::any::Any + Send>) -> bool {
        p.is::<Skip>()
    }
    fn ulps(cx: &mut Cx<f64>, name: &str) -> (u64, f64) {
        let v = match cx.vals.get(name) {
            Some(v) => v.abs().min(1e6) as u64,
            None => (cx.next() % 8) as u64,
        };
        cx.used.push((name.to_string(), v as f64));
        (v, v as f64)
    }
    fn ulps_val(u: u64) -> f64 {
        u as f64
    }
    fn eps() -> f64 {
        f64::default_epsilon()
    }
    fn default_ulps() -> f64 {
        f64::default_max_ulps() as f64
    }
    fn requires_plain(cx: &mut Cx<f64>, f: F<f64>) {
        Self::requires(cx, f)
    }
    fn lemma(cx: &mut Cx<f64>, name: &str, f: F<f64>) {
        cx.ensures(name, f)
    }
    fn cut(cx: &mut Cx<f64>, name: &str, ts: &[f64], _: u8, facts: &dyn Fn(&[f64]) -> Vec<F<f64>>) {
        for f in facts(ts) {
            cx.ensures(name, f)
        }
    }
    fn zero_squares(_: &mut Cx<f64>, _: &str, _: &[f64]) {}
    fn lazy(_: &mut Cx<f64>, _: bool) {}
    fn few(_: &mut Cx<f64>, _: u32) {}
    fn finite(_: &mut Cx<f64>) {}
}
/// `lenient`: the tolerance works in favour of the formula (and against its negations)
pub fn eval(f: &F<f64>, tol: f64, lenient: bool) -> bool {
    let sl = |a: f64, b: f64| if lenient { tol * 1f64.max(a.abs()).max(b.abs()) } else { 0.0 };
    match f {
        F::True => true,
        F::False => false,
        F::Eq(a, b) => a == b || (a - b).abs() <= sl(*a, *b),
        F::Lt(a, b) => *a < *b || (lenient && tol > 1e-7 && *a < *b + sl(*a, *b)),
        F::Le(a, b) => *a <= *b + sl(*a, *b),
        F::Pred(n, a) => match (*n, a.len()) {
            ("abs_diff_eq", 3) => approx_cmp::AbsDiffEq::abs_diff_eq(&a[0], &a[1], &a[2]),
            ("relative_eq", 4) => approx_cmp::RelativeEq::relative_eq(&a[0], &a[1], &a[2], &a[3]),
            ("ulps_eq", 4) => approx_cmp::UlpsEq::ulps_eq(&a[0], &a[1], &a[2], &(a[3] as u64)),
            ("is_finite", 1) => a[0].is_finite(),
            ("is_nan", 1) => a[0].is_nan(),
            ("is_infinite", 1) => a[0].is_infinite(),
            ("is_normal", 1) => a[0].is_normal(),
            ("is_subnormal", 1) => a[0].is_subnormal(),
            _ => panic!("predicate {}", n),
        },
        F::Not(g) => !eval(g, tol, !lenient),
        F::And(v) => v.iter().all(|g| eval(g, tol, lenient)),
        F::Or(v) => v.iter().any(|g| eval(g, tol, lenient)),
    }
}
pub fn show_f64(f: &F<f64>) -> String {
    match f {
        F::Eq(a, b) => format!("{:?} == {:?}", a, b),
        F::Lt(a, b) => format!("{:?} < {:?}", a, b),
        F::Le(a, b) => format!("{:?} <= {:?}", a, b),
        F::And(v) => match v.iter().enumerate().find(|(_, g)| !eval(g, 1e-5, true)) {
            Some((i, g)) => format!("#{} {}", i, show_f64(g)),
            None => "true".into(),
        },
        F::Or(v) => v.iter().map(show_f64).collect::<Vec<_>>().join(" or "),
        F::Not(g) => format!("not ({})", show_f64(g)),
        F::Pred(n, a) => format!("{}({:?})", n, a),
        F::True => "true".into(),
        F::False => "false".into(),
    }
}
pub fn show_f(f: &F<Sym>) -> String {
    match f {
        F::Eq(a, b) => format!("{} == {}", term::show(*a, 8), term::show(*b, 8)),
        F::Lt(a, b) => format!("{} < {}", term::show(*a, 8), term::show(*b, 8)),
        F::Le(a, b) => format!("{} <= {}", term::show(*a, 8), term::show(*b, 8)),
        F::Pred(n, a) => format!("{}({})", n, a.iter().map(|x| term::show(*x, 6)).collect::<Vec<_>>().join(", ")),
        F::Not(g) => format!("not {}", show_f(g)),
        F::And(v) => v.iter().map(show_f).collect::<Vec<_>>().join(" and "),
        F::Or(v) => v.iter().map(show_f).collect::<Vec<_>>().join(" or "),
        F::True => "true".into(),
        F::False => "false".into(),
    }
}

// ------------------------------------------------------------------ formula builders
pub fn eq<S>(a: S, b: S) -> F<S> {
    F::Eq(a, b)
}
pub fn ne<S>(a: S, b: S) -> F<S> {
    F::Not(Box::new(F::Eq(a, b)))
}
pub fn lt<S>(a: S, b: S) -> F<S> {
    F::Lt(a, b)
}
pub fn le<S>(a: S, b: S) -> F<S> {
    F::Le(a, b)
}
pub fn nt<S>(f: F<S>) -> F<S> {
    F::Not(Box::new(f))
}
pub fn and<S>(v: Vec<F<S>>) -> F<S> {
    F::And(v)
}
pub fn or<S>(v: Vec<F<S>>) -> F<S> {
    F::Or(v)
}
pub fn imp<S>(a: F<S>, b: F<S>) -> F<S> {
    F::Or(vec![nt(a), b])
}
pub fn iff<S: Clone>(a: F<S>, b: F<S>) -> F<S> {
    F::And(vec![F::Or(vec![nt(a.clone()), b.clone()]), F::Or(vec![a, nt(b)])])
}
/// a computed boolean as a formula
pub fn is<S>(b: bool) -> F<S> {
    if b {
        F::True
    } else {
        F::False
    }
}
/// entrywise equality of two sequences
pub fn all_eq<S: Copy>(a: &[S], b: &[S]) -> F<S> {
    if a.len() != b.len() {
        return F::False;
    }
    F::And(a.iter().zip(b).map(|(x, y)| F::Eq(*x, *y)).collect())
}

impl<S: Sc> Cx<S> {
    pub fn v(&mut self, name: &str) -> S {
        S::mk(self, name, Gen::Real)
    }
    pub fn pos(&mut self, name: &str) -> S {
        S::mk(self, name, Gen::Pos)
    }
    pub fn nonzero(&mut self, name: &str) -> S {
        S::mk(self, name, Gen::NonZero)
    }
    pub fn unit01(&mut self, name: &str) -> S {
        S::mk(self, name, Gen::Unit01)
    }
    pub fn angle(&mut self, name: &str) -> S {
        S::mk(self, name, Gen::Angle)
    }
    pub fn vs(&mut self, name: &str, n: usize) -> Vec<S> {
        (0..n).map(|i| self.v(&format!("{}{}", name, i))).collect()
    }
    pub fn arr<const N: usize>(&mut self, name: &str) -> [S; N] {
        let v = self.vs(name, N);
        std::array::from_fn(|i| v[i])
    }
    pub fn vec<const N: usize>(&mut self, name: &str) -> Vector<S, N> {
        Vector::from(self.arr::<N>(name))
    }
    pub fn point<const N: usize>(&mut self, name: &str) -> Point<S, N> {
        Point::from(self.arr::<N>(name))
    }
    pub fn mat<const R: usize, const C: usize>(&mut self, name: &str) -> Matrix<S, R, C> {
        let mut d = [[S::zero(); R]; C];
        for c in 0..C {
            for r in 0..R {
                d[c][r] = self.v(&format!("{}{}{}", name, r, c));
            }
        }
        Matrix::from(d)
    }
    pub fn quat(&mut self, name: &str) -> Quaternion<S> {
        let a = self.arr::<4>(name);
        Quaternion::new(a[0], a[1], a[2], a[3])
    }
    pub fn complex(&mut self, name: &str) -> Complex<S> {
        let a = self.arr::<2>(name);
        Complex::new(a[0], a[1])
    }
    pub fn uvec<const N: usize>(&mut self, name: &str) -> Vector<S, N> {
        let v = S::unit_vec(self, name, N);
        Vector::from(std::array::from_fn::<S, N, _>(|i| v[i]))
    }
    pub fn requires(&mut self, f: F<S>) {
        S::requires(self, f)
    }
    /// as `requires`, with equations kept for the solver instead of used for rewriting
    pub fn requires_plain(&mut self, f: F<S>) {
        S::requires_plain(self, f)
    }
    pub fn ensures(&mut self, name: &str, f: F<S>) {
        S::ensures(self, name, f)
    }
    /// `f`, or the deviation recorded as known finding `id`
    pub fn ensures_known(&mut self, name: &str, f: F<S>, id: &str, dev: F<S>) {
        S::ensures_known(self, name, f, id, dev)
    }
    /// an intermediate fact: proved, then used by the obligations that follow
    pub fn lemma(&mut self, name: &str, f: F<S>) {
        S::lemma(self, name, f)
    }
    /// proves the facts about the terms, then keeps only these facts about them
    pub fn cut(&mut self, name: &str, ts: &[S], facts: impl Fn(&[S]) -> Vec<F<S>>) {
        S::cut(self, name, ts, 0, &facts)
    }
    /// the same, with the facts that are equations used as rewrite rules
    pub fn cut_rules(&mut self, name: &str, ts: &[S], facts: impl Fn(&[S]) -> Vec<F<S>>) {
        S::cut(self, name, ts, 1, &facts)
    }
    /// names the terms and the facts about them; their definitions stay available to the
    /// linear-span back end only
    pub fn name(&mut self, name: &str, ts: &[S], facts: impl Fn(&[S]) -> Vec<F<S>>) {
        S::cut(self, name, ts, 2, &facts)
    }
    pub fn zero_squares(&mut self, name: &str, ts: &[S]) {
        S::zero_squares(self, name, ts)
    }
    /// every scalar is a number: none is infinite or not a number
    pub fn finite(&mut self) {
        S::finite(self)
    }
    /// quick tier: at most `k` comparison predicates fail on a path
    pub fn few(&mut self, k: u32) {
        S::few(self, k)
    }
    pub fn lazy(&mut self, on: bool) {
        S::lazy(self, on)
    }
    pub fn call<R>(&mut self, site: &str, f: impl FnOnce() -> R) -> R {
        let old = S::enter(self, site);
        let r = f();
        S::leave(self, old);
        r
    }
    /// the call must panic
    pub fn must_panic<R>(&mut self, site: &str, f: impl FnOnce() -> R) {
        S::enter(self, site);
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(_) => self.ensures("panics", F::False),
            Err(p) if S::control(&p) => resume_unwind(p),
            Err(_) => self.ensures("panics", F::True),
        }
    }
    /// a computed boolean agrees with a specification formula
    pub fn agrees(&mut self, name: &str, b: bool, f: F<S>) {
        self.ensures(name, if b { f } else { nt(f) })
    }
}
