//! Symbolic scalars. `Sym` is a handle into a thread-local, hash-consed term arena and
//! implements every scalar trait of cglinalg, so the repository's generic code runs on it
//! unchanged: executing the compiled function at `S = Sym` yields, on each path, the exact
//! real-number term it computes.
use crate::engine;
use crate::rat::Rat;
use cglinalg_numeric::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Fun(&'static str, Vec<u32>),
    /// An f64 constant with no recognised closed form (its bits).
    Opaque(u64),
}

/// Formulas over symbolic (or concrete) scalars.
#[derive(Clone, Debug)]
pub enum F<S> {
    True,
    False,
    Eq(S, S),
    Lt(S, S),
    Le(S, S),
    Pred(&'static str, Vec<S>),
    Not(Box<F<S>>),
    And(Vec<F<S>>),
    Or(Vec<F<S>>),
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub cons: HashMap<Node, u32>,
    pub vars: Vec<String>,
    pub var_ix: HashMap<String, u32>,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}
impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            cons: HashMap::new(),
            vars: vec![],
            var_ix: HashMap::new(),
        };
        c.mk(Node::Const(Rat::ZERO)); // handle 0 is the number 0 (mem::zeroed is used in the repo)
        c.mk(Node::Const(Rat::ONE));
        c
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.cons.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.cons.insert(n, i);
        i
    }
    fn konst(&self, i: u32) -> Option<Rat> {
        match self.nodes[i as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
}
pub fn reset() {
    CTX.with(|c| *c.borrow_mut() = Ctx::new());
}
pub fn node(s: Sym) -> Node {
    CTX.with(|c| c.borrow().nodes[s.0 as usize].clone())
}
pub fn konst(r: Rat) -> Sym {
    CTX.with(|c| Sym(c.borrow_mut().mk(Node::Const(r))))
}
pub fn var(name: &str) -> Sym {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ix = match c.var_ix.get(name) {
            Some(&i) => i,
            None => {
                let i = c.vars.len() as u32;
                c.vars.push(name.to_string());
                c.var_ix.insert(name.to_string(), i);
                i
            }
        };
        Sym(c.mk(Node::Var(ix)))
    })
}
pub fn fun(name: &'static str, args: &[Sym]) -> Sym {
    CTX.with(|c| Sym(c.borrow_mut().mk(Node::Fun(name, args.iter().map(|s| s.0).collect()))))
}
/// nonnegative by its shape alone (sums of squares, roots, absolute values)
pub fn shape_nonneg(s: Sym) -> bool {
    match node(s) {
        Node::Const(r) => r.n >= 0,
        Node::Add(a, b) => shape_nonneg(Sym(a)) && shape_nonneg(Sym(b)),
        Node::Mul(a, b) => a == b || (shape_nonneg(Sym(a)) && shape_nonneg(Sym(b))),
        Node::Div(a, b) => shape_nonneg(Sym(a)) && shape_nonneg(Sym(b)),
        Node::Fun("sqrt", _) | Node::Fun("abs", _) | Node::Fun("exp", _) | Node::Fun("eps", _) | Node::Fun("pi", _) => true,
        _ => false,
    }
}
/// a / sqrt(a*a + squares): between -1 and 1
pub fn shape_cosine(s: Sym) -> bool {
    fn parts(i: u32, out: &mut Vec<u32>) {
        match node(Sym(i)) {
            Node::Add(a, b) => {
                parts(a, out);
                parts(b, out);
            }
            _ => out.push(i),
        }
    }
    let under = |b: u32| match node(Sym(b)) {
        Node::Fun("sqrt", c) => Some(c[0]),
        _ => None,
    };
    let (a, c) = match node(s) {
        Node::Div(a, b) => (a, under(b)),
        Node::Mul(a, b) => match node(Sym(b)) {
            Node::Div(1, d) => (a, under(d)),
            _ => (a, None),
        },
        _ => return false,
    };
    let c = match c {
        Some(c) => c,
        None => return false,
    };
    let mut v = vec![];
    parts(c, &mut v);
    v.iter().any(|x| node(Sym(*x)) == Node::Mul(a, a)) && v.iter().all(|x| shape_nonneg(Sym(*x)))
}
pub fn wf(what: &'static str, cond: F<Sym>) {
    engine::wf(what, cond);
}
pub fn ne0(x: Sym) -> F<Sym> {
    F::Not(Box::new(F::Eq(x, Sym(0))))
}

fn bin(op: u8, a: Sym, b: Sym) -> Sym {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let (ka, kb) = (c.konst(a.0), c.konst(b.0));
        let z = |k: Option<Rat>| k.map_or(false, |r| r.is_zero());
        let o = |k: Option<Rat>| k == Some(Rat::ONE);
        let n = match op {
            b'+' => {
                if let (Some(x), Some(y)) = (ka, kb) {
                    Node::Const(x + y)
                } else if z(ka) {
                    return b;
                } else if z(kb) {
                    return a;
                } else {
                    Node::Add(a.0.min(b.0), a.0.max(b.0))
                }
            }
            b'-' => {
                if let (Some(x), Some(y)) = (ka, kb) {
                    Node::Const(x - y)
                } else if z(kb) {
                    return a;
                } else if z(ka) {
                    Node::Neg(b.0)
                } else {
                    Node::Sub(a.0, b.0)
                }
            }
            b'*' => {
                if let (Some(x), Some(y)) = (ka, kb) {
                    Node::Const(x * y)
                } else if z(ka) || z(kb) {
                    return Sym(0);
                } else if o(ka) {
                    return b;
                } else if o(kb) {
                    return a;
                } else {
                    Node::Mul(a.0.min(b.0), a.0.max(b.0))
                }
            }
            _ => {
                if let (Some(x), Some(y)) = (ka, kb) {
                    if y.is_zero() {
                        Node::Div(a.0, b.0)
                    } else {
                        Node::Const(x / y)
                    }
                } else if o(kb) {
                    return a;
                } else {
                    Node::Div(a.0, b.0)
                }
            }
        };
        Sym(c.mk(n))
    })
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        bin(b'+', self, o)
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        bin(b'-', self, o)
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        bin(b'*', self, o)
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        if !matches!(node(o), Node::Const(r) if !r.is_zero()) {
            wf("divisor is nonzero", ne0(o));
        }
        if WHOLE.with(|w| w.get()) {
            // division of whole numbers: a function of its operands of which nothing else is known
            return match (node(self), node(o)) {
                (_, Node::Const(d)) if d == Rat::ONE => self,
                (Node::Const(n), _) if n.is_zero() => self,
                _ => fun("idiv", &[self, o]),
            };
        }
        bin(b'/', self, o)
    }
}
thread_local! {
    /// the contract speaks about every scalar type with ring operations, the integers included
    pub static WHOLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        if let (Node::Const(a), Node::Const(b)) = (node(self), node(o)) {
            if !b.is_zero() {
                let q = a / b;
                let t = q.n / q.d;
                return konst(a - b * Rat::int(t));
            }
        }
        if WHOLE.with(|w| w.get()) {
            return self - o * (self / o);
        }
        // the remainder of truncated division, which `%` on floats computes exactly
        self - o * fun("trunc", &[self / o])
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        match node(self) {
            Node::Const(r) => konst(-r),
            Node::Neg(a) => Sym(a),
            _ => CTX.with(|c| Sym(c.borrow_mut().mk(Node::Neg(self.0)))),
        }
    }
}
macro_rules! assign {
    ($($T:ident $f:ident $op:tt),*) => {$(impl $T for Sym { fn $f(&mut self, o: Sym) { *self = *self $op o; } })*}
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show(*self, 40))
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show(*self, 40))
    }
}
pub fn show(s: Sym, depth: u32) -> String {
    if depth == 0 {
        return "..".into();
    }
    let d = depth - 1;
    match node(s) {
        Node::Const(r) => format!("{}", r),
        Node::Var(i) => CTX.with(|c| c.borrow().vars[i as usize].clone()),
        Node::Add(a, b) => format!("({} + {})", show(Sym(a), d), show(Sym(b), d)),
        Node::Sub(a, b) => format!("({} - {})", show(Sym(a), d), show(Sym(b), d)),
        Node::Mul(a, b) => format!("{}*{}", show(Sym(a), d), show(Sym(b), d)),
        Node::Div(a, b) => format!("({}/{})", show(Sym(a), d), show(Sym(b), d)),
        Node::Neg(a) => format!("-({})", show(Sym(a), d)),
        Node::Opaque(b) => format!("{:e}", f64::from_bits(b)),
        Node::Fun(n, a) => {
            if a.is_empty() {
                n.to_string()
            } else {
                format!("{}({})", n, a.iter().map(|x| show(Sym(*x), d)).collect::<Vec<_>>().join(", "))
            }
        }
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        engine::branch(F::Eq(*self, *o))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if engine::branch(F::Lt(*self, *o)) {
            Some(Less)
        } else if engine::branch(F::Eq(*self, *o)) {
            Some(Equal)
        } else {
            Some(Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        engine::branch(F::Lt(*self, *o))
    }
    fn le(&self, o: &Sym) -> bool {
        engine::branch(F::Le(*self, *o))
    }
    fn gt(&self, o: &Sym) -> bool {
        engine::branch(F::Lt(*o, *self))
    }
    fn ge(&self, o: &Sym) -> bool {
        engine::branch(F::Le(*o, *self))
    }
}
impl num_traits::Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        engine::branch(F::Eq(*self, Sym(0)))
    }
}
impl num_traits::One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl num_traits::Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
const BOX: u64 = 0x7ffc_0000_0000_0000;
impl num_traits::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        None
    }
    fn to_u64(&self) -> Option<u64> {
        None
    }
    // Sym -> Sym casts go through f64; the handle travels in a NaN payload.
    fn to_f64(&self) -> Option<f64> {
        Some(f64::from_bits(BOX | 0x1_0000_0000 | self.0 as u64))
    }
}
pub fn from_f64(v: f64) -> Sym {
    let b = v.to_bits();
    if b & 0xffff_ffff_0000_0000 == BOX | 0x1_0000_0000 {
        return Sym((b & 0xffff_ffff) as u32);
    }
    if v.is_nan() {
        return fun("nan", &[]);
    }
    if v == f64::INFINITY {
        return fun("inf", &[]);
    }
    if v == f64::NEG_INFINITY {
        return -fun("inf", &[]);
    }
    if let Some(r) = Rat::from_f64_nice(v) {
        return konst(r);
    }
    let close = |a: f64| (v - a).abs() <= 2.0 * f64::EPSILON * v.abs();
    use std::f64::consts::*;
    for q in [1i128, 2, 3, 4, 6, 8, 12, 90, 180, 360] {
        let p = (v / PI * q as f64).round();
        if p != 0.0 && p.abs() < 1000.0 && close(p / q as f64 * PI) {
            return konst(Rat::new(p as i128, q)) * fun("pi", &[]);
        }
        let p = (v * PI * q as f64).round();
        if p != 0.0 && p.abs() < 1000.0 && close(p / q as f64 / PI) {
            return bin(b'/', konst(Rat::new(p as i128, q)), fun("pi", &[]));
        }
    }
    for (k, n) in [(2i128, SQRT_2), (3, 3f64.sqrt())] {
        for q in [1i128, 2, 3, 4, 6] {
            let p = (v / n * q as f64).round();
            if p != 0.0 && p.abs() < 100.0 && close(p / q as f64 * n) {
                return konst(Rat::new(p as i128, q)) * fun("sqrt", &[konst(Rat::int(k))]);
            }
        }
    }
    if close(E) {
        return fun("exp", &[Sym(1)]);
    }
    CTX.with(|c| Sym(c.borrow_mut().mk(Node::Opaque(b))))
}
impl num_traits::NumCast for Sym {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(from_f64)
    }
}
impl num_traits::Signed for Sym {
    fn abs(&self) -> Sym {
        sabs(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        fun("max", &[*self - *o, Sym(0)])
    }
    fn signum(&self) -> Sym {
        fun("signum", &[*self])
    }
    fn is_positive(&self) -> bool {
        engine::branch(F::Lt(Sym(0), *self))
    }
    fn is_negative(&self) -> bool {
        engine::branch(F::Lt(*self, Sym(0)))
    }
}
pub fn sabs(x: Sym) -> Sym {
    match node(x) {
        Node::Const(r) => konst(r.abs()),
        _ => fun("abs", &[x]),
    }
}
impl SimdScalarSigned for Sym {
    fn is_sign_positive(self) -> bool {
        engine::branch(F::Le(Sym(0), self))
    }
    fn is_sign_negative(self) -> bool {
        !engine::branch(F::Le(Sym(0), self))
    }
    fn copysign(self, sign: Sym) -> Sym {
        // real-valued contract: the zero sign argument counts as positive
        if engine::branch(F::Le(Sym(0), sign)) {
            sabs(self)
        } else {
            -sabs(self)
        }
    }
    fn signum(self) -> Sym {
        // the f32/f64 contract over the reals: +1 for x >= 0, -1 below
        if engine::branch(F::Le(Sym(0), self)) {
            Sym(1)
        } else {
            -Sym(1)
        }
    }
    fn abs(self) -> Sym {
        sabs(self)
    }
}
fn mm(n: &'static str, a: Sym, b: Sym) -> Sym {
    if let (Node::Const(x), Node::Const(y)) = (node(a), node(b)) {
        return konst(if n == "max" { x.max(y) } else { x.min(y) });
    }
    if a.0 == b.0 {
        return a;
    }
    // against a constant a case distinction, as clamp is, which the path condition often settles
    let (x, k) = match (node(a), node(b)) {
        (Node::Const(_), _) => (b, Some(a)),
        (_, Node::Const(_)) => (a, Some(b)),
        _ => (a, None),
    };
    if let Some(k) = k {
        let below = engine::branch(F::Lt(x, k));
        return if below == (n == "max") { k } else { x };
    }
    fun(n, &[Sym(a.0.min(b.0)), Sym(a.0.max(b.0))])
}
impl SimdScalarOrd for Sym {
    fn max(self, o: Sym) -> Sym {
        mm("max", self, o)
    }
    fn min(self, o: Sym) -> Sym {
        mm("min", self, o)
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if engine::branch(F::Lt(self, lo)) {
            lo
        } else if engine::branch(F::Lt(hi, self)) {
            hi
        } else {
            self
        }
    }
}
impl SimdScalarBounded for Sym {
    fn min_value() -> Sym {
        -fun("maxval", &[])
    }
    fn max_value() -> Sym {
        fun("maxval", &[])
    }
}
/// a symmetric function of two scalars
fn sym2(n: &'static str, a: Sym, b: Sym) -> Sym {
    fun(n, &if a.0 <= b.0 { [a, b] } else { [b, a] })
}
macro_rules! cmp2 {
    ($($T:ident, $Tol:ident, $f:ident, $p:expr);*) => {$(
        impl approx_cmp::$T for Sym {
            type $Tol = Sym;
            fn $f(&self, o: &Sym, t: &Sym) -> bool { engine::branch(F::Pred($p, vec![*self, *o, *t])) }
        }
    )*}
}
cmp2!(AbsDiffEq, Tolerance, abs_diff_eq, "abs_diff_eq"; AbsDiffAllEq, AllTolerance, abs_diff_all_eq, "abs_diff_eq");
macro_rules! cmp3 {
    ($($T:ident, $Tol:ident, $f:ident, $p:expr);*) => {$(
        impl approx_cmp::$T for Sym {
            type $Tol = Sym;
            fn $f(&self, o: &Sym, t: &Sym, r: &Sym) -> bool { engine::branch(F::Pred($p, vec![*self, *o, *t, *r])) }
        }
    )*}
}
cmp3!(RelativeEq, Tolerance, relative_eq, "relative_eq"; RelativeAllEq, AllTolerance, relative_all_eq, "relative_eq");
impl approx_cmp::UlpsEq for Sym {
    type Tolerance = Sym;
    type UlpsTolerance = Sym;
    fn ulps_eq(&self, o: &Sym, t: &Sym, r: &Sym) -> bool {
        engine::branch(F::Pred("ulps_eq", vec![*self, *o, *t, *r]))
    }
}
impl approx_cmp::UlpsAllEq for Sym {
    type AllTolerance = Sym;
    type AllUlpsTolerance = Sym;
    fn ulps_all_eq(&self, o: &Sym, t: &Sym, r: &Sym) -> bool {
        engine::branch(F::Pred("ulps_eq", vec![*self, *o, *t, *r]))
    }
}
impl approx_cmp::AssertAbsDiffEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugTolerance = Sym;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        (*self - *o).abs()
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
impl approx_cmp::AssertAbsDiffAllEq for Sym {
    type AllDebugTolerance = Sym;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
impl approx_cmp::AssertRelativeEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugTolerance = Sym;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        (*self - *o).abs()
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_relative_tolerance(&self, o: &Sym, t: &Sym) -> Sym {
        sym2("maxabs", *self, *o) * *t
    }
}
impl approx_cmp::AssertRelativeAllEq for Sym {
    type AllDebugTolerance = Sym;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_relative_all_tolerance(&self, o: &Sym, t: &Sym) -> Sym {
        sym2("maxabs", *self, *o) * *t
    }
}
impl approx_cmp::AssertUlpsEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugUlpsDiff = Option<Sym>;
    type DebugTolerance = Sym;
    type DebugUlpsTolerance = Sym;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        (*self - *o).abs()
    }
    fn debug_ulps_diff(&self, o: &Sym) -> Option<Sym> {
        Some(sym2("dbg_ulps_diff", *self, *o))
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_ulps_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
impl approx_cmp::AssertUlpsAllEq for Sym {
    type AllDebugTolerance = Sym;
    type AllDebugUlpsTolerance = Sym;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_ulps_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
impl SimdScalarCmp for Sym {
    type IntegerRepr = Sym;
    fn default_epsilon() -> Sym {
        fun("eps", &[])
    }
    fn default_max_ulps() -> Sym {
        fun("max_ulps", &[])
    }
}
fn le(a: Sym, b: Sym) -> F<Sym> {
    F::Le(a, b)
}
pub fn sqrt(x: Sym) -> Sym {
    if let Node::Const(r) = node(x) {
        if let Some(q) = r.sqrt_exact() {
            return konst(q);
        }
        if r.n >= 0 {
            return fun("sqrt", &[x]);
        }
    }
    wf("square root of a nonnegative number", le(Sym(0), x));
    fun("sqrt", &[x])
}
fn unit_range(x: Sym) -> F<Sym> {
    F::And(vec![le(-Sym(1), x), le(x, Sym(1))])
}
pub fn powi(x: Sym, n: i32) -> Sym {
    let mut r = Sym(1);
    for _ in 0..n.unsigned_abs() {
        r = r * x;
    }
    if n < 0 {
        Sym(1) / r
    } else {
        r
    }
}
impl SimdScalarFloat for Sym {
    fn floor(self) -> Sym {
        fun("floor", &[self])
    }
    fn ceil(self) -> Sym {
        -fun("floor", &[-self])
    }
    fn round(self) -> Sym {
        fun("round", &[self])
    }
    fn trunc(self) -> Sym {
        fun("trunc", &[self])
    }
    fn fract(self) -> Sym {
        self - fun("trunc", &[self])
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn hypot(self, o: Sym) -> Sym {
        sqrt(self * self + o * o)
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn atan2(self, o: Sym) -> Sym {
        fun("atan2", &[self, o])
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (fun("sin", &[self]), fun("cos", &[self]))
    }
    fn sin(self) -> Sym {
        fun("sin", &[self])
    }
    fn cos(self) -> Sym {
        fun("cos", &[self])
    }
    fn tan(self) -> Sym {
        wf("tangent has a nonzero cosine", ne0(fun("cos", &[self])));
        fun("tan", &[self])
    }
    fn asin(self) -> Sym {
        wf("asin argument in [-1, 1]", unit_range(self));
        fun("asin", &[self])
    }
    fn acos(self) -> Sym {
        wf("acos argument in [-1, 1]", unit_range(self));
        fun("acos", &[self])
    }
    fn atan(self) -> Sym {
        fun("atan", &[self])
    }
    fn sinh(self) -> Sym {
        fun("sinh", &[self])
    }
    fn cosh(self) -> Sym {
        fun("cosh", &[self])
    }
    fn tanh(self) -> Sym {
        fun("tanh", &[self])
    }
    fn asinh(self) -> Sym {
        fun("asinh", &[self])
    }
    fn acosh(self) -> Sym {
        fun("acosh", &[self])
    }
    fn atanh(self) -> Sym {
        fun("atanh", &[self])
    }
    fn log(self, base: Sym) -> Sym {
        SimdScalarFloat::ln(self) / SimdScalarFloat::ln(base)
    }
    fn log2(self) -> Sym {
        SimdScalarFloat::ln(self) / fun("ln", &[konst(Rat::int(2))])
    }
    fn log10(self) -> Sym {
        SimdScalarFloat::ln(self) / fun("ln", &[konst(Rat::int(10))])
    }
    fn ln(self) -> Sym {
        wf("logarithm of a positive number", F::Lt(Sym(0), self));
        fun("ln", &[self])
    }
    fn ln_1p(self) -> Sym {
        SimdScalarFloat::ln(self + Sym(1))
    }
    fn sqrt(self) -> Sym {
        sqrt(self)
    }
    fn cbrt(self) -> Sym {
        fun("cbrt", &[self])
    }
    fn exp(self) -> Sym {
        fun("exp", &[self])
    }
    fn exp2(self) -> Sym {
        fun("exp", &[self * fun("ln", &[konst(Rat::int(2))])])
    }
    fn exp_m1(self) -> Sym {
        fun("exp", &[self]) - Sym(1)
    }
    fn powi(self, n: i32) -> Sym {
        if n.unsigned_abs() <= 64 {
            powi(self, n)
        } else {
            fun("powf", &[self, konst(Rat::int(n as i128))])
        }
    }
    fn powf(self, n: Sym) -> Sym {
        if let Node::Const(r) = node(n) {
            if r.is_int() && r.n.abs() <= 64 {
                return powi(self, r.n as i32);
            }
            if r == Rat::new(1, 2) {
                return sqrt(self);
            }
        }
        fun("powf", &[self, n])
    }
    fn is_finite(self) -> bool {
        if engine::with(|e| e.nm.finite) {
            return self.0 != fun("nan", &[]).0;
        }
        engine::branch(F::Pred("is_finite", vec![self]))
    }
    fn is_infinite(self) -> bool {
        if engine::with(|e| e.nm.finite) {
            return false;
        }
        engine::branch(F::Pred("is_infinite", vec![self]))
    }
    fn is_nan(self) -> bool {
        if engine::with(|e| e.nm.finite) {
            return self.0 == fun("nan", &[]).0;
        }
        engine::branch(F::Pred("is_nan", vec![self]))
    }
    fn is_normal(self) -> bool {
        engine::branch(F::Pred("is_normal", vec![self]))
    }
    fn is_subnormal(self) -> bool {
        engine::branch(F::Pred("is_subnormal", vec![self]))
    }
    fn min_positive_value() -> Sym {
        fun("minpos", &[])
    }
    fn pi() -> Sym {
        fun("pi", &[])
    }
    fn two_pi() -> Sym {
        from_f64(2.0) * fun("pi", &[])
    }
    fn frac_pi_2() -> Sym {
        fun("pi", &[]) / from_f64(2.0)
    }
    fn frac_pi_3() -> Sym {
        fun("pi", &[]) / from_f64(3.0)
    }
    fn frac_pi_4() -> Sym {
        fun("pi", &[]) / from_f64(4.0)
    }
    fn frac_pi_6() -> Sym {
        fun("pi", &[]) / from_f64(6.0)
    }
    fn frac_pi_8() -> Sym {
        fun("pi", &[]) / from_f64(8.0)
    }
    fn frac_1_pi() -> Sym {
        from_f64(1.0) / fun("pi", &[])
    }
    fn frac_2_pi() -> Sym {
        from_f64(2.0) / fun("pi", &[])
    }
    fn frac_2_sqrt_pi() -> Sym {
        from_f64(2.0) / sqrt(fun("pi", &[]))
    }
    fn e() -> Sym {
        fun("exp", &[Sym(1)])
    }
    fn log2_e() -> Sym {
        Sym(1) / fun("ln", &[konst(Rat::int(2))])
    }
    fn log10_e() -> Sym {
        Sym(1) / fun("ln", &[konst(Rat::int(10))])
    }
    fn ln_2() -> Sym {
        fun("ln", &[konst(Rat::int(2))])
    }
    fn ln_10() -> Sym {
        fun("ln", &[konst(Rat::int(10))])
    }
    fn sqrt_2() -> Sym {
        fun("sqrt", &[konst(Rat::int(2))])
    }
    fn frac_1_sqrt_2() -> Sym {
        Sym(1) / fun("sqrt", &[konst(Rat::int(2))])
    }
    fn nan() -> Sym {
        fun("nan", &[])
    }
    fn infinity() -> Sym {
        fun("inf", &[])
    }
    fn neg_infinity() -> Sym {
        -fun("inf", &[])
    }
    fn neg_zero() -> Sym {
        Sym(0)
    }
    fn machine_epsilon() -> Sym {
        fun("eps", &[])
    }
}
