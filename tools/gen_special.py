#!/usr/bin/env python3
"""Writes harness/kani_contracts/src/special.rs: finiteness tests and the special values of the complex
functions (C20)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UN = ["sin", "cos", "sinh", "cosh", "ln", "sqrt", "exp"]
LIBM = {"ln": "log"}


def stubs(t, sfx):
    out = []
    for u in UN:
        n = LIBM.get(u, u) + sfx
        out.append("#[cfg_attr(kani, kani::stub(libm::%s, model_%s::%s))]" % (n, t, u))
        out.append("#[cfg_attr(kani, kani::stub(%s::%s, model_%s::%s))]" % (t, u, t, u))
    for u in ["atan2", "hypot"]:
        out.append("#[cfg_attr(kani, kani::stub(libm::%s%s, model_%s::%s))]" % (u, sfx, t, u))
        out.append("#[cfg_attr(kani, kani::stub(%s::%s, model_%s::%s))]" % (t, u, t, u))
    out.append("#[cfg_attr(kani, kani::stub(libm::sincos%s, model_%s::sin_cos))]" % (sfx, t))
    out.append("#[cfg_attr(kani, kani::stub(%s::sin_cos, model_%s::sin_cos))]" % (t, t))
    return "\n        ".join(out)


MODEL = """/// what the proofs assume of libm (IEEE 754 / C Annex F): only the special values and the ranges
#[cfg(kani)]
pub mod model_T {
    fn value(f: impl Fn(T) -> bool) -> T {
        let r: T = kani::any();
        kani::assume(f(r));
        r
    }
    pub fn sin(x: T) -> T { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && ((r == 0.0) == (x == 0.0))) } else { T::NAN } }
    pub fn cos(x: T) -> T { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && r != 0.0 && (x != 0.0 || r == 1.0)) } else { T::NAN } }
    pub fn sin_cos(x: T) -> (T, T) { (sin(x), cos(x)) }
    pub fn sinh(x: T) -> T { if x.is_finite() { value(|r| r == r && ((r > 0.0) == (x > 0.0)) && ((r < 0.0) == (x < 0.0))) } else { x } }
    pub fn cosh(x: T) -> T { if x.is_finite() { value(|r| r >= 1.0) } else { x.abs() } }
    pub fn exp(x: T) -> T { if x.is_finite() { value(|r| r >= 0.0) } else if x != x { x } else if x > 0.0 { x } else { 0.0 } }
    pub fn ln(x: T) -> T { if x != x || x < 0.0 { T::NAN } else if x == 0.0 { T::NEG_INFINITY } else if x.is_infinite() { x } else { value(|r| r.is_finite()) } }
    pub fn sqrt(x: T) -> T { if x != x || x < 0.0 { T::NAN } else if x == 0.0 || x.is_infinite() { x } else { value(|r| r > 0.0 && r.is_finite()) } }
    pub fn atan2(y: T, x: T) -> T { if x != x || y != y { T::NAN } else { value(|r| r >= -4.0 && r <= 4.0) } }
    pub fn hypot(x: T, y: T) -> T { if x.is_infinite() || y.is_infinite() { T::INFINITY } else if x != x || y != y { T::NAN } else { value(|r| r >= 0.0) } }
}
"""
TABLE = """pub mod at_T {
    use super::*;
    use std::TC::consts::*;
    type V = (T, T);
    const INF: T = T::INFINITY;
    const NAN: T = T::NAN;
    fn same(a: T, b: T) -> bool {
        a == b || (a != a && b != b) || (a.is_finite() && b.is_finite() && a - b < 1e-5 && b - a < 1e-5)
    }
    fn is(z: Complex<T>, w: V) -> bool {
        same(z.real(), w.0) && same(z.imaginary(), w.1)
    }
    /// the sign of a result is not specified by Annex G
    fn is_abs(z: Complex<T>, w: V) -> bool {
        same(z.real().abs(), w.0) && same(z.imaginary().abs(), w.1)
    }
    fn inf_cis(y: T) -> V {
        (INF.copysign(y.cos()), INF.copysign(y.sin()))
    }
    /// cosh at x + iy with x or y not finite
    fn cosh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (INF, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (c, if x < 0.0 { -s } else { s })) }
        } else if x == 0.0 { is(z, (NAN, 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn sinh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (x, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (if x < 0.0 { -c } else { c }, s)) }
        } else if x == 0.0 { is(z, (0.0, NAN)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn tanh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() { is(z, ((1.0 as T).copysign(x), 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else if x == 0.0 { z.imaginary() != z.imaginary() && (z.real() != z.real() || z.real() == 0.0) }
        else { is(z, (NAN, NAN)) }
    }
    fn asinh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (x, NAN)) } else if y.is_infinite() { is(z, (x, FRAC_PI_4.copysign(y))) } else { is(z, (x, 0.0)) }
        } else if x != x {
            if y.is_infinite() { is_abs(z, (INF, NAN)) } else if y == 0.0 { is(z, (NAN, 0.0)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF.copysign(x), FRAC_PI_2.copysign(y))) }
        else { is(z, (NAN, NAN)) }
    }
    fn acosh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (INF, NAN)) }
            else if y.is_infinite() { is(z, (INF, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }).copysign(y))) }
            else { is(z, (INF, (if x > 0.0 { 0.0 } else { PI } as T).copysign(y))) }
        } else if x != x {
            if y.is_infinite() { is(z, (INF, NAN)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF, FRAC_PI_2.copysign(y))) }
        else if x == 0.0 { z.real() != z.real() }
        else { is(z, (NAN, NAN)) }
    }
    fn acos_ok(z: Complex<T>, x: T, y: T) -> bool {
        if x.is_infinite() {
            if y != y { z.real() != z.real() && z.imaginary().is_infinite() }
            else if y.is_infinite() { is(z, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }, -y)) }
            else { is(z, (if x > 0.0 { 0.0 } else { PI }, if y < 0.0 { INF } else { -INF })) }
        } else if x != x {
            if y.is_infinite() { is(z, (NAN, -y)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (FRAC_PI_2, -y)) }
        else if x == 0.0 { is(z, (FRAC_PI_2, NAN)) }
        else { is(z, (NAN, NAN)) }
    }
    fn atanh_ok(z: Complex<T>, x: T, y: T) -> bool {
        if y.is_infinite() { is(z, (0.0, FRAC_PI_2.copysign(y))) }
        else if y != y {
            if x.is_infinite() || x == 0.0 { is(z, (0.0, NAN)) } else { is(z, (NAN, NAN)) }
        } else if x != x { is(z, (NAN, NAN)) }
        else { is(z, (0.0, FRAC_PI_2.copysign(y))) }
    }
    fn special() -> (T, T) {
        let (x, y): (T, T) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        // on the branch cut only the continuation from above is specified
        requires!(y != 0.0 || y.is_sign_positive());
        (x, y)
    }
    /// as special, with the cut of the function of i*z kept out
    fn special_i() -> (T, T) {
        let (x, y): (T, T) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        requires!(x != 0.0 || x.is_sign_positive());
        (x, y)
    }
CHECKS
    #[cfg_attr(kani, kani::proof)]
    STUBS
    pub fn atanh_poles() {
        let r = Complex::new(1.0 as T, 0.0).atanh();
        ensures!(r.real() == INF && r.imaginary() == 0.0, "atanh(1) is infinite");
        let r = Complex::new(-1.0 as T, 0.0).atanh();
        ensures!(r.real() == -INF && r.imaginary() == 0.0, "atanh(-1) is minus infinity");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub fn tests() {
        let a: [T; 16] = any();
        let fin = |n: usize| { let mut r = true; let mut i = 0; while i < n { r &= a[i].is_finite(); i += 1; } r };
        ensures!(Vector1::<T>::from([a[0]]).is_finite() == fin(1), "a vector is finite exactly when its components are");
        ensures!(Vector2::from([a[0], a[1]]).is_finite() == fin(2), "a vector is finite exactly when its components are");
        ensures!(Vector3::from([a[0], a[1], a[2]]).is_finite() == fin(3), "a vector is finite exactly when its components are");
        ensures!(Vector4::from([a[0], a[1], a[2], a[3]]).is_finite() == fin(4), "a vector is finite exactly when its components are");
        ensures!(Quaternion::new(a[0], a[1], a[2], a[3]).is_finite() == fin(4), "a quaternion is finite exactly when its components are");
        let z = Complex::new(a[0], a[1]);
        let nan = a[0].is_nan() || a[1].is_nan();
        ensures!(z.is_finite() == fin(2), "a complex number is finite exactly when its parts are");
        ensures!(z.is_nan() == nan, "a complex number is not a number exactly when a part is not");
        ensures!(z.is_infinite() == (!nan && !fin(2)), "a complex number is infinite exactly when a part is and none is NaN");
        ensures!(Radians(a[0]).is_finite() == fin(1) && Degrees(a[0]).is_finite() == fin(1), "an angle is finite exactly when its measure is");
MATS
        reached!();
    }
}
"""


def check(f, cut):
    arg = {"cosh": "x, y", "sinh": "x, y"}
    if f in ("cosh", "sinh", "tanh", "asinh", "acosh", "acos", "atanh"):
        body = "let (x, y) = special();\n        let r = Complex::new(x, y).%s();\n        ensures!(%s_ok(r, x, y), \"%s at an infinite or NaN argument has its limit value\");" % (f, f, f)
    else:
        g = {"cos": "cosh", "sin": "sinh", "tan": "tanh", "asin": "asinh", "atan": "atanh"}[f]
        back = "r" if f == "cos" else "Complex::new(-r.imaginary(), r.real())"
        body = "let (x, y) = special_i();\n        let r = Complex::new(x, y).%s();\n        ensures!(%s_ok(%s, -y, x), \"%s at an infinite or NaN argument is that of the hyperbolic function of iz\");" % (f, g, back, f)
    return "    #[cfg_attr(kani, kani::proof)]\n    STUBS\n    pub fn %s() {\n        %s\n        reached!();\n    }" % (f, body)


FS = ["cosh", "sinh", "tanh", "asinh", "acosh", "acos", "atanh", "cos", "sin", "tan", "asin", "atan"]
SH = [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (2, 4), (4, 2), (3, 4), (4, 3), (1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (4, 1)]
out = ["""//! Finiteness tests on the machine floats, and the complex functions at infinite and NaN arguments, against
//! C99 Annex G (the sign of a zero is not compared). Generated by tools/gen_special.py.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_core::*;
use cglinalg_trigonometry::{Degrees, Radians};
"""]
for t, sfx in [("f64", ""), ("f32", "f")]:
    mats = []
    for r, c in SH:
        cols = ", ".join("[" + ", ".join("a[%d]" % (i * r + j) for j in range(r)) + "]" for i in range(c))
        mats.append("        ensures!(Matrix::<%s, %d, %d>::from([%s]).is_finite() == fin(%d), \"a matrix is finite exactly when its entries are\");" % (t, r, c, cols, r * c))
    s = TABLE.replace("CHECKS", "\n".join(check(f, 0) for f in FS)).replace("STUBS", stubs(t, sfx)).replace("MATS", "\n".join(mats)).replace("std::TC::", "std::%s::" % t)
    import re
    s = re.sub(r"\bT\b", t, s).replace("at_T", "at_" + t)
    m = re.sub(r"\bT\b", t, MODEL).replace("model_T", "model_" + t)
    out.append(m + s)
ent = "\n".join('    v.push(("C20", "special::at_%s::%s", at_%s::%s as fn()));' % (t, f, t, f) for t in ("f64", "f32") for f in FS + ["atanh_poles", "tests"])
out.append("pub fn all() -> Vec<Entry> {\n    let mut v: Vec<Entry> = vec![];\n" + ent + "\n    v\n}\n")
open(os.path.join(HERE, "harness/kani_contracts/src/special.rs"), "w").write("\n".join(out))
