//! Finiteness tests on the machine floats, and the complex functions at infinite and NaN arguments, against
//! C99 Annex G (the sign of a zero is not compared). Generated by tools/gen_special.py.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_core::*;
use cglinalg_trigonometry::{Degrees, Radians};

/// what the proofs assume of libm (IEEE 754 / C Annex F): only the special values and the ranges
#[cfg(kani)]
pub mod model_f64 {
    fn value(f: impl Fn(f64) -> bool) -> f64 {
        let r: f64 = kani::any();
        kani::assume(f(r));
        r
    }
    pub fn sin(x: f64) -> f64 { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && ((r == 0.0) == (x == 0.0))) } else { f64::NAN } }
    pub fn cos(x: f64) -> f64 { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && r != 0.0 && (x != 0.0 || r == 1.0)) } else { f64::NAN } }
    pub fn sin_cos(x: f64) -> (f64, f64) { (sin(x), cos(x)) }
    pub fn sinh(x: f64) -> f64 { if x.is_finite() { value(|r| r == r && ((r > 0.0) == (x > 0.0)) && ((r < 0.0) == (x < 0.0))) } else { x } }
    pub fn cosh(x: f64) -> f64 { if x.is_finite() { value(|r| r >= 1.0) } else { x.abs() } }
    pub fn exp(x: f64) -> f64 { if x.is_finite() { value(|r| r >= 0.0) } else if x != x { x } else if x > 0.0 { x } else { 0.0 } }
    pub fn ln(x: f64) -> f64 { if x != x || x < 0.0 { f64::NAN } else if x == 0.0 { f64::NEG_INFINITY } else if x.is_infinite() { x } else { value(|r| r.is_finite()) } }
    pub fn sqrt(x: f64) -> f64 { if x != x || x < 0.0 { f64::NAN } else if x == 0.0 || x.is_infinite() { x } else { value(|r| r > 0.0 && r.is_finite()) } }
    pub fn atan2(y: f64, x: f64) -> f64 { if x != x || y != y { f64::NAN } else { value(|r| r >= -4.0 && r <= 4.0) } }
    pub fn hypot(x: f64, y: f64) -> f64 { if x.is_infinite() || y.is_infinite() { f64::INFINITY } else if x != x || y != y { f64::NAN } else { value(|r| r >= 0.0) } }
}
pub mod at_f64 {
    use super::*;
    use std::f64::consts::*;
    type V = (f64, f64);
    const INF: f64 = f64::INFINITY;
    const NAN: f64 = f64::NAN;
    fn same(a: f64, b: f64) -> bool {
        a == b || (a != a && b != b) || (a.is_finite() && b.is_finite() && a - b < 1e-5 && b - a < 1e-5)
    }
    fn is(z: Complex<f64>, w: V) -> bool {
        same(z.real(), w.0) && same(z.imaginary(), w.1)
    }
    /// the sign of a result is not specified by Annex G
    fn is_abs(z: Complex<f64>, w: V) -> bool {
        same(z.real().abs(), w.0) && same(z.imaginary().abs(), w.1)
    }
    fn inf_cis(y: f64) -> V {
        (INF.copysign(y.cos()), INF.copysign(y.sin()))
    }
    /// cosh at x + iy with x or y not finite
    fn cosh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (INF, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (c, if x < 0.0 { -s } else { s })) }
        } else if x == 0.0 { is(z, (NAN, 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn sinh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (x, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (if x < 0.0 { -c } else { c }, s)) }
        } else if x == 0.0 { is(z, (0.0, NAN)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn tanh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() { is(z, ((1.0 as f64).copysign(x), 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else if x == 0.0 { z.imaginary() != z.imaginary() && (z.real() != z.real() || z.real() == 0.0) }
        else { is(z, (NAN, NAN)) }
    }
    fn asinh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (x, NAN)) } else if y.is_infinite() { is(z, (x, FRAC_PI_4.copysign(y))) } else { is(z, (x, 0.0)) }
        } else if x != x {
            if y.is_infinite() { is_abs(z, (INF, NAN)) } else if y == 0.0 { is(z, (NAN, 0.0)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF.copysign(x), FRAC_PI_2.copysign(y))) }
        else { is(z, (NAN, NAN)) }
    }
    fn acosh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (INF, NAN)) }
            else if y.is_infinite() { is(z, (INF, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }).copysign(y))) }
            else { is(z, (INF, (if x > 0.0 { 0.0 } else { PI } as f64).copysign(y))) }
        } else if x != x {
            if y.is_infinite() { is(z, (INF, NAN)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF, FRAC_PI_2.copysign(y))) }
        else if x == 0.0 { z.real() != z.real() }
        else { is(z, (NAN, NAN)) }
    }
    fn acos_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if x.is_infinite() {
            if y != y { z.real() != z.real() && z.imaginary().is_infinite() }
            else if y.is_infinite() { is(z, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }, -y)) }
            else { is(z, (if x > 0.0 { 0.0 } else { PI }, if y < 0.0 { INF } else { -INF })) }
        } else if x != x {
            if y.is_infinite() { is(z, (NAN, -y)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (FRAC_PI_2, -y)) }
        else if x == 0.0 { is(z, (FRAC_PI_2, NAN)) }
        else { is(z, (NAN, NAN)) }
    }
    fn atanh_ok(z: Complex<f64>, x: f64, y: f64) -> bool {
        if y.is_infinite() { is(z, (0.0, FRAC_PI_2.copysign(y))) }
        else if y != y {
            if x.is_infinite() || x == 0.0 { is(z, (0.0, NAN)) } else { is(z, (NAN, NAN)) }
        } else if x != x { is(z, (NAN, NAN)) }
        else { is(z, (0.0, FRAC_PI_2.copysign(y))) }
    }
    fn special() -> (f64, f64) {
        let (x, y): (f64, f64) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        // on the branch cut only the continuation from above is specified
        requires!(y != 0.0 || y.is_sign_positive());
        (x, y)
    }
    /// as special, with the cut of the function of i*z kept out
    fn special_i() -> (f64, f64) {
        let (x, y): (f64, f64) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        requires!(x != 0.0 || x.is_sign_positive());
        (x, y)
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn cosh() {
        let (x, y) = special();
        let r = Complex::new(x, y).cosh();
        ensures!(cosh_ok(r, x, y), "cosh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn sinh() {
        let (x, y) = special();
        let r = Complex::new(x, y).sinh();
        ensures!(sinh_ok(r, x, y), "sinh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn tanh() {
        let (x, y) = special();
        let r = Complex::new(x, y).tanh();
        ensures!(tanh_ok(r, x, y), "tanh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn asinh() {
        let (x, y) = special();
        let r = Complex::new(x, y).asinh();
        ensures!(asinh_ok(r, x, y), "asinh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn acosh() {
        let (x, y) = special();
        let r = Complex::new(x, y).acosh();
        ensures!(acosh_ok(r, x, y), "acosh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn acos() {
        let (x, y) = special();
        let r = Complex::new(x, y).acos();
        ensures!(acos_ok(r, x, y), "acos at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn atanh() {
        let (x, y) = special();
        let r = Complex::new(x, y).atanh();
        ensures!(atanh_ok(r, x, y), "atanh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn cos() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).cos();
        ensures!(cosh_ok(r, -y, x), "cos at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn sin() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).sin();
        ensures!(sinh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "sin at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn tan() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).tan();
        ensures!(tanh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "tan at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn asin() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).asin();
        ensures!(asinh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "asin at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn atan() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).atan();
        ensures!(atanh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "atan at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(f64::sin, model_f64::sin))]
        #[cfg_attr(kani, kani::stub(libm::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(f64::cos, model_f64::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(f64::sinh, model_f64::sinh))]
        #[cfg_attr(kani, kani::stub(libm::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(f64::cosh, model_f64::cosh))]
        #[cfg_attr(kani, kani::stub(libm::log, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(f64::ln, model_f64::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(f64::sqrt, model_f64::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(f64::exp, model_f64::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(f64::atan2, model_f64::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(f64::hypot, model_f64::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincos, model_f64::sin_cos))]
        #[cfg_attr(kani, kani::stub(f64::sin_cos, model_f64::sin_cos))]
    pub fn atanh_poles() {
        let r = Complex::new(1.0 as f64, 0.0).atanh();
        ensures!(r.real() == INF && r.imaginary() == 0.0, "atanh(1) is infinite");
        let r = Complex::new(-1.0 as f64, 0.0).atanh();
        ensures!(r.real() == -INF && r.imaginary() == 0.0, "atanh(-1) is minus infinity");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub fn tests() {
        let a: [f64; 16] = any();
        let fin = |n: usize| { let mut r = true; let mut i = 0; while i < n { r &= a[i].is_finite(); i += 1; } r };
        ensures!(Vector1::<f64>::from([a[0]]).is_finite() == fin(1), "a vector is finite exactly when its components are");
        ensures!(Vector2::from([a[0], a[1]]).is_finite() == fin(2), "a vector is finite exactly when its components are");
        ensures!(Vector3::from([a[0], a[1], a[2]]).is_finite() == fin(3), "a vector is finite exactly when its components are");
        ensures!(Vector4::from([a[0], a[1], a[2], a[3]]).is_finite() == fin(4), "a vector is finite exactly when its components are");
        ensures!(Quaternion::new(a[0], a[1], a[2], a[3]).is_finite() == fin(4), "a quaternion is finite exactly when its components are");
        let z = Complex::new(a[0], a[1]);
        let nan = a[0].is_nan() || a[1].is_nan();
        ensures!(z.is_finite() == fin(2), "a complex number is finite exactly when its parts are");
        ensures!(z.is_nan() == nan, "a complex number is not a number exactly when a part is not");
        ensures!(z.is_infinite() == (!nan && !fin(2)), "a complex number is infinite exactly when a part is and none is NaN");
        ensures!(Radians(a[0]).is_finite() == fin(1) && Degrees(a[0]).is_finite() == fin(1), "an angle is finite exactly when its measure is");
        ensures!(Matrix::<f64, 1, 1>::from([[a[0]]]).is_finite() == fin(1), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 2, 2>::from([[a[0], a[1]], [a[2], a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 3, 3>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]).is_finite() == fin(9), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 4, 4>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]], [a[8], a[9], a[10], a[11]], [a[12], a[13], a[14], a[15]]]).is_finite() == fin(16), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 2, 3>::from([[a[0], a[1]], [a[2], a[3]], [a[4], a[5]]]).is_finite() == fin(6), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 3, 2>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]]]).is_finite() == fin(6), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 2, 4>::from([[a[0], a[1]], [a[2], a[3]], [a[4], a[5]], [a[6], a[7]]]).is_finite() == fin(8), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 4, 2>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]]]).is_finite() == fin(8), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 3, 4>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]], [a[9], a[10], a[11]]]).is_finite() == fin(12), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 4, 3>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]], [a[8], a[9], a[10], a[11]]]).is_finite() == fin(12), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 1, 2>::from([[a[0]], [a[1]]]).is_finite() == fin(2), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 1, 3>::from([[a[0]], [a[1]], [a[2]]]).is_finite() == fin(3), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 1, 4>::from([[a[0]], [a[1]], [a[2]], [a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 2, 1>::from([[a[0], a[1]]]).is_finite() == fin(2), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 3, 1>::from([[a[0], a[1], a[2]]]).is_finite() == fin(3), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f64, 4, 1>::from([[a[0], a[1], a[2], a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        reached!();
    }
}

/// what the proofs assume of libm (IEEE 754 / C Annex F): only the special values and the ranges
#[cfg(kani)]
pub mod model_f32 {
    fn value(f: impl Fn(f32) -> bool) -> f32 {
        let r: f32 = kani::any();
        kani::assume(f(r));
        r
    }
    pub fn sin(x: f32) -> f32 { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && ((r == 0.0) == (x == 0.0))) } else { f32::NAN } }
    pub fn cos(x: f32) -> f32 { if x.is_finite() { value(|r| r >= -1.0 && r <= 1.0 && r != 0.0 && (x != 0.0 || r == 1.0)) } else { f32::NAN } }
    pub fn sin_cos(x: f32) -> (f32, f32) { (sin(x), cos(x)) }
    pub fn sinh(x: f32) -> f32 { if x.is_finite() { value(|r| r == r && ((r > 0.0) == (x > 0.0)) && ((r < 0.0) == (x < 0.0))) } else { x } }
    pub fn cosh(x: f32) -> f32 { if x.is_finite() { value(|r| r >= 1.0) } else { x.abs() } }
    pub fn exp(x: f32) -> f32 { if x.is_finite() { value(|r| r >= 0.0) } else if x != x { x } else if x > 0.0 { x } else { 0.0 } }
    pub fn ln(x: f32) -> f32 { if x != x || x < 0.0 { f32::NAN } else if x == 0.0 { f32::NEG_INFINITY } else if x.is_infinite() { x } else { value(|r| r.is_finite()) } }
    pub fn sqrt(x: f32) -> f32 { if x != x || x < 0.0 { f32::NAN } else if x == 0.0 || x.is_infinite() { x } else { value(|r| r > 0.0 && r.is_finite()) } }
    pub fn atan2(y: f32, x: f32) -> f32 { if x != x || y != y { f32::NAN } else { value(|r| r >= -4.0 && r <= 4.0) } }
    pub fn hypot(x: f32, y: f32) -> f32 { if x.is_infinite() || y.is_infinite() { f32::INFINITY } else if x != x || y != y { f32::NAN } else { value(|r| r >= 0.0) } }
}
pub mod at_f32 {
    use super::*;
    use std::f32::consts::*;
    type V = (f32, f32);
    const INF: f32 = f32::INFINITY;
    const NAN: f32 = f32::NAN;
    fn same(a: f32, b: f32) -> bool {
        a == b || (a != a && b != b) || (a.is_finite() && b.is_finite() && a - b < 1e-5 && b - a < 1e-5)
    }
    fn is(z: Complex<f32>, w: V) -> bool {
        same(z.real(), w.0) && same(z.imaginary(), w.1)
    }
    /// the sign of a result is not specified by Annex G
    fn is_abs(z: Complex<f32>, w: V) -> bool {
        same(z.real().abs(), w.0) && same(z.imaginary().abs(), w.1)
    }
    fn inf_cis(y: f32) -> V {
        (INF.copysign(y.cos()), INF.copysign(y.sin()))
    }
    /// cosh at x + iy with x or y not finite
    fn cosh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (INF, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (c, if x < 0.0 { -s } else { s })) }
        } else if x == 0.0 { is(z, (NAN, 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn sinh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() {
            if !y.is_finite() { is_abs(z, (INF, NAN)) }
            else if y == 0.0 { is(z, (x, 0.0)) }
            else if cfg!(kani) { is_abs(z, (INF, INF)) }
            else { let (c, s) = inf_cis(y); is(z, (if x < 0.0 { -c } else { c }, s)) }
        } else if x == 0.0 { is(z, (0.0, NAN)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else { is(z, (NAN, NAN)) }
    }
    fn tanh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() { is(z, ((1.0 as f32).copysign(x), 0.0)) }
        else if x != x && y == 0.0 { is(z, (NAN, 0.0)) }
        else if x == 0.0 { z.imaginary() != z.imaginary() && (z.real() != z.real() || z.real() == 0.0) }
        else { is(z, (NAN, NAN)) }
    }
    fn asinh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (x, NAN)) } else if y.is_infinite() { is(z, (x, FRAC_PI_4.copysign(y))) } else { is(z, (x, 0.0)) }
        } else if x != x {
            if y.is_infinite() { is_abs(z, (INF, NAN)) } else if y == 0.0 { is(z, (NAN, 0.0)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF.copysign(x), FRAC_PI_2.copysign(y))) }
        else { is(z, (NAN, NAN)) }
    }
    fn acosh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() {
            if y != y { is(z, (INF, NAN)) }
            else if y.is_infinite() { is(z, (INF, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }).copysign(y))) }
            else { is(z, (INF, (if x > 0.0 { 0.0 } else { PI } as f32).copysign(y))) }
        } else if x != x {
            if y.is_infinite() { is(z, (INF, NAN)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (INF, FRAC_PI_2.copysign(y))) }
        else if x == 0.0 { z.real() != z.real() }
        else { is(z, (NAN, NAN)) }
    }
    fn acos_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if x.is_infinite() {
            if y != y { z.real() != z.real() && z.imaginary().is_infinite() }
            else if y.is_infinite() { is(z, (if x > 0.0 { FRAC_PI_4 } else { 3.0 * FRAC_PI_4 }, -y)) }
            else { is(z, (if x > 0.0 { 0.0 } else { PI }, if y < 0.0 { INF } else { -INF })) }
        } else if x != x {
            if y.is_infinite() { is(z, (NAN, -y)) } else { is(z, (NAN, NAN)) }
        } else if y.is_infinite() { is(z, (FRAC_PI_2, -y)) }
        else if x == 0.0 { is(z, (FRAC_PI_2, NAN)) }
        else { is(z, (NAN, NAN)) }
    }
    fn atanh_ok(z: Complex<f32>, x: f32, y: f32) -> bool {
        if y.is_infinite() { is(z, (0.0, FRAC_PI_2.copysign(y))) }
        else if y != y {
            if x.is_infinite() || x == 0.0 { is(z, (0.0, NAN)) } else { is(z, (NAN, NAN)) }
        } else if x != x { is(z, (NAN, NAN)) }
        else { is(z, (0.0, FRAC_PI_2.copysign(y))) }
    }
    fn special() -> (f32, f32) {
        let (x, y): (f32, f32) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        // on the branch cut only the continuation from above is specified
        requires!(y != 0.0 || y.is_sign_positive());
        (x, y)
    }
    /// as special, with the cut of the function of i*z kept out
    fn special_i() -> (f32, f32) {
        let (x, y): (f32, f32) = (any(), any());
        requires!(!x.is_finite() || !y.is_finite());
        requires!(x != 0.0 || x.is_sign_positive());
        (x, y)
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn cosh() {
        let (x, y) = special();
        let r = Complex::new(x, y).cosh();
        ensures!(cosh_ok(r, x, y), "cosh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn sinh() {
        let (x, y) = special();
        let r = Complex::new(x, y).sinh();
        ensures!(sinh_ok(r, x, y), "sinh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn tanh() {
        let (x, y) = special();
        let r = Complex::new(x, y).tanh();
        ensures!(tanh_ok(r, x, y), "tanh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn asinh() {
        let (x, y) = special();
        let r = Complex::new(x, y).asinh();
        ensures!(asinh_ok(r, x, y), "asinh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn acosh() {
        let (x, y) = special();
        let r = Complex::new(x, y).acosh();
        ensures!(acosh_ok(r, x, y), "acosh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn acos() {
        let (x, y) = special();
        let r = Complex::new(x, y).acos();
        ensures!(acos_ok(r, x, y), "acos at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn atanh() {
        let (x, y) = special();
        let r = Complex::new(x, y).atanh();
        ensures!(atanh_ok(r, x, y), "atanh at an infinite or NaN argument has its limit value");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn cos() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).cos();
        ensures!(cosh_ok(r, -y, x), "cos at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn sin() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).sin();
        ensures!(sinh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "sin at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn tan() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).tan();
        ensures!(tanh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "tan at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn asin() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).asin();
        ensures!(asinh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "asin at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn atan() {
        let (x, y) = special_i();
        let r = Complex::new(x, y).atan();
        ensures!(atanh_ok(Complex::new(-r.imaginary(), r.real()), -y, x), "atan at an infinite or NaN argument is that of the hyperbolic function of iz");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(libm::sinf, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(f32::sin, model_f32::sin))]
        #[cfg_attr(kani, kani::stub(libm::cosf, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(f32::cos, model_f32::cos))]
        #[cfg_attr(kani, kani::stub(libm::sinhf, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(f32::sinh, model_f32::sinh))]
        #[cfg_attr(kani, kani::stub(libm::coshf, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(f32::cosh, model_f32::cosh))]
        #[cfg_attr(kani, kani::stub(libm::logf, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(f32::ln, model_f32::ln))]
        #[cfg_attr(kani, kani::stub(libm::sqrtf, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(f32::sqrt, model_f32::sqrt))]
        #[cfg_attr(kani, kani::stub(libm::expf, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(f32::exp, model_f32::exp))]
        #[cfg_attr(kani, kani::stub(libm::atan2f, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(f32::atan2, model_f32::atan2))]
        #[cfg_attr(kani, kani::stub(libm::hypotf, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(f32::hypot, model_f32::hypot))]
        #[cfg_attr(kani, kani::stub(libm::sincosf, model_f32::sin_cos))]
        #[cfg_attr(kani, kani::stub(f32::sin_cos, model_f32::sin_cos))]
    pub fn atanh_poles() {
        let r = Complex::new(1.0 as f32, 0.0).atanh();
        ensures!(r.real() == INF && r.imaginary() == 0.0, "atanh(1) is infinite");
        let r = Complex::new(-1.0 as f32, 0.0).atanh();
        ensures!(r.real() == -INF && r.imaginary() == 0.0, "atanh(-1) is minus infinity");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub fn tests() {
        let a: [f32; 16] = any();
        let fin = |n: usize| { let mut r = true; let mut i = 0; while i < n { r &= a[i].is_finite(); i += 1; } r };
        ensures!(Vector1::<f32>::from([a[0]]).is_finite() == fin(1), "a vector is finite exactly when its components are");
        ensures!(Vector2::from([a[0], a[1]]).is_finite() == fin(2), "a vector is finite exactly when its components are");
        ensures!(Vector3::from([a[0], a[1], a[2]]).is_finite() == fin(3), "a vector is finite exactly when its components are");
        ensures!(Vector4::from([a[0], a[1], a[2], a[3]]).is_finite() == fin(4), "a vector is finite exactly when its components are");
        ensures!(Quaternion::new(a[0], a[1], a[2], a[3]).is_finite() == fin(4), "a quaternion is finite exactly when its components are");
        let z = Complex::new(a[0], a[1]);
        let nan = a[0].is_nan() || a[1].is_nan();
        ensures!(z.is_finite() == fin(2), "a complex number is finite exactly when its parts are");
        ensures!(z.is_nan() == nan, "a complex number is not a number exactly when a part is not");
        ensures!(z.is_infinite() == (!nan && !fin(2)), "a complex number is infinite exactly when a part is and none is NaN");
        ensures!(Radians(a[0]).is_finite() == fin(1) && Degrees(a[0]).is_finite() == fin(1), "an angle is finite exactly when its measure is");
        ensures!(Matrix::<f32, 1, 1>::from([[a[0]]]).is_finite() == fin(1), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 2, 2>::from([[a[0], a[1]], [a[2], a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 3, 3>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]).is_finite() == fin(9), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 4, 4>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]], [a[8], a[9], a[10], a[11]], [a[12], a[13], a[14], a[15]]]).is_finite() == fin(16), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 2, 3>::from([[a[0], a[1]], [a[2], a[3]], [a[4], a[5]]]).is_finite() == fin(6), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 3, 2>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]]]).is_finite() == fin(6), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 2, 4>::from([[a[0], a[1]], [a[2], a[3]], [a[4], a[5]], [a[6], a[7]]]).is_finite() == fin(8), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 4, 2>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]]]).is_finite() == fin(8), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 3, 4>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]], [a[9], a[10], a[11]]]).is_finite() == fin(12), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 4, 3>::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]], [a[8], a[9], a[10], a[11]]]).is_finite() == fin(12), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 1, 2>::from([[a[0]], [a[1]]]).is_finite() == fin(2), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 1, 3>::from([[a[0]], [a[1]], [a[2]]]).is_finite() == fin(3), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 1, 4>::from([[a[0]], [a[1]], [a[2]], [a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 2, 1>::from([[a[0], a[1]]]).is_finite() == fin(2), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 3, 1>::from([[a[0], a[1], a[2]]]).is_finite() == fin(3), "a matrix is finite exactly when its entries are");
        ensures!(Matrix::<f32, 4, 1>::from([[a[0], a[1], a[2], a[3]]]).is_finite() == fin(4), "a matrix is finite exactly when its entries are");
        reached!();
    }
}

pub fn all() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    v.push(("C20", "special::at_f64::cosh", at_f64::cosh as fn()));
    v.push(("C20", "special::at_f64::sinh", at_f64::sinh as fn()));
    v.push(("C20", "special::at_f64::tanh", at_f64::tanh as fn()));
    v.push(("C20", "special::at_f64::asinh", at_f64::asinh as fn()));
    v.push(("C20", "special::at_f64::acosh", at_f64::acosh as fn()));
    v.push(("C20", "special::at_f64::acos", at_f64::acos as fn()));
    v.push(("C20", "special::at_f64::atanh", at_f64::atanh as fn()));
    v.push(("C20", "special::at_f64::cos", at_f64::cos as fn()));
    v.push(("C20", "special::at_f64::sin", at_f64::sin as fn()));
    v.push(("C20", "special::at_f64::tan", at_f64::tan as fn()));
    v.push(("C20", "special::at_f64::asin", at_f64::asin as fn()));
    v.push(("C20", "special::at_f64::atan", at_f64::atan as fn()));
    v.push(("C20", "special::at_f64::atanh_poles", at_f64::atanh_poles as fn()));
    v.push(("C20", "special::at_f64::tests", at_f64::tests as fn()));
    v.push(("C20", "special::at_f32::cosh", at_f32::cosh as fn()));
    v.push(("C20", "special::at_f32::sinh", at_f32::sinh as fn()));
    v.push(("C20", "special::at_f32::tanh", at_f32::tanh as fn()));
    v.push(("C20", "special::at_f32::asinh", at_f32::asinh as fn()));
    v.push(("C20", "special::at_f32::acosh", at_f32::acosh as fn()));
    v.push(("C20", "special::at_f32::acos", at_f32::acos as fn()));
    v.push(("C20", "special::at_f32::atanh", at_f32::atanh as fn()));
    v.push(("C20", "special::at_f32::cos", at_f32::cos as fn()));
    v.push(("C20", "special::at_f32::sin", at_f32::sin as fn()));
    v.push(("C20", "special::at_f32::tan", at_f32::tan as fn()));
    v.push(("C20", "special::at_f32::asin", at_f32::asin as fn()));
    v.push(("C20", "special::at_f32::atan", at_f32::atan as fn()));
    v.push(("C20", "special::at_f32::atanh_poles", at_f32::atanh_poles as fn()));
    v.push(("C20", "special::at_f32::tests", at_f32::tests as fn()));
    v
}
