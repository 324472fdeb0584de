//! The scalar traits of the primitive types. Under Kani the elementary functions of libm are replaced by
//! uninterpreted stand-ins (an injective tag of function and arguments), so that the obligation is "this
//! method is this function of these arguments, for every argument"; natively they are the functions of std.
//! Generated by tools/gen_numeric.py.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_numeric::*;
#[cfg(kani)]
fn tag64(op: u64, x: f64) -> f64 {
    f64::from_bits(x.to_bits() ^ (op << 8))
}
#[cfg(kani)]
fn tag32(op: u32, x: f32) -> f32 {
    f32::from_bits(x.to_bits() ^ (op << 8))
}
#[cfg(kani)]
fn tag64b(op: u64, x: f64, y: f64) -> f64 {
    f64::from_bits(x.to_bits() ^ y.to_bits().rotate_left(17) ^ (op << 8))
}
#[cfg(kani)]
fn tag32b(op: u32, x: f32, y: f32) -> f32 {
    f32::from_bits(x.to_bits() ^ y.to_bits().rotate_left(7) ^ (op << 8))
}

/// f64: what the methods mean
pub mod spec_f64 {
    pub fn floor(x: f64) -> f64 { #[cfg(kani)] { super::tag64(1, x) } #[cfg(not(kani))] { x.floor() } }
    pub fn ceil(x: f64) -> f64 { #[cfg(kani)] { super::tag64(2, x) } #[cfg(not(kani))] { x.ceil() } }
    pub fn round(x: f64) -> f64 { #[cfg(kani)] { super::tag64(3, x) } #[cfg(not(kani))] { x.round() } }
    pub fn trunc(x: f64) -> f64 { #[cfg(kani)] { super::tag64(4, x) } #[cfg(not(kani))] { x.trunc() } }
    pub fn sin(x: f64) -> f64 { #[cfg(kani)] { super::tag64(5, x) } #[cfg(not(kani))] { x.sin() } }
    pub fn cos(x: f64) -> f64 { #[cfg(kani)] { super::tag64(6, x) } #[cfg(not(kani))] { x.cos() } }
    pub fn tan(x: f64) -> f64 { #[cfg(kani)] { super::tag64(7, x) } #[cfg(not(kani))] { x.tan() } }
    pub fn asin(x: f64) -> f64 { #[cfg(kani)] { super::tag64(8, x) } #[cfg(not(kani))] { x.asin() } }
    pub fn acos(x: f64) -> f64 { #[cfg(kani)] { super::tag64(9, x) } #[cfg(not(kani))] { x.acos() } }
    pub fn atan(x: f64) -> f64 { #[cfg(kani)] { super::tag64(10, x) } #[cfg(not(kani))] { x.atan() } }
    pub fn sinh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(11, x) } #[cfg(not(kani))] { x.sinh() } }
    pub fn cosh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(12, x) } #[cfg(not(kani))] { x.cosh() } }
    pub fn tanh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(13, x) } #[cfg(not(kani))] { x.tanh() } }
    pub fn asinh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(14, x) } #[cfg(not(kani))] { x.asinh() } }
    pub fn acosh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(15, x) } #[cfg(not(kani))] { x.acosh() } }
    pub fn atanh(x: f64) -> f64 { #[cfg(kani)] { super::tag64(16, x) } #[cfg(not(kani))] { x.atanh() } }
    pub fn log2(x: f64) -> f64 { #[cfg(kani)] { super::tag64(17, x) } #[cfg(not(kani))] { x.log2() } }
    pub fn log10(x: f64) -> f64 { #[cfg(kani)] { super::tag64(18, x) } #[cfg(not(kani))] { x.log10() } }
    pub fn ln(x: f64) -> f64 { #[cfg(kani)] { super::tag64(19, x) } #[cfg(not(kani))] { x.ln() } }
    pub fn ln_1p(x: f64) -> f64 { #[cfg(kani)] { super::tag64(20, x) } #[cfg(not(kani))] { x.ln_1p() } }
    pub fn sqrt(x: f64) -> f64 { #[cfg(kani)] { super::tag64(21, x) } #[cfg(not(kani))] { x.sqrt() } }
    pub fn cbrt(x: f64) -> f64 { #[cfg(kani)] { super::tag64(22, x) } #[cfg(not(kani))] { x.cbrt() } }
    pub fn exp(x: f64) -> f64 { #[cfg(kani)] { super::tag64(23, x) } #[cfg(not(kani))] { x.exp() } }
    pub fn exp2(x: f64) -> f64 { #[cfg(kani)] { super::tag64(24, x) } #[cfg(not(kani))] { x.exp2() } }
    pub fn exp_m1(x: f64) -> f64 { #[cfg(kani)] { super::tag64(25, x) } #[cfg(not(kani))] { x.exp_m1() } }
    pub fn hypot(x: f64, y: f64) -> f64 { #[cfg(kani)] { super::tag64b(26, x, y) } #[cfg(not(kani))] { x.hypot(y) } }
    pub fn atan2(x: f64, y: f64) -> f64 { #[cfg(kani)] { super::tag64b(27, x, y) } #[cfg(not(kani))] { x.atan2(y) } }
    pub fn powf(x: f64, y: f64) -> f64 { #[cfg(kani)] { super::tag64b(28, x, y) } #[cfg(not(kani))] { x.powf(y) } }
    pub fn mul_add(x: f64, y: f64, z: f64) -> f64 { #[cfg(kani)] { super::tag64b(29, super::tag64b(29, x, y), z) } #[cfg(not(kani))] { x.mul_add(y, z) } }
    pub fn sin_cos(x: f64) -> (f64, f64) { (sin(x), cos(x)) }
}
/// f32: what the methods mean
pub mod spec_f32 {
    pub fn floor(x: f32) -> f32 { #[cfg(kani)] { super::tag32(1, x) } #[cfg(not(kani))] { x.floor() } }
    pub fn ceil(x: f32) -> f32 { #[cfg(kani)] { super::tag32(2, x) } #[cfg(not(kani))] { x.ceil() } }
    pub fn round(x: f32) -> f32 { #[cfg(kani)] { super::tag32(3, x) } #[cfg(not(kani))] { x.round() } }
    pub fn trunc(x: f32) -> f32 { #[cfg(kani)] { super::tag32(4, x) } #[cfg(not(kani))] { x.trunc() } }
    pub fn sin(x: f32) -> f32 { #[cfg(kani)] { super::tag32(5, x) } #[cfg(not(kani))] { x.sin() } }
    pub fn cos(x: f32) -> f32 { #[cfg(kani)] { super::tag32(6, x) } #[cfg(not(kani))] { x.cos() } }
    pub fn tan(x: f32) -> f32 { #[cfg(kani)] { super::tag32(7, x) } #[cfg(not(kani))] { x.tan() } }
    pub fn asin(x: f32) -> f32 { #[cfg(kani)] { super::tag32(8, x) } #[cfg(not(kani))] { x.asin() } }
    pub fn acos(x: f32) -> f32 { #[cfg(kani)] { super::tag32(9, x) } #[cfg(not(kani))] { x.acos() } }
    pub fn atan(x: f32) -> f32 { #[cfg(kani)] { super::tag32(10, x) } #[cfg(not(kani))] { x.atan() } }
    pub fn sinh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(11, x) } #[cfg(not(kani))] { x.sinh() } }
    pub fn cosh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(12, x) } #[cfg(not(kani))] { x.cosh() } }
    pub fn tanh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(13, x) } #[cfg(not(kani))] { x.tanh() } }
    pub fn asinh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(14, x) } #[cfg(not(kani))] { x.asinh() } }
    pub fn acosh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(15, x) } #[cfg(not(kani))] { x.acosh() } }
    pub fn atanh(x: f32) -> f32 { #[cfg(kani)] { super::tag32(16, x) } #[cfg(not(kani))] { x.atanh() } }
    pub fn log2(x: f32) -> f32 { #[cfg(kani)] { super::tag32(17, x) } #[cfg(not(kani))] { x.log2() } }
    pub fn log10(x: f32) -> f32 { #[cfg(kani)] { super::tag32(18, x) } #[cfg(not(kani))] { x.log10() } }
    pub fn ln(x: f32) -> f32 { #[cfg(kani)] { super::tag32(19, x) } #[cfg(not(kani))] { x.ln() } }
    pub fn ln_1p(x: f32) -> f32 { #[cfg(kani)] { super::tag32(20, x) } #[cfg(not(kani))] { x.ln_1p() } }
    pub fn sqrt(x: f32) -> f32 { #[cfg(kani)] { super::tag32(21, x) } #[cfg(not(kani))] { x.sqrt() } }
    pub fn cbrt(x: f32) -> f32 { #[cfg(kani)] { super::tag32(22, x) } #[cfg(not(kani))] { x.cbrt() } }
    pub fn exp(x: f32) -> f32 { #[cfg(kani)] { super::tag32(23, x) } #[cfg(not(kani))] { x.exp() } }
    pub fn exp2(x: f32) -> f32 { #[cfg(kani)] { super::tag32(24, x) } #[cfg(not(kani))] { x.exp2() } }
    pub fn exp_m1(x: f32) -> f32 { #[cfg(kani)] { super::tag32(25, x) } #[cfg(not(kani))] { x.exp_m1() } }
    pub fn hypot(x: f32, y: f32) -> f32 { #[cfg(kani)] { super::tag32b(26, x, y) } #[cfg(not(kani))] { x.hypot(y) } }
    pub fn atan2(x: f32, y: f32) -> f32 { #[cfg(kani)] { super::tag32b(27, x, y) } #[cfg(not(kani))] { x.atan2(y) } }
    pub fn powf(x: f32, y: f32) -> f32 { #[cfg(kani)] { super::tag32b(28, x, y) } #[cfg(not(kani))] { x.powf(y) } }
    pub fn mul_add(x: f32, y: f32, z: f32) -> f32 { #[cfg(kani)] { super::tag32b(29, super::tag32b(29, x, y), z) } #[cfg(not(kani))] { x.mul_add(y, z) } }
    pub fn sin_cos(x: f32) -> (f32, f32) { (sin(x), cos(x)) }
}
pub mod float_f64 {
    use super::*;
    pub(super) fn same(a: f64, b: f64) -> bool {
        if a.to_bits() == b.to_bits() {
            return true;
        }
        #[cfg(kani)]
        {
            false
        }
        #[cfg(not(kani))]
        {
            (a != a && b != b) || (a - b).abs() <= 1e-9 * b.abs() || (a - b).abs() < 1e-300
        }
    }
    fn arb() -> f64 {
        any()
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn floor() {
        let x = arb();
        ensures!(same(SimdScalarFloat::floor(x), spec_f64::floor(x)), "floor is the floor of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn ceil() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ceil(x), spec_f64::ceil(x)), "ceil is the ceil of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn round() {
        let x = arb();
        ensures!(same(SimdScalarFloat::round(x), spec_f64::round(x)), "round is the round of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn trunc() {
        let x = arb();
        ensures!(same(SimdScalarFloat::trunc(x), spec_f64::trunc(x)), "trunc is the trunc of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn sin() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sin(x), spec_f64::sin(x)), "sin is the sin of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn cos() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cos(x), spec_f64::cos(x)), "cos is the cos of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn tan() {
        let x = arb();
        ensures!(same(SimdScalarFloat::tan(x), spec_f64::tan(x)), "tan is the tan of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn asin() {
        let x = arb();
        ensures!(same(SimdScalarFloat::asin(x), spec_f64::asin(x)), "asin is the asin of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn acos() {
        let x = arb();
        ensures!(same(SimdScalarFloat::acos(x), spec_f64::acos(x)), "acos is the acos of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn atan() {
        let x = arb();
        ensures!(same(SimdScalarFloat::atan(x), spec_f64::atan(x)), "atan is the atan of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn sinh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sinh(x), spec_f64::sinh(x)), "sinh is the sinh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn cosh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cosh(x), spec_f64::cosh(x)), "cosh is the cosh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn tanh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::tanh(x), spec_f64::tanh(x)), "tanh is the tanh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn asinh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::asinh(x), spec_f64::asinh(x)), "asinh is the asinh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn acosh() {
        let x = arb();
        requires!(cfg!(kani) || x >= 1.0);
        ensures!(same(SimdScalarFloat::acosh(x), spec_f64::acosh(x)), "acosh is the acosh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn atanh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::atanh(x), spec_f64::atanh(x)), "atanh is the atanh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn log2() {
        let x = arb();
        ensures!(same(SimdScalarFloat::log2(x), spec_f64::log2(x)), "log2 is the log2 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn log10() {
        let x = arb();
        ensures!(same(SimdScalarFloat::log10(x), spec_f64::log10(x)), "log10 is the log10 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn ln() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ln(x), spec_f64::ln(x)), "ln is the ln of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn ln_1p() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ln_1p(x), spec_f64::ln_1p(x)), "ln_1p is the ln_1p of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn sqrt() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sqrt(x), spec_f64::sqrt(x)), "sqrt is the sqrt of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn cbrt() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cbrt(x), spec_f64::cbrt(x)), "cbrt is the cbrt of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn exp() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp(x), spec_f64::exp(x)), "exp is the exp of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn exp2() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp2(x), spec_f64::exp2(x)), "exp2 is the exp2 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn exp_m1() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp_m1(x), spec_f64::exp_m1(x)), "exp_m1 is the exp_m1 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn hypot() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::hypot(x, y), spec_f64::hypot(x, y)), "hypot is the hypot of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn atan2() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::atan2(x, y), spec_f64::atan2(x, y)), "atan2 is the atan2 of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn powf() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::powf(x, y), spec_f64::powf(x, y)), "powf is the powf of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn mul_add() {
        let (x, y, z) = (arb(), arb(), arb());
        ensures!(same(SimdScalarFloat::mul_add(x, y, z), spec_f64::mul_add(x, y, z)), "mul_add is self * a + b");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn sin_cos() {
        let x = arb();
        let (s, c) = SimdScalarFloat::sin_cos(x);
        ensures!(same(s, spec_f64::sin(x)) & same(c, spec_f64::cos(x)), "sin_cos is the sine and the cosine");
        let (s, c) = SimdScalarFloat::sinh_cosh(x);
        ensures!(same(s, spec_f64::sinh(x)) & same(c, spec_f64::cosh(x)), "sinh_cosh is the hyperbolic sine and cosine");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn fract() {
        let x = arb();
        let w = x - spec_f64::trunc(x);
        let r = SimdScalarFloat::fract(x);
        ensures!(r == w || (r != r && w != w) || same(r, w), "fract is what trunc leaves");
        reached!();
    }
    // floating-point division: two identical dividers are out of the solver's reach; evaluated on drawn inputs only
    pub fn powi() {
        let x = arb();
        let n: i32 = any();
        requires!(n >= -2 && n <= 3);
        let y = if n < 0 { 1.0 / x } else { x };
        let w: f64 = match n { 0 => 1.0, 1 | -1 => y, 2 | -2 => y * y, _ => y * (y * y) };
        let r = SimdScalarFloat::powi(x, n);
        ensures!(same(r, w) || r == w || (r != r && w != w), "powi is the repeated product [exponents -2 to 3]");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn classes() {
        let x = arb();
        let (nan, inf) = (x != x, x == f64::INFINITY || x == f64::NEG_INFINITY);
        ensures!(SimdScalarFloat::is_nan(x) == nan, "is_nan");
        ensures!(SimdScalarFloat::is_infinite(x) == inf, "is_infinite");
        ensures!(SimdScalarFloat::is_finite(x) == (!nan && !inf), "is_finite");
        let e = x.to_bits() & 0x7fffffffffffffff;
        let m = 1.0f64 / 1.0;
        let sub = e != 0 && e < f64::MIN_POSITIVE.to_bits();
        let _ = m;
        ensures!(SimdScalarFloat::is_subnormal(x) == sub, "is_subnormal");
        ensures!(SimdScalarFloat::is_normal(x) == (!nan && !inf && !sub && e != 0), "is_normal");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn signs() {
        let (x, y) = (arb(), arb());
        let top = 1u64 << 63;
        let (sx, sy) = (x.to_bits() & top, y.to_bits() & top);
        ensures!(SimdScalarSigned::is_sign_positive(x) == (sx == 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (sx != 0), "is_sign_negative");
        requires!(x == x);
        ensures!(SimdScalarSigned::abs(x).to_bits() == x.to_bits() & !top, "abs clears the sign");
        ensures!(SimdScalarSigned::copysign(x, y).to_bits() == (x.to_bits() & !top) | sy, "copysign takes the sign of its argument");
        ensures!(SimdScalarSigned::signum(x) == if sx == 0 { 1.0 } else { -1.0 }, "signum");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn order() {
        let (x, y, z) = (arb(), arb(), arb());
        requires!(x == x && y == y && z == z);
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn extrema_nan() {
        let x = arb();
        let n = f64::NAN;
        requires!(x == x);
        ensures!(SimdScalarOrd::max(x, n) == x && SimdScalarOrd::max(n, x) == x, "max ignores NaN");
        ensures!(SimdScalarOrd::min(x, n) == x && SimdScalarOrd::min(n, x) == x, "min ignores NaN");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn constants() {
        ensures!(<f64 as SimdScalarFloat>::pi() == std::f64::consts::PI, "constant pi");
        ensures!(<f64 as SimdScalarFloat>::two_pi() == std::f64::consts::TAU, "constant two_pi");
        ensures!(<f64 as SimdScalarFloat>::frac_pi_2() == std::f64::consts::FRAC_PI_2, "constant frac_pi_2");
        ensures!(<f64 as SimdScalarFloat>::frac_pi_3() == std::f64::consts::FRAC_PI_3, "constant frac_pi_3");
        ensures!(<f64 as SimdScalarFloat>::frac_pi_4() == std::f64::consts::FRAC_PI_4, "constant frac_pi_4");
        ensures!(<f64 as SimdScalarFloat>::frac_pi_6() == std::f64::consts::FRAC_PI_6, "constant frac_pi_6");
        ensures!(<f64 as SimdScalarFloat>::frac_pi_8() == std::f64::consts::FRAC_PI_8, "constant frac_pi_8");
        ensures!(<f64 as SimdScalarFloat>::frac_1_pi() == std::f64::consts::FRAC_1_PI, "constant frac_1_pi");
        ensures!(<f64 as SimdScalarFloat>::frac_2_pi() == std::f64::consts::FRAC_2_PI, "constant frac_2_pi");
        ensures!(<f64 as SimdScalarFloat>::frac_2_sqrt_pi() == std::f64::consts::FRAC_2_SQRT_PI, "constant frac_2_sqrt_pi");
        ensures!(<f64 as SimdScalarFloat>::e() == std::f64::consts::E, "constant e");
        ensures!(<f64 as SimdScalarFloat>::log2_e() == std::f64::consts::LOG2_E, "constant log2_e");
        ensures!(<f64 as SimdScalarFloat>::log10_e() == std::f64::consts::LOG10_E, "constant log10_e");
        ensures!(<f64 as SimdScalarFloat>::ln_2() == std::f64::consts::LN_2, "constant ln_2");
        ensures!(<f64 as SimdScalarFloat>::ln_10() == std::f64::consts::LN_10, "constant ln_10");
        ensures!(<f64 as SimdScalarFloat>::sqrt_2() == std::f64::consts::SQRT_2, "constant sqrt_2");
        ensures!(<f64 as SimdScalarFloat>::frac_1_sqrt_2() == std::f64::consts::FRAC_1_SQRT_2, "constant frac_1_sqrt_2");
        ensures!(<f64 as SimdScalarFloat>::nan().is_nan(), "nan");
        ensures!(<f64 as SimdScalarFloat>::infinity() == f64::INFINITY, "infinity");
        ensures!(<f64 as SimdScalarFloat>::neg_infinity() == f64::NEG_INFINITY, "neg_infinity");
        ensures!(<f64 as SimdScalarFloat>::neg_zero().to_bits() == (-0.0f64).to_bits(), "neg_zero");
        ensures!(<f64 as SimdScalarFloat>::machine_epsilon() == f64::EPSILON, "machine_epsilon");
        ensures!(<f64 as SimdScalarFloat>::min_positive_value() == f64::MIN_POSITIVE, "min_positive_value");
        ensures!(<f64 as SimdScalarBounded>::min_value() == f64::MIN, "min_value");
        ensures!(<f64 as SimdScalarBounded>::max_value() == f64::MAX, "max_value");
        ensures!(<f64 as SimdScalarCmp>::default_epsilon() == f64::EPSILON, "default_epsilon");
        reached!();
    }
}
pub mod fdiv_f64 {
    use super::*;
    use super::float_f64::same;
    fn arb() -> f64 { any() }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(f64::floor, spec_f64::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(f64::ceil, spec_f64::ceil))]
            #[cfg_attr(kani, kani::stub(libm::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(f64::round, spec_f64::round))]
            #[cfg_attr(kani, kani::stub(libm::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(f64::trunc, spec_f64::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(f64::sin, spec_f64::sin))]
            #[cfg_attr(kani, kani::stub(libm::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(f64::cos, spec_f64::cos))]
            #[cfg_attr(kani, kani::stub(libm::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(f64::tan, spec_f64::tan))]
            #[cfg_attr(kani, kani::stub(libm::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(f64::asin, spec_f64::asin))]
            #[cfg_attr(kani, kani::stub(libm::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(f64::acos, spec_f64::acos))]
            #[cfg_attr(kani, kani::stub(libm::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(f64::atan, spec_f64::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(f64::sinh, spec_f64::sinh))]
            #[cfg_attr(kani, kani::stub(libm::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(f64::cosh, spec_f64::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(f64::tanh, spec_f64::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(f64::asinh, spec_f64::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(f64::acosh, spec_f64::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(f64::atanh, spec_f64::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(f64::log2, spec_f64::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(f64::log10, spec_f64::log10))]
            #[cfg_attr(kani, kani::stub(libm::log, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(f64::ln, spec_f64::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(f64::ln_1p, spec_f64::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(f64::sqrt, spec_f64::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(f64::cbrt, spec_f64::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(f64::exp, spec_f64::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(f64::exp2, spec_f64::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(f64::exp_m1, spec_f64::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(f64::hypot, spec_f64::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(f64::atan2, spec_f64::atan2))]
            #[cfg_attr(kani, kani::stub(libm::pow, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(f64::powf, spec_f64::powf))]
            #[cfg_attr(kani, kani::stub(libm::fma, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(f64::mul_add, spec_f64::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincos, spec_f64::sin_cos))]
            #[cfg_attr(kani, kani::stub(f64::sin_cos, spec_f64::sin_cos))]
    pub fn log() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(not(kani)) || (x == x && y == y));
        let (p, q) = (spec_f64::ln(x), spec_f64::ln(y));
        let w = p / q;
        let r = SimdScalarFloat::log(x, y);
        ensures!(r == w || (r != r && w != w) || (cfg!(not(kani)) && same(r, w)), "log is the quotient of the logarithms");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn recip() {
        let x = arb();
        let w = 1.0 / x;
        let r = SimdScalarFloat::recip(x);
        ensures!(r == w || (r != r && w != w), "recip is one by the number");
        reached!();
    }
}
pub mod float_f32 {
    use super::*;
    pub(super) fn same(a: f32, b: f32) -> bool {
        if a.to_bits() == b.to_bits() {
            return true;
        }
        #[cfg(kani)]
        {
            false
        }
        #[cfg(not(kani))]
        {
            (a != a && b != b) || (a - b).abs() <= 1e-3 * b.abs() || (a - b).abs() < 1e-36
        }
    }
    fn arb() -> f32 {
        any()
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn floor() {
        let x = arb();
        ensures!(same(SimdScalarFloat::floor(x), spec_f32::floor(x)), "floor is the floor of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn ceil() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ceil(x), spec_f32::ceil(x)), "ceil is the ceil of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn round() {
        let x = arb();
        ensures!(same(SimdScalarFloat::round(x), spec_f32::round(x)), "round is the round of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn trunc() {
        let x = arb();
        ensures!(same(SimdScalarFloat::trunc(x), spec_f32::trunc(x)), "trunc is the trunc of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn sin() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sin(x), spec_f32::sin(x)), "sin is the sin of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn cos() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cos(x), spec_f32::cos(x)), "cos is the cos of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn tan() {
        let x = arb();
        ensures!(same(SimdScalarFloat::tan(x), spec_f32::tan(x)), "tan is the tan of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn asin() {
        let x = arb();
        ensures!(same(SimdScalarFloat::asin(x), spec_f32::asin(x)), "asin is the asin of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn acos() {
        let x = arb();
        ensures!(same(SimdScalarFloat::acos(x), spec_f32::acos(x)), "acos is the acos of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn atan() {
        let x = arb();
        ensures!(same(SimdScalarFloat::atan(x), spec_f32::atan(x)), "atan is the atan of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn sinh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sinh(x), spec_f32::sinh(x)), "sinh is the sinh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn cosh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cosh(x), spec_f32::cosh(x)), "cosh is the cosh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn tanh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::tanh(x), spec_f32::tanh(x)), "tanh is the tanh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn asinh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::asinh(x), spec_f32::asinh(x)), "asinh is the asinh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn acosh() {
        let x = arb();
        requires!(cfg!(kani) || x >= 1.0);
        ensures!(same(SimdScalarFloat::acosh(x), spec_f32::acosh(x)), "acosh is the acosh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn atanh() {
        let x = arb();
        ensures!(same(SimdScalarFloat::atanh(x), spec_f32::atanh(x)), "atanh is the atanh of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn log2() {
        let x = arb();
        ensures!(same(SimdScalarFloat::log2(x), spec_f32::log2(x)), "log2 is the log2 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn log10() {
        let x = arb();
        ensures!(same(SimdScalarFloat::log10(x), spec_f32::log10(x)), "log10 is the log10 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn ln() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ln(x), spec_f32::ln(x)), "ln is the ln of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn ln_1p() {
        let x = arb();
        ensures!(same(SimdScalarFloat::ln_1p(x), spec_f32::ln_1p(x)), "ln_1p is the ln_1p of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn sqrt() {
        let x = arb();
        ensures!(same(SimdScalarFloat::sqrt(x), spec_f32::sqrt(x)), "sqrt is the sqrt of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn cbrt() {
        let x = arb();
        ensures!(same(SimdScalarFloat::cbrt(x), spec_f32::cbrt(x)), "cbrt is the cbrt of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn exp() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp(x), spec_f32::exp(x)), "exp is the exp of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn exp2() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp2(x), spec_f32::exp2(x)), "exp2 is the exp2 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn exp_m1() {
        let x = arb();
        ensures!(same(SimdScalarFloat::exp_m1(x), spec_f32::exp_m1(x)), "exp_m1 is the exp_m1 of the argument");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn hypot() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::hypot(x, y), spec_f32::hypot(x, y)), "hypot is the hypot of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn atan2() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::atan2(x, y), spec_f32::atan2(x, y)), "atan2 is the atan2 of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn powf() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(kani) || (x == x && y == y));
        ensures!(same(SimdScalarFloat::powf(x, y), spec_f32::powf(x, y)), "powf is the powf of the arguments in this order");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn mul_add() {
        let (x, y, z) = (arb(), arb(), arb());
        ensures!(same(SimdScalarFloat::mul_add(x, y, z), spec_f32::mul_add(x, y, z)), "mul_add is self * a + b");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn sin_cos() {
        let x = arb();
        let (s, c) = SimdScalarFloat::sin_cos(x);
        ensures!(same(s, spec_f32::sin(x)) & same(c, spec_f32::cos(x)), "sin_cos is the sine and the cosine");
        let (s, c) = SimdScalarFloat::sinh_cosh(x);
        ensures!(same(s, spec_f32::sinh(x)) & same(c, spec_f32::cosh(x)), "sinh_cosh is the hyperbolic sine and cosine");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn fract() {
        let x = arb();
        let w = x - spec_f32::trunc(x);
        let r = SimdScalarFloat::fract(x);
        ensures!(r == w || (r != r && w != w) || same(r, w), "fract is what trunc leaves");
        reached!();
    }
    // floating-point division: two identical dividers are out of the solver's reach; evaluated on drawn inputs only
    pub fn powi() {
        let x = arb();
        let n: i32 = any();
        requires!(n >= -2 && n <= 3);
        let y = if n < 0 { 1.0 / x } else { x };
        let w: f32 = match n { 0 => 1.0, 1 | -1 => y, 2 | -2 => y * y, _ => y * (y * y) };
        let r = SimdScalarFloat::powi(x, n);
        ensures!(same(r, w) || r == w || (r != r && w != w), "powi is the repeated product [exponents -2 to 3]");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn classes() {
        let x = arb();
        let (nan, inf) = (x != x, x == f32::INFINITY || x == f32::NEG_INFINITY);
        ensures!(SimdScalarFloat::is_nan(x) == nan, "is_nan");
        ensures!(SimdScalarFloat::is_infinite(x) == inf, "is_infinite");
        ensures!(SimdScalarFloat::is_finite(x) == (!nan && !inf), "is_finite");
        let e = x.to_bits() & 0x7fffffff;
        let m = 1.0f32 / 1.0;
        let sub = e != 0 && e < f32::MIN_POSITIVE.to_bits();
        let _ = m;
        ensures!(SimdScalarFloat::is_subnormal(x) == sub, "is_subnormal");
        ensures!(SimdScalarFloat::is_normal(x) == (!nan && !inf && !sub && e != 0), "is_normal");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn signs() {
        let (x, y) = (arb(), arb());
        let top = 1u32 << 31;
        let (sx, sy) = (x.to_bits() & top, y.to_bits() & top);
        ensures!(SimdScalarSigned::is_sign_positive(x) == (sx == 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (sx != 0), "is_sign_negative");
        requires!(x == x);
        ensures!(SimdScalarSigned::abs(x).to_bits() == x.to_bits() & !top, "abs clears the sign");
        ensures!(SimdScalarSigned::copysign(x, y).to_bits() == (x.to_bits() & !top) | sy, "copysign takes the sign of its argument");
        ensures!(SimdScalarSigned::signum(x) == if sx == 0 { 1.0 } else { -1.0 }, "signum");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn order() {
        let (x, y, z) = (arb(), arb(), arb());
        requires!(x == x && y == y && z == z);
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn extrema_nan() {
        let x = arb();
        let n = f32::NAN;
        requires!(x == x);
        ensures!(SimdScalarOrd::max(x, n) == x && SimdScalarOrd::max(n, x) == x, "max ignores NaN");
        ensures!(SimdScalarOrd::min(x, n) == x && SimdScalarOrd::min(n, x) == x, "min ignores NaN");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn constants() {
        ensures!(<f32 as SimdScalarFloat>::pi() == std::f32::consts::PI, "constant pi");
        ensures!(<f32 as SimdScalarFloat>::two_pi() == std::f32::consts::TAU, "constant two_pi");
        ensures!(<f32 as SimdScalarFloat>::frac_pi_2() == std::f32::consts::FRAC_PI_2, "constant frac_pi_2");
        ensures!(<f32 as SimdScalarFloat>::frac_pi_3() == std::f32::consts::FRAC_PI_3, "constant frac_pi_3");
        ensures!(<f32 as SimdScalarFloat>::frac_pi_4() == std::f32::consts::FRAC_PI_4, "constant frac_pi_4");
        ensures!(<f32 as SimdScalarFloat>::frac_pi_6() == std::f32::consts::FRAC_PI_6, "constant frac_pi_6");
        ensures!(<f32 as SimdScalarFloat>::frac_pi_8() == std::f32::consts::FRAC_PI_8, "constant frac_pi_8");
        ensures!(<f32 as SimdScalarFloat>::frac_1_pi() == std::f32::consts::FRAC_1_PI, "constant frac_1_pi");
        ensures!(<f32 as SimdScalarFloat>::frac_2_pi() == std::f32::consts::FRAC_2_PI, "constant frac_2_pi");
        ensures!(<f32 as SimdScalarFloat>::frac_2_sqrt_pi() == std::f32::consts::FRAC_2_SQRT_PI, "constant frac_2_sqrt_pi");
        ensures!(<f32 as SimdScalarFloat>::e() == std::f32::consts::E, "constant e");
        ensures!(<f32 as SimdScalarFloat>::log2_e() == std::f32::consts::LOG2_E, "constant log2_e");
        ensures!(<f32 as SimdScalarFloat>::log10_e() == std::f32::consts::LOG10_E, "constant log10_e");
        ensures!(<f32 as SimdScalarFloat>::ln_2() == std::f32::consts::LN_2, "constant ln_2");
        ensures!(<f32 as SimdScalarFloat>::ln_10() == std::f32::consts::LN_10, "constant ln_10");
        ensures!(<f32 as SimdScalarFloat>::sqrt_2() == std::f32::consts::SQRT_2, "constant sqrt_2");
        ensures!(<f32 as SimdScalarFloat>::frac_1_sqrt_2() == std::f32::consts::FRAC_1_SQRT_2, "constant frac_1_sqrt_2");
        ensures!(<f32 as SimdScalarFloat>::nan().is_nan(), "nan");
        ensures!(<f32 as SimdScalarFloat>::infinity() == f32::INFINITY, "infinity");
        ensures!(<f32 as SimdScalarFloat>::neg_infinity() == f32::NEG_INFINITY, "neg_infinity");
        ensures!(<f32 as SimdScalarFloat>::neg_zero().to_bits() == (-0.0f32).to_bits(), "neg_zero");
        ensures!(<f32 as SimdScalarFloat>::machine_epsilon() == f32::EPSILON, "machine_epsilon");
        ensures!(<f32 as SimdScalarFloat>::min_positive_value() == f32::MIN_POSITIVE, "min_positive_value");
        ensures!(<f32 as SimdScalarBounded>::min_value() == f32::MIN, "min_value");
        ensures!(<f32 as SimdScalarBounded>::max_value() == f32::MAX, "max_value");
        ensures!(<f32 as SimdScalarCmp>::default_epsilon() == f32::EPSILON, "default_epsilon");
        reached!();
    }
}
pub mod fdiv_f32 {
    use super::*;
    use super::float_f32::same;
    fn arb() -> f32 { any() }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
            #[cfg_attr(kani, kani::stub(libm::floorf, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(f32::floor, spec_f32::floor))]
            #[cfg_attr(kani, kani::stub(libm::ceilf, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(f32::ceil, spec_f32::ceil))]
            #[cfg_attr(kani, kani::stub(libm::roundf, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(f32::round, spec_f32::round))]
            #[cfg_attr(kani, kani::stub(libm::truncf, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(f32::trunc, spec_f32::trunc))]
            #[cfg_attr(kani, kani::stub(libm::sinf, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(f32::sin, spec_f32::sin))]
            #[cfg_attr(kani, kani::stub(libm::cosf, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(f32::cos, spec_f32::cos))]
            #[cfg_attr(kani, kani::stub(libm::tanf, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(f32::tan, spec_f32::tan))]
            #[cfg_attr(kani, kani::stub(libm::asinf, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(f32::asin, spec_f32::asin))]
            #[cfg_attr(kani, kani::stub(libm::acosf, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(f32::acos, spec_f32::acos))]
            #[cfg_attr(kani, kani::stub(libm::atanf, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(f32::atan, spec_f32::atan))]
            #[cfg_attr(kani, kani::stub(libm::sinhf, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(f32::sinh, spec_f32::sinh))]
            #[cfg_attr(kani, kani::stub(libm::coshf, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(f32::cosh, spec_f32::cosh))]
            #[cfg_attr(kani, kani::stub(libm::tanhf, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(f32::tanh, spec_f32::tanh))]
            #[cfg_attr(kani, kani::stub(libm::asinhf, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(f32::asinh, spec_f32::asinh))]
            #[cfg_attr(kani, kani::stub(libm::acoshf, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(f32::acosh, spec_f32::acosh))]
            #[cfg_attr(kani, kani::stub(libm::atanhf, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(f32::atanh, spec_f32::atanh))]
            #[cfg_attr(kani, kani::stub(libm::log2f, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(f32::log2, spec_f32::log2))]
            #[cfg_attr(kani, kani::stub(libm::log10f, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(f32::log10, spec_f32::log10))]
            #[cfg_attr(kani, kani::stub(libm::logf, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(f32::ln, spec_f32::ln))]
            #[cfg_attr(kani, kani::stub(libm::log1pf, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(f32::ln_1p, spec_f32::ln_1p))]
            #[cfg_attr(kani, kani::stub(libm::sqrtf, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(f32::sqrt, spec_f32::sqrt))]
            #[cfg_attr(kani, kani::stub(libm::cbrtf, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(f32::cbrt, spec_f32::cbrt))]
            #[cfg_attr(kani, kani::stub(libm::expf, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(f32::exp, spec_f32::exp))]
            #[cfg_attr(kani, kani::stub(libm::exp2f, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(f32::exp2, spec_f32::exp2))]
            #[cfg_attr(kani, kani::stub(libm::expm1f, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(f32::exp_m1, spec_f32::exp_m1))]
            #[cfg_attr(kani, kani::stub(libm::hypotf, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(f32::hypot, spec_f32::hypot))]
            #[cfg_attr(kani, kani::stub(libm::atan2f, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(f32::atan2, spec_f32::atan2))]
            #[cfg_attr(kani, kani::stub(libm::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(f32::powf, spec_f32::powf))]
            #[cfg_attr(kani, kani::stub(libm::fmaf, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(f32::mul_add, spec_f32::mul_add))]
            #[cfg_attr(kani, kani::stub(libm::sincosf, spec_f32::sin_cos))]
            #[cfg_attr(kani, kani::stub(f32::sin_cos, spec_f32::sin_cos))]
    pub fn log() {
        let (x, y) = (arb(), arb());
        requires!(cfg!(not(kani)) || (x == x && y == y));
        let (p, q) = (spec_f32::ln(x), spec_f32::ln(y));
        let w = p / q;
        let r = SimdScalarFloat::log(x, y);
        ensures!(r == w || (r != r && w != w) || (cfg!(not(kani)) && same(r, w)), "log is the quotient of the logarithms");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(36))]
    pub fn recip() {
        let x = arb();
        let w = 1.0 / x;
        let r = SimdScalarFloat::recip(x);
        ensures!(r == w || (r != r && w != w), "recip is one by the number");
        reached!();
    }
}
pub mod int_i8 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (i8, i8) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != i8::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (i8, i8, i8) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<i8 as SimdScalarBounded>::min_value() <= x && x <= <i8 as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<i8 as SimdScalarBounded>::min_value() == i8::MIN && <i8 as SimdScalarBounded>::max_value() == i8::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
pub mod int_i16 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (i16, i16) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != i16::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (i16, i16, i16) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<i16 as SimdScalarBounded>::min_value() <= x && x <= <i16 as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<i16 as SimdScalarBounded>::min_value() == i16::MIN && <i16 as SimdScalarBounded>::max_value() == i16::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
pub mod int_i32 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (i32, i32) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != i32::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (i32, i32, i32) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<i32 as SimdScalarBounded>::min_value() <= x && x <= <i32 as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<i32 as SimdScalarBounded>::min_value() == i32::MIN && <i32 as SimdScalarBounded>::max_value() == i32::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
pub mod int_i64 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (i64, i64) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != i64::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (i64, i64, i64) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<i64 as SimdScalarBounded>::min_value() <= x && x <= <i64 as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<i64 as SimdScalarBounded>::min_value() == i64::MIN && <i64 as SimdScalarBounded>::max_value() == i64::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
pub mod int_i128 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (i128, i128) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != i128::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (i128, i128, i128) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<i128 as SimdScalarBounded>::min_value() <= x && x <= <i128 as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<i128 as SimdScalarBounded>::min_value() == i128::MIN && <i128 as SimdScalarBounded>::max_value() == i128::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
pub mod int_isize {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {
        let (x, y): (isize, isize) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 { 1 } else if x < 0 { -1 } else { 0 }, "signum");
        requires!(x != isize::MIN);
        let a = if x < 0 { -x } else { x };
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 { a } else { -a }, "copysign");
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {
        let (x, y, z): (isize, isize, isize) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");
        ensures!(<isize as SimdScalarBounded>::min_value() <= x && x <= <isize as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<isize as SimdScalarBounded>::min_value() == isize::MIN && <isize as SimdScalarBounded>::max_value() == isize::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");
        reached!();
    }
}
/// is the integer (negative, magnitude) a value of the type?
macro_rules! fits {
    ($x:expr, $to:ty) => {{
        let x = $x;
        let y = x as $to;
        // the round trip keeps the value and the sign
        #[allow(unused_comparisons)]
        { y as i128 == x as i128 && y as u128 == x as u128 && (x < 0) == (y < 0) }
    }};
}
macro_rules! to_int {
    ($x:ident; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        ensures!(r == if fits!($x, $to) { Some($x as $to) } else { None }, concat!("try_cast to ", stringify!($to), " keeps the value or refuses"));
        if fits!($x, $to) {
            let c: $to = cast($x);
            ensures!(c == $x as $to, concat!("cast to ", stringify!($to), " keeps the value"));
        }
    })*};
}
macro_rules! to_float {
    ($x:ident; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        ensures!(r == Some($x as $to), concat!("try_cast to ", stringify!($to), " gives the nearest float"));
        let c: $to = cast($x);
        ensures!(c == $x as $to, concat!("cast to ", stringify!($to), " gives the nearest float"));
    })*};
}
macro_rules! float_to_int {
    ($x:ident $f:ty; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        // truncation lies within the type: -1 beyond the minimum and the maximum plus one are excluded
        let lo = <$to>::MIN as $f;
        let hi = <$to>::MAX as $f;
        let top = if hi as $to == <$to>::MAX && (hi as $to as $f) == hi && (<$to>::MAX as u128) < (1u128 << <$f>::MANTISSA_DIGITS) { hi + 1.0 } else { hi };
        #[allow(unused_comparisons)]
        let above = if (<$to>::MIN as i128).unsigned_abs() < (1u128 << <$f>::MANTISSA_DIGITS) { $x > lo - 1.0 } else { $x >= lo };
        let ok = above && $x < top;
        ensures!(r == if ok { Some($x as $to) } else { None }, concat!("try_cast to ", stringify!($to), " truncates or refuses"));
    })*};
}

pub mod cast_u8 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: u8 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: u8 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_u16 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: u16 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: u16 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_u32 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: u32 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: u32 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_u64 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: u64 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: u64 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_u128 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: u128 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: u128 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_usize {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: usize = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: usize = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_i8 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: i8 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: i8 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_i16 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: i16 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: i16 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_i32 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: i32 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: i32 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_i64 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: i64 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: i64 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_i128 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: i128 = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: i128 = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_isize {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {
        let x: isize = any();
        to_int!(x; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: isize = any();
        to_float!(x; f32 f64);
        reached!();
    }
}
pub mod cast_f32 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u8() {
        let x: f32 = any();
        float_to_int!(x f32; u8);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u16() {
        let x: f32 = any();
        float_to_int!(x f32; u16);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u32() {
        let x: f32 = any();
        float_to_int!(x f32; u32);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u64() {
        let x: f32 = any();
        float_to_int!(x f32; u64);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u128() {
        let x: f32 = any();
        float_to_int!(x f32; u128);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_usize() {
        let x: f32 = any();
        float_to_int!(x f32; usize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i8() {
        let x: f32 = any();
        float_to_int!(x f32; i8);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i16() {
        let x: f32 = any();
        float_to_int!(x f32; i16);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i32() {
        let x: f32 = any();
        float_to_int!(x f32; i32);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i64() {
        let x: f32 = any();
        float_to_int!(x f32; i64);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i128() {
        let x: f32 = any();
        float_to_int!(x f32; i128);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_isize() {
        let x: f32 = any();
        float_to_int!(x f32; isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: f32 = any();
        requires!(x == x);
        let r: Option<f64> = try_cast(x);
        ensures!(r == Some(x as f64), "try_cast to f64 keeps the value");
        let r: Option<f32> = try_cast(x);
        ensures!(r == Some(x as f32), "try_cast to f32 gives the nearest float");
        reached!();
    }
}
pub mod cast_f64 {
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u8() {
        let x: f64 = any();
        float_to_int!(x f64; u8);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u16() {
        let x: f64 = any();
        float_to_int!(x f64; u16);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u32() {
        let x: f64 = any();
        float_to_int!(x f64; u32);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u64() {
        let x: f64 = any();
        float_to_int!(x f64; u64);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_u128() {
        let x: f64 = any();
        float_to_int!(x f64; u128);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_usize() {
        let x: f64 = any();
        float_to_int!(x f64; usize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i8() {
        let x: f64 = any();
        float_to_int!(x f64; i8);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i16() {
        let x: f64 = any();
        float_to_int!(x f64; i16);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i32() {
        let x: f64 = any();
        float_to_int!(x f64; i32);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i64() {
        let x: f64 = any();
        float_to_int!(x f64; i64);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_i128() {
        let x: f64 = any();
        float_to_int!(x f64; i128);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn to_isize() {
        let x: f64 = any();
        float_to_int!(x f64; isize);
        reached!();
    }
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {
        let x: f64 = any();
        requires!(x == x);
        let r: Option<f64> = try_cast(x);
        ensures!(r == Some(x as f64), "try_cast to f64 keeps the value");
        let r: Option<f32> = try_cast(x);
        ensures!(r == Some(x as f32), "try_cast to f32 gives the nearest float");
        reached!();
    }
}
pub fn all() -> Vec<Entry> {
    vec![
        ("C19", "numeric::float_f64::floor", float_f64::floor as fn()),
        ("C19", "numeric::float_f64::ceil", float_f64::ceil as fn()),
        ("C19", "numeric::float_f64::round", float_f64::round as fn()),
        ("C19", "numeric::float_f64::trunc", float_f64::trunc as fn()),
        ("C19", "numeric::float_f64::sin", float_f64::sin as fn()),
        ("C19", "numeric::float_f64::cos", float_f64::cos as fn()),
        ("C19", "numeric::float_f64::tan", float_f64::tan as fn()),
        ("C19", "numeric::float_f64::asin", float_f64::asin as fn()),
        ("C19", "numeric::float_f64::acos", float_f64::acos as fn()),
        ("C19", "numeric::float_f64::atan", float_f64::atan as fn()),
        ("C19", "numeric::float_f64::sinh", float_f64::sinh as fn()),
        ("C19", "numeric::float_f64::cosh", float_f64::cosh as fn()),
        ("C19", "numeric::float_f64::tanh", float_f64::tanh as fn()),
        ("C19", "numeric::float_f64::asinh", float_f64::asinh as fn()),
        ("C19", "numeric::float_f64::acosh", float_f64::acosh as fn()),
        ("C19", "numeric::float_f64::atanh", float_f64::atanh as fn()),
        ("C19", "numeric::float_f64::log2", float_f64::log2 as fn()),
        ("C19", "numeric::float_f64::log10", float_f64::log10 as fn()),
        ("C19", "numeric::float_f64::ln", float_f64::ln as fn()),
        ("C19", "numeric::float_f64::ln_1p", float_f64::ln_1p as fn()),
        ("C19", "numeric::float_f64::sqrt", float_f64::sqrt as fn()),
        ("C19", "numeric::float_f64::cbrt", float_f64::cbrt as fn()),
        ("C19", "numeric::float_f64::exp", float_f64::exp as fn()),
        ("C19", "numeric::float_f64::exp2", float_f64::exp2 as fn()),
        ("C19", "numeric::float_f64::exp_m1", float_f64::exp_m1 as fn()),
        ("C19", "numeric::float_f64::hypot", float_f64::hypot as fn()),
        ("C19", "numeric::float_f64::atan2", float_f64::atan2 as fn()),
        ("C19", "numeric::float_f64::powf", float_f64::powf as fn()),
        ("C19", "numeric::float_f64::mul_add", float_f64::mul_add as fn()),
        ("C19", "numeric::float_f64::sin_cos", float_f64::sin_cos as fn()),
        ("C19", "numeric::float_f64::fract", float_f64::fract as fn()),
        ("C19", "numeric::float_f64::powi", float_f64::powi as fn()),
        ("C19", "numeric::float_f64::classes", float_f64::classes as fn()),
        ("C19", "numeric::float_f64::signs", float_f64::signs as fn()),
        ("C19", "numeric::float_f64::order", float_f64::order as fn()),
        ("C19", "numeric::float_f64::extrema_nan", float_f64::extrema_nan as fn()),
        ("C19", "numeric::float_f64::constants", float_f64::constants as fn()),
        ("C19", "numeric::fdiv_f64::log", fdiv_f64::log as fn()),
        ("C19", "numeric::fdiv_f64::recip", fdiv_f64::recip as fn()),
        ("C19", "numeric::float_f32::floor", float_f32::floor as fn()),
        ("C19", "numeric::float_f32::ceil", float_f32::ceil as fn()),
        ("C19", "numeric::float_f32::round", float_f32::round as fn()),
        ("C19", "numeric::float_f32::trunc", float_f32::trunc as fn()),
        ("C19", "numeric::float_f32::sin", float_f32::sin as fn()),
        ("C19", "numeric::float_f32::cos", float_f32::cos as fn()),
        ("C19", "numeric::float_f32::tan", float_f32::tan as fn()),
        ("C19", "numeric::float_f32::asin", float_f32::asin as fn()),
        ("C19", "numeric::float_f32::acos", float_f32::acos as fn()),
        ("C19", "numeric::float_f32::atan", float_f32::atan as fn()),
        ("C19", "numeric::float_f32::sinh", float_f32::sinh as fn()),
        ("C19", "numeric::float_f32::cosh", float_f32::cosh as fn()),
        ("C19", "numeric::float_f32::tanh", float_f32::tanh as fn()),
        ("C19", "numeric::float_f32::asinh", float_f32::asinh as fn()),
        ("C19", "numeric::float_f32::acosh", float_f32::acosh as fn()),
        ("C19", "numeric::float_f32::atanh", float_f32::atanh as fn()),
        ("C19", "numeric::float_f32::log2", float_f32::log2 as fn()),
        ("C19", "numeric::float_f32::log10", float_f32::log10 as fn()),
        ("C19", "numeric::float_f32::ln", float_f32::ln as fn()),
        ("C19", "numeric::float_f32::ln_1p", float_f32::ln_1p as fn()),
        ("C19", "numeric::float_f32::sqrt", float_f32::sqrt as fn()),
        ("C19", "numeric::float_f32::cbrt", float_f32::cbrt as fn()),
        ("C19", "numeric::float_f32::exp", float_f32::exp as fn()),
        ("C19", "numeric::float_f32::exp2", float_f32::exp2 as fn()),
        ("C19", "numeric::float_f32::exp_m1", float_f32::exp_m1 as fn()),
        ("C19", "numeric::float_f32::hypot", float_f32::hypot as fn()),
        ("C19", "numeric::float_f32::atan2", float_f32::atan2 as fn()),
        ("C19", "numeric::float_f32::powf", float_f32::powf as fn()),
        ("C19", "numeric::float_f32::mul_add", float_f32::mul_add as fn()),
        ("C19", "numeric::float_f32::sin_cos", float_f32::sin_cos as fn()),
        ("C19", "numeric::float_f32::fract", float_f32::fract as fn()),
        ("C19", "numeric::float_f32::powi", float_f32::powi as fn()),
        ("C19", "numeric::float_f32::classes", float_f32::classes as fn()),
        ("C19", "numeric::float_f32::signs", float_f32::signs as fn()),
        ("C19", "numeric::float_f32::order", float_f32::order as fn()),
        ("C19", "numeric::float_f32::extrema_nan", float_f32::extrema_nan as fn()),
        ("C19", "numeric::float_f32::constants", float_f32::constants as fn()),
        ("C19", "numeric::fdiv_f32::log", fdiv_f32::log as fn()),
        ("C19", "numeric::fdiv_f32::recip", fdiv_f32::recip as fn()),
        ("C19", "numeric::int_i8::signs", int_i8::signs as fn()),
        ("C19", "numeric::int_i8::order", int_i8::order as fn()),
        ("C19", "numeric::int_i16::signs", int_i16::signs as fn()),
        ("C19", "numeric::int_i16::order", int_i16::order as fn()),
        ("C19", "numeric::int_i32::signs", int_i32::signs as fn()),
        ("C19", "numeric::int_i32::order", int_i32::order as fn()),
        ("C19", "numeric::int_i64::signs", int_i64::signs as fn()),
        ("C19", "numeric::int_i64::order", int_i64::order as fn()),
        ("C19", "numeric::int_i128::signs", int_i128::signs as fn()),
        ("C19", "numeric::int_i128::order", int_i128::order as fn()),
        ("C19", "numeric::int_isize::signs", int_isize::signs as fn()),
        ("C19", "numeric::int_isize::order", int_isize::order as fn()),
        ("C19", "numeric::cast_u8::integers", cast_u8::integers as fn()),
        ("C19", "numeric::cast_u8::floats", cast_u8::floats as fn()),
        ("C19", "numeric::cast_u16::integers", cast_u16::integers as fn()),
        ("C19", "numeric::cast_u16::floats", cast_u16::floats as fn()),
        ("C19", "numeric::cast_u32::integers", cast_u32::integers as fn()),
        ("C19", "numeric::cast_u32::floats", cast_u32::floats as fn()),
        ("C19", "numeric::cast_u64::integers", cast_u64::integers as fn()),
        ("C19", "numeric::cast_u64::floats", cast_u64::floats as fn()),
        ("C19", "numeric::cast_u128::integers", cast_u128::integers as fn()),
        ("C19", "numeric::cast_u128::floats", cast_u128::floats as fn()),
        ("C19", "numeric::cast_usize::integers", cast_usize::integers as fn()),
        ("C19", "numeric::cast_usize::floats", cast_usize::floats as fn()),
        ("C19", "numeric::cast_i8::integers", cast_i8::integers as fn()),
        ("C19", "numeric::cast_i8::floats", cast_i8::floats as fn()),
        ("C19", "numeric::cast_i16::integers", cast_i16::integers as fn()),
        ("C19", "numeric::cast_i16::floats", cast_i16::floats as fn()),
        ("C19", "numeric::cast_i32::integers", cast_i32::integers as fn()),
        ("C19", "numeric::cast_i32::floats", cast_i32::floats as fn()),
        ("C19", "numeric::cast_i64::integers", cast_i64::integers as fn()),
        ("C19", "numeric::cast_i64::floats", cast_i64::floats as fn()),
        ("C19", "numeric::cast_i128::integers", cast_i128::integers as fn()),
        ("C19", "numeric::cast_i128::floats", cast_i128::floats as fn()),
        ("C19", "numeric::cast_isize::integers", cast_isize::integers as fn()),
        ("C19", "numeric::cast_isize::floats", cast_isize::floats as fn()),
        ("C19", "numeric::cast_f32::to_u8", cast_f32::to_u8 as fn()),
        ("C19", "numeric::cast_f32::to_u16", cast_f32::to_u16 as fn()),
        ("C19", "numeric::cast_f32::to_u32", cast_f32::to_u32 as fn()),
        ("C19", "numeric::cast_f32::to_u64", cast_f32::to_u64 as fn()),
        ("C19", "numeric::cast_f32::to_u128", cast_f32::to_u128 as fn()),
        ("C19", "numeric::cast_f32::to_usize", cast_f32::to_usize as fn()),
        ("C19", "numeric::cast_f32::to_i8", cast_f32::to_i8 as fn()),
        ("C19", "numeric::cast_f32::to_i16", cast_f32::to_i16 as fn()),
        ("C19", "numeric::cast_f32::to_i32", cast_f32::to_i32 as fn()),
        ("C19", "numeric::cast_f32::to_i64", cast_f32::to_i64 as fn()),
        ("C19", "numeric::cast_f32::to_i128", cast_f32::to_i128 as fn()),
        ("C19", "numeric::cast_f32::to_isize", cast_f32::to_isize as fn()),
        ("C19", "numeric::cast_f32::floats", cast_f32::floats as fn()),
        ("C19", "numeric::cast_f64::to_u8", cast_f64::to_u8 as fn()),
        ("C19", "numeric::cast_f64::to_u16", cast_f64::to_u16 as fn()),
        ("C19", "numeric::cast_f64::to_u32", cast_f64::to_u32 as fn()),
        ("C19", "numeric::cast_f64::to_u64", cast_f64::to_u64 as fn()),
        ("C19", "numeric::cast_f64::to_u128", cast_f64::to_u128 as fn()),
        ("C19", "numeric::cast_f64::to_usize", cast_f64::to_usize as fn()),
        ("C19", "numeric::cast_f64::to_i8", cast_f64::to_i8 as fn()),
        ("C19", "numeric::cast_f64::to_i16", cast_f64::to_i16 as fn()),
        ("C19", "numeric::cast_f64::to_i32", cast_f64::to_i32 as fn()),
        ("C19", "numeric::cast_f64::to_i64", cast_f64::to_i64 as fn()),
        ("C19", "numeric::cast_f64::to_i128", cast_f64::to_i128 as fn()),
        ("C19", "numeric::cast_f64::to_isize", cast_f64::to_isize as fn()),
        ("C19", "numeric::cast_f64::floats", cast_f64::floats as fn()),
    ]
}
