//! Complex::powu and Complex::powi for every exponent. The generic code runs on the ring of dual integers
//! a + b*e with e*e = 0: the base 1 + e*w has n-th power 1 + n*e*w, so the result counts the factors of the
//! base that were multiplied together. (That a product of complex numbers is their product is C11's and the
//! generic contracts' business; the loops use the exponent and complex products only.)
//! Generated by tools/gen_dual.py.
use crate::any::any;
use crate::{ensures, reached, Entry};
use cglinalg_core::Complex;
use cglinalg_numeric::*;
use std::ops::*;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Dual(pub i64, pub i64);
impl std::fmt::Display for Dual {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl PartialOrd for Dual {
    fn partial_cmp(&self, o: &Dual) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Add for Dual {
    type Output = Dual;
    fn add(self, o: Dual) -> Dual {
        Dual(self.0.wrapping_add(o.0), self.1.wrapping_add(o.1))
    }
}
impl Sub for Dual {
    type Output = Dual;
    fn sub(self, o: Dual) -> Dual {
        Dual(self.0.wrapping_sub(o.0), self.1.wrapping_sub(o.1))
    }
}
/// the factors' real parts are 0 and 1 and -1 throughout, which keeps the products cheap
fn times(a: i64, b: i64) -> i64 {
    match a {
        0 => 0,
        1 => b,
        -1 => b.wrapping_neg(),
        _ => a.wrapping_mul(b),
    }
}
impl Mul for Dual {
    type Output = Dual;
    fn mul(self, o: Dual) -> Dual {
        Dual(times(self.0, o.0), times(self.0, o.1).wrapping_add(times(o.0, self.1)))
    }
}
impl Div for Dual {
    type Output = Dual;
    fn div(self, o: Dual) -> Dual {
        assert!(o.0 == 1, "a divisor that is not 1 + b*e");
        Dual(self.0, self.1.wrapping_sub(times(self.0, o.1)))
    }
}
impl Rem for Dual {
    type Output = Dual;
    fn rem(self, _: Dual) -> Dual {
        unimplemented!()
    }
}
impl Neg for Dual {
    type Output = Dual;
    fn neg(self) -> Dual {
        Dual(self.0.wrapping_neg(), self.1.wrapping_neg())
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $o:tt)*) => {$(impl $t for Dual {
        fn $f(&mut self, o: Dual) { *self = *self $o o; }
    })*};
}
assign!(AddAssign add_assign + SubAssign sub_assign - MulAssign mul_assign * DivAssign div_assign / RemAssign rem_assign %);
impl num_traits::Zero for Dual {
    fn zero() -> Dual {
        Dual(0, 0)
    }
    fn is_zero(&self) -> bool {
        *self == Dual(0, 0)
    }
}
impl num_traits::One for Dual {
    fn one() -> Dual {
        Dual(1, 0)
    }
}
impl num_traits::Num for Dual {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Dual, ()> {
        Err(())
    }
}
impl num_traits::ToPrimitive for Dual {
    fn to_i64(&self) -> Option<i64> {
        unimplemented!()
    }
    fn to_u64(&self) -> Option<u64> {
        unimplemented!()
    }
}
impl num_traits::NumCast for Dual {
    fn from<T: num_traits::ToPrimitive>(_: T) -> Option<Dual> {
        unimplemented!()
    }
}
impl num_traits::Signed for Dual {
    fn abs(&self) -> Dual {
        unimplemented!()
    }
    fn abs_sub(&self, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn signum(&self) -> Dual {
        unimplemented!()
    }
    fn is_positive(&self) -> bool {
        unimplemented!()
    }
    fn is_negative(&self) -> bool {
        unimplemented!()
    }
}
impl SimdScalarSigned for Dual {
    fn is_sign_positive(self) -> bool {
        unimplemented!()
    }
    fn is_sign_negative(self) -> bool {
        unimplemented!()
    }
    fn copysign(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn signum(self) -> Dual {
        unimplemented!()
    }
    fn abs(self) -> Dual {
        unimplemented!()
    }
}
impl SimdScalarOrd for Dual {
    fn max(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn min(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn clamp(self, _: Dual, _: Dual) -> Dual {
        unimplemented!()
    }
}
impl SimdScalarBounded for Dual {
    fn min_value() -> Dual {
        unimplemented!()
    }
    fn max_value() -> Dual {
        unimplemented!()
    }
}

impl approx_cmp::AbsDiffEq for Dual {
    type Tolerance = Dual;
    fn abs_diff_eq(&self, _: &Dual, _: &Dual) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::AbsDiffAllEq for Dual {
    type AllTolerance = Dual;
    fn abs_diff_all_eq(&self, _: &Dual, _: &Dual) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::AssertAbsDiffEq for Dual {
    type DebugAbsDiff = Dual;
    type DebugTolerance = Dual;
    fn debug_abs_diff(&self, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_abs_diff_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
}
impl approx_cmp::AssertAbsDiffAllEq for Dual {
    type AllDebugTolerance = Dual;
    fn debug_abs_diff_all_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
}
impl approx_cmp::RelativeEq for Dual {
    type Tolerance = Dual;
    fn relative_eq(&self, _: &Dual, _: &Dual, _: &Dual) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::RelativeAllEq for Dual {
    type AllTolerance = Dual;
    fn relative_all_eq(&self, _: &Dual, _: &Dual, _: &Dual) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::AssertRelativeEq for Dual {
    type DebugAbsDiff = Dual;
    type DebugTolerance = Dual;
    fn debug_abs_diff(&self, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_abs_diff_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_relative_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
}
impl approx_cmp::AssertRelativeAllEq for Dual {
    type AllDebugTolerance = Dual;
    fn debug_abs_diff_all_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_relative_all_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
}
impl approx_cmp::UlpsEq for Dual {
    type Tolerance = Dual;
    type UlpsTolerance = u64;
    fn ulps_eq(&self, _: &Dual, _: &Dual, _: &u64) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::UlpsAllEq for Dual {
    type AllTolerance = Dual;
    type AllUlpsTolerance = u64;
    fn ulps_all_eq(&self, _: &Dual, _: &Dual, _: &u64) -> bool {
        unimplemented!()
    }
}
impl approx_cmp::AssertUlpsEq for Dual {
    type DebugAbsDiff = Dual;
    type DebugUlpsDiff = Option<u64>;
    type DebugTolerance = Dual;
    type DebugUlpsTolerance = u64;
    fn debug_abs_diff(&self, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_ulps_diff(&self, _: &Dual) -> Option<u64> {
        unimplemented!()
    }
    fn debug_abs_diff_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_ulps_tolerance(&self, _: &Dual, _: &u64) -> u64 {
        unimplemented!()
    }
}
impl approx_cmp::AssertUlpsAllEq for Dual {
    type AllDebugTolerance = Dual;
    type AllDebugUlpsTolerance = u64;
    fn debug_abs_diff_all_tolerance(&self, _: &Dual, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn debug_ulps_all_tolerance(&self, _: &Dual, _: &u64) -> u64 {
        unimplemented!()
    }
}
impl SimdScalarCmp for Dual {
    type IntegerRepr = u64;
    fn default_epsilon() -> Dual {
        unimplemented!()
    }
    fn default_max_ulps() -> u64 {
        unimplemented!()
    }
}
impl SimdScalarFloat for Dual {
    fn floor(self) -> Dual {
        unimplemented!()
    }
    fn ceil(self) -> Dual {
        unimplemented!()
    }
    fn round(self) -> Dual {
        unimplemented!()
    }
    fn trunc(self) -> Dual {
        unimplemented!()
    }
    fn fract(self) -> Dual {
        unimplemented!()
    }
    fn recip(self) -> Dual {
        unimplemented!()
    }
    fn sin(self) -> Dual {
        unimplemented!()
    }
    fn cos(self) -> Dual {
        unimplemented!()
    }
    fn tan(self) -> Dual {
        unimplemented!()
    }
    fn asin(self) -> Dual {
        unimplemented!()
    }
    fn acos(self) -> Dual {
        unimplemented!()
    }
    fn atan(self) -> Dual {
        unimplemented!()
    }
    fn sinh(self) -> Dual {
        unimplemented!()
    }
    fn cosh(self) -> Dual {
        unimplemented!()
    }
    fn tanh(self) -> Dual {
        unimplemented!()
    }
    fn asinh(self) -> Dual {
        unimplemented!()
    }
    fn acosh(self) -> Dual {
        unimplemented!()
    }
    fn atanh(self) -> Dual {
        unimplemented!()
    }
    fn log2(self) -> Dual {
        unimplemented!()
    }
    fn log10(self) -> Dual {
        unimplemented!()
    }
    fn ln(self) -> Dual {
        unimplemented!()
    }
    fn ln_1p(self) -> Dual {
        unimplemented!()
    }
    fn sqrt(self) -> Dual {
        unimplemented!()
    }
    fn cbrt(self) -> Dual {
        unimplemented!()
    }
    fn exp(self) -> Dual {
        unimplemented!()
    }
    fn exp2(self) -> Dual {
        unimplemented!()
    }
    fn exp_m1(self) -> Dual {
        unimplemented!()
    }
    fn hypot(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn atan2(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn log(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn powf(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn min_positive_value() -> Dual {
        unimplemented!()
    }
    fn pi() -> Dual {
        unimplemented!()
    }
    fn two_pi() -> Dual {
        unimplemented!()
    }
    fn frac_pi_2() -> Dual {
        unimplemented!()
    }
    fn frac_pi_3() -> Dual {
        unimplemented!()
    }
    fn frac_pi_4() -> Dual {
        unimplemented!()
    }
    fn frac_pi_6() -> Dual {
        unimplemented!()
    }
    fn frac_pi_8() -> Dual {
        unimplemented!()
    }
    fn frac_1_pi() -> Dual {
        unimplemented!()
    }
    fn frac_2_pi() -> Dual {
        unimplemented!()
    }
    fn frac_2_sqrt_pi() -> Dual {
        unimplemented!()
    }
    fn e() -> Dual {
        unimplemented!()
    }
    fn log2_e() -> Dual {
        unimplemented!()
    }
    fn log10_e() -> Dual {
        unimplemented!()
    }
    fn ln_2() -> Dual {
        unimplemented!()
    }
    fn ln_10() -> Dual {
        unimplemented!()
    }
    fn sqrt_2() -> Dual {
        unimplemented!()
    }
    fn frac_1_sqrt_2() -> Dual {
        unimplemented!()
    }
    fn infinity() -> Dual {
        unimplemented!()
    }
    fn neg_infinity() -> Dual {
        unimplemented!()
    }
    fn neg_zero() -> Dual {
        unimplemented!()
    }
    fn machine_epsilon() -> Dual {
        unimplemented!()
    }
    fn mul_add(self, a: Dual, b: Dual) -> Dual {
        self * a + b
    }
    fn sin_cos(self) -> (Dual, Dual) {
        unimplemented!()
    }
    fn powi(self, _: i32) -> Dual {
        unimplemented!()
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_nan(self) -> bool {
        false
    }
    fn is_normal(self) -> bool {
        unimplemented!()
    }
    fn is_subnormal(self) -> bool {
        unimplemented!()
    }
    fn nan() -> Dual {
        unimplemented!()
    }
}
fn base() -> Complex<Dual> {
    Complex::new(Dual(1, 1), Dual(0, 3))
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub fn powu() {
    let n: u32 = any();
    let r = base().powu(n);
    ensures!(r.real() == Dual(1, n as i64) && r.imaginary() == Dual(0, 3 * n as i64), "powu multiplies exactly n factors, for every n");
    reached!();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub fn powi() {
    let n: i32 = any();
    let r = base().powi(n);
    ensures!(r.real() == Dual(1, n as i64) && r.imaginary() == Dual(0, 3 * n as i64), "powi multiplies exactly n factors, of the inverse for negative n, for every n");
    reached!();
}
pub fn all() -> Vec<Entry> {
    vec![("C10", "dual::powu", powu as fn()), ("C10", "dual::powi", powi as fn())]
}
