un="floor ceil round trunc fract recip sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log2 log10 ln ln_1p sqrt cbrt exp exp2 exp_m1".split()
bi="hypot atan2 log powf".split()
co="min_positive_value pi two_pi frac_pi_2 frac_pi_3 frac_pi_4 frac_pi_6 frac_pi_8 frac_1_pi frac_2_pi frac_2_sqrt_pi e log2_e log10_e ln_2 ln_10 sqrt_2 frac_1_sqrt_2 infinity neg_infinity neg_zero machine_epsilon".split()
o=[]
w=o.append
w('''//! Complex::powu and Complex::powi for every exponent. The generic code runs on the ring of dual integers
//! a + b*e with e*e = 0: the base 1 + e*w has n-th power 1 + n*e*w, so the result counts the factors of the
//! base that were multiplied together. (That a product of complex numbers is their product is C11's and the
//! generic contracts' business; the loops use the exponent and complex products only.)
//! Generated by tools/gen_dual.py.
use crate::any::any;
use crate::{ensures, reached, Entry};
use cglinalg_core::Complex;
use cglinalg_numeric::*;
use std::ops::*;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Dual(pub i64, pub i64);
impl std::fmt::Display for Dual {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl PartialOrd for Dual {
    fn partial_cmp(&self, o: &Dual) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Add for Dual {
    type Output = Dual;
    fn add(self, o: Dual) -> Dual {
        Dual(self.0.wrapping_add(o.0), self.1.wrapping_add(o.1))
    }
}
impl Sub for Dual {
    type Output = Dual;
    fn sub(self, o: Dual) -> Dual {
        Dual(self.0.wrapping_sub(o.0), self.1.wrapping_sub(o.1))
    }
}
/// the factors' real parts are 0 and 1 and -1 throughout, which keeps the products cheap
fn times(a: i64, b: i64) -> i64 {
    match a {
        0 => 0,
        1 => b,
        -1 => b.wrapping_neg(),
        _ => a.wrapping_mul(b),
    }
}
impl Mul for Dual {
    type Output = Dual;
    fn mul(self, o: Dual) -> Dual {
        Dual(times(self.0, o.0), times(self.0, o.1).wrapping_add(times(o.0, self.1)))
    }
}
impl Div for Dual {
    type Output = Dual;
    fn div(self, o: Dual) -> Dual {
        assert!(o.0 == 1, "a divisor that is not 1 + b*e");
        Dual(self.0, self.1.wrapping_sub(times(self.0, o.1)))
    }
}
impl Rem for Dual {
    type Output = Dual;
    fn rem(self, _: Dual) -> Dual {
        unimplemented!()
    }
}
impl Neg for Dual {
    type Output = Dual;
    fn neg(self) -> Dual {
        Dual(self.0.wrapping_neg(), self.1.wrapping_neg())
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $o:tt)*) => {$(impl $t for Dual {
        fn $f(&mut self, o: Dual) { *self = *self $o o; }
    })*};
}
assign!(AddAssign add_assign + SubAssign sub_assign - MulAssign mul_assign * DivAssign div_assign / RemAssign rem_assign %);
impl num_traits::Zero for Dual {
    fn zero() -> Dual {
        Dual(0, 0)
    }
    fn is_zero(&self) -> bool {
        *self == Dual(0, 0)
    }
}
impl num_traits::One for Dual {
    fn one() -> Dual {
        Dual(1, 0)
    }
}
impl num_traits::Num for Dual {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Dual, ()> {
        Err(())
    }
}
impl num_traits::ToPrimitive for Dual {
    fn to_i64(&self) -> Option<i64> {
        unimplemented!()
    }
    fn to_u64(&self) -> Option<u64> {
        unimplemented!()
    }
}
impl num_traits::NumCast for Dual {
    fn from<T: num_traits::ToPrimitive>(_: T) -> Option<Dual> {
        unimplemented!()
    }
}
impl num_traits::Signed for Dual {
    fn abs(&self) -> Dual {
        unimplemented!()
    }
    fn abs_sub(&self, _: &Dual) -> Dual {
        unimplemented!()
    }
    fn signum(&self) -> Dual {
        unimplemented!()
    }
    fn is_positive(&self) -> bool {
        unimplemented!()
    }
    fn is_negative(&self) -> bool {
        unimplemented!()
    }
}
impl SimdScalarSigned for Dual {
    fn is_sign_positive(self) -> bool {
        unimplemented!()
    }
    fn is_sign_negative(self) -> bool {
        unimplemented!()
    }
    fn copysign(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn signum(self) -> Dual {
        unimplemented!()
    }
    fn abs(self) -> Dual {
        unimplemented!()
    }
}
impl SimdScalarOrd for Dual {
    fn max(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn min(self, _: Dual) -> Dual {
        unimplemented!()
    }
    fn clamp(self, _: Dual, _: Dual) -> Dual {
        unimplemented!()
    }
}
impl SimdScalarBounded for Dual {
    fn min_value() -> Dual {
        unimplemented!()
    }
    fn max_value() -> Dual {
        unimplemented!()
    }
}
''')
T='Dual'
def imp(tr, types, fns):
    w(f'impl approx_cmp::{tr} for Dual {{')
    for t,v in types: w(f'    type {t} = {v};')
    for f,args,r in fns:
        w(f'    fn {f}(&self, {args}) -> {r} {{\n        unimplemented!()\n    }}')
    w('}')
D=[('_','Dual')]
a1='_: &Dual, _: &Dual'; a2='_: &Dual, _: &Dual, _: &Dual'; a3='_: &Dual, _: &Dual, _: &u64'
imp('AbsDiffEq',[('Tolerance','Dual')],[('abs_diff_eq',a1,'bool')])
imp('AbsDiffAllEq',[('AllTolerance','Dual')],[('abs_diff_all_eq',a1,'bool')])
imp('AssertAbsDiffEq',[('DebugAbsDiff','Dual'),('DebugTolerance','Dual')],[('debug_abs_diff','_: &Dual','Dual'),('debug_abs_diff_tolerance',a1,'Dual')])
imp('AssertAbsDiffAllEq',[('AllDebugTolerance','Dual')],[('debug_abs_diff_all_tolerance',a1,'Dual')])
imp('RelativeEq',[('Tolerance','Dual')],[('relative_eq',a2,'bool')])
imp('RelativeAllEq',[('AllTolerance','Dual')],[('relative_all_eq',a2,'bool')])
imp('AssertRelativeEq',[('DebugAbsDiff','Dual'),('DebugTolerance','Dual')],[('debug_abs_diff','_: &Dual','Dual'),('debug_abs_diff_tolerance',a1,'Dual'),('debug_relative_tolerance',a1,'Dual')])
imp('AssertRelativeAllEq',[('AllDebugTolerance','Dual')],[('debug_abs_diff_all_tolerance',a1,'Dual'),('debug_relative_all_tolerance',a1,'Dual')])
imp('UlpsEq',[('Tolerance','Dual'),('UlpsTolerance','u64')],[('ulps_eq',a3,'bool')])
imp('UlpsAllEq',[('AllTolerance','Dual'),('AllUlpsTolerance','u64')],[('ulps_all_eq',a3,'bool')])
imp('AssertUlpsEq',[('DebugAbsDiff','Dual'),('DebugUlpsDiff','Option<u64>'),('DebugTolerance','Dual'),('DebugUlpsTolerance','u64')],[('debug_abs_diff','_: &Dual','Dual'),('debug_ulps_diff','_: &Dual','Option<u64>'),('debug_abs_diff_tolerance',a1,'Dual'),('debug_ulps_tolerance','_: &Dual, _: &u64','u64')])
imp('AssertUlpsAllEq',[('AllDebugTolerance','Dual'),('AllDebugUlpsTolerance','u64')],[('debug_abs_diff_all_tolerance',a1,'Dual'),('debug_ulps_all_tolerance','_: &Dual, _: &u64','u64')])
w('''impl SimdScalarCmp for Dual {
    type IntegerRepr = u64;
    fn default_epsilon() -> Dual {
        unimplemented!()
    }
    fn default_max_ulps() -> u64 {
        unimplemented!()
    }
}
impl SimdScalarFloat for Dual {''')
for f in un: w(f'    fn {f}(self) -> Dual {{\n        unimplemented!()\n    }}')
for f in bi: w(f'    fn {f}(self, _: Dual) -> Dual {{\n        unimplemented!()\n    }}')
for f in co: w(f'    fn {f}() -> Dual {{\n        unimplemented!()\n    }}')
w('''    fn mul_add(self, a: Dual, b: Dual) -> Dual {
        self * a + b
    }
    fn sin_cos(self) -> (Dual, Dual) {
        unimplemented!()
    }
    fn powi(self, _: i32) -> Dual {
        unimplemented!()
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_nan(self) -> bool {
        false
    }
    fn is_normal(self) -> bool {
        unimplemented!()
    }
    fn is_subnormal(self) -> bool {
        unimplemented!()
    }
    fn nan() -> Dual {
        unimplemented!()
    }
}
fn base() -> Complex<Dual> {
    Complex::new(Dual(1, 1), Dual(0, 3))
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub fn powu() {
    let n: u32 = any();
    let r = base().powu(n);
    ensures!(r.real() == Dual(1, n as i64) && r.imaginary() == Dual(0, 3 * n as i64), "powu multiplies exactly n factors, for every n");
    reached!();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub fn powi() {
    let n: i32 = any();
    let r = base().powi(n);
    ensures!(r.real() == Dual(1, n as i64) && r.imaginary() == Dual(0, 3 * n as i64), "powi multiplies exactly n factors, of the inverse for negative n, for every n");
    reached!();
}
pub fn all() -> Vec<Entry> {
    vec![("C10", "dual::powu", powu as fn()), ("C10", "dual::powi", powi as fn())]
}''')
open('/verif/harness/kani_contracts/src/dual.rs','w').write("\n".join(o)+"\n")
