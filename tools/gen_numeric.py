# writes src/numeric.rs
unary = {  # trait method: libm name (f64), tag
 'floor':'floor','ceil':'ceil','round':'round','trunc':'trunc','sin':'sin','cos':'cos','tan':'tan','asin':'asin','acos':'acos','atan':'atan',
 'sinh':'sinh','cosh':'cosh','tanh':'tanh','asinh':'asinh','acosh':'acosh','atanh':'atanh','log2':'log2','log10':'log10','ln':'log','ln_1p':'log1p',
 'sqrt':'sqrt','cbrt':'cbrt','exp':'exp','exp2':'exp2','exp_m1':'expm1'}
binary = {'hypot':'hypot','atan2':'atan2','powf':'pow'}
o=[]
w=o.append
w('''//! The scalar traits of the primitive types. Under Kani the elementary functions of libm are replaced by
//! uninterpreted stand-ins (an injective tag of function and arguments), so that the obligation is "this
//! method is this function of these arguments, for every argument"; natively they are the functions of std.
//! Generated by tools/gen_numeric.py.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_numeric::*;
#[cfg(kani)]
fn tag64(op: u64, x: f64) -> f64 {
    f64::from_bits(x.to_bits() ^ (op << 8))
}
#[cfg(kani)]
fn tag32(op: u32, x: f32) -> f32 {
    f32::from_bits(x.to_bits() ^ (op << 8))
}
#[cfg(kani)]
fn tag64b(op: u64, x: f64, y: f64) -> f64 {
    f64::from_bits(x.to_bits() ^ y.to_bits().rotate_left(17) ^ (op << 8))
}
#[cfg(kani)]
fn tag32b(op: u32, x: f32, y: f32) -> f32 {
    f32::from_bits(x.to_bits() ^ y.to_bits().rotate_left(7) ^ (op << 8))
}
''')
for bits,t,suf in ((64,'f64',''),(32,'f32','f')):
    fl = {}
    n=1
    w(f'/// {t}: what the methods mean')
    w(f'pub mod spec_{t} {{')
    for m,l in unary.items():
        w(f'    pub fn {m}(x: {t}) -> {t} {{ #[cfg(kani)] {{ super::tag{bits}({n}, x) }} #[cfg(not(kani))] {{ x.{m}() }} }}'); n+=1
    for m,l in binary.items():
        w(f'    pub fn {m}(x: {t}, y: {t}) -> {t} {{ #[cfg(kani)] {{ super::tag{bits}b({n}, x, y) }} #[cfg(not(kani))] {{ x.{m}(y) }} }}'); n+=1
    w(f'    pub fn mul_add(x: {t}, y: {t}, z: {t}) -> {t} {{ #[cfg(kani)] {{ super::tag{bits}b({n}, super::tag{bits}b({n}, x, y), z) }} #[cfg(not(kani))] {{ x.mul_add(y, z) }} }}')
    w(f'    pub fn sin_cos(x: {t}) -> ({t}, {t}) {{ (sin(x), cos(x)) }}')
    w('}')
def stubs(t,suf,names):
    r=[]
    for m in names:
        l = {**unary,**binary,'mul_add':'fma','sin_cos':'sincos'}[m]
        r.append(f'            #[cfg_attr(kani, kani::stub(libm::{l}{suf}, spec_{t}::{m}))]')
        r.append(f'            #[cfg_attr(kani, kani::stub({t}::{m}, spec_{t}::{m}))]')
    return "\n".join(r)
ent=[]
for bits,t,suf in ((64,'f64',''),(32,'f32','f')):
    allst=stubs(t,suf,list(unary)+list(binary)+['mul_add','sin_cos'])
    w(f'''pub mod float_{t} {{
    use super::*;
    pub(super) fn same(a: {t}, b: {t}) -> bool {{
        if a.to_bits() == b.to_bits() {{
            return true;
        }}
        #[cfg(kani)]
        {{
            false
        }}
        #[cfg(not(kani))]
        {{
            (a != a && b != b) || (a - b).abs() <= {'1e-9' if bits==64 else '1e-3'} * b.abs() || (a - b).abs() < {'1e-300' if bits==64 else '1e-36'}
        }}
    }}
    fn arb() -> {t} {{
        any()
    }}''')
    def harness(name, body, st=True, kani=True, mod='float'):
        ent.append(f'("C19", "numeric::{mod}_{t}::{name}", {mod}_{t}::{name} as fn())')
        if kani:
            w('    #[cfg_attr(kani, kani::proof)]')
            w('    #[cfg_attr(kani, kani::unwind(36))]')
            if st: w(allst)
        else:
            w('    // floating-point division: two identical dividers are out of the solver\'s reach; evaluated on drawn inputs only')
        w(f'    pub fn {name}() {{')
        for l in body: w('        '+l)
        w('        reached!();')
        w('    }')
    for m in unary:
        # libm's acosh below 1 and its answers to NaN are its own
        harness(m,['let x = arb();'] + (['requires!(cfg!(kani) || x >= 1.0);'] if m == 'acosh' else []) + [f'ensures!(same(SimdScalarFloat::{m}(x), spec_{t}::{m}(x)), "{m} is the {m} of the argument");'])
    for m in binary:
        harness(m,['let (x, y) = (arb(), arb());', 'requires!(cfg!(kani) || (x == x && y == y));', f'ensures!(same(SimdScalarFloat::{m}(x, y), spec_{t}::{m}(x, y)), "{m} is the {m} of the arguments in this order");'])
    harness('mul_add',['let (x, y, z) = (arb(), arb(), arb());', f'ensures!(same(SimdScalarFloat::mul_add(x, y, z), spec_{t}::mul_add(x, y, z)), "mul_add is self * a + b");'])
    harness('sin_cos',['let x = arb();', 'let (s, c) = SimdScalarFloat::sin_cos(x);', f'ensures!(same(s, spec_{t}::sin(x)) & same(c, spec_{t}::cos(x)), "sin_cos is the sine and the cosine");',
        'let (s, c) = SimdScalarFloat::sinh_cosh(x);', f'ensures!(same(s, spec_{t}::sinh(x)) & same(c, spec_{t}::cosh(x)), "sinh_cosh is the hyperbolic sine and cosine");'])
    harness('fract',['let x = arb();', f'let w = x - spec_{t}::trunc(x);','let r = SimdScalarFloat::fract(x);','ensures!(r == w || (r != r && w != w) || same(r, w), "fract is what trunc leaves");'])
    harness('powi',['let x = arb();', 'let n: i32 = any();', 'requires!(n >= -2 && n <= 3);', 'let y = if n < 0 { 1.0 / x } else { x };', f'let w: {t} = match n {{ 0 => 1.0, 1 | -1 => y, 2 | -2 => y * y, _ => y * (y * y) }};', 'let r = SimdScalarFloat::powi(x, n);', 'ensures!(same(r, w) || r == w || (r != r && w != w), "powi is the repeated product [exponents -2 to 3]");'], kani=False)
    harness('classes',['let x = arb();', 'let (nan, inf) = (x != x, x == %s::INFINITY || x == %s::NEG_INFINITY);'%(t,t),
      'ensures!(SimdScalarFloat::is_nan(x) == nan, "is_nan");', 'ensures!(SimdScalarFloat::is_infinite(x) == inf, "is_infinite");', 'ensures!(SimdScalarFloat::is_finite(x) == (!nan && !inf), "is_finite");',
      f'let e = x.to_bits() & 0x{"7fffffffffffffff" if bits==64 else "7fffffff"};', f'let m = 1.0{t} / 1.0;', f'let sub = e != 0 && e < {t}::MIN_POSITIVE.to_bits();', 'let _ = m;',
      'ensures!(SimdScalarFloat::is_subnormal(x) == sub, "is_subnormal");', 'ensures!(SimdScalarFloat::is_normal(x) == (!nan && !inf && !sub && e != 0), "is_normal");'], st=False)
    harness('signs',['let (x, y) = (arb(), arb());', f'let top = 1u{bits} << {bits-1};', 'let (sx, sy) = (x.to_bits() & top, y.to_bits() & top);',
      'ensures!(SimdScalarSigned::is_sign_positive(x) == (sx == 0), "is_sign_positive");', 'ensures!(SimdScalarSigned::is_sign_negative(x) == (sx != 0), "is_sign_negative");',
      'requires!(x == x);', 'ensures!(SimdScalarSigned::abs(x).to_bits() == x.to_bits() & !top, "abs clears the sign");', 'ensures!(SimdScalarSigned::copysign(x, y).to_bits() == (x.to_bits() & !top) | sy, "copysign takes the sign of its argument");',
      'ensures!(SimdScalarSigned::signum(x) == if sx == 0 { 1.0 } else { -1.0 }, "signum");'], st=False)
    harness('order',['let (x, y, z) = (arb(), arb(), arb());', 'requires!(x == x && y == y && z == z);', 
      'ensures!(SimdScalarOrd::max(x, y) == if x > y { x } else { y }, "max");', 'ensures!(SimdScalarOrd::min(x, y) == if x < y { x } else { y }, "min");',
      'requires!(y <= z);', 'ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y { y } else if x > z { z } else { x }, "clamp");'], st=False)
    harness('extrema_nan',['let x = arb();', f'let n = {t}::NAN;', 'requires!(x == x);', 'ensures!(SimdScalarOrd::max(x, n) == x && SimdScalarOrd::max(n, x) == x, "max ignores NaN");', 'ensures!(SimdScalarOrd::min(x, n) == x && SimdScalarOrd::min(n, x) == x, "min ignores NaN");'], st=False)
    C=[('pi','PI'),('two_pi','TAU'),('frac_pi_2','FRAC_PI_2'),('frac_pi_3','FRAC_PI_3'),('frac_pi_4','FRAC_PI_4'),('frac_pi_6','FRAC_PI_6'),('frac_pi_8','FRAC_PI_8'),('frac_1_pi','FRAC_1_PI'),('frac_2_pi','FRAC_2_PI'),('frac_2_sqrt_pi','FRAC_2_SQRT_PI'),('e','E'),('log2_e','LOG2_E'),('log10_e','LOG10_E'),('ln_2','LN_2'),('ln_10','LN_10'),('sqrt_2','SQRT_2'),('frac_1_sqrt_2','FRAC_1_SQRT_2')]
    body=[f'ensures!(<{t} as SimdScalarFloat>::{a}() == std::{t}::consts::{b}, "constant {a}");' for a,b in C]
    body+=[f'ensures!(<{t} as SimdScalarFloat>::nan().is_nan(), "nan");', f'ensures!(<{t} as SimdScalarFloat>::infinity() == {t}::INFINITY, "infinity");', f'ensures!(<{t} as SimdScalarFloat>::neg_infinity() == {t}::NEG_INFINITY, "neg_infinity");',
      f'ensures!(<{t} as SimdScalarFloat>::neg_zero().to_bits() == (-0.0{t}).to_bits(), "neg_zero");', f'ensures!(<{t} as SimdScalarFloat>::machine_epsilon() == {t}::EPSILON, "machine_epsilon");', f'ensures!(<{t} as SimdScalarFloat>::min_positive_value() == {t}::MIN_POSITIVE, "min_positive_value");',
      f'ensures!(<{t} as SimdScalarBounded>::min_value() == {t}::MIN, "min_value");', f'ensures!(<{t} as SimdScalarBounded>::max_value() == {t}::MAX, "max_value");', f'ensures!(<{t} as SimdScalarCmp>::default_epsilon() == {t}::EPSILON, "default_epsilon");']
    harness('constants', body, st=False)
    w('}')
    # floating-point division: decided by z3 over the theory of floating-point numbers
    w(f'pub mod fdiv_{t} {{\n    use super::*;\n    use super::float_{t}::same;\n    fn arb() -> {t} {{ any() }}')
    harness('log',['let (x, y) = (arb(), arb());', 'requires!(cfg!(not(kani)) || (x == x && y == y));', f'let (p, q) = (spec_{t}::ln(x), spec_{t}::ln(y));', 'let w = p / q;','let r = SimdScalarFloat::log(x, y);', 'ensures!(r == w || (r != r && w != w) || (cfg!(not(kani)) && same(r, w)), "log is the quotient of the logarithms");'], mod='fdiv')
    harness('recip',['let x = arb();', f'let w = 1.0 / x;','let r = SimdScalarFloat::recip(x);','ensures!(r == w || (r != r && w != w), "recip is one by the number");'], st=False, mod='fdiv')
    w('}')
ints=['i8','i16','i32','i64','i128','isize']
for t in ints:
    w(f'''pub mod int_{t} {{
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn signs() {{
        let (x, y): ({t}, {t}) = (any(), any());
        ensures!(SimdScalarSigned::is_sign_positive(x) == (x > 0), "is_sign_positive");
        ensures!(SimdScalarSigned::is_sign_negative(x) == (x < 0), "is_sign_negative");
        ensures!(SimdScalarSigned::signum(x) == if x > 0 {{ 1 }} else if x < 0 {{ -1 }} else {{ 0 }}, "signum");
        requires!(x != {t}::MIN);
        let a = if x < 0 {{ -x }} else {{ x }};
        ensures!(SimdScalarSigned::abs(x) == a, "abs");
        ensures!(SimdScalarSigned::copysign(x, y) == if y >= 0 {{ a }} else {{ -a }}, "copysign");
        reached!();
    }}
    #[cfg_attr(kani, kani::proof)]
    pub fn order() {{
        let (x, y, z): ({t}, {t}, {t}) = (any(), any(), any());
        ensures!(SimdScalarOrd::max(x, y) == if x > y {{ x }} else {{ y }}, "max");
        ensures!(SimdScalarOrd::min(x, y) == if x < y {{ x }} else {{ y }}, "min");
        ensures!(<{t} as SimdScalarBounded>::min_value() <= x && x <= <{t} as SimdScalarBounded>::max_value(), "bounds");
        ensures!(<{t} as SimdScalarBounded>::min_value() == {t}::MIN && <{t} as SimdScalarBounded>::max_value() == {t}::MAX, "bounds are the extreme values");
        requires!(y <= z);
        ensures!(SimdScalarOrd::clamp(x, y, z) == if x < y {{ y }} else if x > z {{ z }} else {{ x }}, "clamp");
        reached!();
    }}
}}''')
    ent += [f'("C19", "numeric::int_{t}::{n}", int_{t}::{n} as fn())' for n in ('signs','order')]
I=['u8','u16','u32','u64','u128','usize','i8','i16','i32','i64','i128','isize']
w('''/// is the integer (negative, magnitude) a value of the type?
macro_rules! fits {
    ($x:expr, $to:ty) => {{
        let x = $x;
        let y = x as $to;
        // the round trip keeps the value and the sign
        #[allow(unused_comparisons)]
        { y as i128 == x as i128 && y as u128 == x as u128 && (x < 0) == (y < 0) }
    }};
}
macro_rules! to_int {
    ($x:ident; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        ensures!(r == if fits!($x, $to) { Some($x as $to) } else { None }, concat!("try_cast to ", stringify!($to), " keeps the value or refuses"));
        if fits!($x, $to) {
            let c: $to = cast($x);
            ensures!(c == $x as $to, concat!("cast to ", stringify!($to), " keeps the value"));
        }
    })*};
}
macro_rules! to_float {
    ($x:ident; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        ensures!(r == Some($x as $to), concat!("try_cast to ", stringify!($to), " gives the nearest float"));
        let c: $to = cast($x);
        ensures!(c == $x as $to, concat!("cast to ", stringify!($to), " gives the nearest float"));
    })*};
}
macro_rules! float_to_int {
    ($x:ident $f:ty; $($to:ty)*) => {$({
        let r: Option<$to> = try_cast($x);
        // truncation lies within the type: -1 beyond the minimum and the maximum plus one are excluded
        let lo = <$to>::MIN as $f;
        let hi = <$to>::MAX as $f;
        let top = if hi as $to == <$to>::MAX && (hi as $to as $f) == hi && (<$to>::MAX as u128) < (1u128 << <$f>::MANTISSA_DIGITS) { hi + 1.0 } else { hi };
        #[allow(unused_comparisons)]
        let above = if (<$to>::MIN as i128).unsigned_abs() < (1u128 << <$f>::MANTISSA_DIGITS) { $x > lo - 1.0 } else { $x >= lo };
        let ok = above && $x < top;
        ensures!(r == if ok { Some($x as $to) } else { None }, concat!("try_cast to ", stringify!($to), " truncates or refuses"));
    })*};
}
''')
for t in I:
    w(f'''pub mod cast_{t} {{
    use super::*;
    #[cfg_attr(kani, kani::proof)]
    pub fn integers() {{
        let x: {t} = any();
        to_int!(x; {' '.join(I)});
        reached!();
    }}
    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {{
        let x: {t} = any();
        to_float!(x; f32 f64);
        reached!();
    }}
}}''')
    ent += [f'("C19", "numeric::cast_{t}::{n}", cast_{t}::{n} as fn())' for n in ('integers','floats')]
for t in ('f32','f64'):
    w(f'''pub mod cast_{t} {{
    use super::*;''')
    for i in I:
        w(f'''    #[cfg_attr(kani, kani::proof)]
    pub fn to_{i}() {{
        let x: {t} = any();
        float_to_int!(x {t}; {i});
        reached!();
    }}''')
        ent.append(f'("C19", "numeric::cast_{t}::to_{i}", cast_{t}::to_{i} as fn())')
    w(f'''    #[cfg_attr(kani, kani::proof)]
    pub fn floats() {{
        let x: {t} = any();
        requires!(x == x);
        let r: Option<f64> = try_cast(x);
        ensures!(r == Some(x as f64), "try_cast to f64 keeps the value");
        let r: Option<f32> = try_cast(x);
        ensures!(r == Some(x as f32), "try_cast to f32 gives the nearest float");
        reached!();
    }}
}}''')
    ent.append(f'("C19", "numeric::cast_{t}::floats", cast_{t}::floats as fn())')
w('pub fn all() -> Vec<Entry> {\n    vec![')
for e in ent: w('        '+e+',')
w('    ]\n}')
open('/verif/harness/kani_contracts/src/numeric.rs','w').write("\n".join(o)+"\n")
