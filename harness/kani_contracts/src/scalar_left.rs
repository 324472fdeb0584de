//! scalar * vector, point, matrix, quaternion and the operators with a scalar left of a complex number
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_core::*;

pub trait Prim: crate::any::Any + PartialEq {
    /// the machine product, sum, difference (wrapping for the integers)
    fn m(self, o: Self) -> Self;
    fn a(self, o: Self) -> Self;
    fn s(self, o: Self) -> Self;
    fn same(self, o: Self) -> bool;
    /// small enough for no operation here to overflow (wide integers: see DESIGN.md)
    fn ok(self) -> bool;
    /// the product is representable (the code panics otherwise)
    fn fits(self, o: Self) -> bool;
}
macro_rules! int {
    ($($t:ty: $ok:expr;)*) => {$(impl Prim for $t {
        #[cfg(kani)]
        fn m(self, o: Self) -> Self { self * o }
        #[cfg(not(kani))]
        fn m(self, o: Self) -> Self { self.wrapping_mul(o) }
        fn a(self, o: Self) -> Self { self.wrapping_add(o) }
        fn s(self, o: Self) -> Self { self.wrapping_sub(o) }
        fn same(self, o: Self) -> bool { self == o }
        fn fits(self, o: Self) -> bool { self.checked_mul(o).is_some() }
        fn ok(self) -> bool { let f: fn($t) -> bool = $ok; f(self) }
    })*};
}
int! {
    u8: |_| true; i8: |_| true; u16: |_| true; i16: |_| true;
    u32: |_| true; i32: |_| true; u64: |_| true; i64: |_| true;
    u128: |_| true; i128: |_| true; usize: |_| true; isize: |_| true;
}
macro_rules! float {
    ($($t:ty)*) => {$(impl Prim for $t {
        fn m(self, o: Self) -> Self { self * o }
        fn a(self, o: Self) -> Self { self + o }
        fn s(self, o: Self) -> Self { self - o }
        fn same(self, o: Self) -> bool { self == o || (self != self && o != o) }
        fn fits(self, _: Self) -> bool { true }
        fn ok(self) -> bool { true }
    })*};
}
float!(f32 f64);
fn arb<T: Prim>() -> T {
    let x: T = any();
    // natively the wrapping operators of the specification meet the code's on every operand
    requires!(cfg!(not(kani)) || x.ok());
    x
}
fn arr<T: Prim, const N: usize>() -> [T; N] {
    std::array::from_fn(|_| arb())
}
macro_rules! vectors {
    ($x:ident $t:ty; $($n:literal)*) => {$({
        let a = arr::<$t, $n>();
        for i in 0..$n {
            requires!(cfg!(not(kani)) || $x.fits(a[i]));
        }
        let v = Vector::<$t, $n>::from(a);
        let (r0, r1, r2, r3) = ($x * v, $x * &v, &$x * v, &$x * &v);
        let mut ok = [true; 4];
        for i in 0..$n {
            let w = $x.m(a[i]);
            ok[0] &= r0[i].same(w);
            ok[1] &= r1[i].same(w);
            ok[2] &= r2[i].same(w);
            ok[3] &= r3[i].same(w);
        }
        ensures!(ok[0] & ok[1] & ok[2] & ok[3], "scalar * vector is the scalar times every component, in the four forms");
    })*};
}
macro_rules! points {
    ($x:ident $t:ty; $($n:literal)*) => {$({
        let a = arr::<$t, $n>();
        for i in 0..$n {
            requires!(cfg!(not(kani)) || $x.fits(a[i]));
        }
        let v = Point::<$t, $n>::from(a);
        let (r0, r1) = ($x * v, &$x * v);
        let mut ok = true;
        for i in 0..$n {
            let w = $x.m(a[i]);
            ok &= r0[i].same(w) & r1[i].same(w);
        }
        ensures!(ok, "scalar * point is the scalar times every component, in both forms");
    })*};
}
macro_rules! matrices {
    ($x:ident $t:ty; $($r:literal $c:literal)*) => {$({
        let a: [[$t; $r]; $c] = std::array::from_fn(|_| arr::<$t, $r>());
        for i in 0..$c {
            for j in 0..$r {
                requires!(cfg!(not(kani)) || $x.fits(a[i][j]));
            }
        }
        let v = Matrix::<$t, $r, $c>::from(a);
        let (r0, r1, r2, r3) = ($x * v, $x * &v, &$x * v, &$x * &v);
        let mut ok = true;
        for i in 0..$c {
            for j in 0..$r {
                let w = $x.m(a[i][j]);
                ok &= r0[i][j].same(w) & r1[i][j].same(w) & r2[i][j].same(w) & r3[i][j].same(w);
            }
        }
        ensures!(ok, "scalar * matrix is the scalar times every entry, in the four forms");
    })*};
}
macro_rules! quaternions {
    ($x:ident $t:ty) => {{
        let a = arr::<$t, 4>();
        for i in 0..4 {
            requires!(cfg!(not(kani)) || $x.fits(a[i]));
        }
        let v = Quaternion::new(a[0], a[1], a[2], a[3]);
        let (r0, r1, r2, r3) = ($x * v, $x * &v, &$x * v, &$x * &v);
        let w = Quaternion::new($x.m(a[0]), $x.m(a[1]), $x.m(a[2]), $x.m(a[3]));
        let mut ok = true;
        for i in 0..4 {
            ok &= r0[i].same(w[i]) & r1[i].same(w[i]) & r2[i].same(w[i]) & r3[i].same(w[i]);
        }
        ensures!(ok, "scalar * quaternion is the scalar times every component, in the four forms");
    }};
}
macro_rules! complexes {
    ($x:ident $t:ty) => {{
        let a = arr::<$t, 2>();
        let v = Complex::new(a[0], a[1]);
        requires!(cfg!(not(kani)) || ($x.fits(a[0]) && $x.fits(a[1])));
        let mut ok = true;
        let rs = [$x + v, $x + &v, &$x + v, &$x + &v];
        for i in 0..4 {
            ok &= rs[i].real().same($x.a(a[0])) && rs[i].imaginary().same(a[1]);
        }
        ensures!(ok, "scalar + complex adds to the real part, in the four forms");
        let mut ok = true;
        let rs = [$x * v, $x * &v, &$x * v, &$x * &v];
        for i in 0..4 {
            ok &= rs[i].real().same($x.m(a[0])) && rs[i].imaginary().same($x.m(a[1]));
        }
        ensures!(ok, "scalar * complex scales both parts, in the four forms");
        let (mut re, mut im, mut dev) = (true, true, true);
        let rs = [$x - v, $x - &v, &$x - v, &$x - &v];
        for i in 0..4 {
            let y = rs[i].imaginary();
            let n = (0 as $t).s(a[1]);
            re &= rs[i].real().same($x.s(a[0]));
            im &= y.same(n);
            dev &= y.same(a[1]) | y.same(n);
        }
        ensures!(re, "scalar - complex: real part, in the four forms");
        ensures!(dev, "scalar - complex: imaginary part up to its sign, in the four forms");
        // the negated imaginary part is not representable in the unsigned types
        #[allow(unused_comparisons)]
        if <$t>::MIN < (0 as $t) {
            ensures!(im, "scalar - complex: imaginary part, in the four forms [known C11-scalar-minus-complex]");
        }
    }};
}
macro_rules! quotients {
    ($x:ident $t:ty) => {{
        let a = arr::<$t, 2>();
        let v = Complex::new(a[0], a[1]);
        let d = a[0].m(a[0]).a(a[1].m(a[1]));
        requires!(d != (0 as $t));
        let rs = [$x / v, $x / &v, &$x / v, &$x / &v];
        let (re, im) = ($x.m(a[0]) / d, (0 as $t).s($x.m(a[1])) / d);
        let mut ok = true;
        for i in 0..4 {
            ok &= rs[i].real().same(re) && rs[i].imaginary().same(im);
        }
        ensures!(ok, "scalar / complex is scalar * conjugate / squared modulus, in the four forms");
    }};
}
macro_rules! types {
    ($($m:ident $t:ty;)*) => {
        $(pub mod $m {
            use super::*;
            fns! { $t;
                c01_vector_1: x => { vectors!(x $t; 1); };
                c01_point_1: x => { points!(x $t; 1); };
                c01_vector_2: x => { vectors!(x $t; 2); };
                c01_point_2: x => { points!(x $t; 2); };
                c01_vector_3: x => { vectors!(x $t; 3); };
                c01_point_3: x => { points!(x $t; 3); };
                c01_vector_4: x => { vectors!(x $t; 4); };
                c04_matrix_1x1: x => { matrices!(x $t; 1 1); };
                c04_matrix_2x2: x => { matrices!(x $t; 2 2); };
                c04_matrix_2x3: x => { matrices!(x $t; 2 3); };
                c04_matrix_3x2: x => { matrices!(x $t; 3 2); };
                c04_matrix_3x3: x => { matrices!(x $t; 3 3); };
                c04_matrix_4x4: x => { matrices!(x $t; 4 4); };
                c08_quaternion: x => { quaternions!(x $t); };
                c11_complex: x => { complexes!(x $t); };
            }
        })*
        fn entries() -> Vec<Entry> {
            let mut v: Vec<Entry> = vec![];
            $(v.extend($m::entries(concat!("scalar_left::", stringify!($m), "::")));)*
            v
        }
    };
}
macro_rules! fns {
    ($t:ty; $($f:ident: $x:ident => $b:block;)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn $f() {
                let $x: $t = arb();
                $b;
                reached!($x == (0 as $t));
            }
        )*
        pub fn entries(at: &str) -> Vec<Entry> {
            vec![$((property(stringify!($f)), Box::leak(format!("{}{}", at, stringify!($f)).into_boxed_str()), $f as fn()),)*]
        }
    };
}
fn property(f: &str) -> &'static str {
    match &f[..3] {
        "c01" => "C01",
        "c04" => "C04",
        "c08" => "C08",
        _ => "C11",
    }
}
types! { t_u8 u8; t_u16 u16; t_u32 u32; t_u64 u64; t_u128 u128; t_usize usize; t_i8 i8; t_i16 i16; t_i32 i32; t_i64 i64; t_i128 i128; t_isize isize; t_f32 f32; t_f64 f64; }
macro_rules! signed {
    ($($m:ident $t:ty;)*) => {
        $(pub mod $m {
            use super::*;
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn c11_scalar_by_complex() {
                let x: $t = arb();
                quotients!(x $t);
                reached!();
            }
        })*
        fn signed() -> Vec<Entry> {
            vec![$(("C11", concat!("scalar_left::", stringify!($m), "::c11_scalar_by_complex"), $m::c11_scalar_by_complex as fn()),)*]
        }
    };
}
signed! { d_i8 i8; d_i16 i16; d_i32 i32; d_i64 i64; d_i128 i128; d_isize isize; d_f32 f32; d_f64 f64; }
pub fn all() -> Vec<Entry> {
    let mut v = entries();
    v.extend(signed());
    v
}
