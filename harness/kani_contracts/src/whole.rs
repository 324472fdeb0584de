//! The generic operators at the machine integers, where division truncates: the quotient of a vector by a
//! scalar is the quotient of its components, not their product with a reciprocal. The proofs for every type
//! with ring operations are vcgen's (`whole_*`); here the operators with a division and the sums and differences
//! are proved on machine types themselves, and the rest is evaluated on drawn integers to give failing inputs.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_core::*;

macro_rules! forms {
    ($a:ident $d:ident $op:tt $as:tt) => {{
        let mut p = $a;
        p $as $d;
        [$a $op $d, &$a $op $d, p]
    }};
}
macro_rules! sum_forms {
    ($a:ident $b:ident $op:tt $as:tt) => {{
        let (mut p, mut q) = ($a, $a);
        p $as $b;
        q $as &$b;
        [$a $op $b, $a $op &$b, &$a $op $b, &$a $op &$b, p, q]
    }};
}
macro_rules! quotients {
    ($($m:ident $t:ty;)*) => {
        $(pub mod $m {
            use super::*;
            fn divisor<const N: usize>(a: &[$t; N]) -> $t {
                let d: $t = any();
                requires!(d != 0);
                // the one quotient that is not representable
                #[allow(unused_comparisons)]
                if <$t>::MIN < 0 {
                    for i in 0..N {
                        requires!(a[i] != <$t>::MIN || d != (0 as $t).wrapping_sub(1));
                    }
                }
                d
            }
            fn flat<const N: usize, const R: usize, const C: usize>(a: &[$t; N]) -> [[$t; R]; C] {
                std::array::from_fn(|c| std::array::from_fn(|r| a[c * R + r]))
            }
            macro_rules! vector { ($f:ident $n:literal) => {
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind(6))]
                pub fn $f() {
                    let a: [$t; $n] = any();
                    let d = divisor(&a);
                    let v = Vector::<$t, $n>::from(a);
                    let (q, r) = (forms!(v d / /=), forms!(v d % %=));
                    let (mut ok, mut rem) = (true, true);
                    for k in 0..3 {
                        for i in 0..$n {
                            ok &= q[k][i] == a[i] / d;
                            rem &= r[k][i] == a[i] % d;
                        }
                    }
                    ensures!(ok, "vector / scalar divides every component, in the three forms");
                    ensures!(rem, "vector % scalar is the remainder of every component, in the three forms");
                    let v = Point::<$t, $n>::from(a);
                    let (q, r) = (forms!(v d / /=), forms!(v d % %=));
                    let (mut ok, mut rem) = (true, true);
                    for k in 0..3 {
                        for i in 0..$n {
                            ok &= q[k][i] == a[i] / d;
                            rem &= r[k][i] == a[i] % d;
                        }
                    }
                    ensures!(ok, "point / scalar divides every component, in the three forms");
                    ensures!(rem, "point % scalar is the remainder of every component, in the three forms");
                    reached!();
                }
            } }
            vector!(c01_quotient_1 1);
            vector!(c01_quotient_2 2);
            vector!(c01_quotient_3 3);
            macro_rules! matrix { ($f:ident $r:literal $c:literal) => {
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind(17))]
                pub fn $f() {
                    let a: [$t; $r * $c] = any();
                    let d = divisor(&a);
                    let e: [[$t; $r]; $c] = flat(&a);
                    let m = Matrix::<$t, $r, $c>::from(e);
                    let (q, r) = (forms!(m d / /=), forms!(m d % %=));
                    let (mut ok, mut rem) = (true, true);
                    for k in 0..3 {
                        for i in 0..$c {
                            for j in 0..$r {
                                ok &= q[k][i][j] == e[i][j] / d;
                                rem &= r[k][i][j] == e[i][j] % d;
                            }
                        }
                    }
                    ensures!(ok, "matrix / scalar divides every entry, in the three forms");
                    ensures!(rem, "matrix % scalar is the remainder of every entry, in the three forms");
                    reached!();
                }
            } }
            matrix!(c04_quotient_2x2 2 2);
            matrix!(c04_quotient_2x3 2 3);
            matrix!(c04_quotient_3x2 3 2);
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn c08_quotient() {
                let a: [$t; 4] = any();
                let d = divisor(&a);
                let v = Quaternion::new(a[0], a[1], a[2], a[3]);
                let (q, r) = (forms!(v d / /=), forms!(v d % %=));
                let (mut ok, mut rem) = (true, true);
                let (qr, rr) = ([v / &d, &v / &d], [v % &d, &v % &d]);
                for k in 0..2 {
                    for i in 0..4 {
                        ok &= qr[k][i] == a[i] / d;
                        rem &= rr[k][i] == a[i] % d;
                    }
                }
                for k in 0..3 {
                    for i in 0..4 {
                        ok &= q[k][i] == a[i] / d;
                        rem &= r[k][i] == a[i] % d;
                    }
                }
                ensures!(ok, "quaternion / scalar divides every component, in the five forms");
                ensures!(rem, "quaternion % scalar is the remainder of every component, in the five forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c11_quotient() {
                let a: [$t; 2] = any();
                let d = divisor(&a);
                let v = Complex::new(a[0], a[1]);
                let (q, r) = (sum_forms!(v d / /=), [v % d, &v % d]);
                let mut ok = v.unscale(d).real() == a[0] / d && v.unscale(d).imaginary() == a[1] / d;
                for k in 0..6 {
                    ok &= q[k].real() == a[0] / d && q[k].imaginary() == a[1] / d;
                }
                ensures!(ok, "complex / real divides both parts, in all forms and by unscale");
                let mut rem = true;
                for k in 0..2 {
                    rem &= r[k].real() == a[0] % d && r[k].imaginary() == a[1] % d;
                }
                ensures!(rem, "complex % real is the remainder of both parts");
                reached!();
            }
        })*
        fn entries() -> Vec<Entry> {
            vec![$(
                ("C01", concat!("whole::", stringify!($m), "::c01_quotient_1"), $m::c01_quotient_1 as fn()),
                ("C01", concat!("whole::", stringify!($m), "::c01_quotient_2"), $m::c01_quotient_2 as fn()),
                ("C01", concat!("whole::", stringify!($m), "::c01_quotient_3"), $m::c01_quotient_3 as fn()),
                ("C04", concat!("whole::", stringify!($m), "::c04_quotient_2x2"), $m::c04_quotient_2x2 as fn()),
                ("C04", concat!("whole::", stringify!($m), "::c04_quotient_2x3"), $m::c04_quotient_2x3 as fn()),
                ("C04", concat!("whole::", stringify!($m), "::c04_quotient_3x2"), $m::c04_quotient_3x2 as fn()),
                ("C08", concat!("whole::", stringify!($m), "::c08_quotient"), $m::c08_quotient as fn()),
                ("C11", concat!("whole::", stringify!($m), "::c11_quotient"), $m::c11_quotient as fn()),
            )*]
        }
    };
}
quotients! { q_u8 u8; q_i8 i8; q_u32 u32; q_i32 i32; q_u64 u64; q_i64 i64; }

/// sums and differences at the machine integers: defined, and without overflow, whenever every component of the
/// result is representable (a difference of unsigned operands must not go through its opposite)
macro_rules! sums {
    ($($m:ident $t:ty;)*) => {
        $(pub mod $m {
            use super::*;
            fn pair<const N: usize>(sub: bool) -> ([$t; N], [$t; N], [$t; N]) {
                let (a, b): ([$t; N], [$t; N]) = (any(), any());
                let mut w = [0; N];
                for i in 0..N {
                    let r = if sub { a[i].checked_sub(b[i]) } else { a[i].checked_add(b[i]) };
                    requires!(r.is_some());
                    w[i] = r.unwrap_or(0);
                }
                (a, b, w)
            }
            fn flat<const N: usize, const R: usize, const C: usize>(a: &[$t; N]) -> [[$t; R]; C] {
                std::array::from_fn(|c| std::array::from_fn(|r| a[c * R + r]))
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c01_sum() {
                let (a, b, w) = pair::<3>(false);
                let (x, y, p) = (Vector3::from(a), Vector3::from(b), Point3::from(a));
                let (s, t) = (sum_forms!(x y + +=), sum_forms!(p y + +=));
                let (mut ok, mut okp) = (true, true);
                for k in 0..6 {
                    for i in 0..3 {
                        ok &= s[k][i] == w[i];
                        okp &= t[k][i] == w[i];
                    }
                }
                ensures!(ok, "vector + vector adds every component, in all forms");
                ensures!(okp, "point + vector adds every component, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c01_difference() {
                let (a, b, w) = pair::<3>(true);
                let (x, y, p, q) = (Vector3::from(a), Vector3::from(b), Point3::from(a), Point3::from(b));
                let (s, t) = (sum_forms!(x y - -=), sum_forms!(p y - -=));
                let d = [p - q, p - &q, &p - q, &p - &q];
                let (mut ok, mut okp, mut okd) = (true, true, true);
                for k in 0..6 {
                    for i in 0..3 {
                        ok &= s[k][i] == w[i];
                        okp &= t[k][i] == w[i];
                        okd &= d[k % 4][i] == w[i];
                    }
                }
                ensures!(ok, "vector - vector subtracts every component, in all forms");
                ensures!(okp, "point - vector subtracts every component, in all forms");
                ensures!(okd, "point - point subtracts every component, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c04_sum() {
                let (a, b, w) = pair::<6>(false);
                let (w, x, y) = (flat::<6, 2, 3>(&w), Matrix2x3::from(flat::<6, 2, 3>(&a)), Matrix2x3::from(flat::<6, 2, 3>(&b)));
                let s = sum_forms!(x y + +=);
                let mut ok = true;
                for k in 0..6 {
                    for i in 0..3 {
                        ok &= s[k][i][0] == w[i][0] && s[k][i][1] == w[i][1];
                    }
                }
                ensures!(ok, "matrix + matrix adds every entry, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c04_difference() {
                let (a, b, w) = pair::<6>(true);
                let (w, x, y) = (flat::<6, 2, 3>(&w), Matrix2x3::from(flat::<6, 2, 3>(&a)), Matrix2x3::from(flat::<6, 2, 3>(&b)));
                let s = sum_forms!(x y - -=);
                let mut ok = true;
                for k in 0..6 {
                    for i in 0..3 {
                        ok &= s[k][i][0] == w[i][0] && s[k][i][1] == w[i][1];
                    }
                }
                ensures!(ok, "matrix - matrix subtracts every entry, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c08_sum() {
                let (a, b, w) = pair::<4>(false);
                let (x, y) = (Quaternion::new(a[0], a[1], a[2], a[3]), Quaternion::new(b[0], b[1], b[2], b[3]));
                let s = sum_forms!(x y + +=);
                let mut ok = true;
                for k in 0..6 {
                    for i in 0..4 {
                        ok &= s[k][i] == w[i];
                    }
                }
                ensures!(ok, "quaternion + quaternion adds every component, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c08_difference() {
                let (a, b, w) = pair::<4>(true);
                let (x, y) = (Quaternion::new(a[0], a[1], a[2], a[3]), Quaternion::new(b[0], b[1], b[2], b[3]));
                let s = sum_forms!(x y - -=);
                let mut ok = true;
                for k in 0..6 {
                    for i in 0..4 {
                        ok &= s[k][i] == w[i];
                    }
                }
                ensures!(ok, "quaternion - quaternion subtracts every component, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c11_sum() {
                let (a, b, w) = pair::<2>(false);
                let (x, y, r) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]), b[0]);
                let (s, t) = (sum_forms!(x y + +=), sum_forms!(x r + +=));
                let (mut ok, mut okr) = (true, true);
                for k in 0..6 {
                    ok &= s[k].real() == w[0] && s[k].imaginary() == w[1];
                    okr &= t[k].real() == w[0] && t[k].imaginary() == a[1];
                }
                ensures!(ok, "complex + complex adds both parts, in all forms");
                ensures!(okr, "complex + real adds to the real part, in all forms");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(7))]
            pub fn c11_difference() {
                let (a, b, w) = pair::<2>(true);
                let (x, y, r) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]), b[0]);
                let (s, t) = (sum_forms!(x y - -=), sum_forms!(x r - -=));
                let (mut ok, mut okr) = (true, true);
                for k in 0..6 {
                    ok &= s[k].real() == w[0] && s[k].imaginary() == w[1];
                    okr &= t[k].real() == w[0] && t[k].imaginary() == a[1];
                }
                ensures!(ok, "complex - complex subtracts both parts, in all forms");
                ensures!(okr, "complex - real subtracts from the real part, in all forms");
                reached!();
            }
        })*
        fn sum_entries() -> Vec<Entry> {
            vec![$(
                ("C01", concat!("whole::", stringify!($m), "::c01_sum"), $m::c01_sum as fn()),
                ("C01", concat!("whole::", stringify!($m), "::c01_difference"), $m::c01_difference as fn()),
                ("C04", concat!("whole::", stringify!($m), "::c04_sum"), $m::c04_sum as fn()),
                ("C04", concat!("whole::", stringify!($m), "::c04_difference"), $m::c04_difference as fn()),
                ("C08", concat!("whole::", stringify!($m), "::c08_sum"), $m::c08_sum as fn()),
                ("C08", concat!("whole::", stringify!($m), "::c08_difference"), $m::c08_difference as fn()),
                ("C11", concat!("whole::", stringify!($m), "::c11_sum"), $m::c11_sum as fn()),
                ("C11", concat!("whole::", stringify!($m), "::c11_difference"), $m::c11_difference as fn()),
            )*]
        }
    };
}
sums! { s_u8 u8; s_i8 i8; s_u32 u32; s_i32 i32; s_u64 u64; s_i64 i64; }

/// drawn integers only (no proof here): the polynomial operations
pub mod ring {
    use super::*;
    fn small() -> i64 {
        let x: i64 = any();
        x.rem_euclid(41) - 20
    }
    fn v<const N: usize>() -> [i64; N] {
        std::array::from_fn(|_| small())
    }
    fn m<const R: usize, const C: usize>() -> Matrix<i64, R, C> {
        Matrix::from(std::array::from_fn::<[i64; R], C, _>(|_| v()))
    }
    fn det(a: &[Vec<i64>]) -> i64 {
        if a.is_empty() {
            return 1;
        }
        let mut s = 0;
        for c in 0..a.len() {
            let minor: Vec<Vec<i64>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != c).map(|(_, x)| *x).collect()).collect();
            s += if c % 2 == 0 { 1 } else { -1 } * a[0][c] * det(&minor);
        }
        s
    }
    fn rows<const R: usize, const C: usize>(a: &Matrix<i64, R, C>) -> Vec<Vec<i64>> {
        (0..R).map(|r| (0..C).map(|c| a[c][r]).collect()).collect()
    }
    pub fn c02_products() {
        let (a, b, c): ([i64; 4], [i64; 4], [i64; 3]) = (v(), v(), v());
        macro_rules! n { ($($n:literal)*) => {$({
            let (x, y) = (Vector::<i64, $n>::from(std::array::from_fn::<i64, $n, _>(|i| a[i])), Vector::<i64, $n>::from(std::array::from_fn::<i64, $n, _>(|i| b[i])));
            let w: i64 = (0..$n).map(|i| a[i] * b[i]).sum();
            let s: i64 = (0..$n).map(|i| a[i] * a[i]).sum();
            let e: i64 = (0..$n).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum();
            ensures!(x.dot(&y) == w, "dot product of integer vectors");
            ensures!(x.norm_squared() == s && x.magnitude_squared() == s, "squared norm of an integer vector");
            ensures!(x.metric_distance_squared(&y) == e, "squared distance of integer vectors");
            let (x, y) = (Point::from_vector(&x), Point::from_vector(&y));
            ensures!(x.dot(&y) == w && x.norm_squared() == s && x.metric_distance_squared(&y) == e, "integer points");
            let l1: i64 = (0..$n).map(|i| a[i].abs()).sum();
            ensures!(Vector::<i64, $n>::from(std::array::from_fn::<i64, $n, _>(|i| a[i])).l1_norm() == l1, "L1 norm of an integer vector");
        })*}; }
        n!(1 2 3 4);
        let (x, y, z) = (Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]), Vector3::from(c));
        let r = x.cross(&y);
        let w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        ensures!(r[0] == w[0] && r[1] == w[1] && r[2] == w[2], "cross product of integer vectors");
        ensures!(x.triple(&y, &z) == w[0] * c[0] + w[1] * c[1] + w[2] * c[2], "triple product of integer vectors");
    }
    pub fn c03_homogeneous() {
        let (a, k): ([i64; 3], i64) = (v(), small());
        let r: Option<Point<i64, 3>> = Point::from_homogeneous(&Vector4::new(a[0], a[1], a[2], k));
        let w = if k == 0 { None } else { Some(Point3::new(a[0] / k, a[1] / k, a[2] / k)) };
        ensures!(r == w, "point of integer homogeneous coordinates");
        let r: Option<Point<i64, 2>> = Point::from_homogeneous(&Vector3::new(a[0], a[1], k));
        let w = if k == 0 { None } else { Some(Point2::new(a[0] / k, a[1] / k)) };
        ensures!(r == w, "point of integer homogeneous coordinates");
    }
    pub fn c04_products() {
        macro_rules! p { ($($r:literal $c:literal $k:literal;)*) => {$({
            let (a, b) = (m::<$r, $c>(), m::<$c, $k>());
            let x: Vector<i64, $c> = Vector::from(v::<$c>());
            let q = [a * b, a * &b, &a * b, &a * &b];
            let t = a.transpose().tr_mul(&b);
            let y = [a * x, a * &x, &a * x, &a * &x];
            let mut ok = true;
            for r in 0..$r {
                for k in 0..$k {
                    let w: i64 = (0..$c).map(|i| a[i][r] * b[k][i]).sum();
                    ok &= q.iter().all(|q| q[k][r] == w) && t[k][r] == w;
                }
                ok &= y.iter().all(|y| y[r] == (0..$c).map(|i| a[i][r] * x[i]).sum::<i64>());
            }
            ensures!(ok, "products of integer matrices");
        })*}; }
        p!(1 1 1; 2 2 2; 3 3 3; 4 4 4; 2 3 4; 4 2 3; 3 4 2;);
        let a = m::<3, 3>();
        ensures!(a.trace() == a[0][0] + a[1][1] + a[2][2], "trace of an integer matrix");
    }
    pub fn c05_determinants() {
        let (a, b, c, d) = (m::<1, 1>(), m::<2, 2>(), m::<3, 3>(), m::<4, 4>());
        ensures!(a.determinant() == det(&rows(&a)) && b.determinant() == det(&rows(&b)) && c.determinant() == det(&rows(&c)) && d.determinant() == det(&rows(&d)), "determinant of an integer matrix");
    }
    pub fn c08_products() {
        let (a, b): ([i64; 4], [i64; 4]) = (v(), v());
        let (p, q) = (Quaternion::new(a[0], a[1], a[2], a[3]), Quaternion::new(b[0], b[1], b[2], b[3]));
        let w = [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ];
        for r in [p * q, p * &q, &p * q, &p * &q] {
            ensures!((0..4).all(|i| r[i] == w[i]), "Hamilton product of integer quaternions");
        }
        let r = p.half();
        ensures!((0..4).all(|i| r[i] == a[i] / 2), "half of an integer quaternion");
        ensures!(p.norm_squared() == a.iter().map(|x| x * x).sum::<i64>(), "squared norm of an integer quaternion");
        let r = p.squared();
        let s = p * p;
        ensures!((0..4).all(|i| r[i] == s[i]), "square of an integer quaternion");
    }
    pub fn c11_products() {
        let (a, b): ([i64; 2], [i64; 2]) = (v(), v());
        let (p, q) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]));
        for r in sum_forms!(p q * *=) {
            ensures!(r.real() == a[0] * b[0] - a[1] * b[1] && r.imaginary() == a[0] * b[1] + a[1] * b[0], "product of Gaussian integers");
        }
        let r = p.squared();
        ensures!(r.real() == a[0] * a[0] - a[1] * a[1] && r.imaginary() == 2 * a[0] * a[1], "square of a Gaussian integer");
        ensures!(p.modulus_squared() == a[0] * a[0] + a[1] * a[1], "squared modulus of a Gaussian integer");
        let d = b[0];
        for r in sum_forms!(p d * *=) {
            ensures!(r.real() == a[0] * d && r.imaginary() == a[1] * d, "product of a Gaussian integer and an integer");
        }
        let n = b[0] * b[0] + b[1] * b[1];
        requires!(n != 0);
        for r in sum_forms!(p q / /=) {
            ensures!(r.real() == (a[0] * b[0] + a[1] * b[1]) / n && r.imaginary() == (a[1] * b[0] - a[0] * b[1]) / n, "quotient of Gaussian integers");
        }
    }
    pub fn entries() -> Vec<Entry> {
        vec![
            ("C02", "whole::ring::c02_products", c02_products as fn()),
            ("C03", "whole::ring::c03_homogeneous", c03_homogeneous as fn()),
            ("C04", "whole::ring::c04_products", c04_products as fn()),
            ("C05", "whole::ring::c05_determinants", c05_determinants as fn()),
            ("C08", "whole::ring::c08_products", c08_products as fn()),
            ("C11", "whole::ring::c11_products", c11_products as fn()),
        ]
    }
}
pub fn all() -> Vec<Entry> {
    let mut v = entries();
    v.extend(sum_entries());
    v.extend(ring::entries());
    v
}
