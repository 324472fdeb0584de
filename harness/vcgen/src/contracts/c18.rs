//! C18: approximate comparisons.
use crate::sc::*;
use crate::spec::*;
use crate::term::F;
use crate::Contract;
use approx_cmp::*;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

type U<S> = <S as cglinalg_numeric::SimdScalarCmp>::IntegerRepr;

/// the scalars of a value in memory order
fn mem<E: Copy, T>(t: &T) -> Vec<E> {
    let n = std::mem::size_of::<T>() / std::mem::size_of::<E>();
    assert!(n * std::mem::size_of::<E>() == std::mem::size_of::<T>());
    let p = t as *const T as *const E;
    (0..n).map(|i| unsafe { *p.add(i) }).collect()
}
fn arr<E: Copy, const N: usize>(x: &[E]) -> [E; N] {
    std::array::from_fn(|i| x[i])
}
fn vecn<E: Copy, const N: usize>(x: &[E]) -> Vector<E, N> {
    Vector::from(arr::<E, N>(x))
}
fn matn<E: Copy, const R: usize, const C: usize>(x: &[E]) -> Matrix<E, R, C> {
    Matrix::from(std::array::from_fn::<[E; R], C, _>(|c| arr::<E, R>(&x[c * R..])))
}
fn conj<S: Sc>(n: usize, f: impl Fn(usize) -> F<S>) -> F<S> {
    and((0..n).map(f).collect())
}
fn pairs<S: Sc>(got: Vec<Option<U<S>>>, want: Vec<Option<U<S>>>) -> F<S> {
    if got.len() != want.len() {
        return F::False;
    }
    and(got
        .iter()
        .zip(&want)
        .map(|(a, b)| match (a, b) {
            (None, None) => F::True,
            (Some(x), Some(y)) => eq(S::ulps_val(*x), S::ulps_val(*y)),
            _ => F::False,
        })
        .collect())
}
fn us<S: Sc>(x: &[U<S>]) -> Vec<S> {
    x.iter().map(|e| S::ulps_val(*e)).collect()
}
/// ulps tolerances, as the traits take them and as scalars
fn ulp<S: Sc>(cx: &mut Cx<S>, name: &str, n: usize) -> (Vec<U<S>>, Vec<S>) {
    (0..n).map(|i| S::ulps(cx, &format!("{}{}", name, i))).unzip()
}

fn settle<S: Sc>(cx: &mut Cx<S>, n: usize) {
    cx.lazy(true);
    if n > 13 {
        cx.few(5);
    }
}
/// $val: two values and their components; $tol: the tolerance with these components, listed in the
/// same order, which is the order of the components in the reported differences
macro_rules! cmp {
    ($m:ident $T:literal $pre:literal; $val:expr; $tol:expr) => {
        mod $m {
            use super::*;
            fn abs_diff<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.vs("t", x.len());
                let tt = $tol(&t);
                let r = cx.call(concat!("AbsDiffEq for ", $T), || a.abs_diff_eq(&b, &tt));
                cx.agrees("holds for every component under its tolerance", r, conj(x.len(), |i| F::Pred("abs_diff_eq", vec![x[i], y[i], t[i]])));
            }
            fn abs_diff_all<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.v("t");
                let r = cx.call(concat!("AbsDiffAllEq for ", $T), || a.abs_diff_all_eq(&b, &t));
                cx.agrees("holds for every component under the one tolerance", r, conj(x.len(), |i| F::Pred("abs_diff_eq", vec![x[i], y[i], t])));
            }
            fn relative<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.vs("t", x.len());
                let e = cx.vs("e", x.len());
                let (tt, ee) = ($tol(&t), $tol(&e));
                let r = cx.call(concat!("RelativeEq for ", $T), || a.relative_eq(&b, &tt, &ee));
                cx.agrees("holds for every component under its tolerances", r, conj(x.len(), |i| F::Pred("relative_eq", vec![x[i], y[i], t[i], e[i]])));
            }
            fn relative_all<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.v("t");
                let e = cx.v("e");
                let r = cx.call(concat!("RelativeAllEq for ", $T), || a.relative_all_eq(&b, &t, &e));
                cx.agrees("holds for every component under the tolerances", r, conj(x.len(), |i| F::Pred("relative_eq", vec![x[i], y[i], t, e])));
            }
            fn ulps<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.vs("t", x.len());
                let (u, us) = ulp(cx, "u", x.len());
                let (tt, uu) = ($tol(&t), $tol(&u));
                let r = cx.call(concat!("UlpsEq for ", $T), || a.ulps_eq(&b, &tt, &uu));
                cx.agrees("holds for every component under its tolerances", r, conj(x.len(), |i| F::Pred("ulps_eq", vec![x[i], y[i], t[i], us[i]])));
            }
            fn ulps_all<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let t = cx.v("t");
                let (u, us) = S::ulps(cx, "u");
                let r = cx.call(concat!("UlpsAllEq for ", $T), || a.ulps_all_eq(&b, &t, &u));
                cx.agrees("holds for every component under the tolerances", r, conj(x.len(), |i| F::Pred("ulps_eq", vec![x[i], y[i], t, us])));
            }
            fn reports<S: Sc>(cx: &mut Cx<S>) {
                let (a, x) = $val(cx, "a");
                let (b, y) = $val(cx, "b");
                settle(cx, x.len());
                let n = x.len();
                let t = cx.vs("t", n);
                let e = cx.vs("e", n);
                let (u, _) = ulp(cx, "u", n);
                let (tt, ee, uu) = ($tol(&t), $tol(&e), $tol(&u));
                let (t1, e1) = (cx.v("tt"), cx.v("ee"));
                let (u1, _) = S::ulps(cx, "uu");
                let each = |f: &dyn Fn(usize) -> S| (0..n).map(|i| f(i)).collect::<Vec<S>>();
                let r = cx.call(concat!("AssertAbsDiffEq::debug_abs_diff for ", $T), || AssertAbsDiffEq::debug_abs_diff(&a, &b));
                cx.ens_v("difference of every component", &mem::<S, _>(&r), &each(&|i| AssertAbsDiffEq::debug_abs_diff(&x[i], &y[i])));
                let r = cx.call(concat!("AssertAbsDiffEq::debug_abs_diff_tolerance for ", $T), || AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &tt));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertAbsDiffEq::debug_abs_diff_tolerance(&x[i], &y[i], &t[i])));
                let r = cx.call(concat!("AssertAbsDiffAllEq::debug_abs_diff_all_tolerance for ", $T), || AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t1));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&x[i], &y[i], &t1)));
                let r = cx.call(concat!("AssertRelativeEq::debug_abs_diff for ", $T), || AssertRelativeEq::debug_abs_diff(&a, &b));
                cx.ens_v("difference of every component", &mem::<S, _>(&r), &each(&|i| AssertRelativeEq::debug_abs_diff(&x[i], &y[i])));
                let r = cx.call(concat!("AssertRelativeEq::debug_abs_diff_tolerance for ", $T), || AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &tt));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertRelativeEq::debug_abs_diff_tolerance(&x[i], &y[i], &t[i])));
                let r = cx.call(concat!("AssertRelativeEq::debug_relative_tolerance for ", $T), || AssertRelativeEq::debug_relative_tolerance(&a, &b, &ee));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertRelativeEq::debug_relative_tolerance(&x[i], &y[i], &e[i])));
                let r = cx.call(concat!("AssertRelativeAllEq::debug_abs_diff_all_tolerance for ", $T), || AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t1));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertRelativeAllEq::debug_abs_diff_all_tolerance(&x[i], &y[i], &t1)));
                let r = cx.call(concat!("AssertRelativeAllEq::debug_relative_all_tolerance for ", $T), || AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &e1));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertRelativeAllEq::debug_relative_all_tolerance(&x[i], &y[i], &e1)));
                let r = cx.call(concat!("AssertUlpsEq::debug_abs_diff for ", $T), || AssertUlpsEq::debug_abs_diff(&a, &b));
                cx.ens_v("difference of every component", &mem::<S, _>(&r), &each(&|i| AssertUlpsEq::debug_abs_diff(&x[i], &y[i])));
                let r = cx.call(concat!("AssertUlpsEq::debug_ulps_diff for ", $T), || AssertUlpsEq::debug_ulps_diff(&a, &b));
                let w = (0..n).map(|i| AssertUlpsEq::debug_ulps_diff(&x[i], &y[i])).collect();
                cx.ensures("difference of every component", pairs::<S>(mem::<Option<U<S>>, _>(&r), w));
                let r = cx.call(concat!("AssertUlpsEq::debug_abs_diff_tolerance for ", $T), || AssertUlpsEq::debug_abs_diff_tolerance(&a, &b, &tt));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertUlpsEq::debug_abs_diff_tolerance(&x[i], &y[i], &t[i])));
                let r = cx.call(concat!("AssertUlpsEq::debug_ulps_tolerance for ", $T), || AssertUlpsEq::debug_ulps_tolerance(&a, &b, &uu));
                let w: Vec<U<S>> = (0..n).map(|i| AssertUlpsEq::debug_ulps_tolerance(&x[i], &y[i], &u[i])).collect();
                cx.ens_v("tolerance of every component", &us::<S>(&mem::<U<S>, _>(&r)), &us::<S>(&w));
                let r = cx.call(concat!("AssertUlpsAllEq::debug_abs_diff_all_tolerance for ", $T), || AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t1));
                cx.ens_v("tolerance of every component", &mem::<S, _>(&r), &each(&|i| AssertUlpsAllEq::debug_abs_diff_all_tolerance(&x[i], &y[i], &t1)));
                let r = cx.call(concat!("AssertUlpsAllEq::debug_ulps_all_tolerance for ", $T), || AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &u1));
                let w: Vec<U<S>> = (0..n).flat_map(|i| mem::<U<S>, _>(&AssertUlpsAllEq::debug_ulps_all_tolerance(&x[i], &y[i], &u1))).collect();
                cx.ens_v("tolerance of every component", &us::<S>(&mem::<U<S>, _>(&r)), &us::<S>(&w));
            }
            pub fn all() -> Vec<Contract> {
                crate::contracts![$pre; abs_diff, abs_diff_all, relative, relative_all, ulps, ulps_all, reports]
            }
        }
    };
}
fn vector<S: Sc, const N: usize>(cx: &mut Cx<S>, name: &str) -> (Vector<S, N>, Vec<S>) {
    let v = cx.vec::<N>(name);
    (v, vv(&v))
}
fn point<S: Sc, const N: usize>(cx: &mut Cx<S>, name: &str) -> (Point<S, N>, Vec<S>) {
    let v = cx.point::<N>(name);
    (v, pv(&v))
}
fn cols<S: Sc, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
    flat(&tr(&mv(m)))
}
fn matrix<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>, name: &str) -> (Matrix<S, R, C>, Vec<S>) {
    let v = cx.mat::<R, C>(name);
    (v, cols(&v))
}
cmp!(vector1 "Vector" "vector1_"; vector::<S, 1>; vecn::<_, 1>);
cmp!(vector2 "Vector" "vector2_"; vector::<S, 2>; vecn::<_, 2>);
cmp!(vector3 "Vector" "vector3_"; vector::<S, 3>; vecn::<_, 3>);
cmp!(vector4 "Vector" "vector4_"; vector::<S, 4>; vecn::<_, 4>);
cmp!(vector7 "Vector" "vector7_"; vector::<S, 7>; vecn::<_, 7>);
cmp!(point5 "Point" "point5_"; point::<S, 5>; vecn::<_, 5>);
cmp!(point1 "Point" "point1_"; point::<S, 1>; vecn::<_, 1>);
cmp!(point2 "Point" "point2_"; point::<S, 2>; vecn::<_, 2>);
cmp!(point3 "Point" "point3_"; point::<S, 3>; vecn::<_, 3>);
cmp!(matrix11 "Matrix" "matrix1x1_"; matrix::<S, 1, 1>; matn::<_, 1, 1>);
cmp!(matrix22 "Matrix" "matrix2x2_"; matrix::<S, 2, 2>; matn::<_, 2, 2>);
cmp!(matrix33 "Matrix" "matrix3x3_"; matrix::<S, 3, 3>; matn::<_, 3, 3>);
cmp!(matrix44 "Matrix" "matrix4x4_"; matrix::<S, 4, 4>; matn::<_, 4, 4>);
cmp!(matrix23 "Matrix" "matrix2x3_"; matrix::<S, 2, 3>; matn::<_, 2, 3>);
cmp!(matrix32 "Matrix" "matrix3x2_"; matrix::<S, 3, 2>; matn::<_, 3, 2>);
cmp!(matrix24 "Matrix" "matrix2x4_"; matrix::<S, 2, 4>; matn::<_, 2, 4>);
cmp!(matrix42 "Matrix" "matrix4x2_"; matrix::<S, 4, 2>; matn::<_, 4, 2>);
cmp!(matrix34 "Matrix" "matrix3x4_"; matrix::<S, 3, 4>; matn::<_, 3, 4>);
cmp!(matrix43 "Matrix" "matrix4x3_"; matrix::<S, 4, 3>; matn::<_, 4, 3>);
cmp!(matrix14 "Matrix" "matrix1x4_"; matrix::<S, 1, 4>; matn::<_, 1, 4>);
cmp!(matrix31 "Matrix" "matrix3x1_"; matrix::<S, 3, 1>; matn::<_, 3, 1>);
fn quaternion<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Quaternion<S>, Vec<S>) {
    let q = cx.quat(name);
    (q, (0..4).map(|i| q[i]).collect())
}
cmp!(quat "Quaternion" "quaternion_"; quaternion::<S>; vecn::<_, 4>);
fn complex<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Complex<S>, Vec<S>) {
    let q = cx.complex(name);
    (q, zv(&q))
}
fn complex_tol<E: Copy>(x: &[E]) -> Complex<E> {
    Complex::new(x[0], x[1])
}
cmp!(cplx "Complex" "complex_"; complex::<S>; complex_tol::<_>);
fn radians<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Radians<S>, Vec<S>) {
    let q = cx.v(name);
    (Radians(q), vec![q])
}
fn degrees<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Degrees<S>, Vec<S>) {
    let q = cx.v(name);
    (Degrees(q), vec![q])
}
fn one<E: Copy>(x: &[E]) -> E {
    x[0]
}
cmp!(rads "Radians" "radians_"; radians::<S>; one::<_>);
cmp!(degs "Degrees" "degrees_"; degrees::<S>; one::<_>);
fn euler_r<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Euler<Radians<S>>, Vec<S>) {
    let q = cx.vs(name, 3);
    (Euler::new(Radians(q[0]), Radians(q[1]), Radians(q[2])), q)
}
fn euler_d<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Euler<Degrees<S>>, Vec<S>) {
    let q = cx.vs(name, 3);
    (Euler::new(Degrees(q[0]), Degrees(q[1]), Degrees(q[2])), q)
}
fn euler_tol<E: Copy>(x: &[E]) -> Euler<E> {
    Euler::new(x[0], x[1], x[2])
}
cmp!(eulerr "Euler" "euler_radians_"; euler_r::<S>; euler_tol::<_>);
cmp!(eulerd "Euler" "euler_degrees_"; euler_d::<S>; euler_tol::<_>);
fn unit_vector<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Unit<Vector3<S>>, Vec<S>) {
    let v: Vector3<S> = cx.vec(name);
    (Unit::from_value_unchecked(v), vv(&v))
}
fn unit_quat<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Unit<Quaternion<S>>, Vec<S>) {
    let (q, x) = quaternion(cx, name);
    (Unit::from_value_unchecked(q), x)
}
cmp!(unitv "Unit" "unit_vector_"; unit_vector::<S>; vecn::<_, 3>);
cmp!(unitq "Unit" "unit_quaternion_"; unit_quat::<S>; vecn::<_, 4>);

// ------------------------------------------------------------------ transformations
fn rotation2<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Rotation2<S>, Vec<S>) {
    let t = cx.angle(&format!("{}_t", name));
    let r = Rotation2::from_angle(Radians(t));
    (r, cols(r.matrix()))
}
fn rotation3<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Rotation3<S>, Vec<S>) {
    let q = S::unit_vec(cx, &format!("{}_q", name), 4);
    let r = Rotation3::from_quaternion(&Quaternion::new(q[0], q[1], q[2], q[3]));
    (r, cols(r.matrix()))
}
macro_rules! dims {
    ($d2:ident $($rot:ident $n:literal $n1:literal)+) => {$(mod $d2 {
        use super::*;
        pub fn rot_tol<E: Copy>(x: &[E]) -> RotationTol<E, $n> {
            RotationTol::from(matn::<E, $n, $n>(x))
        }
        pub fn translation<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Translation<S, $n>, Vec<S>) {
            let v: Vector<S, $n> = cx.vec(&format!("{}_v", name));
            (Translation::from_vector(&v), vv(&v))
        }
        pub fn translation_tol<E: Copy>(x: &[E]) -> TranslationTol<E, $n> {
            TranslationTol::from(vecn::<E, $n>(x))
        }
        pub fn scale<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Scale<S, $n>, Vec<S>) {
            let v: Vector<S, $n> = cx.vec(&format!("{}_v", name));
            (Scale::from_nonuniform_scale(&v), vv(&v))
        }
        pub fn scale_tol<E: Copy>(x: &[E]) -> ScaleTol<E, $n> {
            ScaleTol::from(vecn::<E, $n>(x))
        }
        pub fn isometry<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Isometry<S, $n>, Vec<S>) {
            let (r, mut x) = $rot(cx, name);
            let (t, y) = translation(cx, name);
            x.extend(y);
            (Isometry::from_parts(&t, &r), x)
        }
        pub fn isometry_tol<E: Copy>(x: &[E]) -> IsometryTol<E, $n> {
            IsometryTol::from_parts(vecn::<E, $n>(&x[$n * $n..]), matn::<E, $n, $n>(x))
        }
        pub fn similarity<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Similarity<S, $n>, Vec<S>) {
            let (r, mut x) = $rot(cx, name);
            let (t, y) = translation(cx, name);
            let k = cx.v(&format!("{}_k", name));
            x.extend(y);
            x.push(k);
            (Similarity::from_parts(&t, &r, k), x)
        }
        pub fn similarity_tol<E: Copy>(x: &[E]) -> SimilarityTol<E, $n> {
            SimilarityTol::from_parts(vecn::<E, $n>(&x[$n * $n..]), matn::<E, $n, $n>(x), x[$n * $n + $n])
        }
        pub fn shear<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Shear<S, $n>, Vec<S>) {
            let k = cx.v(&format!("{}_k", name));
            let o: Point<S, $n> = cx.point(&format!("{}_o", name));
            let d: Vector<S, $n> = cx.vec(&format!("{}_d", name));
            let n: Vector<S, $n> = cx.vec(&format!("{}_n", name));
            let mut x = vec![k];
            x.extend(pv(&o));
            x.extend(vv(&d));
            x.extend(vv(&n));
            let s = Shear::from_affine_shear(k, &o, &Unit::from_value_unchecked(d), &Unit::from_value_unchecked(n));
            (s, x)
        }
        pub fn shear_tol<E: Copy>(x: &[E]) -> ShearTol<E, $n> {
            ShearTol::from_parts(x[0], vecn::<E, $n>(&x[1..]), vecn::<E, $n>(&x[1 + $n..]), vecn::<E, $n>(&x[1 + 2 * $n..]))
        }
        pub fn reflection<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Reflection<S, $n>, Vec<S>) {
            let b: Point<S, $n> = cx.point(&format!("{}_b", name));
            let n: Vector<S, $n> = cx.vec(&format!("{}_n", name));
            let mut x = vv(&n);
            x.extend(pv(&b));
            (Reflection::from_normal_bias(&Unit::from_value_unchecked(n), &b), x)
        }
        pub fn reflection_tol<E: Copy>(x: &[E]) -> ReflectionTol<E, $n> {
            ReflectionTol::from_parts(vecn::<E, $n>(x), vecn::<E, $n>(&x[$n..]))
        }
        pub fn transform<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Transform<S, $n, $n1>, Vec<S>) {
            let m: Matrix<S, $n1, $n1> = cx.mat(name);
            (Transform::from_matrix_unchecked(m), cols(&m))
        }
        pub fn transform_tol<E: Copy>(x: &[E]) -> TransformTol<E, $n, $n1> {
            TransformTol::from(&matn::<E, $n1, $n1>(x))
        }
    })+};
}
dims!(d2 rotation2 2 3);
dims!(d3 rotation3 3 4);
cmp!(rot2 "Rotation" "rotation2_"; rotation2::<S>; d2::rot_tol::<_>);
cmp!(rot3 "Rotation" "rotation3_"; rotation3::<S>; d3::rot_tol::<_>);
cmp!(tra2 "Translation" "translation2_"; d2::translation::<S>; d2::translation_tol::<_>);
cmp!(tra3 "Translation" "translation3_"; d3::translation::<S>; d3::translation_tol::<_>);
cmp!(sca2 "Scale" "scale2_"; d2::scale::<S>; d2::scale_tol::<_>);
cmp!(sca3 "Scale" "scale3_"; d3::scale::<S>; d3::scale_tol::<_>);
cmp!(iso2 "Isometry" "isometry2_"; d2::isometry::<S>; d2::isometry_tol::<_>);
cmp!(iso3 "Isometry" "isometry3_"; d3::isometry::<S>; d3::isometry_tol::<_>);
cmp!(sim2 "Similarity" "similarity2_"; d2::similarity::<S>; d2::similarity_tol::<_>);
cmp!(sim3 "Similarity" "similarity3_"; d3::similarity::<S>; d3::similarity_tol::<_>);
cmp!(she2 "Shear" "shear2_"; d2::shear::<S>; d2::shear_tol::<_>);
cmp!(she3 "Shear" "shear3_"; d3::shear::<S>; d3::shear_tol::<_>);
cmp!(ref2 "Reflection" "reflection2_"; d2::reflection::<S>; d2::reflection_tol::<_>);
cmp!(ref3 "Reflection" "reflection3_"; d3::reflection::<S>; d3::reflection_tol::<_>);
cmp!(trf2 "Transform" "transform2_"; d2::transform::<S>; d2::transform_tol::<_>);
cmp!(trf3 "Transform" "transform3_"; d3::transform::<S>; d3::transform_tol::<_>);
fn frustum<S: Sc>(cx: &mut Cx<S>, name: &str) -> Vec<S> {
    let v = cx.vs(name, 6);
    cx.requires(ne(v[0] + v[1], S::zero()));
    cx.requires(ne(v[2] + v[3], S::zero()));
    cx.requires(ne(v[4], v[5]));
    v
}
fn perspective<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Perspective3<S>, Vec<S>) {
    let v = frustum(cx, name);
    let p = Perspective3::new(v[0], v[1], v[2], v[3], v[4], v[5]);
    (p, cols(p.matrix()))
}
fn orthographic<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Orthographic3<S>, Vec<S>) {
    let v = frustum(cx, name);
    let p = Orthographic3::new(v[0], v[1], v[2], v[3], v[4], v[5]);
    (p, cols(p.matrix()))
}
fn perspective_tol<E: Copy>(x: &[E]) -> Perspective3Tol<E> {
    Perspective3Tol::from(matn::<E, 4, 4>(x))
}
fn orthographic_tol<E: Copy>(x: &[E]) -> Orthographic3Tol<E> {
    Orthographic3Tol::from(matn::<E, 4, 4>(x))
}
cmp!(per3 "Perspective3" "perspective3_"; perspective::<S>; perspective_tol::<_>);
cmp!(ort3 "Orthographic3" "orthographic3_"; orthographic::<S>; orthographic_tol::<_>);
pub fn all() -> Vec<Contract> {
    let mut v = vec![];
    macro_rules! add { ($($m:ident)*) => { $(v.extend($m::all());)* } }
    add!(vector1 vector2 vector3 vector4 vector7 point5 point1 point2 point3 matrix11 matrix22 matrix33 matrix44 matrix23 matrix32 matrix24 matrix42 matrix34 matrix43 matrix14 matrix31);
    add!(quat cplx rads degs eulerr eulerd unitv unitq);
    add!(rot2 rot3 tra2 tra3 sca2 sca3 iso2 iso3 sim2 sim3 she2 she3 ref2 ref3 trf2 trf3 per3 ort3);
    v
}
