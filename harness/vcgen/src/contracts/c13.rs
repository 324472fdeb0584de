//! C13: the unit wrapper.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;

fn construct<S: Sc, T: Normed<Output = S> + Copy>(cx: &mut Cx<S>, ty: &str, a: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("Unit<{}>::{}", ty, f);
    let x = to(&a);
    let n2 = dot(&x, &x);
    cx.requires(lt(S::zero(), n2));
    let n = n2.sqrt();
    let u = cx.call(&at("from_value"), || Unit::from_value(a));
    let g = to(&u.into_inner());
    cx.ens_v("same direction, norm one", &g, &x.iter().map(|e| *e / n).collect::<Vec<S>>());
    cx.ens("norm one", dot(&g, &g), S::one());
    let (u, m) = cx.call(&at("from_value_with_norm"), || Unit::from_value_with_norm(a));
    let g = to(&u.into_inner());
    cx.ens_v("same direction", &vscale(&g, n), &x);
    cx.ens("norm one", dot(&g, &g), S::one());
    cx.ens("the norm of the argument", m, n);
}
fn try_construct<S: Sc, T: Normed<Output = S> + Copy>(cx: &mut Cx<S>, ty: &str, a: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("Unit<{}>::{}", ty, f);
    let x = to(&a);
    let n2 = dot(&x, &x);
    let n = n2.sqrt();
    let t = cx.v("threshold");
    cx.requires(le(S::zero(), t));
    match cx.call(&at("try_from_value_with_norm"), || Unit::try_from_value_with_norm(a, t)) {
        None => cx.ensures("refused only at or below the threshold", le(n, t)),
        Some((u, m)) => {
            cx.ensures("accepted only above the threshold", lt(t, n));
            let g = to(&u.into_inner());
            cx.ens_v("same direction", &vscale(&g, n), &x);
            cx.ens("norm one", dot(&g, &g), S::one());
            cx.ens("the norm of the argument", m, n);
        }
    }
    match cx.call(&at("try_from_value"), || Unit::try_from_value(a, t)) {
        None => cx.ensures("refused only at or below the threshold", le(n, t)),
        Some(u) => {
            cx.ensures("accepted only above the threshold", lt(t, n));
            let g = to(&u.into_inner());
            cx.ens_v("same direction", &vscale(&g, n), &x);
            cx.ens("norm one", dot(&g, &g), S::one());
        }
    }
}
/// what holds for every wrapped value
fn wrap<S: Sc, T: Copy + PartialEq>(cx: &mut Cx<S>, ty: &str, a: T, b: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("Unit<{}>: {}", ty, f);
    let (x, y) = (to(&a), to(&b));
    let u = cx.call(&at("from_value_unchecked"), || Unit::from_value_unchecked(a));
    cx.ens_v("the value itself", &raw::<S, _>(&u), &x);
    let r = cx.call(&at("into_inner, as_ref, deref"), || {
        let r: &T = u.as_ref();
        let d: &T = &u;
        [u.into_inner(), *r, *d]
    });
    for g in &r {
        cx.ens_v("the value itself", &to(g), &x);
    }
    let w = Unit::from_value_unchecked(b);
    let e = cx.call(&at("=="), || u == w);
    cx.agrees("exactly for equal values", e, all_eq(&x, &y));
}
macro_rules! seq {
    ($($c:ident $t:ident $w:ident, $ty:literal, $mk:ident, $to:expr, $T:ident;)*) => {$(
        fn $c<S: Sc, const N: usize>(cx: &mut Cx<S>) {
            let a: $T<S, N> = cx.$mk("a");
            construct(cx, $ty, a, $to)
        }
        fn $t<S: Sc, const N: usize>(cx: &mut Cx<S>) {
            let a: $T<S, N> = cx.$mk("a");
            try_construct(cx, $ty, a, $to)
        }
        fn $w<S: Sc, const N: usize>(cx: &mut Cx<S>) {
            let a: $T<S, N> = cx.$mk("a");
            let b: $T<S, N> = cx.$mk("b");
            wrap(cx, $ty, a, b, $to)
        }
    )*};
}
seq!(vec_new vec_try vec_wrap, "Vector", vec, vv, Vector;
     point_new point_try point_wrap, "Point", point, pv, Point;);
macro_rules! single {
    ($($c:ident $t:ident $w:ident, $ty:literal, $mk:ident, $to:expr;)*) => {$(
        fn $c<S: Sc>(cx: &mut Cx<S>) {
            let a = cx.$mk("a");
            construct(cx, $ty, a, $to)
        }
        fn $t<S: Sc>(cx: &mut Cx<S>) {
            let a = cx.$mk("a");
            try_construct(cx, $ty, a, $to)
        }
        fn $w<S: Sc>(cx: &mut Cx<S>) {
            let a = cx.$mk("a");
            let b = cx.$mk("b");
            wrap(cx, $ty, a, b, $to)
        }
    )*};
}
single!(quat_new quat_try quat_wrap, "Quaternion", quat, qv;
        complex_new complex_try complex_wrap, "Complex", complex, zv;);
fn mat_new<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    construct(cx, "Matrix", a, |m| flat(&tr(&mv(m))))
}
fn mat_try<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    try_construct(cx, "Matrix", a, |m| flat(&tr(&mv(m))))
}
fn mat_wrap<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    wrap(cx, "Matrix", a, b, |m| flat(&tr(&mv(m))))
}
fn negation<S: Sc>(cx: &mut Cx<S>) {
    fn go<S: Sc, T: Copy>(cx: &mut Cx<S>, ty: &str, r: [Unit<T>; 2], v: &[S], to: impl Fn(&T) -> Vec<S>) {
        for u in r {
            let g = to(&u.into_inner());
            cx.ens_v(&format!("-Unit<{}>: opposite direction", ty), &g, &vneg(v));
            cx.ens(&format!("-Unit<{}>: norm one", ty), dot(&g, &g), S::one());
        }
    }
    let (u, v) = cx.unit::<3>("v");
    let r = cx.call("-Unit<Vector>", || [-u, -&u]);
    go(cx, "Vector", r, &v, vv);
    let p = cx.uvec::<2>("p");
    let u = Unit::from_value_unchecked(Point::from([p[0], p[1]]));
    let r = cx.call("-Unit<Point>", || [-u, -&u]);
    go(cx, "Point", r, &vv(&p), pv);
    let q = S::unit_vec(cx, "q", 4);
    let u = Unit::from_value_unchecked(Quaternion::new(q[0], q[1], q[2], q[3]));
    let r = cx.call("-Unit<Quaternion>", || [-u, -&u]);
    go(cx, "Quaternion", r, &q, qv);
    let z = S::unit_vec(cx, "z", 2);
    let u = Unit::from_value_unchecked(Complex::new(z[0], z[1]));
    let r = cx.call("-Unit<Complex>", || [-u, -&u]);
    go(cx, "Complex", r, &z, zv);
    let m = S::unit_vec(cx, "m", 6);
    let u = Unit::from_value_unchecked(Matrix::<S, 2, 3>::from([[m[0], m[1]], [m[2], m[3]], [m[4], m[5]]]));
    let r = cx.call("-Unit<Matrix>", || [-u, -&u]);
    go(cx, "Matrix", r, &m, |m| flat(&tr(&mv(m))));
}
/// functions of the library that hand out unit values
fn handed_out<S: Sc>(cx: &mut Cx<S>) {
    let q = cx.quat("q");
    let n2 = dot(&qv(&q)[1..4], &qv(&q)[1..4]);
    match cx.call("Quaternion::polar_decomposition", || q.polar_decomposition()).2 {
        None => cx.ens("no axis only for a real quaternion", n2, S::zero()),
        Some(u) => {
            let g = vv(&u.into_inner());
            cx.ens("norm one", dot(&g, &g), S::one());
            cx.ens_v("direction of the vector part", &vscale(&g, n2.sqrt()), &qv(&q)[1..4]);
        }
    }
}
fn handed_out_axis<S: Sc>(cx: &mut Cx<S>) {
    let q = S::unit_vec(cx, "q", 4);
    let w = qmat(&q);
    let k = vec![w[2][1] - w[1][2], w[0][2] - w[2][0], w[1][0] - w[0][1]];
    let n = dot(&k, &k).sqrt();
    let r = cx.call("Rotation3::from_quaternion", || Rotation3::from_quaternion(&Quaternion::new(q[0], q[1], q[2], q[3])));
    match cx.call("Rotation3::axis", || r.axis()) {
        None => cx.ensures("no axis only at or below the threshold", le(n, S::eps())),
        Some(u) => {
            let g = vv(&u.into_inner());
            cx.ens("norm one", dot(&g, &g), S::one());
            cx.ens_v("direction of the axis", &vscale(&g, n), &k);
        }
    }
}
pub fn all() -> Vec<Contract> {
    crate::contracts![
        vec_new::<1>, vec_new::<2>, vec_new::<3>, vec_new::<4>, vec_new::<5>,
        vec_try::<1>, vec_try::<2>, vec_try::<3>, vec_try::<4>,
        vec_wrap::<1>, vec_wrap::<2>, vec_wrap::<3>, vec_wrap::<4>,
        point_new::<1>, point_new::<2>, point_new::<3>,
        point_try::<1>, point_try::<2>, point_try::<3>,
        point_wrap::<1>, point_wrap::<2>, point_wrap::<3>,
        quat_new, quat_try, quat_wrap, complex_new, complex_try, complex_wrap,
        mat_new::<2, 2>, mat_new::<3, 3>, mat_new::<4, 4>, mat_new::<2, 3>,
        mat_try::<2, 2>, mat_try::<3, 3>, mat_try::<3, 2>,
        mat_wrap::<2, 2>, mat_wrap::<2, 3>,
        negation, handed_out, handed_out_axis,
    ]
}
