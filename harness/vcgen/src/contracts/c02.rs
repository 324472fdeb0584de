//! C02: vector and point geometry.
use crate::sc::*;
use crate::spec::*;
use crate::term::F;
use crate::Contract;
use cglinalg_core::*;

fn maximum<S: Sc>(cx: &mut Cx<S>, name: &str, m: S, of: &[S]) {
    for x in of {
        cx.ensures(name, le(*x, m));
    }
    cx.ensures(name, or(of.iter().map(|x| eq(*x, m)).collect()));
}
fn norms<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    let d = cx.call("Vector::dot", || a.dot(&b));
    cx.ens("sum of products", d, dot(&x, &y));
    let r = cx.call("Vector::norm_squared", || [a.norm_squared(), a.magnitude_squared()]);
    for m in r {
        cx.ens("sum of squares", m, dot(&x, &x));
    }
    let r = cx.call("Vector::norm", || [a.norm(), a.magnitude(), a.l2_norm(), a.apply_norm(&L2Norm::new())]);
    for m in r {
        cx.ens("root of the sum of squares", m, dot(&x, &x).sqrt());
    }
    let e = vsub(&y, &x);
    let r = cx.call("Vector::metric_distance_squared", || a.metric_distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
    let r = cx.call("Vector::metric_distance", || [a.metric_distance(&b), a.apply_metric_distance(&b, &L2Norm::new())]);
    for m in r {
        cx.ens("norm of the difference", m, dot(&e, &e).sqrt());
    }
    let l1 = |v: &[S]| v.iter().fold(S::zero(), |s, e| s + e.abs());
    let r = cx.call("Vector::l1_norm", || [a.l1_norm(), a.apply_norm(&L1Norm::new())]);
    for m in r {
        cx.ens("sum of absolute values", m, l1(&x));
    }
    let r = cx.call("L1Norm::metric_distance", || a.apply_metric_distance(&b, &L1Norm::new()));
    cx.ens("sum of absolute differences", r, l1(&e));
    cx.ens_v("arguments unchanged", &vv(&a), &x);
}
fn linf<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let abs: Vec<S> = vv(&a).iter().map(|e| e.abs()).collect();
    let r = cx.call("Vector::linf_norm", || a.linf_norm());
    maximum(cx, "largest absolute value", r, &abs);
    let r = cx.call("LinfNorm::norm", || a.apply_norm(&LinfNorm::new()));
    maximum(cx, "largest absolute value", r, &abs);
}
fn linf_distance<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let abs: Vec<S> = vsub(&vv(&b), &vv(&a)).iter().map(|e| e.abs()).collect();
    let r = cx.call("LinfNorm::metric_distance", || a.apply_metric_distance(&b, &LinfNorm::new()));
    maximum(cx, "largest absolute difference", r, &abs);
}
fn lp<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let (x, e) = (vv(&a), vsub(&vv(&b), &vv(&a)));
    cx.requires(lt(S::zero(), dot(&x, &x)));
    cx.requires(lt(S::zero(), dot(&e, &e)));
    for p in 1..6u32 {
        let want = |v: &[S]| {
            let s = v.iter().fold(S::zero(), |s, e| s + (0..p).fold(S::one(), |q, _| q * e.abs()));
            s.powf(cglinalg_numeric::cast((p as f64).recip()))
        };
        let r = cx.call("Vector::lp_norm", || [a.lp_norm(p), a.apply_norm(&LpNorm::new(p))]);
        for m in r {
            cx.ens("p-th root of the sum of p-th powers", m, want(&x));
        }
        let r = cx.call("LpNorm::metric_distance", || a.apply_metric_distance(&b, &LpNorm::new(p)));
        cx.ens("p-norm of the difference", r, want(&e));
    }
}
fn normed_vec<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    normed(cx, "Vector", a, b, vv);
}
fn normed_point<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    let b: Point<S, N> = cx.point("b");
    normed(cx, "Point", a, b, pv);
}
fn normalize_vec<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    normalizing(cx, "Vector", a, vv);
}
fn normalize_point<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    normalizing(cx, "Point", a, pv);
}
fn try_normalize_vec<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    try_normalizing(cx, "Vector", a, vv);
}
fn try_normalize_point<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    try_normalizing(cx, "Point", a, pv);
}
fn geometry<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let t = cx.v("t");
    let (x, y) = (vv(&a), vv(&b));
    let r = cx.call("Vector::lerp", || a.lerp(&b, t));
    cx.ens_v("(1 - t) a + t b", &vv(&r), &vadd(&vscale(&x, S::one() - t), &vscale(&y, t)));
    let y2 = dot(&y, &y);
    cx.requires(lt(S::zero(), y2));
    let r = cx.call("Vector::project", || a.project(&b));
    cx.ens_v("(a.b / b.b) b", &vv(&r), &vscale(&y, dot(&x, &y) / y2));
    cx.ens("the rejection is orthogonal to b", dot(&vsub(&x, &vv(&r)), &y), S::zero());
    let r = cx.call("Vector::reflect", || a.reflect(&b));
    cx.ens_v("a - 2 (a.b / b.b) b", &vv(&r), &vsub(&x, &vscale(&y, (S::one() + S::one()) * dot(&x, &y) / y2)));
    cx.ens("length kept", dot(&vv(&r), &vv(&r)), dot(&x, &x));
}
fn extrema<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let lo = cx.call("Vector::component_min", || a.component_min(&b));
    let hi = cx.call("Vector::component_max", || a.component_max(&b));
    for i in 0..N {
        cx.ensures("smaller of the two", and(vec![le(lo[i], a[i]), le(lo[i], b[i]), or(vec![eq(lo[i], a[i]), eq(lo[i], b[i])])]));
        cx.ensures("larger of the two", and(vec![le(a[i], hi[i]), le(b[i], hi[i]), or(vec![eq(hi[i], a[i]), eq(hi[i], b[i])])]));
    }
}
fn finite<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let r = cx.call("Vector::is_finite", || a.is_finite());
    cx.agrees("finite iff every component is", r, and(vv(&a).iter().map(|e| F::Pred("is_finite", vec![*e])).collect()));
}
fn cross3<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let c: Vector3<S> = cx.vec("c");
    let (x, y, z) = (vv(&a), vv(&b), vv(&c));
    let r = cx.call("Vector3::cross", || a.cross(&b));
    cx.ens_v("right-handed cross product", &vv(&r), &cross(&x, &y));
    cx.ens("orthogonal to the first", dot(&vv(&r), &x), S::zero());
    cx.ens("orthogonal to the second", dot(&vv(&r), &y), S::zero());
    let r = cx.call("Vector3::triple", || a.triple(&b, &c));
    cx.ens("determinant of the three vectors", r, det(&vec![x, y, z]));
}
fn point_norms<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    let b: Point<S, N> = cx.point("b");
    let (x, y) = (pv(&a), pv(&b));
    let r = cx.call("Point::dot", || a.dot(&b));
    cx.ens("sum of products", r, dot(&x, &y));
    let r = cx.call("Point::norm_squared", || [a.norm_squared(), a.magnitude_squared()]);
    for m in r {
        cx.ens("sum of squares", m, dot(&x, &x));
    }
    let r = cx.call("Point::norm", || [a.norm(), a.magnitude(), a.l2_norm()]);
    for m in r {
        cx.ens("root of the sum of squares", m, dot(&x, &x).sqrt());
    }
    let e = vsub(&x, &y);
    let r = cx.call("Point::metric_distance_squared", || a.metric_distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
    let r = cx.call("Point::metric_distance", || a.metric_distance(&b));
    cx.ens("norm of the difference", r, dot(&e, &e).sqrt());
}

/// what needs no root: also for integer components
fn ring_ops<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    let e = vsub(&x, &y);
    let r = cx.call("Vector::dot", || a.dot(&b));
    cx.ens("sum of products", r, dot(&x, &y));
    let r = cx.call("Vector::norm_squared", || [a.norm_squared(), a.magnitude_squared()]);
    for m in r {
        cx.ens("sum of squares", m, dot(&x, &x));
    }
    let r = cx.call("Vector::metric_distance_squared", || a.metric_distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
    let (a, b) = (Point::from_vector(&a), Point::from_vector(&b));
    let r = cx.call("Point::dot", || a.dot(&b));
    cx.ens("sum of products", r, dot(&x, &y));
    let r = cx.call("Point::norm_squared", || [a.norm_squared(), a.magnitude_squared()]);
    for m in r {
        cx.ens("sum of squares", m, dot(&x, &x));
    }
    let r = cx.call("Point::metric_distance_squared", || a.metric_distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
}
pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        norms::<1>, norms::<2>, norms::<3>, norms::<4>, norms::<5>, norms::<6>, norms::<9>, norms::<17>,
        linf::<5>, linf::<6>, linf::<8>, linf::<1>, linf::<2>, linf::<3>, linf::<4>,
        linf_distance::<5>, linf_distance::<1>, linf_distance::<2>, linf_distance::<3>, linf_distance::<4>,
        lp::<5>, lp::<6>, lp::<9>, lp::<1>, lp::<2>, lp::<3>, lp::<4>,
        normed_vec::<5>, normed_vec::<9>, normed_vec::<1>, normed_vec::<2>, normed_vec::<3>, normed_vec::<4>,
        normed_point::<4>, normed_point::<1>, normed_point::<2>, normed_point::<3>,
        normalize_vec::<5>, normalize_vec::<9>, normalize_vec::<1>, normalize_vec::<2>, normalize_vec::<3>, normalize_vec::<4>,
        normalize_point::<4>, normalize_point::<1>, normalize_point::<2>, normalize_point::<3>,
        try_normalize_vec::<5>, try_normalize_vec::<1>, try_normalize_vec::<2>, try_normalize_vec::<3>, try_normalize_vec::<4>,
        try_normalize_point::<4>, try_normalize_point::<1>, try_normalize_point::<2>, try_normalize_point::<3>,
        geometry::<5>, geometry::<6>, geometry::<9>, geometry::<1>, geometry::<2>, geometry::<3>, geometry::<4>,
        extrema::<5>, extrema::<6>, extrema::<7>, extrema::<1>, extrema::<2>, extrema::<3>, extrema::<4>,
        finite::<5>, finite::<9>, finite::<1>, finite::<2>, finite::<3>, finite::<4>,
        cross3,
        point_norms::<4>, point_norms::<9>, point_norms::<1>, point_norms::<2>, point_norms::<3>,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole cross3, ring_ops::<1>, ring_ops::<2>, ring_ops::<3>, ring_ops::<4>, ring_ops::<9>]);
    v
}
