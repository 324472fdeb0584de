//! C01: vector and point arithmetic.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;

fn zip<S: Sc>(a: &[S], b: &[S], f: impl Fn(S, S) -> S) -> Vec<S> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
fn vec_add<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let b: Vector<S, N> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    let r = cx.call("Vector + Vector", || [a + b, a + &b, &a + b, &a + &b]);
    for m in &r {
        cx.ens_v("sum is componentwise", &vv(m), &zip(&x, &y, |p, q| p + q));
    }
    let r = cx.call("Vector - Vector", || [a - b, a - &b, &a - b, &a - &b]);
    for m in &r {
        cx.ens_v("difference is componentwise", &vv(m), &zip(&x, &y, |p, q| p - q));
    }
    let r = cx.call("Vector += Vector", || {
        let (mut p, mut q) = (a, a);
        p += b;
        q += &b;
        [p, q]
    });
    for m in &r {
        cx.ens_v("+= agrees with +", &vv(m), &zip(&x, &y, |p, q| p + q));
    }
    let r = cx.call("Vector -= Vector", || {
        let (mut p, mut q) = (a, a);
        p -= b;
        q -= &b;
        [p, q]
    });
    for m in &r {
        cx.ens_v("-= agrees with -", &vv(m), &zip(&x, &y, |p, q| p - q));
    }
    let r = cx.call("-Vector", || {
        let mut p = a;
        p.neg_mut();
        [-a, -&a, p]
    });
    for m in &r {
        cx.ens_v("negation is componentwise", &vv(m), &vneg(&x));
    }
    let r = cx.call("-Unit<Vector>", || {
        let u = Unit::from_value_unchecked(a);
        [(-u).into_inner(), (-&u).into_inner()]
    });
    for m in &r {
        cx.ens_v("negation is componentwise", &vv(m), &vneg(&x));
    }
    let m = cx.call("Vector::component_mul", || a.component_mul(&b));
    cx.ens_v("componentwise product", &vv(&m), &zip(&x, &y, |p, q| p * q));
    let mut m = a;
    cx.call("Vector::component_mul_assign", || m.component_mul_assign(&b));
    cx.ens_v("componentwise product", &vv(&m), &zip(&x, &y, |p, q| p * q));
    cx.ens_v("operands unchanged", &vv(&a), &x);
    cx.ens_v("operands unchanged", &vv(&b), &y);
}
fn vec_scalar<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let x = vv(&a);
    let k = cx.v("k");
    let d = cx.nonzero("d");
    let r = cx.call("Vector * scalar", || {
        let mut p = a;
        p *= k;
        [a * k, &a * k, p]
    });
    for m in &r {
        cx.ens_v("product is componentwise", &vv(m), &vscale(&x, k));
    }
    let r = cx.call("Vector / scalar", || {
        let mut p = a;
        p /= d;
        [a / d, &a / d, p]
    });
    let w: Vec<S> = x.iter().map(|e| *e / d).collect();
    for m in &r {
        cx.ens_v("quotient is componentwise", &vv(m), &w);
    }
    let r = cx.call("Vector % scalar", || {
        let mut p = a;
        p %= d;
        [a % d, &a % d, p]
    });
    let w: Vec<S> = x.iter().map(|e| *e % d).collect();
    for m in &r {
        cx.ens_v("remainder is componentwise", &vv(m), &w);
    }
    cx.ens_v("operands unchanged", &vv(&a), &x);
}
fn vec_build<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Vector<S, N> = cx.vec("a");
    let x = vv(&a);
    let k = cx.v("k");
    let m = cx.call("Vector::zero", || Vector::<S, N>::zero());
    cx.ens_v("all zero", &vv(&m), &vec![S::zero(); N]);
    let m = cx.call("Vector::default", || Vector::<S, N>::default());
    cx.ens_v("all zero", &vv(&m), &vec![S::zero(); N]);
    let m = cx.call("Vector::from_fill", || Vector::<S, N>::from_fill(k));
    cx.ens_v("all the same", &vv(&m), &vec![k; N]);
    let mut seen = vec![];
    let m = cx.call("Vector::map", || {
        a.map(|e| {
            seen.push(e);
            e * k + S::one()
        })
    });
    cx.ens_v("function applied to each component", &vv(&m), &x.iter().map(|e| *e * k + S::one()).collect::<Vec<_>>());
    cx.ens_v("function called once per component, in order", &seen, &x);
    let z = cx.call("Vector::is_zero", || a.is_zero());
    cx.agrees("zero iff every component is", z, all_eq(&x, &vec![S::zero(); N]));
    let b: Vector<S, N> = cx.vec("b");
    let e = cx.call("Vector == Vector", || a == b);
    cx.agrees("equal iff every component is", e, all_eq(&x, &vv(&b)));
    let e = cx.call("Vector != Vector", || a != b);
    cx.agrees("different iff some component is", !e, all_eq(&x, &vv(&b)));
    cx.ensures("length", is(a.len() == N && a.is_empty() == (N == 0)));
}
fn vec_named<S: Sc>(cx: &mut Cx<S>) {
    let v = cx.arr::<4>("v");
    let m = cx.call("Vector1::new", || Vector1::new(v[0]));
    cx.ens_v("components in order", &vv(&m), &v[..1]);
    cx.ens("to_scalar", m.to_scalar(), v[0]);
    let m = cx.call("Vector2::new", || Vector2::new(v[0], v[1]));
    cx.ens_v("components in order", &vv(&m), &v[..2]);
    let m = cx.call("Vector3::new", || Vector3::new(v[0], v[1], v[2]));
    cx.ens_v("components in order", &vv(&m), &v[..3]);
    let m = cx.call("Vector4::new", || Vector4::new(v[0], v[1], v[2], v[3]));
    cx.ens_v("components in order", &vv(&m), &v);
    let u = cx.call("Vector::unit_*", || {
        vec![
            vv(&Vector1::<S>::unit_x()),
            vv(&Vector2::<S>::unit_x()),
            vv(&Vector2::<S>::unit_y()),
            vv(&Vector3::<S>::unit_x()),
            vv(&Vector3::<S>::unit_y()),
            vv(&Vector3::<S>::unit_z()),
            vv(&Vector4::<S>::unit_x()),
            vv(&Vector4::<S>::unit_y()),
            vv(&Vector4::<S>::unit_z()),
            vv(&Vector4::<S>::unit_w()),
        ]
    });
    let mut i = 0;
    for n in 1..5 {
        for k in 0..n {
            cx.ens_v("standard basis", &u[i], &basis(n, k));
            i += 1;
        }
    }
    let m = cx.call("Point1::new", || Point1::new(v[0]));
    cx.ens_v("components in order", &pv(&m), &v[..1]);
    let m = cx.call("Point2::new", || Point2::new(v[0], v[1]));
    cx.ens_v("components in order", &pv(&m), &v[..2]);
    let m = cx.call("Point3::new", || Point3::new(v[0], v[1], v[2]));
    cx.ens_v("components in order", &pv(&m), &v[..3]);
}
fn point_ops<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    let b: Point<S, N> = cx.point("b");
    let v: Vector<S, N> = cx.vec("v");
    let (x, y, z) = (pv(&a), pv(&b), vv(&v));
    let r = cx.call("Point + Vector", || {
        let (mut p, mut q) = (a, a);
        p += v;
        q += &v;
        [a + v, a + &v, &a + v, &a + &v, p, q]
    });
    for m in &r {
        cx.ens_v("displacement is componentwise", &pv(m), &zip(&x, &z, |p, q| p + q));
    }
    let r = cx.call("Point - Vector", || {
        let (mut p, mut q) = (a, a);
        p -= v;
        q -= &v;
        [a - v, a - &v, &a - v, &a - &v, p, q]
    });
    for m in &r {
        cx.ens_v("displacement is componentwise", &pv(m), &zip(&x, &z, |p, q| p - q));
    }
    let r = cx.call("Point - Point", || [a - b, a - &b, &a - b, &a - &b]);
    for m in &r {
        cx.ens_v("difference is componentwise", &vv(m), &zip(&x, &y, |p, q| p - q));
    }
    let r = cx.call("-Point", || [-a, -&a]);
    for m in &r {
        cx.ens_v("negation is componentwise", &pv(m), &vneg(&x));
    }
    let r = cx.call("-Unit<Point>", || {
        let u = Unit::from_value_unchecked(a);
        [(-u).into_inner(), (-&u).into_inner()]
    });
    for m in &r {
        cx.ens_v("negation is componentwise", &pv(m), &vneg(&x));
    }
    let k = cx.v("k");
    let d = cx.nonzero("d");
    let r = cx.call("Point * scalar", || {
        let mut p = a;
        p *= k;
        [a * k, &a * k, p]
    });
    for m in &r {
        cx.ens_v("product is componentwise", &pv(m), &vscale(&x, k));
    }
    let r = cx.call("Point / scalar", || {
        let mut p = a;
        p /= d;
        [a / d, &a / d, p]
    });
    for m in &r {
        cx.ens_v("quotient is componentwise", &pv(m), &x.iter().map(|e| *e / d).collect::<Vec<_>>());
    }
    let r = cx.call("Point % scalar", || {
        let mut p = a;
        p %= d;
        [a % d, &a % d, p]
    });
    for m in &r {
        cx.ens_v("remainder is componentwise", &pv(m), &x.iter().map(|e| *e % d).collect::<Vec<_>>());
    }
    cx.ens_v("operands unchanged", &pv(&a), &x);
    cx.ens_v("operands unchanged", &pv(&b), &y);
    cx.ens_v("operands unchanged", &vv(&v), &z);
}
fn point_build<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Point<S, N> = cx.point("a");
    let b: Point<S, N> = cx.point("b");
    let x = pv(&a);
    let k = cx.v("k");
    let m = cx.call("Point::origin", || Point::<S, N>::origin());
    cx.ens_v("all zero", &pv(&m), &vec![S::zero(); N]);
    let m = cx.call("Point::default", || Point::<S, N>::default());
    cx.ens_v("all zero", &pv(&m), &vec![S::zero(); N]);
    let m = cx.call("Point::from_fill", || Point::<S, N>::from_fill(k));
    cx.ens_v("all the same", &pv(&m), &vec![k; N]);
    let mut seen = vec![];
    let m = cx.call("Point::map", || {
        a.map(|e| {
            seen.push(e);
            e * k + S::one()
        })
    });
    cx.ens_v("function applied to each component", &pv(&m), &x.iter().map(|e| *e * k + S::one()).collect::<Vec<_>>());
    cx.ens_v("function called once per component, in order", &seen, &x);
    let e = cx.call("Point == Point", || a == b);
    cx.agrees("equal iff every component is", e, all_eq(&x, &pv(&b)));
    let v = cx.call("Point::to_vector", || a.to_vector());
    cx.ens_v("same components", &vv(&v), &x);
    let p = cx.call("Point::from_vector", || Point::from_vector(&v));
    cx.ens_v("same components", &pv(&p), &x);
    cx.ensures("length", is(a.len() == N && a.is_empty() == (N == 0)));
}

pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        vec_add::<1>, vec_add::<2>, vec_add::<3>, vec_add::<4>, vec_add::<5>, vec_add::<6>, vec_add::<7>, vec_add::<8>, vec_add::<9>, vec_add::<16>, vec_add::<33>,
        vec_scalar::<1>, vec_scalar::<2>, vec_scalar::<3>, vec_scalar::<4>, vec_scalar::<5>, vec_scalar::<6>, vec_scalar::<7>, vec_scalar::<8>, vec_scalar::<9>, vec_scalar::<16>, vec_scalar::<33>,
        vec_build::<1>, vec_build::<2>, vec_build::<3>, vec_build::<4>, vec_build::<5>, vec_build::<6>, vec_build::<9>,
        vec_named,
        point_ops::<1>, point_ops::<2>, point_ops::<3>, point_ops::<4>, point_ops::<5>, point_ops::<6>, point_ops::<9>, point_ops::<17>,
        point_build::<1>, point_build::<2>, point_build::<3>, point_build::<4>, point_build::<9>,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole vec_add::<1>, vec_add::<2>, vec_add::<3>, vec_add::<4>, vec_scalar::<1>, vec_scalar::<2>, vec_scalar::<3>, vec_scalar::<4>, point_ops::<1>, point_ops::<2>, point_ops::<3>]);
    v
}
