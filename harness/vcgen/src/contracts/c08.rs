//! C08: quaternion arithmetic.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;

fn one<S: Sc>() -> Vec<S> {
    basis(4, 0)
}
fn add_sub<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let (x, y) = (qv(&a), qv(&b));
    let r = cx.call("Quaternion + Quaternion", || {
        let (mut p, mut q) = (a, a);
        p += b;
        q += &b;
        [a + b, a + &b, &a + b, &a + &b, p, q]
    });
    for q in &r {
        cx.ens_v("componentwise sum", &qv(q), &vadd(&x, &y));
    }
    let r = cx.call("Quaternion - Quaternion", || {
        let (mut p, mut q) = (a, a);
        p -= b;
        q -= &b;
        [a - b, a - &b, &a - b, &a - &b, p, q]
    });
    for q in &r {
        cx.ens_v("componentwise difference", &qv(q), &vsub(&x, &y));
    }
    let r = cx.call("-Quaternion", || [-a, -&a]);
    for q in &r {
        cx.ens_v("componentwise negation", &qv(q), &vneg(&x));
    }
    cx.ens_v("operands unchanged", &qv(&a), &x);
    cx.ens_v("operands unchanged", &qv(&b), &y);
}
fn scalar_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let x = qv(&a);
    let k = cx.v("k");
    let r = cx.call("Quaternion * scalar", || {
        let mut p = a;
        p *= k;
        [a * k, a * &k, &a * k, &a * &k, p]
    });
    for q in &r {
        cx.ens_v("every component times k", &qv(q), &vscale(&x, k));
    }
    let d = cx.nonzero("d");
    let r = cx.call("Quaternion / scalar", || {
        let mut p = a;
        p /= d;
        [a / d, a / &d, &a / d, &a / &d, p]
    });
    let w: Vec<S> = x.iter().map(|e| *e / d).collect();
    for q in &r {
        cx.ens_v("every component over d", &qv(q), &w);
    }
    let r = cx.call("Quaternion % scalar", || {
        let mut p = a;
        p %= d;
        [a % d, a % &d, &a % d, &a % &d, p]
    });
    let w: Vec<S> = x.iter().map(|e| *e % d).collect();
    for q in &r {
        cx.ens_v("every component modulo d", &qv(q), &w);
    }
    let h = cx.call("Quaternion::half", || a.half());
    let w: Vec<S> = x.iter().map(|e| *e / int(2)).collect();
    cx.ens_v("every component divided by two", &qv(&h), &w);
}
fn product<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let c = cx.quat("c");
    let (x, y) = (qv(&a), qv(&b));
    let w = qmul(&x, &y);
    let r = cx.call("Quaternion * Quaternion", || [a * b, a * &b, &a * b, &a * &b]);
    for q in &r {
        cx.ens_v("Hamilton product", &qv(q), &w);
    }
    let (l, m) = cx.call("Quaternion * Quaternion", || ((a * b) * c, a * (b * c)));
    cx.ens_v("associative", &qv(&l), &qv(&m));
    let (l, m) = cx.call("Quaternion * Quaternion", || (a * (b + c), a * b + a * c));
    cx.ens_v("distributes over addition", &qv(&l), &qv(&m));
    let n = cx.call("Quaternion::norm_squared", || (a * b).norm_squared());
    cx.ens("norm is multiplicative", n, dot(&x, &x) * dot(&y, &y));
    let s = cx.call("Quaternion::squared", || a.squared());
    cx.ens_v("a a", &qv(&s), &qmul(&x, &x));
}
fn inner_outer<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let (x, y) = (qv(&a), qv(&b));
    let w = qmul(&x, &y);
    let i = cx.call("Quaternion::inner", || a.inner(&b));
    cx.ens_v("(ab + ba)/2", &qv(&i), &vscale(&vadd(&w, &qmul(&y, &x)), S::q(1, 2)));
    let o = cx.call("Quaternion::outer", || a.outer(&b));
    cx.ens_v("(ab - ba)/2", &qv(&o), &vscale(&vsub(&w, &qmul(&y, &x)), S::q(1, 2)));
    cx.ens_v("inner + outer = product", &vadd(&qv(&i), &qv(&o)), &w);
}
fn conjugate<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let x = qv(&a);
    let c = cx.call("Quaternion::conjugate", || a.conjugate());
    cx.ens_v("vector part negated", &qv(&c), &qconj(&x));
    let mut m = a;
    cx.call("Quaternion::conjugate_mut", || m.conjugate_mut());
    cx.ens_v("vector part negated", &qv(&m), &qconj(&x));
    let (l, r) = cx.call("Quaternion::conjugate", || ((a * b).conjugate(), b.conjugate() * a.conjugate()));
    cx.ens_v("antihomomorphism", &qv(&l), &qv(&r));
    let p = cx.call("Quaternion::conjugate", || a * a.conjugate());
    cx.ens_v("a a* = |a|^2", &qv(&p), &[dot(&x, &x), S::zero(), S::zero(), S::zero()]);
}
fn units<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let [s, i, j, k] = cx.call("Quaternion::unit_s, unit_x, unit_y, unit_z", || [Quaternion::<S>::unit_s(), Quaternion::unit_x(), Quaternion::unit_y(), Quaternion::unit_z()]);
    for (n, q) in [s, i, j, k].iter().enumerate() {
        cx.ens_v("basis quaternion", &qv(q), &basis(4, n));
    }
    let r = cx.call("Quaternion * Quaternion", || [i * j, j * k, k * i, i * i, i * j * k]);
    cx.ens_v("ij = k", &qv(&r[0]), &qv(&k));
    cx.ens_v("jk = i", &qv(&r[1]), &qv(&i));
    cx.ens_v("ki = j", &qv(&r[2]), &qv(&j));
    cx.ens_v("ii = -1", &qv(&r[3]), &vneg(&one()));
    cx.ens_v("ijk = -1", &qv(&r[4]), &vneg(&one()));
    let r = cx.call("Quaternion::identity, one, zero, default", || [Quaternion::<S>::identity(), Quaternion::one(), Quaternion::zero(), Quaternion::default()]);
    cx.ens_v("one", &qv(&r[0]), &one());
    cx.ens_v("one", &qv(&r[1]), &one());
    cx.ens_v("zero", &qv(&r[2]), &vec![S::zero(); 4]);
    cx.ens_v("zero", &qv(&r[3]), &vec![S::zero(); 4]);
    let p = cx.call("Quaternion::identity", || [Quaternion::identity() * a, a * Quaternion::identity(), a + Quaternion::zero()]);
    for q in &p {
        cx.ens_v("neutral", &qv(q), &qv(&a));
    }
}
fn parts<S: Sc>(cx: &mut Cx<S>) {
    let a: [S; 4] = cx.arr("a");
    let v = Vector3::new(a[1], a[2], a[3]);
    let z = S::zero();
    let q = cx.call("Quaternion::new", || Quaternion::new(a[0], a[1], a[2], a[3]));
    cx.ens_v("components in order s, x, y, z", &raw::<S, _>(&q), &a);
    let r = cx.call("Quaternion::from_parts", || Quaternion::from_parts(a[0], v));
    cx.ens_v("scalar then vector", &qv(&r), &a);
    let r = cx.call("Quaternion::from_vector", || Quaternion::from_vector(Vector4::new(a[0], a[1], a[2], a[3])));
    cx.ens_v("components kept", &qv(&r), &a);
    let r = cx.call("Quaternion::from_fill", || Quaternion::from_fill(a[0]));
    cx.ens_v("the value everywhere", &qv(&r), &[a[0]; 4]);
    let r = cx.call("Quaternion::from_real", || Quaternion::from_real(a[0]));
    cx.ens_v("real", &qv(&r), &[a[0], z, z, z]);
    let r = cx.call("Quaternion::from_pure", || Quaternion::from_pure(v));
    cx.ens_v("pure", &qv(&r), &[z, a[1], a[2], a[3]]);
    let s = cx.call("Quaternion::scalar", || q.scalar());
    cx.ens("scalar part", s, a[0]);
    let w = cx.call("Quaternion::vector", || q.vector());
    cx.ens_v("vector part", &vv(&w), &a[1..4]);
    let m = cx.call("Quaternion::map", || q.map(|e| e * e + S::one()));
    cx.ens_v("applied to every component", &qv(&m), &a.iter().map(|e| *e * *e + S::one()).collect::<Vec<_>>());
    cx.ensures("len, shape, is_empty", is(q.len() == 4 && q.shape() == (4, 1) && !q.is_empty()));
}
fn predicates<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let x = qv(&a);
    let z = vec![S::zero(); 4];
    let b = cx.call("Quaternion::is_zero", || a.is_zero());
    cx.agrees("all components zero", b, all_eq(&x, &z));
    let b = cx.call("Quaternion::is_identity", || a.is_identity());
    cx.agrees("equals one", b, all_eq(&x, &one()));
    let b = cx.call("Quaternion::is_pure", || a.is_pure());
    cx.agrees("scalar part zero", b, eq(x[0], z[0]));
    let b = cx.call("Quaternion::is_real", || a.is_real());
    cx.agrees("vector part zero", b, all_eq(&x[1..4], &z[1..4]));
    let b = cx.call("Quaternion == Quaternion", || a == Quaternion::new(x[0], x[1], x[2], x[3]));
    cx.ensures("equal to itself", is(b));
    let c = cx.quat("c");
    let b = cx.call("Quaternion == Quaternion", || a == c);
    cx.agrees("all components equal", b, all_eq(&x, &qv(&c)));
}
fn finite<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.call("Quaternion::is_finite", || a.is_finite());
    cx.agrees("every component finite", b, and(qv(&a).iter().map(|e| crate::term::F::Pred("is_finite", vec![*e])).collect()));
}
fn norms<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let (x, y) = (qv(&a), qv(&b));
    let n2 = dot(&x, &x);
    let e = vsub(&x, &y);
    let d = cx.call("Quaternion::dot", || a.dot(&b));
    cx.ens("sum of products", d, dot(&x, &y));
    let r = cx.call("Quaternion::norm_squared, modulus_squared, magnitude_squared", || [a.norm_squared(), a.modulus_squared(), a.magnitude_squared()]);
    for v in r {
        cx.ens("sum of squares", v, n2);
    }
    let r = cx.call("Quaternion::norm, modulus, magnitude, l2_norm", || [a.norm(), a.modulus(), a.magnitude(), a.l2_norm()]);
    for v in r {
        cx.ens("root of the sum of squares", v, n2.sqrt());
    }
    let r = cx.call("Quaternion::metric_distance_squared", || a.metric_distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
    let r = cx.call("Quaternion::metric_distance", || a.metric_distance(&b));
    cx.ens("norm of the difference", r, dot(&e, &e).sqrt());
}
fn l1<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let x = qv(&a);
    let n = cx.call("Quaternion::l1_norm", || a.l1_norm());
    let mut w = S::zero();
    for e in &x {
        w = w + e.abs();
    }
    cx.ens("sum of absolute values", n, w);
    cx.ensures("bounds every component", and(x.iter().flat_map(|e| vec![le(*e, n), le(-*e, n)]).collect()));
}
fn inverse<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let x = qv(&a);
    let n2 = dot(&x, &x);
    let e2 = S::eps() * S::eps();
    match cx.call("Quaternion::try_inverse", || a.try_inverse()) {
        None => cx.ensures("refused only when the norm is negligible", le(n2, e2)),
        Some(i) => {
            cx.ensures("accepted only when the norm is not negligible", lt(e2, n2));
            cx.ens_v("a inverse(a) = 1", &qmul(&x, &qv(&i)), &one());
            cx.ens_v("inverse(a) a = 1", &qmul(&qv(&i), &x), &one());
        }
    }
    let b = cx.call("Quaternion::is_invertible", || a.is_invertible());
    cx.ensures("norm not negligible", if b { le(e2, n2) } else { le(n2, e2) });
}
fn inverse_some<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let x = qv(&a);
    cx.requires(lt(S::eps() * S::eps(), dot(&x, &x)));
    let i = cx.call("Quaternion::inverse", || a.inverse());
    cx.ens_v("a inverse(a) = 1", &qmul(&x, &qv(&i)), &one());
    cx.ens_v("inverse(a) a = 1", &qmul(&qv(&i), &x), &one());
}
fn division<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let (x, y) = (qv(&a), qv(&b));
    let n2 = dot(&y, &y);
    let e2 = S::eps() * S::eps();
    match cx.call("Quaternion::div_left", || a.div_left(&b)) {
        None => cx.ensures("refused only when the divisor is negligible", le(n2, e2)),
        Some(q) => {
            cx.ensures("accepted only when the divisor is not negligible", lt(e2, n2));
            cx.ens_v("b q = a", &qmul(&y, &qv(&q)), &x);
        }
    }
    match cx.call("Quaternion::div_right", || a.div_right(&b)) {
        None => cx.ensures("refused only when the divisor is negligible", le(n2, e2)),
        Some(q) => {
            cx.ensures("accepted only when the divisor is not negligible", lt(e2, n2));
            cx.ens_v("q b = a", &qmul(&qv(&q), &y), &x);
        }
    }
}
fn projection<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let (x, y) = (qv(&a), qv(&b));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let p = cx.call("Quaternion::project", || a.project(&b));
    cx.ens_v("multiple of b by a.b / b.b", &qv(&p), &vscale(&y, dot(&x, &y) / dot(&y, &y)));
    let r = cx.call("Quaternion::reject", || a.reject(&b));
    cx.ens_v("the rest", &vadd(&qv(&p), &qv(&r)), &x);
    cx.ens("orthogonal to b", dot(&qv(&r), &y), S::zero());
}
fn normed_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    normed(cx, "Quaternion", a, b, |q| qv(q));
}
fn normalize_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    normalizing(cx, "Quaternion", a, |q| qv(q));
}
fn try_normalize_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    try_normalizing(cx, "Quaternion", a, |q| qv(q));
}

pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        add_sub, scalar_ops, product, inner_outer, conjugate, units, parts, predicates, finite, norms, l1, inverse, inverse_some, division, projection,
        normed_ops, normalize_ops, try_normalize_ops,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole add_sub, scalar_ops, product, conjugate]);
    v
}
