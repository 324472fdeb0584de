//! C09: rotations by quaternions.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_trigonometry::*;

fn uquat<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Quaternion<S>, Vec<S>) {
    let v = S::unit_vec(cx, name, 4);
    (Quaternion::new(v[0], v[1], v[2], v[3]), v)
}
fn unit_norm<S: Sc>(cx: &mut Cx<S>, q: &[S]) {
    cx.ens("unit quaternion", dot(q, q), S::one());
}
fn axis_angle<S: Sc>(cx: &mut Cx<S>) {
    let (k, kv) = cx.unit::<3>("k");
    let a = cx.angle("a");
    let v: Vector3<S> = cx.vec("v");
    let q = cx.call("Quaternion::from_axis_angle", || Quaternion::from_axis_angle(&k, Radians(a)));
    unit_norm(cx, &qv(&q));
    let (c, s) = (a.cos(), a.sin());
    cx.ens_v("q v q* turns v about the axis", &qrot(&qv(&q), &vv(&v)), &rodrigues(&kv, &vv(&v), c, s));
    let h = a * S::q(1, 2);
    cx.ens_v("cos(a/2) + k sin(a/2)", &qv(&q), &[h.cos(), kv[0] * h.sin(), kv[1] * h.sin(), kv[2] * h.sin()]);
    let m = cx.call("Quaternion::to_matrix", || q.to_matrix());
    cx.ens_m("the same rotation as the matrix", &mv(&m), &rot_axis(&kv, c, s));
    let n = cx.call("Matrix3x3::from_axis_angle", || Matrix3x3::from_axis_angle(&k, Radians(a)));
    cx.ens_m("matrix and quaternion agree", &mv(&m), &mv(&n));
}
fn axis_angle_deg<S: Sc>(cx: &mut Cx<S>) {
    let (k, kv) = cx.unit::<3>("k");
    let d = cx.angle("a");
    let h = d * S::pi() / int(360);
    let q = cx.call("Quaternion::from_axis_angle", || Quaternion::from_axis_angle(&k, Degrees(d)));
    cx.ens_v("degrees", &qv(&q), &[h.cos(), kv[0] * h.sin(), kv[1] * h.sin(), kv[2] * h.sin()]);
}
/// products of rotations compose
fn compose<S: Sc>(cx: &mut Cx<S>) {
    let (p, x) = uquat(cx, "p");
    let (q, y) = uquat(cx, "q");
    let r = cx.call("Quaternion * Quaternion", || p * q);
    cx.ens_m("acts as p after q", &qmat(&qv(&r)), &mm(&qmat(&x), &qmat(&y)));
    unit_norm(cx, &qv(&r));
    let i = cx.call("Quaternion::conjugate", || p.conjugate());
    cx.ens_m("conjugate turns back", &qmat(&qv(&i)), &tr(&qmat(&x)));
}
fn to_matrix<S: Sc>(cx: &mut Cx<S>) {
    let q = cx.quat("q");
    let x = qv(&q);
    let n2 = dot(&x, &x);
    cx.requires(lt(S::zero(), n2));
    let w = mscale(&qmat(&x), S::one() / n2);
    let r = cx.call("Quaternion::to_matrix", || {
        let mut a: Matrix3x3<S> = Matrix3x3::from([[S::q(7, 1); 3]; 3]);
        q.to_matrix_mut(&mut a);
        [q.to_matrix(), a, Matrix3x3::from(q), Matrix3x3::from(&q)]
    });
    for m in &r {
        cx.ens_m("v -> q v q* / |q|^2", &mv(m), &w);
    }
    cx.ensures("proper rotation", is_rotation(&mv(&r[0])));
    let r = cx.call("Quaternion::to_affine_matrix", || {
        let mut a: Matrix4x4<S> = Matrix4x4::from([[S::q(7, 1); 4]; 4]);
        q.to_affine_matrix_mut(&mut a);
        [q.to_affine_matrix(), a, Matrix4x4::from(q), Matrix4x4::from(&q)]
    });
    for m in &r {
        cx.ens_m("embedded in the upper left, identity elsewhere", &mv(m), &affine(&w, &vec![S::zero(); 3]));
    }
}
/// every rotation matrix is the matrix of a unit quaternion p; reading it back gives p or -p
fn from_matrix<S: Sc>(cx: &mut Cx<S>) {
    let (_, p) = uquat(cx, "p");
    let w = qmat(&p);
    let mut d = [[S::zero(); 3]; 3];
    for c in 0..3 {
        for r in 0..3 {
            d[c][r] = w[r][c];
        }
    }
    let m: Matrix3x3<S> = Matrix3x3::from(d);
    let r = cx.call("Quaternion::from_matrix", || [Quaternion::from_matrix(&m), Quaternion::from(m), Quaternion::from(&m)]);
    let q = qv(&r[0]);
    cx.ens_v("conversions agree", &qv(&r[1]), &q);
    cx.ens_v("conversions agree", &qv(&r[2]), &q);
    unit_norm(cx, &q);
    cx.ens_m("the same rotation", &qmat(&q), &w);
}
/// 4 q q^T as a function of the rotation matrix
fn qq<S: Sc>(m: &M<S>) -> Vec<(usize, usize, S)> {
    let o = S::one();
    vec![
        (0, 0, o + m[0][0] + m[1][1] + m[2][2]),
        (1, 1, o + m[0][0] - m[1][1] - m[2][2]),
        (2, 2, o - m[0][0] + m[1][1] - m[2][2]),
        (3, 3, o - m[0][0] - m[1][1] + m[2][2]),
        (0, 1, m[2][1] - m[1][2]),
        (0, 2, m[0][2] - m[2][0]),
        (0, 3, m[1][0] - m[0][1]),
        (1, 2, m[0][1] + m[1][0]),
        (1, 3, m[0][2] + m[2][0]),
        (2, 3, m[1][2] + m[2][1]),
    ]
}
fn represents<S: Sc>(cx: &mut Cx<S>, q: &[S], m: &M<S>) {
    for (i, j, k) in qq(m) {
        cx.lemma("4 q q^T in terms of the matrix", eq(q[i] * q[j] * int(4), k));
    }
    unit_norm(cx, q);
    cx.ens_m("the same rotation", &qmat(q), m);
}
/// any matrix satisfying the equations of the rotation group
fn from_rotation_matrix<S: Sc>(cx: &mut Cx<S>) {
    let m = cx.rotation3("m");
    let q = cx.call("Quaternion::from_matrix", || Quaternion::from_matrix(&m));
    represents(cx, &qv(&q), &mv(&m));
}
macro_rules! looks {
    ($($f:ident $to:ident $dir:literal $inv:tt $at:tt);* $(;)?) => {$(
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vector3<S> = cx.vec("d");
            let up: Vector3<S> = cx.vec("u");
            let e: Point3<S> = cx.point("e");
            nondeg(cx, &vv(&d), &vv(&up));
            let v = view(&vv(&d), &vv(&up), $dir);
            cx.cut("the viewing rotation", &flat(&v), |t| so3(&t.chunks(3).map(|r| r.to_vec()).collect()));
            let q = cx.call(concat!("Quaternion::", stringify!($to)), || looks!(@ $at $to e d up));
            represents(cx, &qv(&q), &if $inv { tr(&v) } else { v });
        }
    )*};
    (@ true $to:ident $e:ident $d:ident $up:ident) => { Quaternion::$to(&$e, &($e + $d), &$up) };
    (@ false $to:ident $e:ident $d:ident $up:ident) => { Quaternion::$to(&$d, &$up) };
}
looks!(
    look_to_lh look_to_lh 1 false false;
    look_to_rh look_to_rh -1 false false;
    look_to_lh_inv look_to_lh_inv 1 true false;
    look_to_rh_inv look_to_rh_inv -1 true false;
    look_at_lh look_at_lh 1 false true;
    look_at_rh look_at_rh -1 false true;
    look_at_lh_inv look_at_lh_inv 1 true true;
    look_at_rh_inv look_at_rh_inv -1 true true;
);

fn between_axis<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = cx.unit::<3>("a");
    let (b, y) = cx.unit::<3>("b");
    let w = cross(&x, &y);
    cx.name("cosine and squared sine", &[dot(&x, &y), dot(&w, &w)], |t| vec![eq(t[1], S::one() - t[0] * t[0])]);
    let q = cx.call("Quaternion::rotation_between_axis", || Quaternion::rotation_between_axis(&a, &b));
    between(cx, q, &x, &y);
}
fn between<S: Sc>(cx: &mut Cx<S>, q: Option<Quaternion<S>>, x: &[S], y: &[S]) {
    let w = cross(x, y);
    let c = dot(x, y);
    let wide = S::eps() * S::eps() < dot(&w, &w);
    match q {
        Some(q) if wide => {
            cx.lemma("sine", eq((S::one() + c).sqrt() * (S::one() - c).sqrt(), (S::one() - c * c).sqrt()));
            unit_norm(cx, &qv(&q));
            cx.ens_v("turns v1 into v2 when they are not parallel", &qrot(&qv(&q), x), y);
        }
        Some(q) => cx.ens_v("identity when they are parallel", &qv(&q), &basis(4, 0)),
        None => cx.ensures("None only for opposite directions", and(vec![is(!wide), lt(c, S::zero())])),
    }
}
fn between_vec<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    cx.requires(lt(S::zero(), dot(&x, &x)));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let (p, q) = (dot(&x, &x).sqrt(), dot(&y, &y).sqrt());
    let xu: Vec<S> = x.iter().map(|e| *e / p).collect();
    let yu: Vec<S> = y.iter().map(|e| *e / q).collect();
    cx.cut_rules("directions", &[xu.clone(), yu.clone()].concat(), |t| vec![eq(dot(&t[..3], &t[..3]), S::one()), eq(dot(&t[3..], &t[3..]), S::one())]);
    let w = cross(&xu, &yu);
    cx.name("cosine and squared sine", &[dot(&xu, &yu), dot(&w, &w)], |t| vec![eq(t[1], S::one() - t[0] * t[0])]);
    let m = cx.call("Quaternion::rotation_between", || Quaternion::rotation_between(&a, &b));
    between(cx, m, &xu, &yu);
}
fn between_zero<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let z = Vector3::zero();
    let r = cx.call("Quaternion::rotation_between", || [Quaternion::rotation_between(&a, &z), Quaternion::rotation_between(&z, &a)]);
    for q in r {
        match q {
            None => cx.ensures("identity for a zero vector", is(false)),
            Some(q) => cx.ens_v("identity for a zero vector", &qv(&q), &basis(4, 0)),
        }
    }
}
fn lerp<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.quat("a");
    let b = cx.quat("b");
    let t = cx.v("t");
    let (x, y) = (qv(&a), qv(&b));
    let l = cx.call("Quaternion::lerp", || a.lerp(&b, t));
    let w = vadd(&vscale(&x, S::one() - t), &vscale(&y, t));
    cx.ens_v("a (1 - t) + b t", &qv(&l), &w);
    cx.requires(lt(S::zero(), dot(&w, &w)));
    let n = cx.call("Quaternion::nlerp", || a.nlerp(&b, t));
    unit_norm(cx, &qv(&n));
    cx.ens_v("the direction of lerp", &vscale(&qv(&n), dot(&w, &w).sqrt()), &w);
}
fn lerp_ends<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = uquat(cx, "a");
    let (b, y) = uquat(cx, "b");
    let r = cx.call("Quaternion::lerp", || [a.lerp(&b, S::zero()), a.lerp(&b, S::one())]);
    cx.ens_v("starts at a", &qv(&r[0]), &x);
    cx.ens_v("ends at b", &qv(&r[1]), &y);
    let r = cx.call("Quaternion::nlerp", || [a.nlerp(&b, S::zero()), a.nlerp(&b, S::one())]);
    cx.ens_v("starts at a", &qv(&r[0]), &x);
    cx.ens_v("ends at b", &qv(&r[1]), &y);
}
/// names the cosine and proves the equality of x and y where it is one
fn cosine<S: Sc>(cx: &mut Cx<S>, x: &[S], y: &[S]) -> S {
    let c = dot(x, y);
    if S::one() <= c {
        cx.zero_squares("equal unit quaternions", &vsub(x, y));
    }
    cx.name("cosine", &[c], |t| vec![le(S::zero(), t[0])]);
    c
}
fn slerp_ends<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = uquat(cx, "a");
    let (b, y) = uquat(cx, "b");
    let s = if_neg(cx, dot(&x, &y));
    let xs = vscale(&x, s);
    cosine(cx, &xs, &y);
    let r = cx.call("Quaternion::slerp", || [a.slerp(&b, S::zero()), a.slerp(&b, S::one())]);
    cx.ens_v("starts at the rotation of a", &qv(&r[0]), &xs);
    cx.ens_v("ends at b", &qv(&r[1]), &y);
}
/// +1 or -1: the nearer of a and -a
fn if_neg<S: Sc>(_: &mut Cx<S>, d: S) -> S {
    if d < S::zero() {
        int(-1)
    } else {
        int(1)
    }
}
fn slerp<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = uquat(cx, "a");
    let (b, y) = uquat(cx, "b");
    let t = cx.v("t");
    let s = if_neg(cx, dot(&x, &y));
    let xs = vscale(&x, s);
    let c = cosine(cx, &xs, &y);
    // the squared length of the interpolant (1 - t) a + t b, for nearly equal rotations
    let l = vadd(&vscale(&xs, S::one() - t), &vscale(&y, t));
    let u = S::q(1, 2) - t;
    cx.name("squared length of the interpolant", &[dot(&l, &l)], |n| vec![eq(n[0] * int(2), (S::one() + c) + u * u * int(4) * (S::one() - c))]);
    let r = cx.call("Quaternion::slerp", || a.slerp(&b, t));
    unit_norm(cx, &qv(&r));
    if S::one() - c * c < S::q(5, 10000) * S::q(5, 10000) || S::one() <= c {
        return;
    }
    // the angle from the start is t times the whole angle
    let th = c.acos();
    cx.ens("turns through t of the angle", dot(&qv(&r), &xs), (t * th).cos());
    cx.ens("turns through t of the angle", dot(&qv(&r), &y), ((S::one() - t) * th).cos());
}

pub fn all() -> Vec<Contract> {
    crate::contracts![
        axis_angle, axis_angle_deg, compose, to_matrix, from_matrix, from_rotation_matrix, look_to_lh, look_to_rh, look_to_lh_inv, look_to_rh_inv, look_at_lh, look_at_rh, look_at_lh_inv, look_at_rh_inv, between_axis, between_vec, between_zero, lerp, lerp_ends, slerp_ends, slerp,
    ]
}
