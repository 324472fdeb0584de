//! C17: Euler angles.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

/// the rotation matrix of roll x, yaw y, pitch z: R_x R_y R_z
fn xyz<S: Sc>(x: S, y: S, z: S) -> M<S> {
    let r = |i: usize, t: S| rot_axis(&basis::<S>(3, i), t.cos(), t.sin());
    mm(&r(0, x), &mm(&r(1, y), &r(2, z)))
}
fn rad<S: Sc>(a: &[S]) -> Euler<Radians<S>> {
    Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2]))
}
fn deg<S: Sc>(a: &[S]) -> Euler<Degrees<S>> {
    Euler::new(Degrees(a[0]), Degrees(a[1]), Degrees(a[2]))
}
fn to_rad<S: Sc>(d: S) -> S {
    d * S::pi() / int(180)
}
fn constructors<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vs("a", 3);
    let e = cx.call("Euler::new", || rad(&a));
    cx.ens_v("roll, yaw, pitch in order", &[e.x.0, e.y.0, e.z.0], &a);
    let z = cx.call("Euler::zero", || Euler::<Radians<S>>::zero());
    cx.ens_v("all angles zero", &[z.x.0, z.y.0, z.z.0], &[S::zero(), S::zero(), S::zero()]);
    let z = cx.call("Euler::zero", || Euler::<Degrees<S>>::zero());
    cx.ens_v("all angles zero", &[z.x.0, z.y.0, z.z.0], &[S::zero(), S::zero(), S::zero()]);
    cx.ensures("zero is zero", is(z.is_zero()));
    // exact equality
    let b = cx.vs("b", 3);
    let f = rad(&b);
    let r = cx.call("Euler == Euler", || e == f);
    cx.agrees("componentwise equality", r, all_eq(&a, &b));
}
fn is_zero<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vs("a", 3);
    let r = cx.call("Euler::is_zero", || rad(&a).is_zero());
    cx.agrees("every angle zero", r, all_eq(&a, &[S::zero(), S::zero(), S::zero()]));
    let r = cx.call("Euler::is_zero", || deg(&a).is_zero());
    cx.agrees("every angle zero", r, all_eq(&a, &[S::zero(), S::zero(), S::zero()]));
}
fn matrices<S: Sc>(cx: &mut Cx<S>) {
    let a: Vec<S> = (0..3).map(|i| cx.angle(&format!("a{}", i))).collect();
    let w = xyz(a[0], a[1], a[2]);
    let e = rad(&a);
    let m = cx.call("Euler::to_matrix", || [e.to_matrix(), Matrix3x3::from(e), Matrix3x3::from(&e), Matrix3x3::from_euler_angles(&e)]);
    for m in &m {
        cx.ens_m("R_x R_y R_z", &mv(m), &w);
        cx.ensures("a rotation", is_rotation(&mv(m)));
    }
    let m = cx.call("Euler::to_affine_matrix", || [e.to_affine_matrix(), Matrix4x4::from(e), Matrix4x4::from(&e), Matrix4x4::from_euler_angles(&e)]);
    for m in &m {
        cx.ens_m("R_x R_y R_z and no translation", &mv(m), &affine(&w, &[S::zero(), S::zero(), S::zero()]));
    }
    let r = cx.call("Rotation3::from_euler_angles", || [Rotation3::from_euler_angles(&e), Rotation3::from(e), Rotation3::from(&e)]);
    for r in &r {
        cx.ens_m("R_x R_y R_z", &mv(r.matrix()), &w);
    }
}
fn degrees<S: Sc>(cx: &mut Cx<S>) {
    let a: Vec<S> = (0..3).map(|i| cx.angle(&format!("a{}", i))).collect();
    let w = xyz(to_rad(a[0]), to_rad(a[1]), to_rad(a[2]));
    let e = deg(&a);
    let m = cx.call("Euler::to_matrix", || [e.to_matrix(), Matrix3x3::from(e), Matrix3x3::from(&e), Matrix3x3::from_euler_angles(&e)]);
    for m in &m {
        cx.ens_m("R_x R_y R_z", &mv(m), &w);
    }
    let m = cx.call("Euler::to_affine_matrix", || [e.to_affine_matrix(), Matrix4x4::from(e), Matrix4x4::from(&e), Matrix4x4::from_euler_angles(&e)]);
    for m in &m {
        cx.ens_m("R_x R_y R_z and no translation", &mv(m), &affine(&w, &[S::zero(), S::zero(), S::zero()]));
    }
    let r = cx.call("Rotation3::from_euler_angles", || [Rotation3::from_euler_angles(&e), Rotation3::from(e), Rotation3::from(&e)]);
    for r in &r {
        cx.ens_m("R_x R_y R_z", &mv(r.matrix()), &w);
    }
}
/// the angles read off describe the matrix they were read from
fn spec_of<S: Sc>(cx: &mut Cx<S>, e: &Euler<Radians<S>>, m: &M<S>) {
    cx.ens_m("same rotation", &xyz(e.x.0, e.y.0, e.z.0), m);
}
fn unit_q<S: Sc>(cx: &mut Cx<S>) -> (Quaternion<S>, Vec<S>) {
    let p = S::unit_vec(cx, "q", 4);
    (Quaternion::new(p[0], p[1], p[2], p[3]), p)
}
fn rotation_any<S: Sc>(cx: &mut Cx<S>) {
    let (q, p) = unit_q(cx);
    let w = qmat(&p);
    cx.requires(lt(w[0][2] * w[0][2], S::one()));
    let r = Rotation3::from_quaternion(&q);
    let e = cx.call("Rotation3::euler_angles", || r.euler_angles());
    spec_of(cx, &e, &w);
}
fn quaternion_any<S: Sc>(cx: &mut Cx<S>) {
    let (q, p) = unit_q(cx);
    let w = qmat(&p);
    cx.requires(lt(w[0][2] * w[0][2], S::one()));
    let e = cx.call("From<Quaternion> for Euler", || [Euler::from(q), Euler::from(&q)]);
    for e in &e {
        spec_of(cx, e, &w);
    }
}
/// the yaw angle at a quarter turn either way: a turn about x, then a quarter turn about y
fn gimbal<S: Sc>(cx: &mut Cx<S>, sg: i64) {
    let h = cx.angle("h");
    let s = S::q(1, 2).sqrt();
    let p = qmul(&[h.cos(), h.sin(), S::zero(), S::zero()], &[s, S::zero(), s * int(sg), S::zero()]);
    let q = Quaternion::new(p[0], p[1], p[2], p[3]);
    let w = qmat(&p);
    cx.ens("at the pole", w[0][2], int(sg));
    let r = Rotation3::from_quaternion(&q);
    let e = cx.call("Rotation3::euler_angles", || r.euler_angles());
    spec_of(cx, &e, &w);
    let e = cx.call("From<Quaternion> for Euler", || [Euler::from(q), Euler::from(&q)]);
    for e in &e {
        spec_of(cx, e, &w);
    }
}
fn gimbal_up<S: Sc>(cx: &mut Cx<S>) {
    gimbal(cx, 1)
}
fn gimbal_down<S: Sc>(cx: &mut Cx<S>) {
    gimbal(cx, -1)
}
/// the angles of a rotation built from angles, those away from the poles being the same angles
fn round_trip<S: Sc>(cx: &mut Cx<S>) {
    let a: Vec<S> = (0..3).map(|i| cx.angle(&format!("a{}", i))).collect();
    cx.requires(lt(S::zero(), a[1].cos()));
    let r = Rotation3::from_euler_angles(&rad(&a));
    let e = cx.call("Rotation3::euler_angles", || r.euler_angles());
    for (got, want) in [(e.x, a[0]), (e.y, a[1]), (e.z, a[2])] {
        cx.ens("same cosine", got.0.cos(), want.cos());
        cx.ens("same sine", got.0.sin(), want.sin());
    }
}
/// gimbal lock in machine numbers, where the cosine of the yaw angle is rounding noise
fn f64_gimbal<S: Sc>(cx: &mut Cx<S>) {
    if S::SYMBOLIC {
        cx.ensures("stated on machine numbers", crate::term::F::True);
        return;
    }
    for sg in [-1, 1] {
        for k in 0..16 {
            let h = cx.angle(&format!("h{}", k));
            let s = S::q(1, 2).sqrt();
            let x = [[h.cos(), h.sin(), S::zero(), S::zero()], [h.sin(), h.cos(), S::zero(), S::zero()]];
            let y = [s, S::zero(), s * int(sg), S::zero()];
            let b = [S::q(1, 2), S::q(if k & 1 == 0 { 1 } else { -1 }, 2), S::q(if k & 2 == 0 { 1 } else { -1 }, 2), S::q(if k & 4 == 0 { 1 } else { -1 }, 2)].to_vec();
            for p in [qmul(&x[0], &y), qmul(&x[1], &y), b] {
                let q = Quaternion::new(p[0], p[1], p[2], p[3]);
                let w = qmat(&p);
                let r = Rotation3::from_quaternion(&q);
                let e = cx.call("Rotation3::euler_angles", || r.euler_angles());
                spec_of(cx, &e, &w);
                let e = cx.call("From<Quaternion> for Euler", || Euler::from(q));
                spec_of(cx, &e, &w);
            }
        }
    }
}
pub fn all() -> Vec<Contract> {
    crate::contracts![constructors, is_zero, matrices, degrees, rotation_any, quaternion_any, gimbal_up, gimbal_down, round_trip, f64_gimbal]
}
