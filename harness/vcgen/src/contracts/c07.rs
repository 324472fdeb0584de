//! C07: perspective and orthographic projections.
//! The planes are given by their distances: the view volume spans [-left, right] x [-bottom, top].
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

struct Planes<S> {
    l: S,
    r: S,
    b: S,
    t: S,
    n: S,
    f: S,
}
fn planes<S: Sc>(cx: &mut Cx<S>) -> Planes<S> {
    let p = Planes { l: cx.pos("left"), r: cx.pos("right"), b: cx.pos("bottom"), t: cx.pos("top"), n: cx.pos("near"), f: cx.pos("far") };
    cx.requires(lt(p.n, p.f));
    p
}
fn persp_spec<S: Sc>(p: &Planes<S>) -> M<S> {
    let (o, z, two) = (S::one(), S::zero(), int::<S>(2));
    vec![
        vec![two * p.n / (p.r + p.l), z, (p.r - p.l) / (p.r + p.l), z],
        vec![z, two * p.n / (p.t + p.b), (p.t - p.b) / (p.t + p.b), z],
        vec![z, z, -(p.f + p.n) / (p.f - p.n), -two * p.f * p.n / (p.f - p.n)],
        vec![z, z, -o, z],
    ]
}
fn ortho_spec<S: Sc>(p: &Planes<S>) -> M<S> {
    let (o, z, two) = (S::one(), S::zero(), int::<S>(2));
    vec![
        vec![two / (p.r + p.l), z, z, -(p.r - p.l) / (p.r + p.l)],
        vec![z, two / (p.t + p.b), z, -(p.t - p.b) / (p.t + p.b)],
        vec![z, z, -two / (p.f - p.n), -(p.f + p.n) / (p.f - p.n)],
        vec![z, z, z, o],
    ]
}
fn matrices<S: Sc>(cx: &mut Cx<S>) {
    // the matrices themselves make sense for planes on either side of the axis
    let (l, r, b, t) = (cx.v("left"), cx.v("right"), cx.v("bottom"), cx.v("top"));
    let (n, f) = (cx.v("near"), cx.v("far"));
    cx.requires(ne(l + r, S::zero()));
    cx.requires(ne(b + t, S::zero()));
    cx.requires(ne(n, f));
    let p = Planes { l, r, b, t, n, f };
    let m = cx.call("Matrix4x4::from_perspective", || Matrix4x4::from_perspective(l, r, b, t, n, f));
    cx.ens_m("perspective matrix", &mv(&m), &persp_spec(&p));
    let q = cx.call("Perspective3::new", || Perspective3::new(l, r, b, t, n, f));
    cx.ens_m("perspective matrix", &mv(q.matrix()), &persp_spec(&p));
    let m = cx.call("Matrix4x4::from_orthographic", || Matrix4x4::from_orthographic(l, r, b, t, n, f));
    cx.ens_m("orthographic matrix", &mv(&m), &ortho_spec(&p));
    let o = cx.call("Orthographic3::new", || Orthographic3::new(l, r, b, t, n, f));
    cx.ens_m("orthographic matrix", &mv(o.matrix()), &ortho_spec(&p));
}
fn frame<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let (o, z) = (S::one(), S::zero());
    macro_rules! both {
        ($q:ident $T:literal) => {
            let q = $q;
            for (nm, u, w) in [
                ("view_unit_right", q.view_unit_right(), [o, z, z]),
                ("view_unit_up", q.view_unit_up(), [z, o, z]),
                ("view_unit_depth", q.view_unit_depth(), [z, z, o]),
                ("view_unit_gaze", q.view_unit_gaze(), [z, z, -o]),
                ("clip_unit_right", q.clip_unit_right(), [o, z, z]),
                ("clip_unit_up", q.clip_unit_up(), [z, o, z]),
                ("clip_unit_depth", q.clip_unit_depth(), [z, z, o]),
                ("clip_unit_gaze", q.clip_unit_gaze(), [z, z, o]),
            ] {
                let u = cx.call(&format!("{}::{}", $T, nm), || u);
                cx.ens_v("documented axis", &vv(&u), &w);
            }
            let b = cx.call(concat!($T, "::clip_ndc_bounds"), || q.clip_ndc_bounds());
            cx.ens_v("[-1, 1] on every axis", &[b.0 .0, b.0 .1, b.1 .0, b.1 .1, b.2 .0, b.2 .1], &[-o, o, -o, o, -o, o]);
            let m = mv(q.matrix());
            let x = cx.call(concat!($T, "::to_projective_matrix"), || q.to_projective_matrix());
            cx.ens_m("same matrix", &mv(&x), &m);
            let x = cx.call(concat!($T, "::to_transform"), || q.to_transform());
            cx.ens_m("same matrix", &mv(&x.to_matrix()), &m);
            let x = cx.call(concat!("From<", $T, ">"), || Matrix4x4::from(q));
            cx.ens_m("same matrix", &mv(&x), &m);
            let x: &Matrix4x4<S> = q.as_ref();
            let x = cx.call(concat!($T, "::as_ref"), || *x);
            cx.ens_m("same matrix", &mv(&x), &m);
        };
    }
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    both!(q "Perspective3");
    let q = Orthographic3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    both!(q "Orthographic3");
}
fn persp_accessors<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    for (nm, got, want) in [
        ("near", q.near(), p.n),
        ("far", q.far(), p.f),
        ("left", q.left(), p.l),
        ("right", q.right(), p.r),
        ("bottom", q.bottom(), p.b),
        ("top", q.top(), p.t),
        ("aspect_ratio", q.aspect_ratio(), (p.r + p.l) / (p.t + p.b)),
    ] {
        let got = cx.call(&format!("Perspective3::{}", nm), || got);
        cx.ens("read back", got, want);
    }
}
fn persp_vfov_accessor<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let v = cx.call("Perspective3::vfov", || q.vfov());
    // the angle between the top and the bottom plane
    let lt_ = (p.t * p.t + p.n * p.n) * (p.b * p.b + p.n * p.n);
    cx.ens("cosine of the angle between the planes", v.0.cos() * lt_.sqrt(), p.n * p.n - p.t * p.b);
    cx.ens("sine of the angle between the planes", v.0.sin() * lt_.sqrt(), p.n * (p.t + p.b));
}
fn ortho_accessors<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Orthographic3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    for (nm, got, want) in [
        ("near", q.near(), p.n),
        ("far", q.far(), p.f),
        ("left", q.left(), p.l),
        ("right", q.right(), p.r),
        ("bottom", q.bottom(), p.b),
        ("top", q.top(), p.t),
    ] {
        let got = cx.call(&format!("Orthographic3::{}", nm), || got);
        cx.ens("read back", got, want);
    }
}
fn half_angle<S: Sc>(cx: &mut Cx<S>) -> S {
    let h = cx.angle("half_vfov");
    cx.requires(lt(S::zero(), h.sin()));
    cx.requires(lt(S::zero(), h.cos()));
    h
}
fn vfov<S: Sc>(cx: &mut Cx<S>) {
    let h = half_angle(cx);
    let (n, f, a) = (cx.pos("near"), cx.pos("far"), cx.pos("aspect"));
    cx.requires(lt(n, f));
    let v = Radians(h + h);
    let top = n * h.sin() / h.cos();
    let p = Planes { l: a * top, r: a * top, b: top, t: top, n, f };
    let m = cx.call("Matrix4x4::from_perspective_vfov", || Matrix4x4::from_perspective_vfov(v, a, n, f));
    cx.ens_m("same as the symmetric planes", &mv(&m), &persp_spec(&p));
    let q = cx.call("Perspective3::from_vfov", || Perspective3::from_vfov(v, a, n, f));
    cx.ens_m("same as the symmetric planes", &mv(q.matrix()), &persp_spec(&p));
    let x = cx.call("Perspective3::aspect_ratio", || q.aspect_ratio());
    cx.ens("aspect ratio read back", x, a);
    let x = cx.call("Perspective3::near", || q.near());
    cx.ens("near read back", x, n);
    let x = cx.call("Perspective3::far", || q.far());
    cx.ens("far read back", x, f);
    let x = cx.call("Perspective3::vfov", || q.vfov());
    cx.ens("cosine of the field of view read back", x.0.cos(), (h + h).cos());
    cx.ens("sine of the field of view read back", x.0.sin(), (h + h).sin());
    let d = Degrees::from(v);
    let m = cx.call("Matrix4x4::from_perspective_vfov", || Matrix4x4::from_perspective_vfov(d, a, n, f));
    cx.ens_m("degrees mean the same", &mv(&m), &persp_spec(&p));
}
fn vfov_range<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let v = cx.call("Perspective3::vfov", || q.vfov());
    cx.ensures("positive", lt(S::zero(), v.0));
    cx.ensures("below a half turn", lt(v.0, S::pi()));
}
fn corners<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let o = Orthographic3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let one = S::one();
    for (x, sx) in [(-p.l, -one), (p.r, one)] {
        for (y, sy) in [(-p.b, -one), (p.t, one)] {
            for (z, sz) in [(p.n, -one), (p.f, one)] {
                let c = cx.call("Perspective3::project_point", || q.project_point(&Point3::new(x * z / p.n, y * z / p.n, -z)));
                cx.ens_v("corner of the frustum to corner of the clip cube", &pv(&c), &[sx, sy, sz]);
                let c = cx.call("Orthographic3::project_point", || o.project_point(&Point3::new(x, y, -z)));
                cx.ens_v("corner of the view volume to corner of the clip cube", &pv(&c), &[sx, sy, sz]);
            }
        }
    }
}
/// matrix times (v, 1), divided by the last coordinate
fn divide<S: Sc>(m: &M<S>, v: &[S]) -> Vec<S> {
    let h = mvm(m, &hom(v, S::one()));
    (0..3).map(|i| h[i] / h[3]).collect()
}
fn persp_project<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let (x, y, z) = (cx.v("x"), cx.v("y"), cx.nonzero("z"));
    let want = divide(&persp_spec(&p), &[x, y, z]);
    let pt = Point3::new(x, y, z);
    let v = Vector3::new(x, y, z);
    for (nm, got) in [("project_point", q.project_point(&pt)), ("P * p", q * pt), ("P * &p", q * &pt), ("&P * p", &q * pt), ("&P * &p", &q * &pt)] {
        let got = cx.call(&format!("Perspective3: {}", nm), || got);
        cx.ens_v("matrix, then perspective divide", &pv(&got), &want);
    }
    for (nm, got) in [("project_vector", q.project_vector(&v)), ("P * v", q * v), ("P * &v", q * &v), ("&P * v", &q * v), ("&P * &v", &q * &v)] {
        let got = cx.call(&format!("Perspective3: {}", nm), || got);
        cx.ens_v("matrix, then perspective divide", &vv(&got), &want);
    }
    let w = cx.call("Perspective3::unproject_point", || q.unproject_point(&q.project_point(&pt)));
    cx.ens_v("unprojecting undoes projecting", &pv(&w), &[x, y, z]);
    let w = cx.call("Perspective3::unproject_vector", || q.unproject_vector(&q.project_vector(&v)));
    cx.ens_v("unprojecting undoes projecting", &vv(&w), &[x, y, z]);
}
fn persp_unproject<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Perspective3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let (x, y, z) = (cx.v("x"), cx.v("y"), cx.v("z"));
    // the homogeneous coordinate of the view-space point
    cx.requires(ne((p.n - p.f) * z + (p.f + p.n), S::zero()));
    let w = cx.call("Perspective3::unproject_point", || q.unproject_point(&Point3::new(x, y, z)));
    cx.ens_v("projecting undoes unprojecting", &divide(&persp_spec(&p), &pv(&w)), &[x, y, z]);
    let w = cx.call("Perspective3::unproject_vector", || q.unproject_vector(&Vector3::new(x, y, z)));
    cx.ens_v("projecting undoes unprojecting", &divide(&persp_spec(&p), &vv(&w)), &[x, y, z]);
}
fn ortho_project<S: Sc>(cx: &mut Cx<S>) {
    let p = planes(cx);
    let q = Orthographic3::new(p.l, p.r, p.b, p.t, p.n, p.f);
    let pt: Point3<S> = cx.point("p");
    let v: Vector3<S> = cx.vec("v");
    let m = ortho_spec(&p);
    for (nm, got) in [("project_point", q.project_point(&pt)), ("O * p", q * pt), ("O * &p", q * &pt), ("&O * p", &q * pt), ("&O * &p", &q * &pt)] {
        let got = cx.call(&format!("Orthographic3: {}", nm), || got);
        cx.ens_v("affine map", &pv(&got), &mvm(&m, &hom(&pv(&pt), S::one()))[..3].to_vec());
    }
    for (nm, got) in [("project_vector", q.project_vector(&v)), ("O * v", q * v), ("O * &v", q * &v), ("&O * v", &q * v), ("&O * &v", &q * &v)] {
        let got = cx.call(&format!("Orthographic3: {}", nm), || got);
        cx.ens_v("linear part", &vv(&got), &mvm(&m, &hom(&vv(&v), S::zero()))[..3].to_vec());
    }
    let w = cx.call("Orthographic3::unproject_point", || q.unproject_point(&q.project_point(&pt)));
    cx.ens_v("unprojecting undoes projecting", &pv(&w), &pv(&pt));
    let w = cx.call("Orthographic3::unproject_vector", || q.unproject_vector(&q.project_vector(&v)));
    cx.ens_v("unprojecting undoes projecting", &vv(&w), &vv(&v));
    let w = cx.call("Orthographic3::unproject_point", || q.unproject_point(&pt));
    cx.ens_v("projecting undoes unprojecting", &mvm(&m, &hom(&pv(&w), S::one()))[..3].to_vec(), &pv(&pt));
    let w = cx.call("Orthographic3::unproject_vector", || q.unproject_vector(&v));
    cx.ens_v("projecting undoes unprojecting", &mvm(&m, &hom(&vv(&w), S::zero()))[..3].to_vec(), &vv(&v));
}

pub fn all() -> Vec<Contract> {
    crate::contracts![
        matrices, frame, persp_accessors, persp_vfov_accessor, vfov_range, ortho_accessors, vfov, corners,
        persp_project, persp_unproject, ortho_project,
    ]
}
