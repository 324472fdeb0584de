//! C06: matrices built from geometric data.
use crate::sc::*;
use crate::spec::*;
use crate::term::F;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_trigonometry::*;

fn scale_n<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let k = cx.v("k");
    let v: Vector<S, N> = cx.vec("v");
    let m = cx.call("Matrix::from_scale", || Matrix::<S, N, N>::from_scale(k));
    cx.ens_m("k on the diagonal", &mv(&m), &mscale(&ident(N), k));
    let m = cx.call("Matrix::from_nonuniform_scale", || Matrix::<S, N, N>::from_nonuniform_scale(&v));
    let w: M<S> = (0..N).map(|r| (0..N).map(|c| if r == c { v[r] } else { S::zero() }).collect()).collect();
    cx.ens_m("factors on the diagonal", &mv(&m), &w);
    let m = cx.call("Matrix::from_affine_scale", || Matrix::<S, N, N>::from_affine_scale(k));
    let mut w = mscale(&ident(N), k);
    w[N - 1][N - 1] = S::one();
    cx.ens_m("k on the diagonal except the last entry", &mv(&m), &w);
}
macro_rules! affine_scale {
    ($f:ident $t:ident $v:ident $n:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let v: $v<S> = cx.vec("v");
            let m = cx.call("Matrix::from_affine_nonuniform_scale", || <$t<S>>::from_affine_nonuniform_scale(&v));
            let mut w = ident::<S>($n + 1);
            for i in 0..$n {
                w[i][i] = v[i];
            }
            cx.ens_m("factors on the diagonal, 1 last", &mv(&m), &w);
            let m = cx.call("Matrix::from_affine_translation", || <$t<S>>::from_affine_translation(&v));
            cx.ens_m("identity plus the displacement column", &mv(&m), &affine(&ident($n), &vv(&v)));
            let a: $t<S> = cx.mat("a");
            let l = cx.call("From<smaller matrix>", || <$t<S>>::from(&Matrix::<S, $n, $n>::identity()));
            cx.ens_m("embedding of the identity is the identity", &mv(&l), &ident($n + 1));
            let _ = a;
        }
    };
}
affine_scale!(affine_scale2 Matrix2x2 Vector1 1);
affine_scale!(affine_scale3 Matrix3x3 Vector2 2);
affine_scale!(affine_scale4 Matrix4x4 Vector3 3);

/// x -> x + k (n . (x - o)) d as a matrix
fn shear_spec<S: Sc>(k: S, d: &[S], n: &[S]) -> M<S> {
    madd(&ident(d.len()), &mscale(&outer(d, n), k))
}
macro_rules! axis_shears {
    ($f:ident $site:literal $t:ident $n:literal $aff:literal : $($m:ident $d:literal $k:literal;)*) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let k = cx.v("k");
            $(
                let m = cx.call(concat!($site, "::", stringify!($m)), || <$t<S>>::$m(k));
                let mut w = shear_spec(k, &basis::<S>($n, $d), &basis::<S>($n, $k));
                if $aff {
                    w = affine(&w, &vec![S::zero(); $n]);
                }
                cx.ens_m("1 + k d n^T", &mv(&m), &w);
            )*
        }
    };
}
axis_shears!(axis_shears2 "Matrix2x2" Matrix2x2 2 false: from_shear_xy 0 1; from_shear_yx 1 0;);
axis_shears!(axis_shears3 "Matrix3x3" Matrix3x3 3 false: from_shear_xy 0 1; from_shear_xz 0 2; from_shear_yx 1 0; from_shear_yz 1 2; from_shear_zx 2 0; from_shear_zy 2 1;);
axis_shears!(axis_shears3a "Matrix3x3" Matrix3x3 2 true: from_affine_shear_xy 0 1; from_affine_shear_yx 1 0;);
axis_shears!(axis_shears4 "Matrix4x4" Matrix4x4 3 true: from_affine_shear_xy 0 1; from_affine_shear_xz 0 2; from_affine_shear_yx 1 0; from_affine_shear_yz 1 2; from_affine_shear_zx 2 0; from_affine_shear_zy 2 1;);

macro_rules! shear {
    ($f:ident $lin:ident $aff:ident $n:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let k = cx.v("k");
            let (d, dv) = cx.unit::<$n>("d");
            let (n, nv) = cx.unit::<$n>("n");
            let m = cx.call(concat!(stringify!($lin), "::from_shear"), || <$lin<S>>::from_shear(k, &d, &n));
            cx.ens_m("1 + k d n^T", &mv(&m), &shear_spec(k, &dv, &nv));
            let o: Point<S, $n> = cx.point("o");
            let m = cx.call(concat!(stringify!($aff), "::from_affine_shear"), || <$aff<S>>::from_affine_shear(k, &o, &d, &n));
            cx.ens_m("x + k (n.(x - o)) d", &mv(&m), &affine(&shear_spec(k, &dv, &nv), &vscale(&dv, -k * dot(&nv, &pv(&o)))));
            let m = cx.call(concat!(stringify!($lin), "::from_reflection"), || <$lin<S>>::from_reflection(&n));
            let refl = madd(&ident($n), &mscale(&outer(&nv, &nv), int(-2)));
            cx.ens_m("1 - 2 n n^T", &mv(&m), &refl);
            cx.ens_m("reflection is an involution", &mm(&mv(&m), &mv(&m)), &ident($n));
            cx.ens("reflection reverses orientation", det(&mv(&m)), int(-1));
            let m = cx.call(concat!(stringify!($aff), "::from_affine_reflection"), || <$aff<S>>::from_affine_reflection(&n, &o));
            cx.ens_m("x - 2 (n.(x - b)) n", &mv(&m), &affine(&refl, &vscale(&nv, int::<S>(2) * dot(&nv, &pv(&o)))));
            cx.ens_v("points of the mirror are fixed", &mvm(&mv(&m), &hom(&pv(&o), S::one())), &hom(&pv(&o), S::one()));
        }
    };
}
shear!(shear2 Matrix2x2 Matrix3x3 2);
shear!(shear3 Matrix3x3 Matrix4x4 3);

fn cross_matrix<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let m = cx.call("Matrix3x3::cross_matrix", || Matrix3x3::cross_matrix(&a));
    cx.ens_v("cross_matrix(a) b = a x b", &mvm(&mv(&m), &vv(&b)), &cross(&vv(&a), &vv(&b)));
}
fn rotations<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.angle("a");
    let (c, s) = (a.cos(), a.sin());
    let z3 = vec![S::zero(); 3];
    let m = cx.call("Matrix2x2::from_angle", || Matrix2x2::from_angle(Radians(a)));
    cx.ens_m("counterclockwise rotation", &mv(&m), &rot2(c, s));
    let m = cx.call("Matrix3x3::from_affine_angle", || Matrix3x3::from_affine_angle(Radians(a)));
    cx.ens_m("affine counterclockwise rotation", &mv(&m), &affine(&rot2(c, s), &[S::zero(), S::zero()]));
    let r = cx.call("Matrix3x3::from_angle_{x,y,z}", || [Matrix3x3::from_angle_x(Radians(a)), Matrix3x3::from_angle_y(Radians(a)), Matrix3x3::from_angle_z(Radians(a))]);
    for i in 0..3 {
        cx.ens_m("right-handed rotation about the axis", &mv(&r[i]), &rot_axis(&basis::<S>(3, i), c, s));
    }
    let r = cx.call("Matrix4x4::from_affine_angle_{x,y,z}", || {
        [Matrix4x4::from_affine_angle_x(Radians(a)), Matrix4x4::from_affine_angle_y(Radians(a)), Matrix4x4::from_affine_angle_z(Radians(a))]
    });
    for i in 0..3 {
        cx.ens_m("right-handed rotation about the axis", &mv(&r[i]), &affine(&rot_axis(&basis::<S>(3, i), c, s), &z3));
    }
    let (k, kv) = cx.unit::<3>("k");
    let m = cx.call("Matrix3x3::from_axis_angle", || Matrix3x3::from_axis_angle(&k, Radians(a)));
    cx.ens_m("Rodrigues", &mv(&m), &rot_axis(&kv, c, s));
    cx.ensures("proper rotation", is_rotation(&mv(&m)));
    let m = cx.call("Matrix4x4::from_affine_axis_angle", || Matrix4x4::from_affine_axis_angle(&k, Radians(a)));
    cx.ens_m("Rodrigues", &mv(&m), &affine(&rot_axis(&kv, c, s), &z3));
}
/// degrees and radians give the same matrices
fn rotations_deg<S: Sc>(cx: &mut Cx<S>) {
    let d = cx.angle("a");
    let r = d * S::pi() / int(180);
    let (c, s) = (r.cos(), r.sin());
    let z3 = vec![S::zero(); 3];
    let (k, kv) = cx.unit::<3>("k");
    let m = cx.call("Matrix2x2::from_angle", || Matrix2x2::from_angle(Degrees(d)));
    cx.ens_m("degrees", &mv(&m), &rot2(c, s));
    let m = cx.call("Matrix3x3::from_axis_angle", || Matrix3x3::from_axis_angle(&k, Degrees(d)));
    cx.ens_m("degrees", &mv(&m), &rot_axis(&kv, c, s));
    let m = cx.call("Matrix4x4::from_affine_axis_angle", || Matrix4x4::from_affine_axis_angle(&k, Degrees(d)));
    cx.ens_m("degrees", &mv(&m), &affine(&rot_axis(&kv, c, s), &z3));
    let m = cx.call("Matrix4x4::from_affine_angle_x", || Matrix4x4::from_affine_angle_x(Degrees(d)));
    cx.ens_m("degrees", &mv(&m), &affine(&rot_axis(&basis::<S>(3, 0), c, s), &z3));
}

fn frame<S: Sc>(cx: &mut Cx<S>, m: &M<S>, d: &[S], up: &[S], dir: i64) {
    let n = dot(d, d).sqrt();
    cx.ensures("proper rotation", is_rotation(m));
    cx.ens_v("the viewing direction maps to the z-axis", &mvm(m, d), &[S::zero(), S::zero(), n * int(dir)]);
    let u = mvm(m, up);
    cx.ens("up has no sideways component", u[0], S::zero());
    cx.ensures("up points up", lt(S::zero(), u[1]));
}
macro_rules! look_to3 {
    ($f:ident $g:ident $to:ident $to_inv:ident $at:ident $at_inv:ident $dir:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vector3<S> = cx.vec("d");
            let up: Vector3<S> = cx.vec("u");
            nondeg(cx, &vv(&d), &vv(&up));
            let m = cx.call(concat!("Matrix3x3::", stringify!($to)), || Matrix3x3::$to(&d, &up));
            frame(cx, &mv(&m), &vv(&d), &vv(&up), $dir);
            cx.ens_m("the frame (up x z, z x (up x z), z)", &mv(&m), &view(&vv(&d), &vv(&up), $dir));
            let i = cx.call(concat!("Matrix3x3::", stringify!($to_inv)), || Matrix3x3::$to_inv(&d, &up));
            cx.ens_m("transpose of the forward rotation", &mv(&i), &tr(&mv(&m)));
            let e: Point3<S> = cx.point("e");
            let t = e + d;
            let a = cx.call(concat!("Matrix3x3::", stringify!($at)), || Matrix3x3::$at(&e, &t, &up));
            cx.ens_m("look_at = look_to(target - eye)", &mv(&a), &mv(&m));
            let a = cx.call(concat!("Matrix3x3::", stringify!($at_inv)), || Matrix3x3::$at_inv(&e, &t, &up));
            cx.ens_m("inverse of look_at", &mv(&a), &tr(&mv(&m)));
        }
        fn $g<S: Sc>(cx: &mut Cx<S>) {
            let d: Vector3<S> = cx.vec("d");
            let up: Vector3<S> = cx.vec("u");
            nondeg(cx, &vv(&d), &vv(&up));
            let e: Point3<S> = cx.point("e");
            let l = view(&vv(&d), &vv(&up), $dir);
            let m = cx.call(concat!("Matrix4x4::", stringify!($to)), || Matrix4x4::$to(&e, &d, &up));
            cx.ens_m("rotation after moving eye to the origin", &mv(&m), &affine(&l, &vneg(&mvm(&l, &pv(&e)))));
            let i = cx.call(concat!("Matrix4x4::", stringify!($to_inv)), || Matrix4x4::$to_inv(&e, &d, &up));
            let g = mv(&i);
            cx.ens_m("back-rotation", &block(&g, 3), &tr(&l));
            cx.ens_v("affine", &g[3], &hom(&[S::zero(), S::zero(), S::zero()], S::one()));
            let col: Vec<S> = (0..3).map(|r| g[r][3]).collect();
            cx.ensures_known("origin goes to eye", all_eq(&col, &pv(&e)), concat!("C06-", stringify!($to_inv)), all_eq(&col, &mvm(&l, &pv(&e))));
            let t = e + d;
            let a = cx.call(concat!("Matrix4x4::", stringify!($at)), || Matrix4x4::$at(&e, &t, &up));
            cx.ens_m("look_at = look_to(target - eye)", &mv(&a), &mv(&m));
            let a = cx.call(concat!("Matrix4x4::", stringify!($at_inv)), || Matrix4x4::$at_inv(&e, &t, &up));
            cx.ens_m("look_at_inv = look_to_inv(target - eye)", &mv(&a), &mv(&i));
        }
    };
}
look_to3!(look3_lh look4_lh look_to_lh look_to_lh_inv look_at_lh look_at_lh_inv 1);
look_to3!(look3_rh look4_rh look_to_rh look_to_rh_inv look_at_rh look_at_rh_inv -1);

fn between2<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector2<S> = cx.vec("a");
    let b: Vector2<S> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    cx.requires(lt(S::zero(), dot(&x, &x)));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let m = cx.call("Matrix2x2::rotation_between", || Matrix2x2::rotation_between(&a, &b));
    cx.ensures("proper rotation", is_rotation(&mv(&m)));
    let (p, q) = (dot(&x, &x).sqrt(), dot(&y, &y).sqrt());
    cx.ens_v("turns the direction of v1 into that of v2", &vscale(&mvm(&mv(&m), &x), q), &vscale(&y, p));
}
fn between_zero<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector2<S> = cx.vec("a");
    let z = Vector2::zero();
    let r = cx.call("Matrix2x2::rotation_between", || [Matrix2x2::rotation_between(&a, &z), Matrix2x2::rotation_between(&z, &a)]);
    for m in &r {
        cx.ens_m("identity for a zero vector", &mv(m), &ident(2));
    }
    let a: Vector3<S> = cx.vec("b");
    let z = Vector3::zero();
    let r = cx.call("Matrix3x3::rotation_between", || [Matrix3x3::rotation_between(&a, &z), Matrix3x3::rotation_between(&z, &a)]);
    for m in &r {
        match m {
            Some(m) => cx.ens_m("identity for a zero vector", &mv(m), &ident(3)),
            None => cx.ensures("identity for a zero vector", is(false)),
        }
    }
}
fn between2_axis<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = cx.unit::<2>("a");
    let (b, y) = cx.unit::<2>("b");
    let m = cx.call("Matrix2x2::rotation_between_axis", || Matrix2x2::rotation_between_axis(&a, &b));
    cx.ensures("proper rotation", is_rotation(&mv(&m)));
    cx.ens_v("turns v1 into v2", &mvm(&mv(&m), &x), &y);
}
fn between3_axis<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = cx.unit::<3>("a");
    let (b, y) = cx.unit::<3>("b");
    let m = cx.call("Matrix3x3::rotation_between_axis", || Matrix3x3::rotation_between_axis(&a, &b));
    between3(cx, m, &x, &y);
}
fn between3<S: Sc>(cx: &mut Cx<S>, m: Option<Matrix3x3<S>>, x: &[S], y: &[S]) {
    let w = cross(x, y);
    let w2 = dot(&w, &w);
    let wide = lt(S::eps() * S::eps(), w2);
    match m {
        Some(m) => {
            cx.ensures("proper rotation", is_rotation(&mv(&m)));
            let t = mvm(&mv(&m), x);
            for i in 0..3 {
                cx.ensures("turns v1 into v2 when they are not parallel", imp(wide.clone(), eq(t[i], y[i])));
            }
            cx.ensures("identity when they are parallel", or(vec![wide, meq(&mv(&m), &ident(3))]));
        }
        None => cx.ensures("None only for opposite directions", and(vec![nt(wide), lt(dot(x, y), S::zero())])),
    }
}
fn between3_vec<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    cx.requires(lt(S::zero(), dot(&x, &x)));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let m = cx.call("Matrix3x3::rotation_between", || Matrix3x3::rotation_between(&a, &b));
    let (p, q) = (dot(&x, &x).sqrt(), dot(&y, &y).sqrt());
    let xu: Vec<S> = x.iter().map(|e| *e / p).collect();
    let yu: Vec<S> = y.iter().map(|e| *e / q).collect();
    between3(cx, m, &xu, &yu);
}
fn embed<S: Sc>(cx: &mut Cx<S>) {
    let m: Matrix3x3<S> = cx.mat("m");
    let n: Matrix2x2<S> = cx.mat("n");
    let r = cx.call("Matrix4x4::from(Matrix3x3)", || [Matrix4x4::from(m), Matrix4x4::from(&m)]);
    for x in &r {
        cx.ens_m("embedded in the upper left, identity elsewhere", &mv(x), &affine(&mv(&m), &vec![S::zero(); 3]));
    }
    let r = cx.call("Matrix3x3::from(Matrix2x2)", || [Matrix3x3::from(n), Matrix3x3::from(&n)]);
    for x in &r {
        cx.ens_m("embedded in the upper left, identity elsewhere", &mv(x), &affine(&mv(&n), &vec![S::zero(); 2]));
    }
    let r = cx.call("Matrix4x4::from(Matrix2x2)", || [Matrix4x4::from(n), Matrix4x4::from(&n)]);
    let w = affine(&affine(&mv(&n), &vec![S::zero(); 2]), &vec![S::zero(); 3]);
    for x in &r {
        cx.ens_m("embedded in the upper left, identity elsewhere", &mv(x), &w);
    }
}
pub fn all() -> Vec<Contract> {
    let _: Option<F<f64>> = None;
    let mut v = crate::contracts![
        scale_n::<1>, scale_n::<2>, scale_n::<3>, scale_n::<4>, affine_scale2, affine_scale3, affine_scale4,
        axis_shears2, axis_shears3, axis_shears3a, axis_shears4, shear2, shear3, cross_matrix, rotations, rotations_deg,
        look3_lh, look3_rh, look4_lh, look4_rh, between2, between2_axis, between_zero, between3_axis, between3_vec, embed,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole scale_n::<2>, scale_n::<3>, affine_scale2, affine_scale3, affine_scale4, axis_shears2, axis_shears3, axis_shears3a, axis_shears4, cross_matrix]);
    v
}
