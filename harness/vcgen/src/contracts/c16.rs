//! C16: generic transforms.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

macro_rules! forms {
    ($a:expr, $b:expr) => {
        [$a * $b, $a * &$b, &$a * $b, &$a * &$b]
    };
}
macro_rules! dim {
    ($md:ident $pre:literal $n:literal $n1:literal $T:ident) => {
mod $md {
    use super::*;
    type T<S> = $T<S>;
    fn made<S: Sc>(cx: &mut Cx<S>, name: &str) -> (T<S>, M<S>) {
        let m: Matrix<S, $n1, $n1> = cx.mat(name);
        (cx.call("Transform::from_matrix_unchecked", || T::from_matrix_unchecked(m)), mv(&m))
    }
    /// homogeneous image, divided
    fn image<S: Sc>(m: &M<S>, p: &[S]) -> (Vec<S>, S) {
        let h = mvm(m, &hom(p, S::one()));
        (h[..$n].to_vec(), h[$n])
    }
    pub fn matrix<S: Sc>(cx: &mut Cx<S>) {
        let (t, m) = made(cx, "m");
        let g = cx.call("Transform::matrix, matrix_mut, to_matrix, as_ref, From", || {
            let mut u = t;
            let r: &Matrix<S, $n1, $n1> = t.as_ref();
            [*t.matrix(), *u.matrix_mut(), t.to_matrix(), *r, Matrix::from(t), Matrix::from(&t)]
        });
        for h in &g {
            cx.ens_m("the matrix it was made from", &mv(h), &m);
        }
        let k = cx.v("k");
        for r in 0..$n1 {
            for c in 0..$n1 {
                let mut u = t;
                cx.call("Transform::matrix_mut", || u.matrix_mut()[c][r] = k);
                let mut w = m.clone();
                w[r][c] = k;
                cx.ens_m("writes through", &mv(u.matrix()), &w);
            }
        }
        let i = cx.call("Transform::identity", || T::<S>::identity());
        cx.ens_m("identity", &mv(i.matrix()), &ident($n1));
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Transform::identity applied", || (i.apply_vector(&v), i.apply_point(&p)));
        cx.ens_v("moves no vector", &vv(&g.0), &vv(&v));
        cx.ens_v("moves no point", &pv(&g.1), &pv(&p));
    }
    pub fn apply<S: Sc>(cx: &mut Cx<S>) {
        let (t, m) = made(cx, "m");
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Transform::apply_vector, Transform * Vector", || [t.apply_vector(&v), t * v, t * &v, &t * v, &t * &v]);
        let w = mvm(&m, &hom(&vv(&v), S::zero()));
        for h in &g {
            cx.ens_v("the matrix times (v, 0)", &vv(h), &w[..$n]);
        }
        let (x, w) = image(&m, &pv(&p));
        cx.requires(ne(w, S::zero()));
        let g = cx.call("Transform::apply_point, Transform * Point", || [t.apply_point(&p), t * p, t * &p, &t * p, &t * &p]);
        for h in &g {
            cx.ens_v("the matrix times (p, 1), divided by w", &vscale(&pv(h), w), &x);
        }
    }
    /// a point sent to infinity has no image
    pub fn at_infinity<S: Sc>(cx: &mut Cx<S>) {
        let mut m: Matrix<S, $n1, $n1> = cx.mat("m");
        let p: Point<S, $n> = cx.point("p");
        // the corner entry that sends p to w = 0
        let s = dot(&mv(&m)[$n][..$n], &pv(&p));
        m[$n][$n] = -s;
        let t = T::from_matrix_unchecked(m);
        cx.must_panic("Transform::apply_point", || t.apply_point(&p));
    }
    pub fn mul<S: Sc>(cx: &mut Cx<S>) {
        let (a, l) = made(cx, "a");
        let (b, m) = made(cx, "b");
        let g = cx.call("Transform * Transform", || forms!(a, b));
        for h in &g {
            cx.ens_m("product of the matrices", &mv(h.matrix()), &mm(&l, &m));
        }
        // one after the other, in homogeneous coordinates
        let p: Point<S, $n> = cx.point("p");
        let h = mvm(&m, &hom(&pv(&p), S::one()));
        cx.requires(ne(h[$n], S::zero()));
        let k = mvm(&l, &h);
        cx.requires(ne(k[$n], S::zero()));
        let g = cx.call("composition", || [(a * b).apply_point(&p), a.apply_point(&b.apply_point(&p))]);
        for e in &g {
            cx.ens_v("one after the other", &vscale(&pv(e), k[$n]), &k[..$n]);
        }
    }
    pub fn inverse<S: Sc>(cx: &mut Cx<S>) {
        let (t, m) = made(cx, "m");
        let v: Vector<S, $n> = cx.vec("v");
        let r = cx.call("Transform::try_inverse", || t.try_inverse());
        cx.agrees("exists exactly when the determinant is not zero", r.is_some(), ne(det(&m), S::zero()));
        let u = cx.call("Transform::inverse_apply_vector", || t.inverse_apply_vector(&v));
        cx.agrees("exists exactly when the determinant is not zero", u.is_some(), ne(det(&m), S::zero()));
        if let Some(i) = r {
            cx.ens_m("after the transform: identity", &mm(&mv(i.matrix()), &m), &ident($n1));
            cx.ens_m("before the transform: identity", &mm(&m, &mv(i.matrix())), &ident($n1));
            let j = cx.call("Transform::inverse", || t.inverse());
            cx.ens_m("inverse = try_inverse", &mv(j.matrix()), &mv(i.matrix()));
            let w = mvm(&mv(i.matrix()), &hom(&vv(&v), S::zero()));
            if let Some(u) = u {
                cx.ens_v("the inverse matrix times (v, 0)", &vv(&u), &w[..$n]);
            }
        }
    }
    pub fn inverse_point<S: Sc>(cx: &mut Cx<S>) {
        let (t, m) = made(cx, "m");
        let p: Point<S, $n> = cx.point("p");
        cx.requires(ne(det(&m), S::zero()));
        let (_, w) = image(&m, &pv(&p));
        cx.requires(ne(w, S::zero()));
        let q = cx.call("Transform::apply_point", || t.apply_point(&p));
        match cx.call("Transform::inverse_apply_point", || t.inverse_apply_point(&q)) {
            None => cx.ensures("invertible", is(false)),
            Some(r) => cx.ens_v("undone", &pv(&r), &pv(&p)),
        }
    }
    pub fn singular<S: Sc>(cx: &mut Cx<S>) {
        let mut m: Matrix<S, $n1, $n1> = cx.mat("m");
        if !S::SYMBOLIC {
            for c in 0..$n1 {
                m[c][0] = S::zero();
            }
        }
        cx.requires(eq(det(&mv(&m)), S::zero()));
        let t = T::from_matrix_unchecked(m);
        let p: Point<S, $n> = cx.point("p");
        let v: Vector<S, $n> = cx.vec("v");
        let r = cx.call("Transform::try_inverse, inverse_apply_*", || [t.try_inverse().is_none(), t.inverse_apply_point(&p).is_none(), t.inverse_apply_vector(&v).is_none()]);
        cx.ensures("no inverse", is(r[0] && r[1] && r[2]));
        cx.must_panic("Transform::inverse", || t.inverse());
    }
    /// for an affine matrix the inverse undoes the action on vectors too
    pub fn affine_inverse<S: Sc>(cx: &mut Cx<S>) {
        let l: Matrix<S, $n, $n> = cx.mat("l");
        let d: Vector<S, $n> = cx.vec("d");
        let w = affine(&mv(&l), &vv(&d));
        cx.requires(ne(det(&mv(&l)), S::zero()));
        let t = T::from_matrix_unchecked(to_mat(&w));
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Transform::inverse_apply_vector", || (t.inverse_apply_vector(&t.apply_vector(&v)), t.apply_vector(&v)));
        match g.0 {
            None => cx.ensures("invertible", is(false)),
            Some(r) => cx.ens_v("undone", &vv(&r), &vv(&v)),
        }
        cx.ens_v("linear part", &vv(&g.1), &mvm(&mv(&l), &vv(&v)));
        let g = cx.call("Transform::inverse_apply_point", || (t.inverse_apply_point(&t.apply_point(&p)), t.apply_point(&p)));
        match g.0 {
            None => cx.ensures("invertible", is(false)),
            Some(r) => cx.ens_v("undone", &pv(&r), &pv(&p)),
        }
        cx.ens_v("linear part, then displacement", &pv(&g.1), &vadd(&mvm(&mv(&l), &pv(&p)), &vv(&d)));
    }
    pub fn all() -> Vec<Contract> {
        crate::contracts![$pre; matrix, apply, at_infinity, mul, inverse, inverse_point, singular, affine_inverse]
    }
}
    };
}
dim!(d2 "d2_" 2 3 Transform2);
dim!(d3 "d3_" 3 4 Transform3);

/// a transform made from a specific transformation acts as that transformation
macro_rules! same {
    ($cx:ident $n:literal $ty:literal $t:expr) => {{
        let t = $t;
        let v: Vector<S, $n> = $cx.vec("v");
        let p: Point<S, $n> = $cx.point("p");
        let g = $cx.call(concat!($ty, "::to_transform"), || {
            let u = t.to_transform();
            (u.apply_point(&p), t.apply_point(&p), u.apply_vector(&v), t.apply_vector(&v))
        });
        $cx.ens_v("same action on points", &pv(&g.0), &pv(&g.1));
        $cx.ens_v("same action on vectors", &vv(&g.2), &vv(&g.3));
    }};
}
macro_rules! specific {
    ($f:ident $g:ident $n:literal $rot:expr) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let r = ($rot)(cx);
            let d: Vector<S, $n> = cx.vec("d");
            let k = cx.v("k");
            let t = Translation::from_vector(&d);
            same!(cx $n "Rotation" r);
            same!(cx $n "Translation" t);
            same!(cx $n "Scale" Scale::from_nonuniform_scale(&d));
            same!(cx $n "Isometry" Isometry::from_parts(&t, &r));
            same!(cx $n "Similarity" Similarity::from_parts(&t, &r, k));
        }
        fn $g<S: Sc>(cx: &mut Cx<S>) {
            let (x, _) = cx.unit::<$n>("x");
            let (n, _) = cx.unit::<$n>("n");
            let b: Point<S, $n> = cx.point("b");
            let k = cx.v("k");
            same!(cx $n "Reflection" Reflection::from_normal_bias(&n, &b));
            same!(cx $n "Shear" Shear::from_shear(k, &x, &n));
            let s = Shear::from_affine_shear(k, &b, &x, &n);
            let p: Point<S, $n> = cx.point("p");
            let g = cx.call("Shear::to_transform", || (s.to_transform().apply_point(&p), s.apply_point(&p)));
            cx.ens_v("same action on points", &pv(&g.0), &pv(&g.1));
        }
    };
}
fn rot_2<S: Sc>(cx: &mut Cx<S>) -> Rotation2<S> {
    let t = cx.angle("t");
    Rotation2::from_angle(Radians(t))
}
fn rot_3<S: Sc>(cx: &mut Cx<S>) -> Rotation3<S> {
    let q = S::unit_vec(cx, "q", 4);
    Rotation3::from_quaternion(&Quaternion::new(q[0], q[1], q[2], q[3]))
}
specific!(specific2 mirrors2 2 rot_2);
specific!(specific3 mirrors3 3 rot_3);
fn projections<S: Sc>(cx: &mut Cx<S>) {
    let v = cx.vs("b", 6);
    cx.requires(ne(v[0] + v[1], S::zero()));
    cx.requires(ne(v[2] + v[3], S::zero()));
    cx.requires(and(vec![lt(S::zero(), v[4]), lt(v[4], v[5])]));
    let p: Point3<S> = cx.point("p");
    cx.requires(ne(p[2], S::zero()));
    let a = Perspective3::new(v[0], v[1], v[2], v[3], v[4], v[5]);
    let o = Orthographic3::new(v[0], v[1], v[2], v[3], v[4], v[5]);
    let g = cx.call("{Perspective3,Orthographic3}::to_transform", || [(a.to_transform().apply_point(&p), a.project_point(&p)), (o.to_transform().apply_point(&p), o.project_point(&p))]);
    for (x, y) in &g {
        cx.ens_v("same action on points", &pv(x), &pv(y));
    }
}
pub fn all() -> Vec<Contract> {
    let mut v = d2::all();
    v.extend(d3::all());
    v.extend(crate::contracts![specific2, mirrors2, specific3, mirrors3, projections]);
    v
}
