//! C14: rotations, isometries and similarities.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

macro_rules! forms {
    ($a:expr, $b:expr) => {
        [$a * $b, $a * &$b, &$a * $b, &$a * &$b]
    };
}
/// any proper rotation of the plane
fn rotation2<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Rotation2<S>, M<S>) {
    let t = cx.angle(name);
    let r = cx.call("Rotation2::from_angle", || Rotation2::from_angle(Radians(t)));
    (r, rot2(t.cos(), t.sin()))
}
/// any proper rotation of space: the matrix of a unit quaternion
fn rotation3<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Rotation3<S>, M<S>) {
    let q = S::unit_vec(cx, name, 4);
    let r = cx.call("Rotation3::from_quaternion", || Rotation3::from_quaternion(&Quaternion::new(q[0], q[1], q[2], q[3])));
    (r, qmat(&q))
}
/// the squared length of a difference
fn dist2<S: Sc>(a: &[S], b: &[S]) -> S {
    let d = vsub(a, b);
    dot(&d, &d)
}

macro_rules! dim {
    ($md:ident $pre:literal $n:literal $n1:literal $rot:ident) => {
mod $md {
    use super::*;
    type Iso<S> = Isometry<S, $n>;
    type Sim<S> = Similarity<S, $n>;

    fn translation<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Translation<S, $n>, Vec<S>) {
        let v: Vector<S, $n> = cx.vec(name);
        (cx.call("Translation::from_vector", || Translation::from_vector(&v)), vv(&v))
    }
    fn isometry<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Iso<S>, M<S>, Vec<S>) {
        let (r, l) = $rot(cx, name);
        let (t, d) = translation(cx, &format!("{}t", name));
        (cx.call("Isometry::from_parts", || Isometry::from_parts(&t, &r)), l, d)
    }
    fn similarity<S: Sc>(cx: &mut Cx<S>, name: &str) -> (Sim<S>, M<S>, Vec<S>, S) {
        let (r, l) = $rot(cx, name);
        let (t, d) = translation(cx, &format!("{}t", name));
        let k = cx.nonzero(&format!("{}k", name));
        (cx.call("Similarity::from_parts", || Similarity::from_parts(&t, &r, k)), l, d, k)
    }

    // ---- rotations
    pub fn rotation_matrix<S: Sc>(cx: &mut Cx<S>) {
        let (r, l) = $rot(cx, "a");
        cx.ensures("proper rotation", is_rotation(&l));
        let ms = cx.call("Rotation::matrix, to_matrix, as_ref", || { let m: &Matrix<S, $n, $n> = r.as_ref(); [*r.matrix(), r.to_matrix(), *m] });
        for m in &ms {
            cx.ens_m("the rotation's matrix", &mv(m), &l);
        }
        let z = vec![S::zero(); $n];
        let ms = cx.call("Rotation::to_affine_matrix, From, to_transform", || {
            [r.to_affine_matrix(), Matrix::<S, $n1, $n1>::from(r), Matrix::<S, $n1, $n1>::from(&r), *r.to_transform().matrix()]
        });
        for m in &ms {
            cx.ens_m("homogeneous matrix", &mv(m), &affine(&l, &z));
        }
        let i = cx.call("Rotation::identity", || Rotation::<S, $n>::identity());
        cx.ens_m("identity", &mv(i.matrix()), &ident($n));
    }
    pub fn rotation_apply<S: Sc>(cx: &mut Cx<S>) {
        let (r, l) = $rot(cx, "a");
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let x = vv(&v);
        let w = mvm(&l, &x);
        let g = cx.call("Rotation::apply_vector, Rotation * Vector", || [r.apply_vector(&v), r * v, r * &v, &r * v, &r * &v]);
        for h in &g {
            cx.ens_v("the matrix times the vector", &vv(h), &w);
        }
        cx.ens("length preserved", dot(&vv(&g[0]), &vv(&g[0])), dot(&x, &x));
        let g = cx.call("Rotation::apply_point, Rotation * Point", || [r.apply_point(&p), r * p, r * &p, &r * p, &r * &p]);
        for h in &g {
            cx.ens_v("the matrix times the point", &pv(h), &mvm(&l, &pv(&p)));
        }
        let u: Vector<S, $n> = cx.vec("u");
        let s = cx.call("Rotation::apply_vector", || r.apply_vector(&u));
        cx.ens("angles preserved", dot(&vv(&s), &w), dot(&vv(&u), &x));
    }
    pub fn rotation_inverse<S: Sc>(cx: &mut Cx<S>) {
        let (r, l) = $rot(cx, "a");
        let i = cx.call("Rotation::inverse", || r.inverse());
        let mut j = r;
        cx.call("Rotation::inverse_mut", || j.inverse_mut());
        for k in [i, j] {
            cx.ens_m("transpose", &mv(k.matrix()), &tr(&l));
            cx.ens_m("inverse after the rotation is the identity", &mm(&mv(k.matrix()), &l), &ident($n));
            cx.ens_m("the rotation after its inverse is the identity", &mm(&l, &mv(k.matrix())), &ident($n));
        }
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Rotation::inverse_apply_vector", || [r.inverse_apply_vector(&r.apply_vector(&v)), r.apply_vector(&r.inverse_apply_vector(&v)), r.inverse().apply_vector(&(r * v))]);
        for h in &g {
            cx.ens_v("undone", &vv(h), &vv(&v));
        }
        let g = cx.call("Rotation::inverse_apply_point", || [r.inverse_apply_point(&r.apply_point(&p)), r.apply_point(&r.inverse_apply_point(&p)), r.inverse().apply_point(&(r * p))]);
        for h in &g {
            cx.ens_v("undone", &pv(h), &pv(&p));
        }
    }
    pub fn rotation_mul<S: Sc>(cx: &mut Cx<S>) {
        let (a, l) = $rot(cx, "a");
        let (b, m) = $rot(cx, "b");
        let g = cx.call("Rotation * Rotation", || forms!(a, b));
        for h in &g {
            cx.ens_m("product of the matrices", &mv(h.matrix()), &mm(&l, &m));
        }
        cx.ensures("proper rotation", is_rotation(&mv(g[0].matrix())));
        let v: Vector<S, $n> = cx.vec("v");
        let c = cx.call("composition", || (a * b).apply_vector(&v));
        cx.ens_v("one after the other", &vv(&c), &mvm(&l, &mvm(&m, &vv(&v))));
    }

    // ---- isometries
    /// what an isometry value says about itself
    fn is_iso<S: Sc>(cx: &mut Cx<S>, name: &str, i: &Iso<S>, l: &M<S>, t: &[S]) {
        cx.ens_m(&format!("{}: rotation part", name), &mv(i.rotation().matrix()), l);
        cx.ens_v(&format!("{}: translation part", name), &vv(i.translation().vector()), t);
    }
    pub fn isometry_parts<S: Sc>(cx: &mut Cx<S>) {
        let (i, l, t) = isometry(cx, "a");
        is_iso(cx, "from_parts", &i, &l, &t);
        let (r, d) = (*i.rotation(), *i.translation());
        let z = vec![S::zero(); $n];
        let e = cx.call("Isometry::from_translation", || Isometry::from_translation(&d));
        is_iso(cx, "from_translation", &e, &ident($n), &t);
        let e = cx.call("Isometry::from_rotation", || Isometry::from_rotation(&r));
        is_iso(cx, "from_rotation", &e, &l, &z);
        let e = cx.call("Isometry::identity", || Iso::<S>::identity());
        is_iso(cx, "identity", &e, &ident($n), &z);
        let ms = cx.call("Isometry::to_affine_matrix, From, to_transform", || {
            [i.to_affine_matrix(), Matrix::<S, $n1, $n1>::from(i), Matrix::<S, $n1, $n1>::from(&i), *i.to_transform().matrix()]
        });
        for m in &ms {
            cx.ens_m("homogeneous matrix", &mv(m), &affine(&l, &t));
        }
    }
    pub fn isometry_apply<S: Sc>(cx: &mut Cx<S>) {
        let (i, l, t) = isometry(cx, "a");
        let v: Vector<S, $n> = cx.vec("v");
        let (p, q): (Point<S, $n>, Point<S, $n>) = (cx.point("p"), cx.point("q"));
        let g = cx.call("Isometry::apply_vector, Isometry * Vector", || [i.apply_vector(&v), i * v, i * &v, &i * v, &i * &v]);
        for h in &g {
            cx.ens_v("rotated, not moved", &vv(h), &mvm(&l, &vv(&v)));
        }
        let g = cx.call("Isometry::apply_point, Isometry * Point", || [i.apply_point(&p), i * p, i * &p, &i * p, &i * &p]);
        for h in &g {
            cx.ens_v("rotated, then moved", &pv(h), &vadd(&mvm(&l, &pv(&p)), &t));
        }
        let h = cx.call("Isometry::apply_point", || i.apply_point(&q));
        cx.ens("distance preserved", dist2(&pv(&g[0]), &pv(&h)), dist2(&pv(&p), &pv(&q)));
    }
    pub fn isometry_inverse<S: Sc>(cx: &mut Cx<S>) {
        let (i, l, t) = isometry(cx, "a");
        let k = cx.call("Isometry::inverse", || i.inverse());
        let mut j = i;
        cx.call("Isometry::inverse_mut", || j.inverse_mut());
        let b = vneg(&mvm(&tr(&l), &t));
        is_iso(cx, "inverse", &k, &tr(&l), &b);
        is_iso(cx, "inverse_mut", &j, &tr(&l), &b);
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Isometry::inverse_apply_vector", || [i.inverse_apply_vector(&i.apply_vector(&v)), i.apply_vector(&i.inverse_apply_vector(&v)), i.inverse() * (i * v), (i * i.inverse()) * v]);
        for h in &g {
            cx.ens_v("undone", &vv(h), &vv(&v));
        }
        let g = cx.call("Isometry::inverse_apply_point", || [i.inverse_apply_point(&i.apply_point(&p)), i.apply_point(&i.inverse_apply_point(&p)), i.inverse() * (i * p), (i.inverse() * i) * p]);
        for h in &g {
            cx.ens_v("undone", &pv(h), &pv(&p));
        }
    }
    /// (l, t) after (m, u)
    fn after<S: Sc>(l: &M<S>, t: &[S], m: &M<S>, u: &[S]) -> (M<S>, Vec<S>) {
        (mm(l, m), vadd(&mvm(l, u), t))
    }
    pub fn isometry_mul<S: Sc>(cx: &mut Cx<S>) {
        let (a, l, t) = isometry(cx, "a");
        let (b, m, u) = isometry(cx, "b");
        let (wl, wt) = after(&l, &t, &m, &u);
        let g = cx.call("Isometry * Isometry", || forms!(a, b));
        for h in &g {
            is_iso(cx, "one after the other", h, &wl, &wt);
        }
        let p: Point<S, $n> = cx.point("p");
        let c = cx.call("composition", || (a * b) * p);
        cx.ens_v("one after the other", &pv(&c), &vadd(&mvm(&l, &vadd(&mvm(&m, &pv(&p)), &u)), &t));
    }
    pub fn isometry_mixed<S: Sc>(cx: &mut Cx<S>) {
        let (i, l, t) = isometry(cx, "a");
        let (r, m) = $rot(cx, "b");
        let (d, u) = translation(cx, "u");
        let z = vec![S::zero(); $n];
        let g = cx.call("Rotation * Translation", || forms!(r, d));
        for h in &g {
            is_iso(cx, "rotation after translation", h, &m, &mvm(&m, &u));
        }
        let g = cx.call("Translation * Rotation", || forms!(d, r));
        for h in &g {
            is_iso(cx, "translation after rotation", h, &m, &u);
        }
        let g = cx.call("Isometry * Translation", || forms!(i, d));
        let (wl, wt) = after(&l, &t, &ident($n), &u);
        for h in &g {
            is_iso(cx, "isometry after translation", h, &wl, &wt);
        }
        let g = cx.call("Translation * Isometry", || forms!(d, i));
        for h in &g {
            is_iso(cx, "translation after isometry", h, &l, &vadd(&t, &u));
        }
        let g = cx.call("Isometry * Rotation", || forms!(i, r));
        let (wl, wt) = after(&l, &t, &m, &z);
        for h in &g {
            is_iso(cx, "isometry after rotation", h, &wl, &wt);
        }
        let g = cx.call("Rotation * Isometry", || forms!(r, i));
        let (wl, wt) = after(&m, &z, &l, &t);
        for h in &g {
            is_iso(cx, "rotation after isometry", h, &wl, &wt);
        }
    }

    // ---- similarities
    fn is_sim<S: Sc>(cx: &mut Cx<S>, name: &str, i: &Sim<S>, l: &M<S>, t: &[S], k: S) {
        cx.ens_m(&format!("{}: rotation part", name), &mv(i.rotation().matrix()), l);
        cx.ens_v(&format!("{}: translation part", name), &vv(i.translation().vector()), t);
        cx.ens(&format!("{}: scale", name), i.scale(), k);
    }
    pub fn similarity_parts<S: Sc>(cx: &mut Cx<S>) {
        let (s, l, t, k) = similarity(cx, "a");
        is_sim(cx, "from_parts", &s, &l, &t, k);
        let (r, d) = (*s.rotation(), *s.translation());
        let z = vec![S::zero(); $n];
        let e = cx.call("Similarity::from_translation", || Similarity::from_translation(&d));
        is_sim(cx, "from_translation", &e, &ident($n), &t, S::one());
        let e = cx.call("Similarity::from_rotation", || Similarity::from_rotation(&r));
        is_sim(cx, "from_rotation", &e, &l, &z, S::one());
        let e = cx.call("Similarity::from_scale", || Sim::<S>::from_scale(k));
        is_sim(cx, "from_scale", &e, &ident($n), &z, k);
        let i = Isometry::from_parts(&d, &r);
        let e = cx.call("Similarity::from_isometry", || Similarity::from_isometry(&i));
        is_sim(cx, "from_isometry", &e, &l, &t, S::one());
        let e = cx.call("Similarity::identity", || Sim::<S>::identity());
        is_sim(cx, "identity", &e, &ident($n), &z, S::one());
        let ms = cx.call("Similarity::to_affine_matrix, From, to_transform", || {
            [s.to_affine_matrix(), Matrix::<S, $n1, $n1>::from(s), Matrix::<S, $n1, $n1>::from(&s), *s.to_transform().matrix()]
        });
        for m in &ms {
            cx.ens_m("homogeneous matrix", &mv(m), &affine(&mscale(&l, k), &t));
        }
    }
    pub fn similarity_apply<S: Sc>(cx: &mut Cx<S>) {
        let (s, l, t, k) = similarity(cx, "a");
        let v: Vector<S, $n> = cx.vec("v");
        let (p, q): (Point<S, $n>, Point<S, $n>) = (cx.point("p"), cx.point("q"));
        let g = cx.call("Similarity::apply_vector, Similarity * Vector", || [s.apply_vector(&v), s * v, s * &v, &s * v, &s * &v]);
        for h in &g {
            cx.ens_v("scaled and rotated", &vv(h), &vscale(&mvm(&l, &vv(&v)), k));
        }
        let g = cx.call("Similarity::apply_point, Similarity * Point", || [s.apply_point(&p), s * p, s * &p, &s * p, &s * &p]);
        for h in &g {
            cx.ens_v("scaled, rotated, then moved", &pv(h), &vadd(&vscale(&mvm(&l, &pv(&p)), k), &t));
        }
        let h = cx.call("Similarity::apply_point", || s.apply_point(&q));
        cx.ens("distances multiplied by the scale", dist2(&pv(&g[0]), &pv(&h)), k * k * dist2(&pv(&p), &pv(&q)));
    }
    pub fn similarity_inverse<S: Sc>(cx: &mut Cx<S>) {
        let (s, l, t, k) = similarity(cx, "a");
        let i = cx.call("Similarity::inverse", || s.inverse());
        let mut j = s;
        cx.call("Similarity::inverse_mut", || j.inverse_mut());
        let b = vscale(&mvm(&tr(&l), &t), -S::one() / k);
        is_sim(cx, "inverse", &i, &tr(&l), &b, S::one() / k);
        is_sim(cx, "inverse_mut", &j, &tr(&l), &b, S::one() / k);
        let v: Vector<S, $n> = cx.vec("v");
        let p: Point<S, $n> = cx.point("p");
        let g = cx.call("Similarity::inverse_apply_vector", || [s.inverse_apply_vector(&s.apply_vector(&v)), s.apply_vector(&s.inverse_apply_vector(&v)), s.inverse() * (s * v), (s * s.inverse()) * v]);
        for h in &g {
            cx.ens_v("undone", &vv(h), &vv(&v));
        }
        let g = cx.call("Similarity::inverse_apply_point", || [s.inverse_apply_point(&s.apply_point(&p)), s.apply_point(&s.inverse_apply_point(&p)), s.inverse() * (s * p), (s.inverse() * s) * p]);
        for h in &g {
            cx.ens_v("undone", &pv(h), &pv(&p));
        }
    }
    pub fn similarity_mul<S: Sc>(cx: &mut Cx<S>) {
        let (a, l, t, k) = similarity(cx, "a");
        let (b, m, u, h) = similarity(cx, "b");
        let (wl, wt) = (mm(&l, &m), vadd(&vscale(&mvm(&l, &u), k), &t));
        let g = cx.call("Similarity * Similarity", || forms!(a, b));
        for c in &g {
            is_sim(cx, "one after the other", c, &wl, &wt, k * h);
        }
        let i = Isometry::from_parts(b.translation(), b.rotation());
        let g = cx.call("Similarity * Isometry", || forms!(a, i));
        for c in &g {
            is_sim(cx, "one after the other", c, &wl, &wt, k);
        }
        let p: Point<S, $n> = cx.point("p");
        let c = cx.call("composition", || (a * b) * p);
        let w = vadd(&vscale(&mvm(&m, &pv(&p)), h), &u);
        cx.ens_v("one after the other", &pv(&c), &vadd(&vscale(&mvm(&l, &w), k), &t));
    }
    pub fn all() -> Vec<Contract> {
        crate::contracts![$pre;
            rotation_matrix, rotation_apply, rotation_inverse, rotation_mul,
            isometry_parts, isometry_apply, isometry_inverse, isometry_mul, isometry_mixed,
            similarity_parts, similarity_apply, similarity_inverse, similarity_mul,
        ]
    }
}
    };
}
dim!(d2 "d2_" 2 3 rotation2);
dim!(d3 "d3_" 3 4 rotation3);

// ---- constructors
fn from_angle2<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.angle("t");
    let d = cx.angle("d");
    let u: Vector2<S> = cx.vec("u");
    let w = rot2(t.cos(), t.sin());
    let e = d * S::pi() / int(180);
    let x = rot2(e.cos(), e.sin());
    let r = cx.call("{Rotation2,Isometry2,Similarity2}::from_angle", || {
        (Rotation2::from_angle(Radians(t)), Isometry2::from_angle(Radians(t)), Similarity2::from_angle(Radians(t)), Isometry2::from_angle_translation(Radians(t), &u))
    });
    let q = cx.call("{Rotation2,Isometry2,Similarity2}::from_angle in degrees", || {
        (Rotation2::from_angle(Degrees(d)), Isometry2::from_angle(Degrees(d)), Similarity2::from_angle(Degrees(d)), Isometry2::from_angle_translation(Degrees(d), &u))
    });
    for (g, w) in [(r, w), (q, x)] {
        cx.ens_m("Rotation2: counterclockwise rotation", &mv(g.0.matrix()), &w);
        cx.ens_m("Isometry2: counterclockwise rotation", &mv(&g.1.to_affine_matrix()), &affine(&w, &[S::zero(), S::zero()]));
        cx.ens_m("Similarity2: counterclockwise rotation", &mv(&g.2.to_affine_matrix()), &affine(&w, &[S::zero(), S::zero()]));
        cx.ens_m("Isometry2: rotation, then displacement", &mv(&g.3.to_affine_matrix()), &affine(&w, &vv(&u)));
    }
}
fn angle2<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.angle("t");
    let r = Rotation2::from_angle(Radians(t));
    let a = cx.call("Rotation2::angle", || r.angle()).0;
    cx.ens("cosine of the angle", a.cos(), t.cos());
    cx.ens("sine of the angle", a.sin(), t.sin());
    cx.ensures("in (-half turn, half turn]", and(vec![lt(-S::pi(), a), le(a, S::pi())]));
}
fn from_axis_angle3<S: Sc>(cx: &mut Cx<S>) {
    let (k, kv) = cx.unit::<3>("k");
    let u: Vector3<S> = cx.vec("u");
    let z = vec![S::zero(); 3];
    let t = cx.angle("t");
    let d = cx.angle("d");
    let e = d * S::pi() / int(180);
    let r = cx.call("{Rotation3,Isometry3,Similarity3}::from_axis_angle", || {
        let a = Radians(t);
        (Rotation3::from_axis_angle(&k, a), Isometry3::from_axis_angle(&k, a), Similarity3::from_axis_angle(&k, a), Isometry3::from_axis_angle_translation(&k, a, &u))
    });
    let q = cx.call("{Rotation3,Isometry3,Similarity3}::from_axis_angle in degrees", || {
        let a = Degrees(d);
        (Rotation3::from_axis_angle(&k, a), Isometry3::from_axis_angle(&k, a), Similarity3::from_axis_angle(&k, a), Isometry3::from_axis_angle_translation(&k, a, &u))
    });
    for (g, t) in [(r, t), (q, e)] {
        let w = rot_axis(&kv, t.cos(), t.sin());
        cx.ensures("Rotation3: proper rotation", is_rotation(&mv(g.0.matrix())));
        cx.ens_m("Rotation3: Rodrigues", &mv(g.0.matrix()), &w);
        cx.ens_m("Isometry3: Rodrigues", &mv(&g.1.to_affine_matrix()), &affine(&w, &z));
        cx.ens_m("Similarity3: Rodrigues", &mv(&g.2.to_affine_matrix()), &affine(&w, &z));
        cx.ens_m("Isometry3: Rodrigues, then displacement", &mv(&g.3.to_affine_matrix()), &affine(&w, &vv(&u)));
    }
    let r = cx.call("{Rotation3,Isometry3}::from_angle_{x,y,z}", || {
        let a = Radians(t);
        [(Rotation3::from_angle_x(a), Isometry3::from_angle_x(a)), (Rotation3::from_angle_y(a), Isometry3::from_angle_y(a)), (Rotation3::from_angle_z(a), Isometry3::from_angle_z(a))]
    });
    let q = cx.call("{Rotation3,Isometry3}::from_angle_{x,y,z} in degrees", || {
        let a = Degrees(d);
        [(Rotation3::from_angle_x(a), Isometry3::from_angle_x(a)), (Rotation3::from_angle_y(a), Isometry3::from_angle_y(a)), (Rotation3::from_angle_z(a), Isometry3::from_angle_z(a))]
    });
    for (g, t) in [(r, t), (q, e)] {
        for i in 0..3 {
            let w = rot_axis(&basis::<S>(3, i), t.cos(), t.sin());
            cx.ens_m("right-handed rotation about the coordinate axis", &mv(g[i].0.matrix()), &w);
            cx.ens_m("right-handed rotation about the coordinate axis", &mv(&g[i].1.to_affine_matrix()), &affine(&w, &z));
        }
    }
}
fn from_quaternion3<S: Sc>(cx: &mut Cx<S>) {
    let q = S::unit_vec(cx, "q", 4);
    let a = Quaternion::new(q[0], q[1], q[2], q[3]);
    let r = cx.call("Rotation3::from_quaternion, From<Quaternion>", || [Rotation3::from_quaternion(&a), Rotation3::from(a), Rotation3::from(&a)]);
    for g in &r {
        cx.ens_m("the quaternion's rotation", &mv(g.matrix()), &qmat(&q));
    }
}
/// the quaternion read back from a rotation is the one it was made from, up to sign
fn to_quaternion3<S: Sc>(cx: &mut Cx<S>) {
    let q = S::unit_vec(cx, "q", 4);
    let a = Quaternion::new(q[0], q[1], q[2], q[3]);
    let r = Rotation3::from_quaternion(&a);
    let b = cx.call("Quaternion::from(Rotation3)", || [Quaternion::from(r), Quaternion::from(&r)]);
    for g in &b {
        let g = qv(g);
        for i in 0..4 {
            for j in i..4 {
                cx.ens("plus or minus the quaternion", g[i] * g[j], q[i] * q[j]);
            }
        }
    }
}
fn axis_angle3<S: Sc>(cx: &mut Cx<S>) {
    let (k, kv) = cx.unit::<3>("k");
    let t = cx.angle("t");
    let r = Rotation3::from_axis_angle(&k, Radians(t));
    let a = cx.call("Rotation3::angle", || r.angle()).0;
    cx.ens("cosine of the angle", a.cos(), t.cos());
    cx.ensures("between zero and a half turn", and(vec![le(S::zero(), a), le(a, S::pi())]));
    let n = (int::<S>(4) * t.sin() * t.sin()).sqrt();
    match cx.call("Rotation3::axis_angle", || r.axis_angle()) {
        None => cx.ensures("no axis only within the threshold of the identity or a half turn", le(n, S::eps())),
        Some((u, b)) => {
            cx.ensures("axis only away from the identity and half turns", lt(S::eps(), n));
            let g = vv(&u.into_inner());
            cx.ens_v("along the axis the rotation was made from", &vscale(&g, n), &vscale(&kv, int::<S>(2) * t.sin()));
            cx.ens("the rotation's angle", b.0, a);
        }
    }
}
macro_rules! look {
    ($f:ident $to:ident $to_inv:ident $at:ident $at_inv:ident $dir:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vector3<S> = cx.vec("d");
            let up: Vector3<S> = cx.vec("u");
            nondeg(cx, &vv(&d), &vv(&up));
            let e: Point3<S> = cx.point("e");
            let t = e + d;
            let l = view(&vv(&d), &vv(&up), $dir);
            let f = affine(&l, &vneg(&mvm(&l, &pv(&e))));
            let b = affine(&tr(&l), &pv(&e));
            let r = cx.call(concat!("Rotation3::", stringify!($to), "/", stringify!($at)), || [Rotation3::$to(&d, &up), Rotation3::$at(&e, &t, &up)]);
            for g in &r {
                cx.ens_m("the viewing rotation", &mv(g.matrix()), &l);
            }
            let r = cx.call(concat!("Rotation3::", stringify!($to_inv), "/", stringify!($at_inv)), || [Rotation3::$to_inv(&d, &up), Rotation3::$at_inv(&e, &t, &up)]);
            for g in &r {
                cx.ens_m("inverse of the viewing rotation", &mv(g.matrix()), &tr(&l));
            }
            let r = cx.call(concat!("{Isometry3,Similarity3}::", stringify!($to), "/", stringify!($at)), || {
                [Isometry3::$to(&e, &d, &up).to_affine_matrix(), Isometry3::$at(&e, &t, &up).to_affine_matrix(), Similarity3::$to(&e, &d, &up).to_affine_matrix(), Similarity3::$at(&e, &t, &up).to_affine_matrix()]
            });
            for g in &r {
                cx.ens_m("the viewing rotation after moving the eye to the origin", &mv(g), &f);
            }
            let r = cx.call(concat!("{Isometry3,Similarity3}::", stringify!($to_inv), "/", stringify!($at_inv)), || {
                [Isometry3::$to_inv(&e, &d, &up).to_affine_matrix(), Isometry3::$at_inv(&e, &t, &up).to_affine_matrix(), Similarity3::$to_inv(&e, &d, &up).to_affine_matrix(), Similarity3::$at_inv(&e, &t, &up).to_affine_matrix()]
            });
            for g in &r {
                cx.ens_m("inverse of the viewing transformation", &mv(g), &b);
            }
        }
    };
}
look!(look_lh look_to_lh look_to_lh_inv look_at_lh look_at_lh_inv 1);
look!(look_rh look_to_rh look_to_rh_inv look_at_rh look_at_rh_inv -1);

fn between2<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector2<S> = cx.vec("a");
    let b: Vector2<S> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    cx.requires(lt(S::zero(), dot(&x, &x)));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let (p, q) = (dot(&x, &x).sqrt(), dot(&y, &y).sqrt());
    let r = cx.call("{Rotation2,Isometry2}::rotation_between", || [Rotation2::rotation_between(&a, &b).to_affine_matrix(), Isometry2::rotation_between(&a, &b).to_affine_matrix()]);
    for m in &r {
        let m = mv(m);
        cx.ensures("proper rotation", is_rotation(&block(&m, 2)));
        cx.ens_m("no displacement", &m, &affine(&block(&m, 2), &[S::zero(), S::zero()]));
        cx.ens_v("turns the direction of a into that of b", &vscale(&mvm(&block(&m, 2), &x), q), &vscale(&y, p));
    }
}
fn between2_axis<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = cx.unit::<2>("a");
    let (b, y) = cx.unit::<2>("b");
    let r = cx.call("{Rotation2,Isometry2}::rotation_between_axis", || [Rotation2::rotation_between_axis(&a, &b).to_affine_matrix(), Isometry2::rotation_between_axis(&a, &b).to_affine_matrix()]);
    for m in &r {
        let m = mv(m);
        cx.ensures("proper rotation", is_rotation(&block(&m, 2)));
        cx.ens_m("no displacement", &m, &affine(&block(&m, 2), &[S::zero(), S::zero()]));
        cx.ens_v("turns a into b", &mvm(&block(&m, 2), &x), &y);
    }
}
fn between2_zero<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector2<S> = cx.vec("a");
    let z = Vector2::zero();
    let r = cx.call("{Rotation2,Isometry2}::rotation_between", || {
        [Rotation2::rotation_between(&a, &z).to_affine_matrix(), Isometry2::rotation_between(&a, &z).to_affine_matrix(), Rotation2::rotation_between(&z, &a).to_affine_matrix(), Isometry2::rotation_between(&z, &a).to_affine_matrix()]
    });
    for m in &r {
        cx.ens_m("identity for a zero vector", &mv(m), &ident(3));
    }
}
fn between3<S: Sc>(cx: &mut Cx<S>, r: &[Option<Matrix4x4<S>>], x: &[S], y: &[S]) {
    let w = cross(x, y);
    let c = dot(x, y);
    let wide = S::eps() * S::eps() < dot(&w, &w);
    for m in r {
        match m {
            Some(m) if wide => {
                cx.lemma("sine", eq((S::one() + c).sqrt() * (S::one() - c).sqrt(), (S::one() - c * c).sqrt()));
                let m = mv(m);
                cx.ensures("proper rotation", is_rotation(&block(&m, 3)));
                cx.ens_m("no displacement", &m, &affine(&block(&m, 3), &vec![S::zero(); 3]));
                cx.ens_v("turns v1 into v2 when they are not parallel", &mvm(&block(&m, 3), x), y);
            }
            Some(m) => cx.ens_m("identity when they are parallel", &mv(m), &ident(4)),
            None => cx.ensures("None only for opposite directions", and(vec![is(!wide), lt(c, S::zero())])),
        }
    }
}
fn between3_axis<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = cx.unit::<3>("a");
    let (b, y) = cx.unit::<3>("b");
    let w = cross(&x, &y);
    cx.name("cosine and squared sine", &[dot(&x, &y), dot(&w, &w)], |t| vec![eq(t[1], S::one() - t[0] * t[0])]);
    let r = cx.call("{Rotation3,Isometry3}::rotation_between_axis", || {
        [Rotation3::rotation_between_axis(&a, &b).map(|r| r.to_affine_matrix()), Isometry3::rotation_between_axis(&a, &b).map(|r| r.to_affine_matrix())]
    });
    between3(cx, &r, &x, &y);
}
fn between3_vec<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let (x, y) = (vv(&a), vv(&b));
    let e2 = S::eps() * S::eps();
    cx.requires(lt(e2, dot(&x, &x)));
    cx.requires(lt(e2, dot(&y, &y)));
    let (p, q) = (dot(&x, &x).sqrt(), dot(&y, &y).sqrt());
    let xu: Vec<S> = x.iter().map(|e| *e / p).collect();
    let yu: Vec<S> = y.iter().map(|e| *e / q).collect();
    cx.cut_rules("directions", &[xu.clone(), yu.clone()].concat(), |t| vec![eq(dot(&t[..3], &t[..3]), S::one()), eq(dot(&t[3..], &t[3..]), S::one())]);
    let w = cross(&xu, &yu);
    cx.name("cosine and squared sine", &[dot(&xu, &yu), dot(&w, &w)], |t| vec![eq(t[1], S::one() - t[0] * t[0])]);
    let r = cx.call("{Rotation3,Isometry3}::rotation_between", || {
        [Rotation3::rotation_between(&a, &b).map(|r| r.to_affine_matrix()), Isometry3::rotation_between(&a, &b).map(|r| r.to_affine_matrix())]
    });
    between3(cx, &r, &xu, &yu);
}
/// vectors that are too short to have a direction
fn between3_short<S: Sc>(cx: &mut Cx<S>) {
    let a: Vector3<S> = cx.vec("a");
    let b: Vector3<S> = cx.vec("b");
    let x = vv(&a);
    cx.requires(le(dot(&x, &x), S::eps() * S::eps()));
    let r = cx.call("Isometry3::rotation_between", || [Isometry3::rotation_between(&a, &b).is_none(), Isometry3::rotation_between(&b, &a).is_none()]);
    cx.ensures("no rotation", is(r[0] && r[1]));
}
pub fn all() -> Vec<Contract> {
    let mut v = d2::all();
    v.extend(d3::all());
    v.extend(crate::contracts![
        from_angle2, angle2, from_axis_angle3, from_quaternion3, to_quaternion3, axis_angle3,
        look_lh, look_rh, between2, between2_axis, between2_zero, between3_axis, between3_vec, between3_short,
    ]);
    v
}
