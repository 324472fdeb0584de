//! C15: translations, scales, shears and reflections.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_transform::*;

macro_rules! forms {
    ($a:expr, $b:expr) => {
        [$a * $b, $a * &$b, &$a * $b, &$a * &$b]
    };
}
fn diag<S: Sc>(k: &[S]) -> M<S> {
    let mut m = ident::<S>(k.len());
    for i in 0..k.len() {
        m[i][i] = k[i];
    }
    m
}
fn dist2<S: Sc>(a: &[S], b: &[S]) -> S {
    let d = vsub(a, b);
    dot(&d, &d)
}
/// `t` acts as the affine map (l, d): methods and every operator form, and the inverse undoes it
macro_rules! acts {
    ($cx:ident, $ty:literal, $n:expr, $t:expr, $l:expr, $d:expr) => {{
        let t = $t;
        let v: Vector<S, $n> = $cx.vec("v");
        let p: Point<S, $n> = $cx.point("p");
        let g = $cx.call(concat!($ty, "::apply_vector, ", $ty, " * Vector"), || [t.apply_vector(&v), t * v, t * &v, &t * v, &t * &v]);
        for h in &g {
            $cx.ens_v("the linear part times the vector", &vv(h), &mvm(&$l, &vv(&v)));
        }
        let g = $cx.call(concat!($ty, "::apply_point, ", $ty, " * Point"), || [t.apply_point(&p), t * p, t * &p, &t * p, &t * &p]);
        for h in &g {
            $cx.ens_v("the affine map at the point", &pv(h), &vadd(&mvm(&$l, &pv(&p)), &$d));
        }
        undoes!($cx, $ty, t, v, p);
    }};
}
macro_rules! undoes {
    ($cx:ident, $ty:literal, $t:expr, $v:expr, $p:expr) => {{
        let (t, v, p) = ($t, $v, $p);
        let g = $cx.call(concat!($ty, "::inverse_apply_vector"), || [t.inverse_apply_vector(&t.apply_vector(&v)), t.apply_vector(&t.inverse_apply_vector(&v)), t.inverse() * (t * v), t * (t.inverse() * v)]);
        for h in &g {
            $cx.ens_v("undone", &vv(h), &vv(&v));
        }
        let g = $cx.call(concat!($ty, "::inverse_apply_point"), || [t.inverse_apply_point(&t.apply_point(&p)), t.apply_point(&t.inverse_apply_point(&p)), t.inverse() * (t * p), t * (t.inverse() * p)]);
        for h in &g {
            $cx.ens_v("undone", &pv(h), &pv(&p));
        }
    }};
}
macro_rules! matrices {
    ($cx:ident, $ty:literal, $n1:literal, $t:expr, $w:expr) => {{
        let t = $t;
        let g = $cx.call(concat!($ty, "::to_affine_matrix, From, to_transform"), || [t.to_affine_matrix(), Matrix::<S, $n1, $n1>::from(t), Matrix::<S, $n1, $n1>::from(&t), *t.to_transform().matrix()]);
        for m in &g {
            $cx.ens_m("homogeneous matrix", &mv(m), &$w);
        }
    }};
}
// ---- translations and scales, any dimension
fn translation_n<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let d: Vector<S, N> = cx.vec("d");
    let x = vv(&d);
    let t = cx.call("Translation::from_vector", || Translation::from_vector(&d));
    acts!(cx, "Translation", N, t, ident::<S>(N), x);
    let g = cx.call("Translation::vector, to_vector, as_ref", || { let r: &Vector<S, N> = t.as_ref(); [*t.vector(), t.to_vector(), *r] });
    for h in &g {
        cx.ens_v("the displacement", &vv(h), &x);
    }
    let mut j = t;
    cx.call("Translation::inverse_mut", || j.inverse_mut());
    let i = cx.call("Translation::inverse", || t.inverse());
    cx.ens_v("opposite displacement", &vv(i.vector()), &vneg(&x));
    cx.ens_v("opposite displacement", &vv(j.vector()), &vneg(&x));
    let i = cx.call("Translation::identity", || Translation::<S, N>::identity());
    cx.ens_v("no displacement", &vv(i.vector()), &vec![S::zero(); N]);
    let e: Vector<S, N> = cx.vec("e");
    let u = Translation::from_vector(&e);
    let g = cx.call("Translation * Translation", || forms!(t, u));
    for h in &g {
        cx.ens_v("displacements add", &vv(h.vector()), &vadd(&x, &vv(&e)));
    }
    let (p, q): (Point<S, N>, Point<S, N>) = (cx.point("f"), cx.point("g"));
    let b = cx.call("Translation::between_points", || Translation::between_points(&p, &q));
    let m = cx.call("Translation::apply_point", || b.apply_point(&p));
    cx.ens_v("moves the first point to the second", &pv(&m), &pv(&q));
    let b = cx.call("Translation::between_vectors", || Translation::between_vectors(&d, &e));
    cx.ens_v("the difference of the vectors", &vv(b.vector()), &vsub(&vv(&e), &x));
}
fn scale_n<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let f: Vec<S> = (0..N).map(|i| cx.nonzero(&format!("f{}", i))).collect();
    let mut d = Vector::<S, N>::zero();
    for i in 0..N {
        d[i] = f[i];
    }
    let s = cx.call("Scale::from_nonuniform_scale", || Scale::from_nonuniform_scale(&d));
    acts!(cx, "Scale", N, s, diag(&f), vec![S::zero(); N]);
    cx.ens_v("the factors", &vv(&s.to_vector()), &f);
    let m = cx.call("Scale::to_matrix", || s.to_matrix());
    cx.ens_m("factors on the diagonal", &mv(&m), &diag(&f));
    let i = cx.call("Scale::inverse", || s.inverse());
    cx.ens_v("reciprocal factors", &vv(&i.to_vector()), &f.iter().map(|e| S::one() / *e).collect::<Vec<S>>());
    let i = cx.call("Scale::identity", || Scale::<S, N>::identity());
    cx.ens_v("factors one", &vv(&i.to_vector()), &vec![S::one(); N]);
    let k = cx.v("k");
    let u = cx.call("Scale::from_scale", || Scale::<S, N>::from_scale(k));
    cx.ens_v("one factor everywhere", &vv(&u.to_vector()), &vec![k; N]);
    let e: Vector<S, N> = cx.vec("e");
    let u = Scale::from_nonuniform_scale(&e);
    let g = cx.call("Scale * Scale", || forms!(s, u));
    for h in &g {
        cx.ens_v("factors multiply", &vv(&h.to_vector()), &(0..N).map(|i| f[i] * e[i]).collect::<Vec<S>>());
    }
}
macro_rules! homogeneous {
    ($f:ident $n:literal $n1:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vector<S, $n> = cx.vec("d");
            let t = Translation::from_vector(&d);
            matrices!(cx, "Translation", $n1, t, affine(&ident($n), &vv(&d)));
            let s = Scale::from_nonuniform_scale(&d);
            matrices!(cx, "Scale", $n1, s, affine(&diag(&vv(&d)), &vec![S::zero(); $n]));
        }
    };
}
homogeneous!(homogeneous1 1 2);
homogeneous!(homogeneous2 2 3);
homogeneous!(homogeneous3 3 4);
fn new23<S: Sc>(cx: &mut Cx<S>) {
    let v = cx.vs("v", 3);
    let g = cx.call("Translation2::new, Translation3::new, Scale2::new, Scale3::new", || (Translation2::new(v[0], v[1]), Translation3::new(v[0], v[1], v[2]), Scale2::new(v[0], v[1]), Scale3::new(v[0], v[1], v[2])));
    cx.ens_v("Translation2: components in order", &vv(g.0.vector()), &v[..2]);
    cx.ens_v("Translation3: components in order", &vv(g.1.vector()), &v);
    cx.ens_v("Scale2: factors in order", &vv(&g.2.to_vector()), &v[..2]);
    cx.ens_v("Scale3: factors in order", &vv(&g.3.to_vector()), &v);
}
// ---- shears
/// the parts of a shear and its action
fn is_shear<S: Sc, const N: usize>(cx: &mut Cx<S>, name: &str, s: &Shear<S, N>, k: S, o: &[S], d: &[S], n: &[S]) {
    cx.ens(&format!("{}: factor", name), s.shear_factor(), k);
    cx.ens_v(&format!("{}: origin", name), &pv(&s.origin()), o);
    cx.ens_v(&format!("{}: direction", name), &vv(&s.direction()), d);
    cx.ens_v(&format!("{}: normal", name), &vv(&s.normal()), n);
}
/// a unit direction and a unit normal orthogonal to it, as a shear needs in order to be invertible by negating its factor
fn shear_data<S: Sc, const N: usize>(cx: &mut Cx<S>) -> (Unit<Vector<S, N>>, Vec<S>, Unit<Vector<S, N>>, Vec<S>) {
    let (d, x) = cx.unit::<N>("d");
    let (n, y) = cx.unit::<N>("n");
    (d, x, n, y)
}
macro_rules! shear {
    ($f:ident $g:ident $m:ident $n:literal $n1:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let k = cx.v("k");
            let (d, x, n, y) = shear_data::<S, $n>(cx);
            let o: Point<S, $n> = cx.point("o");
            let z = vec![S::zero(); $n];
            let s = cx.call("Shear::from_shear", || Shear::from_shear(k, &d, &n));
            is_shear(cx, "from_shear", &s, k, &z, &x, &y);
            let a = cx.call("Shear::from_affine_shear", || Shear::from_affine_shear(k, &o, &d, &n));
            is_shear(cx, "from_affine_shear", &a, k, &pv(&o), &x, &y);
            let i = cx.call("Shear::inverse", || a.inverse());
            is_shear(cx, "inverse", &i, -k, &pv(&o), &x, &y);
            let l = madd(&ident($n), &mscale(&outer(&x, &y), k));
            let v: Vector<S, $n> = cx.vec("v");
            let p: Point<S, $n> = cx.point("p");
            let g = cx.call("Shear::apply_point, Shear * Point", || [a.apply_point(&p), a * p, a * &p, &a * p, &a * &p]);
            let t = vscale(&x, -k * dot(&y, &pv(&o)));
            for h in &g {
                cx.ens_v("p + k ((p - o).n) d", &pv(h), &vadd(&mvm(&l, &pv(&p)), &t));
            }
            let g = cx.call("Shear::apply_vector, Shear * Vector", || [s.apply_vector(&v), s * v, s * &v, &s * v, &s * &v]);
            for h in &g {
                cx.ens_v("v + k (v.n) d", &vv(h), &mvm(&l, &vv(&v)));
            }
            let g = cx.call("Shear::apply_vector, Shear * Vector", || [a.apply_vector(&v), a * v, a * &v, &a * v, &a * &v]);
            for h in &g {
                let f = all_eq(&vv(h), &mvm(&l, &vv(&v)));
                let dev = all_eq(&vv(h), &vadd(&mvm(&l, &vv(&v)), &t));
                cx.ensures_known("v + k (v.n) d, wherever the shear is centred", f, "C15-shear-vector", dev);
            }
            let li = madd(&ident($n), &mscale(&outer(&x, &y), -k));
            let g = cx.call("Shear::inverse_apply_point", || a.inverse_apply_point(&p));
            cx.ens_v("p - k ((p - o).n) d", &pv(&g), &vsub(&mvm(&li, &pv(&p)), &t));
            let g = cx.call("Shear::inverse_apply_vector", || s.inverse_apply_vector(&v));
            cx.ens_v("v - k (v.n) d", &vv(&g), &mvm(&li, &vv(&v)));
            let g = cx.call("Shear::inverse_apply_vector", || a.inverse_apply_vector(&v));
            let f = all_eq(&vv(&g), &mvm(&li, &vv(&v)));
            let dev = all_eq(&vv(&g), &vsub(&mvm(&li, &vv(&v)), &t));
            cx.ensures_known("v - k (v.n) d, wherever the shear is centred", f, "C15-shear-vector", dev);
            matrices!(cx, "Shear", $n1, a, affine(&l, &t));
            matrices!(cx, "Shear", $n1, s, affine(&l, &z));
            let e = cx.call("Shear::identity", || Shear::<S, $n>::identity());
            let (ed, en) = (vv(&e.direction()), vv(&e.normal()));
            cx.ensures("direction and normal are unit vectors at right angles", all_eq(&[dot(&ed, &ed), dot(&en, &en), dot(&ed, &en), e.shear_factor()], &[S::one(), S::one(), S::zero(), S::zero()]));
            let g = cx.call("Shear::identity applied", || (e.apply_point(&p), e.apply_vector(&v)));
            cx.ens_v("moves no point", &pv(&g.0), &pv(&p));
            cx.ens_v("moves no vector", &vv(&g.1), &vv(&v));
        }
        /// direction in the shearing plane: the inverse undoes the shear
        fn $g<S: Sc>(cx: &mut Cx<S>) {
            let k = cx.v("k");
            let (d, x, n, y) = shear_data::<S, $n>(cx);
            cx.requires(eq(dot(&x, &y), S::zero()));
            let o: Point<S, $n> = cx.point("o");
            let a = cx.call("Shear::from_affine_shear", || Shear::from_affine_shear(k, &o, &d, &n));
            let v: Vector<S, $n> = cx.vec("v");
            let p: Point<S, $n> = cx.point("p");
            undoes!(cx, "Shear", a, v, p);
            let m = cx.call("Shear::apply_point", || a.apply_point(&p));
            cx.ens("keeps the distance to the shearing plane", dot(&vsub(&pv(&m), &pv(&o)), &y), dot(&vsub(&pv(&p), &pv(&o)), &y));
        }
        fn $m<S: Sc>(cx: &mut Cx<S>) {
            let (k, h) = (cx.v("k"), cx.v("h"));
            let (d, x, n, y) = shear_data::<S, $n>(cx);
            let (e, z) = cx.unit::<$n>("e");
            let (o, q): (Point<S, $n>, Point<S, $n>) = (cx.point("o"), cx.point("q"));
            let a = Shear::from_affine_shear(k, &o, &d, &n);
            let b = Shear::from_affine_shear(h, &q, &e, &n);
            let g = cx.call("Shear * Shear", || forms!(a, b));
            let m1 = affine(&madd(&ident($n), &mscale(&outer(&x, &y), k)), &vscale(&x, -k * dot(&y, &pv(&o))));
            let m2 = affine(&madd(&ident($n), &mscale(&outer(&z, &y), h)), &vscale(&z, -h * dot(&y, &pv(&q))));
            for c in &g {
                cx.ens_m("one after the other", &mv(c.matrix()), &mm(&m1, &m2));
            }
        }
    };
}
shear!(shear2 shear2_inverse shear2_mul 2 3);
shear!(shear3 shear3_inverse shear3_mul 3 4);
macro_rules! axis_shears {
    ($f:ident $t:ident $n:literal : $($m:ident $d:literal $k:literal;)*) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let k = cx.v("k");
            let z = vec![S::zero(); $n];
            $(
                let s = cx.call(concat!(stringify!($t), "::", stringify!($m)), || <$t<S>>::$m(k));
                is_shear(cx, stringify!($m), &s, k, &z, &basis($n, $d), &basis($n, $k));
            )*
        }
    };
}
axis_shears!(axis_shears2 Shear2 2: from_shear_xy 0 1; from_shear_yx 1 0;);
axis_shears!(axis_shears3 Shear3 3: from_shear_xy 0 1; from_shear_xz 0 2; from_shear_yx 1 0; from_shear_yz 1 2; from_shear_zx 2 0; from_shear_zy 2 1;);
// ---- reflections
macro_rules! reflection {
    ($f:ident $n:literal $n1:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let (n, y) = cx.unit::<$n>("n");
            let b: Point<S, $n> = cx.point("b");
            let r = cx.call("Reflection::from_normal_bias", || Reflection::from_normal_bias(&n, &b));
            cx.ens_v("normal", &vv(&r.normal()), &y);
            cx.ens_v("bias", &pv(&r.bias()), &pv(&b));
            let i = cx.call("Reflection::inverse", || r.inverse());
            cx.ens_v("its own inverse: normal", &vv(&i.normal()), &y);
            cx.ens_v("its own inverse: bias", &pv(&i.bias()), &pv(&b));
            let l = madd(&ident($n), &mscale(&outer(&y, &y), int(-2)));
            let t = vscale(&y, int::<S>(2) * dot(&y, &pv(&b)));
            acts!(cx, "Reflection", $n, r, l, t);
            matrices!(cx, "Reflection", $n1, r, affine(&l, &t));
            let (p, q): (Point<S, $n>, Point<S, $n>) = (cx.point("f"), cx.point("g"));
            let g = cx.call("Reflection::apply_point", || (r.apply_point(&p), r.apply_point(&q)));
            cx.ens("distances preserved", dist2(&pv(&g.0), &pv(&g.1)), dist2(&pv(&p), &pv(&q)));
            let e = vsub(&pv(&p), &pv(&b));
            cx.ens("opposite side of the mirror", dot(&vsub(&pv(&g.0), &pv(&b)), &y), -dot(&e, &y));
        }
    };
}
reflection!(reflection2 2 3);
reflection!(reflection3 3 4);
pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        translation_n::<1>, translation_n::<2>, translation_n::<3>, translation_n::<4>, scale_n::<1>, scale_n::<2>, scale_n::<3>, scale_n::<4>,
        homogeneous1, homogeneous2, homogeneous3, new23,
        shear2, shear2_inverse, shear2_mul, shear3, shear3_inverse, shear3_mul, axis_shears2, axis_shears3,
        reflection2, reflection3,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole translation_n::<1>, translation_n::<2>, translation_n::<3>, axis_shears2, axis_shears3]);
    v
}
