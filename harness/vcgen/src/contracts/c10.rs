//! C10: powers, roots, logarithms and trigonometry of complex numbers and quaternions.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;

type Z<S> = Complex<S>;
fn z<S: Sc>(v: &[S]) -> Z<S> {
    Complex::new(v[0], v[1])
}
fn o<S: Sc>() -> Vec<S> {
    basis(2, 0)
}
fn i<S: Sc>() -> Vec<S> {
    basis(2, 1)
}
/// any complex number
fn any<S: Sc>(cx: &mut Cx<S>) -> (Z<S>, Vec<S>) {
    cx.finite();
    let a = cx.complex("a");
    (a, zv(&a))
}
fn nonzero<S: Sc>(cx: &mut Cx<S>) -> (Z<S>, Vec<S>) {
    let (a, x) = any(cx);
    cx.requires(lt(S::zero(), dot(&x, &x)));
    (a, x)
}
/// e^x (cos y + i sin y)
fn zexp<S: Sc>(v: &[S]) -> Vec<S> {
    vec![v[0].exp() * v[1].cos(), v[0].exp() * v[1].sin()]
}
fn zdiv<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    let n = dot(b, b);
    let p = cmul(a, &[b[0], -b[1]]);
    vec![p[0] / n, p[1] / n]
}
fn exp<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let b = cx.complex("b");
    let r = cx.call("Complex::exp", || a.exp());
    cx.ens_v("e^re (cos im, sin im)", &zv(&r), &zexp(&x));
    let (l, m) = cx.call("Complex::exp", || ((a + b).exp(), a.exp() * b.exp()));
    cx.ens_v("exp(a + b) = exp(a) exp(b)", &zv(&l), &zv(&m));
    let r = cx.call("Complex::exp2", || a.exp2());
    let l2 = int::<S>(2).ln();
    cx.ens_v("2^a = exp(a ln 2)", &zv(&r), &zexp(&vscale(&x, l2)));
}
fn ln<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    let n = dot(&x, &x).sqrt();
    let r = cx.call("Complex::ln", || a.ln());
    cx.ens("real part ln |a|", r.re, n.ln());
    cx.ens_v("imaginary part an argument of a", &[n * r.im.cos(), n * r.im.sin()], &x);
    cx.ensures("the principal one", and(vec![lt(-S::pi(), r.im), le(r.im, S::pi())]));
    let e = cx.call("Complex::exp", || a.ln().exp());
    cx.ens_v("exp(ln a) = a", &zv(&e), &x);
    let q = cx.call("Complex::log2", || a.log2());
    cx.ens_v("ln a / ln 2", &zv(&q), &[r.re / int::<S>(2).ln(), r.im / int::<S>(2).ln()]);
    let q = cx.call("Complex::log10", || a.log10());
    cx.ens_v("ln a / ln 10", &zv(&q), &[r.re / int::<S>(10).ln(), r.im / int::<S>(10).ln()]);
    let b = cx.pos("base");
    cx.requires(ne(b, S::one()));
    let q = cx.call("Complex::log", || a.log(b));
    cx.ens_v("ln a / ln base", &zv(&q), &[r.re / b.ln(), r.im / b.ln()]);
}
fn sqrt<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    let r = cx.call("Complex::sqrt", || a.sqrt());
    cx.ens_v("squares back", &cmul(&zv(&r), &zv(&r)), &x);
    cx.ensures("in the right half plane", le(S::zero(), r.re));
    cx.ensures("roots of negative numbers on the positive imaginary axis", imp(and(vec![eq(x[1], S::zero()), lt(x[0], S::zero())]), lt(S::zero(), r.im)));
}
fn sqrt_zero<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let r = cx.call("Complex::sqrt", || Z::<S>::zero().sqrt());
    cx.ens_v("zero", &zv(&r), &[S::zero(), S::zero()]);
    let r = cx.call("Complex::cbrt", || Z::<S>::zero().cbrt());
    cx.ens_v("zero", &zv(&r), &[S::zero(), S::zero()]);
}
fn cbrt<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    let r = cx.call("Complex::cbrt", || a.cbrt());
    let y = zv(&r);
    cx.ens_v("cubes back", &cmul(&cmul(&y, &y), &y), &x);
    let t = x[1].atan2(x[0]) / int(3);
    let n = dot(&x, &x).sqrt().cbrt();
    cx.ens_v("the principal one", &y, &[n * t.cos(), n * t.sin()]);
}
fn power<S: Sc>(x: &[S], n: u32) -> Vec<S> {
    (0..n).fold(o(), |p, _| cmul(&p, x))
}
fn powu<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    for n in 0..=33 {
        let r = cx.call("Complex::powu", || a.powu(n));
        cx.ens_v("n-fold product", &zv(&r), &power(&x, n));
        let r = cx.call("Complex::powi", || a.powi(n as i32));
        cx.ens_v("n-fold product", &zv(&r), &power(&x, n));
    }
}
fn powi_negative<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    for n in 1..=17 {
        let r = cx.call("Complex::powi", || a.powi(-n));
        cx.ens_v("inverse of the n-fold product", &cmul(&zv(&r), &power(&x, n as u32)), &o());
    }
}
fn powf<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    let p = cx.v("p");
    let l = cx.call("Complex::ln", || zv(&a.ln()));
    let r = cx.call("Complex::powf", || a.powf(p));
    cx.ens_v("exp(p ln a)", &zv(&r), &zexp(&vscale(&l, p)));
    let r = cx.call("Complex::powf", || a.powf(int(2)));
    cx.ens_v("a^2 = a a", &zv(&r), &cmul(&x, &x));
    let r = cx.call("Complex::powf", || a.powf(int(0)));
    cx.ens_v("a^0 = 1", &zv(&r), &o());
    let b = cx.complex("b");
    let r = cx.call("Complex::powc", || a.powc(b));
    cx.ens_v("exp(b ln a)", &zv(&r), &zexp(&cmul(&zv(&b), &l)));
}
fn powc_zero<S: Sc>(cx: &mut Cx<S>) {
    let (a, _) = any(cx);
    let r = cx.call("Complex::powc", || a.powc(Complex::zero()));
    cx.ens_v("a^0 = 1", &zv(&r), &o());
}
/// (e^(iz) + e^(-iz))/2 and (e^(iz) - e^(-iz))/(2i)
fn zcos<S: Sc>(x: &[S]) -> Vec<S> {
    let (p, m) = (zexp(&cmul(&i(), x)), zexp(&cmul(&vneg(&i()), x)));
    vscale(&vadd(&p, &m), S::q(1, 2))
}
fn zsin<S: Sc>(x: &[S]) -> Vec<S> {
    let (p, m) = (zexp(&cmul(&i(), x)), zexp(&cmul(&vneg(&i()), x)));
    let d = vscale(&vsub(&p, &m), S::q(1, 2));
    cmul(&vneg(&i()), &d)
}
fn zcosh<S: Sc>(x: &[S]) -> Vec<S> {
    vscale(&vadd(&zexp(x), &zexp(&vneg(x))), S::q(1, 2))
}
fn zsinh<S: Sc>(x: &[S]) -> Vec<S> {
    vscale(&vsub(&zexp(x), &zexp(&vneg(x))), S::q(1, 2))
}
fn trig<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let r = cx.call("Complex::cos", || a.cos());
    cx.ens_v("(exp(ia) + exp(-ia))/2", &zv(&r), &zcos(&x));
    let q = cx.call("Complex::sin", || a.sin());
    cx.ens_v("(exp(ia) - exp(-ia))/2i", &zv(&q), &zsin(&x));
    cx.ens_v("sin^2 + cos^2 = 1", &vadd(&cmul(&zv(&r), &zv(&r)), &cmul(&zv(&q), &zv(&q))), &o());
    let r = cx.call("Complex::cosh", || a.cosh());
    cx.ens_v("(exp(a) + exp(-a))/2", &zv(&r), &zcosh(&x));
    let q = cx.call("Complex::sinh", || a.sinh());
    cx.ens_v("(exp(a) - exp(-a))/2", &zv(&q), &zsinh(&x));
    cx.ens_v("cosh^2 - sinh^2 = 1", &vsub(&cmul(&zv(&r), &zv(&r)), &cmul(&zv(&q), &zv(&q))), &o());
}
fn tan<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let c = zcos(&x);
    cx.requires(lt(S::zero(), dot(&c, &c)));
    let r = cx.call("Complex::tan", || a.tan());
    cx.ens_v("tan cos = sin", &cmul(&zv(&r), &c), &zsin(&x));
}
fn tanh<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let c = zcosh(&x);
    cx.requires(lt(S::zero(), dot(&c, &c)));
    let r = cx.call("Complex::tanh", || a.tanh());
    cx.ens_v("tanh cosh = sinh", &cmul(&zv(&r), &c), &zsinh(&x));
}
fn cis<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.angle("t");
    let r = cx.call("Complex::cis", || Z::cis(t));
    cx.ens_v("(cos t, sin t)", &zv(&r), &[t.cos(), t.sin()]);
}
/// the library's own square root and logarithm, under their contracts above
fn root<S: Sc>(v: &[S]) -> Vec<S> {
    zv(&z(v).sqrt())
}
fn log<S: Sc>(v: &[S]) -> Vec<S> {
    zv(&z(v).ln())
}
/// a square root under a name, with what its contract says of it
fn named_root<S: Sc>(cx: &mut Cx<S>, name: &str, v: &[S]) -> Vec<S> {
    let r = root(v);
    let d = v.to_vec();
    cx.cut(name, &r, move |r| vec![eq(r[0] * r[0] - r[1] * r[1], d[0]), eq(int::<S>(2) * r[0] * r[1], d[1]), le(S::zero(), r[0])]);
    root(v)
}
/// w w' = 1, so w is not zero
fn nonzero_by<S: Sc>(cx: &mut Cx<S>, w: &[S], v: &[S]) {
    cx.lemma("has an inverse", eq(dot(w, w) * dot(v, v), S::one()));
    cx.lemma("is not zero", lt(S::zero(), dot(w, w)));
}
fn acos_zero<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let r = cx.call("Complex::acos", || Z::<S>::zero().acos());
    cx.ens_v("a quarter turn", &zv(&r), &[S::pi() / int(2), S::zero()]);
    let r = cx.call("Complex::asin, atan, asinh, atanh", || [Z::<S>::zero().asin(), Z::zero().atan(), Z::zero().asinh(), Z::zero().atanh()]);
    for v in &r {
        cx.ens_v("zero", &zv(v), &[S::zero(), S::zero()]);
    }
}
fn acos<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = nonzero(cx);
    let one = o::<S>();
    let d = vsub(&one, &cmul(&x, &x));
    cx.requires(lt(S::zero(), dot(&d, &d)));
    let q = cmul(&i(), &named_root(cx, "r", &d));
    let w = vadd(&x, &q);
    nonzero_by(cx, &w, &vsub(&x, &q));
    let r = cx.call("Complex::acos", || a.acos());
    cx.ens_v("-i ln(a + i sqrt(1 - a^2))", &zv(&r), &cmul(&vneg(&i()), &log(&w)));
}
fn asin<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let one = o::<S>();
    let d = vsub(&one, &cmul(&x, &x));
    cx.requires(lt(S::zero(), dot(&d, &d)));
    let q = named_root(cx, "r", &d);
    let ix = cmul(&i(), &x);
    let w = vadd(&ix, &q);
    nonzero_by(cx, &w, &vsub(&q, &ix));
    let r = cx.call("Complex::asin", || a.asin());
    cx.ens_v("-i ln(ia + sqrt(1 - a^2))", &zv(&r), &cmul(&vneg(&i()), &log(&w)));
}
fn atan<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let ia = cmul(&i(), &x);
    let (p, m) = (vadd(&o(), &ia), vsub(&o(), &ia));
    cx.requires(lt(S::zero(), dot(&p, &p)));
    cx.requires(lt(S::zero(), dot(&m, &m)));
    let r = cx.call("Complex::atan", || a.atan());
    let w = vscale(&vsub(&log(&p), &log(&m)), S::q(1, 2));
    cx.ens_v("-i (ln(1 + ia) - ln(1 - ia))/2", &zv(&r), &cmul(&vneg(&i()), &w));
}
fn asinh<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let d = vadd(&o(), &cmul(&x, &x));
    cx.requires(lt(S::zero(), dot(&d, &d)));
    let q = named_root(cx, "r", &d);
    let w = vadd(&x, &q);
    nonzero_by(cx, &w, &vsub(&q, &x));
    let r = cx.call("Complex::asinh", || a.asinh());
    cx.ens_v("ln(a + sqrt(1 + a^2))", &zv(&r), &log(&w));
}
fn acosh<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let (p, m) = (vadd(&x, &o()), vsub(&x, &o()));
    cx.requires(lt(S::zero(), dot(&p, &p)));
    cx.requires(lt(S::zero(), dot(&m, &m)));
    let q = named_root(cx, "q", &vscale(&p, S::q(1, 2)));
    let u = named_root(cx, "u", &vscale(&m, S::q(1, 2)));
    let w = vadd(&q, &u);
    nonzero_by(cx, &w, &vsub(&q, &u));
    let r = cx.call("Complex::acosh", || a.acosh());
    cx.ens_v("2 ln(sqrt((a+1)/2) + sqrt((a-1)/2))", &zv(&r), &vscale(&log(&w), int(2)));
}
fn atanh<S: Sc>(cx: &mut Cx<S>) {
    let (a, x) = any(cx);
    let (p, m) = (vadd(&o(), &x), vsub(&o(), &x));
    cx.requires(lt(S::zero(), dot(&p, &p)));
    cx.requires(lt(S::zero(), dot(&m, &m)));
    let r = cx.call("Complex::atanh", || a.atanh());
    let w = vscale(&vsub(&log(&p), &log(&m)), S::q(1, 2));
    cx.ens_v("(ln(1 + a) - ln(1 - a))/2", &zv(&r), &w);
    let e = cx.call("Complex::tanh", || (a.atanh() * int::<S>(2)).exp());
    cx.ens_v("exp(2 atanh a)(1 - a) = 1 + a", &cmul(&zv(&e), &m), &p);
}

// ------------------------------------------------------------------ quaternions
/// any quaternion that is not real: s + n k with n > 0 and k a unit vector
fn polar<S: Sc>(cx: &mut Cx<S>) -> (Quaternion<S>, S, S, Vec<S>) {
    cx.finite();
    let s = cx.v("s");
    let n = cx.pos("n");
    let k = S::unit_vec(cx, "k", 3);
    (Quaternion::new(s, n * k[0], n * k[1], n * k[2]), s, n, k)
}
/// the same, with a vector part that the library does not treat as zero
fn plain<S: Sc>(cx: &mut Cx<S>) -> (Quaternion<S>, S, S, Vec<S>) {
    let r = polar(cx);
    cx.requires(lt(S::eps(), r.2));
    r
}
/// re + im k
fn emb<S: Sc>(w: &[S], k: &[S]) -> Vec<S> {
    vec![w[0], w[1] * k[0], w[1] * k[1], w[1] * k[2]]
}
fn qe<S: Sc>(v: &[S]) -> Quaternion<S> {
    Quaternion::new(v[0], v[1], v[2], v[3])
}
fn q_arg<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, _) = polar(cx);
    let r = (s * s + n * n).sqrt();
    let t = cx.call("Quaternion::arg", || q.arg());
    let e = S::eps();
    cx.ensures("in [0, pi]", and(vec![le(S::zero(), t), le(t, S::pi())]));
    cx.ensures("|q| sin(arg) = |v|, unless the scalar part is negligible", imp(lt(e * e, s * s), eq(r * t.sin(), n)));
    cx.ensures("|q| cos(arg) = s, unless the scalar part is negligible", imp(lt(e * e, s * s), eq(r * t.cos(), s)));
    cx.ensures("a quarter turn when it is", imp(le(s * s, e * e), eq(t, S::pi() / int(2))));
}
fn q_exp<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = plain(cx);
    let r = cx.call("Quaternion::exp", || q.exp());
    cx.ens_v("e^s (cos n + k sin n)", &qv(&r), &emb(&zexp(&[s, n]), &k));
}
fn q_exp_real<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let s = cx.v("s");
    let f = cx.unit01("f");
    cx.requires(lt(f, S::one()));
    let n = S::eps() * f;
    let k = S::unit_vec(cx, "k", 3);
    let q = Quaternion::new(s, n * k[0], n * k[1], n * k[2]);
    let r = cx.call("Quaternion::exp", || q.exp());
    cx.ens_v("e^s when the vector part is negligible", &qv(&r), &[s.exp(), S::zero(), S::zero(), S::zero()]);
    cx.requires(ne(s, S::zero()));
    let r = cx.call("Quaternion::ln", || q.ln());
    cx.ens_v("ln |s| when the vector part is negligible", &qv(&r), &[s.abs().ln(), S::zero(), S::zero(), S::zero()]);
}
fn q_ln<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = plain(cx);
    let l = (s * s + n * n).sqrt();
    let r = cx.call("Quaternion::ln", || q.ln());
    cx.ens("scalar part ln |q|", r.scalar(), l.ln());
    let t = dot(&qv(&r)[1..4], &k);
    cx.ens_v("vector part along the axis", &qv(&r)[1..4], &vscale(&k, t));
    cx.ens_v("by the angle of q", &[l * t.cos(), l * t.sin()], &[s, n]);
    cx.ensures("in (0, pi)", and(vec![le(S::zero(), t), le(t, S::pi())]));
}
fn q_ln_real<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let s = cx.nonzero("s");
    let q = Quaternion::new(s, S::zero(), S::zero(), S::zero());
    let r = cx.call("Quaternion::ln", || q.ln());
    cx.ens_v("ln |s|", &qv(&r), &[s.abs().ln(), S::zero(), S::zero(), S::zero()]);
}
fn q_exp_ln<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = plain(cx);
    let l = q.ln();
    let t = dot(&qv(&l)[1..4], &k);
    cx.requires(lt(S::eps(), t));
    let r = cx.call("Quaternion::exp", || l.exp());
    cx.ens_v("exp(ln q) = q", &qv(&r), &emb(&[s, n], &k));
}
fn q_powf<S: Sc>(cx: &mut Cx<S>, sign: i64) {
    let (q, _, _, k) = plain(cx);
    let l = q.ln();
    let t = dot(&qv(&l)[1..4], &k);
    let m = cx.pos("m");
    let p = m * int(sign);
    cx.requires(lt(S::eps(), m * t));
    let w = emb(&zexp(&[p * l.scalar(), p * t]), &k);
    let r = cx.call("Quaternion::powf", || q.powf(p));
    cx.ens_v("exp(p ln q)", &qv(&r), &w);
}
fn q_powf_pos<S: Sc>(cx: &mut Cx<S>) {
    q_powf(cx, 1)
}
fn q_powf_neg<S: Sc>(cx: &mut Cx<S>) {
    q_powf(cx, -1)
}
fn q_sqrt<S: Sc>(cx: &mut Cx<S>) {
    let (q, _, _, k) = plain(cx);
    let r = cx.call("Quaternion::sqrt", || q.sqrt());
    cx.ens_v("squares back", &qmul(&qv(&r), &qv(&r)), &qv(&q));
    cx.ensures("scalar part not negative", le(S::zero(), r.scalar()));
    let t = dot(&qv(&r)[1..4], &k);
    cx.ens_v("vector part along the axis", &qv(&r)[1..4], &vscale(&k, t));
}
fn q_sqrt_real<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let s = cx.v("s");
    cx.requires(lt(S::eps() * S::eps(), s * s));
    let q = Quaternion::new(s, S::zero(), S::zero(), S::zero());
    let r = cx.call("Quaternion::sqrt", || q.sqrt());
    cx.ens_v("squares back", &qmul(&qv(&r), &qv(&r)), &qv(&q));
    cx.ensures("scalar part not negative", le(S::zero(), r.scalar()));
    let w = cx.call("Quaternion::sqrt", || Quaternion::<S>::zero().sqrt());
    cx.ens_v("zero", &qv(&w), &vec![S::zero(); 4]);
}
fn q_polar<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = polar(cx);
    let (l, t, u) = cx.call("Quaternion::polar_decomposition", || q.polar_decomposition());
    cx.ens("the norm", l, (s * s + n * n).sqrt());
    cx.ensures("the half angle, in [0, pi]", and(vec![le(S::zero(), t.0), le(t.0, S::pi())]));
    match u {
        None => cx.ensures("a quaternion that is not real has an axis", is(false)),
        Some(u) => {
            cx.ens_v("the axis", &vv(u.as_ref()), &k);
            cx.ens_v("|q| (cos t + axis sin t) = q", &emb(&[l * t.0.cos(), l * t.0.sin()], &k), &qv(&q));
        }
    }
}
fn q_polar_real<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let s = cx.v("s");
    let q = Quaternion::new(s, S::zero(), S::zero(), S::zero());
    let (l, _, u) = cx.call("Quaternion::polar_decomposition", || q.polar_decomposition());
    cx.ens("the norm", l, s.abs());
    cx.ensures("a real has no axis", is(u.is_none()));
}
fn q_from_polar<S: Sc>(cx: &mut Cx<S>) {
    let (u, k) = cx.unit::<3>("k");
    let l = cx.v("l");
    let t = cx.angle("t");
    let q = cx.call("Quaternion::from_polar_decomposition", || Quaternion::from_polar_decomposition(l, cglinalg_trigonometry::Radians(t), &u));
    let h = t / int(2);
    cx.ens_v("l (cos t/2 + axis sin t/2)", &qv(&q), &emb(&[l * h.cos(), l * h.sin()], &k));
}
fn q_trig<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = polar(cx);
    let x = [s, n];
    let r = cx.call("Quaternion::cos", || q.cos());
    cx.ens_v("cos(s + in) along k", &qv(&r), &emb(&zcos(&x), &k));
    let r = cx.call("Quaternion::sin", || q.sin());
    cx.ens_v("sin(s + in) along k", &qv(&r), &emb(&zsin(&x), &k));
    let r = cx.call("Quaternion::cosh", || q.cosh());
    cx.ens_v("cosh(s + in) along k", &qv(&r), &emb(&zcosh(&x), &k));
    let r = cx.call("Quaternion::sinh", || q.sinh());
    cx.ens_v("sinh(s + in) along k", &qv(&r), &emb(&zsinh(&x), &k));
}
fn q_trig_real<S: Sc>(cx: &mut Cx<S>) {
    cx.finite();
    let s = cx.v("s");
    let z = S::zero();
    let q = Quaternion::new(s, z, z, z);
    let r = cx.call("Quaternion::cos, sin, cosh, sinh, tanh", || [q.cos(), q.sin(), q.cosh(), q.sinh(), q.tanh()]);
    let w = [s.cos(), s.sin(), s.cosh(), s.sinh(), s.tanh()];
    for (a, b) in r.iter().zip(w) {
        cx.ens_v("the real function", &qv(a), &[b, z, z, z]);
    }
    cx.requires(ne(s.cos(), z));
    let r = cx.call("Quaternion::tan", || q.tan());
    cx.ens_v("the real function", &qv(&r), &[s.tan(), z, z, z]);
}
fn q_tan<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = polar(cx);
    let c = zcos(&[s, n]);
    cx.requires(lt(S::zero(), dot(&c, &c)));
    let r = cx.call("Quaternion::tan", || q.tan());
    cx.ens_v("tan cos = sin", &qmul(&qv(&r), &emb(&c, &k)), &emb(&zsin(&[s, n]), &k));
}
fn q_tanh<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = polar(cx);
    let c = zcosh(&[s, n]);
    cx.requires(lt(S::zero(), dot(&c, &c)));
    let r = cx.call("Quaternion::tanh", || q.tanh());
    cx.ens_v("tanh cosh = sinh", &qmul(&qv(&r), &emb(&c, &k)), &emb(&zsinh(&[s, n]), &k));
}
/// k times the argument
fn kmul<S: Sc>(k: &[S], q: &[S]) -> Vec<S> {
    qmul(&[S::zero(), k[0], k[1], k[2]], q)
}
/// neither real nor pure, both parts of the square beyond the library's threshold
fn generic<S: Sc>(cx: &mut Cx<S>) -> (Quaternion<S>, S, S, Vec<S>) {
    let (q, s, n, k) = plain(cx);
    let e = S::eps();
    let m = int::<S>(2) * s * n;
    cx.requires(lt(e * e, m * m));
    (q, s, n, k)
}
fn pure<S: Sc>(cx: &mut Cx<S>) -> (Quaternion<S>, S, Vec<S>) {
    cx.finite();
    let n = cx.pos("n");
    cx.requires(lt(S::eps(), n));
    let k = S::unit_vec(cx, "k", 3);
    (Quaternion::new(S::zero(), n * k[0], n * k[1], n * k[2]), n, k)
}
/// not in the band where the library takes a non-real quaternion for a real one
fn apart<S: Sc>(cx: &mut Cx<S>, w: &[S], k: &[S]) {
    let t = dot(&w[1..4], k);
    cx.requires(lt(S::eps() * S::eps(), t * t));
    // both implied by the line before
    cx.requires(lt(S::zero(), dot(&w[1..4], &w[1..4])));
    cx.requires(lt(S::zero(), dot(w, w)));
}
/// r = re + t k with e^t = m, for m > 0
fn with_exp<S: Sc>(cx: &mut Cx<S>, r: &Quaternion<S>, re: S, f: i64, m: S, k: &[S]) {
    let t = dot(&qv(r)[1..4], k);
    cx.ens_v("along the axis", &qv(r), &emb(&[re, t], k));
    let e = (t * int(f)).exp();
    cx.ens("squared exponential of the component", e * e, m * m);
}
fn q_acos<S: Sc>(cx: &mut Cx<S>) {
    let (q, _, _, k) = generic(cx);
    let x = qv(&q);
    let d = vsub(&basis(4, 0), &qmul(&x, &x));
    let w = vadd(&x, &kmul(&k, &qv(&qe(&d).sqrt())));
    apart(cx, &w, &k);
    let r = cx.call("Quaternion::acos", || q.acos());
    cx.ens_v("-k ln(q + k sqrt(1 - q^2))", &qv(&r), &vneg(&kmul(&k, &qv(&qe(&w).ln()))));
}
fn q_acos_pure<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    let r = cx.call("Quaternion::acos", || q.acos());
    // pi/2 - k asinh |q|
    with_exp(cx, &r, S::pi() / int(2), -1, n + (n * n + S::one()).sqrt(), &k);
}
fn q_asin<S: Sc>(cx: &mut Cx<S>) {
    let (q, _, _, k) = generic(cx);
    let x = qv(&q);
    let d = vsub(&basis(4, 0), &qmul(&x, &x));
    let w = vadd(&kmul(&k, &x), &qv(&qe(&d).sqrt()));
    apart(cx, &w, &k);
    let r = cx.call("Quaternion::asin", || q.asin());
    cx.ens_v("-k ln(k q + sqrt(1 - q^2))", &qv(&r), &vneg(&kmul(&k, &qv(&qe(&w).ln()))));
}
fn q_asin_pure<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    let r = cx.call("Quaternion::asin", || q.asin());
    // k asinh |q|
    with_exp(cx, &r, S::zero(), 1, n + (n * n + S::one()).sqrt(), &k);
}
fn q_atan<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = generic(cx);
    let e = S::eps();
    // k - q is invertible for the library, (k + q)/(k - q) is not taken for a real
    let d = s * s + (S::one() - n) * (S::one() - n);
    cx.requires(lt(e * e, d));
    let w = zdiv(&[s, S::one() + n], &[-s, S::one() - n]);
    cx.requires(lt(e * e, w[1] * w[1]));
    let r = cx.call("Quaternion::atan", || q.atan());
    let v = vscale(&kmul(&k, &qv(&qe(&emb(&w, &k)).ln())), S::q(1, 2));
    cx.ens_v("k/2 ln((k + q)/(k - q))", &qv(&r), &v);
}
fn q_atan_pure<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    let e = S::eps();
    let d = (S::one() - n) * (S::one() - n);
    cx.requires(lt(e * e, d));
    cx.requires(lt(n, S::one()));
    let r = cx.call("Quaternion::atan", || q.atan());
    // k atanh |q|
    with_exp(cx, &r, S::zero(), 2, (S::one() + n) / (S::one() - n), &k);
}
fn q_asinh<S: Sc>(cx: &mut Cx<S>) {
    let (q, _, _, k) = generic(cx);
    let x = qv(&q);
    let d = vadd(&basis(4, 0), &qmul(&x, &x));
    let w = vadd(&x, &qv(&qe(&d).sqrt()));
    apart(cx, &w, &k);
    let r = cx.call("Quaternion::asinh", || q.asinh());
    cx.ens_v("ln(q + sqrt(q^2 + 1))", &qv(&r), &qv(&qe(&w).ln()));
}
fn q_asinh_pure<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    let e = S::eps();
    let d = S::one() - n * n;
    cx.requires(lt(e, d));
    let r = cx.call("Quaternion::asinh", || q.asinh());
    cx.ens_v("k asin |q|", &qv(&r), &qv(&qe(&emb(&[d.sqrt(), n], &k)).ln()));
    cx.ens("real part zero", r.scalar(), S::zero());
}
fn q_asinh_far<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    let d = n * n - S::one();
    cx.requires(lt(S::eps(), d));
    let z = S::zero();
    let w = vadd(&qv(&q), &[z, d.sqrt(), z, z]);
    cx.requires(lt(S::eps(), dot(&w[1..4], &w[1..4])));
    let r = cx.call("Quaternion::asinh", || q.asinh());
    let c = cross(&qv(&r)[1..4], &k);
    let dev = all_eq(&qv(&r), &qv(&qe(&w).ln()));
    cx.ensures_known("asinh of a pure quaternion beyond 1 has the axis of its argument", all_eq(&c, &[z, z, z]), "C10-asinh-pure", dev);
}
fn q_atan_far<S: Sc>(cx: &mut Cx<S>) {
    let (q, n, k) = pure(cx);
    cx.requires(lt(int(2), n));
    let z = S::zero();
    let h = S::pi() / int(2);
    let r = cx.call("Quaternion::atan", || q.atan());
    let t = dot(&qv(&r)[1..4], &k);
    cx.ens_v("along the axis", &qv(&r)[1..4], &vscale(&k, t));
    cx.ensures_known("atan of a pure quaternion beyond 1 has scalar part plus or minus pi/2", eq(r.scalar() * r.scalar(), h * h), "C10-atan-pure", eq(r.scalar(), z));
}
fn q_acosh<S: Sc>(cx: &mut Cx<S>) {
    let (q, _, n, k) = plain(cx);
    let x = qv(&q);
    let one = basis::<S>(4, 0);
    let w = vadd(&x, &qmul(&qv(&qe(&vadd(&x, &one)).sqrt()), &qv(&qe(&vsub(&x, &one)).sqrt())));
    apart(cx, &w, &k);
    cx.requires(lt(S::zero(), dot(&w[1..4], &w[1..4]) / (n * n)));
    let r = cx.call("Quaternion::acosh", || q.acosh());
    cx.ens_v("ln(q + sqrt(q + 1) sqrt(q - 1))", &qv(&r), &qv(&qe(&w).ln()));
}
fn q_atanh<S: Sc>(cx: &mut Cx<S>) {
    let (q, s, n, k) = plain(cx);
    let r = cx.call("Quaternion::atanh", || q.atanh());
    let o = S::one();
    let p = qv(&qe(&emb(&[o + s, n], &k)).ln());
    let m = qv(&qe(&emb(&[o - s, -n], &k)).ln());
    cx.ens_v("(ln(1 + q) - ln(1 - q))/2", &qv(&r), &vscale(&vsub(&p, &m), S::q(1, 2)));
}
pub fn all() -> Vec<Contract> {
    crate::contracts![exp, ln, sqrt, sqrt_zero, cbrt, powu, powi_negative, powf, powc_zero, trig, tan, tanh, cis, acos_zero, acos, asin, atan, asinh, acosh, atanh,
        q_arg, q_exp, q_exp_real, q_ln, q_ln_real, q_exp_ln, q_powf_pos, q_powf_neg, q_acos, q_acos_pure, q_asin, q_asin_pure, q_atan, q_atan_pure, q_asinh, q_asinh_pure, q_asinh_far, q_atan_far, q_acosh, q_atanh,
        q_sqrt, q_sqrt_real, q_polar, q_polar_real, q_from_polar, q_trig, q_trig_real, q_tan, q_tanh]
}
