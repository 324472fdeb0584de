//! C11: complex arithmetic.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;
use cglinalg_trigonometry::*;

fn one<S: Sc>() -> Vec<S> {
    basis(2, 0)
}
fn cdiv<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    let n = dot(b, b);
    let p = cmul(a, &[b[0], -b[1]]);
    vec![p[0] / n, p[1] / n]
}
fn add_sub<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    let k = cx.v("k");
    let (x, y) = (zv(&a), zv(&b));
    let r = cx.call("Complex + Complex", || {
        let (mut p, mut q) = (a, a);
        p += b;
        q += &b;
        [a + b, a + &b, &a + b, &a + &b, p, q]
    });
    for q in &r {
        cx.ens_v("componentwise sum", &zv(q), &vadd(&x, &y));
    }
    let r = cx.call("Complex - Complex", || {
        let (mut p, mut q) = (a, a);
        p -= b;
        q -= &b;
        [a - b, a - &b, &a - b, &a - &b, p, q]
    });
    for q in &r {
        cx.ens_v("componentwise difference", &zv(q), &vsub(&x, &y));
    }
    let r = cx.call("-Complex", || [-a, -&a]);
    for q in &r {
        cx.ens_v("componentwise negation", &zv(q), &vneg(&x));
    }
    let r = cx.call("Complex + scalar", || {
        let (mut p, mut q) = (a, a);
        p += k;
        q += &k;
        [a + k, a + &k, &a + k, &a + &k, p, q]
    });
    for q in &r {
        cx.ens_v("added to the real part", &zv(q), &[x[0] + k, x[1]]);
    }
    let r = cx.call("Complex - scalar", || {
        let (mut p, mut q) = (a, a);
        p -= k;
        q -= &k;
        [a - k, a - &k, &a - k, &a - &k, p, q]
    });
    for q in &r {
        cx.ens_v("taken from the real part", &zv(q), &[x[0] - k, x[1]]);
    }
    cx.ens_v("operands unchanged", &zv(&a), &x);
    cx.ens_v("operands unchanged", &zv(&b), &y);
}
fn mul<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    let c = cx.complex("c");
    let k = cx.v("k");
    let (x, y) = (zv(&a), zv(&b));
    let w = cmul(&x, &y);
    let r = cx.call("Complex * Complex", || {
        let (mut p, mut q) = (a, a);
        p *= b;
        q *= &b;
        [a * b, a * &b, &a * b, &a * &b, p, q]
    });
    for q in &r {
        cx.ens_v("complex product", &zv(q), &w);
    }
    let r = cx.call("Complex * scalar", || {
        let (mut p, mut q) = (a, a);
        p *= k;
        q *= &k;
        [a * k, a * &k, &a * k, &a * &k, p, q, a.scale(k)]
    });
    for q in &r {
        cx.ens_v("every component times k", &zv(q), &vscale(&x, k));
    }
    let (l, m) = cx.call("Complex * Complex", || (a * b, b * a));
    cx.ens_v("commutative", &zv(&l), &zv(&m));
    let (l, m) = cx.call("Complex * Complex", || ((a * b) * c, a * (b * c)));
    cx.ens_v("associative", &zv(&l), &zv(&m));
    let (l, m) = cx.call("Complex * Complex", || (a * (b + c), a * b + a * c));
    cx.ens_v("distributes over addition", &zv(&l), &zv(&m));
    let n = cx.call("Complex::norm_squared", || (a * b).norm_squared());
    cx.ens("modulus is multiplicative", n, dot(&x, &x) * dot(&y, &y));
    let s = cx.call("Complex::squared", || a.squared());
    cx.ens_v("a a", &zv(&s), &cmul(&x, &x));
    let s = cx.call("Complex::cubed", || a.cubed());
    cx.ens_v("a a a", &zv(&s), &cmul(&cmul(&x, &x), &x));
}
fn div<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    let (x, y) = (zv(&a), zv(&b));
    cx.requires(lt(S::zero(), dot(&y, &y)));
    let r = cx.call("Complex / Complex", || {
        let (mut p, mut q) = (a, a);
        p /= b;
        q /= &b;
        [a / b, a / &b, &a / b, &a / &b, p, q]
    });
    for q in &r {
        cx.ens_v("complex quotient", &zv(q), &cdiv(&x, &y));
    }
}
fn div_back<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    let (x, y) = (zv(&a), zv(&b));
    cx.requires(ne(dot(&y, &y), S::zero()));
    let q = cx.call("Complex / Complex", || a / b);
    cx.ens_v("(a/b) b = a", &cmul(&zv(&q), &y), &x);
}
fn scalar_div<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    let d = cx.nonzero("d");
    let r = cx.call("Complex / scalar", || {
        let (mut p, mut q) = (a, a);
        p /= d;
        q /= &d;
        [a / d, a / &d, &a / d, &a / &d, p, q, a.unscale(d)]
    });
    let w: Vec<S> = x.iter().map(|e| *e / d).collect();
    for q in &r {
        cx.ens_v("every component over d", &zv(q), &w);
    }
    let r = cx.call("Complex % scalar", || {
        let (mut p, mut q) = (a, a);
        p %= d;
        q %= &d;
        [a % d, a % &d, &a % d, &a % &d, p, q]
    });
    let w: Vec<S> = x.iter().map(|e| *e % d).collect();
    for q in &r {
        cx.ens_v("every component modulo d", &zv(q), &w);
    }
}
fn conjugate<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    let x = zv(&a);
    let c = cx.call("Complex::conjugate", || a.conjugate());
    cx.ens_v("imaginary part negated", &zv(&c), &[x[0], -x[1]]);
    let (l, r) = cx.call("Complex::conjugate", || ((a * b).conjugate(), a.conjugate() * b.conjugate()));
    cx.ens_v("homomorphism", &zv(&l), &zv(&r));
    let p = cx.call("Complex::conjugate", || a * a.conjugate());
    cx.ens_v("a a* = |a|^2", &zv(&p), &[dot(&x, &x), S::zero()]);
}
fn parts<S: Sc>(cx: &mut Cx<S>) {
    let a: [S; 2] = cx.arr("a");
    let z = S::zero();
    let o = S::one();
    let q = cx.call("Complex::new", || Complex::new(a[0], a[1]));
    cx.ens_v("real then imaginary", &raw::<S, _>(&q), &a);
    cx.ens_v("fields", &[q.re, q.im], &a);
    let r = cx.call("Complex::real, imaginary", || [q.real(), q.imaginary()]);
    cx.ens_v("the parts", &r, &a);
    let r = cx.call("Complex::from_real, from_imaginary", || [Complex::from_real(a[0]), Complex::from_imaginary(a[0]), Complex::from(a[0]), Complex::from(&a[0])]);
    cx.ens_v("real", &zv(&r[0]), &[a[0], z]);
    cx.ens_v("imaginary", &zv(&r[1]), &[z, a[0]]);
    cx.ens_v("real", &zv(&r[2]), &[a[0], z]);
    cx.ens_v("real", &zv(&r[3]), &[a[0], z]);
    let r = cx.call("Complex::identity, one, unit_re", || [Complex::<S>::identity(), Complex::one(), Complex::unit_re()]);
    for c in &r {
        cx.ens_v("one", &zv(c), &[o, z]);
    }
    let r = cx.call("Complex::zero, default", || [Complex::<S>::zero(), Complex::default()]);
    for c in &r {
        cx.ens_v("zero", &zv(c), &[z, z]);
    }
    let i = cx.call("Complex::unit_im", || Complex::<S>::unit_im());
    cx.ens_v("i", &zv(&i), &[z, o]);
    let r = cx.call("Complex * Complex", || i * i);
    cx.ens_v("i i = -1", &zv(&r), &[-o, z]);
    let p = cx.call("Complex::identity", || [Complex::identity() * q, q * Complex::identity(), q + Complex::zero(), q - Complex::zero()]);
    for c in &p {
        cx.ens_v("neutral", &zv(c), &a);
    }
    let m = cx.call("Complex::map", || q.map(|e| e * e + S::one()));
    cx.ens_v("applied to every component", &zv(&m), &a.iter().map(|e| *e * *e + S::one()).collect::<Vec<_>>());
    cx.ensures("len, shape, is_empty", is(q.len() == 2 && q.shape() == (2, 1) && !q.is_empty()));
}
fn predicates<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    let z = S::zero();
    let b = cx.call("Complex::is_zero", || a.is_zero());
    cx.agrees("both parts zero", b, all_eq(&x, &[z, z]));
    let b = cx.call("Complex::is_identity", || a.is_identity());
    cx.agrees("equals one", b, all_eq(&x, &one()));
    let b = cx.call("Complex::is_one", || a.is_one());
    cx.agrees("equals one", b, all_eq(&x, &one()));
    let b = cx.call("Complex::is_real", || a.is_real());
    cx.agrees("imaginary part zero", b, eq(x[1], z));
    let b = cx.call("Complex::is_imaginary", || a.is_imaginary());
    cx.agrees("real part zero", b, eq(x[0], z));
    let c = cx.complex("c");
    let b = cx.call("Complex == Complex", || a == c);
    cx.agrees("both parts equal", b, all_eq(&x, &zv(&c)));
}
fn classes<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    let p = |n: &'static str, i: usize| crate::term::F::Pred(n, vec![x[i]]);
    let b = cx.call("Complex::is_finite", || a.is_finite());
    cx.agrees("both parts finite", b, and(vec![p("is_finite", 0), p("is_finite", 1)]));
    let b = cx.call("Complex::is_nan", || a.is_nan());
    cx.agrees("some part not a number", b, or(vec![p("is_nan", 0), p("is_nan", 1)]));
    let b = cx.call("Complex::is_infinite", || a.is_infinite());
    cx.agrees("some part infinite, none not a number", b, and(vec![nt(or(vec![p("is_nan", 0), p("is_nan", 1)])), or(vec![p("is_infinite", 0), p("is_infinite", 1)])]));
}
fn moduli<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    let n2 = dot(&x, &x);
    let r = cx.call("Complex::norm_squared, modulus_squared, magnitude_squared", || [a.norm_squared(), a.modulus_squared(), a.magnitude_squared()]);
    for v in r {
        cx.ens("sum of squares", v, n2);
    }
    let r = cx.call("Complex::norm, modulus, magnitude, l2_norm", || [a.norm(), a.modulus(), a.magnitude(), a.l2_norm()]);
    for v in r {
        cx.ens("root of the sum of squares", v, n2.sqrt());
    }
    let n = cx.call("Complex::l1_norm", || a.l1_norm());
    cx.ens("sum of absolute values", n, x[0].abs() + x[1].abs());
}
fn inverse<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    let n2 = dot(&x, &x);
    let e2 = S::eps() * S::eps();
    match cx.call("Complex::try_inverse", || a.try_inverse()) {
        None => cx.ensures("refused only for zero", all_eq(&x, &[S::zero(), S::zero()])),
        Some(i) => {
            cx.ensures("zero has none", nt(all_eq(&x, &[S::zero(), S::zero()])));
            cx.ens_v("a inverse(a) = 1", &cmul(&x, &zv(&i)), &one());
        }
    }
    let b = cx.call("Complex::is_invertible", || a.is_invertible());
    cx.ensures("modulus not negligible", if b { le(e2, n2) } else { le(n2, e2) });
}
fn inverse_some<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    cx.requires(lt(S::zero(), dot(&x, &x)));
    let i = cx.call("Complex::inverse", || a.inverse());
    cx.ens_v("a inverse(a) = 1", &cmul(&x, &zv(&i)), &one());
}
fn inverse_zero<S: Sc>(cx: &mut Cx<S>) {
    let a = Complex::<S>::zero();
    cx.must_panic("Complex::inverse", || a.inverse());
}
fn arg<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let x = zv(&a);
    cx.requires(lt(S::zero(), dot(&x, &x)));
    let r = dot(&x, &x).sqrt();
    let t = cx.call("Complex::arg", || a.arg());
    cx.ens("r cos(arg) = re", r * t.cos(), x[0]);
    cx.ens("r sin(arg) = im", r * t.sin(), x[1]);
    cx.ensures("within (-pi, pi]", and(vec![lt(-S::pi(), t), le(t, S::pi())]));
    let (s, p) = cx.call("Complex::polar_decomposition", || a.polar_decomposition());
    cx.ens("the modulus", s, r);
    cx.ens("the argument", p.0, t);
    let b = cx.call("Complex::from_polar_decomposition", || Complex::from_polar_decomposition(s, p));
    cx.ens_v("rebuilt from the polar form", &zv(&b), &x);
}
fn polar<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.angle("t");
    let s = cx.v("s");
    let d = cx.angle("d");
    let rad = S::pi() * d / int(180);
    let r = cx.call("Complex::from_polar_decomposition", || [Complex::from_polar_decomposition(s, Radians(t)), Complex::from_polar_decomposition(s, Degrees(d))]);
    cx.ens_v("s (cos t, sin t)", &zv(&r[0]), &[s * t.cos(), s * t.sin()]);
    cx.ens_v("s (cos d, sin d)", &zv(&r[1]), &[s * rad.cos(), s * rad.sin()]);
    let r = cx.call("Complex::from_angle", || [Complex::from_angle(Radians(t)), Complex::from_angle(Degrees(d))]);
    cx.ens_v("(cos t, sin t)", &zv(&r[0]), &[t.cos(), t.sin()]);
    cx.ens_v("(cos d, sin d)", &zv(&r[1]), &[rad.cos(), rad.sin()]);
    cx.ens("unit modulus", dot(&zv(&r[0]), &zv(&r[0])), S::one());
    let c = cx.call("Complex::cis", || Complex::cis(t));
    cx.ens_v("(cos t, sin t)", &zv(&c), &[t.cos(), t.sin()]);
    let z = cx.complex("z");
    let w = cx.call("Complex * Complex", || Complex::from_angle(Radians(t)) * z);
    cx.ens_v("rotates the plane by the angle", &zv(&w), &mvm(&rot2(t.cos(), t.sin()), &zv(&z)));
    let u = cx.angle("u");
    let w = cx.call("Complex * Complex", || Complex::from_angle(Radians(t)) * Complex::from_angle(Radians(u)));
    cx.ens_v("angles add", &zv(&w), &[(t + u).cos(), (t + u).sin()]);
}
fn normed_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    let b = cx.complex("b");
    normed(cx, "Complex", a, b, |q| zv(q));
}
fn normalize_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    normalizing(cx, "Complex", a, |q| zv(q));
}
fn try_normalize_ops<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.complex("a");
    try_normalizing(cx, "Complex", a, |q| zv(q));
}
fn unit_neg<S: Sc>(cx: &mut Cx<S>) {
    let v = S::unit_vec(cx, "u", 2);
    let u = Unit::from_value_unchecked(Complex::new(v[0], v[1]));
    let r = cx.call("-Unit<Complex>", || [-u, -&u]);
    for q in &r {
        cx.ens_v("negated", &zv(q.as_ref()), &vneg(&v));
    }
}

pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        add_sub, mul, div, div_back, scalar_div, conjugate, parts, predicates, classes, moduli, inverse, inverse_some, inverse_zero, arg, polar,
        normed_ops, normalize_ops, try_normalize_ops, unit_neg,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole add_sub, mul, div, scalar_div, conjugate]);
    v
}
