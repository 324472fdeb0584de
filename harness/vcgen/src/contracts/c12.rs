//! C12: angles.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_trigonometry::*;

fn pi<S: Sc>() -> S {
    S::pi()
}
/// the measure of a full turn in each unit, from first principles
trait Measure<S: Sc>: Angle<Dimensionless = S> + Copy {
    const NAME: &'static str;
    fn of(x: S) -> Self;
    fn get(self) -> S;
    fn turn() -> S;
    fn rad(x: S) -> S;
}
impl<S: Sc> Measure<S> for Radians<S> {
    const NAME: &'static str = "Radians";
    fn of(x: S) -> Self {
        Radians(x)
    }
    fn get(self) -> S {
        self.0
    }
    fn turn() -> S {
        int::<S>(2) * pi()
    }
    fn rad(x: S) -> S {
        x
    }
}
impl<S: Sc> Measure<S> for Degrees<S> {
    const NAME: &'static str = "Degrees";
    fn of(x: S) -> Self {
        Degrees(x)
    }
    fn get(self) -> S {
        self.0
    }
    fn turn() -> S {
        int(360)
    }
    fn rad(x: S) -> S {
        x * pi() / int(180)
    }
}
fn at<S: Sc, A: Measure<S>>(f: &str) -> String {
    format!("{}: {}", A::NAME, f)
}

fn conversion<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.v("x");
    let r: Radians<S> = cx.call("From<Degrees> for Radians", || Radians::from(Degrees(x)));
    cx.ens("180 degrees are pi", r.0 * int(180), x * pi());
    let d: Degrees<S> = cx.call("From<Radians> for Degrees", || Degrees::from(Radians(x)));
    cx.ens("pi is 180 degrees", d.0 * pi(), x * int(180));
    let b: Degrees<S> = cx.call("Degrees -> Radians -> Degrees", || Degrees::from(Radians::from(Degrees(x))));
    cx.ens("round trip", b.0, x);
    let b: Radians<S> = cx.call("Radians -> Degrees -> Radians", || Radians::from(Degrees::from(Radians(x))));
    cx.ens("round trip", b.0, x);
}
macro_rules! arithmetic {
    ($name:ident, $A:ident) => {
        fn $name<S: Sc>(cx: &mut Cx<S>) {
            let n = stringify!($A);
            let at = |f: &str| format!("{}: {}", n, f);
            let (x, y, k) = (cx.v("x"), cx.v("y"), cx.v("k"));
            let (a, b) = ($A(x), $A(y));
            let r = cx.call(&at("angle + angle"), || {
                let mut p = a;
                p += b;
                [a + b, a + &b, &a + b, &a + &b, p]
            });
            for q in &r {
                cx.ens("sum of the measures", q.0, x + y);
            }
            let r = cx.call(&at("angle - angle"), || {
                let mut p = a;
                p -= b;
                [a - b, a - &b, &a - b, &a - &b, p]
            });
            for q in &r {
                cx.ens("difference of the measures", q.0, x - y);
            }
            let r = cx.call(&at("-angle"), || [-a, -&a]);
            for q in &r {
                cx.ens("negated measure", q.0, -x);
            }
            let r = cx.call(&at("angle * scalar"), || {
                let mut p = a;
                p *= k;
                [a * k, &a * k, p]
            });
            for q in &r {
                cx.ens("scaled measure", q.0, x * k);
            }
            let z: [$A<S>; 3] = cx.call(&at("zero, default"), || [$A::<S>::zero(), <$A<S> as Angle>::zero(), $A::default()]);
            for q in &z {
                cx.ens("measure zero", q.0, S::zero());
            }
            let iz = cx.call(&at("is_zero"), || $A::is_zero(&a));
            cx.agrees("exactly for measure zero", iz, eq(x, S::zero()));
            let iz = cx.call(&at("Angle::is_zero"), || Angle::is_zero(b));
            cx.agrees("exactly for measure zero", iz, eq(y, S::zero()));
            let e = cx.call(&at("=="), || a == b);
            cx.agrees("exactly for equal measures", e, eq(x, y));
            let e = cx.call(&at("<"), || a < b);
            cx.agrees("exactly for a smaller measure", e, lt(x, y));
            cx.ens("operands unchanged", a.0 + k * b.0, x + k * y);
        }
    };
}
arithmetic!(arithmetic_radians, Radians);
arithmetic!(arithmetic_degrees, Degrees);
macro_rules! division {
    ($name:ident, $A:ident) => {
        fn $name<S: Sc>(cx: &mut Cx<S>) {
            let n = stringify!($A);
            let at = |f: &str| format!("{}: {}", n, f);
            let x = cx.v("x");
            let (y, k) = (cx.nonzero("y"), cx.nonzero("k"));
            let (a, b) = ($A(x), $A(y));
            let r = cx.call(&at("angle / scalar"), || {
                let mut p = a;
                p /= k;
                [a / k, &a / k, p]
            });
            for q in &r {
                cx.ens("measure over the scalar", q.0, x / k);
            }
            let r = cx.call(&at("angle / angle"), || [a / b, a / &b, &a / b, &a / &b]);
            for q in &r {
                cx.ens("ratio of the measures", *q, x / y);
            }
            let r = cx.call(&at("angle % angle"), || {
                let mut p = a;
                p %= b;
                [a % b, a % &b, &a % b, &a % &b, p]
            });
            for q in &r {
                cx.ens("remainder of truncated division of the measures", q.0, x - y * (x / y).trunc());
            }
        }
    };
}
division!(division_radians, Radians);
division!(division_degrees, Degrees);

fn turns<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let f = A::turn();
    let r = cx.call(&at::<S, A>("full_turn"), || A::full_turn());
    cx.ens("a full turn", r.get(), f);
    let r = cx.call(&at::<S, A>("full_turn_div_2"), || A::full_turn_div_2());
    cx.ens("a half turn", r.get() * int(2), f);
    let r = cx.call(&at::<S, A>("full_turn_div_4"), || A::full_turn_div_4());
    cx.ens("a quarter turn", r.get() * int(4), f);
    let r = cx.call(&at::<S, A>("full_turn_div_6"), || A::full_turn_div_6());
    cx.ens("a sixth of a turn", r.get() * int(6), f);
    let r = cx.call(&at::<S, A>("full_turn_div_8"), || A::full_turn_div_8());
    cx.ens("an eighth of a turn", r.get() * int(8), f);
}
fn finite<S: Sc, A: Measure<S>>(cx: &mut Cx<S>, q: impl Fn(A) -> bool) {
    let x = cx.v("x");
    let r = cx.call(&at::<S, A>("is_finite"), || q(A::of(x)));
    cx.agrees("exactly for a finite measure", r, crate::term::F::Pred("is_finite", vec![x]));
}
fn finite_r<S: Sc>(cx: &mut Cx<S>) {
    finite::<S, Radians<S>>(cx, |a| a.is_finite())
}
fn finite_d<S: Sc>(cx: &mut Cx<S>) {
    finite::<S, Degrees<S>>(cx, |a| a.is_finite())
}
/// every angle is `u` turns for some real `u`
fn in_turns<S: Sc, A: Measure<S>>(cx: &mut Cx<S>, name: &str) -> (S, A) {
    let u = cx.v(name);
    (u, A::of(u * A::turn()))
}
fn normalize<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let (u, a) = in_turns::<S, A>(cx, "turns");
    let f = A::turn();
    let r = cx.call(&at::<S, A>("normalize"), || a.normalize()).get();
    cx.ensures("within [0, full turn)", and(vec![le(S::zero(), r), lt(r, f)]));
    cx.ens("differs by whole turns", r, (u - u.floor()) * f);
    let (s0, c0) = (A::rad(a.get()).sin(), A::rad(a.get()).cos());
    cx.ens("same sine", A::rad(r).sin(), s0);
    cx.ens("same cosine", A::rad(r).cos(), c0);
}
fn normalize_signed<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let (u, a) = in_turns::<S, A>(cx, "turns");
    let f = A::turn();
    let r = cx.call(&at::<S, A>("normalize_signed"), || a.normalize_signed()).get();
    let h = f / int(2);
    cx.ensures("within (-half turn, half turn]", and(vec![lt(-h, r), le(r, h)]));
    // the nearest whole number of turns, halves rounding down
    let n = -(S::q(1, 2) - u).floor();
    cx.ens("differs by whole turns", r, (u - n) * f);
}
fn opposite<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let (u, a) = in_turns::<S, A>(cx, "turns");
    let f = A::turn();
    let r = cx.call(&at::<S, A>("opposite"), || a.opposite()).get();
    let v = u + S::q(1, 2);
    cx.ensures("within [0, full turn)", and(vec![le(S::zero(), r), lt(r, f)]));
    cx.ens("half a turn away, up to whole turns", r, (v - v.floor()) * f);
    cx.ens("opposite cosine", A::rad(r).cos(), -A::rad(a.get()).cos());
    cx.ens("opposite sine", A::rad(r).sin(), -A::rad(a.get()).sin());
}
fn bisect<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let (u, a) = in_turns::<S, A>(cx, "turns");
    let (w, b) = in_turns::<S, A>(cx, "other");
    let f = A::turn();
    let r = cx.call(&at::<S, A>("bisect"), || a.bisect(b)).get();
    let v = (u + w) / int(2);
    cx.ensures("within [0, full turn)", and(vec![le(S::zero(), r), lt(r, f)]));
    cx.ens("as far from the one as from the other, up to whole turns", r, (v - v.floor()) * f);
}
fn trigonometry<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let x = cx.v("x");
    let a = A::of(x);
    let t = A::rad(x);
    let r = cx.call(&at::<S, A>("sin"), || a.sin());
    cx.ens("sine of the radian measure", r, t.sin());
    let r = cx.call(&at::<S, A>("cos"), || a.cos());
    cx.ens("cosine of the radian measure", r, t.cos());
    let r = cx.call(&at::<S, A>("sin_cos"), || a.sin_cos());
    cx.ens_v("sine, then cosine", &[r.0, r.1], &[t.sin(), t.cos()]);
}
fn tangent<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let x = cx.v("x");
    let a = A::of(x);
    let t = A::rad(x);
    cx.requires(ne(t.cos(), S::zero()));
    let r = cx.call(&at::<S, A>("tan"), || a.tan());
    cx.ens("sine over cosine", r * t.cos(), t.sin());
    let r = cx.call(&at::<S, A>("sec"), || a.sec());
    cx.ens("one over the cosine", r * t.cos(), S::one());
}
fn cotangent<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let x = cx.v("x");
    let a = A::of(x);
    let t = A::rad(x);
    cx.requires(ne(t.sin(), S::zero()));
    let r = cx.call(&at::<S, A>("csc"), || a.csc());
    cx.ens("one over the sine", r * t.sin(), S::one());
    cx.requires(ne(t.cos(), S::zero()));
    let r = cx.call(&at::<S, A>("cot"), || a.cot());
    cx.ens("cosine over sine", r * t.sin(), t.cos());
}
fn arcs<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let r = cx.v("ratio");
    cx.requires(and(vec![le(-S::one(), r), le(r, S::one())]));
    let p = cx.call(&at::<S, A>("asin"), || A::asin(r)).get();
    cx.ens("sine of the result", A::rad(p).sin(), r);
    let q = A::turn() / int(4);
    cx.ensures("within a quarter turn of zero", and(vec![le(-q, p), le(p, q)]));
    let p = cx.call(&at::<S, A>("acos"), || A::acos(r)).get();
    cx.ens("cosine of the result", A::rad(p).cos(), r);
    cx.ensures("from zero to a half turn", and(vec![le(S::zero(), p), le(p, q * int(2))]));
}
fn arctangent<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let r = cx.v("ratio");
    let p = cx.call(&at::<S, A>("atan"), || A::atan(r)).get();
    let q = A::turn() / int(4);
    cx.ens("tangent of the result", A::rad(p).sin(), r * A::rad(p).cos());
    cx.ensures("within a quarter turn of zero", and(vec![lt(-q, p), lt(p, q)]));
}
fn arctangent2<S: Sc, A: Measure<S>>(cx: &mut Cx<S>) {
    let (y, x) = (cx.v("y"), cx.v("x"));
    cx.requires(lt(S::zero(), x * x + y * y));
    let n = (x * x + y * y).sqrt();
    let p = cx.call(&at::<S, A>("atan2"), || A::atan2(y, x)).get();
    cx.ens("y over the radius", A::rad(p).sin() * n, y);
    cx.ens("x over the radius", A::rad(p).cos() * n, x);
    let h = A::turn() / int(2);
    cx.ensures("within (-half turn, half turn]", and(vec![lt(-h, p), le(p, h)]));
}
macro_rules! both {
    ($($f:ident $r:ident $d:ident),*) => {$(
        fn $r<S: Sc>(cx: &mut Cx<S>) { $f::<S, Radians<S>>(cx) }
        fn $d<S: Sc>(cx: &mut Cx<S>) { $f::<S, Degrees<S>>(cx) }
    )*};
}
both!(
    turns turns_r turns_d, normalize normalize_r normalize_d, normalize_signed normalize_signed_r normalize_signed_d,
    opposite opposite_r opposite_d, bisect bisect_r bisect_d, trigonometry trigonometry_r trigonometry_d,
    tangent tangent_r tangent_d, cotangent cotangent_r cotangent_d, arcs arcs_r arcs_d,
    arctangent arctangent_r arctangent_d, arctangent2 arctangent2_r arctangent2_d
);
pub fn all() -> Vec<Contract> {
    crate::contracts![
        conversion,
        arithmetic_radians,
        arithmetic_degrees,
        division_radians,
        division_degrees,
        turns_r,
        turns_d,
        finite_r,
        finite_d,
        normalize_r,
        normalize_d,
        normalize_signed_r,
        normalize_signed_d,
        opposite_r,
        opposite_d,
        bisect_r,
        bisect_d,
        trigonometry_r,
        trigonometry_d,
        tangent_r,
        tangent_d,
        cotangent_r,
        cotangent_d,
        arcs_r,
        arcs_d,
        arctangent_r,
        arctangent_d,
        arctangent2_r,
        arctangent2_d,
    ]
}
