//! Mathematical definitions the contracts are written in: plain sequences of scalars and
//! textbook formulas, independent of the repository's implementations.
#![allow(dead_code)]
use crate::sc::*;
use crate::term::F;
use cglinalg_core::*;

/// row-major: m[r][c]
pub type M<S> = Vec<Vec<S>>;

pub fn vv<S: Sc, const N: usize>(v: &Vector<S, N>) -> Vec<S> {
    let a: &[S; N] = v.as_ref();
    a.to_vec()
}
pub fn pv<S: Sc, const N: usize>(v: &Point<S, N>) -> Vec<S> {
    let a: &[S; N] = v.as_ref();
    a.to_vec()
}
pub fn mv<S: Sc, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> M<S> {
    let a: &[[S; R]; C] = m.as_ref();
    (0..R).map(|r| (0..C).map(|c| a[c][r]).collect()).collect()
}
/// scalar part first
pub fn qv<S: Sc>(q: &Quaternion<S>) -> Vec<S> {
    let a: &[S; 4] = q.as_ref();
    a.to_vec()
}
pub fn zv<S: Sc>(z: &Complex<S>) -> Vec<S> {
    let a: &[S; 2] = z.as_ref();
    a.to_vec()
}
pub fn int<S: Sc>(n: i64) -> S {
    S::q(n, 1)
}
pub fn dot<S: Sc>(a: &[S], b: &[S]) -> S {
    let mut s = S::zero();
    for (x, y) in a.iter().zip(b) {
        s = s + *x * *y;
    }
    s
}
pub fn cross<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn vadd<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b).map(|(x, y)| *x + *y).collect()
}
pub fn vsub<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
pub fn vscale<S: Sc>(a: &[S], k: S) -> Vec<S> {
    a.iter().map(|x| *x * k).collect()
}
pub fn vneg<S: Sc>(a: &[S]) -> Vec<S> {
    a.iter().map(|x| -*x).collect()
}
pub fn ident<S: Sc>(n: usize) -> M<S> {
    (0..n).map(|r| (0..n).map(|c| if r == c { S::one() } else { S::zero() }).collect()).collect()
}
pub fn mm<S: Sc>(a: &M<S>, b: &M<S>) -> M<S> {
    let k = b.len();
    let c = b[0].len();
    a.iter()
        .map(|row| {
            (0..c)
                .map(|j| {
                    let mut s = S::zero();
                    for i in 0..k {
                        s = s + row[i] * b[i][j];
                    }
                    s
                })
                .collect()
        })
        .collect()
}
pub fn mvm<S: Sc>(a: &M<S>, v: &[S]) -> Vec<S> {
    a.iter().map(|row| dot(row, v)).collect()
}
pub fn tr<S: Sc>(a: &M<S>) -> M<S> {
    (0..a[0].len()).map(|c| a.iter().map(|r| r[c]).collect()).collect()
}
pub fn madd<S: Sc>(a: &M<S>, b: &M<S>) -> M<S> {
    a.iter().zip(b).map(|(x, y)| vadd(x, y)).collect()
}
pub fn mscale<S: Sc>(a: &M<S>, k: S) -> M<S> {
    a.iter().map(|x| vscale(x, k)).collect()
}
pub fn outer<S: Sc>(a: &[S], b: &[S]) -> M<S> {
    a.iter().map(|x| b.iter().map(|y| *x * *y).collect()).collect()
}
/// Leibniz formula
pub fn det<S: Sc>(a: &M<S>) -> S {
    fn go<S: Sc>(a: &M<S>, r: usize, used: &mut Vec<usize>, sign: i64, acc: S, out: &mut S) {
        let n = a.len();
        if r == n {
            *out = *out + S::q(sign, 1) * acc;
            return;
        }
        for c in 0..n {
            if used.contains(&c) {
                continue;
            }
            let inv = used.iter().filter(|u| **u > c).count();
            used.push(c);
            go(a, r + 1, used, if inv % 2 == 0 { sign } else { -sign }, acc * a[r][c], out);
            used.pop();
        }
    }
    let mut out = S::zero();
    go(a, 0, &mut vec![], 1, S::one(), &mut out);
    out
}
pub fn flat<S: Sc>(a: &M<S>) -> Vec<S> {
    a.iter().flatten().copied().collect()
}
pub fn meq<S: Sc>(a: &M<S>, b: &M<S>) -> F<S> {
    if a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.len() != y.len()) {
        return F::False;
    }
    all_eq(&flat(a), &flat(b))
}
/// top-left block
pub fn block<S: Sc>(a: &M<S>, n: usize) -> M<S> {
    (0..n).map(|r| (0..n).map(|c| a[r][c]).collect()).collect()
}
/// [[a, t], [0, 1]]
pub fn affine<S: Sc>(a: &M<S>, t: &[S]) -> M<S> {
    let n = a.len();
    let mut m: M<S> = (0..n)
        .map(|r| {
            let mut row = a[r].clone();
            row.push(t[r]);
            row
        })
        .collect();
    let mut last = vec![S::zero(); n];
    last.push(S::one());
    m.push(last);
    m
}
pub fn hom<S: Sc>(v: &[S], w: S) -> Vec<S> {
    let mut o = v.to_vec();
    o.push(w);
    o
}
/// Rodrigues: v cos + (k x v) sin + k (k.v)(1 - cos)
pub fn rodrigues<S: Sc>(k: &[S], v: &[S], c: S, s: S) -> Vec<S> {
    let kv = cross(k, v);
    let d = dot(k, v) * (S::one() - c);
    (0..3).map(|i| v[i] * c + kv[i] * s + k[i] * d).collect()
}
pub fn rot_axis<S: Sc>(k: &[S], c: S, s: S) -> M<S> {
    let i = ident::<S>(3);
    tr(&(0..3).map(|j| rodrigues(k, &i[j], c, s)).collect())
}
pub fn rot2<S: Sc>(c: S, s: S) -> M<S> {
    vec![vec![c, -s], vec![s, c]]
}
/// quaternion product (scalar first)
pub fn qmul<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    let v = vadd(&vadd(&vscale(&b[1..4], a[0]), &vscale(&a[1..4], b[0])), &cross(&a[1..4], &b[1..4]));
    let mut o = vec![a[0] * b[0] - dot(&a[1..4], &b[1..4])];
    o.extend(v);
    o
}
pub fn qconj<S: Sc>(a: &[S]) -> Vec<S> {
    vec![a[0], -a[1], -a[2], -a[3]]
}
/// q v q*
pub fn qrot<S: Sc>(q: &[S], v: &[S]) -> Vec<S> {
    let p = vec![S::zero(), v[0], v[1], v[2]];
    qmul(&qmul(q, &p), &qconj(q))[1..4].to_vec()
}
pub fn qmat<S: Sc>(q: &[S]) -> M<S> {
    let i = ident::<S>(3);
    tr(&(0..3).map(|j| qrot(q, &i[j])).collect())
}
pub fn cmul<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    vec![a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
/// m is a proper rotation
pub fn is_rotation<S: Sc>(m: &M<S>) -> F<S> {
    and(vec![meq(&mm(&tr(m), m), &ident(m.len())), eq(det(m), S::one())])
}
pub fn basis<S: Sc>(n: usize, i: usize) -> Vec<S> {
    (0..n).map(|j| if i == j { S::one() } else { S::zero() }).collect()
}
impl<S: Sc> Cx<S> {
    pub fn ens_v(&mut self, name: &str, got: &[S], want: &[S]) {
        self.ensures(name, all_eq(got, want))
    }
    pub fn ens_m(&mut self, name: &str, got: &M<S>, want: &M<S>) {
        self.ensures(name, meq(got, want))
    }
    pub fn ens(&mut self, name: &str, got: S, want: S) {
        self.ensures(name, eq(got, want))
    }
    /// a unit vector behind the library's Unit wrapper, built without normalising
    pub fn unit<const N: usize>(&mut self, name: &str) -> (Unit<Vector<S, N>>, Vec<S>) {
        let v = self.uvec::<N>(name);
        (Unit::from_value_unchecked(v), vv(&v))
    }
}

/// the textbook contract of `Normed` for a type that is a tuple of scalars
pub fn normed<S: Sc, T: Normed<Output = S> + Copy>(cx: &mut Cx<S>, ty: &str, a: T, b: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("{}: Normed::{}", ty, f);
    let (x, y) = (to(&a), to(&b));
    let n2 = dot(&x, &x);
    let r = cx.call(&at("norm_squared"), || Normed::norm_squared(&a));
    cx.ens("sum of squares", r, n2);
    let r = cx.call(&at("norm"), || Normed::norm(&a));
    cx.ens("root of the sum of squares", r, n2.sqrt());
    let k = cx.v("k");
    let r = cx.call(&at("scale"), || {
        let mut m = a;
        m.scale_mut(k);
        [a.scale(k), m]
    });
    for m in &r {
        cx.ens_v("every component times k", &to(m), &vscale(&x, k));
    }
    let d = cx.nonzero("d");
    let r = cx.call(&at("unscale"), || {
        let mut m = a;
        m.unscale_mut(d);
        [a.unscale(d), m]
    });
    let w: Vec<S> = x.iter().map(|e| *e / d).collect();
    for m in &r {
        cx.ens_v("every component over d", &to(m), &w);
    }
    let e = vsub(&x, &y);
    let r = cx.call(&at("distance_squared"), || a.distance_squared(&b));
    cx.ens("squared norm of the difference", r, dot(&e, &e));
    let r = cx.call(&at("distance"), || a.distance(&b));
    cx.ens("norm of the difference", r, dot(&e, &e).sqrt());
    cx.ens_v("argument unchanged", &to(&a), &x);
}
pub fn normalizing<S: Sc, T: Normed<Output = S> + Copy>(cx: &mut Cx<S>, ty: &str, a: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("{}: Normed::{}", ty, f);
    let x = to(&a);
    let n2 = dot(&x, &x);
    cx.requires(lt(S::zero(), n2));
    let n = n2.sqrt();
    let w: Vec<S> = x.iter().map(|e| *e / n).collect();
    let r = cx.call(&at("normalize"), || a.normalize());
    cx.ens_v("same direction, norm one", &to(&r), &w);
    cx.ens("norm one", dot(&to(&r), &to(&r)), S::one());
    let mut m = a;
    let o = cx.call(&at("normalize_mut"), || m.normalize_mut());
    cx.ens_v("same direction, norm one", &to(&m), &w);
    cx.ens("returns the old norm", o, n);
}
pub fn try_normalizing<S: Sc, T: Normed<Output = S> + Copy>(cx: &mut Cx<S>, ty: &str, a: T, to: impl Fn(&T) -> Vec<S>) {
    let at = |f: &str| format!("{}: Normed::{}", ty, f);
    let x = to(&a);
    let thr = cx.v("threshold");
    cx.requires(le(S::zero(), thr));
    let n = dot(&x, &x).sqrt();
    match cx.call(&at("try_normalize"), || a.try_normalize(thr)) {
        None => cx.ensures("refused only at or below the threshold", le(n, thr)),
        Some(r) => {
            cx.ensures("accepted only above the threshold", lt(thr, n));
            cx.ens_v("same direction, norm one", &vscale(&to(&r), n), &x);
        }
    }
    let mut m = a;
    match cx.call(&at("try_normalize_mut"), || m.try_normalize_mut(thr)) {
        None => {
            cx.ensures("refused only at or below the threshold", le(n, thr));
            cx.ens_v("unchanged when refused", &to(&m), &x);
        }
        Some(o) => {
            cx.ensures("accepted only above the threshold", lt(thr, n));
            cx.ens("returns the old norm", o, n);
            cx.ens_v("same direction, norm one", &vscale(&to(&m), n), &x);
        }
    }
}

/// the scalars of a value in memory order
pub fn raw<S: Sc, T>(t: &T) -> Vec<S> {
    let n = std::mem::size_of::<T>() / std::mem::size_of::<S>();
    assert!(n * std::mem::size_of::<S>() == std::mem::size_of::<T>());
    let p = t as *const T as *const S;
    (0..n).map(|i| unsafe { *p.add(i) }).collect()
}

/// the equations of the rotation group
pub fn so3<S: Sc>(m: &M<S>) -> Vec<F<S>> {
    let col = tr(m);
    let mut v = vec![meq(&mm(&col, m), &ident(3)), meq(&mm(m, &col), &ident(3))];
    for i in 0..3 {
        v.push(all_eq(&cross(&col[i], &col[(i + 1) % 3]), &col[(i + 2) % 3]));
    }
    v
}
pub fn to_mat<S: Sc, const R: usize, const C: usize>(w: &M<S>) -> Matrix<S, R, C> {
    let mut d = [[S::zero(); R]; C];
    for c in 0..C {
        for r in 0..R {
            d[c][r] = w[r][c];
        }
    }
    Matrix::from(d)
}
impl<S: Sc> Cx<S> {
    /// any 3x3 matrix satisfying the equations of the rotation group
    pub fn rotation3(&mut self, name: &str) -> Matrix3x3<S> {
        if !S::SYMBOLIC && !self.vals.contains_key(&format!("{}00", name)) {
            let p = S::unit_vec(self, &format!("{}_q", name), 4);
            return to_mat(&qmat(&p));
        }
        let m: Matrix3x3<S> = self.mat(name);
        for f in so3(&mv(&m)) {
            self.requires_plain(f);
        }
        m
    }
}
/// the viewing rotation: `dir` times the direction goes to +z, `up` stays in the y-z half plane y > 0
pub fn view<S: Sc>(d: &[S], up: &[S], dir: i64) -> M<S> {
    let n = dot(d, d).sqrt();
    let z: Vec<S> = d.iter().map(|x| *x * int(dir) / n).collect();
    let w = cross(up, &z);
    let k = dot(&w, &w).sqrt();
    let x: Vec<S> = w.iter().map(|e| *e / k).collect();
    let y = cross(&z, &x);
    vec![x, y, z]
}
/// the viewing direction and `up` are not parallel, nor zero
pub fn nondeg<S: Sc>(cx: &mut Cx<S>, d: &[S], up: &[S]) {
    let w = cross(up, d);
    cx.requires(lt(S::zero(), dot(d, d)));
    cx.requires(lt(S::zero(), dot(&w, &w)));
}
