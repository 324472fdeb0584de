//! C04: matrix algebra.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;

fn z<S: Sc>(a: &M<S>, b: &M<S>, f: impl Fn(S, S) -> S) -> M<S> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect()).collect()
}
fn mp<S: Sc>(a: &M<S>, f: impl Fn(S) -> S) -> M<S> {
    a.iter().map(|x| x.iter().map(|p| f(*p)).collect()).collect()
}

fn add_sub<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    let (x, y) = (mv(&a), mv(&b));
    let sum = z(&x, &y, |p, q| p + q);
    let dif = z(&x, &y, |p, q| p - q);
    let r = cx.call("Matrix + Matrix", || [a + b, a + &b, &a + b, &a + &b]);
    for m in &r {
        cx.ens_m("sum is entrywise", &mv(m), &sum);
    }
    let r = cx.call("Matrix - Matrix", || [a - b, a - &b, &a - b, &a - &b]);
    for m in &r {
        cx.ens_m("difference is entrywise", &mv(m), &dif);
    }
    let r = cx.call("Matrix += Matrix", || {
        let (mut p, mut q) = (a, a);
        p += b;
        q += &b;
        [p, q]
    });
    for m in &r {
        cx.ens_m("+= agrees with +", &mv(m), &sum);
    }
    let r = cx.call("Matrix -= Matrix", || {
        let (mut p, mut q) = (a, a);
        p -= b;
        q -= &b;
        [p, q]
    });
    for m in &r {
        cx.ens_m("-= agrees with -", &mv(m), &dif);
    }
    let r = cx.call("-Matrix", || {
        let mut p = a;
        p.neg_mut();
        [-a, -&a, p]
    });
    for m in &r {
        cx.ens_m("negation is entrywise", &mv(m), &mp(&x, |p| -p));
    }
    cx.ens_m("operands unchanged", &mv(&a), &x);
    cx.ens_m("operands unchanged", &mv(&b), &y);
}
fn component_mul<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    let (x, y) = (mv(&a), mv(&b));
    let p = cx.call("Matrix::component_mul", || a.component_mul(&b));
    cx.ens_m("componentwise product", &mv(&p), &z(&x, &y, |p, q| p * q));
    let mut c = a;
    cx.call("Matrix::component_mul_assign", || c.component_mul_assign(&b));
    cx.ens_m("componentwise product", &mv(&c), &z(&x, &y, |p, q| p * q));
    let d = cx.call("Matrix::dot", || a.dot(&b));
    cx.ens("sum of entrywise products", d, dot(&flat(&x), &flat(&y)));
    let t = cx.v("t");
    let l = cx.call("Matrix::lerp", || a.lerp(&b, t));
    cx.ens_m("a (1 - t) + b t", &mv(&l), &z(&x, &y, |p, q| p * (S::one() - t) + q * t));
}
fn scalar<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = mv(&a);
    let k = cx.v("k");
    let r = cx.call("Matrix * scalar", || {
        let mut p = a;
        p *= k;
        [a * k, &a * k, p]
    });
    for m in &r {
        cx.ens_m("scalar product is entrywise", &mv(m), &mscale(&x, k));
    }
    let d = cx.nonzero("d");
    let r = cx.call("Matrix / scalar", || {
        let mut p = a;
        p /= d;
        [a / d, &a / d, p]
    });
    for m in &r {
        cx.ens_m("scalar quotient is entrywise", &mv(m), &mp(&x, |p| p / d));
    }
    let r = cx.call("Matrix % scalar", || {
        let mut p = a;
        p %= d;
        [a % d, &a % d, p]
    });
    for m in &r {
        cx.ens_m("scalar remainder is entrywise", &mv(m), &mp(&x, |p| p % d));
    }
}
fn matvec<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let v: Vector<S, C> = cx.vec("v");
    let want = mvm(&mv(&a), &vv(&v));
    let r = cx.call("Matrix * Vector", || [a * v, a * &v, &a * v, &a * &v]);
    for m in &r {
        cx.ens_v("row-by-vector dot products", &vv(m), &want);
    }
}
fn transpose<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let t = cx.call("Matrix::transpose", || a.transpose());
    cx.ens_m("transpose[c][r] = self[r][c]", &mv(&t), &tr(&mv(&a)));
    let s = cx.call("Matrix::transpose", || t.transpose());
    cx.ens_m("involution", &mv(&s), &mv(&a));
    let b: Matrix<S, C, R> = cx.mat("b");
    let d = cx.call("Matrix::tr_dot", || a.tr_dot(&b));
    cx.ens("tr_dot = trace of the product", d, {
        let p = mm(&mv(&a), &mv(&b));
        let mut s = S::zero();
        for i in 0..R {
            s = s + p[i][i];
        }
        s
    });
}
fn zero_const<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let zm = cx.call("Matrix::zero", || Matrix::<S, R, C>::zero());
    let want: M<S> = vec![vec![S::zero(); C]; R];
    cx.ens_m("all entries zero", &mv(&zm), &want);
    let d = cx.call("Matrix::default", || <Matrix<S, R, C> as Default>::default());
    cx.ens_m("all entries zero", &mv(&d), &want);
    let k = cx.v("k");
    let f = cx.call("Matrix::from_fill", || Matrix::<S, R, C>::from_fill(k));
    cx.ens_m("all entries equal the value", &mv(&f), &vec![vec![k; C]; R]);
    let a: Matrix<S, R, C> = cx.mat("a");
    let m = cx.call("Matrix::map", || a.map(|e| e * e + k));
    cx.ens_m("map applies the function to each entry", &mv(&m), &mp(&mv(&a), |e| e * e + k));
    cx.ensures("is_square iff rows = columns", is(a.is_square() == (R == C)));
}
fn is_zero<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let r = cx.call("Matrix::is_zero", || a.is_zero());
    cx.agrees("is_zero iff every entry is zero", r, all_eq(&flat(&mv(&a)), &vec![S::zero(); R * C]));
}
fn partial_eq<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    let r = cx.call("Matrix == Matrix", || a == b);
    cx.agrees("== iff every entry is equal", r, meq(&mv(&a), &mv(&b)));
}
fn swaps<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = mv(&a);
    for i in 0..R {
        for j in 0..R {
            let mut m = a;
            cx.call("Matrix::swap_rows", || m.swap_rows(i, j));
            let mut w = x.clone();
            w.swap(i, j);
            cx.ens_m("exactly the two rows are exchanged", &mv(&m), &w);
        }
    }
    for i in 0..C {
        for j in 0..C {
            let mut m = a;
            cx.call("Matrix::swap_columns", || m.swap_columns(i, j));
            let mut w = x.clone();
            for r in w.iter_mut() {
                r.swap(i, j);
            }
            cx.ens_m("exactly the two columns are exchanged", &mv(&m), &w);
        }
    }
    for c in 0..C {
        for r in 0..R {
            for c2 in 0..C {
                for r2 in 0..R {
                    let mut m = a;
                    cx.call("Matrix::swap", || m.swap((c, r), (c2, r2)));
                    let mut w = x.clone();
                    w[r][c] = x[r2][c2];
                    w[r2][c2] = x[r][c];
                    cx.ens_m("exactly the two entries are exchanged", &mv(&m), &w);
                }
            }
        }
    }
}
fn rows_cols<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = mv(&a);
    for i in 0..R {
        let r = cx.call("Matrix::row", || a.row(i));
        cx.ens_v("row i", &vv(&r), &x[i]);
    }
    for j in 0..C {
        let r = cx.call("Matrix::column", || a.column(j));
        cx.ens_v("column j", &vv(&r), &tr(&x)[j]);
    }
    let rows: [Vector<S, C>; R] = std::array::from_fn(|i| a.row(i));
    let cols: [Vector<S, R>; C] = std::array::from_fn(|i| a.column(i));
    let m = cx.call("Matrix::from_rows", || Matrix::<S, R, C>::from_rows(&rows));
    cx.ens_m("from_rows of the rows", &mv(&m), &x);
    let m = cx.call("Matrix::from_columns", || Matrix::<S, R, C>::from_columns(&cols));
    cx.ens_m("from_columns of the columns", &mv(&m), &x);
    if R > 0 {
        cx.must_panic("Matrix::row", || a.row(R));
    }
    cx.must_panic("Matrix::column", || a.column(C));
}
fn square<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, N, N> = cx.mat("a");
    let x = mv(&a);
    let mut t = a;
    cx.call("Matrix::transpose_mut", || t.transpose_mut());
    cx.ens_m("transpose in place", &mv(&t), &tr(&x));
    let i = cx.call("Matrix::identity", || Matrix::<S, N, N>::identity());
    cx.ens_m("identity", &mv(&i), &ident(N));
    let k = cx.v("k");
    let d = cx.call("Matrix::from_diagonal_value", || Matrix::<S, N, N>::from_diagonal_value(k));
    cx.ens_m("k times identity", &mv(&d), &mscale(&ident(N), k));
    let v: Vector<S, N> = cx.vec("v");
    let d = cx.call("Matrix::from_diagonal", || Matrix::<S, N, N>::from_diagonal(&v));
    let w: M<S> = (0..N).map(|r| (0..N).map(|c| if r == c { v[r] } else { S::zero() }).collect()).collect();
    cx.ens_m("diagonal matrix", &mv(&d), &w);
    let g = cx.call("Matrix::diagonal", || a.diagonal());
    cx.ens_v("diagonal entries", &vv(&g), &(0..N).map(|i| x[i][i]).collect::<Vec<_>>());
    let s = cx.call("Matrix::trace", || a.trace());
    let mut sum = S::zero();
    for i in 0..N {
        sum = sum + x[i][i];
    }
    cx.ens("sum of the diagonal", s, sum);
}
fn is_identity<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, N, N> = cx.mat("a");
    let r = cx.call("Matrix::is_identity", || a.is_identity());
    cx.agrees("is_identity iff equal to the identity", r, meq(&mv(&a), &ident(N)));
}
fn ulps0<S: Sc>(a: S, b: S) -> crate::term::F<S> {
    crate::term::F::Pred("ulps_eq", vec![a, b, S::eps(), S::default_ulps()])
}
fn is_diagonal<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, N, N> = cx.mat("a");
    let x = mv(&a);
    let r = cx.call("Matrix::is_diagonal", || a.is_diagonal());
    let mut f = vec![];
    for i in 0..N {
        for j in 0..N {
            if i != j {
                f.push(ulps0(x[i][j], S::zero()));
            }
        }
    }
    cx.agrees("is_diagonal iff off-diagonal entries are approximately zero", r, and(f));
}
fn is_symmetric<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, N, N> = cx.mat("a");
    let x = mv(&a);
    let r = cx.call("Matrix::is_symmetric", || a.is_symmetric());
    let mut f = vec![];
    for i in 0..N {
        for j in 0..i {
            f.push(ulps0(x[i][j], x[j][i]));
        }
    }
    cx.agrees("is_symmetric iff mirrored entries are approximately equal", r, and(f));
}
fn norms<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    let (x, y) = (flat(&mv(&a)), flat(&mv(&b)));
    let d = vsub(&x, &y);
    let n2 = dot(&x, &x);
    let d2 = dot(&d, &d);
    let r = cx.call("Matrix::norm_squared", || [a.norm_squared(), a.magnitude_squared(), Normed::norm_squared(&a)]);
    for v in r {
        cx.ens("sum of squares", v, n2);
    }
    let r = cx.call("Matrix::metric_distance_squared", || [a.metric_distance_squared(&b), Normed::distance_squared(&a, &b)]);
    for v in r {
        cx.ens("sum of squared differences", v, d2);
    }
    let r = cx.call("Matrix::norm", || {
        let f = FrobeniusNorm::new();
        [a.norm(), a.magnitude(), Normed::norm(&a), a.apply_norm(&f)]
    });
    for v in r {
        cx.ens("square root of the sum of squares", v, n2.sqrt());
    }
    let r = cx.call("Matrix::metric_distance", || {
        let f = FrobeniusNorm::new();
        [a.metric_distance(&b), Normed::distance(&a, &b), a.apply_metric_distance(&b, &f)]
    });
    for v in r {
        cx.ens("Frobenius distance", v, d2.sqrt());
    }
    let k = cx.nonzero("k");
    let (s, s1, u, u1) = cx.call("Matrix::scale/unscale", || {
        let (mut p, mut q) = (a, a);
        Normed::scale_mut(&mut p, k);
        Normed::unscale_mut(&mut q, k);
        (Normed::scale(&a, k), p, Normed::unscale(&a, k), q)
    });
    for m in [s, s1] {
        cx.ens_v("scaled", &flat(&mv(&m)), &vscale(&x, k));
    }
    for m in [u, u1] {
        cx.ens_v("divided", &flat(&mv(&m)), &x.iter().map(|e| *e / k).collect::<Vec<_>>());
    }
}
/// max over columns (rows) of the sum of absolute values
fn l1_linf<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = mv(&a);
    let cs: Vec<S> = tr(&x).iter().map(|r| r.iter().fold(S::zero(), |s, e| s + e.abs())).collect();
    let g = cx.call("Matrix::l1_norm", || a.l1_norm());
    cx.ensures("bounds every column sum", and(cs.iter().map(|s| le(*s, g)).collect()));
    cx.ensures("is one of the column sums", or(cs.iter().map(|s| eq(*s, g)).collect()));
    let h = cx.call("L1MatrixNorm::norm", || a.apply_norm(&L1MatrixNorm::new()));
    cx.ens("same as l1_norm", h, g);
}
fn linf<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = mv(&a);
    let rs: Vec<S> = x.iter().map(|r| r.iter().fold(S::zero(), |s, e| s + e.abs())).collect();
    let g = cx.call("Matrix::linf_norm", || a.linf_norm());
    cx.ensures("bounds every row sum", and(rs.iter().map(|s| le(*s, g)).collect()));
    cx.ensures("is one of the row sums", or(rs.iter().map(|s| eq(*s, g)).collect()));
    let h = cx.call("LinfMatrixNorm::norm", || a.apply_norm(&LinfMatrixNorm::new()));
    cx.ens("same as linf_norm", h, g);
}
fn l1_linf_distance<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let b: Matrix<S, R, C> = cx.mat("b");
    let d = cx.call("L1MatrixNorm::metric_distance", || a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    let e = (a - b).l1_norm();
    cx.ens("norm of the difference", d, e);
    let d = cx.call("LinfMatrixNorm::metric_distance", || a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    let e = (a - b).linf_norm();
    cx.ens("norm of the difference", d, e);
}
fn normalize<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    let x = flat(&mv(&a));
    let n2 = dot(&x, &x);
    cx.requires(lt(S::zero(), n2));
    let (u, u1, n) = cx.call("Matrix::normalize", || {
        let mut p = a;
        let n = Normed::normalize_mut(&mut p);
        (Normed::normalize(&a), p, n)
    });
    cx.ens("returned norm", n, n2.sqrt());
    for m in [u, u1] {
        cx.ens_v("direction kept: normalized * norm = self", &vscale(&flat(&mv(&m)), n2.sqrt()), &x);
    }
    let t = cx.v("t");
    let (r, q, qn) = cx.call("Matrix::try_normalize", || {
        let mut p = a;
        let n = Normed::try_normalize_mut(&mut p, t);
        (Normed::try_normalize(&a, t), p, n)
    });
    cx.agrees("None iff norm <= threshold", r.is_none(), le(n2.sqrt(), t));
    cx.ensures("in-place variant agrees", is(r.is_some() == qn.is_some()));
    match r {
        Some(m) => {
            cx.ens_m("normalized", &mv(&m), &mv(&u));
            cx.ens_m("in-place normalized", &mv(&q), &mv(&u));
            cx.ens("in-place returns the norm", qn.unwrap(), n2.sqrt());
        }
        None => cx.ens_m("in-place leaves it alone", &mv(&q), &mv(&a)),
    }
}
macro_rules! mul {
    ($($f:ident $r:literal $c:literal $k:literal;)*) => { $(
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let a: Matrix<S, $r, $c> = cx.mat("a");
            let b: Matrix<S, $c, $k> = cx.mat("b");
            let want = mm(&mv(&a), &mv(&b));
            let r = cx.call("Matrix * Matrix", || [a * b, a * &b, &a * b, &a * &b]);
            for m in &r {
                cx.ens_m("row-by-column dot products", &mv(m), &want);
            }
            let at = a.transpose();
            let r = cx.call("Matrix::tr_mul", || at.tr_mul(&b));
            cx.ens_m("tr_mul = transpose then multiply", &mv(&r), &want);
        }
    )* };
}
mul! {
    mul111 1 1 1;
    mul112 1 1 2;
    mul113 1 1 3;
    mul114 1 1 4;
    mul121 1 2 1;
    mul122 1 2 2;
    mul123 1 2 3;
    mul124 1 2 4;
    mul131 1 3 1;
    mul132 1 3 2;
    mul133 1 3 3;
    mul134 1 3 4;
    mul141 1 4 1;
    mul142 1 4 2;
    mul143 1 4 3;
    mul144 1 4 4;
    mul211 2 1 1;
    mul212 2 1 2;
    mul213 2 1 3;
    mul214 2 1 4;
    mul221 2 2 1;
    mul222 2 2 2;
    mul223 2 2 3;
    mul224 2 2 4;
    mul231 2 3 1;
    mul232 2 3 2;
    mul233 2 3 3;
    mul234 2 3 4;
    mul241 2 4 1;
    mul242 2 4 2;
    mul243 2 4 3;
    mul244 2 4 4;
    mul311 3 1 1;
    mul312 3 1 2;
    mul313 3 1 3;
    mul314 3 1 4;
    mul321 3 2 1;
    mul322 3 2 2;
    mul323 3 2 3;
    mul324 3 2 4;
    mul331 3 3 1;
    mul332 3 3 2;
    mul333 3 3 3;
    mul334 3 3 4;
    mul341 3 4 1;
    mul342 3 4 2;
    mul343 3 4 3;
    mul344 3 4 4;
    mul411 4 1 1;
    mul412 4 1 2;
    mul413 4 1 3;
    mul414 4 1 4;
    mul421 4 2 1;
    mul422 4 2 2;
    mul423 4 2 3;
    mul424 4 2 4;
    mul431 4 3 1;
    mul432 4 3 2;
    mul433 4 3 3;
    mul434 4 3 4;
    mul441 4 4 1;
    mul442 4 4 2;
    mul443 4 4 3;
    mul444 4 4 4;
}
macro_rules! eqmul {
    ($f:ident $n:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let a: Matrix<S, $n, $n> = cx.mat("a");
            let b: Matrix<S, $n, $n> = cx.mat("b");
            let c: Matrix<S, $n, $n> = cx.mat("c");
            let (p, q) = cx.call("Matrix * Matrix", || ((a * b) * c, a * (b * c)));
            cx.ens_m("associative", &mv(&p), &mv(&q));
            let (p, q) = cx.call("Matrix * Matrix", || (a * (b + c), a * b + a * c));
            cx.ens_m("distributive", &mv(&p), &mv(&q));
            let i = Matrix::<S, $n, $n>::identity();
            let (p, q) = cx.call("Matrix * Matrix", || (a * i, i * a));
            cx.ens_m("right identity", &mv(&p), &mv(&a));
            cx.ens_m("left identity", &mv(&q), &mv(&a));
            let (p, q) = cx.call("Matrix::transpose", || ((a * b).transpose(), b.transpose() * a.transpose()));
            cx.ens_m("(ab)^T = b^T a^T", &mv(&p), &mv(&q));
        }
    };
}
eqmul!(ring1 1);
eqmul!(ring2 2);
eqmul!(ring3 3);
eqmul!(ring4 4);

pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        ring1, ring2, ring3, ring4, square::<5>, square::<1>, square::<2>, square::<3>, square::<4>,
        is_identity::<1>, is_identity::<2>, is_identity::<3>, is_identity::<4>,
        is_diagonal::<1>, is_diagonal::<2>, is_diagonal::<3>, is_diagonal::<4>,
        is_symmetric::<5>, is_symmetric::<1>, is_symmetric::<2>, is_symmetric::<3>, is_symmetric::<4>,
        is_zero::<5,2>, is_zero::<1,1>, is_zero::<2,2>, is_zero::<3,3>, is_zero::<4,4>, is_zero::<2,3>, is_zero::<3,2>,
        is_zero::<1,2>, is_zero::<1,3>, is_zero::<1,4>, is_zero::<2,4>, is_zero::<4,2>, is_zero::<3,4>, is_zero::<4,3>,
        l1_linf::<5,2>, l1_linf::<2,5>, l1_linf::<1,1>, l1_linf::<2,2>, l1_linf::<2,3>, l1_linf::<3,2>, l1_linf::<3,3>, l1_linf::<4,4>,
        linf::<5,2>, linf::<2,5>, linf::<1,1>, linf::<2,2>, linf::<2,3>, linf::<3,2>, linf::<3,3>, linf::<4,4>,
        l1_linf_distance::<2,2>, l1_linf_distance::<3,2>, l1_linf_distance::<3,3>,
        normalize::<1,1>, normalize::<2,2>, normalize::<3,3>, normalize::<4,4>, normalize::<2,3>,
    ];
    v.extend(crate::contracts![add_sub::<1, 1>, add_sub::<1, 2>, add_sub::<1, 3>, add_sub::<1, 4>, add_sub::<2, 2>, add_sub::<2, 3>, add_sub::<2, 4>, add_sub::<3, 2>, add_sub::<3, 3>, add_sub::<3, 4>, add_sub::<4, 2>, add_sub::<4, 3>, add_sub::<4, 4>, component_mul::<1, 1>, component_mul::<1, 2>, component_mul::<1, 3>, component_mul::<1, 4>, component_mul::<2, 2>, component_mul::<2, 3>, component_mul::<2, 4>, component_mul::<3, 2>, component_mul::<3, 3>, component_mul::<3, 4>, component_mul::<4, 2>, component_mul::<4, 3>, component_mul::<4, 4>, scalar::<1, 1>, scalar::<1, 2>, scalar::<1, 3>, scalar::<1, 4>, scalar::<2, 2>, scalar::<2, 3>, scalar::<2, 4>, scalar::<3, 2>, scalar::<3, 3>, scalar::<3, 4>, scalar::<4, 2>, scalar::<4, 3>, scalar::<4, 4>, matvec::<1, 1>, matvec::<1, 2>, matvec::<1, 3>, matvec::<1, 4>, matvec::<2, 2>, matvec::<2, 3>, matvec::<2, 4>, matvec::<3, 2>, matvec::<3, 3>, matvec::<3, 4>, matvec::<4, 2>, matvec::<4, 3>, matvec::<4, 4>, transpose::<1, 1>, transpose::<1, 2>, transpose::<1, 3>, transpose::<1, 4>, transpose::<2, 2>, transpose::<2, 3>, transpose::<2, 4>, transpose::<3, 2>, transpose::<3, 3>, transpose::<3, 4>, transpose::<4, 2>, transpose::<4, 3>, transpose::<4, 4>, zero_const::<1, 1>, zero_const::<1, 2>, zero_const::<1, 3>, zero_const::<1, 4>, zero_const::<2, 2>, zero_const::<2, 3>, zero_const::<2, 4>, zero_const::<3, 2>, zero_const::<3, 3>, zero_const::<3, 4>, zero_const::<4, 2>, zero_const::<4, 3>, zero_const::<4, 4>, partial_eq::<1, 1>, partial_eq::<1, 2>, partial_eq::<1, 3>, partial_eq::<1, 4>, partial_eq::<2, 2>, partial_eq::<2, 3>, partial_eq::<2, 4>, partial_eq::<3, 2>, partial_eq::<3, 3>, partial_eq::<3, 4>, partial_eq::<4, 2>, partial_eq::<4, 3>, partial_eq::<4, 4>, swaps::<1, 1>, swaps::<1, 2>, swaps::<1, 3>, swaps::<1, 4>, swaps::<2, 2>, swaps::<2, 3>, swaps::<2, 4>, swaps::<3, 2>, swaps::<3, 3>, swaps::<3, 4>, swaps::<4, 2>, swaps::<4, 3>, swaps::<4, 4>, rows_cols::<1, 1>, rows_cols::<1, 2>, rows_cols::<1, 3>, rows_cols::<1, 4>, rows_cols::<2, 2>, rows_cols::<2, 3>, rows_cols::<2, 4>, rows_cols::<3, 2>, rows_cols::<3, 3>, rows_cols::<3, 4>, rows_cols::<4, 2>, rows_cols::<4, 3>, rows_cols::<4, 4>, norms::<1, 1>, norms::<1, 2>, norms::<1, 3>, norms::<1, 4>, norms::<2, 2>, norms::<2, 3>, norms::<2, 4>, norms::<3, 2>, norms::<3, 3>, norms::<3, 4>, norms::<4, 2>, norms::<4, 3>, norms::<4, 4>]);
    // shapes without a name of their own
    v.extend(crate::contracts![add_sub::<2, 1>, add_sub::<3, 1>, add_sub::<4, 1>, add_sub::<5, 3>, add_sub::<3, 5>, add_sub::<5, 5>, component_mul::<2, 1>, component_mul::<3, 1>, component_mul::<4, 1>, component_mul::<5, 3>, component_mul::<3, 5>, component_mul::<5, 5>, scalar::<2, 1>, scalar::<3, 1>, scalar::<4, 1>, scalar::<5, 3>, scalar::<3, 5>, scalar::<5, 5>, matvec::<2, 1>, matvec::<3, 1>, matvec::<4, 1>, matvec::<5, 3>, matvec::<3, 5>, matvec::<5, 5>, transpose::<2, 1>, transpose::<3, 1>, transpose::<4, 1>, transpose::<5, 3>, transpose::<3, 5>, transpose::<5, 5>, zero_const::<2, 1>, zero_const::<3, 1>, zero_const::<4, 1>, zero_const::<5, 3>, zero_const::<3, 5>, zero_const::<5, 5>, partial_eq::<2, 1>, partial_eq::<3, 1>, partial_eq::<4, 1>, partial_eq::<5, 3>, partial_eq::<3, 5>, partial_eq::<5, 5>, swaps::<2, 1>, swaps::<3, 1>, swaps::<4, 1>, swaps::<5, 3>, swaps::<3, 5>, swaps::<5, 5>, rows_cols::<2, 1>, rows_cols::<3, 1>, rows_cols::<4, 1>, rows_cols::<5, 3>, rows_cols::<3, 5>, rows_cols::<5, 5>, norms::<2, 1>, norms::<3, 1>, norms::<4, 1>, norms::<5, 3>, norms::<3, 5>, norms::<5, 5>]);
    v.extend(crate::contracts![add_sub::<6, 7>, add_sub::<9, 8>, component_mul::<6, 7>, component_mul::<9, 8>, scalar::<6, 7>, scalar::<9, 8>, matvec::<6, 7>, matvec::<9, 8>, transpose::<6, 7>, transpose::<9, 8>, zero_const::<6, 7>, zero_const::<9, 8>, partial_eq::<6, 7>, rows_cols::<6, 7>, rows_cols::<9, 8>, norms::<6, 7>, norms::<9, 8>, square::<6>, square::<9>]);
    v.extend(crate::contracts![mul111, mul112, mul113, mul114, mul121, mul122, mul123, mul124, mul131, mul132, mul133, mul134, mul141, mul142, mul143, mul144, mul211, mul212, mul213, mul214, mul221, mul222, mul223, mul224, mul231, mul232, mul233, mul234, mul241, mul242, mul243, mul244, mul311, mul312, mul313, mul314, mul321, mul322, mul323, mul324, mul331, mul332, mul333, mul334, mul341, mul342, mul343, mul344, mul411, mul412, mul413, mul414, mul421, mul422, mul423, mul424, mul431, mul432, mul433, mul434, mul441, mul442, mul443, mul444]);
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole scalar::<1, 1>, scalar::<2, 2>, scalar::<3, 3>, scalar::<4, 4>, scalar::<2, 3>, scalar::<3, 2>, scalar::<2, 4>, scalar::<4, 2>, scalar::<3, 4>, scalar::<4, 3>, matvec::<1, 1>, matvec::<2, 2>, matvec::<3, 3>, matvec::<4, 4>, matvec::<2, 3>, matvec::<3, 2>, matvec::<2, 4>, matvec::<4, 2>, matvec::<3, 4>, matvec::<4, 3>, add_sub::<1, 1>, add_sub::<2, 2>, add_sub::<3, 3>, add_sub::<4, 4>, add_sub::<2, 3>, add_sub::<3, 2>, add_sub::<2, 4>, add_sub::<4, 2>, add_sub::<3, 4>, add_sub::<4, 3>, ring2, mul222, mul333, mul444, mul234, mul423, mul342]);
    v
}
