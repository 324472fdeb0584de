//! C05: determinant and inverse.
use crate::sc::*;
use crate::spec::*;
use crate::term::F;
use crate::Contract;
use cglinalg_core::*;

macro_rules! det_inv {
    ($det:ident, $inv:ident, $sing:ident, $isinv:ident, $t:ident, $site:literal, $n:literal) => {
        fn $det<S: Sc>(cx: &mut Cx<S>) {
            let m: $t<S> = cx.mat("m");
            let d = cx.call(concat!($site, "::determinant"), || m.determinant());
            cx.ens("determinant = sum over permutations", d, det(&mv(&m)));
            let d = cx.call(concat!($site, "::determinant"), || m.transpose().determinant());
            cx.ens("det(transpose) = det", d, det(&mv(&m)));
            let d = cx.call(concat!($site, "::determinant"), || <$t<S>>::identity().determinant());
            cx.ens("det(1) = 1", d, S::one());
        }
        fn $inv<S: Sc>(cx: &mut Cx<S>) {
            let m: $t<S> = cx.mat("m");
            let a = mv(&m);
            let r = cx.call(concat!($site, "::try_inverse"), || m.try_inverse());
            cx.agrees("Some iff determinant nonzero", r.is_some(), ne(det(&a), S::zero()));
            if let Some(i) = r {
                let b = mv(&i);
                cx.ens_m("m * inverse(m) = 1", &mm(&a, &b), &ident($n));
                cx.ens_m("inverse(m) * m = 1", &mm(&b, &a), &ident($n));
                let k = cx.call(concat!($site, "::inverse"), || m.inverse());
                cx.ens_m("inverse = try_inverse", &mv(&k), &b);
            }
        }
        fn $sing<S: Sc>(cx: &mut Cx<S>) {
            let mut m: $t<S> = cx.mat("m");
            if !S::SYMBOLIC {
                // replays on f64 use matrices whose determinant is exactly zero
                for c in 0..$n {
                    m[c][0] = S::zero();
                }
            }
            cx.requires(eq(det(&mv(&m)), S::zero()));
            let r = cx.call(concat!($site, "::try_inverse"), || m.try_inverse());
            cx.ensures("singular matrix has no inverse", is(r.is_none()));
            cx.must_panic(concat!($site, "::inverse"), || m.inverse());
        }
        fn $isinv<S: Sc>(cx: &mut Cx<S>) {
            let m: $t<S> = cx.mat("m");
            let r = cx.call(concat!($site, "::is_invertible"), || m.is_invertible());
            let d = m.determinant();
            cx.agrees(
                "is_invertible iff the determinant is not approximately zero",
                r,
                nt(F::Pred("ulps_eq", vec![d, S::zero(), S::eps(), S::default_ulps()])),
            );
            if r {
                cx.ensures("is_invertible implies det nonzero", ne(d, S::zero()));
            }
        }
    };
}
det_inv!(det1, inv1, sing1, isinv1, Matrix1x1, "Matrix1x1", 1);
det_inv!(det2, inv2, sing2, isinv2, Matrix2x2, "Matrix2x2", 2);
det_inv!(det3, inv3, sing3, isinv3, Matrix3x3, "Matrix3x3", 3);
det_inv!(det4, inv4, sing4, isinv4, Matrix4x4, "Matrix4x4", 4);

macro_rules! det_mul {
    ($f:ident, $t:ident, $site:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let a: $t<S> = cx.mat("a");
            let b: $t<S> = cx.mat("b");
            let d = cx.call(concat!($site, "::determinant"), || (a * b).determinant());
            cx.ens("det(a b) = det a * det b", d, a.determinant() * b.determinant());
        }
    };
}
det_mul!(detmul1, Matrix1x1, "Matrix1x1");
det_mul!(detmul2, Matrix2x2, "Matrix2x2");
det_mul!(detmul3, Matrix3x3, "Matrix3x3");
/// 4x4: product with an elementary (row-addition and scaling) matrix
fn detmul4<S: Sc>(cx: &mut Cx<S>) {
    let a: Matrix4x4<S> = cx.mat("a");
    let k = cx.v("k");
    for i in 0..4 {
        for j in 0..4 {
            let mut e = Matrix4x4::<S>::identity();
            e[j][i] = k;
            let d = cx.call("Matrix4x4::determinant", || (e * a).determinant());
            let want = if i == j { a.determinant() * k } else { a.determinant() };
            cx.ens("row operations scale the determinant", d, want);
        }
    }
}
pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![det1, det2, det3, det4, inv1, inv2, inv3, inv4, sing1, sing2, sing3, sing4, isinv1, isinv2, isinv3, isinv4, detmul1, detmul2, detmul3, detmul4];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole det1, det2, det3, det4]);
    v
}
