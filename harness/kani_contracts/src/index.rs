//! Indexing by any usize: in range it is the component, out of range it panics and reads nothing.
use crate::any::any;
use crate::{ensures, reached, requires, Entry};
use cglinalg_core::*;

/// an arbitrary usize; natively one below n, so that the draws meet the precondition that follows
fn below(n: usize) -> usize {
    let i: usize = any();
    if cfg!(kani) {
        i
    } else {
        i % n
    }
}
macro_rules! one {
    ($($m:ident $n:literal $mk:expr, $arr:expr;)*) => {
        $(pub mod $m {
            use super::*;
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn in_range() {
                let a: [u8; $n] = any();
                let mk: fn([u8; $n]) -> _ = $mk;
                let mut v = mk(a);
                let i: usize = below($n);
                requires!(i < $n);
                let mut w: [u8; $n] = $arr(a);
                ensures!(v[i] == w[i], "v[i] is component i");
                let x: u8 = any();
                v[i] = x;
                w[i] = x;
                let j: usize = below($n);
                requires!(j < $n);
                ensures!(v[j] == w[j], "v[i] = x changes component i and no other");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn panics_read() {
                let a: [u8; $n] = any();
                let mk: fn([u8; $n]) -> _ = $mk;
                let v = mk(a);
                let i: usize = any();
                requires!(i >= $n);
                reached!();
                let x = v[i];
                let _ = x;
                ensures!(false, "an index outside the dimension panics on reading");
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn panics_write() {
                let a: [u8; $n] = any();
                let mk: fn([u8; $n]) -> _ = $mk;
                let mut v = mk(a);
                let i: usize = any();
                requires!(i >= $n);
                reached!();
                v[i] = 7;
                ensures!(false, "an index outside the dimension panics on writing");
            }
        })*
        fn ones() -> Vec<Entry> {
            let mut v: Vec<Entry> = vec![];
            $(
                v.push(("C03", concat!("index::", stringify!($m), "::in_range"), $m::in_range as fn()));
                v.push(("C03", concat!("index::", stringify!($m), "::panics_read"), $m::panics_read as fn()));
                v.push(("C03", concat!("index::", stringify!($m), "::panics_write"), $m::panics_write as fn()));
            )*
            v
        }
    };
}
fn id<T>(t: T) -> T {
    t
}
one! {
    vector1 1 |a| Vector1::<u8>::from(a), id;
    vector2 2 |a| Vector2::from(a), id;
    vector3 3 |a| Vector3::from(a), id;
    vector4 4 |a| Vector4::from(a), id;
    point1 1 |a| Point1::<u8>::from(a), id;
    point2 2 |a| Point2::from(a), id;
    point3 3 |a| Point3::from(a), id;
    quaternion 4 |a| Quaternion::new(a[0], a[1], a[2], a[3]), id;
    complex 2 |a| Complex::new(a[0], a[1]), id;
}
macro_rules! two {
    ($($m:ident $r:literal $c:literal;)*) => {
        $(pub mod $m {
            use super::*;
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn in_range() {
                let mut a: [[u8; $r]; $c] = any();
                let mut v = Matrix::<u8, $r, $c>::from(a);
                let (i, j): (usize, usize) = (below($c), below($r));
                requires!(i < $c && j < $r);
                ensures!(v[i][j] == a[i][j], "m[c][r] is the entry of column c and row r");
                ensures!(v[(i, j)] == a[i][j], "m[(c, r)] is the entry of column c and row r");
                let x: u8 = any();
                if any::<bool>() {
                    v[i][j] = x;
                } else {
                    v[(i, j)] = x;
                }
                a[i][j] = x;
                let (k, l): (usize, usize) = (below($c), below($r));
                requires!(k < $c && l < $r);
                ensures!(v[k][l] == a[k][l], "writing an entry changes no other");
                reached!();
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn panics_read() {
                let a: [[u8; $r]; $c] = any();
                let v = Matrix::<u8, $r, $c>::from(a);
                let (i, j): (usize, usize) = (any(), any());
                requires!(i >= $c || j >= $r);
                reached!();
                let x = if any::<bool>() { v[i][j] } else { v[(i, j)] };
                let _ = x;
                ensures!(false, "an index outside the shape panics on reading");
            }
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(6))]
            pub fn panics_write() {
                let a: [[u8; $r]; $c] = any();
                let mut v = Matrix::<u8, $r, $c>::from(a);
                let (i, j): (usize, usize) = (any(), any());
                requires!(i >= $c || j >= $r);
                reached!();
                if any::<bool>() {
                    v[i][j] = 7;
                } else {
                    v[(i, j)] = 7;
                }
                ensures!(false, "an index outside the shape panics on writing");
            }
        })*
        fn twos() -> Vec<Entry> {
            let mut v: Vec<Entry> = vec![];
            $(
                v.push(("C03", concat!("index::", stringify!($m), "::in_range"), $m::in_range as fn()));
                v.push(("C03", concat!("index::", stringify!($m), "::panics_read"), $m::panics_read as fn()));
                v.push(("C03", concat!("index::", stringify!($m), "::panics_write"), $m::panics_write as fn()));
            )*
            v
        }
    };
}
two! { matrix1x1 1 1; matrix2x2 2 2; matrix3x3 3 3; matrix4x4 4 4; matrix2x3 2 3; matrix3x2 3 2; matrix2x4 2 4; matrix4x2 4 2; matrix3x4 3 4; matrix4x3 4 3; }
pub fn all() -> Vec<Entry> {
    let mut v = ones();
    v.extend(twos());
    v
}
