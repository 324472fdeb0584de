//! Casting a vector, point, matrix, quaternion or complex number to another number type gives every
//! component's cast, and refuses exactly when one component's cast is refused.
use crate::any::any;
use crate::{ensures, reached, Entry};
use cglinalg_core::*;

macro_rules! pair {
    ($m:ident $from:ty, $to:ty, $k:meta) => {
        pub mod $m {
            use super::*;
            /// what the number types themselves say (their casts are C19's numeric:: contracts)
            fn one(x: $from) -> Option<$to> {
                <$to>::try_from(x).ok()
            }
            fn all<const N: usize>(a: [$from; N]) -> Option<[$to; N]> {
                let mut r = [0; N];
                let mut i = 0;
                while i < N {
                    match one(a[i]) {
                        Some(x) => r[i] = x,
                        None => return None,
                    }
                    i += 1;
                }
                Some(r)
            }
            #[cfg_attr($k, kani::proof)]
            #[cfg_attr($k, kani::unwind(20))]
            pub fn vectors() {
                let a: [$from; 4] = any();
                ensures!(Vector4::from(a).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 4, _>(|i| v[i])) == all(a), "vector of four: every component or a refusal");
                let b = [a[0], a[1], a[2]];
                ensures!(Vector3::from(b).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 3, _>(|i| v[i])) == all(b), "vector of three: every component or a refusal");
                ensures!(Point3::from(b).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 3, _>(|i| v[i])) == all(b), "point of three: every component or a refusal");
                let c = [a[0], a[1]];
                ensures!(Vector2::from(c).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 2, _>(|i| v[i])) == all(c), "vector of two: every component or a refusal");
                ensures!(Point2::from(c).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 2, _>(|i| v[i])) == all(c), "point of two: every component or a refusal");
                let d = [a[0]];
                ensures!(Vector1::<$from>::from(d).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 1, _>(|i| v[i])) == all(d), "vector of one: the component or a refusal");
                ensures!(Point1::<$from>::from(d).try_cast::<$to>().map(|v| std::array::from_fn::<$to, 1, _>(|i| v[i])) == all(d), "point of one: the component or a refusal");
                let q = Quaternion::new(a[0], a[1], a[2], a[3]).try_cast::<$to>();
                ensures!(q.map(|q| [q[0], q[1], q[2], q[3]]) == all(a), "quaternion: every component or a refusal");
                let z = Complex::new(a[0], a[1]).try_cast::<$to>();
                ensures!(z.map(|z| [z.real(), z.imaginary()]) == all(c), "complex number: both parts or a refusal");
                reached!();
            }
            fn shape<const R: usize, const C: usize>() -> bool {
                let a: [[$from; R]; C] = any();
                let m = Matrix::<$from, R, C>::from(a).try_cast::<$to>();
                let mut w = [[0; R]; C];
                let mut ok = true;
                for c in 0..C {
                    match all(a[c]) {
                        Some(x) => w[c] = x,
                        None => ok = false,
                    }
                }
                match m {
                    None => !ok,
                    Some(m) => {
                        let mut same = ok;
                        for c in 0..C {
                            for r in 0..R {
                                same &= m[c][r] == w[c][r];
                            }
                        }
                        same
                    }
                }
            }
            #[cfg_attr($k, kani::proof)]
            #[cfg_attr($k, kani::unwind(20))]
            pub fn matrices() {
                ensures!(shape::<3, 3>(), "square matrix: every entry or a refusal");
                ensures!(shape::<2, 3>(), "2x3 matrix: every entry or a refusal");
                ensures!(shape::<3, 2>(), "3x2 matrix: every entry or a refusal");
                reached!();
            }
            #[cfg_attr($k, kani::proof)]
            #[cfg_attr($k, kani::unwind(20))]
            pub fn matrix4() {
                ensures!(shape::<4, 4>(), "4x4 matrix: every entry or a refusal");
                reached!();
            }
            /// drawn inputs only
            pub fn shapes() {
                ensures!(shape::<1, 1>() && shape::<2, 2>() && shape::<3, 3>() && shape::<4, 4>(), "square matrix: every entry or a refusal");
                ensures!(shape::<2, 3>() && shape::<3, 2>() && shape::<2, 4>() && shape::<4, 2>() && shape::<3, 4>() && shape::<4, 3>(), "rectangular matrix: every entry or a refusal");
                ensures!(shape::<1, 2>() && shape::<1, 3>() && shape::<1, 4>(), "row: every entry or a refusal");
            }
        }
    };
}
pair!(i8_to_u8 i8, u8, kani);
pair!(u8_to_i8 u8, i8, any());
pair!(i32_to_u16 i32, u16, any());
pair!(u64_to_i32 u64, i32, any());
pair!(u16_to_i32 u16, i32, kani);
pub fn all() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    macro_rules! e {
        ($($m:ident)*) => {$(for p in ["C03", "C19"] {
            v.push((p, concat!("cast::", stringify!($m), "::vectors"), $m::vectors as fn()));
            v.push((p, concat!("cast::", stringify!($m), "::matrices"), $m::matrices as fn()));
            v.push((p, concat!("cast::", stringify!($m), "::matrix4"), $m::matrix4 as fn()));
            v.push((p, concat!("cast::", stringify!($m), "::shapes"), $m::shapes as fn()));
        })*};
    }
    e!(i8_to_u8 u8_to_i8 i32_to_u16 u64_to_i32 u16_to_i32);
    v
}
