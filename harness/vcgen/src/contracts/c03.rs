//! C03: layout, indexing, views and conversions. The reference is the value's memory, read
//! without the library's accessors.
use crate::sc::*;
use crate::spec::*;
use crate::Contract;
use cglinalg_core::*;

#[path = "swizzles.rs"]
mod swizzles;
use swizzles::*;

/// indexing, slicing, array views and raw pointers of a type made of $n scalars in a row
macro_rules! sequence {
    ($f:ident $site:literal [$($g:tt)*] $t:ty, $n:expr, $mk:expr) => {
        fn $f<S: Sc $($g)*>(cx: &mut Cx<S>) {
            let d: Vec<S> = cx.vs("a", $n);
            let arr: [S; $n] = std::array::from_fn(|i| d[i]);
            let mk: fn([S; $n]) -> $t = $mk;
            let a: $t = cx.call(concat!($site, "::from([S; N])"), || mk(arr));
            cx.ens_v("array order is memory order", &raw::<S, _>(&a), &d);
            let r = cx.call(concat!($site, "::from(&[S; N])"), || <$t>::from(&arr));
            cx.ens_v("array order is memory order", &raw::<S, _>(&r), &d);
            let r: &$t = cx.call(concat!("&", $site, "::from(&[S; N])"), || (&arr).into());
            cx.ens_v("same memory, seen as this type", &raw::<S, _>(r), &d);
            cx.ensures("same address", is(r as *const $t as usize == arr.as_ptr() as usize));
            let r: &[S; $n] = cx.call(concat!($site, "::as_ref"), || a.as_ref());
            cx.ens_v("same memory, seen as an array", r, &d);
            cx.ensures("same address", is(r.as_ptr() as usize == &a as *const $t as usize));
            let r = cx.call(concat!($site, "::as_slice"), || a.as_slice());
            cx.ens_v("all components in order", r, &d);
            cx.ensures("same address", is(r.as_ptr() as usize == &a as *const $t as usize));
            let p = cx.call(concat!($site, "::as_ptr"), || a.as_ptr());
            cx.ensures("points to the first component", is(p as usize == &a as *const $t as usize));
            let mut m = a;
            let q = &mut m as *mut $t as usize;
            let p = cx.call(concat!($site, "::as_mut_ptr"), || m.as_mut_ptr());
            cx.ensures("points to the first component", is(p as usize == q));
            cx.ensures("length", is(a.len() == $n && a.is_empty() == ($n == 0)));
            for i in 0..$n {
                let r = cx.call(concat!($site, "[i]"), || a[i]);
                cx.ens("i-th component", r, d[i]);
                let new = cx.v("new");
                let mut m = a;
                cx.call(concat!($site, "[i] ="), || m[i] = new);
                let mut w = d.clone();
                w[i] = new;
                cx.ens_v("only the i-th component changes", &raw::<S, _>(&m), &w);
                let mut m = a;
                cx.call(concat!($site, "::as_mut"), || {
                    let r: &mut [S; $n] = m.as_mut();
                    r[i] = new;
                });
                cx.ens_v("only the i-th component changes", &raw::<S, _>(&m), &w);
                for j in i..$n + 1 {
                    let r = cx.call(concat!($site, "[i..j]"), || &a[i..j]);
                    cx.ens_v("components i to j", r, &d[i..j]);
                    let mut m = a;
                    cx.call(concat!($site, "[i..j] ="), || {
                        for e in &mut m[i..j] {
                            *e = new;
                        }
                    });
                    let mut w = d.clone();
                    for k in i..j {
                        w[k] = new;
                    }
                    cx.ens_v("only components i to j change", &raw::<S, _>(&m), &w);
                }
                let r = cx.call(concat!($site, "[..i]"), || &a[..i]);
                cx.ens_v("components before i", r, &d[..i]);
                let r = cx.call(concat!($site, "[i..]"), || &a[i..]);
                cx.ens_v("components from i", r, &d[i..]);
                let mut m = a;
                cx.call(concat!($site, "[..i] ="), || m[..i].iter_mut().for_each(|e| *e = new));
                let mut w = d.clone();
                w[..i].iter_mut().for_each(|e| *e = new);
                cx.ens_v("only components before i change", &raw::<S, _>(&m), &w);
                let mut m = a;
                cx.call(concat!($site, "[i..] ="), || m[i..].iter_mut().for_each(|e| *e = new));
                let mut w = d.clone();
                w[i..].iter_mut().for_each(|e| *e = new);
                cx.ens_v("only components from i change", &raw::<S, _>(&m), &w);
            }
            let r = cx.call(concat!($site, "[..]"), || &a[..]);
            cx.ens_v("all components", r, &d);
            let mut m = a;
            cx.call(concat!($site, "[..] ="), || m[..].reverse());
            let mut w = d.clone();
            w.reverse();
            cx.ens_v("all components", &raw::<S, _>(&m), &w);
            for i in [$n, $n + 1, $n + 2, 2 * $n + 3, 64, 1 << 31, usize::MAX / 2, usize::MAX] {
                cx.must_panic(concat!($site, "[out of range]"), || a[i]);
                let mut m = a;
                cx.must_panic(concat!($site, "[out of range] ="), || m[i] = S::one());
                if i > $n {
                    cx.must_panic(concat!($site, "[0..out of range]"), || a[0..i].len());
                    cx.must_panic(concat!($site, "[..out of range]"), || a[..i].len());
                    cx.must_panic(concat!($site, "[out of range..]"), || a[i..].len());
                }
            }
        }
    };
}
sequence!(vector_n "Vector" [, const N: usize] Vector<S, N>, N, |a| Vector::from(a));
sequence!(point_n "Point" [, const N: usize] Point<S, N>, N, |a| Point::from(a));
sequence!(quaternion_4 "Quaternion" [] Quaternion<S>, 4, |a| Quaternion::from(a));
sequence!(complex_2 "Complex" [] Complex<S>, 2, |a| Complex::from(a));

/// tuple views, named fields
macro_rules! named {
    ($f:ident $site:literal $t:ident $n:literal $tup:ty : $($c:ident $i:tt),*) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vec<S> = cx.vs("a", $n);
            let a = $t::<S>::from(std::array::from_fn::<S, $n, _>(|i| d[i]));
            $(
                let r = cx.call(concat!($site, ".", stringify!($c)), || a.$c);
                cx.ens("named component", r, d[$i]);
                let new = cx.v("new");
                let mut m = a;
                cx.call(concat!($site, ".", stringify!($c), " ="), || m.$c = new);
                let mut w = d.clone();
                w[$i] = new;
                cx.ens_v("only the named component changes", &raw::<S, _>(&m), &w);
                let mut m = a;
                cx.call(concat!($site, " as_mut tuple"), || {
                    let r: &mut $tup = m.as_mut();
                    r.$i = new;
                });
                cx.ens_v("only that component changes", &raw::<S, _>(&m), &w);
            )*
            let t: $tup = ($(d[$i],)*);
            let r = cx.call(concat!($site, "::from(tuple)"), || [$t::<S>::from(t), $t::<S>::from(&t)]);
            for m in &r {
                cx.ens_v("components in order", &raw::<S, _>(m), &d);
            }
            let r: &$t<S> = cx.call(concat!("&", $site, "::from(&tuple)"), || (&t).into());
            cx.ens_v("components in order", &raw::<S, _>(r), &d);
            let r: &$tup = cx.call(concat!($site, "::as_ref tuple"), || a.as_ref());
            cx.ens_v("components in order", &[$(r.$i),*], &d);
        }
    };
}
named!(named_v1 "Vector1" Vector1 1 (S,): x 0);
named!(named_v2 "Vector2" Vector2 2 (S, S): x 0, y 1);
named!(named_v3 "Vector3" Vector3 3 (S, S, S): x 0, y 1, z 2);
named!(named_v4 "Vector4" Vector4 4 (S, S, S, S): x 0, y 1, z 2, w 3);
named!(named_p1 "Point1" Point1 1 (S,): x 0);
named!(named_p2 "Point2" Point2 2 (S, S): x 0, y 1);
named!(named_p3 "Point3" Point3 3 (S, S, S): x 0, y 1, z 2);
named!(named_c "Complex" Complex 2 (S, S): re 0, im 1);

fn one_component<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.v("k");
    let new = cx.v("new");
    let v = cx.call("Vector1::from(scalar)", || Vector1::from(k));
    cx.ens_v("the component", &raw::<S, _>(&v), &[k]);
    let p = cx.call("Point1::from(scalar)", || Point1::from(k));
    cx.ens_v("the component", &raw::<S, _>(&p), &[k]);
    let r: &S = cx.call("Vector1::as_ref scalar", || v.as_ref());
    cx.ens("the component", *r, k);
    let r: &S = cx.call("Point1::as_ref scalar", || p.as_ref());
    cx.ens("the component", *r, k);
    let (mut v, mut p) = (v, p);
    cx.call("Vector1::as_mut scalar", || *AsMut::<S>::as_mut(&mut v) = new);
    cx.call("Point1::as_mut scalar", || *AsMut::<S>::as_mut(&mut p) = new);
    cx.ens_v("the component", &raw::<S, _>(&v), &[new]);
    cx.ens_v("the component", &raw::<S, _>(&p), &[new]);
    let z = cx.call("Complex::from(scalar)", || [Complex::from(k), Complex::from(&k), Complex::from_real(k)]);
    for m in &z {
        cx.ens_v("real", &raw::<S, _>(m), &[k, S::zero()]);
    }
}
fn quaternion_parts<S: Sc>(cx: &mut Cx<S>) {
    let d = cx.arr::<4>("a");
    let a = cx.call("Quaternion::new", || Quaternion::new(d[0], d[1], d[2], d[3]));
    cx.ens_v("scalar first", &raw::<S, _>(&a), &d);
    let r = cx.call("Quaternion views", || (a.s, a.v, a.scalar(), a.vector()));
    cx.ens("scalar part", r.0, d[0]);
    cx.ens("scalar part", r.2, d[0]);
    cx.ens_v("vector part", &raw::<S, _>(&r.1), &d[1..]);
    cx.ens_v("vector part", &raw::<S, _>(&r.3), &d[1..]);
    let t = (d[0], d[1], d[2], d[3]);
    let v4 = Vector4::from(d);
    let r = cx.call("Quaternion::from", || [Quaternion::from(t), Quaternion::from(&t), Quaternion::from(v4), Quaternion::from(&v4), Quaternion::from_parts(d[0], Vector3::new(d[1], d[2], d[3]))]);
    for m in &r {
        cx.ens_v("components in order", &raw::<S, _>(m), &d);
    }
    let r: &Quaternion<S> = cx.call("&Quaternion::from(&tuple)", || (&t).into());
    cx.ens_v("components in order", &raw::<S, _>(r), &d);
    let r: &(S, S, S, S) = cx.call("Quaternion::as_ref tuple", || a.as_ref());
    cx.ens_v("components in order", &[r.0, r.1, r.2, r.3], &d);
    let n = cx.arr::<4>("n");
    let mut m = a;
    cx.call("Quaternion::as_mut tuple", || {
        let r: &mut (S, S, S, S) = m.as_mut();
        r.2 = n[2];
    });
    cx.ens_v("only that component changes", &raw::<S, _>(&m), &[d[0], d[1], n[2], d[3]]);
    let mut m = a;
    cx.call("Quaternion.s =", || m.s = n[0]);
    cx.ens_v("only that component changes", &raw::<S, _>(&m), &[n[0], d[1], d[2], d[3]]);
    let mut m = a;
    cx.call("Quaternion.v =", || m.v = Vector3::new(n[1], n[2], n[3]));
    cx.ens_v("only the vector part changes", &raw::<S, _>(&m), &[d[0], n[1], n[2], n[3]]);
}
macro_rules! extend {
    ($f:ident $n:literal $m:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let v: Vector<S, $n> = cx.vec("v");
            let x = raw::<S, _>(&v);
            let k = cx.v("k");
            let mut w = x.clone();
            w.push(k);
            let r: Vector<S, $m> = cx.call("Vector::extend", || v.extend(k));
            cx.ens_v("one more component, last", &raw::<S, _>(&r), &w);
            let c: Vector<S, $n> = cx.call("Vector::contract", || r.contract());
            cx.ens_v("all but the last component", &raw::<S, _>(&c), &x);
            let h: Vector<S, $m> = cx.call("Vector::to_homogeneous", || v.to_homogeneous());
            w[$n] = S::zero();
            cx.ens_v("vectors have last coordinate zero", &raw::<S, _>(&h), &w);
            let o: Option<Vector<S, $n>> = cx.call("Vector::from_homogeneous", || r.from_homogeneous());
            match o {
                Some(o) => {
                    cx.ensures("a vector only if the last coordinate is zero", eq(k, S::zero()));
                    cx.ens_v("all but the last component", &raw::<S, _>(&o), &x);
                }
                None => cx.ensures("not a vector only if the last coordinate is not zero", ne(k, S::zero())),
            }
        }
    };
}
extend!(extend_1 1 2);
extend!(extend_2 2 3);
extend!(extend_3 3 4);
macro_rules! extend_point {
    ($f:ident $n:literal $m:literal) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let v: Point<S, $n> = cx.point("p");
            let x = raw::<S, _>(&v);
            let k = cx.v("k");
            let mut w = x.clone();
            w.push(k);
            let r: Point<S, $m> = cx.call("Point::extend", || v.extend(k));
            cx.ens_v("one more component, last", &raw::<S, _>(&r), &w);
            let c: Point<S, $n> = cx.call("Point::contract", || r.contract());
            cx.ens_v("all but the last component", &raw::<S, _>(&c), &x);
            let h: Vector<S, $m> = cx.call("Point::to_homogeneous", || v.to_homogeneous());
            w[$n] = S::one();
            cx.ens_v("points have last coordinate one", &raw::<S, _>(&h), &w);
            w[$n] = k;
            let hv = Vector::from(std::array::from_fn::<S, $m, _>(|i| w[i]));
            let o: Option<Point<S, $n>> = cx.call("Point::from_homogeneous", || Point::from_homogeneous(&hv));
            match o {
                Some(o) => {
                    cx.ensures("a point only if the last coordinate is not zero", ne(k, S::zero()));
                    let w: Vec<S> = x.iter().map(|e| *e / k).collect();
                    cx.ens_v("divided by the last coordinate", &raw::<S, _>(&o), &w);
                }
                None => cx.ensures("no point only if the last coordinate is zero", eq(k, S::zero())),
            }
        }
    };
}
extend_point!(extend_point_1 1 2);
extend_point!(extend_point_2 2 3);
extend_point!(extend_point_3 3 4);
fn vec_misc<S: Sc>(cx: &mut Cx<S>) {
    let v: Vector4<S> = cx.vec("v");
    let x = raw::<S, _>(&v);
    let r = cx.call("Vector3::from(Vector4)", || [Vector3::from(v), Vector3::from(&v)]);
    for m in &r {
        cx.ens_v("first three components", &raw::<S, _>(m), &x[..3]);
    }
    let r: &[[S; 4]; 1] = cx.call("Vector::as_ref [[S; N]; 1]", || v.as_ref());
    cx.ens_v("one column", &r[0], &x);
    let new = cx.v("new");
    let mut m = v;
    cx.call("Vector::as_mut [[S; N]; 1]", || {
        let r: &mut [[S; 4]; 1] = m.as_mut();
        r[0][2] = new;
    });
    cx.ens_v("only that component changes", &raw::<S, _>(&m), &[x[0], x[1], new, x[3]]);
    cx.ensures("shape", is(v.shape() == (4, 1) && Vector2::new(new, new).shape() == (2, 1)));
}
fn cast<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let v: Vector<S, N> = cx.vec("v");
    match cx.call("Vector::try_cast", || v.try_cast::<S>()) {
        Some(r) => cx.ens_v("cast to the same type is the identity", &raw::<S, _>(&r), &raw::<S, _>(&v)),
        None => cx.ensures("cast to the same type succeeds", is(false)),
    }
    let p = Point::from_vector(&v);
    match cx.call("Point::try_cast", || p.try_cast::<S>()) {
        Some(r) => cx.ens_v("cast to the same type is the identity", &raw::<S, _>(&r), &raw::<S, _>(&v)),
        None => cx.ensures("cast to the same type succeeds", is(false)),
    }
}
fn small_casts<S: Sc>(cx: &mut Cx<S>) {
    let q = cx.quat("q");
    match cx.call("Quaternion::try_cast", || q.try_cast::<S>()) {
        Some(r) => cx.ens_v("cast to the same type is the identity", &raw::<S, _>(&r), &raw::<S, _>(&q)),
        None => cx.ensures("cast to the same type succeeds", is(false)),
    }
    let z = cx.complex("z");
    match cx.call("Complex::try_cast", || z.try_cast::<S>()) {
        Some(r) => cx.ens_v("cast to the same type is the identity", &raw::<S, _>(&r), &raw::<S, _>(&z)),
        None => cx.ensures("cast to the same type succeeds", is(false)),
    }
    let m: Matrix1x1<S> = cx.mat("m");
    let r = cx.call("Matrix1x1::to_scalar", || m.to_scalar());
    cx.ens("the entry", r, raw::<S, _>(&m)[0]);
}
fn matrix_cast<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let a: Matrix<S, R, C> = cx.mat("a");
    match cx.call("Matrix::try_cast", || a.try_cast::<S>()) {
        Some(r) => cx.ens_v("cast to the same type is the identity", &raw::<S, _>(&r), &raw::<S, _>(&a)),
        None => cx.ensures("cast to the same type succeeds", is(false)),
    }
}
fn matrix_access<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>) {
    let d: Vec<S> = cx.vs("a", R * C);
    let cols: [[S; R]; C] = std::array::from_fn(|c| std::array::from_fn(|r| d[c * R + r]));
    let a = cx.call("Matrix::from([[S; R]; C])", || Matrix::<S, R, C>::from(cols));
    cx.ens_v("columns one after the other", &raw::<S, _>(&a), &d);
    let r: &Matrix<S, R, C> = cx.call("&Matrix::from(&[[S; R]; C])", || (&cols).into());
    cx.ens_v("columns one after the other", &raw::<S, _>(r), &d);
    let vs: [Vector<S, R>; C] = std::array::from_fn(|c| Vector::from(cols[c]));
    let r: &Matrix<S, R, C> = cx.call("&Matrix::from(&[Vector; C])", || (&vs).into());
    cx.ens_v("columns one after the other", &raw::<S, _>(r), &d);
    let r = cx.call("Matrix::from_columns", || Matrix::from_columns(&vs));
    cx.ens_v("columns one after the other", &raw::<S, _>(&r), &d);
    let rows: [Vector<S, C>; R] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, C, _>(|c| d[c * R + r])));
    let r = cx.call("Matrix::from_rows", || Matrix::from_rows(&rows));
    cx.ens_v("columns one after the other", &raw::<S, _>(&r), &d);
    let p = cx.call("Matrix::as_ptr", || a.as_ptr());
    cx.ensures("points to the first entry", is(p as usize == &a as *const Matrix<S, R, C> as usize));
    let mut m = a;
    let q = &mut m as *mut Matrix<S, R, C> as usize;
    let p = cx.call("Matrix::as_mut_ptr", || m.as_mut_ptr());
    cx.ensures("points to the first entry", is(p as usize == q));
    let r: &[[S; R]; C] = cx.call("Matrix::as_ref [[S; R]; C]", || a.as_ref());
    cx.ens_v("columns one after the other", &raw::<S, _>(r), &d);
    let r: &[Vector<S, R>; C] = cx.call("Matrix::as_ref [Vector; C]", || a.as_ref());
    cx.ens_v("columns one after the other", &raw::<S, _>(r), &d);
    cx.ensures("shape", is(a.shape() == (R, C) && a.len() == R * C));
    for c in 0..C {
        let v = cx.call("Matrix[c]", || a[c]);
        cx.ens_v("column c", &raw::<S, _>(&v), &d[c * R..(c + 1) * R]);
        let v = cx.call("Matrix::column", || a.column(c));
        cx.ens_v("column c", &raw::<S, _>(&v), &d[c * R..(c + 1) * R]);
        for r in 0..R {
            let e = cx.call("Matrix[(c, r)]", || a[(c, r)]);
            cx.ens("column c, row r", e, d[c * R + r]);
            let new = cx.v("new");
            let mut w = d.clone();
            w[c * R + r] = new;
            let (mut m, mut n, mut o, mut p) = (a, a, a, a);
            cx.call("Matrix[(c, r)] =", || m[(c, r)] = new);
            cx.call("Matrix[c][r] =", || n[c][r] = new);
            cx.call("Matrix::as_mut [[S; R]; C]", || AsMut::<[[S; R]; C]>::as_mut(&mut o)[c][r] = new);
            cx.call("Matrix::as_mut [Vector; C]", || AsMut::<[Vector<S, R>; C]>::as_mut(&mut p)[c][r] = new);
            for x in [m, n, o, p] {
                cx.ens_v("only that entry changes", &raw::<S, _>(&x), &w);
            }
        }
    }
    for r in 0..R {
        let v = cx.call("Matrix::row", || a.row(r));
        cx.ens_v("row r", &raw::<S, _>(&v), &(0..C).map(|c| d[c * R + r]).collect::<Vec<_>>());
    }
    for i in [C, C + 1, C + R, R * C, 64, usize::MAX / 2, usize::MAX] {
        if i >= C {
            cx.must_panic("Matrix[out of range]", || a[i]);
            cx.must_panic("Matrix[(out of range, 0)]", || a[(i, 0)]);
            cx.must_panic("Matrix::column(out of range)", || a.column(i));
            let mut m = a;
            cx.must_panic("Matrix[out of range] =", || m[i][0] = S::one());
            cx.must_panic("Matrix[(out of range, 0)] =", || m[(i, 0)] = S::one());
        }
    }
    for i in [R, R + 1, C + R, 64, usize::MAX / 2, usize::MAX] {
        cx.must_panic("Matrix[(0, out of range)]", || a[(0, i)]);
        cx.must_panic("Matrix::row(out of range)", || a.row(i));
        let mut m = a;
        cx.must_panic("Matrix[(0, out of range)] =", || m[(0, i)] = S::one());
    }
}
macro_rules! matrix_named {
    ($f:ident $t:ident $r:literal $c:literal : $($e:ident)*) => {
        fn $f<S: Sc>(cx: &mut Cx<S>) {
            let d: Vec<S> = cx.vs("a", $r * $c);
            let mut it = d.iter();
            let a = cx.call(concat!(stringify!($t), "::new"), || $t::<S>::new($({ let $e = *it.next().unwrap(); $e }),*));
            cx.ens_v("entries column by column", &raw::<S, _>(&a), &d);
            let arr: [S; $r * $c] = std::array::from_fn(|i| d[i]);
            let b = cx.call(concat!(stringify!($t), "::from([S; R * C])"), || $t::<S>::from(arr));
            cx.ens_v("entries column by column", &raw::<S, _>(&b), &d);
            let b: &$t<S> = cx.call(concat!("&", stringify!($t), "::from(&[S; R * C])"), || (&arr).into());
            cx.ens_v("entries column by column", &raw::<S, _>(b), &d);
            let b: &[S; $r * $c] = cx.call(concat!(stringify!($t), "::as_ref [S; R * C]"), || a.as_ref());
            cx.ens_v("entries column by column", b, &d);
            let b = cx.call(concat!(stringify!($t), "::as_slice"), || a.as_slice());
            cx.ens_v("entries column by column", b, &d);
            let new = cx.v("new");
            let mut k = 0;
            $(
                // the name says which column and row
                let nm = stringify!($e).as_bytes();
                let at = (nm[1] - b'0') as usize * $r + (nm[3] - b'0') as usize;
                let x = cx.call(concat!(stringify!($t), ".", stringify!($e)), || a.$e);
                cx.ens("named entry", x, d[at]);
                let mut w = d.clone();
                w[at] = new;
                let mut m = a;
                cx.call(concat!(stringify!($t), ".", stringify!($e), " ="), || m.$e = new);
                cx.ens_v("only the named entry changes", &raw::<S, _>(&m), &w);
                let mut m = a;
                cx.call(concat!(stringify!($t), "::as_mut [S; R * C]"), || AsMut::<[S; $r * $c]>::as_mut(&mut m)[at] = new);
                cx.ens_v("only that entry changes", &raw::<S, _>(&m), &w);
                k += 1;
            )*
            cx.ensures("every entry named", is(k == $r * $c));
        }
    };
}
matrix_named!(m1x1 Matrix1x1 1 1: c0r0);
matrix_named!(m2x2 Matrix2x2 2 2: c0r0 c0r1 c1r0 c1r1);
matrix_named!(m3x3 Matrix3x3 3 3: c0r0 c0r1 c0r2 c1r0 c1r1 c1r2 c2r0 c2r1 c2r2);
matrix_named!(m4x4 Matrix4x4 4 4: c0r0 c0r1 c0r2 c0r3 c1r0 c1r1 c1r2 c1r3 c2r0 c2r1 c2r2 c2r3 c3r0 c3r1 c3r2 c3r3);
matrix_named!(m1x2 Matrix1x2 1 2: c0r0 c1r0);
matrix_named!(m1x3 Matrix1x3 1 3: c0r0 c1r0 c2r0);
matrix_named!(m1x4 Matrix1x4 1 4: c0r0 c1r0 c2r0 c3r0);
matrix_named!(m2x3 Matrix2x3 2 3: c0r0 c0r1 c1r0 c1r1 c2r0 c2r1);
matrix_named!(m2x4 Matrix2x4 2 4: c0r0 c0r1 c1r0 c1r1 c2r0 c2r1 c3r0 c3r1);
matrix_named!(m3x2 Matrix3x2 3 2: c0r0 c0r1 c0r2 c1r0 c1r1 c1r2);
matrix_named!(m3x4 Matrix3x4 3 4: c0r0 c0r1 c0r2 c1r0 c1r1 c1r2 c2r0 c2r1 c2r2 c3r0 c3r1 c3r2);
matrix_named!(m4x2 Matrix4x2 4 2: c0r0 c0r1 c0r2 c0r3 c1r0 c1r1 c1r2 c1r3);
matrix_named!(m4x3 Matrix4x3 4 3: c0r0 c0r1 c0r2 c0r3 c1r0 c1r1 c1r2 c1r3 c2r0 c2r1 c2r2 c2r3);

pub fn all() -> Vec<Contract> {
    let mut v = crate::contracts![
        vector_n::<1>, vector_n::<2>, vector_n::<3>, vector_n::<4>, vector_n::<6>, vector_n::<9>, vector_n::<17>,
        point_n::<1>, point_n::<2>, point_n::<3>, point_n::<5>, point_n::<9>, quaternion_4, complex_2,
        named_v1, named_v2, named_v3, named_v4, named_p1, named_p2, named_p3, named_c, one_component, quaternion_parts,
        extend_1, extend_2, extend_3, extend_point_1, extend_point_2, extend_point_3, vec_misc,
        cast::<1>, cast::<2>, cast::<3>, cast::<4>, cast::<5>, cast::<9>, matrix_cast::<8, 9>, matrix_cast::<2, 2>, matrix_cast::<3, 3>, matrix_cast::<4, 4>, matrix_cast::<2, 3>, matrix_cast::<5, 3>, matrix_cast::<3, 1>, small_casts,
        matrix_access::<1, 1>, matrix_access::<2, 2>, matrix_access::<3, 3>, matrix_access::<4, 4>, matrix_access::<1, 2>, matrix_access::<1, 3>, matrix_access::<1, 4>,
        matrix_access::<2, 3>, matrix_access::<2, 4>, matrix_access::<3, 4>, matrix_access::<3, 2>, matrix_access::<4, 2>, matrix_access::<4, 3>, matrix_access::<5, 2>, matrix_access::<2, 1>, matrix_access::<3, 1>, matrix_access::<4, 1>, matrix_access::<2, 5>, matrix_access::<5, 5>, matrix_access::<9, 8>, matrix_access::<6, 7>,
        m1x1, m2x2, m3x3, m4x4, m1x2, m1x3, m1x4, m2x3, m2x4, m3x2, m3x4, m4x2, m4x3,
        vector1, vector2, vector3, vector4, point1, point2, point3,
    ];
    // every scalar type with ring operations and a division, the integers included
    v.extend(crate::contracts![whole extend_1, extend_2, extend_3, extend_point_1, extend_point_2, extend_point_3]);
    v
}
