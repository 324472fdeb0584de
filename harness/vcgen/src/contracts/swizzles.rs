//! Generated by tools/gen_swizzles.py: every swizzle, its meaning taken from its name.
use crate::sc::*;
use crate::spec::*;
macro_rules! sw {
    ($cx:ident, $t:ident, $a:ident, $x:ident, $f:ident, $i:expr) => {
        let r = $cx.call(concat!(stringify!($t), "::", stringify!($f)), || $a.$f());
        let w: Vec<S> = $i.iter().map(|i: &usize| $x[*i]).collect();
        $cx.ens_v("components named", &raw::<S, _>(&r), &w);
    };
}
pub fn vector1<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vec::<1>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Vector1, a, x, x, [0]);
}
pub fn vector2<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vec::<2>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Vector2, a, x, x, [0]);
    sw!(cx, Vector2, a, x, y, [1]);
    sw!(cx, Vector2, a, x, xx, [0, 0]);
    sw!(cx, Vector2, a, x, xy, [0, 1]);
    sw!(cx, Vector2, a, x, yx, [1, 0]);
    sw!(cx, Vector2, a, x, yy, [1, 1]);
}
pub fn vector3<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vec::<3>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Vector3, a, x, x, [0]);
    sw!(cx, Vector3, a, x, y, [1]);
    sw!(cx, Vector3, a, x, z, [2]);
    sw!(cx, Vector3, a, x, xx, [0, 0]);
    sw!(cx, Vector3, a, x, xy, [0, 1]);
    sw!(cx, Vector3, a, x, xz, [0, 2]);
    sw!(cx, Vector3, a, x, yx, [1, 0]);
    sw!(cx, Vector3, a, x, yy, [1, 1]);
    sw!(cx, Vector3, a, x, yz, [1, 2]);
    sw!(cx, Vector3, a, x, zx, [2, 0]);
    sw!(cx, Vector3, a, x, zy, [2, 1]);
    sw!(cx, Vector3, a, x, zz, [2, 2]);
    sw!(cx, Vector3, a, x, xxx, [0, 0, 0]);
    sw!(cx, Vector3, a, x, xxy, [0, 0, 1]);
    sw!(cx, Vector3, a, x, xxz, [0, 0, 2]);
    sw!(cx, Vector3, a, x, xyx, [0, 1, 0]);
    sw!(cx, Vector3, a, x, xyy, [0, 1, 1]);
    sw!(cx, Vector3, a, x, xyz, [0, 1, 2]);
    sw!(cx, Vector3, a, x, xzx, [0, 2, 0]);
    sw!(cx, Vector3, a, x, xzy, [0, 2, 1]);
    sw!(cx, Vector3, a, x, xzz, [0, 2, 2]);
    sw!(cx, Vector3, a, x, yxx, [1, 0, 0]);
    sw!(cx, Vector3, a, x, yxy, [1, 0, 1]);
    sw!(cx, Vector3, a, x, yxz, [1, 0, 2]);
    sw!(cx, Vector3, a, x, yyx, [1, 1, 0]);
    sw!(cx, Vector3, a, x, yyy, [1, 1, 1]);
    sw!(cx, Vector3, a, x, yyz, [1, 1, 2]);
    sw!(cx, Vector3, a, x, yzx, [1, 2, 0]);
    sw!(cx, Vector3, a, x, yzy, [1, 2, 1]);
    sw!(cx, Vector3, a, x, yzz, [1, 2, 2]);
    sw!(cx, Vector3, a, x, zxx, [2, 0, 0]);
    sw!(cx, Vector3, a, x, zxy, [2, 0, 1]);
    sw!(cx, Vector3, a, x, zxz, [2, 0, 2]);
    sw!(cx, Vector3, a, x, zyx, [2, 1, 0]);
    sw!(cx, Vector3, a, x, zyy, [2, 1, 1]);
    sw!(cx, Vector3, a, x, zyz, [2, 1, 2]);
    sw!(cx, Vector3, a, x, zzx, [2, 2, 0]);
    sw!(cx, Vector3, a, x, zzy, [2, 2, 1]);
    sw!(cx, Vector3, a, x, zzz, [2, 2, 2]);
}
pub fn vector4<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.vec::<4>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Vector4, a, x, x, [0]);
    sw!(cx, Vector4, a, x, y, [1]);
    sw!(cx, Vector4, a, x, z, [2]);
    sw!(cx, Vector4, a, x, w, [3]);
    sw!(cx, Vector4, a, x, xx, [0, 0]);
    sw!(cx, Vector4, a, x, xy, [0, 1]);
    sw!(cx, Vector4, a, x, xz, [0, 2]);
    sw!(cx, Vector4, a, x, xw, [0, 3]);
    sw!(cx, Vector4, a, x, yx, [1, 0]);
    sw!(cx, Vector4, a, x, yy, [1, 1]);
    sw!(cx, Vector4, a, x, yz, [1, 2]);
    sw!(cx, Vector4, a, x, yw, [1, 3]);
    sw!(cx, Vector4, a, x, zx, [2, 0]);
    sw!(cx, Vector4, a, x, zy, [2, 1]);
    sw!(cx, Vector4, a, x, zz, [2, 2]);
    sw!(cx, Vector4, a, x, zw, [2, 3]);
    sw!(cx, Vector4, a, x, wx, [3, 0]);
    sw!(cx, Vector4, a, x, wy, [3, 1]);
    sw!(cx, Vector4, a, x, wz, [3, 2]);
    sw!(cx, Vector4, a, x, ww, [3, 3]);
    sw!(cx, Vector4, a, x, xxx, [0, 0, 0]);
    sw!(cx, Vector4, a, x, xxy, [0, 0, 1]);
    sw!(cx, Vector4, a, x, xxz, [0, 0, 2]);
    sw!(cx, Vector4, a, x, xxw, [0, 0, 3]);
    sw!(cx, Vector4, a, x, xyx, [0, 1, 0]);
    sw!(cx, Vector4, a, x, xyy, [0, 1, 1]);
    sw!(cx, Vector4, a, x, xyz, [0, 1, 2]);
    sw!(cx, Vector4, a, x, xyw, [0, 1, 3]);
    sw!(cx, Vector4, a, x, xzx, [0, 2, 0]);
    sw!(cx, Vector4, a, x, xzy, [0, 2, 1]);
    sw!(cx, Vector4, a, x, xzz, [0, 2, 2]);
    sw!(cx, Vector4, a, x, xzw, [0, 2, 3]);
    sw!(cx, Vector4, a, x, xwx, [0, 3, 0]);
    sw!(cx, Vector4, a, x, xwy, [0, 3, 1]);
    sw!(cx, Vector4, a, x, xwz, [0, 3, 2]);
    sw!(cx, Vector4, a, x, xww, [0, 3, 3]);
    sw!(cx, Vector4, a, x, yxx, [1, 0, 0]);
    sw!(cx, Vector4, a, x, yxy, [1, 0, 1]);
    sw!(cx, Vector4, a, x, yxz, [1, 0, 2]);
    sw!(cx, Vector4, a, x, yxw, [1, 0, 3]);
    sw!(cx, Vector4, a, x, yyx, [1, 1, 0]);
    sw!(cx, Vector4, a, x, yyy, [1, 1, 1]);
    sw!(cx, Vector4, a, x, yyz, [1, 1, 2]);
    sw!(cx, Vector4, a, x, yyw, [1, 1, 3]);
    sw!(cx, Vector4, a, x, yzx, [1, 2, 0]);
    sw!(cx, Vector4, a, x, yzy, [1, 2, 1]);
    sw!(cx, Vector4, a, x, yzz, [1, 2, 2]);
    sw!(cx, Vector4, a, x, yzw, [1, 2, 3]);
    sw!(cx, Vector4, a, x, ywx, [1, 3, 0]);
    sw!(cx, Vector4, a, x, ywy, [1, 3, 1]);
    sw!(cx, Vector4, a, x, ywz, [1, 3, 2]);
    sw!(cx, Vector4, a, x, yww, [1, 3, 3]);
    sw!(cx, Vector4, a, x, zxx, [2, 0, 0]);
    sw!(cx, Vector4, a, x, zxy, [2, 0, 1]);
    sw!(cx, Vector4, a, x, zxz, [2, 0, 2]);
    sw!(cx, Vector4, a, x, zxw, [2, 0, 3]);
    sw!(cx, Vector4, a, x, zyx, [2, 1, 0]);
    sw!(cx, Vector4, a, x, zyy, [2, 1, 1]);
    sw!(cx, Vector4, a, x, zyz, [2, 1, 2]);
    sw!(cx, Vector4, a, x, zyw, [2, 1, 3]);
    sw!(cx, Vector4, a, x, zzx, [2, 2, 0]);
    sw!(cx, Vector4, a, x, zzy, [2, 2, 1]);
    sw!(cx, Vector4, a, x, zzz, [2, 2, 2]);
    sw!(cx, Vector4, a, x, zzw, [2, 2, 3]);
    sw!(cx, Vector4, a, x, zwx, [2, 3, 0]);
    sw!(cx, Vector4, a, x, zwy, [2, 3, 1]);
    sw!(cx, Vector4, a, x, zwz, [2, 3, 2]);
    sw!(cx, Vector4, a, x, zww, [2, 3, 3]);
    sw!(cx, Vector4, a, x, wxx, [3, 0, 0]);
    sw!(cx, Vector4, a, x, wxy, [3, 0, 1]);
    sw!(cx, Vector4, a, x, wxz, [3, 0, 2]);
    sw!(cx, Vector4, a, x, wxw, [3, 0, 3]);
    sw!(cx, Vector4, a, x, wyx, [3, 1, 0]);
    sw!(cx, Vector4, a, x, wyy, [3, 1, 1]);
    sw!(cx, Vector4, a, x, wyz, [3, 1, 2]);
    sw!(cx, Vector4, a, x, wyw, [3, 1, 3]);
    sw!(cx, Vector4, a, x, wzx, [3, 2, 0]);
    sw!(cx, Vector4, a, x, wzy, [3, 2, 1]);
    sw!(cx, Vector4, a, x, wzz, [3, 2, 2]);
    sw!(cx, Vector4, a, x, wzw, [3, 2, 3]);
    sw!(cx, Vector4, a, x, wwx, [3, 3, 0]);
    sw!(cx, Vector4, a, x, wwy, [3, 3, 1]);
    sw!(cx, Vector4, a, x, wwz, [3, 3, 2]);
    sw!(cx, Vector4, a, x, www, [3, 3, 3]);
    sw!(cx, Vector4, a, x, xxxx, [0, 0, 0, 0]);
    sw!(cx, Vector4, a, x, xxxy, [0, 0, 0, 1]);
    sw!(cx, Vector4, a, x, xxxz, [0, 0, 0, 2]);
    sw!(cx, Vector4, a, x, xxxw, [0, 0, 0, 3]);
    sw!(cx, Vector4, a, x, xxyx, [0, 0, 1, 0]);
    sw!(cx, Vector4, a, x, xxyy, [0, 0, 1, 1]);
    sw!(cx, Vector4, a, x, xxyz, [0, 0, 1, 2]);
    sw!(cx, Vector4, a, x, xxyw, [0, 0, 1, 3]);
    sw!(cx, Vector4, a, x, xxzx, [0, 0, 2, 0]);
    sw!(cx, Vector4, a, x, xxzy, [0, 0, 2, 1]);
    sw!(cx, Vector4, a, x, xxzz, [0, 0, 2, 2]);
    sw!(cx, Vector4, a, x, xxzw, [0, 0, 2, 3]);
    sw!(cx, Vector4, a, x, xxwx, [0, 0, 3, 0]);
    sw!(cx, Vector4, a, x, xxwy, [0, 0, 3, 1]);
    sw!(cx, Vector4, a, x, xxwz, [0, 0, 3, 2]);
    sw!(cx, Vector4, a, x, xxww, [0, 0, 3, 3]);
    sw!(cx, Vector4, a, x, xyxx, [0, 1, 0, 0]);
    sw!(cx, Vector4, a, x, xyxy, [0, 1, 0, 1]);
    sw!(cx, Vector4, a, x, xyxz, [0, 1, 0, 2]);
    sw!(cx, Vector4, a, x, xyxw, [0, 1, 0, 3]);
    sw!(cx, Vector4, a, x, xyyx, [0, 1, 1, 0]);
    sw!(cx, Vector4, a, x, xyyy, [0, 1, 1, 1]);
    sw!(cx, Vector4, a, x, xyyz, [0, 1, 1, 2]);
    sw!(cx, Vector4, a, x, xyyw, [0, 1, 1, 3]);
    sw!(cx, Vector4, a, x, xyzx, [0, 1, 2, 0]);
    sw!(cx, Vector4, a, x, xyzy, [0, 1, 2, 1]);
    sw!(cx, Vector4, a, x, xyzz, [0, 1, 2, 2]);
    sw!(cx, Vector4, a, x, xyzw, [0, 1, 2, 3]);
    sw!(cx, Vector4, a, x, xywx, [0, 1, 3, 0]);
    sw!(cx, Vector4, a, x, xywy, [0, 1, 3, 1]);
    sw!(cx, Vector4, a, x, xywz, [0, 1, 3, 2]);
    sw!(cx, Vector4, a, x, xyww, [0, 1, 3, 3]);
    sw!(cx, Vector4, a, x, xzxx, [0, 2, 0, 0]);
    sw!(cx, Vector4, a, x, xzxy, [0, 2, 0, 1]);
    sw!(cx, Vector4, a, x, xzxz, [0, 2, 0, 2]);
    sw!(cx, Vector4, a, x, xzxw, [0, 2, 0, 3]);
    sw!(cx, Vector4, a, x, xzyx, [0, 2, 1, 0]);
    sw!(cx, Vector4, a, x, xzyy, [0, 2, 1, 1]);
    sw!(cx, Vector4, a, x, xzyz, [0, 2, 1, 2]);
    sw!(cx, Vector4, a, x, xzyw, [0, 2, 1, 3]);
    sw!(cx, Vector4, a, x, xzzx, [0, 2, 2, 0]);
    sw!(cx, Vector4, a, x, xzzy, [0, 2, 2, 1]);
    sw!(cx, Vector4, a, x, xzzz, [0, 2, 2, 2]);
    sw!(cx, Vector4, a, x, xzzw, [0, 2, 2, 3]);
    sw!(cx, Vector4, a, x, xzwx, [0, 2, 3, 0]);
    sw!(cx, Vector4, a, x, xzwy, [0, 2, 3, 1]);
    sw!(cx, Vector4, a, x, xzwz, [0, 2, 3, 2]);
    sw!(cx, Vector4, a, x, xzww, [0, 2, 3, 3]);
    sw!(cx, Vector4, a, x, xwxx, [0, 3, 0, 0]);
    sw!(cx, Vector4, a, x, xwxy, [0, 3, 0, 1]);
    sw!(cx, Vector4, a, x, xwxz, [0, 3, 0, 2]);
    sw!(cx, Vector4, a, x, xwxw, [0, 3, 0, 3]);
    sw!(cx, Vector4, a, x, xwyx, [0, 3, 1, 0]);
    sw!(cx, Vector4, a, x, xwyy, [0, 3, 1, 1]);
    sw!(cx, Vector4, a, x, xwyz, [0, 3, 1, 2]);
    sw!(cx, Vector4, a, x, xwyw, [0, 3, 1, 3]);
    sw!(cx, Vector4, a, x, xwzx, [0, 3, 2, 0]);
    sw!(cx, Vector4, a, x, xwzy, [0, 3, 2, 1]);
    sw!(cx, Vector4, a, x, xwzz, [0, 3, 2, 2]);
    sw!(cx, Vector4, a, x, xwzw, [0, 3, 2, 3]);
    sw!(cx, Vector4, a, x, xwwx, [0, 3, 3, 0]);
    sw!(cx, Vector4, a, x, xwwy, [0, 3, 3, 1]);
    sw!(cx, Vector4, a, x, xwwz, [0, 3, 3, 2]);
    sw!(cx, Vector4, a, x, xwww, [0, 3, 3, 3]);
    sw!(cx, Vector4, a, x, yxxx, [1, 0, 0, 0]);
    sw!(cx, Vector4, a, x, yxxy, [1, 0, 0, 1]);
    sw!(cx, Vector4, a, x, yxxz, [1, 0, 0, 2]);
    sw!(cx, Vector4, a, x, yxxw, [1, 0, 0, 3]);
    sw!(cx, Vector4, a, x, yxyx, [1, 0, 1, 0]);
    sw!(cx, Vector4, a, x, yxyy, [1, 0, 1, 1]);
    sw!(cx, Vector4, a, x, yxyz, [1, 0, 1, 2]);
    sw!(cx, Vector4, a, x, yxyw, [1, 0, 1, 3]);
    sw!(cx, Vector4, a, x, yxzx, [1, 0, 2, 0]);
    sw!(cx, Vector4, a, x, yxzy, [1, 0, 2, 1]);
    sw!(cx, Vector4, a, x, yxzz, [1, 0, 2, 2]);
    sw!(cx, Vector4, a, x, yxzw, [1, 0, 2, 3]);
    sw!(cx, Vector4, a, x, yxwx, [1, 0, 3, 0]);
    sw!(cx, Vector4, a, x, yxwy, [1, 0, 3, 1]);
    sw!(cx, Vector4, a, x, yxwz, [1, 0, 3, 2]);
    sw!(cx, Vector4, a, x, yxww, [1, 0, 3, 3]);
    sw!(cx, Vector4, a, x, yyxx, [1, 1, 0, 0]);
    sw!(cx, Vector4, a, x, yyxy, [1, 1, 0, 1]);
    sw!(cx, Vector4, a, x, yyxz, [1, 1, 0, 2]);
    sw!(cx, Vector4, a, x, yyxw, [1, 1, 0, 3]);
    sw!(cx, Vector4, a, x, yyyx, [1, 1, 1, 0]);
    sw!(cx, Vector4, a, x, yyyy, [1, 1, 1, 1]);
    sw!(cx, Vector4, a, x, yyyz, [1, 1, 1, 2]);
    sw!(cx, Vector4, a, x, yyyw, [1, 1, 1, 3]);
    sw!(cx, Vector4, a, x, yyzx, [1, 1, 2, 0]);
    sw!(cx, Vector4, a, x, yyzy, [1, 1, 2, 1]);
    sw!(cx, Vector4, a, x, yyzz, [1, 1, 2, 2]);
    sw!(cx, Vector4, a, x, yyzw, [1, 1, 2, 3]);
    sw!(cx, Vector4, a, x, yywx, [1, 1, 3, 0]);
    sw!(cx, Vector4, a, x, yywy, [1, 1, 3, 1]);
    sw!(cx, Vector4, a, x, yywz, [1, 1, 3, 2]);
    sw!(cx, Vector4, a, x, yyww, [1, 1, 3, 3]);
    sw!(cx, Vector4, a, x, yzxx, [1, 2, 0, 0]);
    sw!(cx, Vector4, a, x, yzxy, [1, 2, 0, 1]);
    sw!(cx, Vector4, a, x, yzxz, [1, 2, 0, 2]);
    sw!(cx, Vector4, a, x, yzxw, [1, 2, 0, 3]);
    sw!(cx, Vector4, a, x, yzyx, [1, 2, 1, 0]);
    sw!(cx, Vector4, a, x, yzyy, [1, 2, 1, 1]);
    sw!(cx, Vector4, a, x, yzyz, [1, 2, 1, 2]);
    sw!(cx, Vector4, a, x, yzyw, [1, 2, 1, 3]);
    sw!(cx, Vector4, a, x, yzzx, [1, 2, 2, 0]);
    sw!(cx, Vector4, a, x, yzzy, [1, 2, 2, 1]);
    sw!(cx, Vector4, a, x, yzzz, [1, 2, 2, 2]);
    sw!(cx, Vector4, a, x, yzzw, [1, 2, 2, 3]);
    sw!(cx, Vector4, a, x, yzwx, [1, 2, 3, 0]);
    sw!(cx, Vector4, a, x, yzwy, [1, 2, 3, 1]);
    sw!(cx, Vector4, a, x, yzwz, [1, 2, 3, 2]);
    sw!(cx, Vector4, a, x, yzww, [1, 2, 3, 3]);
    sw!(cx, Vector4, a, x, ywxx, [1, 3, 0, 0]);
    sw!(cx, Vector4, a, x, ywxy, [1, 3, 0, 1]);
    sw!(cx, Vector4, a, x, ywxz, [1, 3, 0, 2]);
    sw!(cx, Vector4, a, x, ywxw, [1, 3, 0, 3]);
    sw!(cx, Vector4, a, x, ywyx, [1, 3, 1, 0]);
    sw!(cx, Vector4, a, x, ywyy, [1, 3, 1, 1]);
    sw!(cx, Vector4, a, x, ywyz, [1, 3, 1, 2]);
    sw!(cx, Vector4, a, x, ywyw, [1, 3, 1, 3]);
    sw!(cx, Vector4, a, x, ywzx, [1, 3, 2, 0]);
    sw!(cx, Vector4, a, x, ywzy, [1, 3, 2, 1]);
    sw!(cx, Vector4, a, x, ywzz, [1, 3, 2, 2]);
    sw!(cx, Vector4, a, x, ywzw, [1, 3, 2, 3]);
    sw!(cx, Vector4, a, x, ywwx, [1, 3, 3, 0]);
    sw!(cx, Vector4, a, x, ywwy, [1, 3, 3, 1]);
    sw!(cx, Vector4, a, x, ywwz, [1, 3, 3, 2]);
    sw!(cx, Vector4, a, x, ywww, [1, 3, 3, 3]);
    sw!(cx, Vector4, a, x, zxxx, [2, 0, 0, 0]);
    sw!(cx, Vector4, a, x, zxxy, [2, 0, 0, 1]);
    sw!(cx, Vector4, a, x, zxxz, [2, 0, 0, 2]);
    sw!(cx, Vector4, a, x, zxxw, [2, 0, 0, 3]);
    sw!(cx, Vector4, a, x, zxyx, [2, 0, 1, 0]);
    sw!(cx, Vector4, a, x, zxyy, [2, 0, 1, 1]);
    sw!(cx, Vector4, a, x, zxyz, [2, 0, 1, 2]);
    sw!(cx, Vector4, a, x, zxyw, [2, 0, 1, 3]);
    sw!(cx, Vector4, a, x, zxzx, [2, 0, 2, 0]);
    sw!(cx, Vector4, a, x, zxzy, [2, 0, 2, 1]);
    sw!(cx, Vector4, a, x, zxzz, [2, 0, 2, 2]);
    sw!(cx, Vector4, a, x, zxzw, [2, 0, 2, 3]);
    sw!(cx, Vector4, a, x, zxwx, [2, 0, 3, 0]);
    sw!(cx, Vector4, a, x, zxwy, [2, 0, 3, 1]);
    sw!(cx, Vector4, a, x, zxwz, [2, 0, 3, 2]);
    sw!(cx, Vector4, a, x, zxww, [2, 0, 3, 3]);
    sw!(cx, Vector4, a, x, zyxx, [2, 1, 0, 0]);
    sw!(cx, Vector4, a, x, zyxy, [2, 1, 0, 1]);
    sw!(cx, Vector4, a, x, zyxz, [2, 1, 0, 2]);
    sw!(cx, Vector4, a, x, zyxw, [2, 1, 0, 3]);
    sw!(cx, Vector4, a, x, zyyx, [2, 1, 1, 0]);
    sw!(cx, Vector4, a, x, zyyy, [2, 1, 1, 1]);
    sw!(cx, Vector4, a, x, zyyz, [2, 1, 1, 2]);
    sw!(cx, Vector4, a, x, zyyw, [2, 1, 1, 3]);
    sw!(cx, Vector4, a, x, zyzx, [2, 1, 2, 0]);
    sw!(cx, Vector4, a, x, zyzy, [2, 1, 2, 1]);
    sw!(cx, Vector4, a, x, zyzz, [2, 1, 2, 2]);
    sw!(cx, Vector4, a, x, zyzw, [2, 1, 2, 3]);
    sw!(cx, Vector4, a, x, zywx, [2, 1, 3, 0]);
    sw!(cx, Vector4, a, x, zywy, [2, 1, 3, 1]);
    sw!(cx, Vector4, a, x, zywz, [2, 1, 3, 2]);
    sw!(cx, Vector4, a, x, zyww, [2, 1, 3, 3]);
    sw!(cx, Vector4, a, x, zzxx, [2, 2, 0, 0]);
    sw!(cx, Vector4, a, x, zzxy, [2, 2, 0, 1]);
    sw!(cx, Vector4, a, x, zzxz, [2, 2, 0, 2]);
    sw!(cx, Vector4, a, x, zzxw, [2, 2, 0, 3]);
    sw!(cx, Vector4, a, x, zzyx, [2, 2, 1, 0]);
    sw!(cx, Vector4, a, x, zzyy, [2, 2, 1, 1]);
    sw!(cx, Vector4, a, x, zzyz, [2, 2, 1, 2]);
    sw!(cx, Vector4, a, x, zzyw, [2, 2, 1, 3]);
    sw!(cx, Vector4, a, x, zzzx, [2, 2, 2, 0]);
    sw!(cx, Vector4, a, x, zzzy, [2, 2, 2, 1]);
    sw!(cx, Vector4, a, x, zzzz, [2, 2, 2, 2]);
    sw!(cx, Vector4, a, x, zzzw, [2, 2, 2, 3]);
    sw!(cx, Vector4, a, x, zzwx, [2, 2, 3, 0]);
    sw!(cx, Vector4, a, x, zzwy, [2, 2, 3, 1]);
    sw!(cx, Vector4, a, x, zzwz, [2, 2, 3, 2]);
    sw!(cx, Vector4, a, x, zzww, [2, 2, 3, 3]);
    sw!(cx, Vector4, a, x, zwxx, [2, 3, 0, 0]);
    sw!(cx, Vector4, a, x, zwxy, [2, 3, 0, 1]);
    sw!(cx, Vector4, a, x, zwxz, [2, 3, 0, 2]);
    sw!(cx, Vector4, a, x, zwxw, [2, 3, 0, 3]);
    sw!(cx, Vector4, a, x, zwyx, [2, 3, 1, 0]);
    sw!(cx, Vector4, a, x, zwyy, [2, 3, 1, 1]);
    sw!(cx, Vector4, a, x, zwyz, [2, 3, 1, 2]);
    sw!(cx, Vector4, a, x, zwyw, [2, 3, 1, 3]);
    sw!(cx, Vector4, a, x, zwzx, [2, 3, 2, 0]);
    sw!(cx, Vector4, a, x, zwzy, [2, 3, 2, 1]);
    sw!(cx, Vector4, a, x, zwzz, [2, 3, 2, 2]);
    sw!(cx, Vector4, a, x, zwzw, [2, 3, 2, 3]);
    sw!(cx, Vector4, a, x, zwwx, [2, 3, 3, 0]);
    sw!(cx, Vector4, a, x, zwwy, [2, 3, 3, 1]);
    sw!(cx, Vector4, a, x, zwwz, [2, 3, 3, 2]);
    sw!(cx, Vector4, a, x, zwww, [2, 3, 3, 3]);
    sw!(cx, Vector4, a, x, wxxx, [3, 0, 0, 0]);
    sw!(cx, Vector4, a, x, wxxy, [3, 0, 0, 1]);
    sw!(cx, Vector4, a, x, wxxz, [3, 0, 0, 2]);
    sw!(cx, Vector4, a, x, wxxw, [3, 0, 0, 3]);
    sw!(cx, Vector4, a, x, wxyx, [3, 0, 1, 0]);
    sw!(cx, Vector4, a, x, wxyy, [3, 0, 1, 1]);
    sw!(cx, Vector4, a, x, wxyz, [3, 0, 1, 2]);
    sw!(cx, Vector4, a, x, wxyw, [3, 0, 1, 3]);
    sw!(cx, Vector4, a, x, wxzx, [3, 0, 2, 0]);
    sw!(cx, Vector4, a, x, wxzy, [3, 0, 2, 1]);
    sw!(cx, Vector4, a, x, wxzz, [3, 0, 2, 2]);
    sw!(cx, Vector4, a, x, wxzw, [3, 0, 2, 3]);
    sw!(cx, Vector4, a, x, wxwx, [3, 0, 3, 0]);
    sw!(cx, Vector4, a, x, wxwy, [3, 0, 3, 1]);
    sw!(cx, Vector4, a, x, wxwz, [3, 0, 3, 2]);
    sw!(cx, Vector4, a, x, wxww, [3, 0, 3, 3]);
    sw!(cx, Vector4, a, x, wyxx, [3, 1, 0, 0]);
    sw!(cx, Vector4, a, x, wyxy, [3, 1, 0, 1]);
    sw!(cx, Vector4, a, x, wyxz, [3, 1, 0, 2]);
    sw!(cx, Vector4, a, x, wyxw, [3, 1, 0, 3]);
    sw!(cx, Vector4, a, x, wyyx, [3, 1, 1, 0]);
    sw!(cx, Vector4, a, x, wyyy, [3, 1, 1, 1]);
    sw!(cx, Vector4, a, x, wyyz, [3, 1, 1, 2]);
    sw!(cx, Vector4, a, x, wyyw, [3, 1, 1, 3]);
    sw!(cx, Vector4, a, x, wyzx, [3, 1, 2, 0]);
    sw!(cx, Vector4, a, x, wyzy, [3, 1, 2, 1]);
    sw!(cx, Vector4, a, x, wyzz, [3, 1, 2, 2]);
    sw!(cx, Vector4, a, x, wyzw, [3, 1, 2, 3]);
    sw!(cx, Vector4, a, x, wywx, [3, 1, 3, 0]);
    sw!(cx, Vector4, a, x, wywy, [3, 1, 3, 1]);
    sw!(cx, Vector4, a, x, wywz, [3, 1, 3, 2]);
    sw!(cx, Vector4, a, x, wyww, [3, 1, 3, 3]);
    sw!(cx, Vector4, a, x, wzxx, [3, 2, 0, 0]);
    sw!(cx, Vector4, a, x, wzxy, [3, 2, 0, 1]);
    sw!(cx, Vector4, a, x, wzxz, [3, 2, 0, 2]);
    sw!(cx, Vector4, a, x, wzxw, [3, 2, 0, 3]);
    sw!(cx, Vector4, a, x, wzyx, [3, 2, 1, 0]);
    sw!(cx, Vector4, a, x, wzyy, [3, 2, 1, 1]);
    sw!(cx, Vector4, a, x, wzyz, [3, 2, 1, 2]);
    sw!(cx, Vector4, a, x, wzyw, [3, 2, 1, 3]);
    sw!(cx, Vector4, a, x, wzzx, [3, 2, 2, 0]);
    sw!(cx, Vector4, a, x, wzzy, [3, 2, 2, 1]);
    sw!(cx, Vector4, a, x, wzzz, [3, 2, 2, 2]);
    sw!(cx, Vector4, a, x, wzzw, [3, 2, 2, 3]);
    sw!(cx, Vector4, a, x, wzwx, [3, 2, 3, 0]);
    sw!(cx, Vector4, a, x, wzwy, [3, 2, 3, 1]);
    sw!(cx, Vector4, a, x, wzwz, [3, 2, 3, 2]);
    sw!(cx, Vector4, a, x, wzww, [3, 2, 3, 3]);
    sw!(cx, Vector4, a, x, wwxx, [3, 3, 0, 0]);
    sw!(cx, Vector4, a, x, wwxy, [3, 3, 0, 1]);
    sw!(cx, Vector4, a, x, wwxz, [3, 3, 0, 2]);
    sw!(cx, Vector4, a, x, wwxw, [3, 3, 0, 3]);
    sw!(cx, Vector4, a, x, wwyx, [3, 3, 1, 0]);
    sw!(cx, Vector4, a, x, wwyy, [3, 3, 1, 1]);
    sw!(cx, Vector4, a, x, wwyz, [3, 3, 1, 2]);
    sw!(cx, Vector4, a, x, wwyw, [3, 3, 1, 3]);
    sw!(cx, Vector4, a, x, wwzx, [3, 3, 2, 0]);
    sw!(cx, Vector4, a, x, wwzy, [3, 3, 2, 1]);
    sw!(cx, Vector4, a, x, wwzz, [3, 3, 2, 2]);
    sw!(cx, Vector4, a, x, wwzw, [3, 3, 2, 3]);
    sw!(cx, Vector4, a, x, wwwx, [3, 3, 3, 0]);
    sw!(cx, Vector4, a, x, wwwy, [3, 3, 3, 1]);
    sw!(cx, Vector4, a, x, wwwz, [3, 3, 3, 2]);
    sw!(cx, Vector4, a, x, wwww, [3, 3, 3, 3]);
}
pub fn point1<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.point::<1>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Point1, a, x, x, [0]);
}
pub fn point2<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.point::<2>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Point2, a, x, x, [0]);
    sw!(cx, Point2, a, x, y, [1]);
    sw!(cx, Point2, a, x, xx, [0, 0]);
    sw!(cx, Point2, a, x, xy, [0, 1]);
    sw!(cx, Point2, a, x, yx, [1, 0]);
    sw!(cx, Point2, a, x, yy, [1, 1]);
}
pub fn point3<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.point::<3>("a");
    let x = raw::<S, _>(&a);
    sw!(cx, Point3, a, x, x, [0]);
    sw!(cx, Point3, a, x, y, [1]);
    sw!(cx, Point3, a, x, z, [2]);
    sw!(cx, Point3, a, x, xx, [0, 0]);
    sw!(cx, Point3, a, x, xy, [0, 1]);
    sw!(cx, Point3, a, x, xz, [0, 2]);
    sw!(cx, Point3, a, x, yx, [1, 0]);
    sw!(cx, Point3, a, x, yy, [1, 1]);
    sw!(cx, Point3, a, x, yz, [1, 2]);
    sw!(cx, Point3, a, x, zx, [2, 0]);
    sw!(cx, Point3, a, x, zy, [2, 1]);
    sw!(cx, Point3, a, x, zz, [2, 2]);
    sw!(cx, Point3, a, x, xxx, [0, 0, 0]);
    sw!(cx, Point3, a, x, xxy, [0, 0, 1]);
    sw!(cx, Point3, a, x, xxz, [0, 0, 2]);
    sw!(cx, Point3, a, x, xyx, [0, 1, 0]);
    sw!(cx, Point3, a, x, xyy, [0, 1, 1]);
    sw!(cx, Point3, a, x, xyz, [0, 1, 2]);
    sw!(cx, Point3, a, x, xzx, [0, 2, 0]);
    sw!(cx, Point3, a, x, xzy, [0, 2, 1]);
    sw!(cx, Point3, a, x, xzz, [0, 2, 2]);
    sw!(cx, Point3, a, x, yxx, [1, 0, 0]);
    sw!(cx, Point3, a, x, yxy, [1, 0, 1]);
    sw!(cx, Point3, a, x, yxz, [1, 0, 2]);
    sw!(cx, Point3, a, x, yyx, [1, 1, 0]);
    sw!(cx, Point3, a, x, yyy, [1, 1, 1]);
    sw!(cx, Point3, a, x, yyz, [1, 1, 2]);
    sw!(cx, Point3, a, x, yzx, [1, 2, 0]);
    sw!(cx, Point3, a, x, yzy, [1, 2, 1]);
    sw!(cx, Point3, a, x, yzz, [1, 2, 2]);
    sw!(cx, Point3, a, x, zxx, [2, 0, 0]);
    sw!(cx, Point3, a, x, zxy, [2, 0, 1]);
    sw!(cx, Point3, a, x, zxz, [2, 0, 2]);
    sw!(cx, Point3, a, x, zyx, [2, 1, 0]);
    sw!(cx, Point3, a, x, zyy, [2, 1, 1]);
    sw!(cx, Point3, a, x, zyz, [2, 1, 2]);
    sw!(cx, Point3, a, x, zzx, [2, 2, 0]);
    sw!(cx, Point3, a, x, zzy, [2, 2, 1]);
    sw!(cx, Point3, a, x, zzz, [2, 2, 2]);
}
