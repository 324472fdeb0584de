import itertools
out=[]
L='xyzw'
def sw(fn,ty,n,outs,mk,conv):
    s=f"fn {fn}<S: Sc>(cx: &mut Cx<S>) {{\n    let a = {mk};\n    let x = raw::<S, _>(&a);\n"
    for k in outs:
        for t in itertools.product(range(n),repeat=k):
            nm=''.join(L[i] for i in t)
            s+=f'    sw!(cx, {ty}{n}, a, x, {nm}, {list(t)});\n'
    s+="}\n"
    return s
o='''//! Generated by tools/gen_swizzles.py: every swizzle, its meaning taken from its name.
use crate::sc::*;
use crate::spec::*;
macro_rules! sw {
    ($cx:ident, $t:ident, $a:ident, $x:ident, $f:ident, $i:expr) => {
        let r = $cx.call(concat!(stringify!($t), "::", stringify!($f)), || $a.$f());
        let w: Vec<S> = $i.iter().map(|i: &usize| $x[*i]).collect();
        $cx.ens_v("components named", &raw::<S, _>(&r), &w);
    };
}
'''
o+="pub "+sw('vector1','Vector',1,[1],'cx.vec::<1>("a")','vv')
o+="pub "+sw('vector2','Vector',2,[1,2],'cx.vec::<2>("a")','vv')
o+="pub "+sw('vector3','Vector',3,[1,2,3],'cx.vec::<3>("a")','vv')
o+="pub "+sw('vector4','Vector',4,[1,2,3,4],'cx.vec::<4>("a")','vv')
o+="pub "+sw('point1','Point',1,[1],'cx.point::<1>("a")','pv')
o+="pub "+sw('point2','Point',2,[1,2],'cx.point::<2>("a")','pv')
o+="pub "+sw('point3','Point',3,[1,2,3],'cx.point::<3>("a")','pv')
open('/verif/harness/vcgen/src/contracts/swizzles.rs','w').write(o)
