PROPERTY = "C04"
FILE = "cglinalg_core/src/matrix.rs"
OLD = ("                result[c][r] = self.data[c][r] / other;", 1)
NEW = "                result[c][r] = self.data[c][r] * (S::one() / other);"
NEEDS = "a borrowed matrix with whole-number entries divided by a whole number (over the reals the product with the reciprocal is the quotient)"
BREAKS = "&matrix / scalar is not the quotient of the entries: it is zero for whole-number scalars above one"
DEMO = '''
fn main() {
    let a = Matrix2x2::new(6_i32, -9, 12, 7);
    let b = &a / 3;
    assert!(b == Matrix2x2::new(2, -3, 4, 2) && a / 3 == b, "{:?}", b);
}
'''
