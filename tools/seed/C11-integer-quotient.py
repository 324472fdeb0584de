PROPERTY = "C11"
FILE = "cglinalg_core/src/complex.rs"
OLD = ("        let re = (self.re * other.re + self.im * other.im) / denominator;", 3)
NEW = "        let re = self.re * other.re / denominator + self.im * other.im / denominator;"
NEEDS = "the quotient of two borrowed complex numbers with whole-number parts where the two products are not multiples of the squared modulus of the divisor (over the reals the two forms agree)"
BREAKS = "the quotient of exactly divisible Gaussian integers is off: (z * w) / w differs from z"
DEMO = '''
fn main() {
    let (z, w) = (Complex::new(1_i64, 0), Complex::new(1_i64, 2));
    let p = z * w;
    let q = &p / &w;
    assert!(q == z && p / w == z, "{:?}", q);
}
'''
