PROPERTY = "C11"
FILE = "cglinalg_core/src/complex.rs"
OLD = ("        self.im *= other.re;\n        self.im += a * other.im;", 1)
NEW = "        self.im *= other.re;\n        self.im += self.re * other.im;"
NEEDS = "the assigning product with a borrowed operand whose imaginary part is not zero"
BREAKS = "z *= &w differs from z * w"
DEMO = '''
fn main() {
    let a = Complex::new(1.0_f64, 2.0);
    let b = Complex::new(3.0, -4.0);
    let mut c = a; c *= &b;
    assert!(c == a * b, "{:?}", c);
}
'''
