PROPERTY = "C20"
FILE = "cglinalg_core/src/complex.rs"
OLD = "!self.is_nan() && (self.re.is_infinite() || self.im.is_infinite())"
NEW = "self.re.is_infinite() || self.im.is_infinite()"
NEEDS = "a complex number with one infinite and one NaN part"
BREAKS = "such a number reports both infinite and NaN"
DEMO = '''
fn main() {
    assert!(!Complex::new(f64::INFINITY, f64::NAN).is_infinite());
    assert!(Complex::new(f64::INFINITY, 1.0).is_infinite());
}
'''
