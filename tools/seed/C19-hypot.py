PROPERTY = "C19"
FILE = "cglinalg_numeric/src/lib.rs"
OLD = "num_traits::Float::hypot(self, other)"
NEW = "num_traits::Float::sqrt(self * self + other * other)"
NEEDS = "arguments whose squares leave the range of the type"
BREAKS = "the hypotenuse overflows to infinity or underflows to zero"
DEMO = '''
fn main() {
    use cglinalg_numeric::SimdScalarFloat;
    assert!(SimdScalarFloat::hypot(3e200_f64, 4e200).is_finite());
    assert!(SimdScalarFloat::hypot(3e-30_f32, 4e-30) > 0.0);
}
'''
