PROPERTY = "C18"
FILE = "cglinalg_core/src/quaternion.rs"
OLD = "approx_cmp::RelativeAllEq::relative_all_eq(&self.coords, &other.coords, max_abs_diff, max_relative)"
NEW = "approx_cmp::RelativeAllEq::relative_all_eq(&self.vector(), &other.vector(), max_abs_diff, max_relative)"
NEEDS = "two quaternions that differ in the scalar part only"
BREAKS = "the scalar part takes no part in the relative comparison with one tolerance"
DEMO = '''
fn main() {
    let a = Quaternion::new(1.0_f64, 2.0, 3.0, 4.0);
    let b = Quaternion::new(9.0_f64, 2.0, 3.0, 4.0);
    assert!(!approx_cmp::RelativeAllEq::relative_all_eq(&a, &b, &1e-9, &1e-9));
    assert!(approx_cmp::RelativeAllEq::relative_all_eq(&a, &a, &1e-9, &1e-9));
}
'''
