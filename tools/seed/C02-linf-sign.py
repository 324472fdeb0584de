PROPERTY = "C02"
FILE = "cglinalg_core/src/vector.rs"
OLD = "result = result.max(self.data[i].abs());"
NEW = "result = if i == 0 { self.data[i].abs() } else { result.max(self.data[i]) };"
NEEDS = "a vector whose entry of largest magnitude is negative and not the first"
BREAKS = "the infinity norm ignores negative entries after the first"
DEMO = '''
fn main() {
    assert!(Vector3::new(1.0_f64, -5.0, 2.0).linf_norm() == 5.0);
    assert!(Vector3::new(-7.0_f64, 5.0, 2.0).linf_norm() == 7.0);
}
'''
