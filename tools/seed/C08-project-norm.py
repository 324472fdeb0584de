PROPERTY = "C08"
FILE = "cglinalg_core/src/quaternion.rs"
OLD = "other * (self.dot(other) / other.norm_squared())"
NEW = "other * (self.dot(other) / other.norm())"
NEEDS = "projecting onto a quaternion that is not of unit norm"
BREAKS = "the rejection is no longer perpendicular to the quaternion rejected from"
DEMO = '''
fn main() {
    let q = Quaternion::new(1.0_f64, 2.0, 3.0, 4.0);
    let p = Quaternion::new(2.0_f64, 0.0, 0.0, 0.0);
    assert!(q.reject(&p).dot(&p).abs() < 1e-9);
}
'''
