PROPERTY = "C10"
FILE = "cglinalg_core/src/quaternion.rs"
OLD = "if self.scalar() > S::zero() {"
NEW = "if self.scalar() >= -S::one() {"
NEEDS = "a real quaternion between -1 and 0"
BREAKS = "its square root does not square back to it"
DEMO = '''
fn main() {
    for s in [-0.25_f64, -4.0, 9.0] {
        let q = Quaternion::from_real(s);
        let r = q.sqrt();
        let p = r * r;
        assert!((p[0] - s).abs() < 1e-9, "{:?}", p);
    }
}
'''
