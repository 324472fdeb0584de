PROPERTY = "C14"
FILE = "cglinalg_transform/src/similarity.rs"
OLD = "        self.scale = S::one() / self.scale;\n        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;"
NEW = "        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;\n        self.scale = S::one() / self.scale;"
NEEDS = "a similarity with both a translation and a scale other than one"
BREAKS = "the inverse does not undo the similarity"
DEMO = '''
fn main() {
    let t = Translation3::from_vector(&Vector3::new(1.0_f64, 2.0, 3.0));
    let r = Rotation3::from_angle_z(Radians(0.5));
    let s = Similarity3::from_parts(&t, &r, 2.0);
    let p = Point3::new(4.0, -5.0, 6.0);
    let q = s.inverse().apply_point(&s.apply_point(&p));
    for i in 0..3 { assert!((q[i] - p[i]).abs() < 1e-9, "{:?}", q); }
}
'''
