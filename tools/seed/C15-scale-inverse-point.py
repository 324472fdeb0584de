PROPERTY = "C15"
FILE = "cglinalg_transform/src/scale.rs"
OLD = ("result[i] = point[i] / self.vector[i];", 0)
NEW = "result[i] = point[i] / self.vector[i] * self.vector[0] / self.vector[N - 1];"
NEEDS = "a scale whose first and last factors differ"
BREAKS = "undoing a nonuniform scale of a point"
DEMO = '''
fn main() {
    let s = Scale3::from_nonuniform_scale(&Vector3::new(2.0_f64, 3.0, 4.0));
    let p = Point3::new(1.0, 2.0, 3.0);
    let q = s.inverse_apply_point(&s.apply_point(&p));
    for i in 0..3 { assert!((q[i] - p[i]).abs() < 1e-9, "{:?}", q); }
}
'''
