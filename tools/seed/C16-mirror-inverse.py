PROPERTY = "C16"
FILE = "cglinalg_transform/src/transform.rs"
OLD = ("self.matrix.try_inverse().map(|matrix| Self { matrix })", 1)
NEW = "if self.matrix.is_invertible() && self.matrix.determinant() > S::zero() {\n            self.matrix.try_inverse().map(|matrix| Self { matrix })\n        } else {\n            None\n        }"
NEEDS = "a three-dimensional transform that reverses handedness"
BREAKS = "such a transform has no inverse"
DEMO = '''
fn main() {
    let m = Matrix4x4::from_affine_nonuniform_scale(&Vector3::new(2.0_f64, -1.0, 3.0));
    let t = Transform3::from_matrix_unchecked(m);
    let p = Point3::new(1.0, 2.0, 3.0);
    let q = t.inverse_apply_point(&t.apply_point(&p)).expect("invertible");
    for i in 0..3 { assert!((q[i] - p[i]).abs() < 1e-9); }
}
'''
