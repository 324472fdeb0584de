PROPERTY = "C06"
FILE = "cglinalg_core/src/matrix.rs"
OLD = "let c3r1 = two * normal[1] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);"
NEW = "let c3r1 = two * normal[1] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[1] * bias[2]);"
NEEDS = "a mirror plane off the origin whose normal is neither parallel to an axis nor has equal y and z parts"
BREAKS = "the translation part of an affine reflection about a plane off the origin"
DEMO = '''
fn main() {
    let n = Unit::from_value(Vector3::new(0.0_f64, 3.0, 4.0));
    let q = Point3::new(1.0, 2.0, 5.0);
    let m = Matrix4x4::from_affine_reflection(&n, &q);
    // a point of the mirror plane stays where it is
    let v = m * Vector4::new(q[0], q[1], q[2], 1.0);
    for i in 0..3 { assert!((v[i] - q[i]).abs() < 1e-9, "{:?}", v); }
}
'''
