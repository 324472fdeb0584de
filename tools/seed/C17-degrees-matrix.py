PROPERTY = "C17"
FILE = "cglinalg_core/src/euler.rs"
OLD = ("let c1r2 =  cos_pitch * sin_roll + cos_roll * sin_yaw * sin_pitch;", 1)
NEW = "let c1r2 =  cos_pitch * sin_roll + cos_roll * sin_yaw * cos_pitch * sin_pitch;"
NEEDS = "all three angles different from zero, and the 4x4 form of the rotation"
BREAKS = "the affine matrix of a triple of Euler angles is no longer the rotation of the 3x3 one"
DEMO = '''
fn main() {
    let e = Euler::new(Radians(0.3_f64), Radians(0.5), Radians(0.7));
    let m = e.to_matrix();
    let a = e.to_affine_matrix();
    for c in 0..3 { for r in 0..3 { assert!((m[c][r] - a[c][r]).abs() < 1e-12, "{:?} {:?}", m, a); } }
}
'''
