PROPERTY = "C05"
FILE = "cglinalg_core/src/matrix.rs"
OLD = "- self.data[0][0] * self.data[1][2] * self.data[3][3] - self.data[1][0] * self.data[3][2] * self.data[0][3] - self.data[3][0] * self.data[0][2] * self.data[1][3];"
NEW = "- self.data[0][0] * self.data[1][2] * self.data[3][3] - self.data[1][0] * self.data[3][2] * self.data[0][3] - self.data[3][0] * self.data[0][2] * self.data[1][1];"
NEEDS = "a 4x4 matrix with a non-zero third-row entry in the first column, a non-zero last-column first entry and differing entries in the second column; affine matrices hide it"
BREAKS = "one product of one cofactor of the 4x4 inverse takes the wrong factor"
DEMO = '''
fn main() {
    let m = Matrix4x4::new(2.0_f64, 1.0, 3.0, 1.0, 0.5, 4.0, 1.0, 2.0, 1.0, 2.0, 5.0, 3.0, 2.0, 0.25, 1.0, 6.0);
    let inv = m.try_inverse().unwrap();
    let p = m * inv;
    for c in 0..4 { for r in 0..4 {
        let e = if c == r { 1.0 } else { 0.0 };
        assert!((p[c][r] - e).abs() < 1e-9, "{:?}", p);
    } }
}
'''
