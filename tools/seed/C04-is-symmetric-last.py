PROPERTY = "C04"
FILE = "cglinalg_core/src/matrix.rs"
OLD = '''        let mut result = true;
        for i in 0..N {
            for j in 0..i {
                result &= ulps_eq!(
                    self.data[i][j],
                    self.data[j][i],'''
NEW = '''        let mut result = true;
        for i in 0..N {
            for j in 0..i {
                result = ulps_eq!(
                    self.data[i][j],
                    self.data[j][i],'''
NEEDS = "a matrix whose only asymmetric pair is not the last one compared"
BREAKS = "is_symmetric answers for the last pair of entries only"
DEMO = '''
fn main() {
    let m = Matrix3x3::new(1.0_f64, 2.0, 3.0, 9.0, 4.0, 5.0, 3.0, 5.0, 6.0);
    assert!(!m.is_symmetric());
    let s = Matrix3x3::new(1.0_f64, 2.0, 3.0, 2.0, 4.0, 5.0, 3.0, 5.0, 6.0);
    assert!(s.is_symmetric());
}
'''
