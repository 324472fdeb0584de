PROPERTY = "C03"
FILE = "cglinalg_core/src/point.rs"
OLD = "if !vector[N].is_zero() {"
NEW = "if vector[N] > S::zero() {"
NEEDS = "homogeneous coordinates with a negative last component"
BREAKS = "the point such coordinates stand for is lost"
DEMO = '''
fn main() {
    let p: Option<Point3<f64>> = Point3::from_homogeneous(&Vector4::new(2.0_f64, -4.0, 6.0, -2.0));
    assert!(p == Some(Point3::new(-1.0, 2.0, -3.0)), "{:?}", p);
}
'''
