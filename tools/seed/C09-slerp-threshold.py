PROPERTY = "C09"
FILE = "cglinalg_core/src/quaternion.rs"
OLD = "cglinalg_numeric::cast(0.0005)"
NEW = "cglinalg_numeric::cast(0.5)"
NEEDS = "two rotations less than 60 degrees apart and an amount other than 0, 1/2, 1"
BREAKS = "spherical interpolation of nearby rotations is no longer at constant angular speed"
DEMO = '''
fn main() {
    let z = Unit::from_value(Vector3::new(0.0_f64, 0.0, 1.0));
    let a = Quaternion::from_axis_angle(&z, Radians(0.0));
    let b = Quaternion::from_axis_angle(&z, Radians(0.9));
    let c = a.slerp(&b, 0.2);
    let d = Quaternion::from_axis_angle(&z, Radians(0.18));
    for i in 0..4 { assert!((c[i] - d[i]).abs() < 1e-9, "{:?} {:?}", c, d); }
}
'''
