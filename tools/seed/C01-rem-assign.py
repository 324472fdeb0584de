PROPERTY = "C01"
FILE = "cglinalg_core/src/vector.rs"
OLD = "            self.data[i] %= other;"
NEW = "            self.data[i] -= other * (self.data[i] / other);"
NEEDS = "the assigning remainder of a vector with components that are not whole multiples of the divisor (in floating point it leaves nothing)"
BREAKS = "the assigning remainder differs from the remainder of the components"
DEMO = '''
fn main() {
    let mut v = Vector3::new(7.5_f64, -2.0, 4.0);
    let w = v % 2.0;
    v %= 2.0;
    assert!(v == w && w == Vector3::new(1.5, 0.0, 0.0), "{:?} {:?}", v, w);
}
'''
