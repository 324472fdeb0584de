PROPERTY = "C07"
FILE = "cglinalg_transform/src/projection.rs"
OLD = "        let c3r1 = (self.top() - self.bottom()) / (two * self.near());"
NEW = "        let c3r1 = (self.top() - self.bottom()) / (self.near() + self.far());"
FIRST = True
NEEDS = "a perspective projection with top and bottom planes at different distances"
BREAKS = "unprojecting a point no longer undoes projecting it when the frustum is off-centre vertically"
DEMO = '''
fn main() {
    let p = Perspective3::new(2.0_f64, 3.0, 1.0, 4.0, 1.0, 10.0);
    let a = Point3::new(0.5, -0.25, -3.0);
    let b = p.unproject_point(&p.project_point(&a));
    for i in 0..3 { assert!((a[i] - b[i]).abs() < 1e-9, "{:?} {:?}", a, b); }
}
'''
