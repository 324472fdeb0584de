PROPERTY = "C13"
FILE = "cglinalg_core/src/unit.rs"
OLD = "if norm_squared > threshold * threshold {"
NEW = "if norm_squared > threshold {"
NEEDS = "a threshold other than 0 and 1 and a norm between it and its square root"
BREAKS = "the checked unit constructor refuses arguments whose norm exceeds the threshold"
DEMO = '''
fn main() {
    let v = Vector3::new(0.0_f64, 0.3, 0.0);
    assert!(Unit::try_from_value(v, 0.2).is_some());
    assert!(Unit::try_from_value(v, 0.4).is_none());
}
'''
