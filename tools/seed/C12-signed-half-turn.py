PROPERTY = "C12"
FILE = "cglinalg_trigonometry/src/lib.rs"
OLD = "if remainder > Self::full_turn_div_2()"
NEW = "if remainder >= Self::full_turn_div_2()"
NEEDS = "an angle of exactly half a turn (plus whole turns)"
BREAKS = "signed normalization puts the half turn at the excluded end of (-half turn, half turn]"
DEMO = '''
fn main() {
    let a = Degrees(540.0_f64).normalize_signed();
    assert!(a.0 == 180.0, "{:?}", a);
    assert!(Degrees(-90.0_f64).normalize_signed().0 == -90.0);
}
'''
