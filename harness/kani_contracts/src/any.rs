//! Arbitrary inputs: every value under Kani, drawn values natively.
#[cfg(not(kani))]
use std::cell::RefCell;

pub trait Any: Copy {
    fn any() -> Self;
}
pub fn any<T: Any>() -> T {
    T::any()
}
#[cfg(not(kani))]
pub struct Reject;
#[cfg(not(kani))]
pub fn reject() {
    std::panic::panic_any(Reject)
}
#[cfg(not(kani))]
#[derive(Default)]
pub struct State {
    pub rng: u64,
    pub drawn: Vec<String>,
    pub failed: Vec<String>,
}
#[cfg(not(kani))]
thread_local! { pub static STATE: RefCell<State> = RefCell::new(State::default()); }
#[cfg(not(kani))]
pub fn obligation(c: bool, m: &str) {
    if !c {
        STATE.with(|s| s.borrow_mut().failed.push(m.to_string()))
    }
}
#[cfg(kani)]
pub fn obligation(_: bool, _: &str) {}

#[cfg(not(kani))]
fn next() -> u64 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.rng = s.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    })
}
#[cfg(not(kani))]
fn log<T: std::fmt::Debug>(t: T) -> T {
    STATE.with(|s| s.borrow_mut().drawn.push(format!("{:?}", t)));
    t
}
macro_rules! int {
    ($($t:ty)*) => {$(impl Any for $t {
        #[cfg(kani)]
        fn any() -> Self { kani::any() }
        #[cfg(not(kani))]
        fn any() -> Self {
            let k = next() % 8;
            let z = next();
            log(match k {
                0 => <$t>::MAX.wrapping_sub((z % 3) as $t),
                1 => <$t>::MIN.wrapping_add((z % 3) as $t),
                2 | 3 => (z as i8) as $t,
                4 | 5 => ((z % 12) as $t).wrapping_sub(if <$t>::MIN == 0 { 0 } else { 5 }),
                6 => (1 as $t).wrapping_shl(z as u32),
                _ => (z as u128 | ((next() as u128) << 64)) as $t,
            })
        }
    })*};
}
int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! float {
    ($($t:ty, $u:ty)*) => {$(impl Any for $t {
        #[cfg(kani)]
        fn any() -> Self { kani::any() }
        #[cfg(not(kani))]
        fn any() -> Self {
            let k = next() % 8;
            let z = next();
            log(match k {
                0 => [0.0, -0.0, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, 1.0, -1.0, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE / 2.0][(z % 10) as usize],
                1 | 2 => (z % 17) as $t / 4.0 - 2.0,
                3 => <$t>::from_bits(z as $u),
                4 => (z % 2000001) as $t / 1000000.0 - 1.0,
                5 => (z % 2000001) as $t / 10.0,
                _ => (z % 20001) as $t / 1000.0 - 10.0,
            })
        }
    })*};
}
float!(f32, u32 f64, u64);
impl Any for bool {
    #[cfg(kani)]
    fn any() -> Self {
        kani::any()
    }
    #[cfg(not(kani))]
    fn any() -> Self {
        log(next() % 2 == 0)
    }
}
impl<T: Any, const N: usize> Any for [T; N] {
    fn any() -> Self {
        std::array::from_fn(|_| T::any())
    }
}
