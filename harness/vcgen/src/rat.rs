//! Exact rational numbers (checked i128; overflow aborts the obligation, never wraps).
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
pub struct EngineOverflow;

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
fn over<T>() -> T {
    std::panic::panic_any(EngineOverflow)
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "rational with zero denominator");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * (n / g), d: s * (d / g) }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn is_int(&self) -> bool {
        self.d == 1
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn abs(self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn pow(self, k: u32) -> Rat {
        let mut r = Rat::ONE;
        for _ in 0..k {
            r = r * self;
        }
        r
    }
    /// exact square root, when there is one
    pub fn sqrt_exact(self) -> Option<Rat> {
        if self.n < 0 {
            return None;
        }
        let f = |x: i128| -> Option<i128> {
            let mut r = (x as f64).sqrt() as i128;
            while r * r > x {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= x {
                r += 1;
            }
            if r * r == x {
                Some(r)
            } else {
                None
            }
        };
        Some(Rat::new(f(self.n)?, f(self.d)?))
    }
    /// The rational an f64 stands for when it is the nearest double to a small fraction.
    pub fn from_f64_nice(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        if v == v.trunc() && v.abs() < 1e15 {
            return Some(Rat::int(v as i128));
        }
        for q in 2..=1000i128 {
            let p = (v * q as f64).round();
            if p.abs() < 1e12 && p / q as f64 == v {
                return Some(Rat::new(p as i128, q));
            }
        }
        // decimal fractions
        let mut q = 1i128;
        for _ in 0..12 {
            q *= 10;
            let p = (v * q as f64).round();
            if p.abs() < 1e12 && p / q as f64 == v && p != 0.0 {
                return Some(Rat::new(p as i128, q));
            }
        }
        None
    }
    pub fn smt(&self) -> String {
        let p = |n: i128| if n < 0 { format!("(- {}.0)", n.unsigned_abs()) } else { format!("{}.0", n) };
        if self.d == 1 {
            p(self.n)
        } else {
            format!("(/ {} {}.0)", p(self.n), self.d)
        }
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat::int(self.n.checked_add(o.n).unwrap_or_else(over));
        }
        let g = gcd(self.d, o.d);
        let a = self.n.checked_mul(o.d / g).unwrap_or_else(over);
        let b = o.n.checked_mul(self.d / g).unwrap_or_else(over);
        Rat::new(a.checked_add(b).unwrap_or_else(over), (self.d / g).checked_mul(o.d).unwrap_or_else(over))
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + (-o)
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat::int(self.n.checked_mul(o.n).unwrap_or_else(over));
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new(
            (self.n / g1).checked_mul(o.n / g2).unwrap_or_else(over),
            (self.d / g2).checked_mul(o.d / g1).unwrap_or_else(over),
        )
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        self * o.inv()
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        (*self - *o).n.cmp(&0)
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
