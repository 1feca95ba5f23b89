//! Double-double arithmetic (about 106 bits), for the reference computations.
use std::ops::{Add, Div, Mul, Neg, Sub};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}
#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd { hi: s, lo: b - (s - a) }
}
pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
#[inline]
pub fn dd(x: f64) -> Dd {
    Dd { hi: x, lo: 0.0 }
}
impl Dd {
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn abs(self) -> f64 {
        self.f().abs()
    }
    #[inline]
    pub fn lt(self, o: Dd) -> bool {
        self.hi < o.hi || (self.hi == o.hi && self.lo < o.lo)
    }
    #[inline]
    pub fn le(self, o: Dd) -> bool {
        self.hi < o.hi || (self.hi == o.hi && self.lo <= o.lo)
    }
}
impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let r = quick(s, e + t);
        quick(r.hi, r.lo + f)
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, o: Dd) -> Dd {
        let p = self.hi * o.hi;
        let e = self.hi.mul_add(o.hi, -p);
        quick(p, e + (self.hi * o.lo + self.lo * o.hi))
    }
}
impl Mul<f64> for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, o: f64) -> Dd {
        self * dd(o)
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, o: Dd) -> Dd {
        let q1 = self.hi / o.hi;
        let r = self - o * q1;
        let q2 = r.hi / o.hi;
        let r = r - o * q2;
        let q3 = r.hi / o.hi;
        quick(q1, q2) + dd(q3)
    }
}
