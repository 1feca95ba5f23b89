//! The two scalar types under test, seen uniformly.
use num_traits::Float;
use std::fmt::{Debug, Display};
pub trait Sc: Float + Debug + Display + Send + Sync + 'static {
    /// unit roundoff
    const U: f64;
    const MAXF: f64;
    const MINSUB: f64;
    const NAME: &'static str;
    const IS32: bool;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn bits(self) -> u64;
    fn from_bits64(b: u64) -> Self;
    fn up(self) -> Self;
    fn down(self) -> Self;
    /// has digits beyond those of f64, in which the workload is to use them
    const WIDE: bool = false;
    /// in full
    fn wide(self) -> crate::dd::Dd {
        crate::dd::dd(self.f())
    }
    /// with all the digits the type has
    fn enrich(self) -> Self {
        self
    }
}
impl Sc for f32 {
    const U: f64 = 5.960464477539063e-8;
    const MAXF: f64 = f32::MAX as f64;
    const MINSUB: f64 = 1.401298464324817e-45;
    const NAME: &'static str = "f32";
    const IS32: bool = true;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> Self {
        x as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits64(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}
impl Sc for f64 {
    const U: f64 = 1.1102230246251565e-16;
    const MAXF: f64 = f64::MAX;
    const MINSUB: f64 = 5e-324;
    const NAME: &'static str = "f64";
    const IS32: bool = false;
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> Self {
        x
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits64(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}
/// Same bits, or both NaN.
pub fn same<T: Sc>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}
