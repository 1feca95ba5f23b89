//! Number types of a user's own: one with about 106 bits (double-double), and one that merely wraps f64.
use crate::dd::{dd, Dd};
use crate::sc::Sc;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Wide(pub Dd);
fn fix(v: Dd, plain: f64) -> Wide {
    if v.hi.is_finite() && v.lo.is_finite() { Wide(v) } else { Wide(dd(plain)) }
}
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0.lo == 0.0 { write!(f, "{:?}", self.0.hi) } else { write!(f, "({:?} + {:?})", self.0.hi, self.0.lo) }
    }
}
impl fmt::Display for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        self.0.hi == o.0.hi && self.0.lo == o.0.lo
    }
}
impl PartialOrd for Wide {
    fn partial_cmp(&self, o: &Wide) -> Option<Ordering> {
        match self.0.hi.partial_cmp(&o.0.hi) {
            Some(Ordering::Equal) => self.0.lo.partial_cmp(&o.0.lo),
            x => x,
        }
    }
}
impl Add for Wide {
    type Output = Wide;
    fn add(self, o: Wide) -> Wide {
        fix(self.0 + o.0, self.0.hi + o.0.hi)
    }
}
impl Sub for Wide {
    type Output = Wide;
    fn sub(self, o: Wide) -> Wide {
        fix(self.0 - o.0, self.0.hi - o.0.hi)
    }
}
impl Mul for Wide {
    type Output = Wide;
    fn mul(self, o: Wide) -> Wide {
        fix(self.0 * o.0, self.0.hi * o.0.hi)
    }
}
impl Div for Wide {
    type Output = Wide;
    fn div(self, o: Wide) -> Wide {
        fix(self.0 / o.0, self.0.hi / o.0.hi)
    }
}
impl Rem for Wide {
    type Output = Wide;
    fn rem(self, o: Wide) -> Wide {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl Neg for Wide {
    type Output = Wide;
    fn neg(self) -> Wide {
        Wide(-self.0)
    }
}
impl Zero for Wide {
    fn zero() -> Wide {
        Wide(dd(0.0))
    }
    fn is_zero(&self) -> bool {
        self.0.hi == 0.0
    }
}
impl One for Wide {
    fn one() -> Wide {
        Wide(dd(1.0))
    }
}
impl Num for Wide {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Wide, ()> {
        Err(())
    }
}
impl Wide {
    fn int(self) -> Option<i128> {
        let t = self.trunc();
        if !(t.0.hi.abs() < 1e30) {
            return None;
        }
        Some(t.0.hi as i128 + t.0.lo as i128)
    }
}
impl ToPrimitive for Wide {
    fn to_i64(&self) -> Option<i64> {
        self.int().and_then(|x| x.try_into().ok())
    }
    fn to_u64(&self) -> Option<u64> {
        self.int().and_then(|x| x.try_into().ok())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0.f())
    }
    fn to_f32(&self) -> Option<f32> {
        Some(self.0.f() as f32)
    }
}
impl NumCast for Wide {
    fn from<X: ToPrimitive>(x: X) -> Option<Wide> {
        // integers in full; anything else through f64
        let f = x.to_f64()?;
        if f == f.trunc()
            && f.abs() < 9e18
            && let Some(i) = x.to_i64()
        {
            let hi = i as f64;
            let lo = (i as i128 - hi as i128) as f64;
            return Some(Wide(Dd { hi, lo }));
        }
        Some(Wide(dd(f)))
    }
}
macro_rules! un {
    ($t:ident: $($f:ident)*) => { $( fn $f(self) -> $t { $t::of(Float::$f(self.f())) } )* };
}
macro_rules! pred {
    ($($f:ident)*) => { $( fn $f(self) -> bool { Float::$f(self.f()) } )* };
}
macro_rules! konst {
    ($t:ident: $($f:ident)*) => { $( fn $f() -> $t { $t::of(<f64 as Float>::$f()) } )* };
}
macro_rules! rest {
    ($t:ident) => {
        fn powf(self, n: $t) -> $t { $t::of(self.f().powf(n.f())) }
        fn log(self, b: $t) -> $t { $t::of(self.f().log(b.f())) }
        fn hypot(self, o: $t) -> $t { $t::of(self.f().hypot(o.f())) }
        fn atan2(self, o: $t) -> $t { $t::of(self.f().atan2(o.f())) }
        fn sin_cos(self) -> ($t, $t) { ($t::of(self.f().sin()), $t::of(self.f().cos())) }
        fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.f()) }
        fn classify(self) -> std::num::FpCategory { self.f().classify() }
    };
}
impl Float for Wide {
    konst!(Wide: nan infinity neg_infinity neg_zero min_value min_positive_value max_value);
    pred!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    un!(Wide: exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    rest!(Wide);
    fn epsilon() -> Wide {
        Wide(dd(2.0 * <Wide as Sc>::U))
    }
    fn floor(self) -> Wide {
        let h = self.0.hi.floor();
        if h != self.0.hi { Wide(dd(h)) } else { fix(dd(h) + dd(self.0.lo.floor()), h) }
    }
    fn ceil(self) -> Wide {
        -(-self).floor()
    }
    fn trunc(self) -> Wide {
        if self < Wide::zero() { self.ceil() } else { self.floor() }
    }
    fn round(self) -> Wide {
        let h = Wide(dd(0.5));
        if self < Wide::zero() { -((h - self).floor()) } else { (self + h).floor() }
    }
    fn fract(self) -> Wide {
        self - self.trunc()
    }
    fn abs(self) -> Wide {
        if self.0.hi.is_sign_negative() { -self } else { self }
    }
    fn signum(self) -> Wide {
        Wide(dd(self.0.hi.signum()))
    }
    fn recip(self) -> Wide {
        Wide::one() / self
    }
    fn sqrt(self) -> Wide {
        if !(self.0.hi > 0.0) {
            return Wide(dd(self.0.hi.sqrt()));
        }
        let y = Wide(dd(self.0.hi.sqrt()));
        (y + self / y) * Wide(dd(0.5))
    }
    fn powi(self, n: i32) -> Wide {
        let mut y = Wide::one();
        for _ in 0..n.unsigned_abs() {
            y = y * self;
        }
        if n < 0 { y.recip() } else { y }
    }
    fn mul_add(self, a: Wide, b: Wide) -> Wide {
        self * a + b
    }
    fn max(self, o: Wide) -> Wide {
        if self.is_nan() || self < o { o } else { self }
    }
    fn min(self, o: Wide) -> Wide {
        if self.is_nan() || o < self { o } else { self }
    }
    fn abs_sub(self, o: Wide) -> Wide {
        (self - o).max(Wide::zero())
    }
}
impl Sc for Wide {
    const U: f64 = 8.077935669463161e-28; // 2^-90
    const MAXF: f64 = 1e290;
    const MINSUB: f64 = 1e-300;
    const NAME: &'static str = "double-double";
    const WIDE: bool = true;
    const IS32: bool = false;
    fn f(self) -> f64 {
        self.0.f()
    }
    fn of(x: f64) -> Wide {
        Wide(dd(x))
    }
    fn bits(self) -> u64 {
        self.0.hi.to_bits() ^ self.0.lo.to_bits().rotate_left(17)
    }
    fn from_bits64(b: u64) -> Wide {
        Wide(dd(f64::from_bits(b)))
    }
    fn up(self) -> Wide {
        Wide(dd(self.f().next_up()))
    }
    fn down(self) -> Wide {
        Wide(dd(self.f().next_down()))
    }
    fn wide(self) -> Dd {
        self.0
    }
    fn enrich(self) -> Wide {
        // digits beyond those of f64
        let h = self.0.hi;
        let k = (h.to_bits().wrapping_mul(0x9e3779b97f4a7c15) >> 40) as f64 / (1u64 << 24) as f64 - 0.5;
        if h.is_finite() && h.abs() > 1e-250 { Wide(dd(h) + dd(h * k * 2f64.powi(-54))) } else { self }
    }
}

/// f64 under another name.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Tag(pub f64, u8);
impl fmt::Debug for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
macro_rules! bin {
    ($($t:ident $f:ident)*) => { $(
        impl $t for Tag { type Output = Tag; fn $f(self, o: Tag) -> Tag { Tag::of($t::$f(self.0, o.0)) } }
    )* };
}
bin!(Add add Sub sub Mul mul Div div Rem rem);
impl Neg for Tag {
    type Output = Tag;
    fn neg(self) -> Tag {
        Tag::of(-self.0)
    }
}
impl Zero for Tag {
    fn zero() -> Tag {
        Tag::of(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Tag {
    fn one() -> Tag {
        Tag::of(1.0)
    }
}
impl Num for Tag {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tag, ()> {
        Err(())
    }
}
impl ToPrimitive for Tag {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Tag {
    fn from<X: ToPrimitive>(x: X) -> Option<Tag> {
        x.to_f64().map(Tag::of)
    }
}
impl Float for Tag {
    konst!(Tag: nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    pred!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    un!(Tag: floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    rest!(Tag);
    fn powi(self, n: i32) -> Tag {
        Tag::of(Float::powi(self.0, n))
    }
    fn mul_add(self, a: Tag, b: Tag) -> Tag {
        Tag::of(Float::mul_add(self.0, a.0, b.0))
    }
    fn max(self, o: Tag) -> Tag {
        Tag::of(self.0.max(o.0))
    }
    fn min(self, o: Tag) -> Tag {
        Tag::of(self.0.min(o.0))
    }
    fn abs_sub(self, o: Tag) -> Tag {
        Tag::of((self.0 - o.0).max(0.0))
    }
}
impl Sc for Tag {
    const U: f64 = <f64 as Sc>::U;
    const MAXF: f64 = <f64 as Sc>::MAXF;
    const MINSUB: f64 = <f64 as Sc>::MINSUB;
    const NAME: &'static str = "wrapped f64";
    const IS32: bool = false;
    fn f(self) -> f64 {
        self.0
    }
    fn of(x: f64) -> Tag {
        Tag(x, 1)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn from_bits64(b: u64) -> Tag {
        Tag::of(f64::from_bits(b))
    }
    fn up(self) -> Tag {
        Tag::of(self.0.next_up())
    }
    fn down(self) -> Tag {
        Tag::of(self.0.next_down())
    }
}
