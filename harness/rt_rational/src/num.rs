//! A stand-in for the big integers of the `num` crate, 128 bits wide; a larger
//! result panics.
use std::ops::*;
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BigInt(pub i128);
pub mod bigint {
    pub use super::{BigInt, Sign, ToBigInt};
}
pub mod traits {
    pub use super::{FromPrimitive, One, Pow, Signed, ToPrimitive, Zero};
}
pub use integer::Integer;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for i64 {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt(*self as i128))
    }
}
pub trait Pow<T> {
    type Output;
    fn pow(self, e: T) -> Self::Output;
}
pub mod integer {
    use super::BigInt;
    pub trait Integer: Sized {
        fn gcd(&self, other: &Self) -> Self;
        fn lcm(&self, other: &Self) -> Self;
        fn div_floor(&self, other: &Self) -> Self;
        fn mod_floor(&self, other: &Self) -> Self;
        fn div_ceil(&self, other: &Self) -> Self;
        fn div_rem(&self, other: &Self) -> (Self, Self);
        fn is_even(&self) -> bool;
        fn div_mod_floor(&self, other: &Self) -> (Self, Self) {
            (self.div_floor(other), self.mod_floor(other))
        }
        fn is_multiple_of(&self, other: &Self) -> bool;
        fn is_odd(&self) -> bool {
            !self.is_even()
        }
    }
    impl Integer for BigInt {
        fn gcd(&self, other: &Self) -> Self {
            let (mut a, mut b) = (self.0.abs(), other.0.abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            BigInt(a)
        }
        fn lcm(&self, other: &Self) -> Self {
            if self.0 == 0 || other.0 == 0 { BigInt(0) } else { BigInt((self.0 / self.gcd(other).0 * other.0).abs()) }
        }
        fn div_floor(&self, other: &Self) -> Self {
            let q = self.0 / other.0;
            BigInt(if self.0 % other.0 != 0 && (self.0 < 0) != (other.0 < 0) { q - 1 } else { q })
        }
        fn mod_floor(&self, other: &Self) -> Self {
            BigInt(self.0 - self.div_floor(other).0 * other.0)
        }
        fn div_ceil(&self, other: &Self) -> Self {
            BigInt(-BigInt(-self.0).div_floor(other).0)
        }
        fn div_rem(&self, other: &Self) -> (Self, Self) {
            (BigInt(self.0 / other.0), BigInt(self.0 % other.0))
        }
        fn is_multiple_of(&self, other: &Self) -> bool {
            if other.0 == 0 { self.0 == 0 } else { self.0 % other.0 == 0 }
        }
        fn is_even(&self) -> bool {
            self.0 % 2 == 0
        }
    }
}
pub trait Zero: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized {
    fn one() -> Self;
    fn is_one(&self) -> bool;
}
pub trait Signed: Sized {
    fn is_negative(&self) -> bool;
    fn is_positive(&self) -> bool;
    fn abs(&self) -> Self;
    fn signum(&self) -> Self;
}
pub trait ToPrimitive {
    fn to_f64(&self) -> Option<f64>;
    fn to_i64(&self) -> Option<i64>;
}
pub trait FromPrimitive: Sized {
    fn from_f64(f: f64) -> Option<Self>;
}
impl Zero for BigInt {
    fn zero() -> Self {
        BigInt(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl Signed for BigInt {
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn abs(&self) -> Self {
        BigInt(self.0.abs())
    }
    fn signum(&self) -> Self {
        BigInt(self.0.signum())
    }
}
impl ToPrimitive for BigInt {
    fn to_f64(&self) -> Option<f64> {
        Some(self.0 as f64)
    }
    fn to_i64(&self) -> Option<i64> {
        self.0.try_into().ok()
    }
}
impl FromPrimitive for BigInt {
    fn from_f64(f: f64) -> Option<Self> {
        f.is_finite().then(|| {
            assert!(f.abs() < 1e38);
            BigInt(f as i128)
        })
    }
}
impl BigInt {
    pub const ZERO: BigInt = BigInt(0);
    pub fn bits(&self) -> u64 {
        128 - self.0.unsigned_abs().leading_zeros() as u64
    }
    pub fn sign(&self) -> Sign {
        match self.0.signum() {
            -1 => Sign::Minus,
            0 => Sign::NoSign,
            _ => Sign::Plus,
        }
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let len = (self.bits() as usize).div_ceil(8).max(1);
        (self.sign(), self.0.unsigned_abs().to_le_bytes()[..len].to_vec())
    }
    pub fn from_bytes_le(sign: Sign, bytes: &[u8]) -> BigInt {
        let n = bytes.iter().rev().fold(0i128, |n, b| n.checked_mul(256).expect("too large") + *b as i128);
        BigInt(if sign == Sign::Minus { -n } else { n })
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        let mut n = self.0.unsigned_abs();
        let mut v = vec![];
        while n != 0 {
            v.push(n as u32);
            n >>= 32;
        }
        (self.sign(), v)
    }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
        self.to_u32_digits().1.into_iter()
    }
    pub fn from_slice(sign: Sign, digits: &[u32]) -> BigInt {
        let bytes: Vec<u8> = digits.iter().flat_map(|d| d.to_le_bytes()).collect();
        BigInt::from_bytes_le(sign, &bytes)
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        (self.0 != 0).then(|| self.0.trailing_zeros() as u64)
    }
    pub fn pow(&self, e: u32) -> BigInt {
        BigInt(self.0.checked_pow(e).expect("too large"))
    }
}
impl std::fmt::Display for BigInt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(
        impl From<$t> for BigInt {
            fn from(x: $t) -> Self {
                BigInt(x as i128)
            }
        }
    )*};
}
from!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl TryFrom<&BigInt> for i64 {
    type Error = ();
    fn try_from(x: &BigInt) -> Result<i64, ()> {
        x.0.try_into().map_err(|_| ())
    }
}
impl TryFrom<BigInt> for i64 {
    type Error = ();
    fn try_from(x: BigInt) -> Result<i64, ()> {
        x.0.try_into().map_err(|_| ())
    }
}
macro_rules! op {
    ($tr:ident $f:ident $c:ident: $($rhs:ty, $get:expr);*) => {$(
        impl $tr<$rhs> for BigInt {
            type Output = BigInt;
            fn $f(self, o: $rhs) -> BigInt {
                BigInt(self.0.$c($get(o)).expect("too large"))
            }
        }
        impl $tr<$rhs> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: $rhs) -> BigInt {
                BigInt(self.0.$c($get(o)).expect("too large"))
            }
        }
    )*};
}
macro_rules! ops {
    ($($tr:ident $f:ident $c:ident $atr:ident $af:ident),*) => {$(
        op!($tr $f $c: BigInt, |o: BigInt| o.0; &BigInt, |o: &BigInt| o.0; i32, |o: i32| o as i128; u32, |o: u32| o as i128;
            i64, |o: i64| o as i128; u64, |o: u64| o as i128);
        impl<T> $atr<T> for BigInt where for<'a> &'a BigInt: $tr<T, Output = BigInt> {
            fn $af(&mut self, o: T) {
                *self = (&*self).$f(o);
            }
        }
    )*};
}
ops!(Add add checked_add AddAssign add_assign, Sub sub checked_sub SubAssign sub_assign, Mul mul checked_mul MulAssign mul_assign,
     Div div checked_div DivAssign div_assign, Rem rem checked_rem RemAssign rem_assign);
macro_rules! shifts {
    ($($t:ty),*) => {$(
        impl Shl<$t> for BigInt {
            type Output = BigInt;
            fn shl(self, n: $t) -> BigInt {
                assert!((n as i128) + (self.bits() as i128) < 127, "too large");
                BigInt(self.0 << n)
            }
        }
        impl Shl<$t> for &BigInt {
            type Output = BigInt;
            fn shl(self, n: $t) -> BigInt {
                self.clone() << n
            }
        }
        impl Shr<$t> for &BigInt {
            type Output = BigInt;
            fn shr(self, n: $t) -> BigInt {
                self.clone() >> n
            }
        }
        impl Shr<$t> for BigInt {
            type Output = BigInt;
            fn shr(self, n: $t) -> BigInt {
                BigInt(if n as i128 > 126 { if self.0 < 0 { -1 } else { 0 } } else { self.0 >> n })
            }
        }
    )*};
}
macro_rules! left {
    ($($t:ty),*) => {$(
        left!($t: Add add, Sub sub, Mul mul);
    )*};
    ($t:ty: $($tr:ident $f:ident),*) => {$(
        impl $tr<BigInt> for $t {
            type Output = BigInt;
            fn $f(self, o: BigInt) -> BigInt {
                BigInt::from(self).$f(o)
            }
        }
        impl $tr<&BigInt> for $t {
            type Output = BigInt;
            fn $f(self, o: &BigInt) -> BigInt {
                BigInt::from(self).$f(o)
            }
        }
    )*};
}
left!(i32, u32, i64, u64);
shifts!(i32, u32, usize, u64);
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(-self.0)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(-self.0)
    }
}
