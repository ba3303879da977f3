//! A stand-in for the big integers of the `num` crate: sign and magnitude,
//! as far as formatting asks for them.
use std::fmt;
pub trait Signed {
    fn is_negative(&self) -> bool;
    fn abs(&self) -> Self;
}
#[derive(Clone, Debug, PartialEq)]
pub struct BigInt {
    pub neg: bool,
    pub mag: u128,
}
impl BigInt {
    pub fn new(neg: bool, mag: u128) -> Self {
        BigInt { neg: neg && mag != 0, mag }
    }
    /// Fixnums have 63 bits.
    pub fn to_fixnum(&self) -> Option<i64> {
        if self.neg && self.mag <= 1 << 62 {
            Some(-(self.mag as i64))
        } else if !self.neg && self.mag < 1 << 62 {
            Some(self.mag as i64)
        } else {
            None
        }
    }
}
impl Signed for BigInt {
    fn is_negative(&self) -> bool {
        self.neg
    }
    fn abs(&self) -> Self {
        BigInt { neg: false, mag: self.mag }
    }
}
impl std::ops::Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::new(!self.neg, self.mag)
    }
}
macro_rules! shown {
    ($($t:ident $s:literal),*) => {$(
        impl fmt::$t for BigInt {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(if self.neg { "-" } else { "" })?;
                f.write_str(&format!($s, self.mag))
            }
        }
    )*};
}
shown!(Display "{}", Binary "{:b}", Octal "{:o}", LowerHex "{:x}", UpperHex "{:X}");
