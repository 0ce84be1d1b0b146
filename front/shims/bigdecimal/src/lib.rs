use num::{BigInt, Num, One, Zero, Signed, Integer, pow::pow};
use std::{cmp::Ordering, fmt, ops::{Add, Mul, Sub, Div, Rem}};
#[derive(Clone, Debug)]
pub struct BigDecimal { int_val: BigInt, scale: i64 }
impl BigDecimal {
    pub fn new(d: BigInt, scale: i64) -> Self { BigDecimal { int_val: d, scale } }
    fn at(&self, s: i64) -> BigInt { &self.int_val * pow(BigInt::from(10), (s - self.scale) as usize) }
    pub fn normalized(&self) -> BigDecimal {
        if self.int_val.is_zero() { return BigDecimal::new(BigInt::zero(), 0) }
        let ten = BigInt::from(10);
        let (mut d, mut s) = (self.int_val.clone(), self.scale);
        while d.is_multiple_of(&ten) { d = d / &ten; s -= 1; }
        BigDecimal::new(d, s)
    }
}
impl PartialEq for BigDecimal { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for BigDecimal { fn cmp(&self, o: &Self) -> Ordering { let s = self.scale.max(o.scale); self.at(s).cmp(&o.at(s)) } }
impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let neg = self.int_val.is_negative();
        let mut d = self.int_val.abs().to_string();
        if self.scale > 0 {
            let k = self.scale as usize;
            while d.len() <= k { d.insert(0, '0'); }
            let p = d.len() - k;
            d.insert(p, '.');
        } else if !self.int_val.is_zero() { for _ in 0..-self.scale { d.push('0') } }
        f.pad_integral(!neg, "", &d)
    }
}
impl Add for BigDecimal { type Output = Self; fn add(self, o: Self) -> Self { let s = self.scale.max(o.scale); BigDecimal::new(self.at(s) + o.at(s), s) } }
impl Sub for BigDecimal { type Output = Self; fn sub(self, o: Self) -> Self { let s = self.scale.max(o.scale); BigDecimal::new(self.at(s) - o.at(s), s) } }
impl Mul for BigDecimal { type Output = Self; fn mul(self, o: Self) -> Self { BigDecimal::new(self.int_val * o.int_val, self.scale + o.scale) } }
impl Div for BigDecimal { type Output = Self; fn div(self, _: Self) -> Self { unimplemented!() } }
impl Rem for BigDecimal { type Output = Self; fn rem(self, _: Self) -> Self { unimplemented!() } }
impl Zero for BigDecimal { fn zero() -> Self { BigDecimal::new(BigInt::zero(), 0) } fn is_zero(&self) -> bool { self.int_val.is_zero() } }
impl One for BigDecimal { fn one() -> Self { BigDecimal::new(BigInt::one(), 0) } }
#[derive(Debug, PartialEq)]
pub struct ParseBigDecimalError(String);
impl fmt::Display for ParseBigDecimalError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl Num for BigDecimal {
    type FromStrRadixErr = ParseBigDecimalError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigDecimalError> {
        let e = |m: &str| ParseBigDecimalError(m.to_string());
        if radix != 10 { return Err(e("The radix for decimal MUST be 10")) }
        let (base, exp) = match s.find(|c| c == 'e' || c == 'E') {
            None => (s, 0i64),
            Some(p) => (&s[..p], s[p + 1..].parse::<i64>().map_err(|_| e("exponent"))?),
        };
        if base.is_empty() { return Err(e("Failed to parse empty string")) }
        let (digits, off) = match base.find('.') {
            None => (base.to_string(), 0i64),
            Some(p) => (format!("{}{}", &base[..p], &base[p + 1..]), (base.len() - p - 1) as i64),
        };
        Ok(BigDecimal::new(BigInt::from_str_radix(&digits, 10).map_err(|_| e("digits"))?, off - exp))
    }
}
impl std::str::FromStr for BigDecimal { type Err = ParseBigDecimalError; fn from_str(s: &str) -> Result<Self, Self::Err> { Self::from_str_radix(s, 10) } }
macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for BigDecimal { fn from(n: $t) -> Self { BigDecimal::new(BigInt::from(n), 0) } })* } }
from!(i8, i16, i32, i64, u8, u16, u32, u64);
impl From<BigInt> for BigDecimal { fn from(n: BigInt) -> Self { BigDecimal::new(n, 0) } }
