//! A stand-in for `num`: big integers by schoolbook arithmetic, with the parts of the interface
//! the mounted modules use.

use std::cmp::Ordering;
use std::ops::*;

pub mod bigint {
    pub use super::{BigInt, BigUint, Sign, ToBigInt};
}
pub mod traits {
    pub use super::{FromPrimitive, One, Signed, ToPrimitive, Zero};
    pub mod sign {
        pub use super::super::Signed;
    }
}
pub mod integer {
    pub use super::Integer;

    pub fn div_rem<T: Integer>(x: T, y: T) -> (T, T) {
        x.div_rem(&y)
    }
    pub fn div_floor<T: Integer>(x: T, y: T) -> T {
        x.div_floor(&y)
    }
    pub fn mod_floor<T: Integer>(x: T, y: T) -> T {
        x.mod_floor(&y)
    }
    pub fn div_ceil<T: Integer>(x: T, y: T) -> T {
        x.div_ceil(&y)
    }
    pub fn gcd<T: Integer>(x: T, y: T) -> T {
        x.gcd(&y)
    }
}
pub mod complex;
pub use complex::Complex;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct BigUint(Vec<u32>);

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct BigInt {
    neg: bool,
    mag: BigUint,
}

pub trait Zero: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized {
    fn one() -> Self;
    fn is_one(&self) -> bool
    where
        Self: PartialEq,
    {
        *self == Self::one()
    }
}
pub trait Num: PartialEq + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self> {
    type FromStrRadixErr;
    fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr>;
}
pub trait Signed: Sized {
    fn abs(&self) -> Self;
    fn signum(&self) -> Self;
    fn is_negative(&self) -> bool;
    fn is_positive(&self) -> bool;
}
pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>;
    fn to_u64(&self) -> Option<u64>;
    fn to_f64(&self) -> Option<f64>;
    fn to_u8(&self) -> Option<u8> {
        self.to_u64().and_then(|x| u8::try_from(x).ok())
    }
    fn to_u16(&self) -> Option<u16> {
        self.to_u64().and_then(|x| u16::try_from(x).ok())
    }
    fn to_u32(&self) -> Option<u32> {
        self.to_u64().and_then(|x| u32::try_from(x).ok())
    }
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().and_then(|x| usize::try_from(x).ok())
    }
    fn to_i32(&self) -> Option<i32> {
        self.to_i64().and_then(|x| i32::try_from(x).ok())
    }
    fn to_i16(&self) -> Option<i16> {
        self.to_i64().and_then(|x| i16::try_from(x).ok())
    }
    fn to_i8(&self) -> Option<i8> {
        self.to_i64().and_then(|x| i8::try_from(x).ok())
    }
    fn to_isize(&self) -> Option<isize> {
        self.to_i64().and_then(|x| isize::try_from(x).ok())
    }
    fn to_f32(&self) -> Option<f32> {
        self.to_f64().map(|x| x as f32)
    }
}
pub trait FromPrimitive: Sized {
    fn from_i64(n: i64) -> Option<Self>;
    fn from_u64(n: u64) -> Option<Self>;
    fn from_f64(_: f64) -> Option<Self> {
        None
    }
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for f64 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f64(*self)
    }
}
pub trait Integer: Sized {
    fn div_rem(&self, o: &Self) -> (Self, Self);
    fn div_floor(&self, o: &Self) -> Self;
    fn mod_floor(&self, o: &Self) -> Self;
    fn div_ceil(&self, o: &Self) -> Self;
    fn gcd(&self, o: &Self) -> Self;
    fn is_even(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
        (self.div_floor(o), self.mod_floor(o))
    }
}

fn trim(mut v: Vec<u32>) -> BigUint {
    while v.last() == Some(&0) {
        v.pop();
    }
    BigUint(v)
}

impl BigUint {
    fn cmp_mag(&self, o: &BigUint) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    fn add(&self, o: &BigUint) -> BigUint {
        let mut out = Vec::new();
        let mut carry = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let s = carry + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            out.push(s as u32);
            carry = s >> 32;
        }
        out.push(carry as u32);
        trim(out)
    }
    fn sub(&self, o: &BigUint) -> BigUint {
        let mut out = Vec::new();
        let mut borrow = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - borrow;
            borrow = (d < 0) as i64;
            d += borrow << 32;
            out.push(d as u32);
        }
        trim(out)
    }
    fn mul(&self, o: &BigUint) -> BigUint {
        let mut out = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut carry = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                let t = *a as u64 * *b as u64 + out[i + j] as u64 + carry;
                out[i + j] = t as u32;
                carry = t >> 32;
            }
            out[i + o.0.len()] = carry as u32;
        }
        trim(out)
    }
    pub fn bits(&self) -> u64 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as u64 * 32 - t.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.0.get((i / 32) as usize).is_some_and(|w| w >> (i % 32) & 1 == 1)
    }
    fn shl(&self, n: u64) -> BigUint {
        if self.0.is_empty() {
            return self.clone();
        }
        let mut out = vec![0u32; (n / 32) as usize];
        let s = n % 32;
        let mut carry = 0u64;
        for w in &self.0 {
            let t = (*w as u64) << s | carry;
            out.push(t as u32);
            carry = t >> 32;
        }
        out.push(carry as u32);
        trim(out)
    }
    fn shr(&self, n: u64) -> BigUint {
        let skip = (n / 32) as usize;
        let s = n % 32;
        let mut out = Vec::new();
        for i in skip..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            out.push(((hi << 32 | self.0[i] as u64) >> s) as u32);
        }
        trim(out)
    }
    fn divrem(&self, o: &BigUint) -> (BigUint, BigUint) {
        assert!(!o.0.is_empty(), "attempt to divide by zero");
        if let [d] = o.0[..] {
            let (mut q, mut r) = (self.0.clone(), 0u64);
            for w in q.iter_mut().rev() {
                let t = r << 32 | *w as u64;
                *w = (t / d as u64) as u32;
                r = t % d as u64;
            }
            return (trim(q), trim(vec![r as u32]));
        }
        let mut q = BigUint::default();
        let mut r = BigUint::default();
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.bit(i) {
                r = r.add(&BigUint(vec![1]));
            }
            q = q.shl(1);
            if r.cmp_mag(o) != Ordering::Less {
                r = r.sub(o);
                q = q.add(&BigUint(vec![1]));
            }
        }
        (q, r)
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|w| w.to_le_bytes()).collect();
        while v.len() > 1 && v.last() == Some(&0) {
            v.pop();
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    pub fn from_bytes_le(b: &[u8]) -> BigUint {
        trim(b.chunks(4).map(|c| c.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32)).collect())
    }
    pub fn from_bytes_be(b: &[u8]) -> BigUint {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        BigUint::from_bytes_le(&v)
    }
    pub fn to_radix_le(&self, radix: u32) -> Vec<u8> {
        let base = BigUint(vec![radix]);
        let mut v = Vec::new();
        let mut n = self.clone();
        while !n.0.is_empty() {
            let (q, r) = n.divrem(&base);
            v.push(*r.0.first().unwrap_or(&0) as u8);
            n = q;
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn to_radix_be(&self, radix: u32) -> Vec<u8> {
        let mut v = self.to_radix_le(radix);
        v.reverse();
        v
    }
    pub fn from_radix_be(digits: &[u8], radix: u32) -> Option<BigUint> {
        let base = BigUint(vec![radix]);
        let mut n = BigUint::default();
        for d in digits {
            if *d as u32 >= radix {
                return None;
            }
            n = n.mul(&base).add(&trim(vec![*d as u32]));
        }
        Some(n)
    }
    pub fn from_radix_le(digits: &[u8], radix: u32) -> Option<BigUint> {
        let v: Vec<u8> = digits.iter().rev().copied().collect();
        BigUint::from_radix_be(&v, radix)
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.0.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        self.to_radix_be(radix).iter().map(|d| char::from_digit(*d as u32, radix).unwrap()).collect()
    }
}

impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        self.cmp_mag(o)
    }
}

impl BigInt {
    fn make(neg: bool, mag: BigUint) -> BigInt {
        BigInt { neg: neg && !mag.0.is_empty(), mag }
    }
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        BigInt::make(sign == Sign::Minus, trim(digits))
    }
    pub fn from_biguint(sign: Sign, mag: BigUint) -> BigInt {
        BigInt::make(sign == Sign::Minus, mag)
    }
    pub fn sign(&self) -> Sign {
        if self.mag.0.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        &self.mag
    }
    pub fn into_parts(self) -> (Sign, BigUint) {
        (self.sign(), self.mag)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        (!self.neg).then(|| self.mag.clone())
    }
    pub fn bits(&self) -> u64 {
        self.mag.bits()
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        (self.sign(), self.mag.to_u64_digits())
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        (self.sign(), self.mag.0.clone())
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.mag.to_bytes_be())
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.mag.to_bytes_le())
    }
    pub fn from_bytes_be(sign: Sign, b: &[u8]) -> BigInt {
        BigInt::make(sign == Sign::Minus, BigUint::from_bytes_be(b))
    }
    pub fn from_bytes_le(sign: Sign, b: &[u8]) -> BigInt {
        BigInt::make(sign == Sign::Minus, BigUint::from_bytes_le(b))
    }
    pub fn to_radix_be(&self, r: u32) -> (Sign, Vec<u8>) {
        (self.sign(), self.mag.to_radix_be(r))
    }
    pub fn to_radix_le(&self, r: u32) -> (Sign, Vec<u8>) {
        (self.sign(), self.mag.to_radix_le(r))
    }
    pub fn from_radix_be(sign: Sign, d: &[u8], r: u32) -> Option<BigInt> {
        Some(BigInt::make(sign == Sign::Minus, BigUint::from_radix_be(d, r)?))
    }
    pub fn from_radix_le(sign: Sign, d: &[u8], r: u32) -> Option<BigInt> {
        Some(BigInt::make(sign == Sign::Minus, BigUint::from_radix_le(d, r)?))
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigInt> {
        let s = std::str::from_utf8(b).ok()?;
        let (neg, s) = match s.strip_prefix('-') {
            Some(s) => (true, s),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let digits: Option<Vec<u8>> = s.chars().filter(|c| *c != '_').map(|c| c.to_digit(radix).map(|d| d as u8)).collect();
        let digits = digits.filter(|d| !d.is_empty())?;
        BigInt::from_radix_be(if neg { Sign::Minus } else { Sign::Plus }, &digits, radix)
    }
    pub const ZERO: BigInt = BigInt { neg: false, mag: BigUint(Vec::new()) };

    /// The bit at a position of the two's complement.
    pub fn bit(&self, n: u64) -> bool {
        if self.neg { !(-self - BigInt::one()).mag.bit(n) } else { self.mag.bit(n) }
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_str_radix(radix))
    }
    pub fn pow(&self, n: u32) -> BigInt {
        let (mut r, mut b, mut n) = (BigInt::one(), self.clone(), n);
        while n > 0 {
            if n & 1 == 1 {
                r = &r * &b;
            }
            n >>= 1;
            if n > 0 {
                b = &b * &b;
            }
        }
        r
    }
    /// Two's complement, `n` limbs.
    fn twos(&self, n: usize) -> Vec<u32> {
        let mut v = self.mag.0.clone();
        v.resize(n, 0);
        if self.neg {
            let mut carry = true;
            for w in &mut v {
                let (x, c) = (!*w).overflowing_add(carry as u32);
                *w = x;
                carry = c;
            }
        }
        v
    }
    fn from_twos(mut v: Vec<u32>) -> BigInt {
        let neg = v.last().is_some_and(|w| w >> 31 == 1);
        if neg {
            let mut carry = true;
            for w in &mut v {
                let (x, c) = (!*w).overflowing_add(carry as u32);
                *w = x;
                carry = c;
            }
        }
        BigInt::make(neg, trim(v))
    }
    fn bitwise(&self, o: &BigInt, f: impl Fn(u32, u32) -> u32) -> BigInt {
        let n = self.mag.0.len().max(o.mag.0.len()) + 1;
        BigInt::from_twos(self.twos(n).iter().zip(o.twos(n)).map(|(a, b)| f(*a, b)).collect())
    }
    fn divrem(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (q, r) = self.mag.divrem(&o.mag);
        (BigInt::make(self.neg != o.neg, q), BigInt::make(self.neg, r))
    }
    fn plus(&self, o: &BigInt) -> BigInt {
        if self.neg == o.neg {
            return BigInt::make(self.neg, self.mag.add(&o.mag));
        }
        match self.mag.cmp_mag(&o.mag) {
            Ordering::Less => BigInt::make(o.neg, o.mag.sub(&self.mag)),
            _ => BigInt::make(self.neg, self.mag.sub(&o.mag)),
        }
    }
}

impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp_mag(&o.mag),
            (true, true) => o.mag.cmp_mag(&self.mag),
        }
    }
}

impl std::fmt::Display for BigInt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad_integral(!self.neg, "", &self.mag.to_str_radix(10))
    }
}

macro_rules! radix {
    ($($t:ident $r:literal $up:literal)*) => {$(
        impl std::fmt::$t for BigInt {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let s = self.mag.to_str_radix($r);
                f.pad_integral(!self.neg, "", &if $up { s.to_uppercase() } else { s })
            }
        }
    )*};
}
radix!(Binary 2 false Octal 8 false LowerHex 16 false UpperHex 16 true);

impl std::str::FromStr for BigInt {
    type Err = ();
    fn from_str(s: &str) -> Result<BigInt, ()> {
        BigInt::parse_bytes(s.as_bytes(), 10).ok_or(())
    }
}

macro_rules! from_ints {
    ($($t:ty),*) => {$(
        impl From<$t> for BigInt {
            fn from(x: $t) -> BigInt {
                let m = (x as i128).unsigned_abs();
                BigInt::make((x as i128) < 0, trim(vec![m as u32, (m >> 32) as u32, (m >> 64) as u32, (m >> 96) as u32]))
            }
        }
    )*};
}
from_ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128);

impl From<u128> for BigInt {
    fn from(m: u128) -> BigInt {
        BigInt::make(false, trim(vec![m as u32, (m >> 32) as u32, (m >> 64) as u32, (m >> 96) as u32]))
    }
}

impl From<u64> for BigUint {
    fn from(m: u64) -> BigUint {
        trim(vec![m as u32, (m >> 32) as u32])
    }
}
impl From<BigUint> for BigInt {
    fn from(mag: BigUint) -> BigInt {
        BigInt::make(false, mag)
    }
}

macro_rules! ops {
    ($($tr:ident $f:ident $atr:ident $af:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl<'a> $tr<&'a BigInt> for &'a BigInt {
            type Output = BigInt;
            fn $f(self, o: &BigInt) -> BigInt {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl $tr<BigInt> for BigInt {
            type Output = BigInt;
            fn $f(self, o: BigInt) -> BigInt { (&self).$f(&o) }
        }
        impl $tr<&BigInt> for BigInt {
            type Output = BigInt;
            fn $f(self, o: &BigInt) -> BigInt { (&self).$f(o) }
        }
        impl $tr<BigInt> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: BigInt) -> BigInt { self.$f(&o) }
        }
        impl $atr<BigInt> for BigInt {
            fn $af(&mut self, o: BigInt) { *self = (&*self).$f(&o) }
        }
        impl $atr<&BigInt> for BigInt {
            fn $af(&mut self, o: &BigInt) { *self = (&*self).$f(o) }
        }
        ops!(@int $tr $f $atr $af u8 u16 u32 u64 usize i32 i64);
    )*};
    (@int $tr:ident $f:ident $atr:ident $af:ident $($t:ty)*) => {$(
        impl $tr<$t> for BigInt {
            type Output = BigInt;
            fn $f(self, o: $t) -> BigInt { (&self).$f(&BigInt::from(o)) }
        }
        impl $tr<$t> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: $t) -> BigInt { self.$f(&BigInt::from(o)) }
        }
        impl $atr<$t> for BigInt {
            fn $af(&mut self, o: $t) { *self = (&*self).$f(&BigInt::from(o)) }
        }
    )*};
}
ops! {
    Add add AddAssign add_assign |a, b| a.plus(b);
    Sub sub SubAssign sub_assign |a, b| a.plus(&BigInt::make(!b.neg, b.mag.clone()));
    Mul mul MulAssign mul_assign |a, b| BigInt::make(a.neg != b.neg, a.mag.mul(&b.mag));
    Div div DivAssign div_assign |a, b| a.divrem(b).0;
    Rem rem RemAssign rem_assign |a, b| a.divrem(b).1;
    BitAnd bitand BitAndAssign bitand_assign |a, b| a.bitwise(b, |x, y| x & y);
    BitOr bitor BitOrAssign bitor_assign |a, b| a.bitwise(b, |x, y| x | y);
    BitXor bitxor BitXorAssign bitxor_assign |a, b| a.bitwise(b, |x, y| x ^ y);
}

macro_rules! shifts {
    ($($t:ty)*) => {$(
        impl Shl<$t> for &BigInt {
            type Output = BigInt;
            fn shl(self, n: $t) -> BigInt { BigInt::make(self.neg, self.mag.shl(n as u64)) }
        }
        impl Shl<$t> for BigInt {
            type Output = BigInt;
            fn shl(self, n: $t) -> BigInt { (&self).shl(n) }
        }
        impl ShlAssign<$t> for BigInt {
            fn shl_assign(&mut self, n: $t) { *self = (&*self).shl(n) }
        }
        impl Shr<$t> for &BigInt {
            type Output = BigInt;
            fn shr(self, n: $t) -> BigInt {
                let q = self.mag.shr(n as u64);
                let lost = self.neg && q.shl(n as u64).cmp_mag(&self.mag) != Ordering::Equal;
                BigInt::make(self.neg, if lost { q.add(&BigUint(vec![1])) } else { q })
            }
        }
        impl Shr<$t> for BigInt {
            type Output = BigInt;
            fn shr(self, n: $t) -> BigInt { (&self).shr(n) }
        }
        impl ShrAssign<$t> for BigInt {
            fn shr_assign(&mut self, n: $t) { *self = (&*self).shr(n) }
        }
    )*};
}
shifts!(u8 u16 u32 u64 usize i32 i64);

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::make(!self.neg, self.mag)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::make(!self.neg, self.mag.clone())
    }
}
impl Not for &BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - BigInt::one()
    }
}
macro_rules! narrow {
    ($($t:ty)*) => {$(
        impl TryFrom<&BigInt> for $t {
            type Error = ();
            fn try_from(b: &BigInt) -> Result<$t, ()> {
                b.to_i64()
                    .and_then(|x| <$t>::try_from(x).ok())
                    .or_else(|| b.to_u64().and_then(|x| <$t>::try_from(x).ok()))
                    .ok_or(())
            }
        }
        impl TryFrom<BigInt> for $t {
            type Error = ();
            fn try_from(b: BigInt) -> Result<$t, ()> {
                <$t>::try_from(&b)
            }
        }
    )*};
}
narrow!(i64 u64 i32 u32 i16 u16 i8 u8 usize isize);
impl BigInt {
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        let mut r = BigInt::from(1).mod_floor(m);
        for i in (0..e.bits()).rev() {
            r = (&r * &r).mod_floor(m);
            if e.bit(i) {
                r = (&r * self).mod_floor(m);
            }
        }
        r
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        (0..self.bits()).find(|&i| self.bit(i))
    }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> {
        Some(self + o)
    }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> {
        Some(self - o)
    }
    pub fn checked_mul(&self, o: &BigInt) -> Option<BigInt> {
        Some(self * o)
    }
    pub fn checked_div(&self, o: &BigInt) -> Option<BigInt> {
        if o.is_zero() { None } else { Some(self / o) }
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - BigInt::one()
    }
}

impl Zero for BigInt {
    fn zero() -> Self {
        BigInt::default()
    }
    fn is_zero(&self) -> bool {
        self.mag.0.is_empty()
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint::default()
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt::from(1)
    }
    fn is_one(&self) -> bool {
        *self == BigInt::from(1)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::make(false, self.mag.clone())
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::from(0),
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        if self.mag.bits() > 64 {
            return None;
        }
        let m = self.mag.to_u64_digits().first().copied().unwrap_or(0) as i128;
        i64::try_from(if self.neg { -m } else { m }).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg || self.mag.bits() > 64 {
            return None;
        }
        Some(self.mag.to_u64_digits().first().copied().unwrap_or(0))
    }
    fn to_f64(&self) -> Option<f64> {
        // correctly rounded: let the standard library read the decimal digits
        Some(self.to_string().parse().unwrap())
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<Self> {
        Some(n.into())
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(n.into())
    }
    fn from_f64(f: f64) -> Option<Self> {
        if !f.is_finite() {
            return None;
        }
        let f = f.trunc();
        let bits = f.abs().to_bits();
        let exp = (bits >> 52) as i64 - 1075;
        let man = BigInt::from(if bits >> 52 == 0 { bits << 1 } else { bits & ((1 << 52) - 1) | 1 << 52 });
        let n = if exp >= 0 { man << exp as u64 } else { man >> (-exp) as u64 };
        Some(if f < 0.0 { -n } else { n })
    }
}
impl Integer for BigInt {
    fn div_rem(&self, o: &Self) -> (Self, Self) {
        self.divrem(o)
    }
    fn div_ceil(&self, o: &Self) -> Self {
        -((-self).div_floor(o))
    }
    fn gcd(&self, o: &Self) -> Self {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            (a, b) = (b.clone(), a.divrem(&b).1);
        }
        a
    }
    fn div_floor(&self, o: &Self) -> Self {
        let (q, r) = self.divrem(o);
        if !r.is_zero() && r.neg != o.neg { q - BigInt::one() } else { q }
    }
    fn mod_floor(&self, o: &Self) -> Self {
        let (_, r) = self.divrem(o);
        if !r.is_zero() && r.neg != o.neg { &r + o } else { r }
    }
    fn is_even(&self) -> bool {
        !self.mag.bit(0)
    }
    fn is_odd(&self) -> bool {
        self.mag.bit(0)
    }
}

impl Zero for i64 {
    fn zero() -> Self {
        0
    }
    fn is_zero(&self) -> bool {
        *self == 0
    }
}
impl Zero for f64 {
    fn zero() -> Self {
        0.0
    }
    fn is_zero(&self) -> bool {
        *self == 0.0
    }
}
impl Signed for i64 {
    fn abs(&self) -> Self {
        i64::abs(*self)
    }
    fn signum(&self) -> Self {
        i64::signum(*self)
    }
    fn is_negative(&self) -> bool {
        *self < 0
    }
    fn is_positive(&self) -> bool {
        *self > 0
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        BigInt::from(self.clone()).to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        BigInt::from(self.clone()).to_f64()
    }
}
impl ToPrimitive for i64 {
    fn to_i64(&self) -> Option<i64> {
        Some(*self)
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(*self).ok()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(*self as f64)
    }
}
impl Integer for i64 {
    fn div_rem(&self, o: &Self) -> (Self, Self) {
        (self / o, self % o)
    }
    fn div_floor(&self, o: &Self) -> Self {
        let (q, r) = (self / o, self % o);
        if r != 0 && (r < 0) != (*o < 0) { q - 1 } else { q }
    }
    fn mod_floor(&self, o: &Self) -> Self {
        let r = self % o;
        if r != 0 && (r < 0) != (*o < 0) { r + o } else { r }
    }
    fn div_ceil(&self, o: &Self) -> Self {
        let (q, r) = (self / o, self % o);
        if r != 0 && (r < 0) == (*o < 0) { q + 1 } else { q }
    }
    fn gcd(&self, o: &Self) -> Self {
        let (mut a, mut b) = (self.unsigned_abs(), o.unsigned_abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a as i64
    }
    fn is_even(&self) -> bool {
        self & 1 == 0
    }
    fn is_odd(&self) -> bool {
        self & 1 == 1
    }
}

impl Signed for f64 {
    fn abs(&self) -> Self {
        f64::abs(*self)
    }
    fn signum(&self) -> Self {
        f64::signum(*self)
    }
    fn is_negative(&self) -> bool {
        self.is_sign_negative()
    }
    fn is_positive(&self) -> bool {
        self.is_sign_positive()
    }
}
pub fn signum<T: Signed>(x: T) -> T {
    x.signum()
}
