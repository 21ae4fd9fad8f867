//! Complex numbers over any number type.

use super::{Num, Zero};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Complex<T> {
    pub re: T,
    pub im: T,
}
impl<T> Complex<T> {
    pub const fn new(re: T, im: T) -> Self {
        Complex { re, im }
    }
}
impl<T: Zero> From<T> for Complex<T> {
    fn from(re: T) -> Self {
        Complex { re, im: T::zero() }
    }
}
impl<T: Num + Clone> Complex<T> {
    pub fn norm_sqr(&self) -> T {
        self.re.clone() * self.re.clone() + self.im.clone() * self.im.clone()
    }
    fn plus(&self, o: &Self) -> Self {
        Complex::new(self.re.clone() + o.re.clone(), self.im.clone() + o.im.clone())
    }
    fn minus(&self, o: &Self) -> Self {
        Complex::new(self.re.clone() - o.re.clone(), self.im.clone() - o.im.clone())
    }
    fn times(&self, o: &Self) -> Self {
        Complex::new(
            self.re.clone() * o.re.clone() - self.im.clone() * o.im.clone(),
            self.re.clone() * o.im.clone() + self.im.clone() * o.re.clone(),
        )
    }
    fn over(&self, o: &Self) -> Self {
        let n = o.norm_sqr();
        Complex::new(
            (self.re.clone() * o.re.clone() + self.im.clone() * o.im.clone()) / n.clone(),
            (self.im.clone() * o.re.clone() - self.re.clone() * o.im.clone()) / n,
        )
    }
    fn rest(&self, o: &Self) -> Self {
        let q = self.over(o);
        self.minus(&q.times(o))
    }
}
macro_rules! ops {
    ($($tr:ident $m:ident $f:ident),*) => {$(
        impl<T: Num + Clone> $tr<Complex<T>> for Complex<T> {
            type Output = Complex<T>;
            fn $m(self, o: Complex<T>) -> Complex<T> { self.$f(&o) }
        }
        impl<'a, T: Num + Clone> $tr<&'a Complex<T>> for Complex<T> {
            type Output = Complex<T>;
            fn $m(self, o: &Complex<T>) -> Complex<T> { self.$f(o) }
        }
        impl<'a, T: Num + Clone> $tr<Complex<T>> for &'a Complex<T> {
            type Output = Complex<T>;
            fn $m(self, o: Complex<T>) -> Complex<T> { self.$f(&o) }
        }
        impl<'a, 'b, T: Num + Clone> $tr<&'b Complex<T>> for &'a Complex<T> {
            type Output = Complex<T>;
            fn $m(self, o: &Complex<T>) -> Complex<T> { self.$f(o) }
        }
    )*};
}
ops!(Add add plus, Sub sub minus, Mul mul times, Div div over, Rem rem rest);
impl<T: Neg<Output = T>> Neg for Complex<T> {
    type Output = Complex<T>;
    fn neg(self) -> Self {
        Complex::new(-self.re, -self.im)
    }
}

impl<T: std::fmt::Display> std::fmt::Display for Complex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}+{}i", self.re, self.im)
    }
}
