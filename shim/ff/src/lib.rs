//! Offline stand-in for the `ff` fork the repository depends on (that fork is
//! a git dependency and cannot be fetched here). Same public traits; written
//! from the documented contracts of `ff` 0.14.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;

use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
pub use subtle;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
pub use rand_core;
use rand_core::Rng;

pub trait Field:
    Sized + Eq + Copy + Clone + Default + Send + Sync + fmt::Debug + 'static
    + ConditionallySelectable + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self>
    + Sum + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self>
    + AddAssign + SubAssign + MulAssign
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;
    fn is_zero(&self) -> Choice { self.ct_eq(&Self::ZERO) }
    fn is_zero_vartime(&self) -> bool { self.is_zero().into() }
    fn square(&self) -> Self;
    fn cube(&self) -> Self { self.square() * self }
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) { Self::sqrt_ratio(self, &Self::ONE) }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self { self.pow_vartime(exp) }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if ((*e >> i) & 1) == 1 { res.mul_assign(self); }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_str_vartime(s: &str) -> Option<Self> {
        if s.is_empty() { return None; }
        let mut acc = Self::ZERO;
        for c in s.chars() { acc = acc * Self::from(10) + Self::from(c.to_digit(10)? as u64); }
        Some(acc)
    }
    fn from_u128(v: u128) -> Self {
        let lower = v as u64;
        let upper = (v >> 64) as u64;
        let mut t = Self::from(upper);
        for _ in 0..64 { t = t.double(); }
        t + Self::from(lower)
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> { Self::from_repr(repr).into() }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice { !self.is_odd() }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

pub trait PrimeFieldBits: PrimeField {}

/// Batched inversion; zeros are left as they are.
pub struct BatchInverter;
impl BatchInverter {
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch: &mut [F]) -> F {
        assert_eq!(elements.len(), scratch.len());
        let mut acc = F::ONE;
        for (e, s) in elements.iter().zip(scratch.iter_mut()) {
            *s = acc;
            if !bool::from(e.is_zero()) { acc *= e; }
        }
        acc = acc.invert().unwrap();
        let all = acc;
        for (e, s) in elements.iter_mut().rev().zip(scratch.iter().rev()) {
            if !bool::from(e.is_zero()) {
                let t = acc * *e;
                *e = acc * s;
                acc = t;
            }
        }
        all
    }
    pub fn invert_with_internal_scratch<F: Field, T>(items: &mut [T], e: fn(&mut T) -> &mut F, s: fn(&mut T) -> &mut F) -> F {
        let mut a: alloc::vec::Vec<F> = items.iter_mut().map(|t| *e(t)).collect();
        let mut b = a.clone();
        let r = Self::invert_with_external_scratch(&mut a, &mut b);
        for (t, v) in items.iter_mut().zip(a) { *e(t) = v; }
        let _ = s;
        r
    }
}

pub trait BatchInvert<F: Field> { fn batch_invert(self) -> F; }
impl<'a, F: Field, I: Iterator<Item = &'a mut F>> BatchInvert<F> for I {
    fn batch_invert(self) -> F {
        let mut all = F::ONE;
        for e in self { if !bool::from(e.is_zero()) { *e = e.invert().unwrap(); all *= *e; } }
        all
    }
}

pub mod helpers {
    use super::*;
    /// Generic (variable time) Tonelli-Shanks; `tm1d2` = (t - 1) / 2.
    pub fn sqrt_tonelli_shanks<F: PrimeField, S: AsRef<[u64]>>(f: &F, tm1d2: S) -> CtOption<F> {
        if bool::from(f.is_zero()) { return CtOption::new(F::ZERO, Choice::from(1)); }
        let w = f.pow_vartime(tm1d2);
        let mut x = w * f;
        let mut b = x * w;
        let mut z = F::ROOT_OF_UNITY;
        let mut m = F::S;
        while b != F::ONE {
            let mut k = 0;
            let mut t = b;
            while t != F::ONE { t = t.square(); k += 1; if k >= m { return CtOption::new(F::ZERO, Choice::from(0)); } }
            let mut e = z;
            for _ in 0..(m - k - 1) { e = e.square(); }
            x *= e;
            z = e.square();
            b *= z;
            m = k;
        }
        CtOption::new(x, (x.square()).ct_eq(f))
    }
    pub fn sqrt_ratio_generic<F: PrimeField>(num: &F, div: &F) -> (Choice, F) {
        let a = div.invert().unwrap_or(F::ZERO) * num;
        let b = a * F::ROOT_OF_UNITY;
        let sa = a.sqrt();
        let sb = b.sqrt();
        let num_is_zero = num.is_zero();
        let div_is_zero = div.is_zero();
        let is_square = sa.is_some();
        let is_nonsquare = sb.is_some();
        let sqrt = F::conditional_select(&sb.unwrap_or(F::ZERO), &sa.unwrap_or(F::ZERO), is_square);
        let _ = is_nonsquare;
        (is_square & (num_is_zero | !div_is_zero), sqrt)
    }
}

/// Implements the operator soup of `Field` for a `Copy` type exposing inherent
/// `__add`, `__sub`, `__mul`, `__neg`.
#[macro_export]
macro_rules! field_operators {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> core::ops::Neg for $t { type Output = $t; #[inline] fn neg(self) -> $t { self.__neg() } }
        impl<'a, $($g)*> core::ops::Neg for &'a $t { type Output = $t; #[inline] fn neg(self) -> $t { self.__neg() } }
        $crate::field_operators!(@bin [$($g)*] $t, Add, add, __add, AddAssign, add_assign);
        $crate::field_operators!(@bin [$($g)*] $t, Sub, sub, __sub, SubAssign, sub_assign);
        $crate::field_operators!(@bin [$($g)*] $t, Mul, mul, __mul, MulAssign, mul_assign);
        impl<$($g)*> core::iter::Sum for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + b) } }
        impl<'b, $($g)*> core::iter::Sum<&'b $t> for $t { fn sum<I: Iterator<Item = &'b $t>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + *b) } }
        impl<$($g)*> core::iter::Product for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ONE, |a, b| a * b) } }
        impl<'b, $($g)*> core::iter::Product<&'b $t> for $t { fn product<I: Iterator<Item = &'b $t>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ONE, |a, b| a * *b) } }
    };
    (@bin [$($g:tt)*] $t:ty, $Tr:ident, $f:ident, $inner:ident, $TrA:ident, $fa:ident) => {
        impl<$($g)*> core::ops::$Tr for $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { self.$inner(&o) } }
        impl<'b, $($g)*> core::ops::$Tr<&'b $t> for $t { type Output = $t; #[inline] fn $f(self, o: &'b $t) -> $t { self.$inner(o) } }
        impl<'a, $($g)*> core::ops::$Tr<$t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { self.$inner(&o) } }
        impl<'a, 'b, $($g)*> core::ops::$Tr<&'b $t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: &'b $t) -> $t { self.$inner(o) } }
        impl<$($g)*> core::ops::$TrA for $t { #[inline] fn $fa(&mut self, o: $t) { *self = self.$inner(&o) } }
        impl<'b, $($g)*> core::ops::$TrA<&'b $t> for $t { #[inline] fn $fa(&mut self, o: &'b $t) { *self = self.$inner(o) } }
    };
}
