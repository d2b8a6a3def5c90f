/// A curve y^2 = x^3 + b of prime order, Jacobian coordinates.
#[macro_export]
macro_rules! koblitz_curve {
    ($P:ident, $A:ident, $B:ty, $S:ty, $id:expr, $b:expr, ($gx:expr, $gy:expr)) => {
        #[derive(Clone, Copy)]
        pub struct $P { x: $B, y: $B, z: $B }
        #[derive(Clone, Copy)]
        pub struct $A { x: $B, y: $B }
        const _: () = {
            use $crate::alloc::{boxed::Box, vec::Vec};
            use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
            use $crate::ff::{Field, PrimeField, WithSmallOrderMulGroup, FromUniformBytes};
            use $crate::group::{self, Curve, Group, GroupEncoding, prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup}};
            use $crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
            use $crate::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

            impl $P {
                fn __double(&self) -> $P {
                    if bool::from(self.z.is_zero()) { return *self; }
                    let a = self.x.square(); let b = self.y.square(); let c = b.square();
                    let d = ((self.x + b).square() - a - c).double();
                    let e = a + a.double(); let f = e.square();
                    let z3 = (self.z * self.y).double();
                    let x3 = f - d.double();
                    let y3 = e * (d - x3) - c.double().double().double();
                    $P { x: x3, y: y3, z: z3 }
                }
                fn __add(&self, o: &$P) -> $P {
                    if bool::from(self.z.is_zero()) { return *o; }
                    if bool::from(o.z.is_zero()) { return *self; }
                    let z1z1 = self.z.square(); let z2z2 = o.z.square();
                    let u1 = self.x * z2z2; let u2 = o.x * z1z1;
                    let s1 = self.y * z2z2 * o.z; let s2 = o.y * z1z1 * self.z;
                    if u1 == u2 {
                        if s1 == s2 { return self.__double(); }
                        return <$P as Group>::identity();
                    }
                    let h = u2 - u1; let r = s2 - s1;
                    let hh = h.square(); let hhh = h * hh; let v = u1 * hh;
                    let x3 = r.square() - hhh - v.double();
                    let y3 = r * (v - x3) - s1 * hhh;
                    let z3 = self.z * o.z * h;
                    $P { x: x3, y: y3, z: z3 }
                }
                fn __add_affine(&self, o: &$A) -> $P {
                    if o.__inf() { return *self; }
                    if bool::from(self.z.is_zero()) { return o.__curve(); }
                    let z1z1 = self.z.square();
                    let u2 = o.x * z1z1; let s2 = o.y * z1z1 * self.z;
                    if self.x == u2 {
                        if self.y == s2 { return self.__double(); }
                        return <$P as Group>::identity();
                    }
                    let h = u2 - self.x; let r = s2 - self.y;
                    let hh = h.square(); let hhh = h * hh; let v = self.x * hh;
                    let x3 = r.square() - hhh - v.double();
                    let y3 = r * (v - x3) - self.y * hhh;
                    let z3 = self.z * h;
                    $P { x: x3, y: y3, z: z3 }
                }
                fn __mul(&self, s: &$S) -> $P {
                    let repr = s.to_repr();
                    let mut acc = <$P as Group>::identity();
                    let bytes: &[u8] = repr.as_ref();
                    let mut started = false;
                    for byte in bytes.iter().rev() {
                        for i in (0..8).rev() {
                            if started { acc = acc.__double(); }
                            if (byte >> i) & 1 == 1 { started = true; acc = acc.__add(self); }
                        }
                    }
                    acc
                }
            }
            impl $A {
                fn __inf(&self) -> bool { bool::from(self.x.is_zero() & self.y.is_zero()) }
                fn __curve(&self) -> $P {
                    if self.__inf() { <$P as Group>::identity() } else { $P { x: self.x, y: self.y, z: <$B as Field>::ONE } }
                }
            }
            impl core::fmt::Debug for $P { fn fmt(&self, w: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(w, "{:?}", self.to_affine()) } }
            impl core::fmt::Debug for $A { fn fmt(&self, w: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { if self.__inf() { write!(w, "Infinity") } else { write!(w, "({:?}, {:?})", self.x, self.y) } } }
            impl Default for $P { fn default() -> Self { <$P as Group>::identity() } }
            impl Default for $A { fn default() -> Self { $A { x: <$B as Field>::ZERO, y: <$B as Field>::ZERO } } }
            impl PartialEq for $P { fn eq(&self, o: &Self) -> bool {
                let (a, b): (bool, bool) = (self.z.is_zero().into(), o.z.is_zero().into());
                if a || b { return a && b; }
                let z1 = self.z.square(); let z2 = o.z.square();
                self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
            } }
            impl core::cmp::Eq for $P {}
            impl PartialEq for $A { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
            impl core::cmp::Eq for $A {}
            impl core::hash::Hash for $A { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.x.to_repr().as_ref().hash(h); self.y.to_repr().as_ref().hash(h) } }
            impl ConstantTimeEq for $P { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
            impl ConstantTimeEq for $A { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
            impl ConditionallySelectable for $P { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
            impl ConditionallySelectable for $A { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
            impl From<$A> for $P { fn from(a: $A) -> $P { a.__curve() } }
            impl<'a> From<&'a $A> for $P { fn from(a: &'a $A) -> $P { a.__curve() } }
            impl From<$P> for $A { fn from(a: $P) -> $A { a.to_affine() } }
            impl<'a> From<&'a $P> for $A { fn from(a: &'a $P) -> $A { a.to_affine() } }
            impl Neg for $P { type Output = $P; fn neg(self) -> $P { $P { x: self.x, y: -self.y, z: self.z } } }
            impl<'a> Neg for &'a $P { type Output = $P; fn neg(self) -> $P { -*self } }
            impl Neg for $A { type Output = $A; fn neg(self) -> $A { $A { x: self.x, y: -self.y } } }
            impl<'a> Neg for &'a $A { type Output = $A; fn neg(self) -> $A { -*self } }
            $crate::koblitz_curve!(@bin Add, add, $P, $P, $P, |a, b| a.__add(b));
            $crate::koblitz_curve!(@bin Sub, sub, $P, $P, $P, |a, b| a.__add(&-*b));
            $crate::koblitz_curve!(@bin Add, add, $P, $A, $P, |a, b| a.__add_affine(b));
            $crate::koblitz_curve!(@bin Sub, sub, $P, $A, $P, |a, b| a.__add_affine(&-*b));
            $crate::koblitz_curve!(@bin Add, add, $A, $P, $P, |a, b| b.__add_affine(a));
            $crate::koblitz_curve!(@bin Sub, sub, $A, $P, $P, |a, b| (-*b).__add_affine(a));
            $crate::koblitz_curve!(@bin Add, add, $A, $A, $P, |a, b| a.__curve().__add_affine(b));
            $crate::koblitz_curve!(@bin Sub, sub, $A, $A, $P, |a, b| a.__curve().__add_affine(&-*b));
            $crate::koblitz_curve!(@bin Mul, mul, $P, $S, $P, |a, b| a.__mul(b));
            $crate::koblitz_curve!(@bin Mul, mul, $A, $S, $P, |a, b| a.__curve().__mul(b));
            $crate::koblitz_curve!(@asg AddAssign, add_assign, $P, $P, |a, b| a.__add(b));
            $crate::koblitz_curve!(@asg SubAssign, sub_assign, $P, $P, |a, b| a.__add(&-*b));
            $crate::koblitz_curve!(@asg AddAssign, add_assign, $P, $A, |a, b| a.__add_affine(b));
            $crate::koblitz_curve!(@asg SubAssign, sub_assign, $P, $A, |a, b| a.__add_affine(&-*b));
            $crate::koblitz_curve!(@asg MulAssign, mul_assign, $P, $S, |a, b| a.__mul(b));
            impl core::iter::Sum for $P { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<$P as Group>::identity(), |a, b| a + b) } }
            impl<'a> core::iter::Sum<&'a $P> for $P { fn sum<I: Iterator<Item = &'a $P>>(i: I) -> Self { i.fold(<$P as Group>::identity(), |a, b| a + *b) } }
            impl Group for $P {
                type Scalar = $S;
                fn random<R: $crate::rand_core::Rng + ?Sized>(rng: &mut R) -> Self {
                    loop {
                        let x = <$B as Field>::random(rng);
                        let flip = rng.next_u32() & 1 == 1;
                        let y = (x.square() * x + <$P as CurveExt>::b()).sqrt();
                        if bool::from(y.is_some()) { let y = y.unwrap(); let y = if flip { -y } else { y }; return $P { x, y, z: <$B as Field>::ONE }; }
                    }
                }
                fn identity() -> Self { $P { x: <$B as Field>::ZERO, y: <$B as Field>::ONE, z: <$B as Field>::ZERO } }
                fn generator() -> Self { $P { x: $gx, y: $gy, z: <$B as Field>::ONE } }
                fn is_identity(&self) -> Choice { self.z.is_zero() }
                fn double(&self) -> Self { self.__double() }
            }
            impl Curve for $P {
                type AffineRepr = $A;
                fn batch_normalize(p: &[Self], q: &mut [$A]) {
                    assert_eq!(p.len(), q.len());
                    let mut zs: Vec<$B> = p.iter().map(|p| p.z).collect();
                    let mut scratch = zs.clone();
                    $crate::ff::BatchInverter::invert_with_external_scratch(&mut zs, &mut scratch);
                    for ((p, q), zi) in p.iter().zip(q.iter_mut()).zip(zs.iter()) {
                        if bool::from(p.z.is_zero()) { *q = $A::default(); } else {
                            let z2 = zi.square();
                            *q = $A { x: p.x * z2, y: p.y * z2 * zi };
                        }
                    }
                }
                fn to_affine(&self) -> $A {
                    if bool::from(self.z.is_zero()) { return $A::default(); }
                    let zi = self.z.invert().unwrap(); let z2 = zi.square();
                    $A { x: self.x * z2, y: self.y * z2 * zi }
                }
            }
            impl GroupEncoding for $A {
                type Repr = [u8; 32];
                fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                    let mut t = *bytes; let sign = t[31] >> 7; t[31] &= 0x7f;
                    let none = CtOption::new($A::default(), Choice::from(0));
                    if sign == 0 && t == [0u8; 32] { return CtOption::new($A::default(), Choice::from(1)); }
                    let mut r = <$B as PrimeField>::Repr::default(); r.as_mut().copy_from_slice(&t);
                    let x = <$B as PrimeField>::from_repr(r);
                    if bool::from(x.is_none()) { return none; }
                    let x = x.unwrap();
                    let y = (x.square() * x + <$P as CurveExt>::b()).sqrt();
                    if bool::from(y.is_none()) { return none; }
                    let y = y.unwrap();
                    let y = if bool::from(y.is_odd()) == (sign == 1) { y } else { -y };
                    CtOption::new($A { x, y }, Choice::from(1))
                }
                fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> { Self::from_bytes(bytes) }
                fn to_bytes(&self) -> [u8; 32] {
                    if self.__inf() { return [0; 32]; }
                    let mut o = [0u8; 32]; o.copy_from_slice(self.x.to_repr().as_ref());
                    o[31] |= self.y.is_odd().unwrap_u8() << 7;
                    o
                }
            }
            impl GroupEncoding for $P {
                type Repr = [u8; 32];
                fn from_bytes(b: &[u8; 32]) -> CtOption<Self> { $A::from_bytes(b).map(|a| a.__curve()) }
                fn from_bytes_unchecked(b: &[u8; 32]) -> CtOption<Self> { Self::from_bytes(b) }
                fn to_bytes(&self) -> [u8; 32] { self.to_affine().to_bytes() }
            }
            impl PrimeGroup for $P {}
            impl group::WnafGroup for $P {}
            impl PrimeCurve for $P { type Affine = $A; }
            impl PrimeCurveAffine for $A {
                type Scalar = $S;
                type Curve = $P;
                fn identity() -> Self { $A::default() }
                fn generator() -> Self { $A { x: $gx, y: $gy } }
                fn is_identity(&self) -> Choice { Choice::from(self.__inf() as u8) }
                fn to_curve(&self) -> $P { self.__curve() }
            }
            impl CurveExt for $P {
                type ScalarExt = $S;
                type Base = $B;
                type AffineExt = $A;
                const CURVE_ID: &'static str = $id;
                fn endo(&self) -> Self { $P { x: self.x * <$B as WithSmallOrderMulGroup<3>>::ZETA, y: self.y, z: self.z } }
                fn jacobian_coordinates(&self) -> ($B, $B, $B) { (self.x, self.y, self.z) }
                fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                    Box::new(move |message| {
                        let mut ctr = 0u32;
                        loop {
                            let mut st = $crate::blake2b_simd::Params::new().hash_length(64).personal(b"StandInHashToCur").to_state();
                            st.update($id.as_bytes()).update(&[0]).update(domain_prefix.as_bytes()).update(&[0]).update(message).update(&ctr.to_le_bytes());
                            let h = st.finalize();
                            let x = <$B as FromUniformBytes<64>>::from_uniform_bytes(h.as_array());
                            let y = (x.square() * x + <$P as CurveExt>::b()).sqrt();
                            if bool::from(y.is_some()) {
                                let y = y.unwrap();
                                let y = if h.as_bytes()[63] & 1 == 1 { -y } else { y };
                                return $P { x, y, z: <$B as Field>::ONE };
                            }
                            ctr += 1;
                        }
                    })
                }
                fn is_on_curve(&self) -> Choice { self.to_affine().is_on_curve() }
                fn a() -> $B { <$B as Field>::ZERO }
                fn b() -> $B { <$B as From<u64>>::from($b) }
                fn new_jacobian(x: $B, y: $B, z: $B) -> CtOption<Self> { let p = $P { x, y, z }; CtOption::new(p, p.is_on_curve()) }
            }
            impl CurveAffine for $A {
                type ScalarExt = $S;
                type Base = $B;
                type CurveExt = $P;
                fn coordinates(&self) -> CtOption<Coordinates<Self>> { CtOption::new(Coordinates::__new(self.x, self.y), Choice::from(!self.__inf() as u8)) }
                fn from_xy(x: $B, y: $B) -> CtOption<Self> { let p = $A { x, y }; CtOption::new(p, p.is_on_curve()) }
                fn is_on_curve(&self) -> Choice { Choice::from((self.__inf() || self.y.square() == self.x.square() * self.x + <$P as CurveExt>::b()) as u8) }
                fn a() -> $B { <$P as CurveExt>::a() }
                fn b() -> $B { <$P as CurveExt>::b() }
            }
        };
    };
    (@bin $Tr:ident, $f:ident, $L:ty, $R:ty, $O:ty, |$a:ident, $b:ident| $e:expr) => {
        impl $Tr<$R> for $L { type Output = $O; fn $f(self, o: $R) -> $O { let ($a, $b): (&$L, &$R) = (&self, &o); $e } }
        impl<'b> $Tr<&'b $R> for $L { type Output = $O; fn $f(self, o: &'b $R) -> $O { let ($a, $b): (&$L, &$R) = (&self, o); $e } }
        impl<'a> $Tr<$R> for &'a $L { type Output = $O; fn $f(self, o: $R) -> $O { let ($a, $b): (&$L, &$R) = (self, &o); $e } }
        impl<'a, 'b> $Tr<&'b $R> for &'a $L { type Output = $O; fn $f(self, o: &'b $R) -> $O { let ($a, $b): (&$L, &$R) = (self, o); $e } }
    };
    (@asg $Tr:ident, $f:ident, $L:ty, $R:ty, |$a:ident, $b:ident| $e:expr) => {
        impl $Tr<$R> for $L { fn $f(&mut self, o: $R) { let r = { let ($a, $b): (&$L, &$R) = (self, &o); $e }; *self = r; } }
        impl<'b> $Tr<&'b $R> for $L { fn $f(&mut self, o: &'b $R) { let r = { let ($a, $b): (&$L, &$R) = (self, o); $e }; *self = r; } }
    };
}
