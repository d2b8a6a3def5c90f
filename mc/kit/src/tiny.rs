//! Small prime fields (every element can be enumerated) and a small amicable
//! cycle of prime-order curves y^2 = x^3 + b.
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use ff::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// The field of integers modulo the prime `P` (below 2^31).
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tiny<const P: u64>(pub u32);

const fn powm(mut b: u64, mut e: u64, p: u64) -> u64 { let mut r = 1 % p; b %= p; while e > 0 { if e & 1 == 1 { r = r * b % p; } b = b * b % p; e >>= 1; } r }
const fn is_prime(p: u64) -> bool { if p < 2 { return false; } let mut i = 2; while i * i <= p { if p % i == 0 { return false; } i += 1; } true }
const fn generator(p: u64) -> u64 {
    if p == 2 { return 1; }
    let mut g = 2;
    while g < p {
        let mut ok = true; let mut n = p - 1; let mut q = 2;
        while n > 1 { if n % q == 0 { if powm(g, (p - 1) / q, p) == 1 { ok = false; } while n % q == 0 { n /= q; } } q += 1; if q * q > n && n > 1 { q = n; } }
        if ok { return g; }
        g += 1;
    }
    0
}
const fn two_adicity(p: u64) -> u32 { (p - 1).trailing_zeros() }
const fn digits(p: u64) -> [u8; 10] { let mut o = [b'0'; 10]; let mut i = 10; let mut p = p; while i > 2 { i -= 1; let d = (p & 15) as u8; o[i] = if d < 10 { b'0' + d } else { b'a' + d - 10 }; p >>= 4; } o[1] = b'x'; o }

impl<const P: u64> Tiny<P> {
    const CHECK: () = assert!(is_prime(P) && P < (1 << 31));
    const DIGITS: [u8; 10] = digits(P);
    const GEN: u64 = generator(P);
    pub const fn new(v: u64) -> Self { #[allow(clippy::let_unit_value)] let _ = Self::CHECK; Tiny((v % P) as u32) }
    pub const fn v(&self) -> u64 { self.0 as u64 }
    pub fn all() -> impl Iterator<Item = Self> + Clone { (0..P).map(Self::new) }
    pub fn nonzero() -> impl Iterator<Item = Self> + Clone { (1..P).map(Self::new) }
    #[inline] pub const fn __add(&self, o: &Self) -> Self { let s = self.0 as u64 + o.0 as u64; Tiny((if s >= P { s - P } else { s }) as u32) }
    #[inline] pub const fn __sub(&self, o: &Self) -> Self { let s = self.0 as u64 + P - o.0 as u64; Tiny((if s >= P { s - P } else { s }) as u32) }
    #[inline] pub const fn __mul(&self, o: &Self) -> Self { Tiny((self.0 as u64 * o.0 as u64 % P) as u32) }
    #[inline] pub const fn __neg(&self) -> Self { if self.0 == 0 { *self } else { Tiny((P - self.0 as u64) as u32) } }
}
impl<const P: u64> std::fmt::Debug for Tiny<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64> From<u64> for Tiny<P> { fn from(v: u64) -> Self { Self::new(v) } }
impl<const P: u64> From<bool> for Tiny<P> { fn from(v: bool) -> Self { Self::new(v as u64) } }
impl<const P: u64> ConstantTimeEq for Tiny<P> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
impl<const P: u64> ConditionallySelectable for Tiny<P> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
ff::field_operators!([const P: u64] Tiny<P>);
impl<const P: u64> Field for Tiny<P> {
    const ZERO: Self = Self::new(0);
    const ONE: Self = Self::new(1);
    fn random<R: ff::rand_core::Rng + ?Sized>(rng: &mut R) -> Self { Self::new(rng.next_u64()) }
    fn square(&self) -> Self { self.__mul(self) }
    fn double(&self) -> Self { self.__add(self) }
    fn invert(&self) -> CtOption<Self> { CtOption::new(Tiny(powm(self.v(), P - 2, P) as u32), Choice::from((self.0 != 0) as u8)) }
    fn sqrt_ratio(n: &Self, d: &Self) -> (Choice, Self) { ff::helpers::sqrt_ratio_generic(n, d) }
    fn sqrt(&self) -> CtOption<Self> {
        let mut r = 0; while r < P { if r * r % P == self.v() { return CtOption::new(Self::new(r), Choice::from(1)); } r += 1; }
        CtOption::new(Self::ZERO, Choice::from(0))
    }
}
impl<const P: u64> PrimeField for Tiny<P> {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let lo = u64::from_le_bytes(r[..8].try_into().unwrap());
        let ok = lo < P && r[8..].iter().all(|b| *b == 0);
        CtOption::new(if ok { Self::new(lo) } else { Self::ZERO }, Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] { let mut o = [0; 32]; o[..8].copy_from_slice(&self.v().to_le_bytes()); o }
    fn is_odd(&self) -> Choice { Choice::from((self.0 & 1) as u8) }
    const MODULUS: &'static str = match std::str::from_utf8(&Self::DIGITS) { Ok(s) => s, Err(_) => "" };
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = 63 - P.leading_zeros();
    const TWO_INV: Self = Self::new(P.div_ceil(2));
    const MULTIPLICATIVE_GENERATOR: Self = Self::new(Self::GEN);
    const S: u32 = two_adicity(P);
    const ROOT_OF_UNITY: Self = Self::new(powm(Self::GEN, (P - 1) >> two_adicity(P), P));
    const ROOT_OF_UNITY_INV: Self = Self::new(powm(powm(Self::GEN, (P - 1) >> two_adicity(P), P), P - 2, P));
    const DELTA: Self = Self::new(powm(Self::GEN, 1 << two_adicity(P), P));
}
impl<const P: u64> WithSmallOrderMulGroup<3> for Tiny<P> {
    /// An element of order 3 where one exists (else 1); of the two choices, the
    /// one for which the endomorphism of the curves below acts as that scalar.
    const ZETA: Self = if P % 3 == 1 { Self::new(powm(Self::GEN, if P == 19 || P == 97 || P == 613 { 2 } else { 1 } * ((P - 1) / 3), P)) } else { Self::new(1) };
}
impl<const P: u64> FromUniformBytes<64> for Tiny<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut r = 0u64; for x in b.iter().rev() { r = (r * 256 + *x as u64) % P; } Self::new(r)
    }
}

pub mod cycle13 {
    //! y^2 = x^3 + 2 over F_13 (19 points) and y^2 = x^3 + 2 over F_19 (13 points).
    use super::Tiny;
    pub type Fp = Tiny<13>;
    pub type Fq = Tiny<19>;
    pasta_curves::koblitz_curve!(Ep, EpAffine, Fp, Fq, "tiny13", 2, (Fp::new(GP.0), Fp::new(GP.1)));
    pasta_curves::koblitz_curve!(Eq, EqAffine, Fq, Fp, "tiny19", 2, (Fq::new(GQ.0), Fq::new(GQ.1)));
    const GP: (u64, u64) = super::first_point(13, 2);
    const GQ: (u64, u64) = super::first_point(19, 2);
}
pub mod cycle7 {
    //! y^2 = x^3 + 3 over F_7 (13 points) and y^2 = x^3 + 6 over F_13 (7 points).
    use super::Tiny;
    pub type Fp = Tiny<7>;
    pub type Fq = Tiny<13>;
    pasta_curves::koblitz_curve!(Ep, EpAffine, Fp, Fq, "tiny7", 3, (Fp::new(GP.0), Fp::new(GP.1)));
    pasta_curves::koblitz_curve!(Eq, EqAffine, Fq, Fp, "tiny13", 6, (Fq::new(GQ.0), Fq::new(GQ.1)));
    const GP: (u64, u64) = super::first_point(7, 3);
    const GQ: (u64, u64) = super::first_point(13, 6);
}
pub mod cycle79 {
    //! y^2 = x^3 + 3 over F_79 (97 points) and y^2 = x^3 + 5 over F_97 (79 points).
    use super::Tiny;
    pub type Fp = Tiny<79>;
    pub type Fq = Tiny<97>;
    pasta_curves::koblitz_curve!(Ep, EpAffine, Fp, Fq, "tiny79", 3, (Fp::new(GP.0), Fp::new(GP.1)));
    pasta_curves::koblitz_curve!(Eq, EqAffine, Fq, Fp, "tiny97", 5, (Fq::new(GQ.0), Fq::new(GQ.1)));
    const GP: (u64, u64) = super::first_point(79, 3);
    const GQ: (u64, u64) = super::first_point(97, 5);
}
pub mod cycle577 {
    //! y^2 = x^3 + 7 over F_577 (613 points) and y^2 = x^3 + 5 over F_613 (577 points).
    use super::Tiny;
    pub type Fp = Tiny<577>;
    pub type Fq = Tiny<613>;
    pasta_curves::koblitz_curve!(Ep, EpAffine, Fp, Fq, "tiny577", 7, (Fp::new(GP.0), Fp::new(GP.1)));
    pasta_curves::koblitz_curve!(Eq, EqAffine, Fq, Fp, "tiny613", 5, (Fq::new(GQ.0), Fq::new(GQ.1)));
    const GP: (u64, u64) = super::first_point(577, 7);
    const GQ: (u64, u64) = super::first_point(613, 5);
}
const fn first_point(p: u64, b: u64) -> (u64, u64) {
    let mut x = 0;
    while x < p { let mut y = 1; while y < p { if y * y % p == (x * x % p * x + b) % p { return (x, y); } y += 1; } x += 1; }
    (0, 0)
}

#[cfg(test)]
mod tests {
    use super::*;
    use pasta_curves::arithmetic::{CurveAffine as _, CurveExt};
    use group::Group;
    fn field<const P: u64>() where {
        type F<const P: u64> = Tiny<P>;
        for a in F::<P>::all() { for b in F::<P>::all() {
            assert_eq!((a + b).v(), (a.v() + b.v()) % P); assert_eq!((a * b).v(), a.v() * b.v() % P); assert_eq!((a - b) + b, a);
        } if a.v() != 0 { assert_eq!(a * a.invert().unwrap(), Tiny::ONE); } }
        assert_eq!(Tiny::<P>::TWO_INV.double(), Tiny::ONE);
        assert_eq!(Tiny::<P>::ROOT_OF_UNITY.pow_vartime([1 << (Tiny::<P>::S - 1)]), -Tiny::<P>::ONE);
        assert_eq!(Tiny::<P>::ZETA.cube(), Tiny::ONE);
    }
    fn curve<C: CurveExt>(n: u64) {
        let g = C::generator();
        let mut acc = C::identity();
        for i in 0..n { assert_eq!(bool::from(acc.is_identity()), i == 0); assert!(bool::from(acc.to_affine().is_on_curve())); acc += g; }
        assert!(bool::from(acc.is_identity()));
        let z = <C::ScalarExt as WithSmallOrderMulGroup<3>>::ZETA;
        assert!(g.endo() == g * z);
    }
    #[test] fn t() {
        field::<7>(); field::<13>(); field::<19>(); field::<79>(); field::<97>(); field::<577>();
        curve::<cycle7::Ep>(13); curve::<cycle7::Eq>(7); curve::<cycle13::Ep>(19); curve::<cycle13::Eq>(13);
        curve::<cycle79::Ep>(97); curve::<cycle79::Eq>(79); curve::<cycle577::Ep>(613); curve::<cycle577::Eq>(577);
    }
}
