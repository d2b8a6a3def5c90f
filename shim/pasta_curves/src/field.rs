#[inline(always)]
pub(crate) const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) { let t = a as u128 + b as u128 + c as u128; (t as u64, (t >> 64) as u64) }
#[inline(always)]
pub(crate) const fn sbb(a: u64, b: u64, c: u64) -> (u64, u64) { let t = (a as u128).wrapping_sub(b as u128 + (c >> 63) as u128); (t as u64, (t >> 64) as u64) }
#[inline(always)]
pub(crate) const fn mac(a: u64, b: u64, c: u64, d: u64) -> (u64, u64) { let t = a as u128 + (b as u128) * (c as u128) + d as u128; (t as u64, (t >> 64) as u64) }

pub(crate) const fn neg_inv64(m: u64) -> u64 {
    let mut inv = 1u64; let mut i = 0;
    while i < 63 { inv = inv.wrapping_mul(inv).wrapping_mul(m); i += 1; }
    inv.wrapping_neg()
}
#[inline(always)]
pub(crate) const fn sub_mod(a: [u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, b) = sbb(a[0], m[0], 0); let (r1, b) = sbb(a[1], m[1], b);
    let (r2, b) = sbb(a[2], m[2], b); let (r3, b) = sbb(a[3], m[3], b);
    let (r0, c) = adc(r0, m[0] & b, 0); let (r1, c) = adc(r1, m[1] & b, c);
    let (r2, c) = adc(r2, m[2] & b, c); let (r3, _) = adc(r3, m[3] & b, c);
    [r0, r1, r2, r3]
}
#[inline(always)]
pub(crate) const fn add(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0); let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c); let (r3, _) = adc(a[3], b[3], c);
    sub_mod([r0, r1, r2, r3], m)
}
#[inline(always)]
pub(crate) const fn sub(a: &[u64; 4], o: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, b) = sbb(a[0], o[0], 0); let (r1, b) = sbb(a[1], o[1], b);
    let (r2, b) = sbb(a[2], o[2], b); let (r3, b) = sbb(a[3], o[3], b);
    let (r0, c) = adc(r0, m[0] & b, 0); let (r1, c) = adc(r1, m[1] & b, c);
    let (r2, c) = adc(r2, m[2] & b, c); let (r3, _) = adc(r3, m[3] & b, c);
    [r0, r1, r2, r3]
}
#[inline(always)]
pub(crate) const fn mont_mul(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4], inv: u64) -> [u64; 4] {
    // CIOS; valid for moduli below 2^255.
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let (v0, c) = mac(t[0], a[0], b[i], 0); let (v1, c) = mac(t[1], a[1], b[i], c);
        let (v2, c) = mac(t[2], a[2], b[i], c); let (v3, c) = mac(t[3], a[3], b[i], c);
        let (v4, v5) = adc(t[4], c, 0);
        let k = v0.wrapping_mul(inv);
        let (_, c) = mac(v0, k, m[0], 0); let (u0, c) = mac(v1, k, m[1], c);
        let (u1, c) = mac(v2, k, m[2], c); let (u2, c) = mac(v3, k, m[3], c);
        let (u3, c) = adc(v4, c, 0);
        t = [u0, u1, u2, u3, v5 + c, 0];
        i += 1;
    }
    sub_mod([t[0], t[1], t[2], t[3]], m)
}
/// 2^k mod m by repeated doubling.
pub(crate) const fn pow2_mod(k: usize, m: &[u64; 4]) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0]; let mut i = 0;
    while i < k { r = add(&r, &r, m); i += 1; }
    r
}
pub(crate) const fn shr(a: &[u64; 4], n: usize) -> [u64; 4] {
    let mut r = *a; let mut i = 0;
    while i < n {
        r = [(r[0] >> 1) | (r[1] << 63), (r[1] >> 1) | (r[2] << 63), (r[2] >> 1) | (r[3] << 63), r[3] >> 1];
        i += 1;
    }
    r
}

macro_rules! pasta_field {
    ($F:ident, $m:expr, $modstr:expr, $zeta:expr) => {
        /// Montgomery form element.
        #[derive(Clone, Copy)]
        pub struct $F(pub(crate) [u64; 4]);
        const _: () = {
            use $crate::field as f;
            use ff::{Field, PrimeField, WithSmallOrderMulGroup, FromUniformBytes};
            use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
            const M: [u64; 4] = $m;
            const INV: u64 = f::neg_inv64(M[0]);
            const R: [u64; 4] = f::pow2_mod(256, &M);
            const R2: [u64; 4] = f::pow2_mod(512, &M);
            const R3: [u64; 4] = f::pow2_mod(768, &M);
            const S_: u32 = 32;
            const T: [u64; 4] = f::shr(&M, 32);
            const TM1D2: [u64; 4] = f::shr(&M, 33);
            const M_MINUS_2: [u64; 4] = [M[0] - 2 + 0, M[1], M[2], M[3]];
            impl $F {
                #[doc(hidden)] pub const ONE_: $F = $F(R);
                pub const fn zero() -> Self { $F([0; 4]) }
                pub const fn one() -> Self { $F(R) }
                pub const fn from_raw(v: [u64; 4]) -> Self { $F(f::mont_mul(&v, &R2, &M, INV)) }
                #[inline] pub const fn __mul(&self, o: &Self) -> Self { $F(f::mont_mul(&self.0, &o.0, &M, INV)) }
                #[inline] pub const fn __add(&self, o: &Self) -> Self { $F(f::add(&self.0, &o.0, &M)) }
                #[inline] pub const fn __sub(&self, o: &Self) -> Self { $F(f::sub(&self.0, &o.0, &M)) }
                #[inline] pub const fn __neg(&self) -> Self { $F(f::sub(&[0; 4], &self.0, &M)) }
                pub const fn neg(&self) -> Self { self.__neg() }
                pub const fn add(&self, o: &Self) -> Self { self.__add(o) }
                pub const fn sub(&self, o: &Self) -> Self { self.__sub(o) }
                pub const fn mul(&self, o: &Self) -> Self { self.__mul(o) }
                pub const fn square(&self) -> Self { self.__mul(self) }
                pub const fn double(&self) -> Self { self.__add(self) }
                const fn cpow(&self, e: [u64; 4]) -> Self {
                    let mut r = $F(R); let mut i = 256;
                    while i > 0 { i -= 1; r = r.__mul(&r); if (e[i / 64] >> (i % 64)) & 1 == 1 { r = r.__mul(self); } }
                    r
                }
                const fn canon(&self) -> [u64; 4] { f::mont_mul(&self.0, &[1, 0, 0, 0], &M, INV) }
                pub fn to_repr(&self) -> [u8; 32] {
                    let c = self.canon(); let mut o = [0u8; 32];
                    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&c[i].to_le_bytes()); }
                    o
                }
            }
            impl Default for $F { fn default() -> Self { $F([0; 4]) } }
            impl PartialEq for $F { #[inline] fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
            impl core::cmp::Eq for $F {}
            impl core::hash::Hash for $F { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
            impl PartialOrd for $F { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
            impl Ord for $F { fn cmp(&self, o: &Self) -> core::cmp::Ordering { let (a, b) = (self.canon(), o.canon()); a.iter().rev().cmp(b.iter().rev()) } }
            impl core::fmt::Debug for $F { fn fmt(&self, w: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                let r = self.to_repr(); write!(w, "0x")?; for b in r.iter().rev() { write!(w, "{:02x}", b)?; } Ok(()) } }
            impl From<u64> for $F { fn from(v: u64) -> Self { Self::from_raw([v, 0, 0, 0]) } }
            impl From<bool> for $F { fn from(v: bool) -> Self { if v { Self::ONE } else { Self::ZERO } } }
            impl ConstantTimeEq for $F { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
            impl ConditionallySelectable for $F { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
            ff::field_operators!([] $F);
            impl Field for $F {
                const ZERO: Self = $F([0; 4]);
                const ONE: Self = $F(R);
                fn random<G: rand_core::Rng + ?Sized>(rng: &mut G) -> Self {
                    let mut b = [0u8; 64]; rng.fill_bytes(&mut b); Self::from_uniform_bytes(&b)
                }
                #[inline] fn square(&self) -> Self { self.__mul(self) }
                #[inline] fn double(&self) -> Self { self.__add(self) }
                fn invert(&self) -> CtOption<Self> { CtOption::new(self.cpow(M_MINUS_2_FIX), !self.is_zero()) }
                fn sqrt_ratio(n: &Self, d: &Self) -> (Choice, Self) { ff::helpers::sqrt_ratio_generic(n, d) }
                fn sqrt(&self) -> CtOption<Self> { ff::helpers::sqrt_tonelli_shanks(self, TM1D2) }
            }
            // M - 2 with borrow (low limb ends in ...00000001).
            const M_MINUS_2_FIX: [u64; 4] = { let _ = M_MINUS_2; let (a, b) = f::sbb(M[0], 2, 0); let (c, b) = f::sbb(M[1], 0, b); let (d, b) = f::sbb(M[2], 0, b); let (e, _) = f::sbb(M[3], 0, b); [a, c, d, e] };
            impl PrimeField for $F {
                type Repr = [u8; 32];
                fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                    let mut l = [0u64; 4];
                    for i in 0..4 { l[i] = u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap()); }
                    let lt = l.iter().rev().cmp(M.iter().rev()) == core::cmp::Ordering::Less;
                    CtOption::new(Self::from_raw(l), Choice::from(lt as u8))
                }
                fn to_repr(&self) -> [u8; 32] { $F::to_repr(self) }
                fn is_odd(&self) -> Choice { Choice::from((self.canon()[0] & 1) as u8) }
                const MODULUS: &'static str = $modstr;
                const NUM_BITS: u32 = 255;
                const CAPACITY: u32 = 254;
                const TWO_INV: Self = $F::from_raw(f::add(&f::shr(&M, 1), &[1, 0, 0, 0], &M));
                const MULTIPLICATIVE_GENERATOR: Self = $F::from_raw([5, 0, 0, 0]);
                const S: u32 = S_;
                const ROOT_OF_UNITY: Self = $F::from_raw([5, 0, 0, 0]).cpow(T);
                const ROOT_OF_UNITY_INV: Self = $F::from_raw([5, 0, 0, 0]).cpow(T).cpow(M_MINUS_2_FIX);
                const DELTA: Self = $F::from_raw([5, 0, 0, 0]).cpow([1u64 << S_, 0, 0, 0]);
            }
            impl WithSmallOrderMulGroup<3> for $F { const ZETA: Self = $F::from_raw($zeta); }
            impl FromUniformBytes<64> for $F {
                fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                    let mut l = [0u64; 8];
                    for i in 0..8 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
                    let lo = f::mont_mul(&[l[0], l[1], l[2], l[3]], &R2, &M, INV);
                    let hi = f::mont_mul(&[l[4], l[5], l[6], l[7]], &R3, &M, INV);
                    $F(f::add(&lo, &hi, &M))
                }
            }
        };
    };
}
