//! Offline stand-in for `blake2b_simd` (RFC 7693, sequential mode).
#![no_std]
const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 12] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
];
pub const OUTBYTES: usize = 64;
pub const PERSONALBYTES: usize = 16;

#[derive(Clone, Debug)]
pub struct Params { hash_length: u8, personal: [u8; 16], salt: [u8; 16] }
impl Default for Params { fn default() -> Self { Self::new() } }
impl Params {
    pub fn new() -> Self { Params { hash_length: 64, personal: [0; 16], salt: [0; 16] } }
    pub fn hash_length(&mut self, n: usize) -> &mut Self { assert!((1..=64).contains(&n)); self.hash_length = n as u8; self }
    pub fn personal(&mut self, p: &[u8]) -> &mut Self { assert!(p.len() <= 16); self.personal = [0; 16]; self.personal[..p.len()].copy_from_slice(p); self }
    pub fn salt(&mut self, p: &[u8]) -> &mut Self { assert!(p.len() <= 16); self.salt = [0; 16]; self.salt[..p.len()].copy_from_slice(p); self }
    pub fn to_state(&self) -> State {
        let mut h = IV;
        h[0] ^= 0x0101_0000 ^ self.hash_length as u64;
        for i in 0..2 {
            h[4 + i] ^= u64::from_le_bytes(self.salt[8 * i..8 * i + 8].try_into().unwrap());
            h[6 + i] ^= u64::from_le_bytes(self.personal[8 * i..8 * i + 8].try_into().unwrap());
        }
        State { h, buf: [0; 128], len: 0, t: 0, out: self.hash_length }
    }
    pub fn hash(&self, input: &[u8]) -> Hash { let mut s = self.to_state(); s.update(input); s.finalize() }
}
#[derive(Clone, Debug)]
pub struct State { h: [u64; 8], buf: [u8; 128], len: usize, t: u128, out: u8 }
impl Default for State { fn default() -> Self { Params::new().to_state() } }
impl State {
    pub fn new() -> Self { Self::default() }
    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {
        while !input.is_empty() {
            if self.len == 128 { self.t += 128; self.compress(false); self.len = 0; }
            let n = core::cmp::min(128 - self.len, input.len());
            self.buf[self.len..self.len + n].copy_from_slice(&input[..n]);
            self.len += n;
            input = &input[n..];
        }
        self
    }
    fn compress(&mut self, last: bool) {
        let mut m = [0u64; 16];
        for i in 0..16 { m[i] = u64::from_le_bytes(self.buf[8 * i..8 * i + 8].try_into().unwrap()); }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&self.h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= self.t as u64;
        v[13] ^= (self.t >> 64) as u64;
        if last { v[14] = !v[14]; }
        #[inline(always)]
        fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63);
        }
        for s in SIGMA.iter() {
            g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 { self.h[i] ^= v[i] ^ v[i + 8]; }
    }
    pub fn finalize(&self) -> Hash {
        let mut s = self.clone();
        s.t += s.len as u128;
        for b in &mut s.buf[s.len..] { *b = 0; }
        s.compress(true);
        let mut bytes = [0u8; 64];
        for i in 0..8 { bytes[8 * i..8 * i + 8].copy_from_slice(&s.h[i].to_le_bytes()); }
        Hash { bytes, len: self.out }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Hash { bytes: [u8; 64], len: u8 }
impl Hash {
    pub fn as_bytes(&self) -> &[u8] { &self.bytes[..self.len as usize] }
    pub fn as_array(&self) -> &[u8; 64] { &self.bytes }
}
impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { self.as_bytes() } }
impl PartialEq for Hash { fn eq(&self, o: &Self) -> bool { self.as_bytes() == o.as_bytes() } }
impl Eq for Hash {}
pub fn blake2b(input: &[u8]) -> Hash { Params::new().hash(input) }
#[test]
fn rfc() {
    let h = blake2b(b"abc");
    assert_eq!(&h.as_bytes()[..8], &[0xba, 0x80, 0xa5, 0x3f, 0x98, 0x1c, 0x4d, 0x0d]);
    let h = blake2b(b"");
    assert_eq!(&h.as_bytes()[..8], &[0x78, 0x6a, 0x02, 0xf7, 0x42, 0x01, 0x59, 0x03]);
}
