//! An independent sponge.
use ff::{Field, PrimeField};
use ragu_arithmetic::PoseidonPermutation;

/// The reference permutation and duplex sponge.
pub struct Table<F> { pub t: usize, pub rate: usize, full: usize, part: usize, rc: Vec<Vec<F>>, mds: Vec<Vec<F>> }
impl<F: Field> Table<F> {
    pub fn of<P: PoseidonPermutation<F>>(p: &P) -> Self { Table { t: P::T, rate: P::RATE, full: P::FULL_ROUNDS, part: P::PARTIAL_ROUNDS, rc: p.round_constants().map(|r| r.to_vec()).collect(), mds: p.mds_matrix().map(|r| r.to_vec()).collect() } }
    fn permute(&self, s: &mut Vec<F>) {
        for r in 0..self.full + self.part {
            let full = r < self.full / 2 || r >= self.full / 2 + self.part;
            for i in 0..self.t { s[i] += self.rc[r][i]; if full || i == 0 { let x = s[i]; s[i] = x.square().square() * x; } }
            *s = (0..self.t).map(|i| (0..self.t).fold(F::ZERO, |a, j| a + self.mds[i][j] * s[j])).collect();
        }
    }
}
#[derive(Clone)]
pub struct Ref<'a, F> { p: &'a Table<F>, pub state: Vec<F>, pending: Vec<F>, out: Vec<F>, pub squeezing: bool }
impl<'a, F: PrimeField> Ref<'a, F> {
    pub fn new(p: &'a Table<F>, tag: &[u8]) -> Self {
        let mut r = Ref { p, state: vec![F::ZERO; p.t], pending: vec![], out: vec![], squeezing: false };
        r.absorb(F::from(tag.len() as u64));
        for c in tag.chunks(16) { r.absorb(c.iter().rev().fold(F::ZERO, |a, b| a * F::from(256) + F::from(*b as u64))); }
        r
    }
    fn flush(&mut self) { for (i, v) in self.pending.drain(..).enumerate() { self.state[i] += v; } self.p.permute(&mut self.state); }
    pub fn absorb(&mut self, v: F) {
        if self.squeezing { self.squeezing = false; self.out.clear(); }
        if self.pending.len() == self.p.rate { self.flush(); }
        self.pending.push(v);
    }
    pub fn challenge(&mut self) -> F {
        if !self.squeezing { self.flush(); self.squeezing = true; self.out = self.state[..self.p.rate].to_vec(); }
        else if self.out.is_empty() { self.p.permute(&mut self.state); self.out = self.state[..self.p.rate].to_vec(); }
        self.out.remove(0)
    }
    /// Goes on from a saved state.
    pub fn resume(p: &'a Table<F>, state: Vec<F>) -> Self { let out = state[..p.rate].to_vec(); Ref { p, state, pending: vec![], out, squeezing: true } }
    /// Saving is transparent: the next challenges are the same.
    pub fn save(&mut self) { self.flush(); self.squeezing = true; self.out = self.state[..self.p.rate].to_vec(); }
}

