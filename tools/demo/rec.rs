//! A driver for demonstrations: wires are numbered, witness values are kept and
//! every gate and linear constraint is recorded.
#![allow(dead_code)]
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::maybe::Always;
pub type F = ragu_pasta::Fp;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wire(pub usize, pub F);
pub struct Lc(F, pub F, pub Vec<(usize, F)>);
impl LinearExpression<Wire, F> for Lc {
    fn add_term(mut self, w: &Wire, c: Coeff<F>) -> Self { let k = c.value() * self.0; self.1 += k * w.1; self.2.push((w.0, k)); self }
    fn gain(mut self, c: Coeff<F>) -> Self { self.0 *= c.value(); self }
}
#[derive(Default)]
pub struct Rec { pub n: usize, pub ok: bool, pub gates: Vec<[Wire; 4]>, pub zero: Vec<(Vec<(usize, F)>, F)> }
impl Rec {
    pub fn new() -> Self { Rec { ok: true, ..Default::default() } }
    pub fn wire(&mut self, v: F) -> Wire { self.n += 1; Wire(self.n, v) }
}
impl DriverTypes for Rec {
    type ImplField = F;
    type ImplWire = Wire;
    type MaybeKind = Always<()>;
    type LCadd = Lc;
    type LCenforce = Lc;
    fn gate(&mut self, f: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(Wire, Wire, Wire, Wire)> {
        let (a, b, c, d) = f()?;
        let g = [self.wire(a.value()), self.wire(b.value()), self.wire(c.value()), self.wire(d.value())];
        self.ok &= g[0].1 * g[1].1 == g[2].1 && g[2].1 * g[3].1 == F::ZERO;
        self.gates.push(g);
        Ok((g[0], g[1], g[2], g[3]))
    }
}
impl<'dr> Driver<'dr> for Rec {
    type F = F;
    type Wire = Wire;
    const ONE: Wire = Wire(0, F::ONE);
    fn add(&mut self, lc: impl Fn(Lc) -> Lc) -> Wire { let l = lc(Lc(F::ONE, F::ZERO, vec![])); self.wire(l.1) }
    fn enforce_zero(&mut self, lc: impl Fn(Lc) -> Lc) -> Result<()> { let l = lc(Lc(F::ONE, F::ZERO, vec![])); self.ok &= l.1 == F::ZERO; self.zero.push((l.2, l.1)); Ok(()) }
}
