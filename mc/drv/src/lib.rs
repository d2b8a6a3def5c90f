//! A driver that records the constraint system a gadget produces, and an
//! exhaustive enumerator of that system's satisfying assignments.
mod solve;
pub use solve::{Solutions, Values};

use ff::PrimeField;
use ragu_arithmetic::Coeff;
use ragu_core::{
    convert::WireMap,
    drivers::{Driver, DriverTypes, LinearExpression},
    maybe::{Always, Empty, MaybeKind},
    Result,
};
use std::marker::PhantomData;
use std::sync::Arc;

/// A wire: an affine combination of the system's variables.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Wire<F> { pub k: F, pub t: Option<Arc<Vec<(u32, F)>>> }
impl<F: PrimeField> Wire<F> {
    pub fn var(v: u32) -> Self { Wire { k: F::ZERO, t: Some(Arc::new(vec![(v, F::ONE)])) } }
    pub fn konst(k: F) -> Self { Wire { k, t: None } }
    pub fn terms(&self) -> &[(u32, F)] { self.t.as_ref().map(|t| &t[..]).unwrap_or(&[]) }
    pub fn eval(&self, vals: &[F]) -> F { self.terms().iter().fold(self.k, |a, (v, c)| a + *c * vals[*v as usize]) }
    pub fn combine(parts: impl IntoIterator<Item = (Wire<F>, F)>) -> Self {
        let mut a = Acc::default();
        for (w, c) in parts { a = a.add_term(&w, Coeff::Arbitrary(c)); }
        a.done()
    }
}

#[derive(Clone, Debug)]
pub struct Acc<F> { k: F, t: Vec<(u32, F)>, gain: F }
impl<F: PrimeField> Default for Acc<F> { fn default() -> Self { Acc { k: F::ZERO, t: vec![], gain: F::ONE } } }
impl<F: PrimeField> Acc<F> {
    pub fn done(mut self) -> Wire<F> {
        self.t.sort_by_key(|x| x.0);
        let mut o: Vec<(u32, F)> = vec![];
        for (v, c) in self.t { match o.last_mut() { Some(l) if l.0 == v => l.1 += c, _ => o.push((v, c)) } }
        o.retain(|x| x.1 != F::ZERO);
        Wire { k: self.k, t: if o.is_empty() { None } else { Some(Arc::new(o)) } }
    }
}
fn denote<F: PrimeField>(c: Coeff<F>) -> F {
    match c { Coeff::Zero => F::ZERO, Coeff::One => F::ONE, Coeff::Two => F::ONE + F::ONE, Coeff::NegativeOne => -F::ONE, Coeff::Arbitrary(x) => x, Coeff::NegativeArbitrary(x) => -x }
}
impl<F: PrimeField> LinearExpression<Wire<F>, F> for Acc<F> {
    fn add_term(mut self, w: &Wire<F>, c: Coeff<F>) -> Self {
        let c = denote(c) * self.gain;
        self.k += w.k * c;
        for (v, x) in w.terms() { self.t.push((*v, *x * c)); }
        self
    }
    fn gain(mut self, c: Coeff<F>) -> Self { self.gain *= denote(c); self }
}

/// Whether witness values are present.
pub trait Mode: 'static { type Kind: MaybeKind; const LIVE: bool; fn get<R>(f: impl FnOnce() -> Result<R>) -> Result<Option<R>>; }
pub struct Live;
pub struct Dry;
impl Mode for Live { type Kind = Always<()>; const LIVE: bool = true; fn get<R>(f: impl FnOnce() -> Result<R>) -> Result<Option<R>> { f().map(Some) } }
impl Mode for Dry { type Kind = Empty; const LIVE: bool = false; fn get<R>(_: impl FnOnce() -> Result<R>) -> Result<Option<R>> { Ok(None) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gate<F> { pub a: Wire<F>, pub b: Wire<F>, pub c: Wire<F>, pub d: Wire<F> }

/// The recorded system.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct System<F> { pub vars: u32, pub allocs: usize, pub gates: Vec<Gate<F>>, pub zeros: Vec<Wire<F>> }

pub struct Cs<F, M: Mode> {
    pub sys: System<F>,
    /// Assigned value of each variable (with witness only).
    pub vals: Vec<F>,
    _m: PhantomData<M>,
}
impl<F: PrimeField, M: Mode> Default for Cs<F, M> { fn default() -> Self { Self::new() } }
impl<F: PrimeField, M: Mode> Cs<F, M> {
    pub fn new() -> Self { Cs { sys: System { vars: 0, allocs: 0, gates: vec![], zeros: vec![] }, vals: vec![], _m: PhantomData } }
    fn fresh(&mut self, v: F) -> Wire<F> { let w = Wire::var(self.sys.vars); self.sys.vars += 1; self.vals.push(v); w }
    /// A variable under the control of the check.
    pub fn input(&mut self, v: F) -> Wire<F> { self.fresh(v) }
    pub fn value(&self, w: &Wire<F>) -> F { w.eval(&self.vals) }
    /// First violated constraint of the recorded assignment.
    pub fn violated(&self) -> Option<String> {
        for (i, g) in self.sys.gates.iter().enumerate() {
            let (a, b, c, d) = (self.value(&g.a), self.value(&g.b), self.value(&g.c), self.value(&g.d));
            if a * b != c { return Some(format!("gate {i}: {a:?} * {b:?} != {c:?}")); }
            if c * d != F::ZERO { return Some(format!("gate {i}: {c:?} * {d:?} != 0")); }
        }
        for (i, z) in self.sys.zeros.iter().enumerate() { let v = self.value(z); if v != F::ZERO { return Some(format!("constraint {i}: {v:?} != 0")); } }
        None
    }
}
impl<F: PrimeField, M: Mode> DriverTypes for Cs<F, M> {
    type ImplField = F;
    type ImplWire = Wire<F>;
    type MaybeKind = M::Kind;
    type LCadd = Acc<F>;
    type LCenforce = Acc<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(Wire<F>, Wire<F>, Wire<F>, Wire<F>)> {
        let (a, b, c, d) = M::get(values)?.map(|(a, b, c, d)| (denote(a), denote(b), denote(c), denote(d))).unwrap_or((F::ZERO, F::ZERO, F::ZERO, F::ZERO));
        let g = Gate { a: self.fresh(a), b: self.fresh(b), c: self.fresh(c), d: self.fresh(d) };
        self.sys.gates.push(g.clone());
        Ok((g.a, g.b, g.c, g.d))
    }
}
impl<'dr, F: PrimeField, M: Mode> Driver<'dr> for Cs<F, M> {
    type F = F;
    type Wire = Wire<F>;
    const ONE: Wire<F> = Wire { k: F::ONE, t: None };
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<Wire<F>> {
        let v = M::get(value)?.map(denote).unwrap_or(F::ZERO);
        self.sys.allocs += 1;
        Ok(self.fresh(v))
    }
    fn add(&mut self, lc: impl Fn(Acc<F>) -> Acc<F>) -> Wire<F> { lc(Acc::default()).done() }
    fn enforce_zero(&mut self, lc: impl Fn(Acc<F>) -> Acc<F>) -> Result<()> { let w = lc(Acc::default()).done(); self.sys.zeros.push(w); Ok(()) }
}

/// Collects the wires of a gadget.
pub struct Collect<'a, F, M: Mode>(pub Vec<Wire<F>>, pub PhantomData<&'a M>);
impl<F, M: Mode> Default for Collect<'_, F, M> { fn default() -> Self { Collect(vec![], PhantomData) } }
impl<F: PrimeField, M: Mode> WireMap<F> for Collect<'_, F, M> {
    type Src = Cs<F, M>;
    type Dst = Cs<F, M>;
    fn convert_wire(&mut self, w: &Wire<F>) -> Result<Wire<F>> { self.0.push(w.clone()); Ok(w.clone()) }
}
/// Replaces every wire of a gadget by a fresh variable (keeping its value).
pub struct Fresh<'a, F, M: Mode>(pub &'a mut Cs<F, M>, pub Vec<Wire<F>>);
impl<F: PrimeField, M: Mode> WireMap<F> for Fresh<'_, F, M> {
    type Src = Cs<F, M>;
    type Dst = Cs<F, M>;
    fn convert_wire(&mut self, w: &Wire<F>) -> Result<Wire<F>> { let v = self.0.value(w); let n = self.0.input(v); self.1.push(n.clone()); Ok(n) }
}
