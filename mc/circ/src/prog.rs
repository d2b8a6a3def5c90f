//! Circuit programs as data, interpreted against any driver; and a reference
//! driver that records what the program means.
use ff::PrimeField;
use mc_drv::{Acc, Mode, Wire};
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::{Driver, DriverTypes, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::routines::{Prediction, Routine};
use ragu_core::{Error, Result};
use ragu_primitives::vec::{ConstLen, FixedVec, Len};
use ragu_primitives::Element;
use std::sync::Arc;

/// Symbolic forms of a coefficient.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Co { Zero, One, Two, Neg, Arb(u64), NegArb(u64) }
impl Co {
    pub fn coeff<F: PrimeField>(self) -> Coeff<F> { match self { Co::Zero => Coeff::Zero, Co::One => Coeff::One, Co::Two => Coeff::Two, Co::Neg => Coeff::NegativeOne, Co::Arb(x) => Coeff::Arbitrary(F::from(x)), Co::NegArb(x) => Coeff::NegativeArbitrary(F::from(x)) } }
    pub fn val<F: PrimeField>(self) -> F { match self { Co::Zero => F::ZERO, Co::One => F::ONE, Co::Two => F::from(2), Co::Neg => F::ZERO - F::ONE, Co::Arb(x) => F::from(x), Co::NegArb(x) => F::ZERO - F::from(x) } }
}
/// Values known to the prover. Wires are named by distance from the newest.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val { In(usize), K(u64), R(usize), Prod(usize, usize), Sum(usize, usize), Aux, Fail(u32),
    /// A coefficient supplied in this form.
    C(Co) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lc { T(usize, Co), One(Co), G(Co) }
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Alloc(Val),
    /// Product of two wires, bound to them.
    Mul(usize, usize),
    RawMul(Val, Val, Val),
    Gate(Val, Val, Val, Val),
    Const(Co),
    Add(Vec<Lc>),
    Zero(Vec<Lc>),
    Eq(usize, usize),
    /// The wire that is always one.
    One,
    Call(usize, usize, usize),
    /// The same routines with another number of inputs and outputs (see `SHAPES`).
    Shaped(usize, usize, usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Prog { pub ops: Vec<Op>, pub outs: Vec<usize>, pub subs: Arc<Vec<Sub>> }
#[derive(Clone, Debug)]
pub struct Sub { pub name: &'static str, pub ops: Vec<Op>, pub outs: [usize; 2], pub known: bool }

type Ws<'dr, D> = Vec<Element<'dr, D>>;
fn at<'a, 'dr, D: Driver<'dr>>(w: &'a Ws<'dr, D>, k: usize) -> &'a Element<'dr, D> { &w[(w.len() - 1).saturating_sub(k)] }
fn lincomb<'dr, D: Driver<'dr>, L: LinearExpression<D::Wire, D::F>>(w: &Ws<'dr, D>, t: &[Lc], l: L) -> L where D::F: PrimeField {
    t.iter().fold(l, |l, t| match t { Lc::T(k, c) => l.add_term(at(w, *k).wire(), c.coeff()), Lc::One(c) => l.add_term(&D::ONE, c.coeff()), Lc::G(c) => l.gain(c.coeff()) })
}
struct Env<'e, 'dr, D: Driver<'dr>> { ins: &'e DriverValue<D, Vec<D::F>>, aux: &'e DriverValue<D, D::F> }
impl<'e, 'dr, D: Driver<'dr>> Env<'e, 'dr, D> where D::F: PrimeField {
    /// Only called by closures that supply witness values.
    fn value(&self, w: &Ws<'dr, D>, v: Val) -> Result<D::F> {
        Ok(match v {
            Val::In(i) => self.ins.as_ref().take()[i],
            Val::K(k) => D::F::from(k),
            Val::R(k) => *at(w, k).value().take(),
            Val::Prod(a, b) => *at(w, a).value().take() * *at(w, b).value().take(),
            Val::Sum(a, b) => *at(w, a).value().take() + *at(w, b).value().take(),
            Val::Aux => *self.aux.as_ref().take(),
            Val::C(k) => k.val(),
            Val::Fail(k) => return Err(Error::InvalidWitness(format!("marker {k}").into())),
        })
    }
    fn coeff(&self, w: &Ws<'dr, D>, v: Val) -> Result<Coeff<D::F>> { Ok(match v { Val::C(k) => k.coeff(), _ => Coeff::Arbitrary(self.value(w, v)?) }) }
    /// The value a promoted wire carries (errors surface through the wire).
    fn carried(&self, w: &Ws<'dr, D>, v: Val) -> DriverValue<D, D::F> { D::just(|| self.value(w, v).unwrap_or(D::F::from(0))) }
}
fn interp<'dr, F: PrimeField, D: Driver<'dr, F = F>>(p: &Prog, ops: &[Op], dr: &mut D, w: &mut Ws<'dr, D>, env: &Env<'_, 'dr, D>) -> Result<()> {
    let c = Coeff::Arbitrary;
    for op in ops {
        match op {
            Op::Alloc(v) => { let x = dr.alloc(|| env.coeff(w, *v))?; w.push(Element::promote(x, env.carried(w, *v))); }
            Op::Mul(a, b) => {
                let (ea, eb) = (at(w, *a).clone(), at(w, *b).clone());
                let (x, y, z) = dr.mul(|| Ok((c(*ea.value().take()), c(*eb.value().take()), c(*ea.value().take() * *eb.value().take()))))?;
                dr.enforce_equal(&x, ea.wire())?;
                dr.enforce_equal(&y, eb.wire())?;
                let v = D::just(|| *ea.value().take() * *eb.value().take());
                w.push(Element::promote(z, v));
            }
            Op::RawMul(a, b, d) => {
                let (x, y, z) = dr.mul(|| Ok((env.coeff(w, *a)?, env.coeff(w, *b)?, env.coeff(w, *d)?)))?;
                let (va, vb, vd) = (env.carried(w, *a), env.carried(w, *b), env.carried(w, *d));
                w.push(Element::promote(x, va)); w.push(Element::promote(y, vb)); w.push(Element::promote(z, vd));
            }
            Op::Gate(a, b, e, d) => {
                let (x, y, z, t) = dr.gate(|| Ok((env.coeff(w, *a)?, env.coeff(w, *b)?, env.coeff(w, *e)?, env.coeff(w, *d)?)))?;
                let (va, vb, vc, vd) = (env.carried(w, *a), env.carried(w, *b), env.carried(w, *e), env.carried(w, *d));
                w.push(Element::promote(x, va)); w.push(Element::promote(y, vb)); w.push(Element::promote(z, vc)); w.push(Element::promote(t, vd));
            }
            Op::Const(k) => { let x = dr.constant(k.coeff()); w.push(Element::promote(x, D::just(|| k.val::<F>()))); }
            Op::Add(t) => {
                let x = dr.add(|l| lincomb(w, t, l));
                let v = D::just(|| { let mut g = F::ONE; let mut s = F::ZERO; for t in t { match t { Lc::T(k, c) => s += *at(w, *k).value().take() * c.val::<F>() * g, Lc::One(c) => s += c.val::<F>() * g, Lc::G(c) => g *= c.val::<F>() } } s });
                w.push(Element::promote(x, v));
            }
            Op::Zero(t) => dr.enforce_zero(|l| lincomb(w, t, l))?,
            Op::Eq(a, b) => dr.enforce_equal(at(w, *a).wire(), at(w, *b).wire())?,
            Op::One => w.push(Element::one()),
            Op::Call(k, a, b) => {
                let input = (at(w, *a).clone(), at(w, *b).clone());
                let (x, y) = dr.routine(Ro { p: p.clone(), k: *k }, input)?;
                w.push(x); w.push(y);
            }
            Op::Shaped(k, s, a, b) => match SHAPES[*s] {
                (0, 0) => shaped::<0, 0, F, D>(p, *k, *a, *b, dr, w)?,
                (0, 1) => shaped::<0, 1, F, D>(p, *k, *a, *b, dr, w)?,
                (0, 3) => shaped::<0, 3, F, D>(p, *k, *a, *b, dr, w)?,
                (1, 0) => shaped::<1, 0, F, D>(p, *k, *a, *b, dr, w)?,
                (1, 1) => shaped::<1, 1, F, D>(p, *k, *a, *b, dr, w)?,
                (1, 2) => shaped::<1, 2, F, D>(p, *k, *a, *b, dr, w)?,
                (2, 1) => shaped::<2, 1, F, D>(p, *k, *a, *b, dr, w)?,
                (2, 3) => shaped::<2, 3, F, D>(p, *k, *a, *b, dr, w)?,
                (3, 0) => shaped::<3, 0, F, D>(p, *k, *a, *b, dr, w)?,
                (3, 2) => shaped::<3, 2, F, D>(p, *k, *a, *b, dr, w)?,
                (3, 3) => shaped::<3, 3, F, D>(p, *k, *a, *b, dr, w)?,
                s => unreachable!("{s:?}"),
            },
        }
    }
    Ok(())
}
#[derive(Clone)]
struct Ro { p: Prog, k: usize }
impl Ro {
    fn body<'dr, F: PrimeField, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: &(Element<'dr, D>, Element<'dr, D>), aux: &DriverValue<D, F>) -> Result<(Element<'dr, D>, Element<'dr, D>)> {
        let s = &self.p.subs[self.k];
        let ins = D::just(Vec::new);
        let mut w = vec![Element::one(), input.0.clone(), input.1.clone()];
        interp(&self.p, &s.ops, dr, &mut w, &Env { ins: &ins, aux })?;
        Ok((at(&w, s.outs[0]).clone(), at(&w, s.outs[1]).clone()))
    }
}
impl<F: PrimeField> Routine<F> for Ro {
    type Input = Kind![F; (Element<'_, _>, Element<'_, _>)];
    type Output = Kind![F; (Element<'_, _>, Element<'_, _>)];
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, aux: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        // The auxiliary data is what prediction computed for this input.
        let _ = D::just(|| assert_eq!(*aux.as_ref().take(), *input.0.value().take() * F::from(3) + *input.1.value().take() + F::from(self.k as u64 + 7), "auxiliary data of a routine"));
        self.body(dr, &input, &aux)
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, dr: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
        let aux = D::just(|| *input.0.value().take() * F::from(3) + *input.1.value().take() + F::from(self.k as u64 + 7));
        if !self.p.subs[self.k].known { return Ok(Prediction::Unknown(aux)); }
        let out = self.body(dr, input, &aux)?;
        Ok(Prediction::Known(out, aux))
    }
}

/// Numbers of inputs and outputs of the other routines.
pub const SHAPES: [(usize, usize); 11] = [(0, 0), (0, 1), (0, 3), (1, 0), (1, 1), (1, 2), (2, 1), (2, 3), (3, 0), (3, 2), (3, 3)];
#[derive(Clone)]
struct RoN<const I: usize, const O: usize> { p: Prog, k: usize }
fn shaped<'dr, const I: usize, const O: usize, F: PrimeField, D: Driver<'dr, F = F>>(p: &Prog, k: usize, a: usize, b: usize, dr: &mut D, w: &mut Ws<'dr, D>) -> Result<()> {
    let input = FixedVec::<_, ConstLen<I>>::from_fn(|i| at(w, if i % 2 == 0 { a } else { b }).clone());
    let out = dr.routine(RoN::<I, O> { p: p.clone(), k }, input)?;
    w.extend(out.iter().cloned());
    Ok(())
}
impl<const I: usize, const O: usize> RoN<I, O> {
    fn body<'dr, F: PrimeField, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: &FixedVec<Element<'dr, D>, ConstLen<I>>, aux: &DriverValue<D, F>) -> Result<FixedVec<Element<'dr, D>, ConstLen<O>>> {
        let s = &self.p.subs[self.k];
        let ins = D::just(Vec::new);
        let mut w = vec![Element::one(); 2usize.saturating_sub(I)];
        w.insert(0, Element::one());
        w.extend(input.iter().cloned());
        interp(&self.p, &s.ops, dr, &mut w, &Env { ins: &ins, aux })?;
        Ok(FixedVec::from_fn(|i| at(&w, s.outs[i % 2] + i / 2).clone()))
    }
}
impl<F: PrimeField, const I: usize, const O: usize> Routine<F> for RoN<I, O> {
    type Input = Kind![F; FixedVec<Element<'_, _>, ConstLen<I>>];
    type Output = Kind![F; FixedVec<Element<'_, _>, ConstLen<O>>];
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, aux: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> { self.body(dr, &input, &aux) }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, dr: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
        let aux = D::just(|| input.iter().fold(F::from(self.k as u64 + 7), |s, e| s * F::from(3) + *e.value().take()));
        if !self.p.subs[self.k].known { return Ok(Prediction::Unknown(aux)); }
        let out = self.body(dr, input, &aux)?;
        Ok(Prediction::Known(out, aux))
    }
}

/// The program as a circuit with as many public outputs as `L` says.
#[derive(Debug)]
pub struct Circ<L>(pub Prog, pub std::marker::PhantomData<L>);
impl<L> Clone for Circ<L> { fn clone(&self) -> Self { Circ(self.0.clone(), std::marker::PhantomData) } }
/// Any number of outputs, set for a whole cell at a time.
#[derive(Clone, Debug)]
pub struct Wide;
static WIDE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(4);
impl Len for Wide { fn len() -> usize { WIDE.load(std::sync::atomic::Ordering::SeqCst) } }
/// Visits programs with more public outputs than the other families have. One
/// number of outputs at a time: their number is part of the circuit's type.
pub fn many_outputs(steps: &[Op], len: usize, mut each: impl FnMut(Vec<Prog>)) {
    for n in (4..=12).chain([15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 118]) {
        WIDE.store(n, std::sync::atomic::Ordering::SeqCst);
        each((0..=len).flat_map(|l| sequences(steps, l)).map(|mut ops| {
            // Enough different wires to tell positions apart, at least for the first outputs.
            ops.insert(0, Op::Gate(Val::K(6), Val::K(7), Val::K(42), Val::K(0)));
            ops.insert(0, Op::RawMul(Val::K(5), Val::K(11), Val::K(55)));
            ops.insert(0, Op::Add(vec![Lc::One(Co::Arb(12))]));
            Prog { ops, outs: (0..n).collect(), subs: subs() }
        }).collect());
    }
}
impl<F: PrimeField, L: Len> Circuit<F> for Circ<L> {
    type Instance<'source> = Vec<F>;
    type Witness<'source> = Vec<F>;
    type Output = Kind![F; FixedVec<Element<'_, _>, L>];
    type Aux<'source> = Vec<F>;
    fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::Output>> where Self: 'dr {
        FixedVec::try_from_fn(|i| Element::alloc(dr, instance.as_ref().map(|v| v[i])))
    }
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, Vec<F>>>> where Self: 'dr {
        let aux = D::just(|| F::ZERO);
        let mut w = vec![Element::one()];
        interp(&self.0, &self.0.ops, dr, &mut w, &Env { ins: &witness, aux: &aux })?;
        let outs = FixedVec::from_fn(|i| at(&w, self.0.outs[i]).clone());
        let last = D::just(|| w.iter().map(|e| *e.value().take()).collect::<Vec<F>>());
        Ok(WithAux::new(outs, last))
    }
}
/// Runs an expression with the circuit type for a program.
#[macro_export]
macro_rules! circ {
    ($p:expr, $c:ident => $e:expr) => {{ let p: &$crate::prog::Prog = $p; use ragu_primitives::vec::ConstLen; use std::marker::PhantomData; use $crate::prog::{Circ, Wide}; match p.outs.len() {
        0 => { let $c = Circ::<ConstLen<0>>(p.clone(), PhantomData); $e }
        1 => { let $c = Circ::<ConstLen<1>>(p.clone(), PhantomData); $e }
        2 => { let $c = Circ::<ConstLen<2>>(p.clone(), PhantomData); $e }
        3 => { let $c = Circ::<ConstLen<3>>(p.clone(), PhantomData); $e }
        n => { assert_eq!(n, <Wide as ragu_primitives::vec::Len>::len(), "number of outputs of this cell"); let $c = Circ::<Wide>(p.clone(), PhantomData); $e }
    } }};
}

// ---- reference ----
pub struct Seg<F> { pub gates: Vec<u32>, pub cons: Vec<Wire<F>> }
/// Records gates and constraints by segment, and values.
pub struct Rec<F: PrimeField, M: Mode> { pub segs: Vec<Seg<F>>, pub vals: Vec<F>, pub allocs: usize, pub plain_gates: usize, cur: usize, pending: Option<Wire<F>>, marks: (usize, usize, usize), _m: std::marker::PhantomData<M> }
impl<F: PrimeField, M: Mode> DriverTypes for Rec<F, M> {
    type ImplField = F;
    type ImplWire = Wire<F>;
    type MaybeKind = M::Kind;
    type LCadd = Acc<F>;
    type LCenforce = Acc<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(Wire<F>, Wire<F>, Wire<F>, Wire<F>)> {
        let v = M::get(values)?.map(|(a, b, c, d)| [a, b, c, d].map(|c| c.value())).unwrap_or([F::ZERO; 4]);
        let base = self.vals.len() as u32;
        self.vals.extend(v);
        self.segs[self.cur].gates.push(base);
        self.plain_gates += 1;
        Ok((Wire::var(base), Wire::var(base + 1), Wire::var(base + 2), Wire::var(base + 3)))
    }
}
impl<'dr, F: PrimeField, M: Mode> Driver<'dr> for Rec<F, M> {
    type F = F;
    type Wire = Wire<F>;
    const ONE: Wire<F> = Wire { k: F::ONE, t: None };
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<Wire<F>> {
        self.allocs += 1;
        let v = M::get(value)?.map(|c| c.value()).unwrap_or(F::ZERO);
        if let Some(d) = self.pending.take() { let i = d.terms()[0].0 as usize; self.vals[i] = v; return Ok(d); }
        let base = self.vals.len() as u32;
        self.vals.extend([F::ZERO, v, F::ZERO, F::ZERO]);
        self.segs[self.cur].gates.push(base);
        self.pending = Some(Wire::var(base + 3));
        Ok(Wire::var(base + 1))
    }
    fn add(&mut self, lc: impl Fn(Acc<F>) -> Acc<F>) -> Wire<F> { lc(Acc::default()).done() }
    fn enforce_zero(&mut self, lc: impl Fn(Acc<F>) -> Acc<F>) -> Result<()> { let w = lc(Acc::default()).done(); self.segs[self.cur].cons.push(w); Ok(()) }
    fn routine<R: Routine<F> + 'dr>(&mut self, routine: R, input: Bound<'dr, Self, R::Input>) -> Result<Bound<'dr, Self, R::Output>> {
        let aux = Emulator::predict(&routine, &input)?.into_aux();
        let (cur, pending) = (self.cur, self.pending.take());
        self.cur = self.segs.len();
        self.segs.push(Seg { gates: vec![], cons: vec![] });
        let r = routine.execute(self, input, aux);
        self.cur = cur;
        self.pending = pending;
        r
    }
}
/// What a program means: the constraint system in its documented layout.
#[derive(Clone, Debug, PartialEq)]
pub struct Sys<F> {
    /// Number of gates (including the first) and constraints.
    pub gates: usize,
    pub cons: usize,
    /// Values (a, b, c, d) of each gate.
    pub vals: Vec<[F; 4]>,
    /// Constraints: power of Y, and coefficient of each (gate, wire) with wire 0..4 = a..d.
    pub lin: Vec<(usize, Vec<((usize, usize), F)>)>,
    pub outs: Vec<F>,
    pub allocs: usize,
    pub plain_gates: usize,
    pub inner_cons: usize,
    pub segs: Vec<(usize, usize)>,
    /// Values of all wires of the outermost scope.
    pub wires: Vec<F>,
}
/// Collects written values.
pub struct ValBuf<F>(pub Vec<F>);
impl<'dr, D: Driver<'dr, MaybeKind = ragu_core::maybe::Always<()>>> ragu_primitives::io::Buffer<'dr, D> for ValBuf<D::F> {
    fn write(&mut self, _: &mut D, value: &Element<'dr, D>) -> Result<()> { self.0.push(*value.value().take()); Ok(()) }
}
/// Collects written wires.
pub struct OutBuf<W>(pub Vec<W>);
impl<'dr, D: Driver<'dr>> ragu_primitives::io::Buffer<'dr, D> for OutBuf<D::Wire> {
    fn write(&mut self, _: &mut D, value: &Element<'dr, D>) -> Result<()> { self.0.push(value.wire().clone()); Ok(()) }
}
pub fn reference<F: PrimeField, M: Mode>(p: &Prog, ins: &[F]) -> Result<Sys<F>> {
    use ragu_core::maybe::MaybeKind;
    let ins = ins.to_vec();
    record::<F, M>(|r| run_on::<F, _>(p, r, M::Kind::maybe_just(|| ins)))
}
/// The reference for any circuit.
pub fn reference_of<F: PrimeField, M: Mode, C: Circuit<F>>(circuit: &C, witness: impl FnOnce() -> C::Witness<'static>) -> Result<Sys<F>> where C: 'static {
    use ragu_core::maybe::MaybeKind;
    record::<F, M>(|r| {
        let out = circuit.witness(r, M::Kind::maybe_just(witness))?.into_output();
        r.marks = (r.allocs, r.plain_gates, r.segs.iter().map(|s| s.cons.len()).sum());
        let mut b = OutBuf(vec![]);
        <C::Output as ragu_primitives::io::Write<F>>::write_gadget(&out, r, &mut b)?;
        Ok((b.0, vec![]))
    })
}
fn record<F: PrimeField, M: Mode>(f: impl FnOnce(&mut Rec<F, M>) -> Result<(Vec<Wire<F>>, Vec<Wire<F>>)>) -> Result<Sys<F>> {
    let mut r = Rec::<F, M> { segs: vec![Seg { gates: vec![], cons: vec![] }], vals: vec![], allocs: 0, plain_gates: 0, cur: 0, pending: None, marks: (usize::MAX, 0, 0), _m: std::marker::PhantomData };
    r.gate(|| Ok((Coeff::Zero, Coeff::One, Coeff::Zero, Coeff::Zero)))?;
    if M::LIVE { r.vals[1] = F::ONE; }
    let (out, all) = f(&mut r)?;
    if r.marks.0 == usize::MAX { r.marks = (r.allocs, r.plain_gates, r.segs.iter().map(|s| s.cons.len()).sum()); }
    let (allocs, plain_gates, inner_cons) = (r.marks.0, r.marks.1 - 1, r.marks.2);
    let outs = out.iter().map(|w| w.eval(&r.vals)).collect();
    let wires = all.iter().map(|w| w.eval(&r.vals)).collect();
    for w in &out { r.segs[0].cons.push(w.clone()); }
    r.segs[0].cons.push(Wire { k: F::ONE, t: None });
    // Layout: segments in order of first entry; within each, the last
    // constraint has the lowest power of Y.
    let mut place = std::collections::HashMap::new();
    let (mut g, mut q) = (0, 0);
    let mut s = Sys { gates: 0, cons: 0, vals: vec![], lin: vec![], outs, allocs, plain_gates, inner_cons, segs: vec![], wires };
    for seg in &r.segs { for (i, base) in seg.gates.iter().enumerate() { for k in 0..4 { place.insert(base + k, (g + i, k as usize)); } s.vals.push([0, 1, 2, 3].map(|k| r.vals[(*base + k) as usize])); } g += seg.gates.len(); }
    for seg in &r.segs {
        let m = seg.cons.len();
        for (j, c) in seg.cons.iter().enumerate() {
            let mut t: Vec<((usize, usize), F)> = c.terms().iter().map(|(v, x)| (place[v], *x)).collect();
            if c.k != F::ZERO { match t.iter_mut().find(|t| t.0 == (0, 1)) { Some(t) => t.1 += c.k, None => t.push(((0, 1), c.k)) } }
            t.retain(|t| t.1 != F::ZERO);
            t.sort_by_key(|t| t.0);
            s.lin.push((q + m - 1 - j, t));
        }
        q += m;
        s.segs.push((seg.gates.len(), m));
    }
    s.gates = g; s.cons = q;
    Ok(s)
}
/// Output and all wires of the program on any driver.
pub fn run_on<'dr, F: PrimeField, D: Driver<'dr, F = F>>(p: &Prog, dr: &mut D, ins: DriverValue<D, Vec<F>>) -> Result<(Vec<D::Wire>, Vec<D::Wire>)> {
    let aux = D::just(|| F::ZERO);
    let mut w = vec![Element::one()];
    interp(p, &p.ops, dr, &mut w, &Env { ins: &ins, aux: &aux })?;
    Ok((p.outs.iter().map(|k| at(&w, *k).wire().clone()).collect(), w.iter().map(|e| e.wire().clone()).collect()))
}
impl<F: PrimeField> Sys<F> {
    pub fn eval(&self, t: &[((usize, usize), F)], vals: &[[F; 4]]) -> F { t.iter().fold(F::ZERO, |a, ((g, k), c)| a + *c * vals[*g][*k]) }
    /// Gates and inner constraints all hold for the recorded values.
    pub fn satisfied(&self) -> bool {
        self.vals.iter().all(|v| v[0] * v[1] == v[2] && v[2] * v[3] == F::ZERO) && self.lin.iter().all(|(y, t)| { let v = self.eval(t, &self.vals); v == self.public(*y) })
    }
    /// Coefficient of the instance polynomial.
    pub fn public(&self, y: usize) -> F { if y == 0 { F::ONE } else if y <= self.outs.len() { self.outs[self.outs.len() - y] } else { F::ZERO } }
    /// Power of X for a wire, in the wiring polynomial.
    pub fn xexp(n: usize, g: usize, k: usize) -> usize { match k { 0 => 2 * n - 1 - g, 1 => 2 * n + g, 2 => 4 * n - 1 - g, _ => g } }
    /// Power of X for a wire, in a trace.
    pub fn texp(n: usize, g: usize, k: usize) -> usize { 4 * n - 1 - Self::xexp(n, g, k) }
    /// Dense trace with the given blinding value.
    pub fn trace(&self, n: usize, alpha: F) -> Vec<F> {
        let mut o = vec![F::ZERO; 4 * n];
        for (g, v) in self.vals.iter().enumerate() { for k in 0..4 { o[Self::texp(n, g, k)] = v[k]; } }
        o[Self::texp(n, 0, 3)] = alpha;
        o
    }
    /// s(X, y), s(x, Y), s(x, y).
    pub fn sy(&self, n: usize, y: F) -> Vec<F> { let mut o = vec![F::ZERO; 4 * n]; let pw = powers(y, 4 * n); for (e, t) in &self.lin { for ((g, k), c) in t { o[Self::xexp(n, *g, *k)] += *c * pw[*e]; } } o }
    pub fn sx(&self, n: usize, x: F) -> Vec<F> { let mut o = vec![F::ZERO; 4 * n]; let pw = powers(x, 4 * n); for (e, t) in &self.lin { for ((g, k), c) in t { o[*e] += *c * pw[Self::xexp(n, *g, *k)]; } } o }
}
pub fn powers<F: PrimeField>(x: F, n: usize) -> Vec<F> { let mut o = Vec::with_capacity(n); let mut c = F::ONE; for _ in 0..n { o.push(c); c *= x; } o }
pub fn eval<F: PrimeField>(c: &[F], x: F) -> F { c.iter().rev().fold(F::ZERO, |a, c| a * x + *c) }
pub fn dot<F: PrimeField>(a: &[F], b: &[F]) -> F { a.iter().zip(b).fold(F::ZERO, |s, (a, b)| s + *a * *b) }

/// The routines programs may call.
pub fn subs() -> Arc<Vec<Sub>> {
    use Op::*;
    use Val::*;
    let s = |name, known, ops, outs| Sub { name, ops, outs, known };
    let t = Lc::T;
    Arc::new(vec![
        s("identity", false, vec![], [1, 0]),
        s("identity, known", true, vec![], [0, 1]),
        s("one alloc", false, vec![Alloc(Aux)], [0, 1]),
        s("one alloc, known", true, vec![Alloc(Aux)], [0, 2]),
        s("product", false, vec![Mul(0, 1)], [0, 2]),
        s("product, known", true, vec![Mul(1, 0), Alloc(K(4))], [1, 0]),
        s("constraint only", false, vec![Zero(vec![t(0, Co::One), t(0, Co::Neg)]), Eq(1, 1)], [1, 2]),
        s("nested", false, vec![Alloc(Sum(0, 1)), Call(3, 0, 1), Alloc(K(9)), Call(4, 0, 2), Zero(vec![Lc::G(Co::Two), t(0, Co::Arb(3)), t(0, Co::NegArb(3))])], [0, 3]),
        s("nested, known", true, vec![Call(2, 1, 0), Call(5, 0, 1), Alloc(R(2)), Call(1, 0, 1)], [0, 4]),
        s("pairing", false, vec![Alloc(K(1)), Alloc(K(2)), Alloc(K(3))], [0, 1]),
        s("constants", true, vec![Const(Co::Arb(6)), Add(vec![Lc::One(Co::Two), Lc::G(Co::Neg), t(0, Co::One), t(1, Co::Arb(5))])], [0, 1]),
    ])
}
/// Steps of the exhaustive families.
pub fn steps(n_subs: usize) -> Vec<Op> {
    use Op::*;
    use Val::*;
    let t = Lc::T;
    let mut v = vec![
        Alloc(In(0)), Alloc(Sum(0, 1)), Mul(0, 1), Mul(1, 1), RawMul(K(2), In(1), Prod(0, 0)), Gate(K(0), In(0), K(0), In(1)), Gate(K(3), K(4), K(12), K(0)),
        Const(Co::Arb(3)), Const(Co::Zero),
        Add(vec![]), Add(vec![t(0, Co::One), t(1, Co::Neg)]), Add(vec![t(0, Co::Two), Lc::G(Co::Two), t(1, Co::Arb(3)), Lc::G(Co::Neg), Lc::One(Co::Two)]), Add(vec![t(0, Co::One), t(0, Co::NegArb(4)), t(2, Co::Zero)]),
        Zero(vec![]), Zero(vec![t(0, Co::One), t(0, Co::Neg)]), Zero(vec![Lc::G(Co::Arb(5)), t(0, Co::One), Lc::G(Co::Neg), t(1, Co::Two), Lc::One(Co::NegArb(2))]), Eq(0, 1), Eq(0, 0),
    ];
    for k in 0..n_subs { v.push(Call(k, 0, 1)); }
    v
}
/// Programs with every form of coefficient wherever one is taken.
pub fn forms() -> Vec<Vec<Op>> {
    use Co::*;
    use Op::*;
    use Lc::{G, T};
    let all = [Co::Zero, Co::One, Two, Neg, Arb(0), Arb(1), Arb(5), NegArb(0), NegArb(1), NegArb(7)];
    let few = [Co::Zero, Co::One, Two, Neg, Arb(5), NegArb(7)];
    let c = Val::C;
    let mut v = vec![];
    for f in all { for g in all {
        v.push(vec![Alloc(c(f)), Alloc(c(g)), Mul(0, 1)]);
        v.push(vec![Const(f), Const(g), Mul(0, 1), Eq(0, 1)]);
        for h in all {
            v.push(vec![Const(f), Add(vec![G(g), T(0, h)]), Alloc(Val::R(0)), Eq(0, 1)]);
            v.push(vec![Add(vec![Lc::One(f), G(g), Lc::One(h)]), Alloc(Val::R(0)), Eq(0, 1)]);
            v.push(vec![Alloc(Val::In(0)), Op::Zero(vec![T(0, f), G(g), Lc::One(h)])]);
            v.push(vec![Alloc(Val::In(0)), Alloc(Val::In(1)), Op::Zero(vec![G(f), T(0, g), T(1, h), T(0, f)])]);
            v.push(vec![RawMul(c(f), c(g), c(h))]);
            v.push(vec![Alloc(Val::In(0)), Op::Zero(vec![T(0, Co::One), G(f), G(g), T(0, h)])]);
            v.push(vec![Alloc(Val::In(0)), Add(vec![Lc::One(Two), G(f), T(0, g), G(h), T(0, Neg), Lc::One(Arb(3))]), Alloc(Val::R(0)), Eq(0, 1)]);
        }
    } }
    for f in few { for g in few { for h in few { for k in few {
        v.push(vec![Gate(c(f), c(g), c(h), c(k))]);
        v.push(vec![Alloc(Val::In(0)), Alloc(Val::In(1)), Add(vec![T(0, f), T(1, g), G(h), T(0, k)]), Add(vec![T(0, g), G(k), T(1, f), Lc::One(h)]), Alloc(Val::R(0)), Eq(0, 1)]);
    } } } }
    v
}
/// Combinations of up to `most` terms, with one or two gains at every position.
pub fn long_forms(most: usize) -> Vec<Vec<Op>> {
    use Op::*;
    use Lc::{G, T};
    let cos = [Co::One, Co::Neg, Co::Arb(3), Co::Zero, Co::Two, Co::NegArb(5), Co::One];
    let gains = [Co::Neg, Co::Arb(7), Co::Zero];
    let mut v = vec![];
    for n in 1..=most { for at in 0..=n { for (g, gain) in gains.iter().enumerate() { for second in [None, Some(n)] { for same in [false, true] {
        let mut terms = vec![];
        for i in 0..=n {
            if i == at { terms.push(G(*gain)); }
            if second.map(|s| s / 2) == Some(i) { terms.push(G(Co::Two)); }
            if i < n { terms.push(if !same && i % 5 == 4 { Lc::One(cos[i % 7]) } else { T(if same { 0 } else { i % 4 }, cos[(i + g) % 7]) }); }
        }
        let start = [Alloc(Val::In(0)), Alloc(Val::In(1)), Mul(0, 1), Const(Co::Arb(4))];
        v.push([&start[..], &[Add(terms.clone()), Alloc(Val::R(0)), Eq(0, 1)]].concat());
        v.push([&start[..], &[Zero(terms)]].concat());
    } } } } }
    v
}
/// Two calls of routines of every shape, with allocations around them.
pub fn shapes(n_subs: usize) -> Vec<Vec<Op>> {
    use Op::*;
    let mut v = vec![];
    for k in 0..n_subs { for s in 0..SHAPES.len() { for pre in 0..3 {
        let a: Vec<Op> = (0..pre).map(|i| Alloc(Val::In(i % 2))).collect();
        v.push([&a[..], &[Shaped(k, s, 0, 1), Alloc(Val::K(2)), Alloc(Val::R(0)), Eq(0, 1)]].concat());
        for (k2, s2) in [(3, 4), (9, 6), (10, 2), (k, (s + 1) % SHAPES.len()), (7, s)] { for mid in 0..2 {
            let mut p = [&a[..], &[Shaped(k, s, 0, 1)]].concat();
            if mid > 0 { p.push(Alloc(Val::K(6))); }
            p.extend([Shaped(k2, s2, 1, 0), Alloc(Val::In(1)), Mul(0, 1), Alloc(Val::K(3))]);
            v.push(p);
        } }
    } } }
    v
}
/// Many calls in a row, at one level or below one another.
pub fn crowds(n_subs: usize, most: usize) -> Vec<Vec<Op>> {
    use Op::*;
    let mut v = vec![];
    for m in 2..=most { for a in 0..n_subs { for b in [a, 0, 6, 3] { for end in 0..2 {
        let mut p = vec![Alloc(Val::In(0))];
        for i in 0..m { p.push(Call(if i % 3 == 2 { b } else { a }, i % 2, (i + 1) % 3)); }
        if end > 0 { p.extend([Alloc(Val::In(1)), Zero(vec![Lc::T(0, Co::Two), Lc::T(0, Co::Neg), Lc::T(0, Co::Neg)])]); }
        v.push(p);
    } } } }
    v
}
/// Routines nested up to `most` deep, each level predicted or not, with
/// predicted and unpredicted routines on either side of the next level.
pub fn towers(most: usize) -> Vec<Prog> {
    use Op::*;
    let (leaf, known) = (0usize, 1usize);
    let sides: [&[usize]; 5] = [&[], &[leaf], &[known], &[known, leaf], &[leaf, known]];
    let mut v = vec![];
    for depth in 1..=most { for mask in 0..1u32 << depth { for pre in &sides[..3] { for post in sides {
        let mut subs = vec![Sub { name: "leaf", known: false, ops: vec![Alloc(Val::Aux)], outs: [0, 1] }, Sub { name: "leaf, known", known: true, ops: vec![Alloc(Val::Sum(0, 1))], outs: [0, 2] }];
        for level in 0..depth {
            let mut ops: Vec<Op> = pre.iter().map(|k| Call(*k, 0, 1)).collect();
            if level + 1 < depth { ops.push(Call(level + 3, 1, 0)); }
            ops.extend(post.iter().map(|k| Call(*k, 0, 1)));
            ops.push(Zero(vec![Lc::T(0, Co::Arb(level as u64 + 2)), Lc::T(0, Co::NegArb(level as u64 + 2))]));
            subs.push(Sub { name: "level", known: mask >> level & 1 == 1, ops, outs: [0, 1] });
        }
        v.push(Prog { ops: vec![Alloc(Val::In(0)), Alloc(Val::In(1)), Call(2, 0, 1), Alloc(Val::Sum(0, 1))], outs: vec![0, 1], subs: Arc::new(subs) });
    } } } }
    v
}
/// All step sequences of exactly this length.
pub fn sequences(steps: &[Op], len: usize) -> Vec<Vec<Op>> { let mut v = vec![vec![]]; for _ in 0..len { v = v.into_iter().flat_map(|p| steps.iter().map(move |s| { let mut q = p.clone(); q.push(s.clone()); q })).collect(); } v }

/// The i-th of them.
pub fn sequence(steps: &[Op], len: usize, mut i: u64) -> Vec<Op> { let mut v = vec![]; for _ in 0..len { v.push(steps[(i % steps.len() as u64) as usize].clone()); i /= steps.len() as u64; } v.reverse(); v }
pub fn n_sequences(steps: &[Op], len: usize) -> u64 { (steps.len() as u64).pow(len as u32) }

/// The program as a circuit over stages, without stages of its own.
#[derive(Clone, Debug)]
pub struct Bond<const N: usize>(pub Prog);
impl<F: PrimeField, R: ragu_circuits::polynomials::Rank, const N: usize> ragu_circuits::staging::MultiStageCircuit<F, R> for Bond<N> {
    type Last = ();
    type Instance<'source> = Vec<F>;
    type Witness<'source> = Vec<F>;
    type Output = Kind![F; FixedVec<Element<'_, _>, ConstLen<N>>];
    type Aux<'source> = ();
    fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::Output>> where Self: 'dr {
        FixedVec::try_from_fn(|i| Element::alloc(dr, instance.as_ref().map(|v| v[i])))
    }
    fn witness<'a, 'dr, 'source: 'dr, D: Driver<'dr, F = F>>(&self, dr: ragu_circuits::staging::StageBuilder<'a, 'dr, D, R, (), ()>, witness: DriverValue<D, Vec<F>>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> where Self: 'dr {
        let dr = dr.finish();
        let aux = D::just(|| F::ZERO);
        // There is no wire to start from: the first operation must allocate.
        let mut w = vec![];
        interp(&self.0, &self.0.ops, dr, &mut w, &Env { ins: &witness, aux: &aux })?;
        Ok(WithAux::new(FixedVec::from_fn(|i| at(&w, self.0.outs[i]).clone()), D::unit()))
    }
}
#[macro_export]
macro_rules! bond {
    ($p:expr, $c:ident => $e:expr) => {{ let p: &$crate::prog::Prog = $p; match p.outs.len() {
        0 => { let $c = $crate::prog::Bond::<0>(p.clone()); $e }
        1 => { let $c = $crate::prog::Bond::<1>(p.clone()); $e }
        _ => { let $c = $crate::prog::Bond::<2>(p.clone()); $e }
    } }};
}
/// Routines without gates and constants.
pub fn linear_subs() -> Arc<Vec<Sub>> {
    use Op::*;
    let t = Lc::T;
    let s = |name, known, ops, outs| Sub { name, ops, outs, known };
    Arc::new(vec![
        s("constraint", false, vec![Zero(vec![t(0, Co::Two), t(1, Co::Neg)]), Eq(0, 1)], [1, 0]),
        s("sum, known", true, vec![Add(vec![t(0, Co::Arb(3)), t(1, Co::Neg)]), Zero(vec![t(0, Co::One)])], [0, 1]),
        s("alloc", false, vec![Alloc(Val::K(0)), Zero(vec![t(0, Co::One), t(1, Co::Arb(4))])], [0, 2]),
        s("nested", false, vec![Call(0, 0, 1), Call(2, 1, 0), Zero(vec![t(0, Co::One), t(3, Co::Two)])], [0, 1]),
    ])
}
