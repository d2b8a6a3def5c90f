//! Linked into the generated programs: a recording driver, hand-written leaf
//! gadgets, and the comparison of what derived code does with what each
//! structure's declaration says it must do.
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_core::convert::WireMap;
use ragu_core::drivers::{Driver, DriverTypes, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};
use ragu_core::{Error, Result};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Write};
use ragu_primitives::Element;
use std::collections::BTreeMap;
use std::marker::PhantomData;

pub type F = kit::tiny::Tiny<97>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct W(pub u64);

#[derive(Default)]
pub struct Lc { gain: F, terms: BTreeMap<u64, F> }
impl Lc { fn new() -> Self { Lc { gain: F::ONE, terms: BTreeMap::new() } } }
impl LinearExpression<W, F> for Lc {
    fn add_term(mut self, w: &W, c: Coeff<F>) -> Self { *self.terms.entry(w.0).or_insert(F::ZERO) += c.value() * self.gain; self }
    fn gain(mut self, c: Coeff<F>) -> Self { self.gain *= c.value(); self }
}

/// Driver recording the linear constraints placed on opaque wires.
pub struct Rec<K> { pub log: Vec<Vec<(u64, u64)>>, pub fail_at: Option<usize>, _k: PhantomData<K> }
impl<K> Default for Rec<K> { fn default() -> Self { Rec { log: vec![], fail_at: None, _k: PhantomData } } }
impl<K: MaybeKind> DriverTypes for Rec<K> {
    type ImplField = F;
    type ImplWire = W;
    type MaybeKind = K;
    type LCadd = Lc;
    type LCenforce = Lc;
    fn gate(&mut self, _: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(W, W, W, W)> { self.log.push(vec![(u64::MAX, 0)]); Ok((W(u64::MAX), W(u64::MAX), W(u64::MAX), W(u64::MAX))) }
}
/// A linear constraint, up to scaling.
fn canon(t: BTreeMap<u64, F>) -> Vec<(u64, u64)> {
    let t: Vec<(u64, F)> = t.into_iter().filter(|(_, c)| !bool::from(c.is_zero())).collect();
    let Some((_, lead)) = t.first() else { return vec![] };
    let inv = lead.invert().unwrap();
    t.iter().map(|(w, c)| (*w, (*c * inv).v() as u64)).collect()
}
impl<'dr, K: MaybeKind> Driver<'dr> for Rec<K> {
    type F = F;
    type Wire = W;
    const ONE: W = W(u64::MAX - 1);
    fn add(&mut self, lc: impl Fn(Lc) -> Lc) -> W { self.log.push(canon(lc(Lc::new()).terms)); W(u64::MAX - 2) }
    fn enforce_zero(&mut self, lc: impl Fn(Lc) -> Lc) -> Result<()> {
        if self.fail_at == Some(self.log.len()) { return Err(Error::InvalidWitness("stop".into())); }
        self.log.push(canon(lc(Lc::new()).terms));
        Ok(())
    }
}
pub type Dr = Rec<Always<()>>;
pub type Dn = Rec<Empty>;

/// One-wire gadget, written by hand.
pub struct Leaf<'dr, D: Driver<'dr>>(pub D::Wire, pub PhantomData<&'dr ()>);
pub struct LeafKind;
impl<'dr, D: Driver<'dr>> Clone for Leaf<'dr, D> { fn clone(&self) -> Self { Leaf(self.0.clone(), PhantomData) } }
impl<'dr, D: Driver<'dr>> Gadget<'dr, D> for Leaf<'dr, D> { type Kind = LeafKind; }
unsafe impl<G: Field> GadgetKind<G> for LeafKind {
    type Rebind<'dr, D: Driver<'dr, F = G>> = Leaf<'dr, D>;
    fn map_gadget<'s, 'd, WM: WireMap<G, Src: Driver<'s, F = G>, Dst: Driver<'d, F = G>>>(t: &Bound<'s, WM::Src, Self>, wm: &mut WM) -> Result<Bound<'d, WM::Dst, Self>> { Ok(Leaf(wm.convert_wire(&t.0)?, PhantomData)) }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = G>, D2: Driver<'dr, F = G, Wire = <D1 as Driver<'dr>>::Wire>>(dr: &mut D1, a: &Bound<'dr, D2, Self>, b: &Bound<'dr, D2, Self>) -> Result<()> { dr.enforce_zero(|lc| lc.add(&a.0).sub(&b.0)) }
}
impl<G: Field> Write<G> for LeafKind {
    fn write_gadget<'dr, D: Driver<'dr, F = G>, B: Buffer<'dr, D>>(t: &Bound<'dr, D, Self>, dr: &mut D, buf: &mut B) -> Result<()> {
        buf.write(dr, &Element::promote(t.0.clone(), D::just(|| G::ONE)))
    }
}
/// Marks the leaf's consistency with the constraint `wire = 0`.
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Leaf<'dr, D> { fn enforce_consistent(&self, dr: &mut D) -> Result<()> { dr.enforce_zero(|lc| lc.add(&self.0)) } }

pub trait Mark<G: Field> {}
pub struct Tag;
impl<G: Field> Mark<G> for Tag {}
pub trait Mark2<G: Field, T> {}
impl<G: Field, T> Mark2<G, T> for Tag {}
pub trait HasOut { type Out; }
impl HasOut for Tag { type Out = F; }
pub trait Mark3<G> {}
impl Mark3<F> for F {}

/// Everything a structure contains, in declaration order.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    /// a wire outside nested gadgets
    Wire(u64),
    /// a nested leaf; `true` if it is written
    Leaf(u64, bool),
    Value(u64),
}

/// Supplies fresh wires and values.
pub struct Src<K> { n: u64, _k: PhantomData<K> }
impl<K: MaybeKind> Src<K> {
    pub fn new(base: u64) -> Self { Src { n: base, _k: PhantomData } }
    fn next(&mut self) -> u64 { self.n += 1; self.n }
    pub fn wire(&mut self) -> W { W(self.next()) }
    pub fn leaf(&mut self) -> Leaf<'static, Rec<K>> { Leaf(self.wire(), PhantomData) }
    pub fn value(&mut self) -> Perhaps<K, u64> { let v = self.next(); K::maybe_just(|| v) }
    pub fn string(&mut self) -> Perhaps<K, String> { let v = self.next(); K::maybe_just(|| v.to_string()) }
    pub fn felt(&mut self) -> Perhaps<K, F> { let v = self.next(); K::maybe_just(|| F::from(v)) }
}
pub struct Flat(pub Vec<Item>);
impl Flat {
    pub fn w(&mut self, w: &W) { self.0.push(Item::Wire(w.0)) }
    pub fn l(&mut self, l: &Leaf<'static, Dr>) { self.0.push(Item::Leaf(l.0.0, true)) }
    pub fn s(&mut self, l: &Leaf<'static, Dr>) { self.0.push(Item::Leaf(l.0.0, false)) }
    pub fn v(&mut self, v: &Always<u64>) { self.0.push(Item::Value(*v.snag())) }
    pub fn t(&mut self, v: &Always<String>) { self.0.push(Item::Value(v.snag().parse().unwrap())) }
    pub fn f(&mut self, v: &Always<F>) { self.0.push(Item::Value(v.snag().v() as u64)) }
}

pub struct Shift<S, D> { pub seen: Vec<u64>, pub fail_at: Option<usize>, _p: PhantomData<(S, D)> }
impl<S, D> Shift<S, D> { fn new(fail_at: Option<usize>) -> Self { Shift { seen: vec![], fail_at, _p: PhantomData } } }
impl<S: DriverTypes<ImplField = F, ImplWire = W>, D: DriverTypes<ImplField = F, ImplWire = W>> WireMap<F> for Shift<S, D> {
    type Src = S;
    type Dst = D;
    fn convert_wire(&mut self, w: &W) -> Result<W> {
        let at = self.seen.len();
        self.seen.push(w.0);
        if self.fail_at == Some(at) { return Err(Error::InvalidWitness("stop".into())); }
        Ok(W(w.0 + 1000))
    }
}

#[derive(Default)]
pub struct Collect(pub Vec<u64>, pub Option<usize>);
impl<K: MaybeKind> Buffer<'static, Rec<K>> for Collect {
    fn write(&mut self, _: &mut Rec<K>, e: &Element<'static, Rec<K>>) -> Result<()> {
        if self.1 == Some(self.0.len()) { return Err(Error::InvalidWitness("stop".into())); }
        self.0.push(e.wire().0);
        Ok(())
    }
}

/// Counts of what was explored, printed at the end of each program.
#[derive(Default)]
pub struct Rep { pub structs: u64, pub runs: u64, pub bad: Vec<String> }
impl Rep {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, name: &str, what: &str, got: T, want: T) {
        self.runs += 1;
        if got != want { self.bad.push(format!("BAD\t{name}\t{what}: got {got:?}, expected {want:?}")); }
    }
    pub fn finish(self) { for b in &self.bad { println!("{}", b.replace('\n', " ")); } println!("DONE\t{}\t{}", self.structs, self.runs); }
    pub fn kind<A: 'static, B: 'static>(&mut self, name: &str, what: &str) { self.eq(name, what, std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>(), true) }
}

fn stop(r: &Result<()>) -> bool { matches!(r, Err(Error::InvalidWitness(e)) if e.to_string() == "stop") }

/// Checks one derived structure: `mk` builds an instance whose fields hold
/// consecutive numbers in declaration order, `flat` reads it back field by field.
pub fn check<K, K0>(r: &mut Rep, name: &str, derives: (bool, bool), mk: impl Fn(&mut Src<Always<()>>) -> Bound<'static, Dr, K>, mk0: impl Fn(&mut Src<Empty>) -> Bound<'static, Dn, K0>, flat: impl Fn(&Bound<'static, Dr, K>, &mut Flat))
where
    K: GadgetKind<F> + MaybeWrite<K>,
    K0: GadgetKind<F>,
    Bound<'static, Dr, K>: Gadget<'static, Dr, Kind = K> + MaybeConsistent,
{
    r.structs += 1;
    let items = |g: &Bound<'static, Dr, K>| { let mut f = Flat(vec![]); flat(g, &mut f); f.0 };
    let a = mk(&mut Src::new(100));
    let b = mk(&mut Src::new(300));
    let (ia, ib) = (items(&a), items(&b));
    let wires = |i: &[Item]| i.iter().filter_map(|x| match x { Item::Wire(w) | Item::Leaf(w, _) => Some(*w), _ => None }).collect::<Vec<_>>();
    let shifted: Vec<Item> = ia.iter().map(|x| match x { Item::Wire(w) => Item::Wire(w + 1000), Item::Leaf(w, s) => Item::Leaf(w + 1000, *s), v => v.clone() }).collect();
    r.eq(name, "clone", items(&a.clone()), ia.clone());
    r.eq(name, "original after clone", items(&a), ia.clone());
    // conversion
    let mut wm = Shift::<Dr, Dr>::new(None);
    match a.map(&mut wm) {
        Ok(m) => r.eq(name, "converted contents", items(&m), shifted.clone()),
        Err(e) => r.eq(name, "conversion", format!("{e:?}"), "Ok".into()),
    }
    r.eq(name, "converted wires", wm.seen, wires(&ia));
    for k in 0..wires(&ia).len() {
        let mut wm = Shift::<Dr, Dr>::new(Some(k));
        let e = a.map(&mut wm).map(|_| ());
        r.eq(name, "failing conversion", (stop(&e), wm.seen.len()), (true, k + 1));
    }
    r.eq(name, "number of wires", a.num_wires().ok(), Some(wires(&ia).len()));
    let mut wm = Shift::<Dr, Dn>::new(None);
    let gone = K::map_gadget(&a, &mut wm).map(|_| ());
    r.eq(name, "wires converted to a witness-free driver", (gone.is_ok(), wm.seen), (true, wires(&ia)));
    // without witness
    let z = mk0(&mut Src::new(100));
    let z2 = z.clone();
    let mut wm = Shift::<Dn, Dn>::new(None);
    let ok = K0::map_gadget(&z2, &mut wm).is_ok();
    r.eq(name, "witness-free conversion", (ok, wm.seen), (true, wires(&ia)));
    // equality
    let want = |n: usize| { let mut v: Vec<Vec<(u64, u64)>> = wires(&ia).iter().zip(wires(&ib)).take(n).map(|(x, y)| vec![(*x, 1), (y, 96)]).collect(); v.sort(); v };
    let mut dr = Dr::default();
    let e = a.enforce_equal(&mut dr, &b);
    let mut log = dr.log;
    log.sort();
    r.eq(name, "equality constraints", (e.is_ok(), log), (true, want(usize::MAX)));
    for k in 0..wires(&ia).len() {
        let mut dr = Dr { fail_at: Some(k), ..Default::default() };
        let e = a.enforce_equal(&mut dr, &b);
        r.eq(name, "failing equality", (stop(&e), dr.log.len()), (true, k));
    }
    // serialization
    if derives.0 {
        let want: Vec<u64> = ia.iter().filter_map(|x| match x { Item::Leaf(w, true) => Some(*w), _ => None }).collect();
        for k in 0..=want.len() {
            let mut buf = Collect(vec![], Some(k));
            let mut dr = Dr::default();
            let e = K::write_it(&a, &mut dr, &mut buf);
            r.eq(name, "serialization", (buf.0, dr.log.len(), stop(&e)), (want[..k].to_vec(), 0, k < want.len()));
        }
    }
    // consistency
    if derives.1 {
        let mut want: Vec<Vec<(u64, u64)>> = ia.iter().filter_map(|x| match x { Item::Leaf(w, _) => Some(vec![(*w, 1)]), _ => None }).collect();
        want.sort();
        for k in 0..=want.len() {
            let mut dr = Dr { fail_at: Some(k), ..Default::default() };
            let e = a.consist(&mut dr);
            r.eq(name, "failing consistency", (stop(&e), dr.log.len()), (k < want.len(), k));
            if k == want.len() { let mut log = dr.log; log.sort(); r.eq(name, "consistency constraints", log, want.clone()); }
        }
    }
}
pub trait MaybeWrite<K: GadgetKind<F>> { fn write_it(g: &Bound<'static, Dr, K>, dr: &mut Dr, buf: &mut Collect) -> Result<()>; }
impl<K: Write<F>> MaybeWrite<K> for K { fn write_it(g: &Bound<'static, Dr, K>, dr: &mut Dr, buf: &mut Collect) -> Result<()> { K::write_gadget(g, dr, buf) } }
pub trait MaybeConsistent { fn consist(&self, dr: &mut Dr) -> Result<()>; }
impl<G: Consistent<'static, Dr>> MaybeConsistent for G { fn consist(&self, dr: &mut Dr) -> Result<()> { self.enforce_consistent(dr) } }
pub fn value_of<'dr, D: Driver<'dr>, T: Send + Clone>(v: &DriverValue<D, T>) -> DriverValue<D, T> { Maybe::clone(v) }
