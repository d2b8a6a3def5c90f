//! C02: gadget conversions and equality over all nestings of the container
//! constructors up to a depth, with a failing conversion at every position.
use kit::{tiny::Tiny, CellCtx, Ctx};
use ragu_arithmetic::Coeff;
use ragu_core::convert::{CloneWires, StripWires, WireMap};
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::drivers::{Driver, DriverTypes, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::{Error, Result};
use ragu_primitives::promotion::{Demoted, DemotedDriver};
use ragu_primitives::vec::{ConstLen, FixedVec};
use std::collections::BTreeSet;
use std::marker::PhantomData;

type F = Tiny<13>;

/// A driver whose wires are identifiers and which records enforced equations.
pub struct Rec<const TAG: usize, K = Always<()>> { pub eqs: Vec<Vec<(u64, F)>>, pub fail_at: Option<usize>, _k: PhantomData<K> }
impl<const T: usize, K> Rec<T, K> { fn new() -> Self { Rec { eqs: vec![], fail_at: None, _k: PhantomData } } }
pub struct Terms(Vec<(u64, F)>, F);
impl LinearExpression<u64, F> for Terms {
    fn add_term(mut self, w: &u64, c: Coeff<F>) -> Self { self.0.push((*w, c.value() * self.1)); self }
    fn gain(mut self, c: Coeff<F>) -> Self { self.1 *= c.value(); self }
}
impl<const T: usize, K: MaybeKind> DriverTypes for Rec<T, K> {
    type ImplField = F; type ImplWire = u64; type MaybeKind = K; type LCadd = Terms; type LCenforce = Terms;
    fn gate(&mut self, _: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(u64, u64, u64, u64)> { Err(Error::InvalidWitness("no gates expected".into())) }
}
impl<'dr, const T: usize, K: MaybeKind> Driver<'dr> for Rec<T, K> {
    type F = F; type Wire = u64; const ONE: u64 = u64::MAX;
    fn add(&mut self, _: impl Fn(Terms) -> Terms) -> u64 { unreachable!() }
    fn enforce_zero(&mut self, lc: impl Fn(Terms) -> Terms) -> Result<()> {
        if self.fail_at == Some(self.eqs.len()) { return Err(Error::InvalidWitness("marker 77".into())); }
        let t = lc(Terms(vec![], Tiny::new(1)));
        self.eqs.push(t.0);
        Ok(())
    }
}

// ---- leaf gadgets (derived by hand through the public traits only) ----
pub struct Leaf<'dr, D: Driver<'dr>, const N: usize> { w: [D::Wire; N], v: DriverValue<D, u64> }
impl<'dr, D: Driver<'dr>, const N: usize> Clone for Leaf<'dr, D, N> { fn clone(&self) -> Self { Leaf { w: self.w.clone(), v: Maybe::clone(&self.v) } } }
impl<'dr, D: Driver<'dr>, const N: usize> Gadget<'dr, D> for Leaf<'dr, D, N> { type Kind = LeafKind<N>; }
pub struct LeafKind<const N: usize>;
unsafe impl<FF: ff::Field, const N: usize> GadgetKind<FF> for LeafKind<N> {
    type Rebind<'dr, D: Driver<'dr, F = FF>> = Leaf<'dr, D, N>;
    fn map_gadget<'s, 'd, WM: WireMap<FF, Src: Driver<'s, F = FF>, Dst: Driver<'d, F = FF>>>(this: &Leaf<'s, WM::Src, N>, wm: &mut WM) -> Result<Leaf<'d, WM::Dst, N>> {
        let mut w = Vec::new();
        for x in this.w.iter() { w.push(wm.convert_wire(x)?); }
        Ok(Leaf { w: w.try_into().unwrap_or_else(|_| unreachable!()), v: <DriverValue<WM::Dst, u64> as Maybe<u64>>::just(|| *this.v.snag()) })
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = FF>, D2: Driver<'dr, F = FF, Wire = <D1 as Driver<'dr>>::Wire>>(dr: &mut D1, a: &Leaf<'dr, D2, N>, b: &Leaf<'dr, D2, N>) -> Result<()> {
        for (x, y) in a.w.iter().zip(b.w.iter()) { dr.enforce_equal(x, y)?; }
        Ok(())
    }
}

/// Builds an instance with fresh wire identifiers and reads one back, written
/// out per constructor (the reference semantics of a nesting).
pub trait Shape: Sized {
    fn build(next: &mut u64) -> Self;
    fn read(&self, wires: &mut Vec<u64>, vals: &mut Vec<u64>);
}
impl<'dr, const T: usize, const N: usize> Shape for Leaf<'dr, Rec<T>, N> {
    fn build(next: &mut u64) -> Self { let w = core::array::from_fn(|_| { *next += 1; *next }); *next += 1; let v = *next * 1000; Leaf { w, v: Always::maybe_just(|| v) } }
    fn read(&self, wires: &mut Vec<u64>, vals: &mut Vec<u64>) { wires.extend(self.w); vals.push(*self.v.snag()); }
}
impl Shape for () { fn build(_: &mut u64) {} fn read(&self, _: &mut Vec<u64>, _: &mut Vec<u64>) {} }
impl<G: Shape, const N: usize> Shape for [G; N] {
    fn build(next: &mut u64) -> Self { core::array::from_fn(|_| G::build(next)) }
    fn read(&self, w: &mut Vec<u64>, v: &mut Vec<u64>) { for g in self { g.read(w, v); } }
}
impl<A: Shape, B: Shape> Shape for (A, B) {
    fn build(next: &mut u64) -> Self { let a = A::build(next); let b = B::build(next); (a, b) }
    fn read(&self, w: &mut Vec<u64>, v: &mut Vec<u64>) { self.0.read(w, v); self.1.read(w, v); }
}
impl<A: Shape> Shape for Box<A> {
    fn build(next: &mut u64) -> Self { Box::new(A::build(next)) }
    fn read(&self, w: &mut Vec<u64>, v: &mut Vec<u64>) { (**self).read(w, v); }
}
impl<G: Shape, const N: usize> Shape for FixedVec<G, ConstLen<N>> {
    fn build(next: &mut u64) -> Self { FixedVec::from_fn(|_| G::build(next)) }
    fn read(&self, w: &mut Vec<u64>, v: &mut Vec<u64>) { for i in 0..N { self[i].read(w, v); } }
}
/// The wires of a demoted leaf; it has no witness values.
impl<const T: usize, const N: usize> Shape for Leaf<'static, DemotedDriver<Rec<T>>, N> {
    fn build(_: &mut u64) -> Self { unreachable!() }
    fn read(&self, wires: &mut Vec<u64>, _: &mut Vec<u64>) { wires.extend(self.w); }
}
impl<const T: usize, G: Gadget<'static, Rec<T>> + Shape> Shape for Demoted<'static, Rec<T>, G> where Bound<'static, DemotedDriver<Rec<T>>, G::Kind>: Shape {
    fn build(next: &mut u64) -> Self { Demoted::new(&G::build(next)).unwrap() }
    fn read(&self, w: &mut Vec<u64>, v: &mut Vec<u64>) { (**self).read(w, v); }
}
fn read<S: Shape>(s: &S) -> (Vec<u64>, Vec<u64>) { let (mut w, mut v) = (vec![], vec![]); s.read(&mut w, &mut v); (w, v) }

/// Affine relabelling that logs what it converts and fails at a chosen call.
struct Relabel { log: Vec<u64>, fail_at: Option<usize> }
impl WireMap<F> for Relabel {
    type Src = Rec<0>; type Dst = Rec<1>;
    fn convert_wire(&mut self, w: &u64) -> Result<u64> {
        if self.fail_at == Some(self.log.len()) { return Err(Error::InvalidWitness(format!("marker {}", self.log.len()).into())); }
        self.log.push(*w);
        Ok(w + 1_000_000)
    }
}
/// From the world with witness values to the one without and with other wires.
struct Forget(Vec<u64>);
impl WireMap<F> for Forget {
    type Src = Rec<0>; type Dst = Rec<2, Empty>;
    fn convert_wire(&mut self, w: &u64) -> Result<u64> { self.0.push(*w); Ok(*w) }
}

fn pairs(e: &[Vec<(u64, F)>]) -> BTreeSet<(u64, u64)> {
    e.iter().map(|t| {
        let mut m = std::collections::BTreeMap::new();
        for (w, k) in t { *m.entry(*w).or_insert(Tiny::new(0)) += *k; }
        m.retain(|_, k| k.v() != 0);
        let v: Vec<_> = m.into_iter().collect();
        if v.len() == 2 && v[0].1 + v[1].1 == Tiny::new(0) { (v[0].0, v[1].0) } else { (u64::MAX, u64::MAX) }
    }).collect()
}

/// Everything observed about one nesting (no checking here: this part is
/// instantiated for every nesting).
struct Obs {
    g: (Vec<u64>, Vec<u64>), clone: (Vec<u64>, Vec<u64>), after: (Vec<u64>, Vec<u64>), num: Result1<usize>,
    conv: Result1<(Vec<u64>, Vec<u64>)>, log: Vec<u64>, forget: Vec<u64>, forget_ok: bool, fails: Vec<Option<String>>,
    cloned: Result1<(Vec<u64>, Vec<u64>)>, stripped: Result1<usize>,
    h: Vec<u64>, eq: Vec<Vec<(u64, F)>>, eq_ok: bool, eq2: Vec<Vec<(u64, F)>>, eq2_ok: bool, eq_fails: Vec<Option<String>>,
}
type Result1<T> = std::result::Result<T, String>;

impl Default for Obs {
    fn default() -> Self { let e = || Err("not observed".to_string()); Obs { g: Default::default(), clone: Default::default(), after: Default::default(), num: e().map(|_: ()| 0), conv: e().map(|_: ()| Default::default()), log: vec![], forget: vec![], forget_ok: false, fails: vec![], cloned: e().map(|_: ()| Default::default()), stripped: e().map(|_: ()| 0), h: vec![], eq: vec![], eq_ok: false, eq2: vec![], eq2_ok: false, eq_fails: vec![] } }
}
fn msg<T>(r: Result<T>) -> Result1<T> { r.map_err(|e| e.to_string()) }
fn nesting<G>() -> Obs
where
    G: Gadget<'static, Rec<0>> + Shape,
    Bound<'static, Rec<1>, G::Kind>: Shape,
{
    let mut n = 0;
    let g = G::build(&mut n);
    let mut o = Obs { g: read(&g), clone: read(&g.clone()), num: msg(g.num_wires()), ..Obs::default() };
    let k = o.g.0.len();
    for fail_at in (0..=k).rev() {
        let mut r = Relabel { log: vec![], fail_at: Some(fail_at) };
        let res = msg(g.map(&mut r));
        if fail_at == k { o.conv = res.map(|h| read(&h)); o.log = r.log; } else { o.fails.push(res.err()); }
    }
    o.after = read(&g);
    let mut f = Forget(vec![]);
    o.forget_ok = g.map(&mut f).is_ok();
    o.forget = f.0;
    let c: Result<Bound<'static, Rec<1>, G::Kind>> = CloneWires::<Rec<0>, Rec<1>>::remap(&g);
    o.cloned = msg(c).map(|h| read(&h));
    let s: Result<Bound<'static, Emulator<Wireless<Always<()>, F>>, G::Kind>> = StripWires::<Rec<0>>::remap(&g);
    o.stripped = msg(s.and_then(|s| s.num_wires()));
    let h = G::build(&mut n);
    o.h = read(&h).0;
    let mut dr = Rec::<3>::new();
    o.eq2_ok = g.enforce_equal(&mut dr, &h).is_ok();
    o.eq2 = dr.eqs;
    for fail_at in (0..=k).rev() {
        let mut dr = Rec::<0>::new();
        dr.fail_at = Some(fail_at);
        let res = msg(g.enforce_equal(&mut dr, &h));
        if fail_at == k { o.eq_ok = res.is_ok(); o.eq = dr.eqs; } else { o.eq_fails.push(res.err()); }
    }
    o
}

fn judge(c: &CellCtx, name: &str, o: Option<Obs>) {
    let Some(mut o) = o else { return };
    let key = |what: &str| format!("{name}: {what}");
    let (w, v) = o.g.clone();
    c.same(&o.clone, &o.g, || key("clone"));
    c.same(&o.num, &Ok(w.len()), || key("number of wires"));
    c.same(&o.log, &w, || key("wires converted once each, in order"));
    c.same(&o.conv, &Ok((w.iter().map(|x| x + 1_000_000).collect(), v.clone())), || key("converted gadget"));
    c.same(&o.after, &o.g, || key("source unchanged"));
    c.same(&o.forget_ok, &true, || key("conversion without values"));
    c.same(&o.forget, &w, || key("conversion without values"));
    o.fails.reverse();
    for (k, e) in o.fails.iter().enumerate() { c.check(e.as_ref().is_some_and(|e| e.contains(&format!("marker {k}"))), || key(&format!("conversion failing at wire {k}")), || format!("result {e:?}")); c.tick(); }
    c.same(&o.cloned, &Ok((w.clone(), v.clone())), || key("cloning conversion"));
    c.same(&o.stripped, &Ok(w.len()), || key("stripping conversion"));
    let want: BTreeSet<(u64, u64)> = w.iter().zip(&o.h).map(|(a, b)| (*a.min(b), *a.max(b))).collect();
    c.same(&(o.eq_ok, o.eq2_ok), &(true, true), || key("equality"));
    c.same(&pairs(&o.eq), &want, || key("equality constraints"));
    c.same(&pairs(&o.eq2), &want, || key("equality constraints through another driver"));
    for (k, e) in o.eq_fails.iter().enumerate() { c.check(e.as_ref().is_some_and(|e| e.contains("marker 77")), || key(&format!("equality failing at constraint {k} from the end")), || format!("result {e:?}")); c.tick(); }
    c.states(7); c.transitions(7); c.traces(7);
    c.sample(|| format!("{name}: {} wires, {} values", w.len(), v.len()));
}

type L0 = Leaf<'static, Rec<0>, 0>;
type L1 = Leaf<'static, Rec<0>, 1>;
type L2 = Leaf<'static, Rec<0>, 2>;
type V<G, const N: usize> = FixedVec<G, ConstLen<N>>;
type Dm<G> = Demoted<'static, Rec<0>, G>;
macro_rules! d0 { ($m:ident, $($x:tt)*) => { $m!(() $($x)*); $m!(L0 $($x)*); $m!(L1 $($x)*); $m!(L2 $($x)*); } }
macro_rules! go { ($t:ty ; $c:expr) => { judge($c, stringify!($t), $c.guard(|| stringify!($t).to_string(), || nesting::<$t>())); } }
/// One more constructor around a type.
macro_rules! wrap { ($t:ty ; $c:expr) => {
    go!($t ; $c); go!([$t; 0] ; $c); go!([$t; 1] ; $c); go!([$t; 3] ; $c); go!(Box<$t> ; $c);
    go!(($t, L1) ; $c); go!((L2, $t) ; $c); go!(($t, $t) ; $c);
    go!(V<$t, 0> ; $c); go!(V<$t, 1> ; $c); go!(V<$t, 3> ; $c); go!(Dm<$t> ; $c);
} }
macro_rules! wrap2 { ($t:ty ; $c:expr) => {
    wrap!([$t; 2] ; $c); wrap!(Box<$t> ; $c); wrap!((L2, $t) ; $c); wrap!(($t, $t) ; $c);
} }

pub fn run(ctx: &Ctx) {
    ctx.assume("nestings up to the stated constructor depth; leaves with 0, 1 and 2 wires");
    ctx.cell("nestings to depth 2", |c| { d0!(wrap, ; c); });
    ctx.cell("nestings to depth 3", |c| { wrap2!(L1 ; c); wrap2!(L2 ; c); });
    ctx.cell("nestings to depth 4", |c| { wrap2!((L1, [L2; 2]) ; c); wrap!([Box<(L2, L0)>; 3] ; c); wrap!(Box<[(L1, ()); 2]> ; c); });
    ctx.cell("vectors and demoted gadgets", |c| {
        wrap!(V<L2, 2> ; c); wrap!(V<(L1, L2), 3> ; c); wrap!([V<L1, 2>; 2] ; c); wrap!(V<Box<L1>, 2> ; c); wrap!((V<L1, 2>, V<L2, 2>) ; c); wrap!(V<[L1; 2], 2> ; c);
        macro_rules! outer { ($t:ty) => { go!($t ; c); go!([$t; 3] ; c); go!(Box<$t> ; c); go!(($t, L1) ; c); go!((L2, $t) ; c); go!(($t, $t) ; c); go!(V<$t, 0> ; c); go!(V<$t, 3> ; c); } }
        outer!(Dm<L0>); outer!(Dm<L1>); outer!(Dm<L2>); outer!(Dm<[L2; 3]>); outer!(Dm<(L2, L1)>); outer!(Dm<Box<(L2, [L1; 2])>>); outer!(Dm<V<L2, 3>>); outer!(V<Dm<L2>, 4>); outer!((Dm<L1>, V<Dm<L1>, 2>)); outer!(Dm<()>);
        go!(V<L1, 2> ; c); go!(V<L1, 4> ; c); go!(V<L2, 5> ; c); go!(V<L1, 6> ; c); go!(V<L2, 7> ; c); go!(V<L1, 8> ; c); go!(V<L1, 9> ; c); go!(V<L2, 16> ; c); go!(V<L1, 33> ; c); go!(V<V<L2, 5>, 7> ; c); go!(Dm<[L1; 33]> ; c);
    });
    macro_rules! lengths { ($($n:literal)*) => { ctx.cell("every length", |c| { $( go!(V<L1, $n> ; c); go!([L1; $n] ; c); )* }); } }
    lengths!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 31 32 33 63 64 65 100 129 257);
    ctx.cell("long arrays", |c| { go!([L1; 17] ; c); go!([L2; 64] ; c); go!([[L1; 5]; 7] ; c); go!([(L1, L2); 33] ; c); });
}
