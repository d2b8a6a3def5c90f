//! P06: fixed-length collections, serialization, demotion and consistency,
//! over all nestings of the container constructors up to a depth.
use ff::Field;
use kit::tiny::{cycle7, Tiny};
use kit::{CellCtx, Ctx};
use mc_drv::{Collect, Cs, Fresh, Live, Values, Wire};
use ragu_arithmetic::PoseidonPermutation;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::drivers::Driver;
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_core::{Error, Result};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Pipe, Write};
use ragu_primitives::poseidon::{Sponge, SpongeState};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Boolean, Element, GadgetExt, Point};
use std::cell::Cell;

type F = Tiny<13>;
type C = cycle7::EqAffine;
type D = Cs<F, Live>;
type W = Wire<F>;
#[derive(Clone, Debug, PartialEq)]
enum Leaf { E(W), B(W), P(W, W) }

/// The reference content of a nesting, in order.
trait Shape: Sized {
    fn build(dr: &mut D, n: &mut u64) -> Self;
    fn leaves(&self, o: &mut Vec<Leaf>);
}
impl Shape for Element<'static, D> {
    fn build(dr: &mut D, n: &mut u64) -> Self { *n += 1; let v = F::new(*n * 5 + 2); Element::alloc(dr, Always::maybe_just(|| v)).unwrap() }
    fn leaves(&self, o: &mut Vec<Leaf>) { o.push(Leaf::E(self.wire().clone())); }
}
impl Shape for Boolean<'static, D> {
    fn build(dr: &mut D, n: &mut u64) -> Self { *n += 1; let v = *n % 2 == 0; Boolean::alloc(dr, Always::maybe_just(|| v)).unwrap() }
    fn leaves(&self, o: &mut Vec<Leaf>) { o.push(Leaf::B(self.wire().clone())); }
}
impl Shape for Point<'static, D, C> {
    fn build(dr: &mut D, n: &mut u64) -> Self { *n += 1; use group::{Curve, Group}; let g = <C as pasta_curves::arithmetic::CurveAffine>::CurveExt::generator(); let mut p = g; for _ in 0..*n % 5 { p += g; } Point::alloc(dr, Always::maybe_just(|| p.to_affine())).unwrap() }
    fn leaves(&self, o: &mut Vec<Leaf>) { let mut c = Collect::<F, Live>::default(); let _ = self.map(&mut c).unwrap(); assert_eq!(c.0.len(), 2); o.push(Leaf::P(c.0[0].clone(), c.0[1].clone())); }
}
impl Shape for () { fn build(_: &mut D, _: &mut u64) {} fn leaves(&self, _: &mut Vec<Leaf>) {} }
impl<G: Shape, const N: usize> Shape for [G; N] {
    fn build(dr: &mut D, n: &mut u64) -> Self { core::array::from_fn(|_| G::build(dr, n)) }
    fn leaves(&self, o: &mut Vec<Leaf>) { for g in self { g.leaves(o); } }
}
impl<A: Shape, B: Shape> Shape for (A, B) {
    fn build(dr: &mut D, n: &mut u64) -> Self { let a = A::build(dr, n); let b = B::build(dr, n); (a, b) }
    fn leaves(&self, o: &mut Vec<Leaf>) { self.0.leaves(o); self.1.leaves(o); }
}
impl<A: Shape> Shape for Box<A> {
    fn build(dr: &mut D, n: &mut u64) -> Self { Box::new(A::build(dr, n)) }
    fn leaves(&self, o: &mut Vec<Leaf>) { (**self).leaves(o); }
}
impl<A: Shape, L: Len> Shape for FixedVec<A, L> {
    fn build(dr: &mut D, n: &mut u64) -> Self { let v: Vec<A> = (0..L::len()).map(|_| A::build(dr, n)).collect(); FixedVec::new(v).unwrap() }
    fn leaves(&self, o: &mut Vec<Leaf>) { for i in 0..L::len() { self[i].leaves(o); } }
}
struct Pos;
impl PoseidonPermutation<F> for Pos {
    const T: usize = 3; const RATE: usize = 2; const FULL_ROUNDS: usize = 2; const PARTIAL_ROUNDS: usize = 1; const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> { const R: [[F; 3]; 3] = [[F::new(1), F::new(5), F::new(2)], [F::new(7), F::new(3), F::new(11)], [F::new(4), F::new(12), F::new(6)]]; R.iter().map(|r| &r[..]).collect::<Vec<&'static [F]>>().into_iter() }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> { const M: [[F; 3]; 3] = [[F::new(1), F::new(2), F::new(5)], [F::new(3), F::new(10), F::new(4)], [F::new(9), F::new(7), F::new(8)]]; M.iter().map(|r| &r[..]).collect::<Vec<&'static [F]>>().into_iter() }
}
impl Shape for SpongeState<'static, D, Pos> {
    fn build(dr: &mut D, n: &mut u64) -> Self { SpongeState::from_elements(FixedVec::build(dr, n)) }
    fn leaves(&self, o: &mut Vec<Leaf>) { self.clone().into_elements().leaves(o); }
}
fn flat(l: &[Leaf]) -> Vec<W> { l.iter().flat_map(|l| match l { Leaf::E(w) | Leaf::B(w) => vec![w.clone()], Leaf::P(a, b) => vec![a.clone(), b.clone()] }).collect() }

/// Fails at a chosen write.
struct Failing { seen: usize, at: usize }
impl<'dr, X: Driver<'dr>> Buffer<'dr, X> for Failing {
    fn write(&mut self, _: &mut X, _: &Element<'dr, X>) -> Result<()> { self.seen += 1; if self.seen - 1 == self.at { Err(Error::InvalidWitness(format!("marker {}", self.at).into())) } else { Ok(()) } }
}
type Pair = (Vec<F>, Vec<W>);
#[derive(Default)]
struct Obs {
    leaves: Vec<Leaf>, vals: Vec<F>, vec: Vec<(W, F)>, via_ref: Vec<W>, unit_ok: bool, count: usize, count_ref: usize,
    piped: Pair, piped_vals: Vec<F>, piped_allocs: usize, twice: Vec<F>, sponge: (Vec<W>, Vec<W>), fails: Vec<(usize, Option<String>)>,
    sendable: (Vec<W>, Vec<W>, Vec<W>), demoted: Vec<W>, demoted_num: usize, demoted_eq: Vec<W>, other: Vec<Leaf>, dclone: Vec<W>,
    fresh: Vec<W>, cons: Vec<(Leaf, String)>, cons_ok: bool, cons_sat: Option<String>,
}
fn nesting<G>() -> Obs
where G: Gadget<'static, D> + Shape + Consistent<'static, D>, G::Kind: Write<F>,
{
    let mut dr = D::new();
    let mut n = 0;
    let g = G::build(&mut dr, &mut n);
    let mut o = Obs::default();
    g.leaves(&mut o.leaves);
    o.vals = flat(&o.leaves).iter().map(|w| dr.value(w)).collect();
    let mut v: Vec<Element<'static, D>> = vec![];
    if g.write(&mut dr, &mut v).is_ok() { o.vec = v.iter().map(|e| (e.wire().clone(), *e.value().take())).collect(); }
    let mut v2: Vec<Element<'static, D>> = vec![];
    let _ = g.write(&mut dr, &mut &mut v2);
    o.via_ref = v2.iter().map(|e| e.wire().clone()).collect();
    o.unit_ok = g.write(&mut dr, &mut ()).is_ok();
    let _ = g.write(&mut dr, &mut o.count);
    { let mut k = 0usize; let mut r = &mut k; let _ = g.write(&mut dr, &mut r); o.count_ref = k; }
    // Into another driver; through two.
    let mut d2 = D::new();
    let mut v3: Vec<Element<'static, D>> = vec![];
    { let mut p = Pipe::new(&mut d2, &mut v3); let _ = g.write(&mut dr, &mut p); }
    o.piped = (v3.iter().map(|e| d2.value(e.wire())).collect(), v3.iter().map(|e| e.wire().clone()).collect());
    o.piped_vals = v3.iter().map(|e| *e.value().take()).collect();
    o.piped_allocs = d2.sys.allocs;
    let (mut d3, mut d4) = (Emulator::<Wireless<Always<()>, F>>::execute(), D::new());
    let mut v4: Vec<Element<'static, D>> = vec![];
    { let inner = Pipe::new(&mut d4, &mut v4); let mut outer = Pipe::<'_, 'static, _, _>::new(&mut d3, inner); let _ = g.write(&mut dr, &mut outer); }
    o.twice = v4.iter().map(|e| d4.value(e.wire())).collect();
    // Into a sponge, against absorbing the elements one by one.
    let digest = |dr: &mut D, mut s: Sponge<'static, D, Pos>| -> Vec<W> { let r: Vec<_> = (0..3).map_while(|_| s.squeeze(dr).ok()).collect(); r.iter().map(|e| W::konst(dr.value(e.wire()))).collect() };
    let mut s = Sponge::new(&mut dr, &Pos);
    let _ = g.write(&mut dr, &mut s);
    o.sponge.0 = digest(&mut dr, s);
    let mut s = Sponge::new(&mut dr, &Pos);
    for w in flat(&o.leaves) { let v = dr.value(&w); s.absorb(&mut dr, &Element::promote(w, Always::maybe_just(|| v))).unwrap(); }
    o.sponge.1 = digest(&mut dr, s);
    for at in 0..flat(&o.leaves).len() { let mut f = Failing { seen: 0, at }; let r = g.write(&mut dr, &mut f); o.fails.push((f.seen, r.err().map(|e| e.to_string()))); }
    let wires = |g: &G| { let mut l = vec![]; g.leaves(&mut l); flat(&l) };
    let s = g.clone().sendable();
    o.sendable = (wires(&s), wires(&s.clone()), wires(&s.into_inner()));
    // Demotion.
    if let Ok(d) = g.demote() {
        let mut c = Collect::<F, Live>::default();
        let _ = d.map(&mut c); o.demoted = c.0;
        o.demoted_num = d.num_wires().unwrap_or(usize::MAX);
        let mut c = Collect::<F, Live>::default();
        let _ = d.clone().map(&mut c); o.dclone = c.0;
        let h = G::build(&mut dr, &mut n);
        h.leaves(&mut o.other);
        let before = dr.sys.zeros.len();
        let _ = d.enforce_equal(&mut dr, &h.demote().unwrap());
        o.demoted_eq = dr.sys.zeros[before..].to_vec();
    }
    // Consistency of the same gadget over unconstrained wires.
    let mut dr = D::new();
    let g = G::build(&mut dr, &mut 0);
    let mut fr = Fresh(&mut dr, vec![]);
    let g = g.map(&mut fr).unwrap();
    o.fresh = fr.1;
    let mut l = vec![]; g.leaves(&mut l);
    o.cons_ok = g.enforce_consistent(&mut dr).is_ok();
    o.cons_sat = dr.violated();
    let sol = dr.sys.solve(&[]);
    for leaf in l { let v = match &leaf { Leaf::E(w) | Leaf::B(w) => sol.values(&[w.clone()]), Leaf::P(a, b) => sol.values(&[a.clone(), b.clone()]) }; o.cons.push((leaf, show(&v))); }
    o
}
fn show(v: &Values<F>) -> String { match v { Values::Some(s) => { let mut s = s.clone(); s.sort_by_key(|t| t.iter().map(|x| x.v()).collect::<Vec<_>>()); format!("{s:?}") } v => format!("{v:?}") } }
fn eqpairs(z: &[W]) -> Vec<(u32, u32)> { let mut v: Vec<(u32, u32)> = z.iter().map(|w| { let t = w.terms(); if t.len() == 2 && w.k == F::ZERO && t[0].1 + t[1].1 == F::ZERO { (t[0].0, t[1].0) } else { (u32::MAX, u32::MAX) } }).collect(); v.sort(); v.dedup(); v }
fn var(w: &W) -> u32 { w.terms()[0].0 }

fn judge(c: &CellCtx, name: &str, o: Option<Obs>) {
    let Some(o) = o else { return };
    let key = |what: &str| format!("{name}: {what}");
    let want = flat(&o.leaves);
    let wv: Vec<(W, F)> = want.iter().cloned().zip(o.vals.iter().copied()).collect();
    c.same(&o.vec, &wv, || key("written to a vector"));
    c.same(&o.via_ref, &want, || key("written through a reference"));
    c.check(o.unit_ok, || key("written to nothing"), || "fails".into());
    c.same(&(o.count, o.count_ref), &(want.len(), want.len()), || key("counted"));
    c.same(&o.piped.0, &o.vals, || key("piped: wire values"));
    c.same(&o.piped_vals, &o.vals, || key("piped: values"));
    c.same(&o.piped_allocs, &want.len(), || key("piped: allocations"));
    { let mut w: Vec<u32> = o.piped.1.iter().map(var).collect(); w.sort(); w.dedup(); c.same(&w.len(), &want.len(), || key("piped: distinct wires")); }
    c.same(&o.twice, &o.vals, || key("piped twice"));
    c.same(&o.sponge.0, &o.sponge.1, || key("written to a sponge"));
    for (at, (seen, e)) in o.fails.iter().enumerate() { c.tick(); c.check(*seen == at + 1 && e.as_ref().is_some_and(|e| e.contains(&format!("marker {at}"))), || key(&format!("sink failing at element {at}")), || format!("{seen} writes, result {e:?}")); }
    c.same(&o.sendable, &(want.clone(), want.clone(), want.clone()), || key("sendable"));
    c.same(&o.demoted, &want, || key("demoted wires"));
    c.same(&o.dclone, &want, || key("cloned demoted wires"));
    c.same(&o.demoted_num, &want.len(), || key("demoted wire count"));
    let mut pairs: Vec<(u32, u32)> = want.iter().zip(flat(&o.other)).map(|(a, b)| (var(a).min(var(&b)), var(a).max(var(&b)))).collect(); pairs.sort();
    c.same(&eqpairs(&o.demoted_eq), &pairs, || key("demoted equality"));
    // Consistency: each leaf over its own set.
    c.check(o.cons_ok && o.cons_sat.is_none(), || key("consistency of an honest gadget"), || format!("{:?}", o.cons_sat));
    c.same(&o.cons.len(), &o.leaves.len(), || key("consistency"));
    for (i, (l, v)) in o.cons.iter().enumerate() {
        let want = match l { Leaf::E(_) => "Unbounded".to_string(), Leaf::B(_) => "[[0], [1]]".into(), Leaf::P(..) => point_set() };
        c.tick();
        c.same(v, &want, || key(&format!("values left by consistency to leaf {i}")));
    }
    c.same(&o.fresh.len(), &want.len(), || key("wires mapped"));
    c.states(12); c.transitions(12); c.traces(12);
    c.sample(|| format!("{name}: {} elements", want.len()));
}
fn point_set() -> String {
    use group::{Curve, Group}; use pasta_curves::arithmetic::CurveAffine;
    let g = <C as CurveAffine>::CurveExt::generator();
    let mut s = vec![]; let mut p = g;
    while !bool::from(p.is_identity()) { let c = p.to_affine().coordinates().unwrap(); s.push(vec![*c.x(), *c.y()]); p += g; }
    show(&Values::Some(s))
}

type E = Element<'static, D>;
type B = Boolean<'static, D>;
type P = Point<'static, D, C>;
type FV<G, const N: usize> = FixedVec<G, ConstLen<N>>;
macro_rules! go { ($t:ty ; $c:expr) => { judge($c, stringify!($t), $c.guard(|| stringify!($t).to_string(), || nesting::<$t>())); } }
macro_rules! wrap { ($t:ty ; $c:expr) => { go!($t ; $c); go!([$t; 0] ; $c); go!([$t; 2] ; $c); go!(Box<$t> ; $c); go!(FV<$t, 3> ; $c); go!(($t, E) ; $c); go!((B, $t) ; $c); } }
macro_rules! wrap2 { ($t:ty ; $c:expr) => { wrap!([$t; 3] ; $c); wrap!(FV<$t, 2> ; $c); wrap!((B, $t) ; $c); wrap!(($t, $t) ; $c); } }

// ---- fixed-length collections ----
fn lengths<const L: usize>(c: &CellCtx, max: usize) {
    type V<const L: usize> = FixedVec<usize, ConstLen<L>>;
    let verdict = |r: Result<V<L>>, n: usize, what: &str, vals: &[usize]| {
        c.tick();
        let key = || format!("{what} of {n} into {L}");
        match r {
            Ok(v) => { c.check(n == L, key, || "accepted".into()); c.same(&v.to_vec(), &vals.to_vec(), key); c.same(&v.len(), &L, key); c.same(&v.clone().into_inner(), &vals.to_vec(), key); c.same(&v.into_iter().collect::<Vec<_>>(), &vals.to_vec(), key); }
            Err(Error::VectorLengthMismatch { expected, actual }) => { c.check(n != L, key, || "refused".into()); c.same(&(expected, actual), &(L, n), key); }
            Err(e) => c.violation(key(), format!("unexpected error {e}")),
        }
    };
    for n in 0..=max {
        let vals: Vec<usize> = (0..n).map(|i| i * 7 + 3).collect();
        verdict(FixedVec::new(vals.clone()), n, "new", &vals);
        let mut roomy = Vec::with_capacity(n + 9); roomy.extend(&vals);
        verdict(FixedVec::try_from(roomy), n, "try_from", &vals);
        verdict(vals.iter().copied().collect_fixed(), n, "collect", &vals);
        verdict(vals.iter().map(|v| Ok(*v)).try_collect_fixed(), n, "try_collect", &vals);
        for at in 0..n {
            let r: Result<V<L>> = vals.iter().enumerate().map(|(i, v)| if i >= at { Err(Error::InvalidWitness(format!("marker {i}").into())) } else { Ok(*v) }).try_collect_fixed();
            c.tick();
            let e = r.err().map(|e| e.to_string());
            c.check(e.as_ref().is_some_and(|e| e.contains(&format!("marker {at}"))), || format!("try_collect of {n} into {L} failing at {at}"), || format!("{e:?}"));
        }
    }
    // Construction from a function: called for each index once, in order.
    let calls = Cell::new(vec![]);
    let f = |i: usize| { let mut v = calls.take(); v.push(i); calls.set(v); i * i + 1 };
    let want: Vec<usize> = (0..L).map(|i| i * i + 1).collect();
    let v = V::<L>::from_fn(f);
    c.tick();
    c.same(&v.to_vec(), &want, || format!("from_fn {L}"));
    c.same(&calls.take(), &(0..L).collect(), || format!("from_fn {L}: calls"));
    for at in 0..=L {
        calls.set(vec![]);
        let r = V::<L>::try_from_fn(|i| { f(i); if i == at { Err(Error::InvalidWitness(format!("marker {i}").into())) } else { Ok(i * i + 1) } });
        c.tick();
        let calls = calls.take();
        match r { Ok(v) => { c.check(at == L, || format!("try_from_fn {L} failing at {at}"), || "accepted".into()); c.same(&v.to_vec(), &want, || format!("try_from_fn {L}")); c.same(&calls, &(0..L).collect(), || format!("try_from_fn {L}: calls")); }
            Err(e) => { c.check(at < L && e.to_string().contains(&format!("marker {at}")), || format!("try_from_fn {L} failing at {at}"), || e.to_string()); c.same(&calls, &(0..=at).collect(), || format!("try_from_fn {L} failing at {at}: calls")); } }
    }
    c.same(&ConstLen::<L>::range(), &(0..L), || format!("range {L}"));
    let mut v = V::<L>::from_fn(|i| i); for x in v.iter_mut() { *x += 100; }
    c.same(&v.into_inner(), &(100..100 + L).collect(), || format!("mutation {L}"));
    c.outcome("declared length");
}
/// Demoted booleans promote to the same wire with the supplied value.
fn promotion(c: &CellCtx) {
    for was in [false, true] { for now in [false, true] {
        let mut dr = D::new();
        let b: B = Boolean::alloc(&mut dr, Always::maybe_just(|| was)).unwrap();
        for b in [b.clone(), b.not(&mut dr)] {
            let d = b.demote().unwrap();
            let p = d.promote(Always::maybe_just(|| now));
            let again = p.demote().unwrap().promote(Always::maybe_just(|| was));
            c.tick();
            c.same(p.wire(), b.wire(), || format!("promotion of {was} with {now}: wire"));
            c.same(&p.value().take(), &now, || format!("promotion of {was} with {now}: value"));
            c.same(again.wire(), b.wire(), || format!("second promotion of {was}: wire"));
            c.same(&again.value().take(), &was, || format!("second promotion of {was}: value"));
            c.same(d.wire(), b.wire(), || format!("demotion of {was}: wire"));
            let e = Element::alloc(&mut dr, Always::maybe_just(|| F::new(9))).unwrap();
            c.same(e.demote().unwrap().wire(), e.wire(), || "demotion of an element: wire".into());
        }
    } }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("nestings up to the stated constructor depth");
    ctx.cell("collection lengths", |c| { lengths::<0>(c, 4); lengths::<1>(c, 5); lengths::<2>(c, 6); lengths::<3>(c, 7); lengths::<7>(c, 12); lengths::<64>(c, 70); });
    ctx.cell("promotion", promotion);
    ctx.cell("nestings to depth 2", |c| { wrap!(() ; c); wrap!(E ; c); wrap!(B ; c); wrap!(P ; c); wrap!(SpongeState<'static, D, Pos> ; c); });
    ctx.cell("nestings to depth 3", |c| { wrap2!(B ; c); wrap2!(P ; c); });
    ctx.cell("nestings to depth 4", |c| { wrap!((P, [(B, E); 2]) ; c); wrap!([Box<FV<(E, P), 2>>; 2] ; c); wrap!(FV<Box<[(B, ()); 2]>, 2> ; c); });
    ctx.cell("every length", |c| { macro_rules! each { ($($n:literal)*) => { $( go!(FV<B, $n> ; c); go!([E; $n] ; c); go!((FV<P, $n>, B) ; c); )* } } each!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26); });
    ctx.cell("long collections", |c| { go!(FV<B, 9> ; c); go!(FV<B, 17> ; c); go!(FV<B, 33> ; c); go!(FV<B, 65> ; c); go!(FV<B, 129> ; c); go!(FV<P, 40> ; c); go!(FV<FV<B, 3>, 40> ; c); go!([B; 33] ; c); go!([B; 70] ; c); go!([(P, B); 20] ; c); go!(FV<[E; 20], 20> ; c); go!((FV<B, 70>, [P; 36]) ; c); });
}
