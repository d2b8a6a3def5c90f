//! P02: boolean gadgets against their truth tables, for every assignment.
use crate::prog::{want, Op, Prog};
use crate::unit::{decide, Unit, Want};
use ff::{Field, PrimeField};
use kit::{tiny::Tiny, tuples, CellCtx, Ctx};
use ragu_core::drivers::Driver;
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::promotion::Demoted;
use ragu_primitives::{multipack, Boolean, Element};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { E, B }

fn alloc<const P: u64>(c: &CellCtx) {
    let zo = vec![vec![Tiny::<P>::ZERO], vec![Tiny::<P>::ONE]];
    for b in [false, true] {
        decide(c, &Prog { ops: vec![Op::AllocBit(b)], all: true, bits: 0 }, &[], &Want::Among(vec![Tiny::from(b)], zo.clone()), || format!("F_{P} alloc {b}"));
    }
    // Pinned to any element: satisfiable exactly for zero and one.
    for x in Tiny::<P>::all() {
        let w = if x.v() < 2 { Want::Is(vec![x]) } else { Want::Undefined };
        decide(c, &Same, &[x], &w, || format!("F_{P} bit equal to {x:?}"));
        decide(c, &Cons, &[x], &w, || format!("F_{P} consistency of a boolean {x:?}"));
    }
    c.outcome("field");
}
/// Allocates a bit and equates it to the input.
struct Same;
impl<F: PrimeField> Unit<F> for Same {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let b = Boolean::alloc(dr, ins[0].value().map(|v| *v == F::ONE))?;
        dr.enforce_equal(b.wire(), ins[0].wire())?;
        Ok(vec![b.element()])
    }
}
/// Consistency of a boolean made out of the unconstrained input wire.
struct Cons;
impl<F: PrimeField> Unit<F> for Cons {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let b = over(dr, &ins[0])?;
        b.enforce_consistent(dr)?;
        Ok(vec![b.element()])
    }
}
/// A boolean over a given wire, without constraints.
pub fn over<'dr, D: Driver<'dr> + 'dr>(dr: &mut D, e: &Element<'dr, D>) -> Result<Boolean<'dr, D>> {
    use ragu_core::convert::WireMap;
    struct To<'a, 'dr, D: Driver<'dr>>(&'a D::Wire, std::marker::PhantomData<&'dr D>);
    impl<'dr, D: Driver<'dr>> WireMap<D::F> for To<'_, 'dr, D> {
        type Src = D;
        type Dst = D;
        fn convert_wire(&mut self, _: &D::ImplWire) -> Result<D::ImplWire> { Ok(self.0.clone()) }
    }
    let t = Element::constant(dr, D::F::ONE).is_equal_stub(dr, e)?;
    t.map(&mut To::<D>(e.wire(), std::marker::PhantomData))
}
trait Stub<'dr, D: Driver<'dr>> { fn is_equal_stub(&self, dr: &mut D, e: &Element<'dr, D>) -> Result<Boolean<'dr, D>>; }
impl<'dr, D: Driver<'dr>> Stub<'dr, D> for Element<'dr, D> {
    /// Some boolean whose value is whether `e` is one.
    fn is_equal_stub(&self, dr: &mut D, e: &Element<'dr, D>) -> Result<Boolean<'dr, D>> {
        let b = Boolean::alloc(dr, D::just(|| false))?;
        let v = e.value().map(|v| *v == D::F::ONE);
        Ok(Demoted::new(&b)?.promote(v))
    }
}

/// All well-typed programs over the given inputs.
fn steps(t: &[T]) -> Vec<(Op, Option<T>)> {
    let mut o = vec![];
    let bs: Vec<usize> = (0..t.len()).filter(|i| t[*i] == T::B).collect();
    let n = t.len();
    for &a in &bs {
        o.push((Op::Not(a), Some(T::B)));
        for &b in &bs { o.push((Op::And(a, b), Some(T::B))); }
        for x in 0..n { for y in 0..n { o.push((Op::Select(a, x, y), Some(T::E))); if x != y { o.push((Op::CondEq(a, x, y), None)); } } }
    }
    for x in 0..n { o.push((Op::IsZero(x), Some(T::B))); for y in 0..n { if x < y { o.push((Op::IsEqual(x, y), Some(T::B))); } } }
    o
}
fn programs<const P: u64>(c: &CellCtx, start: &[T], depth: usize) {
    fn grow(p: &mut Vec<Op>, t: &mut Vec<T>, left: usize, out: &mut Vec<Vec<Op>>) {
        if left == 0 { out.push(p.clone()); return; }
        for (op, r) in steps(t) {
            p.push(op);
            if let Some(r) = r { t.push(r); }
            grow(p, t, left - 1, out);
            if r.is_some() { t.pop(); }
            p.pop();
        }
    }
    let mut progs = vec![];
    grow(&mut vec![], &mut start.to_vec(), depth, &mut progs);
    c.outcomes("programs", progs.len() as u64);
    let bits = start.iter().filter(|t| **t == T::B).count();
    assert!(start[..bits].iter().all(|t| *t == T::B));
    let chunks: Vec<&[Vec<Op>]> = progs.chunks(32).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    c.par(&idx, |i| for ops in chunks[*i] {
        let p = Prog { ops: ops.clone(), all: true, bits };
        for b in tuples(2, bits) { for e in tuples(P, start.len() - bits) {
            let ins: Vec<Tiny<P>> = b.iter().chain(&e).map(|x| Tiny::new(*x)).collect();
            decide(c, &p, &ins, &want(&p, &ins), || format!("F_{P} {ops:?} on {ins:?}"));
        } }
        c.sample(|| format!("{ops:?} on all inputs"));
    });
}

/// Packs its (boolean) inputs.
struct Pack;
impl<F: PrimeField> Unit<F> for Pack {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let bits = ins.iter().map(|e| { let b = Boolean::alloc(dr, e.value().map(|v| *v == F::ONE))?; dr.enforce_equal(b.wire(), e.wire())?; Ok(b) }).collect::<Result<Vec<_>>>()?;
        multipack(dr, &bits)
    }
}
fn pack_ref<F: PrimeField>(bits: &[bool]) -> Vec<F> {
    let cap = F::CAPACITY as usize;
    let mut out = vec![];
    for (i, b) in bits.iter().enumerate() {
        if i % cap == 0 { out.push(F::ZERO); }
        if *b { let mut w = F::ONE; for _ in 0..i % cap { w = w + w; } *out.last_mut().unwrap() += w; }
    }
    out
}
fn pack_all<F: PrimeField>(c: &CellCtx, name: &str, max: usize) {
    for n in 0..=max {
        c.par_range(1 << n, |m| {
            let bits: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
            let ins: Vec<F> = bits.iter().map(|b| F::from(*b as u64)).collect();
            decide(c, &Pack, &ins, &Want::Is(pack_ref(&bits)), || format!("{name} pack {bits:?}"));
        });
        c.sample(|| format!("{name}: all bit strings of length {n}"));
    }
    c.outcome(&format!("{name} capacity {}", F::CAPACITY));
}
fn pack_wide<F: PrimeField>(c: &CellCtx, name: &str) {
    let cap = F::CAPACITY as usize;
    let lens = [0, 1, 2, cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap, 2 * cap + 1, 3 * cap + 1];
    c.par(&lens, |n| {
        let n = *n;
        let mut pats: Vec<Vec<bool>> = vec![vec![false; n], vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i * i % 7 < 3).collect()];
        for i in 0..n { if i < 3 || i + 3 >= n || (cap - 2..cap + 2).contains(&(i % (cap + 1))) || i % 41 == 0 { let mut v = vec![false; n]; v[i] = true; pats.push(v); } }
        for bits in pats {
            let ins: Vec<F> = bits.iter().map(|b| F::from(*b as u64)).collect();
            decide(c, &Pack, &ins, &Want::Is(pack_ref(&bits)), || format!("{name} pack length {n} pattern {:?}", bits.iter().map(|b| *b as u8).collect::<Vec<_>>()));
        }
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("other odd-order fields are covered by parametricity: the gadgets are generic in the field");
    ctx.cell("allocation and consistency", |c| { alloc::<3>(c); alloc::<5>(c); alloc::<7>(c); alloc::<13>(c); alloc::<97>(c); });
    ctx.cell("two-step programs, bits and elements, F_5", |c| programs::<5>(c, &[T::B, T::B, T::E, T::E], 2));
    ctx.cell("two-step programs, bit and elements, F_7", |c| programs::<7>(c, &[T::B, T::E, T::E], 2));
    ctx.cell("three-step programs, bits, F_5", |c| programs::<5>(c, &[T::B, T::B], 3));
    ctx.cell("three-step programs, bit and element, F_5", |c| programs::<5>(c, &[T::B, T::E], 3));
    if ctx.thorough { ctx.cell("four-step programs, bits, F_3", |c| programs::<3>(c, &[T::B, T::B], 4)); }
    ctx.cell("packing, every bit string", |c| {
        pack_all::<Tiny<3>>(c, "F_3", 6);
        pack_all::<Tiny<5>>(c, "F_5", 8);
        pack_all::<Tiny<13>>(c, "F_13", 10);
        pack_all::<Tiny<97>>(c, "F_97", if ctx.thorough { 16 } else { 13 });
    });
    ctx.cell("packing at production capacities", |c| { pack_wide::<ragu_pasta::Fp>(c, "Fp"); pack_wide::<ragu_pasta::Fq>(c, "Fq"); });
}
