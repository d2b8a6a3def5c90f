//! P03: curve-point gadgets on every point (pair) of small curves.
use crate::unit::{decide, dry_values, Unit, Want};
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::{Curve, Group, prime::PrimeCurveAffine};
use kit::{tiny, CellCtx, Ctx};
use mc_drv::Values;
use pasta_curves::arithmetic::CurveAffine;
use ragu_core::convert::WireMap;
use ragu_core::drivers::Driver;
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Boolean, Element, GadgetExt, Point};
use std::marker::PhantomData;

pub fn xy<C: CurveAffine>(p: &C) -> (C::Base, C::Base) { let c = p.coordinates().unwrap(); (*c.x(), *c.y()) }
fn add<C: CurveAffine>(a: &C, b: &C) -> C { (a.to_curve() + b.to_curve()).to_affine() }
pub fn points<C: CurveAffine>() -> Vec<C> {
    let g = C::Curve::generator();
    let mut v = vec![]; let mut p = g;
    while !bool::from(p.is_identity()) { v.push(p.to_affine()); p += g; }
    v
}
/// A point gadget whose coordinates are the given wires, without constraints.
pub fn over<'dr, D: Driver<'dr, F = C::Base> + 'dr, C: CurveAffine>(dr: &mut D, p: C, x: &Element<'dr, D>, y: &Element<'dr, D>) -> Result<Point<'dr, D, C>> {
    struct To<'dr, D: Driver<'dr>>(Vec<D::Wire>, PhantomData<&'dr D>);
    impl<'dr, D: Driver<'dr>> WireMap<D::F> for To<'dr, D> {
        type Src = D;
        type Dst = D;
        fn convert_wire(&mut self, _: &D::ImplWire) -> Result<D::ImplWire> { Ok(self.0.remove(0)) }
    }
    Point::constant(dr, p)?.map(&mut To::<D>(vec![x.wire().clone(), y.wire().clone()], PhantomData))
}
fn out<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine>(dr: &mut D, p: &Point<'dr, D, C>, v: &mut Vec<Element<'dr, D>>) -> Result<()> { p.write(dr, v) }

/// Operands are positions in the list of points computed so far.
#[derive(Clone, Copy, Debug)]
pub enum Op { Neg(usize), Endo(usize), Double(usize), Add(usize, usize), AddNz(usize, usize), DoubleAdd(usize, usize), CondNeg(usize, bool), CondEndo(usize, bool) }
#[derive(Debug)]
struct Prog<C> { ops: Vec<Op>, pts: Vec<C> }
impl<C: CurveAffine> Unit<C::Base> for Prog<C> where C::Base: PrimeField {
    fn run<'dr, D: Driver<'dr, F = C::Base> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let mut v = vec![];
        for (i, p) in self.pts.iter().enumerate() { v.push(over(dr, *p, &ins[2 * i], &ins[2 * i + 1])?); }
        let mut o = vec![];
        let mut bits = self.pts.len() * 2;
        let mut nz: Option<Element<'dr, D>> = None;
        for op in &self.ops {
            let mut bit = |dr: &mut D| -> Result<Boolean<'dr, D>> { let e = &ins[bits]; bits += 1; let b = Boolean::alloc(dr, e.value().map(|v| *v == C::Base::ONE))?; dr.enforce_equal(b.wire(), e.wire())?; Ok(b) };
            let r = match *op {
                Op::Neg(a) => v[a].negate(dr),
                Op::Endo(a) => v[a].endo(dr),
                Op::Double(a) => v[a].double(dr)?,
                Op::Add(a, b) => v[a].add_incomplete(dr, &v[b], None)?,
                Op::AddNz(a, b) => {
                    let mut acc = match nz.take() { Some(e) => e, None => Element::one() };
                    let r = v[a].add_incomplete(dr, &v[b], Some(&mut acc))?;
                    nz = Some(acc);
                    r
                }
                Op::DoubleAdd(a, b) => v[a].double_and_add_incomplete(dr, &v[b])?,
                Op::CondNeg(a, _) => { let b = bit(dr)?; v[a].conditional_negate(dr, &b)? }
                Op::CondEndo(a, _) => { let b = bit(dr)?; v[a].conditional_endo(dr, &b)? }
            };
            out(dr, &r, &mut o)?;
            v.push(r);
        }
        if let Some(nz) = nz { o.push(nz.clone()); nz.invert(dr)?; }
        Ok(o)
    }
}
fn reference<C: CurveAffine>(p: &Prog<C>) -> Want<C::Base> where C::Base: PrimeField {
    let mut v = p.pts.clone();
    let mut o = vec![];
    let mut free = false;
    let mut nz: Option<C::Base> = None;
    // An equal pair whose distinctness is certified by the accumulator.
    let mut dead = false;
    let zeta = <C::Base as WithSmallOrderMulGroup<3>>::ZETA;
    let endo = |a: &C| { let (x, y) = xy(a); C::from_xy(zeta * x, y).unwrap() };
    for op in &p.ops {
        let r = match *op {
            Op::Neg(a) => -v[a],
            Op::Endo(a) => endo(&v[a]),
            Op::CondNeg(a, b) => if b { -v[a] } else { v[a] },
            Op::CondEndo(a, b) => if b { endo(&v[a]) } else { v[a] },
            Op::Double(a) => add(&v[a], &v[a]),
            Op::Add(a, b) | Op::AddNz(a, b) | Op::DoubleAdd(a, b) => {
                let (ax, ay) = xy(&v[a]); let (bx, by) = xy(&v[b]);
                let certified = matches!(op, Op::AddNz(..));
                if certified { nz = Some(nz.unwrap_or(C::Base::ONE) * (bx - ax)); }
                if ax == bx {
                    if ay == by { if certified && !free { dead = true; } free = true; v[a] }
                    else { return if free && !dead { Want::Unconstrained } else { Want::Undefined } }
                } else {
                    let s = add(&v[a], &v[b]);
                    if !matches!(op, Op::DoubleAdd(..)) { s } else {
                        let t = add(&s, &v[a]);
                        if bool::from(t.is_identity()) { return if free && !dead { Want::Unconstrained } else { Want::Undefined } }
                        t
                    }
                }
            }
        };
        let (x, y) = xy(&r);
        o.extend([x, y]);
        v.push(r);
    }
    if dead { return Want::Undefined; }
    if free { return Want::Unconstrained; }
    if let Some(n) = nz { o.push(n); }
    Want::Is(o)
}
fn run_prog<C: CurveAffine>(c: &CellCtx, name: &str, ops: &[Op], pts: Vec<C>) where C::Base: PrimeField {
    let mut ins = vec![];
    for p in &pts { let (x, y) = xy(p); ins.extend([x, y]); }
    for op in ops { if let Op::CondNeg(_, b) | Op::CondEndo(_, b) = op { ins.push(C::Base::from(*b as u64)); } }
    let p = Prog { ops: ops.to_vec(), pts };
    decide(c, &p, &ins, &reference(&p), || format!("{name} {ops:?} on {ins:?}"));
}
fn steps(n: usize) -> Vec<Op> {
    let mut o = vec![];
    for a in 0..n {
        o.extend([Op::Neg(a), Op::Endo(a), Op::Double(a), Op::CondNeg(a, true), Op::CondEndo(a, true), Op::CondNeg(a, false), Op::CondEndo(a, false)]);
        for b in 0..n { o.extend([Op::Add(a, b), Op::AddNz(a, b), Op::DoubleAdd(a, b)]); }
    }
    o
}
fn programs<C: CurveAffine>(c: &CellCtx, name: &str, inputs: usize, depth: usize, pts: &[C]) where C::Base: PrimeField {
    fn grow(p: &mut Vec<Op>, have: usize, left: usize, out: &mut Vec<Vec<Op>>) {
        if left == 0 { out.push(p.clone()); return; }
        for op in steps(have) {
            // in longer programs an unconditioned choice adds nothing
            if out.len() > 1 && left > 1 && matches!(op, Op::CondNeg(_, false) | Op::CondEndo(_, false)) { continue; }
            p.push(op); grow(p, have + 1, left - 1, out); p.pop();
        }
    }
    let mut progs = vec![];
    grow(&mut vec![], inputs, depth, &mut progs);
    c.outcomes("programs", progs.len() as u64);
    let chunks: Vec<&[Vec<Op>]> = progs.chunks(8).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    c.par(&idx, |i| for ops in chunks[*i] {
        for t in kit::tuples(pts.len() as u64, inputs) { run_prog(c, name, ops, t.iter().map(|i| pts[*i as usize]).collect()); }
        c.sample(|| format!("{name} {ops:?} on all points"));
    });
}

struct Alloc<C>(C);
impl<C: CurveAffine> Unit<C::Base> for Alloc<C> where C::Base: PrimeField {
    fn run<'dr, D: Driver<'dr, F = C::Base> + 'dr>(&self, dr: &mut D, _: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let p = Point::<D, C>::alloc(dr, D::just(|| self.0))?;
        let mut o = vec![]; out(dr, &p, &mut o)?; Ok(o)
    }
}
struct Constant<C>(C);
impl<C: CurveAffine> Unit<C::Base> for Constant<C> where C::Base: PrimeField {
    fn run<'dr, D: Driver<'dr, F = C::Base> + 'dr>(&self, dr: &mut D, _: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let p = Point::<D, C>::constant(dr, self.0)?;
        let v = p.value(); let want = self.0;
        let _ = v.map(|v| assert!(v == want, "value of a constant point"));
        let mut o = vec![]; out(dr, &p, &mut o)?; Ok(o)
    }
}
struct Cons<C>(C);
impl<C: CurveAffine> Unit<C::Base> for Cons<C> where C::Base: PrimeField {
    fn run<'dr, D: Driver<'dr, F = C::Base> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let p = over(dr, self.0, &ins[0], &ins[1])?;
        p.enforce_consistent(dr)?;
        let mut o = vec![]; out(dr, &p, &mut o)?; Ok(o)
    }
}
fn alloc<C: CurveAffine>(c: &CellCtx, name: &str) where C::Base: PrimeField {
    let pts = points::<C>();
    let set: Vec<Vec<C::Base>> = pts.iter().map(|p| { let (x, y) = xy(p); vec![x, y] }).collect();
    let id = C::identity();
    decide(c, &Alloc(id), &[], &Want::Refused, || format!("{name} alloc identity"));
    c.par_range(pts.len() as u64, |i| {
        let p = pts[i as usize]; let (x, y) = xy(&p);
        decide(c, &Alloc(p), &[], &Want::Among(vec![x, y], set.clone()), || format!("{name} alloc {x:?},{y:?}"));
        decide(c, &Constant(p), &[], &Want::Is(vec![x, y]), || format!("{name} constant {x:?},{y:?}"));
        decide(c, &Cons(p), &[x, y], &Want::Is(vec![x, y]), || format!("{name} consistency {x:?},{y:?}"));
    });
    let mut cs = mc_drv::Cs::<C::Base, mc_drv::Live>::new();
    c.check(Point::<_, C>::constant(&mut cs, id).is_err(), || format!("{name} constant identity"), || "accepted".into());
    // Consistency of arbitrary coordinates.
    let mut elems = vec![]; let mut e = C::Base::ZERO; loop { elems.push(e); e += C::Base::ONE; if e == C::Base::ZERO { break; } }
    c.par(&elems, |x| for y in &elems {
        let on = set.contains(&vec![*x, *y]);
        let got = dry_values(&Cons(pts[0]), &[*x, *y]);
        let want = if on { Values::Some(vec![vec![*x, *y]]) } else { Values::None };
        c.tick();
        c.same(&got, &want, || format!("{name} consistency at {x:?},{y:?}"));
    });
    c.outcome("curve");
}

pub fn run(ctx: &Ctx) {
    use tiny::*;
    ctx.assume("curves have odd prime order and j-invariant 0, as documented; other fields by parametricity");
    ctx.cell("allocation, constants and consistency", |c| {
        alloc::<cycle7::EpAffine>(c, "F_7"); alloc::<cycle7::EqAffine>(c, "F_13a"); alloc::<cycle13::EpAffine>(c, "F_13b"); alloc::<cycle13::EqAffine>(c, "F_19"); alloc::<cycle79::EpAffine>(c, "F_79");
        if ctx.thorough { alloc::<cycle577::EpAffine>(c, "F_577"); }
    });
    ctx.cell("each operation, all pairs of points", |c| {
        programs::<cycle7::EpAffine>(c, "F_7", 2, 1, &points()); programs::<cycle7::EqAffine>(c, "F_13a", 2, 1, &points());
        programs::<cycle13::EpAffine>(c, "F_13b", 2, 1, &points()); programs::<cycle13::EqAffine>(c, "F_19", 2, 1, &points());
        programs::<cycle79::EpAffine>(c, "F_79", 2, 1, &points()); programs::<cycle79::EqAffine>(c, "F_97", 2, 1, &points());
        if ctx.thorough { programs::<cycle577::EpAffine>(c, "F_577", 2, 1, &points()); }
    });
    ctx.cell("two-step programs, all pairs of points", |c| {
        programs::<cycle7::EpAffine>(c, "F_7", 2, 2, &points()); programs::<cycle7::EqAffine>(c, "F_13a", 2, 2, &points()); programs::<cycle13::EpAffine>(c, "F_13b", 2, 2, &points());
        if ctx.thorough { programs::<cycle79::EqAffine>(c, "F_97", 2, 2, &points()); }
    });
    ctx.cell("two-step programs, all triples of points", |c| programs::<cycle7::EqAffine>(c, "F_13a", 3, 2, &points()));
    ctx.cell("three-step programs, all points", |c| {
        programs::<cycle7::EqAffine>(c, "F_13a", 1, 3, &points());
        programs::<cycle7::EpAffine>(c, "F_7", 1, 3, &points());
        if ctx.thorough { programs::<cycle7::EqAffine>(c, "F_13a", 2, 3, &points()); }
    });
    ctx.cell("production curves, small multiples", |c| {
        fn some<C: CurveAffine>() -> Vec<C> { let g = C::Curve::generator(); let mut v = vec![]; let mut p = g; for _ in 0..3 { v.push(p.to_affine()); v.push((-p).to_affine()); p += g; } let (x, y) = xy(&v[0]); let z = <C::Base as WithSmallOrderMulGroup<3>>::ZETA; v.push(C::from_xy(x * z, y).unwrap()); v.push(C::from_xy(x * z * z, -y).unwrap()); v }
        programs::<pasta_curves::EpAffine>(c, "Pallas", 2, 1, &some()); programs::<pasta_curves::EqAffine>(c, "Vesta", 2, 1, &some());
    });
}
