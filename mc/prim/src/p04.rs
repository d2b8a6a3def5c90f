//! P04: endoscalar extraction, lifting and scaling against direct definitions.
use crate::p03::{over, points, xy};
use crate::unit::{decide, Unit, Want};
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::{Curve, Group, prime::PrimeCurveAffine};
use kit::tiny::{self, Tiny};
use kit::{CellCtx, Ctx};
use mc_drv::{Cs, Dry, Live, Values};
use pasta_curves::arithmetic::CurveAffine;
use ragu_arithmetic::Uendo;
use ragu_core::drivers::Driver;
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::Result;
use ragu_primitives::{extract_endoscalar, lift_endoscalar, Element, Endoscalar, GadgetExt, Simulator};

const BITS: usize = Uendo::BITS as usize;
fn bit(e: Uendo, i: usize) -> bool { (e >> i) & 1 == 1 }

/// Digit-wise family: every digit at every place over several backgrounds,
/// every pair of neighbouring digits, and whole-word patterns.
fn family(dense: bool) -> Vec<Uendo> {
    let mut v: Vec<Uendo> = vec![0, 1, Uendo::MAX, Uendo::MAX - 1, Uendo::MAX / 3, Uendo::MAX / 3 * 2, Uendo::MAX / 15 * 6, u64::MAX as Uendo, (u64::MAX as Uendo) << 64, 206786806484900909362154774549736492353];
    let backs: Vec<Uendo> = if dense { vec![0, Uendo::MAX, Uendo::MAX / 3, Uendo::MAX / 3 * 2] } else { vec![0, Uendo::MAX / 15 * 9] };
    for i in 0..BITS / 2 { for d in 0..4 { for b in &backs { v.push((b & !(3 << (2 * i))) | (d << (2 * i))); } } }
    if dense { for i in 0..BITS / 2 - 1 { for d in 0..16 { v.push(d << (2 * i)); } } for w in 0..256 { v.push(w * (Uendo::MAX / 255)); } }
    v.sort(); v.dedup(); v
}
/// [Algorithm 2, BGH19] as a sum of signed powers.
fn lift_ref<F: WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    let mut pows = vec![F::ONE];
    for _ in 0..=BITS / 2 { let l = *pows.last().unwrap(); pows.push(l + l); }
    let mut acc = (F::ZETA + F::ONE) * pows[BITS / 2 + 1];
    for i in 0..BITS / 2 {
        let mut d = pows[BITS / 2 - 1 - i];
        if bit(e, 2 * i + 1) { d *= F::ZETA; }
        if bit(e, 2 * i) { acc -= d } else { acc += d }
    }
    acc
}
fn native_lift<F: PrimeField + WithSmallOrderMulGroup<3>>(c: &CellCtx, name: &str) {
    let f = family(true);
    c.par(&f, |e| { c.tick(); c.same(&lift_endoscalar::<F>(*e), &lift_ref::<F>(*e), || format!("{name} lift {e:#x}")); });
    c.sample(|| format!("{name}: {} endoscalars", f.len()));
    c.outcome("field");
}
/// An endoscalar whose bits are the given wires.
fn endoscalar<'dr, D: Driver<'dr> + 'dr>(dr: &mut D, e: Uendo, bits: &[Element<'dr, D>]) -> Result<Endoscalar<'dr, D>> {
    let s = Endoscalar::alloc(dr, D::just(|| e))?;
    let ws: Vec<_> = s.bits().map(|b| b.wire().clone()).collect();
    for (w, b) in ws.iter().zip(bits) { dr.enforce_equal(w, b.wire())?; }
    Ok(s)
}
struct Lift(Uendo);
impl<F: PrimeField + WithSmallOrderMulGroup<3>> Unit<F> for Lift {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let s = endoscalar(dr, self.0, ins)?;
        let l = s.lift(dr)?;
        Ok(s.bits().map(|b| b.element()).chain([l]).collect())
    }
}
fn bits_of<F: PrimeField>(e: Uendo) -> Vec<F> { (0..BITS).map(|i| F::from(bit(e, i) as u64)).collect() }
fn lift<F: PrimeField + WithSmallOrderMulGroup<3>>(c: &CellCtx, name: &str, dense: bool) {
    let f = family(dense);
    c.par(&f, |e| { let b = bits_of::<F>(*e); let mut o = b.clone(); o.push(lift_ref::<F>(*e)); decide(c, &Lift(*e), &b, &Want::Is(o), || format!("{name} lift {e:#x}")); });
    c.outcome("field");
}
/// Allocation: the bits of the value, and any other 128 bits, but only bits.
fn alloc<F: PrimeField>(c: &CellCtx, name: &str) {
    for e in family(false) {
        let mut cs = Cs::<F, Live>::new();
        let s = Endoscalar::alloc(&mut cs, Always::maybe_just(|| e)).unwrap();
        let vals: Vec<bool> = s.bits().map(|b| b.value().take()).collect();
        let ws: Vec<F> = s.bits().map(|b| cs.value(b.wire())).collect();
        let want: Vec<bool> = (0..BITS).map(|i| bit(e, i)).collect();
        c.tick();
        c.same(&vals, &want, || format!("{name} alloc {e:#x} values"));
        c.same(&ws, &bits_of::<F>(e), || format!("{name} alloc {e:#x} wires"));
        c.check(cs.violated().is_none(), || format!("{name} alloc {e:#x}"), || "constraints not satisfied".into());
    }
    let mut cs = Cs::<F, Dry>::new();
    let s = Endoscalar::alloc(&mut cs, Empty::maybe_just(|| 0)).unwrap();
    let sol = cs.sys.solve(&[]);
    for (i, b) in s.bits().enumerate() { c.tick(); c.same(&sol.values(&[b.wire().clone()]), &Values::Some(vec![vec![F::ZERO], vec![F::ONE]]), || format!("{name} alloc: values of bit {i}")); }
}
fn square<F: PrimeField>(x: F) -> bool { if x == F::ZERO { return true; } let h: F = F::ZERO - F::ONE; let e = (h * F::TWO_INV).to_repr(); let mut w = [0u64; 4]; for (i, b) in e.as_ref().iter().enumerate() { w[i / 8] |= (*b as u64) << (8 * (i % 8)); } x.pow_vartime(w) == F::ONE }

/// Extraction from each given challenge. Returns whether exactly the bits at
/// vanishing positions were left open.
fn extract<F: PrimeField + WithSmallOrderMulGroup<3>>(c: &CellCtx, name: &str, challenges: &[F], sound: bool) {
    let open = std::sync::Mutex::new(vec![]);
    c.par(challenges, |e| {
        let e = *e;
        let mut want = vec![]; let mut x = e;
        for _ in 0..BITS { want.push(square(x)); x += F::ONE; }
        let packed: Uendo = want.iter().enumerate().fold(0, |a, (i, b)| a | ((*b as Uendo) << i));
        c.tick();
        c.same(&extract_endoscalar(e), &packed, || format!("{name} native extraction from {e:?}"));
        if !sound { return; }
        let mut cs = Cs::<F, Live>::new();
        let w = cs.input(e);
        let r = Endoscalar::extract(&mut cs, Element::promote(w, Always::maybe_just(|| e)));
        let Ok(s) = r else { c.violation(format!("{name} in-circuit extraction from {e:?}"), "fails"); return; };
        c.same(&s.bits().map(|b| b.value().take()).collect::<Vec<_>>(), &want, || format!("{name} in-circuit extraction from {e:?}"));
        c.same(&s.bits().map(|b| cs.value(b.wire())).collect::<Vec<_>>(), &bits_of::<F>(packed), || format!("{name} in-circuit extraction from {e:?}, wires"));
        c.check(cs.violated().is_none(), || format!("{name} in-circuit extraction from {e:?}"), || cs.violated().unwrap());
        let ok = Simulator::<F>::simulate(e, |dr, e| { let e = Element::alloc(dr, e)?; let s = Endoscalar::extract(dr, e)?; let got: Vec<bool> = s.bits().map(|b| b.value().take()).collect(); c.same(&got, &want, || format!("{name} simulated extraction")); Ok(()) }).is_ok();
        c.check(ok, || format!("{name} simulated extraction from {e:?}"), || "refused".into());
        let mut dry = Cs::<F, Dry>::new();
        let w = dry.input(F::ZERO);
        let s = Endoscalar::extract(&mut dry, Element::promote(w.clone(), Empty::maybe_just(|| F::ZERO))).unwrap();
        c.check(dry.sys == cs.sys, || format!("{name} extraction from {e:?}"), || "the constraints depend on the witness".into());
        let sol = dry.sys.solve(&[(w, e)]);
        c.transitions(sol.nodes);
        c.traces(2);
        let mut x = e;
        for (i, b) in s.bits().enumerate() {
            let got = sol.values(&[b.wire().clone()]);
            let both = Values::Some(vec![vec![F::ZERO], vec![F::ONE]]);
            if x == F::ZERO && got == both { open.lock().unwrap().push(i); }
            else { c.same(&got, &Values::Some(vec![vec![F::from(want[i] as u64)]]), || format!("{name} bit {i} of challenge {e:?}")); }
            x += F::ONE;
        }
    });
    let open = open.into_inner().unwrap();
    if !open.is_empty() {
        c.outcomes("vanishing positions left open", open.len() as u64);
        c.violation("bit i of the challenge -i", "extract: where challenge + i is zero the constraints are satisfied by either value of bit i");
    }
    c.outcomes("challenges", challenges.len() as u64);
}

struct Scale<C>(Uendo, C);
impl<C: CurveAffine> Unit<C::Base> for Scale<C> where C::Base: PrimeField {
    fn run<'dr, D: Driver<'dr, F = C::Base> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>> {
        let p = over(dr, self.1, &ins[0], &ins[1])?;
        let s = endoscalar(dr, self.0, &ins[2..])?;
        let r = s.group_scale(dr, &p)?;
        let mut o = vec![]; r.write(dr, &mut o)?; Ok(o)
    }
}
/// [Algorithm 1, BGH19] with the first exceptional step, if any.
fn scale_ref<C: CurveAffine>(e: Uendo, p: &C) -> Want<C::Base> {
    let z = <C::Base as WithSmallOrderMulGroup<3>>::ZETA;
    let endo = |a: &C| { let (x, y) = xy(a); C::from_xy(z * x, y).unwrap() };
    let mut acc: C = ((endo(p).to_curve() + p.to_curve()).double()).to_affine();
    for i in 0..BITS / 2 {
        let mut q = *p;
        if bit(e, 2 * i) { q = -q; }
        if bit(e, 2 * i + 1) { q = endo(&q); }
        if acc == q { return Want::Unconstrained; }
        let r = (acc.to_curve() + q.to_curve()) + acc.to_curve();
        if acc == -q || bool::from(r.is_identity()) { return Want::Undefined; }
        acc = r.to_affine();
    }
    // Scaling is multiplication by the lift.
    let direct = (p.to_curve() * lift_ref::<C::ScalarExt>(e)).to_affine();
    assert!(direct == acc, "reference scaling and lifting disagree");
    let (x, y) = xy(&acc);
    Want::Is(vec![x, y])
}
fn scale<C: CurveAffine>(c: &CellCtx, name: &str, pts: &[C], es: &[Uendo]) where C::Base: PrimeField {
    let items: Vec<(C, Uendo)> = pts.iter().flat_map(|p| es.iter().map(move |e| (*p, *e))).collect();
    c.par(&items, |(p, e)| {
        let (x, y) = xy(p);
        let mut ins = vec![x, y]; ins.extend(bits_of::<C::Base>(*e));
        let w = scale_ref(*e, p);
        c.outcome(match &w { Want::Is(_) => "scaled", Want::Undefined => "exceptional: refused", _ => "exceptional: equal operands" });
        decide(c, &Scale(*e, *p), &ins, &w, || format!("{name} scale {x:?},{y:?} by {e:#x}"));
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("endoscalars outside the digit families are covered by the digit-wise structure of lifting and scaling only as far as each digit is treated independently");
    ctx.cell("native lifting", |c| { native_lift::<ragu_pasta::Fp>(c, "Fp"); native_lift::<ragu_pasta::Fq>(c, "Fq"); native_lift::<Tiny<7>>(c, "F_7"); native_lift::<Tiny<97>>(c, "F_97"); native_lift::<Tiny<577>>(c, "F_577"); });
    ctx.cell("allocation", |c| { alloc::<Tiny<7>>(c, "F_7"); alloc::<Tiny<97>>(c, "F_97"); alloc::<ragu_pasta::Fp>(c, "Fp"); });
    ctx.cell("in-circuit lifting", |c| { lift::<Tiny<97>>(c, "F_97", true); lift::<Tiny<13>>(c, "F_13", ctx.thorough); lift::<ragu_pasta::Fp>(c, "Fp", ctx.thorough); lift::<ragu_pasta::Fq>(c, "Fq", ctx.thorough); });
    ctx.cell("extraction, every challenge", |c| {
        extract(c, "F_7", &Tiny::<7>::all().collect::<Vec<_>>(), true);
        extract(c, "F_13", &Tiny::<13>::all().collect::<Vec<_>>(), true);
        extract(c, "F_97", &Tiny::<97>::all().collect::<Vec<_>>(), true);
        extract(c, "F_577", &Tiny::<577>::all().collect::<Vec<_>>(), true);
        extract(c, "F_613", &Tiny::<613>::all().collect::<Vec<_>>(), true);
        extract(c, "F_4201", &Tiny::<4201>::all().collect::<Vec<_>>(), false);
    });
    ctx.cell("extraction, production fields", |c| {
        fn some<F: PrimeField>(n: u64) -> Vec<F> { let mut v: Vec<F> = (0..n).map(F::from).collect(); for i in 1..=BITS as u64 + 1 { if i < 12 || i > 120 || i % 16 < 2 { v.push(F::ZERO - F::from(i)); } } v.push(F::TWO_INV); v.push(F::MULTIPLICATIVE_GENERATOR.pow_vartime([12345])); v.push(F::ROOT_OF_UNITY); v }
        let n = if ctx.thorough { 200 } else { 10 };
        extract(c, "Fp", &some::<ragu_pasta::Fp>(n), true); extract(c, "Fq", &some::<ragu_pasta::Fq>(n), true);
    });
    ctx.cell("scaling on small curves", |c| {
        let f = family(false);
        scale(c, "F_577", &points::<tiny::cycle577::EpAffine>()[..1], &family(true));
        scale(c, "F_613", &points::<tiny::cycle577::EqAffine>()[..1], &family(ctx.thorough));
        scale(c, "F_577", &points::<tiny::cycle577::EpAffine>(), &f[f.len() / 3..f.len() / 3 + 3]);
        scale(c, "F_79", &points::<tiny::cycle79::EpAffine>(), &f[..8]);
        scale(c, "F_97", &points::<tiny::cycle79::EqAffine>()[..2], &f);
        scale(c, "F_13", &points::<tiny::cycle7::EqAffine>(), &f[..4]);
    });
    ctx.cell("scaling on the production curves", |c| {
        fn pts<C: CurveAffine>() -> Vec<C> { let g = C::generator(); vec![g, (-g.to_curve().double()).to_affine()] }
        let f = family(false);
        let f: Vec<Uendo> = if ctx.thorough { f } else { f.into_iter().step_by(4).collect() };
        scale(c, "Pallas", &pts::<pasta_curves::EpAffine>(), &f); scale(c, "Vesta", &pts::<pasta_curves::EqAffine>(), &f);
    });
}
