//! D07: accumulation of commitments by endoscaling steps.
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::prime::PrimeCurveAffine;
use group::Curve;
use kit::{tiny, tuples, CellCtx, Ctx};
use mc_drv::{Collect, Cs, Dry, Live, Values, Wire};
use ragu_arithmetic::{CurveAffine, Uendo};
use ragu_circuits::polynomials::{ProductionRank, Rank};
use ragu_circuits::staging::{MultiStage, Stage, StageExt};
use ragu_circuits::{Circuit, CircuitExt};
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::{Always, Empty, MaybeKind};
use ragu_pasta::{EpAffine, EqAffine};
use ragu_pcd::mc::{EndoscalarStage, EndoscalingStep, EndoscalingStepWitness, InputsLen, NumStepsLen, PointsStage, PointsWitness, NUM_ENDOSCALING_POINTS};
use ragu_primitives::vec::{FixedVec, Len};
use ragu_testing::registry::TestRegistryBuilder;

type R = ProductionRank;
const BITS: usize = Uendo::BITS as usize;

/// [Algorithm 2, BGH19] as a sum of signed powers.
fn lift<F: WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    let mut pows = vec![F::ONE];
    for _ in 0..=BITS / 2 { let l = *pows.last().unwrap(); pows.push(l + l); }
    let mut acc = (F::ZETA + F::ONE) * pows[BITS / 2 + 1];
    for i in 0..BITS / 2 {
        let mut d = pows[BITS / 2 - 1 - i];
        if (e >> (2 * i + 1)) & 1 == 1 { d *= F::ZETA; }
        if (e >> (2 * i)) & 1 == 1 { acc -= d } else { acc += d }
    }
    acc
}
/// The Horner value after the first `k` inputs, straight from its definition:
/// e^k P_0 + e^(k-1) P_1 + ... + P_k.
fn horner<C: CurveAffine + PrimeCurveAffine<Curve = <C as CurveAffine>::CurveExt, Scalar = <C as CurveAffine>::ScalarExt>>(e: C::ScalarExt, points: &[C], k: usize) -> C {
    let mut pow = C::ScalarExt::ONE;
    let mut acc = <C as CurveAffine>::CurveExt::from(<C as PrimeCurveAffine>::identity());
    for p in points[..=k].iter().rev() { acc += <C as CurveAffine>::CurveExt::from(*p) * pow; pow *= e; }
    acc.to_affine()
}
fn endoscalars(deep: bool) -> Vec<Uendo> {
    let mut v: Vec<Uendo> = vec![0, 1, 2, 3, Uendo::MAX, Uendo::MAX - 1, 1 << 127, 1 << 126, Uendo::MAX / 3, Uendo::MAX / 3 * 2, u64::MAX as Uendo, (u64::MAX as Uendo) << 64, 206786806484900909362154774549736492353];
    if deep { for i in 0..BITS { v.push(1 << i); v.push(!(1 << i)); } v.sort(); v.dedup(); }
    v
}
/// Coordinates of the witnessed points, in the order in which the stage places
/// them, read off the stage itself.
fn stage_values<C: CurveAffine, const N: usize>(w: &PointsWitness<C, N>) -> Vec<C::Base> {
    let mut cs = Cs::<C::Base, Live>::new();
    let s = PointsStage::<C, N>::default();
    let o = Stage::<C::Base, R>::witness(&s, &mut cs, Always::maybe_just(|| w)).unwrap();
    let mut col = Collect::default();
    o.map(&mut col).unwrap();
    col.0.iter().map(|w| cs.value(w)).collect()
}
fn endo_values<F: PrimeField>(e: Uendo) -> Vec<F> {
    let mut cs = Cs::<F, Live>::new();
    let o = Stage::<F, R>::witness(&EndoscalarStage, &mut cs, Always::maybe_just(|| e)).unwrap();
    let mut col = Collect::default();
    o.map(&mut col).unwrap();
    col.0.iter().map(|w| cs.value(w)).collect()
}
/// The constraint system of one step; its first variables are the stage wires.
struct StepSystem<F> { cs: Cs<F, Dry>, endo: Vec<Wire<F>>, points: Vec<Wire<F>> }
fn system<C: CurveAffine, const N: usize>(step: usize) -> StepSystem<C::Base> {
    let mut cs = Cs::<C::Base, Dry>::new();
    let _ = MultiStage::<C::Base, R, _>::new(EndoscalingStep::<C, R, N>::new(step)).witness(&mut cs, Empty::maybe_just(|| unreachable!())).map_err(|e| format!("{e}")).unwrap();
    // A stage of n values takes 2 * ceil(n / 2) allocations.
    let endo: Vec<_> = (0..BITS as u32).map(Wire::var).collect();
    let n = <PointsStage<C, N> as Stage<C::Base, R>>::values();
    let at = 2 * BITS.div_ceil(2) as u32;
    let points = (at..at + n as u32).map(Wire::var).collect();
    StepSystem { cs, endo, points }
}
/// Satisfying values of `free` (positions among the stage's point coordinates)
/// when everything else on the stages is as given.
fn solve<F: PrimeField>(c: &CellCtx, s: &StepSystem<F>, bits: &[F], coords: &[F], free: &[usize]) -> Values<F> {
    let pins: Vec<_> = s.endo.iter().cloned().zip(bits.iter().copied()).chain(s.points.iter().cloned().zip(coords.iter().copied()).enumerate().filter(|(i, _)| !free.contains(i)).map(|(_, p)| p)).collect();
    let sol = s.cs.sys.solve(&pins);
    c.states(sol.alternatives()); c.transitions(sol.nodes.max(1)); c.traces(1);
    sol.values(&free.iter().map(|i| s.points[*i].clone()).collect::<Vec<_>>())
}
trait Side: CurveAffine + PrimeCurveAffine<Curve = <Self as CurveAffine>::CurveExt, Scalar = <Self as CurveAffine>::ScalarExt> {}
impl<C: CurveAffine + PrimeCurveAffine<Curve = <C as CurveAffine>::CurveExt, Scalar = <C as CurveAffine>::ScalarExt>> Side for C {}

fn distinct<C: Side>(n: usize) -> Vec<C> where C::ScalarExt: WithSmallOrderMulGroup<3> {
    (0..n).map(|i| (C::generator() * C::ScalarExt::from((i * i * 7 + 3 * i + 2) as u64)).to_affine()).collect()
}
/// Indices of the coordinates of a step's output among the stage's values,
/// found by value for distinct points, so that no order is assumed.
fn output<C: Side, const N: usize>(step: usize) -> Vec<usize> where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let w = PointsWitness::<C, N>::new(1234567, &distinct::<C>(N));
    let coords = stage_values(&w);
    let p = w.interstitials[step].coordinates().unwrap();
    let at = |v: &C::Base| { let hits: Vec<_> = coords.iter().enumerate().filter(|(_, x)| *x == v).map(|x| x.0).collect(); assert_eq!(hits.len(), 1, "ambiguous"); hits[0] };
    vec![at(p.x()), at(p.y())]
}
/// Every kind of relation between points, as multiples of one point.
fn families<C: Side>(n: usize) -> Vec<(&'static str, Vec<C>)> where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let g = <C as PrimeCurveAffine>::generator();
    let neg = (-g.to_curve()).to_affine();
    vec![("distinct", distinct(n)), ("equal", vec![g; n]), ("alternating", (0..n).map(|i| if i % 2 == 0 { g } else { neg }).collect())]
}
/// Native interstitials for every number of points.
fn native<C: Side, const N: usize>(c: &CellCtx, name: &str, endos: &[Uendo]) where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let per = 4;
    for (kind, pts) in families::<C>(N).into_iter().chain(std::iter::once(("identities", (0..N).map(|i| if i % 3 == 1 { <C as PrimeCurveAffine>::generator() } else { <C as PrimeCurveAffine>::identity() }).collect()))) {
        c.par(endos, |e| {
            let w = PointsWitness::<C, N>::new(*e, &pts);
            let s = lift::<C::ScalarExt>(*e);
            let key = || format!("{name} {N} points ({kind}), endoscalar {e:#x}");
            c.check(w.initial == pts[0] && w.inputs.iter().eq(pts[1..].iter()), key, || "the witness does not carry the points".into());
            let steps = (N - 1).div_ceil(per).max(1);
            c.same(&w.interstitials.len(), &steps, key);
            // What each circuit step must produce; the last is the whole combination.
            for (i, p) in w.interstitials.iter().enumerate() { c.same(p, &horner(s, &pts, ((i + 1) * per).min(N - 1)), || format!("{} step {i}", key())); }
            c.tick();
        });
    }
    for wrong in [0, N - 1, N + 1] { if wrong != N { c.check(c.attempt(|| PointsWitness::<C, N>::new(5, &vec![<C as PrimeCurveAffine>::generator(); wrong])).is_err(), || format!("{name} {N}: {wrong} points taken"), || "accepted".into()); c.tick(); } }
    c.outcome("number of points");
}
/// Native, a small curve: all points (the identity too), endoscalars reaching every scalar.
fn native_tiny<C: Side, const N: usize>(c: &CellCtx, name: &str, order: u64) where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let all: Vec<C> = { let mut v = vec![]; let mut x = <C as CurveAffine>::CurveExt::from(<C as PrimeCurveAffine>::identity()); for _ in 0..order { v.push(x.to_affine()); x += <C as PrimeCurveAffine>::generator(); } v };
    let mut reach: Vec<(C::ScalarExt, Uendo)> = vec![];
    for e in 0u64..4096 { let s = lift(e as Uendo); if !reach.iter().any(|r| r.0 == s) { reach.push((s, e as Uendo)); } }
    c.same(&(reach.len() as u64), &order, || format!("{name}: scalars reached"));
    c.par(&tuples(order, N).collect::<Vec<_>>(), |t| {
        let pts: Vec<C> = t.iter().map(|i| all[*i as usize]).collect();
        for (s, e) in &reach {
            let w = PointsWitness::<C, N>::new(*e, &pts);
            for (i, p) in w.interstitials.iter().enumerate() { c.same(p, &horner(*s, &pts, ((i + 1) * 4).min(N - 1)), || format!("{name} multiples {t:?}, endoscalar {e:#x}, step {i}")); }
            c.tick();
        }
    });
    c.sample(|| format!("{name}: all {order}^{N} points, {} scalars", reach.len()));
    c.outcome("curve");
}
/// Each step admits its Horner value, and only that, for any advice.
fn exact<C: Side, const N: usize>(c: &CellCtx, name: &str, endos: &[Uendo], all: bool) where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let steps = NumStepsLen::<N>::len();
    let pts = distinct::<C>(N);
    let items: Vec<(usize, Uendo)> = (0..steps).filter(|s| all || *s + 1 >= steps || *s == 0).flat_map(|s| endos.iter().map(move |e| (s, *e))).collect();
    c.par(&items, |(step, e)| {
        let sys = system::<C, N>(*step);
        let w = PointsWitness::<C, N>::new(*e, &pts);
        let (bits, coords) = (endo_values::<C::Base>(*e), stage_values(&w));
        let free = output::<C, N>(*step);
        let want = horner(lift(*e), &pts, ((step + 1) * 4).min(N - 1)).coordinates().unwrap();
        c.same(&solve(c, &sys, &bits, &coords, &free), &Values::Some(vec![vec![*want.x(), *want.y()]]), || format!("{name} {N} points, step {step}, endoscalar {e:#x}: satisfying outputs"));
        c.outcome("step");
    });
    c.sample(|| format!("{name} {N} points: steps x endoscalars {}", items.len()));
}
/// One coordinate or endoscalar bit of an honest assignment altered: some step refuses, whatever the advice.
fn altered<C: Side, const N: usize>(c: &CellCtx, name: &str, endos: &[Uendo], bitstep: usize) where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let steps = NumStepsLen::<N>::len();
    let pts = distinct::<C>(N);
    let sys: Vec<_> = (0..steps).map(system::<C, N>).collect();
    for e in endos {
        let w = PointsWitness::<C, N>::new(*e, &pts);
        let (bits, coords) = (endo_values::<C::Base>(*e), stage_values(&w));
        let mut alts: Vec<(String, Vec<C::Base>, Vec<C::Base>)> = vec![];
        for i in 0..coords.len() {
            let mut k = coords.clone(); k[i] += C::Base::ONE; alts.push((format!("value {i} + 1"), bits.clone(), k));
            let mut k = coords.clone(); k[i] = -k[i]; alts.push((format!("value {i} negated"), bits.clone(), k));
            if i + 2 < coords.len() { let mut k = coords.clone(); k.swap(i, i + 2); alts.push((format!("values {i} and {} exchanged", i + 2), bits.clone(), k)); }
        }
        // whole points: one replaced by another point of the curve, neighbours exchanged
        for i in 0..coords.len() / 2 {
            let mut k = coords.clone(); let q = (<C as PrimeCurveAffine>::generator() * C::ScalarExt::from(1000 + i as u64)).to_affine().coordinates().unwrap(); k[2 * i] = *q.x(); k[2 * i + 1] = *q.y(); alts.push((format!("point {i} replaced"), bits.clone(), k));
            if 2 * i + 3 < coords.len() { let mut k = coords.clone(); k.swap(2 * i, 2 * i + 2); k.swap(2 * i + 1, 2 * i + 3); alts.push((format!("points {i} and {} exchanged", i + 1), bits.clone(), k)); }
        }
        for i in (0..bits.len()).filter(|i| i % bitstep == 0 || *i == bits.len() - 1) { let mut b = bits.clone(); b[i] = C::Base::ONE - b[i]; alts.push((format!("bit {i} flipped"), b, coords.clone())); }
        c.par(&alts.iter().enumerate().collect::<Vec<_>>(), |(_, (what, b, k))| {
            let ok = sys.iter().all(|s| solve(c, s, b, k, &[]) != Values::None);
            c.check(!ok, || format!("{name} {N} points, endoscalar {e:#x}: {what}"), || "every step is satisfiable".into());
            c.outcome("alteration refused");
        });
        // The honest assignment is accepted by every step.
        for (i, s) in sys.iter().enumerate() { c.check(solve(c, s, &bits, &coords, &[]) != Values::None, || format!("{name} {N} points, endoscalar {e:#x}: step {i}"), || "honest values refused".into()); }
    }
}
/// Points chosen so that an addition inside a step is between points with the
/// same x-coordinate: the output may be exact or refused, never arbitrary.
fn coincident<C: Side, const N: usize>(c: &CellCtx, name: &str, endos: &[Uendo]) where C::ScalarExt: WithSmallOrderMulGroup<3> {
    let items: Vec<(usize, bool, Uendo)> = (1..N).flat_map(|k| [false, true].into_iter().flat_map(move |n| endos.iter().map(move |e| (k, n, *e)))).collect();
    c.par(&items, |(k, neg, e)| {
        let mut pts = distinct::<C>(N);
        let s = lift::<C::ScalarExt>(*e);
        let acc = horner(s, &pts, k - 1).to_curve() * s;
        pts[*k] = if *neg { -acc } else { acc }.to_affine();
        let step = (k - 1) / 4;
        let w = PointsWitness::<C, N>::new(*e, &pts);
        let key = || format!("{name} {N} points, endoscalar {e:#x}: point {k} is {}the scaled accumulator", if *neg { "minus " } else { "" });
        // Natively exact, whatever the points.
        c.same(&w.interstitials[step], &horner(s, &pts, ((step + 1) * 4).min(N - 1)), key);
        // A step whose own value is the identity has no coordinates to give.
        if bool::from(w.interstitials[step].is_identity()) || w.interstitials.iter().any(|p| bool::from(p.is_identity())) {
            let mut clean = w.clone();
            clean.interstitials = FixedVec::from_fn(|i| if bool::from(w.interstitials[i].is_identity()) { <C as PrimeCurveAffine>::generator() } else { w.interstitials[i] });
            let coords = stage_values(&clean);
            let free = output::<C, N>(step);
            c.same(&solve(c, &system::<C, N>(step), &endo_values(*e), &coords, &free), &Values::None, key);
            c.outcome("identity refused");
            return;
        }
        let coords = stage_values(&w);
        let free = output::<C, N>(step);
        match solve(c, &system::<C, N>(step), &endo_values(*e), &coords, &free) {
            Values::None => c.outcome("coincidence refused"),
            Values::Some(v) if v.len() == 1 && v[0] == free.iter().map(|i| coords[*i]).collect::<Vec<_>>() => c.outcome("coincidence exact"),
            v => c.violation(key(), format!("satisfying outputs {v:?}")),
        }
    });
}
/// The real stages, traces and registry: honest accepted, altered points refused.
fn proved<C: Side, const N: usize>(c: &CellCtx, name: &str, e: Uendo) where C::ScalarExt: WithSmallOrderMulGroup<3>, C::Base: ff::FromUniformBytes<64> {
    let steps = NumStepsLen::<N>::len();
    let pts = distinct::<C>(N);
    let good = PointsWitness::<C, N>::new(e, &pts);
    let mut cases = vec![("honest".to_string(), good.clone(), e)];
    let other = (<C as PrimeCurveAffine>::generator() * C::ScalarExt::from(777)).to_affine();
    for i in 0..steps { let mut w = good.clone(); w.interstitials = FixedVec::from_fn(|k| if k == i { other } else { good.interstitials[k] }); cases.push((format!("interstitial {i}"), w, e)); }
    for i in 0..InputsLen::<N>::len() { let mut w = good.clone(); w.inputs = FixedVec::from_fn(|k| if k == i { other } else { good.inputs[k] }); cases.push((format!("input {i}"), w, e)); }
    { let mut w = good.clone(); w.initial = other; cases.push(("initial".into(), w, e)); }
    cases.push(("endoscalar".into(), good.clone(), e ^ (1 << 40)));
    let ys: Vec<C::Base> = [2u64, 3, 12345].iter().map(|y| C::Base::from(*y)).collect();
    let results: Vec<std::sync::Mutex<bool>> = cases.iter().map(|_| true.into()).collect();
    c.par_range(steps as u64, |step| {
        let circuit = EndoscalingStep::<C, R, N>::new(step as usize);
        let staged = MultiStage::<C::Base, R, _>::new(circuit.clone());
        let mut b = TestRegistryBuilder::<C::Base, R>::new();
        let h = b.register_circuit(MultiStage::new(circuit)).unwrap();
        let masks = [b.register_bonding(EndoscalarStage::mask().unwrap()), b.register_bonding(PointsStage::<C, N>::mask().unwrap()), b.register_bonding(PointsStage::<C, N>::final_mask().unwrap())];
        let reg = b.finalize().unwrap();
        for (i, (what, w, e)) in cases.iter().enumerate() {
            let z = C::Base::ZERO;
            let erx = <EndoscalarStage as StageExt<C::Base, R>>::rx(z, *e).unwrap();
            let prx = <PointsStage<C, N> as StageExt<C::Base, R>>::rx(z, w).unwrap();
            let accepted = match staged.trace(EndoscalingStepWitness { endoscalar: *e, points: w }) {
                Err(_) => false,
                Ok(t) => {
                    let rx = reg.assemble(&t.into_output(), h, z).unwrap();
                    ys.iter().all(|y| {
                        let wf = [&erx, &prx, &rx].iter().zip(&masks).all(|(p, m)| p.revdot(&reg.y(*m, *y)) == C::Base::ZERO);
                        c.check(wf || what != "honest", || format!("{name} {N} points step {step} {what}"), || "a stage is not well formed".into());
                        let mut all = rx.clone(); all.add_assign(&erx); all.add_assign(&prx);
                        wf && all.revdot(&reg.y(h, *y)) == staged.ky((), *y).unwrap()
                    })
                }
            };
            if !accepted { *results[i].lock().unwrap() = false; }
            c.tick();
        }
    });
    for ((what, _, _), r) in cases.iter().zip(results) {
        let ok = *r.lock().unwrap();
        c.check(ok == (what == "honest"), || format!("{name} {N} points: {what}"), || if ok { "accepted".into() } else { "refused".into() });
        c.outcome(if ok { "accepted" } else { "refused" });
    }
}

pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough;
    let es = endoscalars(deep);
    let few: Vec<Uendo> = vec![0, Uendo::MAX, 206786806484900909362154774549736492353];
    ctx.cell("native, every number of points", |c| {
        macro_rules! each { ($f:ident, $($n:literal)*) => { $( $f::<EpAffine, $n>(c, "Ep", &es); $f::<EqAffine, $n>(c, "Eq", &es); )* } }
        each!(native, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 21 22);
        native::<EqAffine, NUM_ENDOSCALING_POINTS>(c, "Eq", &es);
        native::<EpAffine, NUM_ENDOSCALING_POINTS>(c, "Ep", &es);
        c.sample(|| format!("{} endoscalars: {:#x?}...", es.len(), &es[..3]));
    });
    ctx.cell("native, all points of small curves", |c| {
        native_tiny::<tiny::cycle7::EqAffine, 1>(c, "7 points", 7);
        native_tiny::<tiny::cycle7::EqAffine, 2>(c, "7 points", 7);
        native_tiny::<tiny::cycle7::EqAffine, 3>(c, "7 points", 7);
        native_tiny::<tiny::cycle13::EpAffine, 2>(c, "19 points", 19);
        native_tiny::<tiny::cycle7::EpAffine, 3>(c, "13 points", 13);
        if deep { native_tiny::<tiny::cycle7::EqAffine, 5>(c, "7 points", 7); native_tiny::<tiny::cycle7::EqAffine, 6>(c, "7 points", 7); native_tiny::<tiny::cycle13::EpAffine, 3>(c, "19 points", 19); native_tiny::<tiny::cycle79::EpAffine, 2>(c, "97 points", 97); }
    });
    ctx.cell("each step admits exactly its value", |c| {
        macro_rules! each { ($($n:literal)*) => { $( exact::<EpAffine, $n>(c, "Ep", if deep { &es } else { &few }, true); exact::<EqAffine, $n>(c, "Eq", &few[if deep { 0 } else { 2 }..], deep); )* } }
        each!(2 3 4 5 6 7 8 9 10 13 14);
        exact::<EqAffine, NUM_ENDOSCALING_POINTS>(c, "Eq", &few[2..], true);
        if deep { exact::<EpAffine, NUM_ENDOSCALING_POINTS>(c, "Ep", &few[2..], true); }
        exact::<EpAffine, 5>(c, "Ep", &es, true);
    });
    ctx.cell("every value altered", |c| {
        altered::<EpAffine, 2>(c, "Ep", &few[2..], 1);
        altered::<EpAffine, 6>(c, "Ep", &few[2..], if deep { 1 } else { 8 });
        altered::<EqAffine, 9>(c, "Eq", &few[2..], if deep { 1 } else { 16 });
        if deep { altered::<EpAffine, 5>(c, "Ep", &few, 1); altered::<EqAffine, 13>(c, "Eq", &few, 4); altered::<EqAffine, NUM_ENDOSCALING_POINTS>(c, "Eq", &few[2..], 8); }
    });
    ctx.cell("coincident points", |c| {
        coincident::<EpAffine, 2>(c, "Ep", &few); coincident::<EpAffine, 6>(c, "Ep", &few[2..]); coincident::<EqAffine, 9>(c, "Eq", &few[2..]);
        if deep { coincident::<EpAffine, 10>(c, "Ep", &es); coincident::<EqAffine, 13>(c, "Eq", &few); }
    });
    ctx.cell("proved with real stages", |c| {
        proved::<EpAffine, 6>(c, "Ep", few[2]); proved::<EqAffine, 9>(c, "Eq", few[2]);
        if deep { proved::<EpAffine, 2>(c, "Ep", 0); proved::<EqAffine, NUM_ENDOSCALING_POINTS>(c, "Eq", few[2]); }
    });
    let _ = R::num_coeffs();
    ctx.assume("Endoscalars are boundary patterns, every single bit (thorough), and for small curves representatives of every scalar; points on the production curves are chosen multiples of the generator, including repeated, opposite and coincident ones. Boolean bits and curve membership of stage values are enforced outside these circuits (as the code says) and are given here.");
}
