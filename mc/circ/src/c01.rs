//! C01: every execution strategy sees the same computation.
use crate::circ;
use crate::prog::*;
use ff::{Field, FromUniformBytes, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::{Dry, Live};
use ragu_circuits::polynomials::{txz, Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_circuits::{Circuit, CircuitExt, WithAux};
use ragu_core::drivers::emulator::{Emulator, Wired};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_core::routines::Prediction;
use ragu_core::{Error, Result};
use ragu_primitives::io::Write;
use ragu_primitives::poseidon::Sponge;
use ragu_primitives::vec::{ConstLen, FixedVec};
use ragu_primitives::{Boolean, Element, Endoscalar, Point, Simulator};
use group::prime::PrimeCurveAffine;
use ragu_arithmetic::Cycle;
use ragu_pasta::{EpAffine, Fp, Pasta};
use std::sync::Arc;

type F = Tiny<257>;
/// Whether witness closures fail in a circuit.
enum Expect { Fine, Markers(Vec<String>), Maybe }
fn same_err(e: &Error, want: &[String]) -> bool { want.contains(&format!("{e:?} / {e}")) }
fn show(e: &Error) -> String { format!("{e:?} / {e}") }

/// Outcome of one strategy: values of the public outputs and the circuit's
/// auxiliary output.
type Seen<F> = Result<(Vec<F>, Vec<F>)>;
trait Plain<F: Field>: for<'s> Circuit<F, Witness<'s> = Vec<F>, Aux<'s> = Vec<F>> + Clone + 'static {}
impl<F: Field, C: for<'s> Circuit<F, Witness<'s> = Vec<F>, Aux<'s> = Vec<F>> + Clone + 'static> Plain<F> for C {}
fn simulate<F: PrimeField, C: Plain<F>>(circuit: &C, w: Vec<F>) -> (Seen<F>, (usize, usize, usize)) {
    let mut dr = Simulator::<F>::new();
    let mut counts = (0, 0, 0);
    let r = (|| {
        let now = |dr: &Simulator<F>| (dr.num_allocations(), dr.num_gates(), dr.num_constraints());
        // Metrics that were reset start over.
        let was = now(&dr);
        let early = circuit.witness(&mut dr, Always::maybe_just(|| w.clone())).is_ok();
        let first = now(&dr);
        dr.reset();
        assert_eq!(now(&dr), was, "metrics after a reset");
        let (out, aux) = circuit.witness(&mut dr, Always::maybe_just(|| w))?.into_parts();
        assert!(early, "a second run in the same simulator is accepted, the first was not");
        counts = now(&dr);
        assert_eq!(counts, first, "metrics of a second run");
        let (mut a, mut b) = (OutBuf(vec![]), ValBuf(vec![]));
        C::Output::write_gadget(&out, &mut dr, &mut a)?;
        C::Output::write_gadget(&out, &mut dr, &mut b)?;
        assert_eq!(a.0, b.0, "simulated wires and carried values");
        Ok((b.0, aux.take()))
    })();
    (r, counts)
}
fn wired<F: PrimeField, C: Plain<F>>(circuit: &C, w: Vec<F>) -> Seen<F> {
    let mut dr = Emulator::<Wired<F>>::extractor();
    let (out, aux) = circuit.witness(&mut dr, Always::maybe_just(|| w))?.into_parts();
    let (mut a, mut b) = (OutBuf(vec![]), ValBuf(vec![]));
    C::Output::write_gadget(&out, &mut dr, &mut a)?;
    C::Output::write_gadget(&out, &mut dr, &mut b)?;
    assert_eq!(a.0, b.0, "emulated wires and carried values");
    Ok((b.0, aux.take()))
}
fn wireless<F: PrimeField, C: Plain<F>>(circuit: &C, w: Vec<F>) -> Seen<F> {
    let mut dr = Emulator::execute();
    let (out, aux) = circuit.witness(&mut dr, Always::maybe_just(|| w))?.into_parts();
    let mut b = ValBuf(vec![]);
    C::Output::write_gadget(&out, &mut dr, &mut b)?;
    Ok((b.0, aux.take()))
}
struct NoBuf(usize);
impl<'dr, D: Driver<'dr>> ragu_primitives::io::Buffer<'dr, D> for NoBuf { fn write(&mut self, _: &mut D, _: &Element<'dr, D>) -> Result<()> { self.0 += 1; Ok(()) } }
fn counter<F: PrimeField, C: Plain<F>>(circuit: &C) -> Result<usize> {
    use ragu_core::maybe::Empty;
    let mut dr = Emulator::counter();
    let out = circuit.witness(&mut dr, Empty::maybe_just(|| -> Vec<F> { panic!("witness evaluated") }))?.into_output();
    let mut b = NoBuf(0);
    C::Output::write_gadget(&out, &mut dr, &mut b)?;
    Ok(b.0)
}

/// Compares all strategies on a circuit. `markers`: the circuit contains
/// failing witness closures.
fn agree<F: FromUniformBytes<64>, R: Rank, C: Plain<F>>(c: &CellCtx, name: &dyn Fn() -> String, circuit: &C, w: &dyn Fn() -> Vec<F>, markers: &Expect) {
    let bad = |what: String| { c.violation(name(), what); };
    let live = reference_of::<F, Live, _>(circuit, || w());
    let dry = reference_of::<F, Dry, _>(circuit, || panic!("witness evaluated"));
    let dry = match dry { Ok(d) => d, Err(e) => return bad(format!("synthesis without a witness: {e}")) };
    let (sim, counts) = simulate(circuit, w());
    let wi = wired(circuit, w());
    let wl = wireless(circuit, w());
    match counter::<F, C>(circuit) { Ok(n) => if n != dry.outs.len() { return bad(format!("counting wrote {n} outputs")); }, Err(e) => return bad(format!("counting: {e}")) }
    let reg = match RegistryBuilder::<F, R>::new().register_circuit(circuit.clone()).and_then(|b| b.finalize()) { Ok(r) => r, Err(e) => return bad(format!("registration: {e}")) };
    let i = CircuitIndex::new(0);
    if reg.constraint_counts(i) != (dry.gates, dry.cons) { return bad(format!("reported counts {:?}, expected {:?}", reg.constraint_counts(i), (dry.gates, dry.cons))); }
    let y = F::from(3);
    let mut sy = dry.sy(R::n(), y);
    sy[4 * R::n() - 1] += reg.digest() * y.pow_vartime([4 * R::n() as u64 - 1]);
    if reg.circuit_y(i, y).iter_coeffs().collect::<Vec<F>>() != sy { return bad("wiring polynomial".into()); }
    let trace = circuit.trace(w());
    c.states(8); c.transitions(8); c.traces(1);
    let sys = match live {
        Err(e) => {
            // A failing closure: whoever runs it reports it.
            let first = [show(&e)];
            let all = match markers { Expect::Fine => return bad(format!("reference: {e}")), Expect::Markers(m) => &m[..], Expect::Maybe => &first[..] };
            c.outcome("closure fails");
            if let Err(e) = &sim { if !same_err(e, &first) && !show(e).contains("constraint") && !show(e).contains("check") { return bad(format!("simulation reported {}", show(e))); } } else { return bad("simulation lost an error".into()); }
            match &wi { Err(e) if same_err(e, &first) => {} Err(e) => return bad(format!("emulation reported {}, expected {}", show(e), first[0])), Ok(_) => return bad("emulation lost an error".into()) }
            match &trace { Err(e) if same_err(e, all) => {} Err(e) => return bad(format!("tracing reported {}", show(e))), Ok(_) => return bad("tracing lost an error".into()) }
            if matches!(markers, Expect::Maybe) { return; }
            if let Err(e) = &wl { return bad(format!("wireless emulation ran a gate or allocation closure: {e}")); }
            return;
        }
        Ok(s) => s,
    };
    if sys.lin != dry.lin || sys.gates != dry.gates || sys.segs != dry.segs { return bad("the constraints depend on the presence of a witness".into()); }
    let (wo, wa) = match wi { Ok(x) => x, Err(e) => return bad(format!("wired emulation: {e}")) };
    if wo != sys.outs { return bad(format!("wired emulation: outputs {wo:?}, expected {:?}", sys.outs)); }
    match wl { Ok((o, a)) => if o != sys.outs || a != wa { return bad(format!("wireless emulation: outputs {o:?} ({a:?}), expected {:?} ({wa:?})", sys.outs)); }, Err(e) => return bad(format!("wireless emulation: {e}")) }
    let ok = sys.satisfied();
    c.outcome(if ok { "satisfied" } else { "violated" });
    match sim {
        Ok((o, a)) => { if !ok { return bad("simulation accepted a violated system".into()); } if o != sys.outs || a != wa { return bad(format!("simulation: outputs {o:?}, expected {:?}", sys.outs)); } if counts != (sys.allocs, sys.plain_gates, sys.inner_cons) { return bad(format!("simulation counted {counts:?}, expected {:?}", (sys.allocs, sys.plain_gates, sys.inner_cons))); } }
        Err(e) => { if ok { return bad(format!("simulation refused a satisfied system: {e}")); } if !matches!(e, Error::InvalidWitness(_)) { return bad(format!("simulation refused with {e:?}")); } }
    }
    match trace {
        Err(e) => return bad(format!("tracing: {e}")),
        Ok(t) => {
            let (t, a) = t.into_parts();
            if a != wa { return bad("tracing: auxiliary output".into()); }
            let alpha = F::from(77);
            match reg.assemble_with_alpha(&t, i, alpha) {
                Err(e) => return bad(format!("assembly: {e}")),
                Ok(p) => { let (got, want) = (p.iter_coeffs().collect::<Vec<F>>(), sys.trace(R::n(), alpha)); if got != want { let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0); return bad(format!("trace coefficient {k}: {:?}, expected {:?}", got[k], want[k])); } }
            }
        }
    }
    c.sample(|| name());
}
fn prog(ops: Vec<Op>, outs: usize) -> Prog { Prog { ops, outs: (0..outs).collect(), subs: subs() } }
fn agree_prog(c: &CellCtx, name: &dyn Fn() -> String, p: &Prog, ins: &[F], markers: &Expect) {
    let w = || ins.to_vec();
    circ!(p, k => agree::<F, TestRank, _>(c, name, &k, &w, markers));
    // Every wire carries its value, under every strategy.
    if !matches!(markers, Expect::Fine) { return; }
    let sys = match reference::<F, Live>(p, ins) { Ok(s) => s, Err(e) => return c.violation(name(), format!("{e}")) };
    let em = Emulator::emulate_wired(ins.to_vec(), |dr, w| run_on::<F, _>(p, dr, w)).map(|x| x.1);
    if em.as_ref().ok() != Some(&sys.wires) { c.violation(name(), format!("emulated wires {em:?}, expected {:?}", sys.wires)); }
    let wl = Emulator::emulate_wireless(ins.to_vec(), |dr, w| circ!(p, k => k.witness(dr, w).map(|x| x.into_aux().take())));
    if wl.as_ref().ok() != Some(&sys.wires) { c.violation(name(), format!("values {wl:?}, expected {:?}", sys.wires)); }
}

fn marker(k: u32) -> String { show(&Error::InvalidWitness(format!("marker {k}").into())) }
/// Steps with one failing closure each.
fn failing(bad: usize) -> Vec<Op> {
    use Op::*;
    use Val::*;
    let x = |i: usize, j: usize| if i == j { Fail(1) } else { K(0) };
    let mut v = vec![Alloc(Fail(1))];
    for i in 0..3 { v.push(RawMul(x(i, 0), x(i, 1), x(i, 2))); }
    for i in 0..4 { v.push(Gate(x(i, 0), x(i, 1), x(i, 2), x(i, 3))); }
    for k in 0..4 { v.push(Call(bad + k, 0, 1)); }
    v
}
fn bad_subs() -> Arc<Vec<Sub>> {
    let mut s = (*subs()).clone();
    let n = s.len();
    let mk = |name, known, ops| Sub { name, known, ops, outs: [0, 1] };
    s.push(mk("failing", false, vec![Op::Alloc(Val::Fail(2))]));
    s.push(mk("failing, known", true, vec![Op::Alloc(Val::K(1)), Op::RawMul(Val::K(0), Val::Fail(2), Val::K(0))]));
    s.push(mk("failing inside", false, vec![Op::Call(n + 1, 0, 1), Op::Mul(0, 1)]));
    s.push(mk("failing inside, known", true, vec![Op::Mul(0, 1), Op::Call(n, 0, 1)]));
    Arc::new(s)
}

// ---- circuits made of gadgets ----
#[derive(Clone, Copy, Debug)]
enum Step { Square, Invert, IsZero, DivNonzero, Bool, Pack(usize), Fold, Hash(usize, usize), Endo, Scale, PointOps }
#[derive(Clone)]
struct Gadgets { steps: Vec<Step> }
impl Circuit<Fp> for Gadgets {
    type Instance<'s> = Vec<Fp>;
    type Witness<'s> = Vec<Fp>;
    type Output = Kind![Fp; FixedVec<Element<'_, _>, ConstLen<2>>];
    type Aux<'s> = Vec<Fp>;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, i: DriverValue<D, Vec<Fp>>) -> Result<Bound<'dr, D, Self::Output>> where Self: 'dr { FixedVec::try_from_fn(|k| Element::alloc(dr, i.as_ref().map(|v| v[k]))) }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, w: DriverValue<D, Vec<Fp>>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, Vec<Fp>>>> where Self: 'dr {
        let mut x = Element::alloc(dr, w.as_ref().map(|v| v[0]))?;
        let mut y = Element::alloc(dr, w.as_ref().map(|v| v[1]))?;
        let mut log: Vec<Element<'dr, D>> = vec![];
        for s in &self.steps {
            let (nx, ny) = match s {
                Step::Square => { let s = x.square(dr)?; (s.add(dr, &y), x.mul(dr, &y)?) }
                Step::Invert => (x.invert(dr)?, y.clone()),
                Step::IsZero => { let b = x.is_zero(dr)?; (b.element(), y.clone()) }
                Step::DivNonzero => (y.div_nonzero(dr, &x)?, x.clone()),
                Step::Bool => { let b = Boolean::alloc(dr, w.as_ref().map(|v| v[0] == v[1]))?; (b.conditional_select(dr, &x, &y)?, b.element()) }
                Step::Pack(k) => { let bits = (0..*k).map(|i| Boolean::alloc(dr, w.as_ref().map(|_| i % 3 == 1))).collect::<Result<Vec<_>>>()?; (ragu_primitives::multipack(dr, &bits)?[0].clone(), y.clone()) }
                Step::Fold => (Element::fold(dr, [&x, &y, &x, &y], &x)?, y.clone()),
                Step::Hash(a, q) => {
                    let mut sp = Sponge::<_, <Pasta as Cycle>::CircuitPoseidon>::new(dr, Pasta::circuit_poseidon(Pasta::baked()));
                    for i in 0..*a { sp.absorb(dr, if i % 2 == 0 { &x } else { &y })?; }
                    let mut out = (x.clone(), y.clone());
                    for _ in 0..*q { out = (sp.squeeze(dr)?, out.0); }
                    out
                }
                Step::Endo => { let e = Endoscalar::alloc(dr, w.as_ref().map(|_| ragu_arithmetic::Uendo::from(0x1234_5678_9abc_def0_0fed_cba9_8765_4321u128)))?; (e.lift(dr)?, y.clone()) }
                Step::Scale => {
                    let e = Endoscalar::alloc(dr, w.as_ref().map(|_| ragu_arithmetic::Uendo::from(0xf0f0_0000_1111_2222_3333_4444_5555_6666u128)))?;
                    let p = Point::<_, EpAffine>::alloc(dr, w.as_ref().map(|_| EpAffine::generator()))?;
                    let q = e.group_scale(dr, &p)?;
                    let mut o = OutEl(vec![]);
                    ragu_primitives::GadgetExt::write(&q, dr, &mut o)?;
                    (o.0[0].clone(), o.0[1].clone())
                }
                Step::PointOps => {
                    let p = Point::<_, EpAffine>::alloc(dr, w.as_ref().map(|_| EpAffine::generator()))?;
                    let q = p.double(dr)?;
                    let q = q.add_incomplete(dr, &p, None)?.negate(dr);
                    let mut o = OutEl(vec![]);
                    ragu_primitives::GadgetExt::write(&q, dr, &mut o)?;
                    (o.0[0].clone(), o.0[1].clone())
                }
            };
            log.push(nx.clone()); log.push(ny.clone());
            (x, y) = (nx, ny);
        }
        let aux = D::just(|| log.iter().map(|e| *e.value().take()).collect());
        Ok(WithAux::new(FixedVec::from_fn(|i| if i == 0 { x.clone() } else { y.clone() }), aux))
    }
}
struct OutEl<'dr, D: Driver<'dr>>(Vec<Element<'dr, D>>);
impl<'dr, D: Driver<'dr>> ragu_primitives::io::Buffer<'dr, D> for OutEl<'dr, D> { fn write(&mut self, _: &mut D, v: &Element<'dr, D>) -> Result<()> { self.0.push(v.clone()); Ok(()) } }

pub fn run(ctx: &Ctx) {
    ctx.assume("The recording driver of this check defines what a circuit means: paired allocations, gates and constraints by routine in order of first entry.");
    ctx.assume("Wireless emulation does not run allocation and gate closures, so their errors are not expected from it.");
    let st = steps(subs().len());
    let ins = [F::new(5), F::new(11)];
    for len in 0..=if ctx.thorough { 5 } else { 4 } {
        ctx.cell(&format!("all programs of {len} steps"), |c| {
            let n = n_sequences(&st, len);
            c.outcomes("programs", n);
            c.par_range(n, |i| { let s = sequence(&st, len, i); agree_prog(c, &|| format!("{s:?} outs {}", i % 4), &prog(s.clone(), (i % 4) as usize), &ins, &Expect::Fine); });
        });
    }
    ctx.cell("routines of every shape", |c| c.par(&shapes(subs().len()), |s| for outs in [0, 2] { agree_prog(c, &|| format!("{s:?} outs {outs}"), &prog(s.clone(), outs), &ins, &Expect::Fine) }));
    ctx.cell("many routines", |c| {
        let all = crowds(subs().len(), if c.thorough() { 60 } else { 24 });
        c.par(&all, |s| {
            let p = prog(s.clone(), 1);
            let k = reference::<F, Dry>(&p, &[]).unwrap();
            if k.gates <= 32 && k.cons < 128 { agree_prog(c, &|| format!("{s:?}"), &p, &ins, &Expect::Fine) } else { c.outcome("too large"); }
        });
    });
    ctx.cell("deeply nested routines", |c| c.par(&towers(if c.thorough() { 10 } else { 7 }), |p| {
        let k = reference::<F, Dry>(p, &[]).unwrap();
        if k.gates <= 32 && k.cons < 128 { agree_prog(c, &|| format!("{:?}", p.subs), p, &ins, &Expect::Fine) } else { c.outcome("too large"); }
    }));
    ctx.cell("long combinations", |c| c.par(&long_forms(if c.thorough() { 80 } else { 40 }), |s| agree_prog(c, &|| format!("{s:?}"), &prog(s.clone(), 2), &ins, &Expect::Fine)));
    ctx.cell("many public outputs", |c| many_outputs(&st, if c.thorough() { 3 } else { 2 }, |all| c.par(&all, |p| agree_prog(c, &|| format!("{:?}, {} outputs", p.ops, p.outs.len()), p, &ins, &Expect::Fine))));
    ctx.cell("every form of coefficient", |c| {
        let all = forms();
        c.par(&all, |s| for outs in [0, 2] { agree_prog(c, &|| format!("{s:?} outs {outs}"), &prog(s.clone(), outs), &ins, &Expect::Fine) });
    });
    ctx.cell("all inputs", |c| {
        // Whether each step's constraints hold depends on the inputs.
        let seqs: Vec<Vec<Op>> = (0..=2).flat_map(|l| sequences(&st, l)).collect();
        let vals: Vec<F> = if c.thorough() { (0..17).map(F::new).collect() } else { [0, 1, 2, 256].map(F::new).to_vec() };
        c.par_range(seqs.len() as u64, |i| { for a in &vals { for b in &vals { let s = &seqs[i as usize]; agree_prog(c, &|| format!("{s:?} on {a:?}, {b:?}"), &prog(s.clone(), 2), &[*a, *b], &Expect::Fine); } } });
    });
    ctx.cell("failing closures", |c| {
        let subs = bad_subs();
        let bad = subs.len() - 4;
        let fail = failing(bad);
        let pre: Vec<Vec<Op>> = (0..=if c.thorough() { 2 } else { 1 }).flat_map(|l| sequences(&st, l)).collect();
        let mut post: Vec<Vec<Op>> = (0..=1).flat_map(|l| sequences(&st, l)).collect();
        for f in &fail { post.push(vec![f.clone()]); }
        let marks = Expect::Markers(vec![marker(1), marker(2)]);
        let items: Vec<(usize, usize, usize)> = (0..pre.len()).flat_map(|a| (0..fail.len()).flat_map({ let n = post.len(); move |f| (0..n).map(move |b| (a, f, b)) })).collect();
        c.par(&items, |(a, f, b)| {
            let mut ops = pre[*a].clone(); ops.push(fail[*f].clone()); ops.extend(post[*b].iter().cloned());
            let p = Prog { ops, outs: vec![0], subs: subs.clone() };
            agree_prog(c, &|| format!("{:?}", p.ops), &p, &ins, &marks);
        });
    });
    ctx.cell("circuits made of gadgets", |c| {
        use Step::*;
        let mut st = vec![Square, Invert, IsZero, DivNonzero, Bool, Fold, Endo, Scale, PointOps];
        for k in [1, 5, 300] { st.push(Pack(k)); }
        for (a, q) in [(1, 1), (3, 2), (5, 1), (4, 5), (9, 6)] { st.push(Hash(a, q)); }
        let mut seqs: Vec<Vec<Step>> = vec![vec![]];
        for a in &st { seqs.push(vec![*a]); for b in &st { seqs.push(vec![*a, *b]); } }
        if c.thorough() { for a in &st { for b in &st { for d in &st { seqs.push(vec![*a, *b, *d]); } } } }
        let items: Vec<(usize, u64, u64)> = (0..seqs.len()).flat_map(|i| [(5, 7), (0, 3), (1, 1)].map(|(a, b)| (i, a, b))).collect();
        c.par(&items, |(i, a, b)| {
            let s = &seqs[*i];
            let k = Gadgets { steps: s.clone() };
            let dry = reference_of::<Fp, Dry, _>(&k, || panic!("witness evaluated")).unwrap();
            if dry.gates > 2048 || dry.cons >= 8192 { c.outcome("too large"); return; }
            agree::<Fp, ragu_circuits::polynomials::ProductionRank, _>(c, &|| format!("{s:?} on {a}, {b}"), &k, &|| vec![Fp::from(*a), Fp::from(*b)], &Expect::Maybe);
        });
    });
    ctx.cell("predicted evaluations of t(X, Z)", crate::txz::decide);
}
