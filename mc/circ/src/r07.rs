//! R07: every schedule of the spawned tasks gives the result sequential
//! execution gives.
use crate::circ;
use crate::prog::*;
use ff::{Field, FromUniformBytes, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
#[cfg(feature = "r07")]
use kit::{CellCtx, Ctx};
use kit::tiny::Tiny;
#[cfg(feature = "r07")]
use maybe_rayon::mc;
#[cfg(feature = "r07")]
use mc_drv::Live;
use ragu_arithmetic::{Domain, Ring};
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::CircuitExt;
use ragu_core::Error;
use ragu_pasta::{EpAffine, EqAffine, Fp, Fq};
use std::sync::Arc;

type F = Tiny<257>;

/// Steps whose only purpose is to separate and nest tasks.
fn few() -> Vec<Op> {
    use Op::*;
    use Val::*;
    let mut v = vec![Alloc(Sum(0, 1)), Mul(0, 1), Gate(K(3), K(4), K(12), K(0))];
    for k in 0..all_subs().len() - 3 { v.push(Call(k, 0, 1)); }
    v
}
/// The usual routines, some with more concurrency inside, and failing ones.
fn all_subs() -> Arc<Vec<Sub>> {
    use Op::*;
    use Val::*;
    let mut v = subs().to_vec();
    let n = v.len();
    let s = |name, known, ops, outs| Sub { name, ops, outs, known };
    v.push(s("two known, known", true, vec![Call(3, 0, 1), Alloc(K(2)), Call(5, 1, 2), Mul(0, 1)], [0, 2]));
    v.push(s("deep", true, vec![Alloc(Aux), Call(n, 0, 1), Alloc(K(5))], [0, 1]));
    v.push(s("fails", false, vec![Alloc(K(1)), Alloc(Fail(1))], [1, 1]));
    v.push(s("fails later, known", true, vec![Alloc(K(1)), Alloc(Fail(2))], [1, 1]));
    v.push(s("fails inside", true, vec![Call(3, 0, 1), Call(n + 3, 0, 1), Alloc(K(3))], [1, 1]));
    Arc::new(v)
}
fn prog(ops: Vec<Op>, outs: usize) -> Prog { Prog { ops, outs: (0..outs).collect(), subs: all_subs() } }
fn registry<F: FromUniformBytes<64>, R: Rank>(p: &Prog) -> ragu_core::Result<Registry<'static, F, R>> {
    circ!(p, c => RegistryBuilder::<F, R>::new().register_circuit(c)?.finalize())
}
type Run<F> = Result<(Vec<F>, Vec<F>), String>;
fn describe(e: Error) -> String { format!("{e}") }
/// Trace and auxiliary data of a program, as one value.
fn traced<F: FromUniformBytes<64>, R: Rank>(reg: &Registry<'_, F, R>, p: &Prog, ins: &[F]) -> Run<F> {
    let ins = ins.to_vec();
    let (t, aux) = circ!(p, c => c.trace(ins)).map_err(describe)?.into_parts();
    let r = reg.assemble_with_alpha(&t, CircuitIndex::new(0), F::from(9)).map_err(describe)?;
    Ok((r.iter_coeffs().collect(), aux))
}

struct Pairs<F>(std::marker::PhantomData<F>);
impl<F: PrimeField> Ring for Pairs<F> {
    type R = (F, F);
    type F = F;
    fn scale_assign(r: &mut (F, F), by: F) { r.0 *= by; r.1 *= by; }
    fn add_assign(r: &mut (F, F), o: &(F, F)) { r.0 += o.0; r.1 += o.1; }
    fn sub_assign(r: &mut (F, F), o: &(F, F)) { r.0 -= o.0; r.1 -= o.1; }
}
fn horner<F: Field>(v: &[F], x: F) -> F { v.iter().rev().fold(F::ZERO, |a, c| a * x + *c) }
fn vector<F: PrimeField>(k: u32, family: usize) -> Vec<F> { let n = 1usize << k; (0..n).map(|i| match family { 0 => F::from(i as u64 + 1), 1 => if i == n / 2 { F::ONE } else { F::ZERO }, _ => F::from((i * i % 251) as u64) - F::from(3) }).collect() }
fn lists<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(n: usize, family: usize) -> (Vec<C::ScalarExt>, Vec<C>) {
    let g = C::CurveExt::generator();
    let mut p = g;
    let bases = (0..n).map(|i| { let r = p; p = p.double() + g; if i % 7 == 3 { C::identity() } else { r.to_affine() } }).collect();
    let scalars = (0..n).map(|i| match family { 0 => C::ScalarExt::from(i as u64 + 1), 1 => -C::ScalarExt::from(i as u64), _ => C::ScalarExt::ROOT_OF_UNITY * C::ScalarExt::from(i as u64 * 77 + 1) }).collect();
    (scalars, bases)
}
fn times<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(s: &C::ScalarExt, p: &C) -> C::CurveExt {
    let mut acc = C::CurveExt::identity();
    for b in s.to_repr().as_ref().iter().rev() { for i in (0..8).rev() { acc = acc.double(); if b >> i & 1 == 1 { acc += *p; } } }
    acc
}
/// Registry of `n` different circuits.
fn registry_of(n: usize) -> Registry<'static, Fp, TestRank> {
    let mut b = RegistryBuilder::<Fp, TestRank>::new();
    for k in 0..n {
        let p = prog(vec![Op::Alloc(Val::In(0)), Op::Zero(vec![Lc::T(0, Co::Arb(k as u64 + 1)), Lc::One(Co::NegArb(k as u64 / 5))]), Op::Call(k % 11, 0, 1)], k % 3);
        b = circ!(&p, c => b.register_circuit(c)).unwrap();
    }
    b.finalize().unwrap()
}
fn registry_values(r: &Registry<'_, Fp, TestRank>) -> Vec<Fp> {
    let p = [Fp::ZERO, Fp::ONE, Fp::from(5), Fp::ROOT_OF_UNITY];
    let mut v = vec![r.digest()];
    for w in p { for x in p { v.extend(r.wx(w, x).iter_coeffs()); v.extend(r.wy(w, x).iter_coeffs()); for y in p { v.push(r.wxy(w, x, y)); } } }
    for x in p { v.extend(r.xy(x, Fp::from(8)).iter_coeffs()); }
    v
}
/// Every result that does not depend on the schedule, in a fixed order, for
/// comparison with the code built without parallelism.
fn results(each: &mut dyn FnMut(String, String)) {
    let st = few();
    for len in 0..=3 { for i in 0..n_sequences(&st, len) {
        let p = prog(sequence(&st, len, i), (i % 4) as usize);
        let ins = [F::new(5), F::new(11)];
        let r = registry::<F, TestRank>(&p).map_err(describe).and_then(|r| traced(&r, &p, &ins));
        each(format!("trace of {:?}", p.ops), format!("{r:?}"));
    } }
    fn fields<F: PrimeField>(name: &str, each: &mut dyn FnMut(String, String)) {
        for k in 0..=9 { for fam in 0..3 {
            let d = Domain::<F>::new(k);
            let (mut a, mut b) = (vector::<F>(k, fam), vector::<F>(k, fam));
            d.fft(&mut a); d.ifft(&mut b);
            each(format!("{name} transform of 2^{k}, {fam}"), format!("{a:?} {b:?}"));
        } }
    }
    fields::<Fp>("Fp", each);
    fields::<Fq>("Fq", each);
    for n in [0, 1, 2, 3, 4, 5, 31, 32, 33, 200] { for fam in 0..3 {
        let (s, b) = lists::<EpAffine>(n, fam);
        each(format!("product of {n} on pallas, {fam}"), format!("{:?}", Curve::to_affine(&ragu_arithmetic::mul::<EpAffine, _, _>(&s, &b))));
        let (s, b) = lists::<EqAffine>(n, fam);
        each(format!("product of {n} on vesta, {fam}"), format!("{:?}", Curve::to_affine(&ragu_arithmetic::mul::<EqAffine, _, _>(&s, &b))));
    } }
    for n in [1, 2, 3, 4, 5, 9] { each(format!("registry of {n}"), format!("{:?}", registry_values(&registry_of(n)))); }
}
fn digest(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
#[cfg(feature = "r07seq")]
pub fn print_results() { results(&mut |k, v| println!("{k}\t{:016x}", digest(&v))) }

#[cfg(feature = "r07")]
fn failing(p: &Prog) -> Vec<u32> {
    fn go(p: &Prog, ops: &[Op], out: &mut Vec<u32>) { for o in ops { match o { Op::Alloc(Val::Fail(k)) => out.push(*k), Op::Call(k, ..) | Op::Shaped(k, ..) => go(p, &p.subs[*k].ops, out), _ => {} } } }
    let mut v = vec![];
    go(p, &p.ops, &mut v);
    v
}
#[cfg(feature = "r07")]
fn schedules(c: &CellCtx, p: &Prog, ins: &[F], bound: usize, cap: u64) {
    let name = || if p.subs[0].name == "leaf" { format!("{:?}", p.subs) } else { format!("{:?} outs {}", p.ops, p.outs.len()) };
    let fails = failing(p);
    // The wiring of a failing program is that of the program with the
    // failing values replaced (values do not matter for wiring).
    let reg = match registry::<F, TestRank>(p) { Ok(r) => r, Err(e) => return c.violation(name(), format!("registration: {e}")) };
    let want: Option<(Vec<F>, Vec<F>)> = fails.is_empty().then(|| { let s = reference::<F, Live>(p, ins).unwrap(); (s.trace(TestRank::n(), F::from(9)), s.wires.clone()) });
    let mut bad = false;
    let before = mc::points();
    let (n, complete) = mc::explore_within(bound, cap, || traced(&reg, p, ins), |choices, r| {
        if bad { return; }
        match (&want, r) {
            (Some((t, aux)), Ok((gt, ga))) => {
                if gt != *t { bad = true; c.violation(name(), format!("schedule {choices:?}: the trace differs from the sequential one")); }
                if ga != *aux { bad = true; c.violation(name(), format!("schedule {choices:?}: auxiliary data {ga:?}, sequentially {aux:?}")); }
            }
            (Some(_), Err(e)) => { bad = true; c.violation(name(), format!("schedule {choices:?}: {e}")); }
            (None, Ok(_)) => { bad = true; c.violation(name(), format!("schedule {choices:?}: a failing witness gave a trace")); }
            (None, Err(e)) => if !fails.iter().any(|k| e.ends_with(&format!("marker {k}"))) { bad = true; c.violation(name(), format!("schedule {choices:?}: error {e:?} is not one the witness computation reported")); },
        }
    });
    c.states(n); c.transitions(n + mc::points() - before); c.traces(n);
    c.outcome(if n == 1 { "programs with one schedule" } else { "programs with several schedules" });
    if !complete { c.capped("schedules per program limited"); }
    if n > 3 { c.sample(|| format!("{} ({n} schedules)", name())); }
}

#[cfg(feature = "r07")]
pub fn run(ctx: &Ctx) {
    ctx.assume("Tasks run without interruption: they share nothing but channels (no unsafe code, no locks or atomics in the crates), so only the order of task executions relative to each other and to the points where tasks are spawned is observable.");
    ctx.assume("The executor is replaced by one with the same interface whose choices are enumerated; the number of threads it reports is a parameter.");
    let st = few();
    let n_st = st.len();
    let ins = [F::new(5), F::new(11)];
    for len in 1..=if ctx.thorough { 3 } else { 2 } {
        ctx.cell(&format!("traces of {len} steps, all schedules"), |c| c.par_range(n_sequences(&st, len), |i| schedules(c, &prog(sequence(&st, len, i), (i % 4) as usize), &ins, usize::MAX, 1 << 20)));
    }
    for (len, bound) in if ctx.thorough { [(3, 4), (4, 3)] } else { [(3, 3), (4, 1)] } {
        ctx.cell(&format!("traces of {len} steps, {bound} deviations"), |c| c.par_range(n_sequences(&st, len), |i| schedules(c, &prog(sequence(&st, len, i), (i % 4) as usize), &ins, bound, 1 << 20)));
    }
    ctx.cell("routines of every shape, all schedules", |c| c.par(&shapes(subs().len()), |s| schedules(c, &prog(s.clone(), 2), &ins, usize::MAX, 1 << 20)));
    ctx.cell("deeply nested routines", |c| c.par(&towers(if c.thorough() { 8 } else { 6 }), |p| {
        let r = reference::<F, Live>(p, &ins).unwrap();
        if r.gates <= 32 && r.cons < 128 { schedules(c, p, &ins, 1, 1 << 16) } else { c.outcome("does not fit") }
    }));
    ctx.cell("many tasks, few deviations", |c| {
        // Up to six tasks at once; every schedule that departs from
        // "run everything at the end, oldest first" a bounded number of times.
        let calls: Vec<Op> = [3, 5, 8, 11, 12, 1].iter().map(|k| Op::Call(*k, 0, 1)).collect();
        let len = if c.thorough() { 5 } else { 4 };
        c.par_range(n_sequences(&calls, len), |i| { let mut s = vec![Op::Alloc(Val::In(0))]; s.extend(sequence(&calls, len, i)); s.push(Op::Alloc(Val::Sum(0, 2))); let p = prog(s, 2); let r = reference::<F, Live>(&p, &ins).unwrap(); if r.gates <= 32 && r.cons < 128 { schedules(c, &p, &ins, if c.thorough() { 3 } else { 2 }, 1 << 20) } else { c.outcome("does not fit") } });
    });
    ctx.cell("failing routines", |c| {
        let n = all_subs().len();
        let mut ops: Vec<Op> = vec![Op::Alloc(Val::In(0)), Op::Call(3, 0, 1), Op::Call(8, 0, 1)];
        for k in n - 3..n { ops.push(Op::Call(k, 0, 1)); }
        for len in 1..=if c.thorough() { 5 } else { 4 } {
            c.par_range(n_sequences(&ops, len), |i| { let s = sequence(&ops, len, i); let p = prog(s, 1); if !failing(&p).is_empty() { schedules(c, &p, &ins, if len < 4 || c.thorough() { usize::MAX } else { 3 }, 1 << 16) } });
        }
    });
    ctx.cell("transforms, all join orders", |c| {
        let mut items = vec![];
        for k in 0..=8u32 { for threads in 1..=17usize { for fam in 0..3 { for pairs in [false, true] { items.push((k, threads, fam, pairs)); } } } }
        c.par(&items, |&(k, threads, fam, pairs)| {
            let d = Domain::<F>::new(k);
            let v = vector::<F>(k, fam);
            let pts = powers(d.omega(), 1 << k);
            let want: Vec<F> = pts.iter().map(|x| horner(&v, *x)).collect();
            mc::set_threads(threads);
            // All orders up to 2^4 elements, beyond that all with few deviations.
            let bound = match k { 0..=4 => usize::MAX, 5 => 4, 6 => 2, _ => if c.thorough() { 2 } else { 1 } };
            let mut bad = false;
            let before = mc::points();
            let (n, complete) = mc::explore_within(bound, 1 << 20, || {
                if pairs { let mut a: Vec<(F, F)> = v.iter().zip(v.iter().rev()).map(|(a, b)| (*a, *b)).collect(); d.ring_fft::<Pairs<F>>(&mut a); let f: Vec<F> = a.iter().map(|x| x.0).collect(); d.ring_ifft::<Pairs<F>>(&mut a); (f, a.iter().map(|x| x.0).collect()) }
                else { let mut a = v.clone(); d.fft(&mut a); let f = a.clone(); d.ifft(&mut a); (f, a) }
            }, |choices, (f, g)| if !bad && (f != want || g != v) { bad = true; c.violation(format!("2^{k} elements, {threads} threads, {fam}, pairs {pairs}"), format!("schedule {choices:?}")) });
            mc::set_threads(1);
            c.states(n); c.transitions(mc::points() - before + n); c.traces(n);
            if !complete { c.capped("join orders limited"); }
            c.sample(|| format!("2^{k} elements, {threads} threads: {n} join orders"));
        });
    });
    ctx.cell("multiplications, window orders", |c| {
        fn go<C: CurveAffine<CurveExt: CurveExt<AffineExt = C>> + PrimeCurveAffine<Scalar = C::ScalarExt, Curve = C::CurveExt>>(c: &CellCtx, name: &str) {
            let mut items = vec![];
            for n in [0usize, 1, 2, 3, 4, 8, 31, 32, 33, 60] { for fam in 0..3 { for threads in [1, 2, 8] { items.push((n, fam, threads)); } } }
            c.par(&items, |&(n, fam, threads)| {
                let (s, b) = lists::<C>(n, fam);
                let want = s.iter().zip(&b).fold(C::CurveExt::identity(), |a, (s, p)| a + times(s, p));
                mc::set_threads(threads);
                let mut bad = false;
                let before = mc::points();
                let (n, complete) = mc::explore(1 << 12, || ragu_arithmetic::mul(&s, &b), |choices, got: C::CurveExt| if !bad && got != want { bad = true; c.violation(format!("{name}: {n} terms, family {fam}, {threads} threads"), format!("schedule {choices:?}")) });
                mc::set_threads(1);
                c.states(n); c.transitions(mc::points() - before + n); c.traces(n);
                if !complete { c.capped("window orders limited"); }
            });
        }
        go::<EpAffine>(c, "pallas");
        go::<EqAffine>(c, "vesta");
    });
    ctx.cell("registries, thread counts", |c| {
        let items: Vec<(usize, usize)> = [1, 2, 3, 4, 5, 9, 17].iter().flat_map(|n| [2usize, 3, 4, 7, 8, 16, 33].map(|t| (*n, t))).collect();
        c.par(&items, |&(n, threads)| {
            mc::set_threads(1);
            let want = registry_values(&registry_of(n));
            mc::set_threads(threads);
            let mut bad = false;
            let (k, complete) = mc::explore_within(1, 24, || registry_values(&registry_of(n)), |choices, got| if !bad && got != want { bad = true; c.violation(format!("registry of {n}, {threads} threads"), format!("schedule {choices:?}")) });
            mc::set_threads(1);
            c.states(k); c.transitions(k * want.len() as u64); c.traces(k);
            if !complete { c.capped("the first schedules with one deviation"); }
        });
    });
    ctx.cell("built without parallelism", |c| {
        let exe = std::env::var("MC_EXTRA_EXE").expect("sequential build");
        let out = std::process::Command::new(exe).output().expect("sequential build");
        if !out.status.success() { return c.violation("sequential run", format!("status {:?}", out.status)); }
        let text = String::from_utf8(out.stdout).unwrap();
        let mut lines = text.lines();
        for threads in [1, 8] {
            mc::set_threads(threads);
            if threads == 8 { lines = text.lines(); }
            results(&mut |k, v| {
                let want = lines.next().unwrap_or("");
                let got = format!("{k}\t{:016x}", digest(&v));
                if want != got { c.violation(format!("{k}, {threads} threads"), "the code built with parallelism gives another result than the code built without"); }
                c.tick();
            });
        }
        mc::set_threads(1);
    });
    let _ = n_st;
}
