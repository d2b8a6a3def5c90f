//! R01: every way of evaluating a wiring polynomial gives the polynomial the
//! circuit's gates and constraints define.
use crate::circ;
use crate::prog::*;
use ff::{Field, FromUniformBytes, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::Live;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};

type F = Tiny<257>;

pub fn registry<F: FromUniformBytes<64>, R: Rank>(p: &Prog) -> ragu_core::Result<Registry<'static, F, R>> {
    circ!(p, c => RegistryBuilder::<F, R>::new().register_circuit(c)?.finalize())
}
fn wires(p: &Prog) -> usize { p.ops.len() * 4 }
/// The circuit's polynomial as every evaluation strategy sees it.
pub fn agree<F: FromUniformBytes<64>, R: Rank>(c: &CellCtx, name: &dyn Fn() -> String, p: &Prog, ins: &[F], xs: &[F], ys: &[F]) {
    let n = R::n();
    let sys = match reference::<F, Live>(p, ins) { Ok(s) => s, Err(e) => return c.violation(name(), format!("reference: {e}")) };
    let reg = match registry::<F, R>(p) { Ok(r) => r, Err(e) => return c.violation(name(), format!("registration: {e}")) };
    let (i, key) = (CircuitIndex::new(0), reg.digest());
    let w: F = i.omega_j();
    let top = 4 * n - 1;
    let mut states = 0;
    let sys_y: Vec<Vec<F>> = ys.iter().map(|y| sys.sy(n, *y)).collect();
    for (y, want) in ys.iter().zip(&sys_y) {
        let mut want = want.clone();
        want[top] += key * y.pow_vartime([top as u64]);
        for (what, poly) in [("circuit_y", reg.circuit_y(i, *y)), ("wy", reg.wy(w, *y))] {
            let got: Vec<F> = poly.iter_coeffs().collect();
            if got != want { c.violation(name(), format!("{what}({y:?}): {}", first_diff(&got, &want))); return; }
            states += 1;
        }
    }
    for x in xs {
        let mut want = sys.sx(n, *x);
        want[top] += key * x.pow_vartime([top as u64]);
        let got: Vec<F> = reg.wx(w, *x).iter_coeffs().collect();
        if got != want { c.violation(name(), format!("wx({x:?}): {}", first_diff(&got, &want))); return; }
        states += 1;
        for (y, sy) in ys.iter().zip(&sys_y) {
            let want = eval(sy, *x) + key * (*x * *y).pow_vartime([top as u64]);
            let got = reg.circuit_xy(i, *x, *y);
            if got != want { c.violation(name(), format!("circuit_xy({x:?}, {y:?}): got {got:?}, expected {want:?}")); return; }
            states += 1;
        }
    }
    c.states(states); c.transitions(states); c.traces(1);
    c.sample(|| name());
}
fn first_diff<F: PrimeField>(a: &[F], b: &[F]) -> String {
    if a.len() != b.len() { return format!("{} coefficients, expected {}", a.len(), b.len()); }
    let i = a.iter().zip(b).position(|(a, b)| a != b).unwrap();
    format!("coefficient {i} is {:?}, expected {:?}", a[i], b[i])
}
pub fn prog(ops: Vec<Op>, outs: usize) -> Prog { Prog { ops, outs: (0..outs).collect(), subs: subs() } }

pub fn run(ctx: &Ctx) {
    ctx.assume("The field is F_257 (so that every pair of points can be visited) except where stated; the evaluators are generic in the field.");
    ctx.assume("The registry's key term k(XY)^(4n-1) is subtracted using the published digest.");
    let st = steps(subs().len());
    let few: Vec<F> = [0, 1, 2, 256, 3, 16].map(F::new).to_vec();
    let all: Vec<F> = F::all().collect();
    let ins = [F::new(5), F::new(11)];
    for len in 0..=if ctx.thorough { 5 } else { 4 } {
        ctx.cell(&format!("all programs of {len} steps"), |c| {
            let n = n_sequences(&st, len);
            c.outcomes("programs", n);
            c.par_range(n, |i| { let s = sequence(&st, len, i); let p = prog(s.clone(), (i % 4) as usize); let k = if len < 4 { 6 } else { 3 }; agree::<F, TestRank>(c, &|| format!("{s:?} outs {}", i % 4), &p, &ins, &few[..k], &few[..k]); });
        });
    }
    ctx.cell("routines of every shape", |c| c.par(&shapes(subs().len()), |s| for outs in [0, 2] { agree::<F, TestRank>(c, &|| format!("{s:?} outs {outs}"), &prog(s.clone(), outs), &ins, &few[..4], &few[..4]) }));
    ctx.cell("many routines", |c| {
        let all = crowds(subs().len(), if c.thorough() { 60 } else { 24 });
        c.par(&all, |s| {
            let p = prog(s.clone(), 1);
            let k = reference::<F, Live>(&p, &ins).unwrap();
            if k.gates <= 32 && k.cons < 128 { agree::<F, TestRank>(c, &|| format!("{s:?}"), &p, &ins, &few[..4], &few[..4]) }
        });
    });
    ctx.cell("deeply nested routines", |c| c.par(&towers(if c.thorough() { 10 } else { 7 }), |p| {
        let k = reference::<F, Live>(p, &ins).unwrap();
        if k.gates <= 32 && k.cons < 128 { agree::<F, TestRank>(c, &|| format!("{:?}", p.subs), p, &ins, &few[..4], &few[..4]) }
    }));
    ctx.cell("long combinations", |c| c.par(&long_forms(if c.thorough() { 80 } else { 40 }), |s| agree::<F, TestRank>(c, &|| format!("{s:?}"), &prog(s.clone(), 2), &ins, &few[..4], &few[..4])));
    ctx.cell("many public outputs", |c| many_outputs(&st, if c.thorough() { 3 } else { 2 }, |all| c.par(&all, |p| agree::<F, TestRank>(c, &|| format!("{:?}, {} outputs", p.ops, p.outs.len()), p, &ins, &few[..4], &few[..4]))));
    ctx.cell("every form of coefficient", |c| c.par(&forms(), |s| for outs in [0, 2] { agree::<F, TestRank>(c, &|| format!("{s:?} outs {outs}"), &prog(s.clone(), outs), &ins, &few, &few) }));
    ctx.cell("every pair of points", |c| {
        let seqs: Vec<Vec<Op>> = (0..=if c.thorough() { 2 } else { 1 }).flat_map(|l| sequences(&st, l)).collect();
        c.par_range(seqs.len() as u64, |i| { let s = &seqs[i as usize]; let p = prog(s.clone(), 1); agree::<F, TestRank>(c, &|| format!("{s:?}"), &p, &ins, &all, &all); });
    });
    ctx.cell("programs up to capacity", |c| {
        // Every split of the 32 gates and 127 constraints between body and routines.
        let n = TestRank::n();
        let mut items = vec![];
        for k in 0..subs().len() { for fill in 0..n { items.push((k, fill, 0)); } for q in [1usize, 60, 118, 119, 120, 121, 122, 123, 124, 125, 126] { items.push((k, 3, q)); } }
        c.par(&items, |(k, fill, q)| {
            let mut ops = vec![Op::Alloc(Val::In(0))];
            for i in 0..*fill { ops.push(if i % 2 == 0 { Op::Gate(Val::K(0), Val::K(i as u64), Val::K(0), Val::K(9)) } else { Op::RawMul(Val::K(i as u64), Val::K(2), Val::K(2 * i as u64)) }); }
            ops.push(Op::Call(*k, 0, 1));
            for i in 0..*q { ops.push(Op::Zero(vec![Lc::T(i % 7, Co::Arb(i as u64 + 1)), Lc::One(Co::Two)])); }
            let p = prog(ops, 2);
            let sys = reference::<F, Live>(&p, &ins).unwrap();
            if sys.gates <= n && sys.cons < 4 * n { agree::<F, TestRank>(c, &|| format!("routine {k}, {fill} gates, {q} constraints"), &p, &ins, &few, &few); c.outcome("fit"); }
        });
    });
    ctx.cell("wires used far apart and often", |c| {
        // Each of many wires (allocated, product, sums of sums) used by each later constraint.
        let items: Vec<(usize, usize)> = (1..12).flat_map(|m| (0..12).map(move |s| (m, s))).collect();
        c.par(&items, |(m, s)| {
            let mut ops = vec![Op::Alloc(Val::In(0)), Op::Alloc(Val::In(1))];
            for i in 0..*m { ops.push(match (i + s) % 4 { 0 => Op::Add(vec![Lc::T(i, Co::Arb(2)), Lc::T(0, Co::One), Lc::T(0, Co::Two)]), 1 => Op::Mul(i, 0), 2 => Op::Add(vec![Lc::G(Co::Arb(3)), Lc::T(i / 2, Co::One), Lc::T(i, Co::Neg)]), _ => Op::Call(s % subs().len(), i, 0) }); }
            for i in 0..2 * m { ops.push(Op::Zero((0..=i % 5).map(|j| Lc::T((i * 3 + j * s) % (2 * m), Co::Arb((i + j) as u64 + 1))).collect())); }
            let p = prog(ops, 3);
            let sys = reference::<F, Live>(&p, &ins).unwrap();
            if sys.gates <= 32 && sys.cons < 128 { agree::<F, TestRank>(c, &|| format!("{m} wires, pattern {s}"), &p, &ins, &few, &few); c.outcome("fit"); }
        });
    });
    ctx.cell("production field", |c| {
        use ragu_pasta::{Fp, Fq};
        fn go<P: FromUniformBytes<64>>(c: &CellCtx, st: &[Op]) {
            let pts: Vec<P> = vec![P::ZERO, P::ONE, -P::ONE, P::from(7), P::ROOT_OF_UNITY, P::MULTIPLICATIVE_GENERATOR.invert().unwrap()];
            let seqs: Vec<Vec<Op>> = (0..=2).flat_map(|l| sequences(st, l)).collect();
            c.par_range(seqs.len() as u64, |i| { let s = &seqs[i as usize]; agree::<P, TestRank>(c, &|| format!("{s:?}"), &prog(s.clone(), 2), &[P::from(5), P::from(11)], &pts, &pts); });
        }
        go::<Fp>(c, &st);
        if c.thorough() { go::<Fq>(c, &st); }
    });
    ctx.cell("production rank", |c| {
        use ragu_circuits::polynomials::ProductionRank;
        use ragu_pasta::Fp;
        let pts = [Fp::ZERO, Fp::ONE, Fp::from(3)];
        let items: Vec<usize> = (0..subs().len()).collect();
        c.par(&items, |k| {
            for fill in [0usize, 2040] {
                let mut ops = vec![Op::Alloc(Val::In(0))];
                for i in 0..fill { ops.push(Op::RawMul(Val::K(i as u64), Val::K(2), Val::K(2 * i as u64))); ops.push(Op::Zero(vec![Lc::T(0, Co::One), Lc::T(1, Co::Neg)])); }
                ops.push(Op::Call(*k, 0, 1));
                let p = prog(ops, 1);
                let sys = reference::<Fp, Live>(&p, &[Fp::ONE, Fp::ONE]).unwrap();
                if sys.gates <= ProductionRank::n() { agree::<Fp, ProductionRank>(c, &|| format!("routine {k} after {fill} gates"), &p, &[Fp::ONE, Fp::ONE], &pts, &pts); c.outcome("fit"); }
            }
        });
    });
    let _ = wires;
}
