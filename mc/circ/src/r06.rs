//! R06: capacity limits and reported counts.
use crate::prog::*;
use crate::{bond, circ};
use ff::{Field, FromUniformBytes, PrimeField};
use kit::tiny::Tiny;
use kit::{CellCtx, Ctx};
use mc_drv::{Dry, Live};
use ragu_circuits::polynomials::{ProductionRank, Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::staging::MultiStage;
use ragu_circuits::CircuitExt;
use ragu_core::{Error, Result};
use std::sync::Arc;

type F = Tiny<257>;

fn registry<F: FromUniformBytes<64>, R: Rank>(p: &Prog, how: usize) -> Result<Registry<'static, F, R>> {
    let b = RegistryBuilder::<F, R>::new();
    circ!(p, c => match how { 0 => b.register_circuit(c), 1 => b.register_internal_circuit(c), _ => b.register_internal_step(c) })?.finalize()
}
/// Whether the program is accepted exactly when it fits; accepted ones work.
fn fits<F: FromUniformBytes<64> + PrimeField, R: Rank>(c: &CellCtx, name: &dyn Fn() -> String, p: &Prog, how: usize) {
    let (n, ins) = (R::n(), [F::from(5), F::from(11)]);
    let sys = reference::<F, Live>(p, &ins).unwrap();
    let (gates, cons) = (sys.gates, sys.cons);
    match registry::<F, R>(p, how) {
        Ok(reg) => {
            if gates > n || cons >= 4 * n { return c.violation(name(), format!("accepted with {gates} gates and {cons} constraints")); }
            let i = CircuitIndex::new(0);
            c.same(&reg.constraint_counts(i), &(gates, cons), name);
            let (x, y) = (F::from(3), F::from(7));
            let key = reg.digest() * (x * y).pow_vartime([4 * n as u64 - 1]);
            let sy = sys.sy(n, y);
            c.same(&(reg.circuit_xy(i, x, y) - key), &eval(&sy, x), || format!("{} (value)", name()));
            c.same(&(reg.circuit_y(i, y).eval(x) - key), &eval(&sy, x), || format!("{} (at y)", name()));
            c.same(&(reg.wx(i.omega_j(), x).eval(y) - key), &eval(&sy, x), || format!("{} (at x)", name()));
            let t = circ!(p, k => k.trace(ins.to_vec())).and_then(|t| reg.assemble_with_alpha(&t.into_output(), i, F::from(2)));
            match t { Ok(t) => { c.check(t.iter_coeffs().eq(sys.trace(n, F::from(2))), name, || "trace".into()); } Err(e) => c.violation(name(), format!("trace: {e}")) }
            c.outcome("accepted");
        }
        Err(Error::GateBoundExceeded { limit }) => { c.check(gates > n && limit == n, name, || format!("{gates} gates and {cons} constraints refused: at most {limit} gates")); c.outcome("too many gates"); }
        Err(Error::ConstraintBoundExceeded { limit }) => { c.check(cons >= 4 * n && limit == 4 * n - 1, name, || format!("{gates} gates and {cons} constraints refused: at most {limit} constraints")); c.outcome("too many constraints"); }
        Err(e) => c.violation(name(), format!("{e}")),
    }
    c.states(1); c.transitions(5); c.traces(1);
}
fn gates(k: usize, how: usize) -> Vec<Op> {
    // Ways to take up exactly k gates.
    match how {
        0 => (0..k).map(|i| Op::RawMul(Val::K(i as u64), Val::K(2), Val::K(2 * i as u64))).collect(),
        1 => (0..k).map(|i| Op::Gate(Val::K(0), Val::K(i as u64), Val::K(0), Val::K(4))).collect(),
        2 => (0..2 * k).map(|i| Op::Alloc(Val::K(i as u64))).collect(),
        _ => (0..(2 * k).saturating_sub(1)).map(|i| Op::Alloc(Val::K(i as u64))).collect(),
    }
}
fn cons(k: usize) -> Vec<Op> { (0..k).map(|i| Op::Zero(vec![Lc::T(i % 5, Co::Arb(i as u64 + 1)), Lc::One(Co::Neg)])).collect() }
/// Gates and constraints split between the circuit and routines.
fn split(g: [usize; 3], q: [usize; 3], how: usize, outs: usize) -> Prog {
    let inner = Sub { name: "inner", ops: [gates(g[2], (how + 1) % 4), cons(q[2])].concat(), outs: [0, 1], known: how % 2 == 1 };
    let nested = g[2] + q[2] > 0;
    let mut ops = [gates(g[1], how), cons(q[1])].concat();
    if nested { ops.push(Op::Call(0, 0, 1)); }
    let outer = Sub { name: "outer", ops, outs: [0, 1], known: how >= 2 };
    let mut ops = [gates(g[0], (how + 2) % 4), cons(q[0] / 2)].concat();
    if nested || g[1] + q[1] > 0 { ops.push(Op::Call(1, 0, 0)); }
    ops.extend(cons(q[0] - q[0] / 2));
    Prog { ops, outs: vec![0; outs], subs: Arc::new(vec![inner, outer]) }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("When a circuit exceeds both limits, either error is accepted.");
    let n = TestRank::n();
    ctx.cell("gates around the limit", |c| {
        // Every split of the gates over a circuit, a routine and a nested routine.
        let mut items = vec![];
        for total in 0..=n + 3 { for a in 0..=total { for b in 0..=total - a { if total + 3 >= n || c.thorough() || (a % 3 == 0 && b % 2 == 1) { for how in 0..4 { items.push((a, b, total - a - b, how)); } } } } }
        c.par(&items, |(a, b, d, how)| fits::<F, TestRank>(c, &|| format!("{a}+{b}+{d} gates, kind {how}"), &split([*a, *b, *d], [1, 0, 1], *how, how % 2), (a + b) % 3));
    });
    ctx.cell("constraints around the limit", |c| {
        // Also every number of outputs.
        let mut items = vec![];
        for total in 4 * n - 7..=4 * n + 3 { for a in 0..=total { for b in 0..=total - a {
            let d = total - a - b;
            let edge = [a, b, d].iter().filter(|x| **x <= 2).count();
            if !c.thorough() && edge == 0 && (a + 2 * b) % 4 != 0 { continue; }
            for outs in 0..4 { items.push((a, b, d, outs)); }
        } } }
        c.par(&items, |(a, b, d, outs)| fits::<F, TestRank>(c, &|| format!("{a}+{b}+{d} constraints, {outs} outputs"), &split([3, 1, 2], [*a, *b, *d], (a + b) % 4, *outs), b % 3));
    });
    ctx.cell("both limits", |c| {
        let items: Vec<(usize, usize)> = (n - 3..=n + 2).flat_map(|g| (4 * n - 5..=4 * n + 2).map(move |q| (g, q))).collect();
        c.par(&items, |(g, q)| for how in 0..4 { for outs in 0..4 {
            fits::<F, TestRank>(c, &|| format!("{g} gates, {q} constraints"), &split([*g, 0, 0], [*q, 0, 0], how, outs), 0);
            fits::<F, TestRank>(c, &|| format!("{g} gates, {q} constraints in a routine"), &split([1, g - 1, 0], [1, q - 1, 0], how, outs), 1);
            fits::<F, TestRank>(c, &|| format!("{g} gates, {q} constraints in both"), &split([g / 2, 1, g - g / 2 - 1], [q / 3, q / 3, q - q / 3 * 2], how, outs), 2);
        } });
    });
    ctx.cell("bonding circuits around the limits", |c| {
        let items: Vec<(usize, usize)> = [(1, n + 2)].into_iter().flat_map(|(a, b)| a..=b).flat_map(|g| [1, 2, 50, 4 * n - 4, 4 * n - 3, 4 * n - 2, 4 * n - 1, 4 * n].map(|q| (g, q))).collect();
        c.par(&items, |(g, q)| for odd in 0..2 { for outs in 0..3 {
            let mut ops: Vec<Op> = (0..2 * g - odd).map(|_| Op::Alloc(Val::K(0))).collect();
            ops.extend((0..*q).map(|i| Op::Zero(vec![Lc::T(i % (2 * g), Co::Arb(i as u64 + 1))])));
            let p = Prog { ops, outs: vec![0; outs], subs: Arc::new(vec![]) };
            let name = || format!("{g} gates, {q} constraints, {outs} outputs");
            let sys = bond!(&p, b => reference_of::<F, Dry, _>(&MultiStage::<F, TestRank, _>::new(b), Vec::new)).unwrap();
            match bond!(&p, b => MultiStage::<F, TestRank, _>::new(b).into_bonding_object()) {
                Ok(o) => {
                    c.check(sys.gates <= n && sys.cons < 4 * n, name, || format!("accepted with {} gates and {} constraints", sys.gates, sys.cons));
                    let reg = RegistryBuilder::new().register_bonding(o).finalize().unwrap();
                    c.same(&reg.constraint_counts(CircuitIndex::new(0)), &(sys.gates, sys.cons - 1), name);
                    c.outcome("accepted");
                }
                Err(Error::GateBoundExceeded { limit }) => { c.check(sys.gates > n && limit == n, name, || format!("refused with {} gates, {} constraints", sys.gates, sys.cons)); }
                Err(Error::ConstraintBoundExceeded { limit }) => { c.check(sys.cons >= 4 * n && limit == 4 * n - 1, name, || format!("refused with {} gates, {} constraints", sys.gates, sys.cons)); }
                Err(e) => c.violation(name(), format!("{e}")),
            }
            c.tick();
        } });
    });
    ctx.cell("counts of all programs", |c| {
        let st = steps(subs().len());
        for len in 0..=if c.thorough() { 5 } else { 4 } {
            c.par_range(n_sequences(&st, len), |i| {
                let outs = (i % 4) as usize;
                let p = Prog { ops: sequence(&st, len, i), outs: (0..outs).collect(), subs: subs() };
                let name = || format!("{:?}, {outs} outputs", p.ops);
                let sys = reference::<F, Dry>(&p, &[]).unwrap();
                match registry::<F, TestRank>(&p, (i % 3) as usize) {
                    Ok(r) => { c.same(&r.constraint_counts(CircuitIndex::new(0)), &(sys.gates, sys.cons), name); }
                    Err(e) => { c.check(sys.gates > n || sys.cons >= 4 * n, name, || format!("{e}")); }
                }
                c.tick();
            });
        }
    });
    ctx.cell("counts with routines of every shape", |c| c.par(&shapes(subs().len()), |s| for outs in 0..3 {
        let p = Prog { ops: s.clone(), outs: (0..outs).collect(), subs: subs() };
        let name = || format!("{:?}, {outs} outputs", p.ops);
        let sys = reference::<F, Dry>(&p, &[]).unwrap();
        match registry::<F, TestRank>(&p, outs) { Ok(r) => { c.same(&r.constraint_counts(CircuitIndex::new(0)), &(sys.gates, sys.cons), name); } Err(e) => { c.check(sys.gates > n || sys.cons >= 4 * n, name, || format!("{e}")); } }
        c.tick();
    }));
    ctx.cell("counts with deeply nested routines", |c| c.par(&towers(if c.thorough() { 10 } else { 8 }), |p| {
        let name = || format!("{:?}", p.subs);
        let sys = reference::<F, Dry>(p, &[]).unwrap();
        match registry::<F, TestRank>(p, 2) { Ok(r) => { c.same(&r.constraint_counts(CircuitIndex::new(0)), &(sys.gates, sys.cons), name); } Err(e) => { c.check(sys.gates > n || sys.cons >= 4 * n, name, || format!("{e}")); } }
        c.tick();
    }));
    ctx.cell("counts with many public outputs", |c| many_outputs(&steps(subs().len()), 2, |all| c.par(&all, |p| {
        let name = || format!("{:?}, {} outputs", p.ops, p.outs.len());
        let sys = reference::<F, Dry>(p, &[]).unwrap();
        match registry::<F, TestRank>(p, 1) { Ok(r) => { c.same(&r.constraint_counts(CircuitIndex::new(0)), &(sys.gates, sys.cons), name); } Err(e) => { c.check(sys.gates > n || sys.cons >= 4 * n, name, || format!("{e}")); } }
        c.tick();
    })));
    ctx.cell("production limits", |c| {
        let (n, m) = (ProductionRank::n(), 4 * ProductionRank::n());
        let mut items = vec![];
        for g in n - 2..=n + 1 { for (a, b) in [(g, 0), (0, g), (g / 2, g - g / 2), (1, g - 1), (g - 1, 0)] { items.push(([a, b, g - a - b], [1, 0, 1], 0)); } }
        for q in m - 4..=m + 1 { for (a, b) in [(q, 0), (0, q), (q / 2, 0), (1, q / 2)] { for outs in 0..3 { items.push(([2, 1, 1], [a, b, q - a - b], outs)); } } }
        c.par(&items, |(g, q, outs)| for how in if c.thorough() { 0..4 } else { 1..3 } { fits::<ragu_pasta::Fp, ProductionRank>(c, &|| format!("gates {g:?}, constraints {q:?}, {outs} outputs, kind {how}"), &split(*g, *q, how, *outs), how % 3); });
    });
}
