//! A04, the part that lives in the circuit drivers: an expression handed to a
//! symbolic evaluator or recorder denotes the same combination as anywhere else.
use crate::circ;
use crate::prog::*;
use kit::Ctx;
use kit::tiny::Tiny;
use mc_drv::Live;
use ragu_circuits::CircuitExt;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::CircuitIndex;

type F = Tiny<257>;

pub fn run(ctx: &Ctx) {
    ctx.assume("An expression inside a circuit is observed through the circuit's wiring polynomial, in all of its evaluations.");
    let pts: Vec<F> = [3, 16].map(F::new).to_vec();
    let ins = [F::new(5), F::new(11)];
    let forms = [Co::Zero, Co::One, Co::Two, Co::Neg, Co::Arb(5), Co::NegArb(7)];
    let atoms: Vec<Lc> = forms.iter().flat_map(|f| [Lc::T(0, *f), Lc::T(1, *f), Lc::One(*f), Lc::G(*f)]).collect();
    for len in 0..=if ctx.thorough { 4 } else { 3 } {
        ctx.cell(&format!("expressions of {len} operations"), |c| {
            let k = atoms.len() as u64;
            c.par_range(k.pow(len), |i| {
                let lc: Vec<Lc> = (0..len).map(|p| atoms[(i / k.pow(p) % k) as usize].clone()).collect();
                for ops in [
                    vec![Op::Alloc(Val::In(0)), Op::Alloc(Val::In(1)), Op::Zero(lc.clone())],
                    vec![Op::Alloc(Val::In(0)), Op::Alloc(Val::In(1)), Op::Add(lc.clone()), Op::Eq(2, 0)],
                ] {
                    let name = format!("{ops:?}");
                    let p = crate::r01::prog(ops, 1);
                    crate::r01::agree::<F, TestRank>(c, &|| name.clone(), &p, &ins, &pts, &pts);
                    let sys = reference::<F, Live>(&p, &ins).unwrap();
                    let reg = crate::r01::registry::<F, TestRank>(&p).unwrap();
                    let t = circ!(&p, k => k.trace(ins.to_vec()).and_then(|t| reg.assemble_with_alpha(&t.into_output(), CircuitIndex::new(0), F::new(9))));
                    match t {
                        Ok(t) => c.check(t.iter_coeffs().eq(sys.trace(TestRank::n(), F::new(9))), || name.clone(), || "the trace does not hold the combination".into()),
                        Err(e) => c.check(false, || name.clone(), || format!("trace: {e}")),
                    };
                    c.tick();
                }
            });
        });
    }
}
