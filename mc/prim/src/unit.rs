//! Decides completeness and soundness of a piece of gadget code for one input.
use ff::PrimeField;
use kit::CellCtx;
use mc_drv::{Cs, Dry, Live, Values, Wire};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::Result;
use ragu_primitives::{Element, Simulator};

/// Gadget code from elements to elements. `D::just` values other than those of
/// the inputs are the gadget's own advice.
pub trait Unit<F: PrimeField>: Sync {
    fn run<'dr, D: Driver<'dr, F = F> + 'dr>(&self, dr: &mut D, ins: &[Element<'dr, D>]) -> Result<Vec<Element<'dr, D>>>
    ;
}

/// What the documentation says must happen.
#[derive(Clone, Debug)]
pub enum Want<F> {
    /// The outputs are these, and nothing else satisfies the constraints.
    Is(Vec<F>),
    /// Honest outputs are these; the satisfying outputs are exactly this set.
    Among(Vec<F>, Vec<Vec<F>>),
    /// Undefined: reported as an error or unsatisfiable, for any assignment.
    Undefined,
    /// Undefined, and documented to be unconstrained: the honest prover must fail, nothing else is required.
    Unconstrained,
    /// The honest advice is wrong (must not be accepted) but these outputs are satisfying.
    Wrong(Vec<F>),
    /// The honest advice is wrong and there is no constraint on what other advice gives.
    Refused,
}

pub struct Tally { pub states: u64, pub nodes: u64 }

fn element<'dr, D: Driver<'dr>>(w: D::Wire, v: DriverValue<D, D::F>) -> Element<'dr, D> { Element::promote(w, v) }

pub fn decide<F: PrimeField, U: Unit<F>>(c: &CellCtx, u: &U, ins: &[F], want: &Want<F>, key: impl Fn() -> String) -> Tally {
    let mut t = Tally { states: 1, nodes: 0 };
    // Honest run, recorded.
    let mut cs = Cs::<F, Live>::new();
    let ws: Vec<Wire<F>> = ins.iter().map(|v| cs.input(*v)).collect();
    let els: Vec<_> = ws.iter().zip(ins).map(|(w, v)| { let v = *v; element::<Cs<F, Live>>(w.clone(), Always::maybe_just(|| v)) }).collect();
    let r = u.run(&mut cs, &els);
    let honest = match &r {
        Ok(out) => {
            let vals: Vec<F> = out.iter().map(|e| *e.value().take()).collect();
            let wires: Vec<F> = out.iter().map(|e| cs.value(e.wire())).collect();
            match cs.violated() { None => Ok((vals, wires)), Some(v) => Err(v) }
        }
        Err(e) => Err(format!("{e}")),
    };
    match (want, &honest) {
        (Want::Is(v) | Want::Among(v, _), Ok((vals, wires))) => {
            c.check(vals == v, &key, || format!("honest values {vals:?}, expected {v:?}"));
            c.check(wires == v, &key, || format!("honest wire assignment {wires:?}, expected {v:?}"));
        }
        (Want::Is(v) | Want::Among(v, _), Err(e)) => { c.violation(key(), format!("honest witness refused ({e}), expected {v:?}")); }
        (_, Ok((vals, _))) => { c.violation(key(), format!("accepted with {vals:?}, but is undefined or given a wrong witness")); }
        (_, Err(_)) => {}
    }
    // The same code without witness must give the same system.
    let mut dry = Cs::<F, Dry>::new();
    let dws: Vec<Wire<F>> = ins.iter().map(|_| dry.input(F::ZERO)).collect();
    let dels: Vec<_> = dws.iter().map(|w| element::<Cs<F, Dry>>(w.clone(), Empty::maybe_just(|| F::ZERO))).collect();
    let dr = u.run(&mut dry, &dels);
    let Ok(dout) = dr else { c.violation(key(), format!("synthesis without a witness fails: {}", dr.err().unwrap())); return t; };
    if let Ok(out) = &r {
        c.check(cs.sys == dry.sys, &key, || "the constraints depend on the witness".into());
        c.check(out.iter().map(|e| e.wire().clone()).eq(dout.iter().map(|e| e.wire().clone())), &key, || "the output wires depend on the witness".into());
    }
    // Everything that satisfies the constraints.
    let pins: Vec<(Wire<F>, F)> = dws.iter().cloned().zip(ins.iter().copied()).collect();
    let outs: Vec<Wire<F>> = dout.iter().map(|e| e.wire().clone()).collect();
    if !matches!(want, Want::Unconstrained | Want::Refused) {
        let sol = dry.sys.solve(&pins);
        t.nodes += sol.nodes;
        let got = sol.values(&outs);
        let exp = match want {
            Want::Is(v) | Want::Wrong(v) => Values::Some(vec![v.clone()]),
            Want::Among(_, s) => Values::Some(s.clone()),
            _ => Values::None,
        };
        let norm = |v: Values<F>| match v { Values::Some(mut s) => { s.sort_by_key(|t| t.iter().map(|x| x.to_repr().as_ref().to_vec()).collect::<Vec<_>>()); s.dedup(); Values::Some(s) } v => v };
        let (got, exp) = (norm(got), norm(exp));
        let all = |s: &Vec<Vec<F>>| outs.len() == 1 && F::NUM_BITS <= 14 && { let mut n = 0u64; let mut x = F::ZERO; loop { n += 1; x += F::ONE; if x == F::ZERO { break; } } s.len() as u64 == n };
        let ok = got == exp || (matches!(got, Values::Unbounded) && matches!(&exp, Values::Some(s) if all(s)));
        c.check(ok, &key, || format!("satisfying outputs {got:?}, expected {exp:?}"));
        t.states += sol.alternatives();
    }
    // The real simulator.
    let mut sim = Simulator::<F>::new();
    let sels: Vec<_> = ins.iter().map(|v| { let v = *v; element::<Simulator<F>>(v, Always::maybe_just(|| v)) }).collect();
    match (want, u.run(&mut sim, &sels)) {
        (Want::Is(v) | Want::Among(v, _), Ok(out)) => {
            let vals: Vec<F> = out.iter().map(|e| *e.value().take()).collect();
            let wires: Vec<F> = out.iter().map(|e| *e.wire()).collect();
            c.check(&vals == v && &wires == v, &key, || format!("simulator gives values {vals:?} wires {wires:?}, expected {v:?}"));
        }
        (Want::Is(_) | Want::Among(..), Err(e)) => { c.violation(key(), format!("simulator refuses: {e}")); }
        (_, Ok(_)) => { c.violation(key(), "simulator accepts".to_string()); }
        (_, Err(_)) => {}
    }
    c.states(t.states);
    c.transitions(t.nodes.max(1));
    c.traces(3);
    t
}
/// Satisfying outputs of the gadget for pinned inputs, from the constraints alone.
#[allow(dead_code)]
pub fn dry_values<F: PrimeField, U: Unit<F>>(u: &U, ins: &[F]) -> Values<F> {
    let mut dry = Cs::<F, Dry>::new();
    let dws: Vec<Wire<F>> = ins.iter().map(|_| dry.input(F::ZERO)).collect();
    let dels: Vec<_> = dws.iter().map(|w| element::<Cs<F, Dry>>(w.clone(), Empty::maybe_just(|| F::ZERO))).collect();
    let out = u.run(&mut dry, &dels).unwrap_or_else(|e| panic!("synthesis without a witness fails: {e}"));
    let pins: Vec<(Wire<F>, F)> = dws.iter().cloned().zip(ins.iter().copied()).collect();
    dry.sys.solve(&pins).values(&out.iter().map(|e| e.wire().clone()).collect::<Vec<_>>())
}
