// Included into ragu_pcd behind --cfg ragu_mc: the internal circuits, and
// where the values of their stages are.
extern crate std;
use crate::internal::native::{InternalCircuitIndex, RevdotParameters, RxIndex, circuits, stages, unified};
use alloc::{format, string::{String, ToString}, vec::Vec};
use core::marker::PhantomData;
use ragu_arithmetic::Cycle;
use ragu_circuits::{Circuit, WithAux, polynomials::Rank, registry::CircuitIndex, staging::{MultiStageCircuit, StageBuilder}};
use ragu_core::{Result, drivers::{Driver, DriverValue}, gadgets::Bound};
use ragu_primitives::{Element, GadgetExt, vec::Len};
use std::sync::Mutex;

pub fn native_sy<C: Cycle, R: Rank, const N: usize>(app: &crate::Application<'_, C, R, N>, i: CircuitIndex, y: C::CircuitField) -> ragu_circuits::polynomials::sparse::Polynomial<C::CircuitField, R> { app.native_registry.circuit_y(i, y) }
pub fn groups() -> (usize, usize) { (<RevdotParameters as crate::internal::fold_revdot::Parameters>::NumGroups::len(), <RevdotParameters as crate::internal::fold_revdot::Parameters>::GroupSize::len()) }
pub fn native_circuits() -> Vec<String> { InternalCircuitIndex::ALL.iter().map(|i| format!("{i:?}")).collect() }
pub fn components() -> Vec<String> { RxIndex::ALL.iter().map(|i| format!("{i:?}")).collect() }
pub fn omega(i: &str) -> Option<CircuitIndex> { InternalCircuitIndex::ALL.iter().find(|c| format!("{c:?}") == i).map(|c| c.circuit_index()) }
pub const TAG: &[u8] = crate::RAGU_TAG;

/// Synthesizes one of the circuits without a witness and returns its instance.
pub fn synthesize<'dr, C: Cycle, R: Rank, const N: usize, D: Driver<'dr, F = C::CircuitField>>(name: &str, dr: &mut D, params: &'dr C::Params, log2: u32) -> Result<Vec<Element<'dr, D>>> where C: 'dr, R: 'dr {
    let mut out = Vec::new();
    macro_rules! go { ($c:expr) => { { let c = $c; let r = c.witness(dr, D::just(|| unreachable!()))?; r.into_output().write(dr, &mut out)?; } } }
    // The circuit must outlive the driver's values.
    match name {
        "hashes_1" => go!(alloc::boxed::Box::leak(alloc::boxed::Box::new(circuits::hashes_1::Circuit::<C, R, N, RevdotParameters>::new(params, log2)))),
        "hashes_2" => go!(alloc::boxed::Box::leak(alloc::boxed::Box::new(circuits::hashes_2::Circuit::<C, R, N, RevdotParameters>::new(params)))),
        "inner_collapse" => go!(alloc::boxed::Box::leak(alloc::boxed::Box::new(circuits::inner_collapse::Circuit::<C, R, N, RevdotParameters>::new()))),
        "outer_collapse" => go!(alloc::boxed::Box::leak(alloc::boxed::Box::new(circuits::outer_collapse::Circuit::<C, R, N, RevdotParameters>::new()))),
        "compute_v" => go!(alloc::boxed::Box::leak(alloc::boxed::Box::new(circuits::compute_v::Circuit::<C, R, N>::new()))),
        _ => unreachable!(),
    }
    Ok(out)
}

/// Names of the values of the stages, in the order in which the probe enforces them to be zero.
pub struct Probe<C, const N: usize> { names: Mutex<Vec<String>>, _m: PhantomData<fn() -> C> }
struct Put<'a>(&'a Mutex<Vec<String>>);
impl Put<'_> {
    fn one<'dr, D: Driver<'dr>>(&self, dr: &mut D, n: String, e: &Element<'dr, D>) -> Result<()> { self.0.lock().unwrap().push(n); e.enforce_zero(dr) }
    fn all<'a, 'dr: 'a, D: Driver<'dr> + 'a>(&self, dr: &mut D, n: String, e: impl IntoIterator<Item = &'a Element<'dr, D>>) -> Result<()> { for (i, e) in e.into_iter().enumerate() { self.one(dr, format!("{n}.{i}"), e)?; } Ok(()) }
    fn unified<'dr, D: Driver<'dr>, C: Cycle<CircuitField = D::F>>(&self, dr: &mut D, n: &str, u: &unified::Output<'dr, D, C>) -> Result<()> {
        macro_rules! point { ($($f:ident),*) => { $( { let mut v: Vec<Element<'dr, D>> = Vec::new(); u.$f.write(dr, &mut v)?; self.all(dr, format!("{n}.{}", stringify!($f)), &v)?; } )* } }
        macro_rules! elem { ($($f:ident),*) => { $( self.one(dr, format!("{n}.{}", stringify!($f)), &u.$f)?; )* } }
        point!(bridge_preamble_commitment, bridge_s_prime_commitment, bridge_inner_error_commitment, bridge_outer_error_commitment, bridge_ab_commitment, bridge_query_commitment, bridge_f_commitment, bridge_eval_commitment);
        elem!(w, y, z, mu, nu, mu_prime, nu_prime, c, x, alpha, u, pre_beta, v);
        Ok(())
    }
    fn preamble<'dr, D: Driver<'dr>, C: Cycle<CircuitField = D::F>, const N: usize>(&self, dr: &mut D, p: &stages::preamble::Output<'dr, D, C, N>) -> Result<()> {
        for (s, c) in [("left", &p.left), ("right", &p.right)] {
            self.all(dr, format!("preamble.{s}.children.left"), c.children.left.iter())?;
            self.all(dr, format!("preamble.{s}.children.right"), c.children.right.iter())?;
            self.all(dr, format!("preamble.{s}.output_header"), c.output_header.iter())?;
            self.one(dr, format!("preamble.{s}.circuit_id"), &c.circuit_id)?;
            self.unified(dr, &format!("preamble.{s}"), &c.unified)?;
        }
        Ok(())
    }
}
macro_rules! probe {
    ($name:ident, $last:ty, |$s:ident, $b:ident| $e:expr) => {
        pub struct $name<C, R, const N: usize>(Probe<C, N>, PhantomData<fn() -> R>);
        impl<C: Cycle, R: Rank, const N: usize> MultiStageCircuit<C::CircuitField, R> for $name<C, R, N> {
            type Last = $last;
            type Instance<'source> = ();
            type Witness<'source> = ();
            type Output = ();
            type Aux<'source> = ();
            fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = C::CircuitField>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<()> where Self: 'dr { Ok(()) }
            fn witness<'a, 'dr, 'source: 'dr, D: Driver<'dr, F = C::CircuitField>>(&self, $b: StageBuilder<'a, 'dr, D, R, (), Self::Last>, _: DriverValue<D, ()>) -> Result<WithAux<Bound<'dr, D, ()>, DriverValue<D, ()>>> where Self: 'dr {
                let $s = Put(&self.0.names);
                $e;
                Ok(WithAux::new((), D::unit()))
            }
        }
    };
}
probe!(ProbeError, stages::inner_error::Stage<C, R, N, RevdotParameters>, |s, b| {
    let (p, b) = b.add_stage::<stages::preamble::Stage<C, R, N>>()?;
    let (o, b) = b.add_stage::<stages::outer_error::Stage<C, R, N, RevdotParameters>>()?;
    let (i, b) = b.add_stage::<stages::inner_error::Stage<C, R, N, RevdotParameters>>()?;
    let dr = b.finish();
    let p = p.unenforced(dr, D::just(|| unreachable!()))?;
    let o = o.unenforced(dr, D::just(|| unreachable!()))?;
    let i = i.unenforced(dr, D::just(|| unreachable!()))?;
    s.preamble(dr, &p)?;
    s.all(dr, "outer.error_terms".to_string(), o.error_terms.iter())?;
    s.all(dr, "outer.collapsed".to_string(), o.collapsed.iter())?;
    for (n, k) in [("left", &o.left), ("right", &o.right)] {
        s.one(dr, format!("outer.{n}.application"), &k.application)?;
        s.one(dr, format!("outer.{n}.unified"), &k.unified)?;
        s.one(dr, format!("outer.{n}.unified_bridge"), &k.unified_bridge)?;
    }
    let state = o.sponge_state.into_elements();
    s.all(dr, "outer.sponge_state".to_string(), state.iter())?;
    for (j, e) in i.error_terms.iter().enumerate() { s.all(dr, format!("inner.error_terms.{j}"), e.iter())?; }
});
probe!(ProbeEval, stages::eval::Stage<C, R, N>, |s, b| {
    let (p, b) = b.add_stage::<stages::preamble::Stage<C, R, N>>()?;
    let (q, b) = b.add_stage::<stages::query::Stage<C, R, N>>()?;
    let (e, b) = b.add_stage::<stages::eval::Stage<C, R, N>>()?;
    let dr = b.finish();
    let p = p.unenforced(dr, D::just(|| unreachable!()))?;
    let q = q.unenforced(dr, D::just(|| unreachable!()))?;
    let e = e.unenforced(dr, D::just(|| unreachable!()))?;
    s.preamble(dr, &p)?;
    for &i in &InternalCircuitIndex::ALL { s.one(dr, format!("query.fixed_registry.{i:?}"), q.fixed_registry.get(i))?; }
    s.one(dr, "query.registry_wxy".to_string(), &q.registry_wxy)?;
    for (n, c) in [("left", &q.left), ("right", &q.right)] {
        for &i in &RxIndex::ALL { s.one(dr, format!("query.{n}.rx.{i:?}"), c.rx.get(i))?; }
        macro_rules! f { ($($f:ident),*) => { $( s.one(dr, format!("query.{n}.{}", stringify!($f)), &c.$f)?; )* } }
        f!(a_poly_at_xz, b_poly_at_x, child_registry_xy_at_current_w, current_registry_xy_at_child_circuit_id, current_registry_wy_at_child_x);
    }
    for (n, c) in [("left", &e.left), ("right", &e.right)] {
        for &i in &RxIndex::ALL { s.one(dr, format!("eval.{n}.rx.{i:?}"), c.rx.get(i))?; }
        macro_rules! f { ($($f:ident),*) => { $( s.one(dr, format!("eval.{n}.{}", stringify!($f)), &c.$f)?; )* } }
        f!(a_poly, b_poly, registry_xy_poly, p_poly);
    }
    macro_rules! f { ($($f:ident),*) => { $( s.one(dr, format!("eval.{}", stringify!($f)), &e.$f)?; )* } }
    f!(registry_wx0, registry_wx1, registry_wy, a_poly, b_poly, registry_xy);
});
/// Names of the stage values; their wires are those the driver is told to be zero, in the same order.
pub fn stage_values<'dr, C: Cycle, R: Rank, const N: usize, D: Driver<'dr, F = C::CircuitField>>(eval: bool, dr: &mut D) -> Result<Vec<String>> where C: 'dr, R: 'dr {
    let p = || Probe { names: Mutex::new(Vec::new()), _m: PhantomData };
    if eval { let c = ProbeEval::<C, R, N>(p(), PhantomData); c.witness(StageBuilder::new(dr), D::unit())?; Ok(c.0.names.into_inner().unwrap()) }
    else { let c = ProbeError::<C, R, N>(p(), PhantomData); c.witness(StageBuilder::new(dr), D::unit())?; Ok(c.0.names.into_inner().unwrap()) }
}

/// The wiring polynomial of an internal circuit or mask, registered alone.
pub fn registered<C: Cycle, R: Rank, const N: usize>(name: &str, params: &C::Params, log2: u32, y: C::CircuitField) -> Result<ragu_circuits::polynomials::sparse::Polynomial<C::CircuitField, R>> {
    use ragu_circuits::{registry::RegistryBuilder, staging::StageExt};
    let b = RegistryBuilder::<C::CircuitField, R>::new();
    let b = match name {
        "PreambleStage" => b.register_bonding(stages::preamble::Stage::<C, R, N>::mask()?),
        "InnerErrorStage" => b.register_bonding(stages::inner_error::Stage::<C, R, N, RevdotParameters>::mask()?),
        "OuterErrorStage" => b.register_bonding(stages::outer_error::Stage::<C, R, N, RevdotParameters>::mask()?),
        "QueryStage" => b.register_bonding(stages::query::Stage::<C, R, N>::mask()?),
        "EvalStage" => b.register_bonding(stages::eval::Stage::<C, R, N>::mask()?),
        "InnerErrorFinalStaged" => b.register_bonding(stages::inner_error::Stage::<C, R, N, RevdotParameters>::final_mask()?),
        "OuterErrorFinalStaged" => b.register_bonding(stages::outer_error::Stage::<C, R, N, RevdotParameters>::final_mask()?),
        "EvalFinalStaged" => b.register_bonding(stages::eval::Stage::<C, R, N>::final_mask()?),
        "Hashes1Circuit" => b.register_internal_circuit(circuits::hashes_1::Circuit::<C, R, N, RevdotParameters>::new(params, log2))?,
        "Hashes2Circuit" => b.register_internal_circuit(circuits::hashes_2::Circuit::<C, R, N, RevdotParameters>::new(params))?,
        "InnerCollapseCircuit" => b.register_internal_circuit(circuits::inner_collapse::Circuit::<C, R, N, RevdotParameters>::new())?,
        "OuterCollapseCircuit" => b.register_internal_circuit(circuits::outer_collapse::Circuit::<C, R, N, RevdotParameters>::new())?,
        "ComputeVCircuit" => b.register_internal_circuit(circuits::compute_v::Circuit::<C, R, N>::new())?,
        _ => unreachable!(),
    };
    Ok(b.finalize()?.circuit_y(CircuitIndex::new(0), y))
}
