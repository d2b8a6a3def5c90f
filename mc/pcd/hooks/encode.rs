// Included into ragu_pcd behind --cfg ragu_mc: header encodings and step circuits.
use crate::{Pcd, Proof, header::{Header, Suffix}, step::{Encoded, Step, internal::{adapter::Adapter, rerandomize::Rerandomize}}};
use alloc::vec::Vec;
use ff::PrimeField;
use ragu_arithmetic::Cycle;
use ragu_circuits::{Circuit, polynomials::Rank, registry::{CircuitIndex, RegistryBuilder}};
use ragu_core::{Result, drivers::{Driver, DriverValue}};
use ragu_primitives::{Element, vec::{ConstLen, FixedVec}};

pub fn suffix(s: Suffix) -> u64 { s.get() }
pub fn write<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(e: Encoded<'dr, D, H, N>, dr: &mut D) -> Result<Vec<Element<'dr, D>>> {
    let mut v = Vec::new();
    e.write(dr, &mut v)?;
    Ok(v)
}
pub fn uniform<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(dr: &mut D, w: DriverValue<D, H::Data>) -> Result<Encoded<'dr, D, H, N>> { Encoded::new_uniform(dr, w) }

type Head<C, const N: usize> = FixedVec<<C as Cycle>::CircuitField, ConstLen<N>>;
type Data<C, H> = <H as Header<<C as Cycle>::CircuitField>>::Data;
/// Synthesizes the circuit of a step: its outputs, and the headers and data it reports.
pub fn synthesize<'dr, 'source: 'dr, C: Cycle, R: Rank, S: Step<C> + 'dr, D: Driver<'dr, F = C::CircuitField>, const N: usize>(
    dr: &mut D, step: S, w: DriverValue<D, (Data<C, S::Left>, Data<C, S::Right>, S::Witness<'source>)>,
) -> Result<(Vec<Element<'dr, D>>, DriverValue<D, ((Head<C, N>, Head<C, N>), Data<C, S::Output>, S::Aux<'source>)>)> {
    let a = Adapter::<C, S, R, N>::new(step);
    // The adapter is only borrowed for as long as the synthesis runs.
    let (out, aux) = a.witness(dr, w)?.into_parts();
    Ok((out.into_inner(), aux))
}
/// The wiring polynomial of the circuit of a step, evaluated at points.
pub fn wiring<C: Cycle, R: Rank, S: Step<C> + 'static, const N: usize>(step: S, at: &[(C::CircuitField, C::CircuitField)]) -> Result<Vec<C::CircuitField>> {
    let r = RegistryBuilder::<C::CircuitField, R>::new().register_circuit(Adapter::<C, S, R, N>::new(step))?.finalize()?;
    Ok(at.iter().map(|&(x, y)| r.circuit_xy(CircuitIndex::new(0), x, y)).collect())
}
pub fn wiring_of_rerandomize<C: Cycle, R: Rank, H: Header<C::CircuitField>, const N: usize>(at: &[(C::CircuitField, C::CircuitField)]) -> Result<Vec<C::CircuitField>> { wiring::<C, R, _, N>(Rerandomize::<H>::new(), at) }
/// Outputs of the rerandomization step's circuit.
pub fn rerandomize<'dr, C: Cycle, R: Rank, H: Header<C::CircuitField>, D: Driver<'dr, F = C::CircuitField>, const N: usize>(dr: &mut D, w: DriverValue<D, H::Data>) -> Result<Vec<Element<'dr, D>>> {
    use ragu_core::maybe::Maybe;
    let w = w.map(|d| (d, (), ()));
    Ok(synthesize::<C, R, _, D, N>(dr, Rerandomize::<H>::new(), w)?.0)
}
pub fn headers<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> (Vec<C::CircuitField>, Vec<C::CircuitField>, Proof<C, R>) {
    let (p, _) = pcd.into_parts();
    (p.application.left_header.clone(), p.application.right_header.clone(), p)
}
