// Included into ragu_pcd behind --cfg ragu_mc: where a proof says its step is.
use crate::{Pcd, header::Header};
use ragu_arithmetic::Cycle;
use ragu_circuits::{polynomials::Rank, registry::CircuitIndex};

pub fn position<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> CircuitIndex { pcd.into_parts().0.application.circuit_id }
/// The position of application step `i` among `n`, `None` if refused.
pub fn index(i: usize, n: usize) -> Option<usize> { crate::step::Index::new(i).circuit_index(n).ok().map(usize::from) }
