// Included into ragu_pcd behind --cfg ragu_mc: names every component of a
// proof and lets the harness read and replace it.
use ragu_arithmetic::Cycle;
use ragu_circuits::{polynomials::{Rank, sparse::Polynomial}, registry::CircuitIndex};
use alloc::{format, string::String, vec::Vec};
use crate::{Application, Pcd, Proof, header::Header};

pub enum Part<'a, C: Cycle, R: Rank> {
    Native(&'a mut Polynomial<C::CircuitField, R>),
    Nested(&'a mut Polynomial<C::ScalarField, R>),
    Host(&'a mut C::HostCurve),
    NestedPoint(&'a mut C::NestedCurve),
    Scalar(&'a mut C::CircuitField),
    Circuit(&'a mut CircuitIndex),
    Header(&'a mut Vec<C::CircuitField>),
    Steps(&'a mut Vec<Polynomial<C::ScalarField, R>>),
}

pub fn open<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> (Proof<C, R>, H::Data) { pcd.into_parts() }
pub fn trivial<C: Cycle, R: Rank, const N: usize>(app: &Application<'_, C, R, N>) -> Proof<C, R> { app.trivial_proof() }

pub fn parts<C: Cycle, R: Rank>(p: &mut Proof<C, R>, f: &mut dyn FnMut(String, Part<'_, C, R>)) {
    macro_rules! part { ($($name:ident).+ , $k:ident) => { f(String::from(stringify!($($name).+)).replace(' ', ""), Part::$k(&mut p.$($name).+)) } }
    macro_rules! rx { ($($name:ident).+) => { part!($($name).+.rx, Native); part!($($name).+.commitment, Host); } }
    macro_rules! bridge { ($name:ident) => { part!($name.bridge.rx, Nested); part!($name.bridge.commitment, NestedPoint); } }
    part!(application.circuit_id, Circuit);
    part!(application.left_header, Header);
    part!(application.right_header, Header);
    rx!(application.rx_triple);
    rx!(preamble.native);
    part!(s_prime.native.registry_wx0_poly, Native);
    part!(s_prime.native.registry_wx0_commitment, Host);
    part!(s_prime.native.registry_wx1_poly, Native);
    part!(s_prime.native.registry_wx1_commitment, Host);
    part!(inner_error.native.registry_wy_poly, Native);
    part!(inner_error.native.registry_wy_commitment, Host);
    rx!(inner_error.native.rx_triple);
    rx!(outer_error.native);
    part!(ab.native.a_poly, Native);
    part!(ab.native.a_commitment, Host);
    part!(ab.native.b_poly, Native);
    part!(ab.native.b_commitment, Host);
    part!(ab.native.c, Scalar);
    part!(query.native.registry_xy_poly, Native);
    part!(query.native.registry_xy_commitment, Host);
    rx!(query.native.rx_triple);
    part!(f.native.poly, Native);
    part!(f.native.commitment, Host);
    rx!(eval.native);
    part!(p.native.poly, Native);
    part!(p.native.commitment, Host);
    part!(p.native.v, Scalar);
    part!(p.nested.endoscalar_rx, Nested);
    part!(p.nested.points_rx, Nested);
    for i in 0..p.p.nested.step_rxs.len() { f(format!("p.nested.step_rxs[{i}]"), Part::Nested(&mut p.p.nested.step_rxs[i])); }
    part!(p.nested.step_rxs, Steps);
    bridge!(preamble); bridge!(s_prime); bridge!(inner_error); bridge!(outer_error); bridge!(ab); bridge!(query); bridge!(f); bridge!(eval);
    part!(challenges.w, Scalar); part!(challenges.y, Scalar); part!(challenges.z, Scalar);
    part!(challenges.mu, Scalar); part!(challenges.nu, Scalar); part!(challenges.mu_prime, Scalar); part!(challenges.nu_prime, Scalar);
    part!(challenges.x, Scalar); part!(challenges.alpha, Scalar); part!(challenges.u, Scalar); part!(challenges.pre_beta, Scalar);
    rx!(circuits.hashes_1); rx!(circuits.hashes_2); rx!(circuits.inner_collapse); rx!(circuits.outer_collapse); rx!(circuits.compute_v);
}

/// Names and positions of the internal circuits, and wiring polynomials of
/// registered circuits, for an independent evaluation of all claims.
pub fn native_circuits() -> Vec<(String, CircuitIndex)> { crate::internal::native::InternalCircuitIndex::ALL.iter().map(|i| (format!("{i:?}"), i.circuit_index())).collect() }
pub fn nested_circuits() -> Vec<(String, CircuitIndex)> { crate::internal::nested::InternalCircuitIndex::ALL.iter().map(|i| (format!("{i:?}"), i.circuit_index())).collect() }
pub fn native_sy<C: Cycle, R: Rank, const N: usize>(app: &Application<'_, C, R, N>, i: CircuitIndex, y: C::CircuitField) -> Polynomial<C::CircuitField, R> { app.native_registry.circuit_y(i, y) }
pub fn nested_sy<C: Cycle, R: Rank, const N: usize>(app: &Application<'_, C, R, N>, i: CircuitIndex, y: C::ScalarField) -> Polynomial<C::ScalarField, R> { app.nested_registry.circuit_y(i, y) }
pub fn native_xy<C: Cycle, R: Rank, const N: usize>(app: &Application<'_, C, R, N>, x: C::CircuitField, y: C::CircuitField) -> Polynomial<C::CircuitField, R> { app.native_registry.xy(x, y) }
