// Included into ragu_pcd behind --cfg ragu_mc: the protocol transcript, and
// what a proof absorbed and derived.
pub use crate::internal::transcript::{ResumedTranscript, Transcript};
use crate::{Pcd, header::Header};
use alloc::{vec, vec::Vec};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::Rank;

pub const TAG: &[u8] = crate::RAGU_TAG;
/// Bridge commitments in protocol order, and the challenges that follow each.
pub fn protocol<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> Vec<(&'static str, C::NestedCurve, Vec<(&'static str, C::CircuitField)>)> {
    let (p, _) = pcd.into_parts();
    let c = &p.challenges;
    vec![
        ("preamble", p.preamble.bridge.commitment, vec![("w", c.w)]),
        ("s_prime", p.s_prime.bridge.commitment, vec![("y", c.y), ("z", c.z)]),
        ("inner_error", p.inner_error.bridge.commitment, vec![("mu", c.mu), ("nu", c.nu)]),
        ("outer_error", p.outer_error.bridge.commitment, vec![("mu'", c.mu_prime), ("nu'", c.nu_prime)]),
        ("ab", p.ab.bridge.commitment, vec![("x", c.x)]),
        ("query", p.query.bridge.commitment, vec![("alpha", c.alpha)]),
        ("f", p.f.bridge.commitment, vec![("u", c.u)]),
        ("eval", p.eval.bridge.commitment, vec![("pre_beta", c.pre_beta)]),
    ]
}
