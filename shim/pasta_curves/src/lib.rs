//! Offline stand-in for the `pasta_curves` fork the repository depends on.
//! Fields and curves are the real Pasta ones; `hash_to_curve` is
//! try-and-increment over BLAKE2b instead of SSWU+isogeny (the repository only
//! relies on it being a deterministic map to non-identity points).
#![no_std]
#![allow(clippy::all)]
pub extern crate alloc;
pub use ff;
pub use group;
pub use subtle;
pub use rand_core;
pub use blake2b_simd;

pub mod arithmetic;
#[macro_use]
mod field;
#[macro_use]
mod curve;

pasta_field!(Fp,
    [0x992d30ed00000001, 0x224698fc094cf91b, 0x0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71]);
pasta_field!(Fq,
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e]);

koblitz_curve!(Ep, EpAffine, Fp, Fq, "pallas", 5, (-Fp::ONE_, Fp::from_raw([2, 0, 0, 0])));
koblitz_curve!(Eq, EqAffine, Fq, Fp, "vesta", 5, (-Fq::ONE_, Fq::from_raw([2, 0, 0, 0])));

pub mod pallas { pub type Base = super::Fp; pub type Scalar = super::Fq; pub type Point = super::Ep; pub type Affine = super::EpAffine; }
pub mod vesta { pub type Base = super::Fq; pub type Scalar = super::Fp; pub type Point = super::Eq; pub type Affine = super::EqAffine; }
