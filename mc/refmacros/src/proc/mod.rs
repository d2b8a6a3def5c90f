pub mod kind;
pub mod maybe_cast;
pub mod repr;
