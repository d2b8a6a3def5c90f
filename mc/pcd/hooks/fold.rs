// Included into ragu_pcd behind --cfg ragu_mc: folding of revdot claims.
pub use crate::internal::fold_revdot::{
    ClaimFolder, Foldable, NumErrorTerms, Parameters, fold_inner, fold_outer, fold_two_layer, inner_error_terms, outer_error_terms,
};
pub use crate::internal::native::RevdotParameters;
