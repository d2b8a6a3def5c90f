// Included into ragu_pcd behind --cfg ragu_mc: endoscaling circuits.
pub use crate::internal::endoscalar::{EndoscalarStage, EndoscalingStep, EndoscalingStepWitness, InputsLen, NumStepsLen, PointsStage, PointsWitness};
pub use crate::internal::nested::NUM_ENDOSCALING_POINTS;
