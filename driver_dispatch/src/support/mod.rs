pub fn cold_path() {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Round {
    Nearest,
    Negative,
    Positive,
    Zero,
}

#[path = "../../../../repo/libm/src/math/support/feature_detect.rs"]
pub mod feature_detect;
