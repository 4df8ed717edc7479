#[path = "../../../../../../repo/libm/src/math/arch/x86/detect.rs"]
pub mod detect;
#[path = "../../../../../../repo/libm/src/math/arch/x86/fma.rs"]
pub mod fma;
