pub mod arch;

/// the portable functions: only that they run
pub mod generic {
    use crate::support::Round;

    pub struct Res<F> {
        pub val: F,
    }
    pub fn fma_round<F>(x: F, _: F, _: F, _: Round) -> Res<F> {
        crate::executed("");
        Res { val: x }
    }
    pub fn fma_wide_round<F>(x: F, _: F, _: F, _: Round) -> Res<F> {
        crate::executed("");
        Res { val: x }
    }
}
