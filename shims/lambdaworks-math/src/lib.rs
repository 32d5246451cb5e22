//! Stand-in for lambdaworks-math (rev a17b951): same public names and observable behaviour as far
//! as lambdaworks_cairo_prover uses it, plus tiny FFT-friendly fields for exhaustive enumeration.
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod traits;
pub mod unsigned_integer;

/// Field operations are the places where a parallel task may be suspended.
#[cfg(feature = "yield")]
pub static YIELD: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
#[cfg(feature = "yield")]
#[inline]
pub(crate) fn yield_point() {
    if let Some(f) = YIELD.get() {
        f()
    }
}
