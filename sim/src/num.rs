//! The library's number type, which one of its build options changes; the model always computes in double precision.
pub use factrs::dtype as Real;

/// Is this the single-precision build?
pub const SINGLE: bool = std::mem::size_of::<Real>() == 4;
pub fn lo(x: f64) -> Real {
    x as Real
}
#[allow(clippy::unnecessary_cast)]
pub fn hi(x: Real) -> f64 {
    x as f64
}
/// A tolerance: for double, for single precision.
pub const fn tol(double: f64, single: f64) -> f64 {
    if SINGLE {
        single
    } else {
        double
    }
}
