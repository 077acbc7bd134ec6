//! One scenario per property. Each draws a configuration, a schedule and faults from the tape, runs the real code, and
//! checks the property against the reference model or against a fault-free, isolated execution.
use crate::core::*;
use crate::drive::*;
use crate::model::*;
use crate::num::*;
use factrs::optimizers::OptParams;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
#[cfg(not(feature = "f32"))]
mod c07;
mod c08;
mod c09;
mod c11;
mod c12;
#[cfg(not(feature = "f32"))]
mod c13;
mod c14;
#[cfg(feature = "f32")]
mod c16;
#[cfg(feature = "rayon")]
mod c17;

pub fn run(id: &str) -> R {
    match id {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        "C04" => c04::run(),
        "C05" => c05::run(),
        "C06" => c06::run(),
        #[cfg(not(feature = "f32"))]
        "C07" => c07::run(),
        "C08" => c08::run(),
        "C09" => c09::run_c09(),
        "C10" => c09::run_c10(),
        "C11" => c11::run(),
        "C12" => c12::run(),
        #[cfg(not(feature = "f32"))]
        "C13" => c13::run(),
        "C14" => c14::run(),
        // the same guarantees in a build with another update convention (the model follows the convention)
        #[cfg(not(feature = "f32"))]
        "C15" => match draw(12) {
            0..=4 => c02::run(),
            5 | 6 => c03::run(),
            7 => c13::run(),
            8 => c09::run_c10(),
            9 => c01::run(),
            10 => c12::run(),
            _ => c11::run(),
        },
        // the same guarantees in single precision
        #[cfg(feature = "f32")]
        "C16" => match draw(16) {
            0..=5 => c16::run(),
            6 => c01::run(),
            7 => c04::run(),
            8 => c05::run(),
            9 => c06::run(),
            10 => c08::run(),
            11 => c09::run_c09(),
            12 => c09::run_c10(),
            13 => c11::run(),
            14 => c12::run(),
            _ => c14::run(),
        },
        #[cfg(feature = "f32")]
        "C16n" => c16::run(),
        #[cfg(feature = "rayon")]
        "C17" => c17::run(),
        _ => viol!("usage", "unknown property {id}"),
    }
}

/// Deviation `d` must not exceed `tol`; the worst ratio is recorded.
pub fn within(name: &'static str, d: f64, tol: f64) -> bool {
    margin(name, d / tol);
    d <= tol
}
pub fn fmt_params(p: &OptParams) -> String {
    format!(
        "max {} tol {:e} abs {:e} rel {:e}",
        p.max_iterations, p.error_tol, p.error_tol_absolute, p.error_tol_relative
    )
}
/// Outcome kind, number and contents of announced iterates and final estimate agree.
pub fn same(name: &'static str, class: &str, what: &str, a: &Rec, b: &Rec, t: f64) -> R {
    let tol = tol(t, 1e-2);
    ensure!(
        a.out.kind() == b.out.kind(),
        format!("{class}-outcome"),
        "{what}: one run ended {:?}, the other {:?}",
        short(&a.out),
        short(&b.out)
    );
    let (x, y) = (a.iterates()?, b.iterates()?);
    ensure!(x.len() == y.len(), format!("{class}-steps"), "{what}: {} steps against {}", x.len(), y.len());
    for (i, (u, v)) in x.iter().zip(&y).enumerate() {
        let d = max_dist(u, v);
        ensure!(
            within(name, d, tol),
            format!("{class}-iterate"),
            "{what}: iterate {} differs by {d:e} (tolerance {tol:e})",
            i + 1
        );
    }
    if let (Some(u), Some(v)) = (a.out.vals(), b.out.vals()) {
        let d = max_dist(u, v);
        ensure!(within(name, d, tol), format!("{class}-result"), "{what}: final estimate differs by {d:e} ({tol:e})");
    }
    Ok(())
}
pub fn short(o: &Out) -> String {
    match o {
        Out::Panicked(m) => format!("panicked ({m})"),
        o => o.kind().into(),
    }
}
pub fn finite(x: &[MV]) -> bool {
    x.iter().all(|m| m.finite())
}
/// Some generator and optimizer settings most scenarios share.
pub fn some_params() -> OptParams {
    let mut p = OptParams::default();
    match draw(4) {
        0 => {}
        1 => p.max_iterations = 1 + below(5),
        2 => {
            p.error_tol_absolute = pick(&[1e-3, 1e-9, 0.1]);
            p.error_tol_relative = pick(&[1e-3, 1e-9, 0.1]);
        }
        _ => p.error_tol = pick(&[0.0, 1e-3, 1.0]),
    }
    p
}
