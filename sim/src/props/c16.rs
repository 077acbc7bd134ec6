//! The single-precision build: the same mathematics, to single precision. Problems are kept well-conditioned and of
//! ordinary size, tolerances coarse (a hundredth or so): what is judged is that the build is right, not how accurate it is.
use super::*;
use crate::gen;
use crate::glue::*;

/// for steps and optima
const T: f64 = 2e-2;
/// for costs and linearisations
const L: f64 = 5e-3;

fn near_kink(f: &Fac, vs: &[&MV]) -> bool {
    let d2 = f.mahalanobis2(vs);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-2 * (1.0 + b);
    match f.rob {
        Rob::L1 => d2 < 0.01,
        Rob::Huber(k) | Rob::Tukey(k) => near(d2.sqrt(), k),
        _ => false,
    }
}
fn clear(p: &Problem, x: &[MV]) -> bool {
    finite(x)
        && p.facs.iter().all(|f| {
            let vs: Vec<&MV> = f.keys.iter().map(|k| &x[*k]).collect();
            f.rot_gap(&vs) > 0.1 && !near_kink(f, &vs)
        })
}
fn numeric(p: &Problem) -> bool {
    p.facs.iter().any(|f| matches!(&f.res, Res::Custom(c) if c.numeric))
}
/// The model's minimum, if Gauss-Newton gets there from x without trouble.
fn minimum(p: &Problem, x: &[MV]) -> Option<Vec<MV>> {
    let mut x = x.to_vec();
    for _ in 0..40 {
        if !clear(p, &x) {
            return None;
        }
        let n = p.normal(&x);
        if !(n.cond() < 1e3) {
            return None;
        }
        let d = n.solve(0.0, false)?;
        if d.amax() > 0.7 {
            return None;
        }
        x = p.apply(&x, &n, &d);
        if d.amax() < 1e-9 {
            return Some(x);
        }
    }
    None
}
pub fn run() -> R {
    let p = if chance(1, 30) { gen::large(9 + below(30)) } else { gen::problem(&if chance(1, 3) { gen::Opts::WILD } else { gen::Opts::BENIGN }) };
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    new_hash_world();
    let wrap = chance(1, 6);
    let fo = perm(p.facs.len());
    let g = graph(&p, &fo, wrap);
    let v = values(&p, &x0, &perm(p.vars.len()));
    nontrivial();
    // cost and linearisation of every factor
    for i in &fo {
        let f = &p.facs[*i];
        let vs: Vec<&MV> = f.keys.iter().map(|k| &x0[*k]).collect();
        if f.rot_gap(&vs) < 0.1 || near_kink(f, &vs) {
            continue;
        }
        let rf = factor(&p, f, wrap);
        let (got, want) = (hi(guard(|| rf.error(&v)).must("factor error")?), f.error(&vs));
        ensure!(within("factor cost", rel(got, want), L), "factor-cost", "factor {i}: cost {got:e}, expected {want:e}");
        let l = guard(|| rf.linearize(&v)).must("factor linearize")?;
        let (h, gr, _) = f.normal(&vs);
        let (a, b) = (l.a.mat().map(hi), l.b.map(hi));
        ensure!(a.ncols() == h.ncols() && a.nrows() == b.len(), "factor-shape", "factor {i}: linearisation of {} columns, expected {}", a.ncols(), h.ncols());
        let rough = matches!(&f.res, Res::Custom(c) if c.numeric);
        let t = if rough { 3.0 * L } else { L };
        let sc = 1.0 + c02::max_abs(&h);
        let d = c02::max_abs(&(a.transpose() * &a - &h)) / sc;
        let name = if rough { "factor hessian (numeric)" } else { "factor hessian" };
        ensure!(within(name, d, t), "factor-jacobian", "factor {i}: A^T A deviates by {d:e}");
        let d = (a.transpose() * &b - gr).amax() / (sc + (sc * b.norm_squared()).sqrt());
        let name = if rough { "factor gradient (numeric)" } else { "factor gradient" };
        ensure!(within(name, d, t), "factor-gradient", "factor {i}: A^T b deviates by {d:e}");
    }
    if !p.near_pi(&x0) {
        let (got, want) = (hi(guard(|| g.error(&v)).must("graph error")?), p.error(&x0));
        ensure!(within("cost", rel(got, want), L), "cost", "cost {got:e}, expected {want:e}");
    }
    // a run: every Gauss-Newton step, and where it ends
    let mut s = Setup::new(chance(1, 2), pick(SOLVERS));
    s.wrap = wrap;
    s.params = OptParams { max_iterations: 60, ..OptParams::default() };
    if chance(1, 3) {
        s.params = fixed_steps(1 + below(4));
    }
    new_hash_world();
    let mut ses = Session::over(g, &p, &s);
    let rec = ses.run(&p, v)?;
    ev!("lm {} ended {} after {} steps", s.lm, rec.out.kind(), rec.seen.len());
    let it = rec.iterates()?;
    let mut x = x0.clone();
    for (k, y) in it.iter().enumerate() {
        if s.lm || !clear(&p, &x) {
            break;
        }
        let n = p.normal(&x);
        let c = n.cond();
        let Some(d) = n.solve(0.0, false) else { break };
        if !(c < 300.0) || d.amax() > 1.5 {
            break;
        }
        let want = p.apply(&x, &n, &d);
        let e = max_dist(&want, y);
        let t = (T + if numeric(&p) { 2.0 * T } else { 0.0 }) * (1.0 + c.sqrt() / 4.0) * d.amax() + 1e-3;
        ensure!(within("step", e, t), "step", "step {} is off by {e:e} (tolerance {t:e}, condition {c:e})", k + 1);
        probe("step compared");
        x = y.clone();
    }
    let Some(m) = minimum(&p, &x0) else { return Ok(()) };
    match &rec.out {
        Out::Panicked(e) => viol!("panic", "a well-posed problem made the run panic: {e}"),
        Out::Invalid => viol!("invalid-system", "a well-posed problem was reported as unsolvable"),
        _ => {}
    }
    let Some(y) = rec.out.vals().filter(|_| s.params.max_iterations == 60) else { return Ok(()) };
    if rec.out.kind() == "converged" {
        let (cy, cm) = (p.error(y), p.error(&m));
        // whether it started in the same basin is the model's word for Gauss-Newton only
        ensure!(within("optimum", (cy - cm).max(0.0) / (1.0 + cm), T), "optimum", "converged with cost {cy:e}, the minimum has {cm:e}");
        probe("optimum compared");
    } else {
        viol!("no-convergence", "a well-posed problem ended {} after {} steps", rec.out.kind(), it.len());
    }
    Ok(())
}
