//! Cost, linearisation and Gauss-Newton step against the reference model, along whole runs.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::ValuesOrder;
use factrs::linalg::VectorX;
use factrs::linear::{LinearGraph, LinearValues};
use nalgebra::{DMatrix, DVector};

fn has_numeric(p: &Problem) -> bool {
    p.facs.iter().any(|f| matches!(&f.res, Res::Custom(c) if c.numeric))
}
pub fn max_abs(m: &DMatrix<f64>) -> f64 {
    m.iter().fold(0.0, |a, x| if x.is_nan() { f64::INFINITY } else { a.max(x.abs()) })
}
pub fn run() -> R {
    let mut loose = 1.0;
    let p = match draw(16) {
        0..=4 => gen::problem(&gen::Opts::BENIGN),
        5..=10 => gen::problem(&gen::Opts::WILD),
        11..=14 => {
            // the library's small-angle series are good to 2e-7: heavy weights bring that into view
            loose = 100.0;
            gen::problem(&gen::Opts::wide())
        }
        _ if chance(1, 100) => gen::huge(),
        _ => gen::large(if chance(1, 8) { 40 + below(60) } else { 10 + below(20) }),
    };
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let wrap = chance(1, 6);
    new_hash_world();
    let forder = perm(p.facs.len());
    let vorder = perm(p.vars.len());
    let g = graph(&p, &forder, wrap);
    let v = values(&p, &x0, &vorder);
    nontrivial();
    check_point(&p, &g, &v, &x0, &forder, wrap, loose)?;

    // whole runs: every step against the model's step from the same point
    let mut s = Setup::new(false, pick(SOLVERS));
    s.wrap = wrap;
    s.params = fixed_steps(if chance(1, 16) { 5 + below(30) } else { 1 + below(4) });
    if chance(1, 3) {
        s.params = some_params();
    }
    new_hash_world();
    let mut ses = Session::over(g, &p, &s);
    let rec = ses.run(&p, values(&p, &x0, &perm(p.vars.len())))?;
    ev!("run ended {} after {} steps", rec.out.kind(), rec.seen.len());
    let it = rec.iterates()?;
    let mut x = x0;
    for (k, y) in it.iter().enumerate() {
        if !check_step(&p, &x, y, k + 1)? {
            probe("step not comparable");
            return Ok(());
        }
        probe("step compared");
        x = y.clone();
    }
    if let Out::Panicked(m) = &rec.out {
        let n = p.normal(&x);
        if !p.near_cut(&x) && n.cond() < 1e9 && finite(&x) {
            viol!("panic", "step {} panicked on a well-posed problem: {m}", it.len() + 1);
        }
        probe("ill-posed panic");
    }
    // the cost at the end
    if let Some(y) = rec.out.vals() {
        let v = values(&p, y, &identity(p.vars.len()));
        cost(&p, ses.opt.graph(), &v, y, "final cost", loose)?;
    }
    Ok(())
}
pub fn cost(p: &Problem, g: &factrs::containers::Graph, v: &factrs::containers::Values, x: &[MV], what: &str, loose: f64) -> R {
    let want = p.error(x);
    let got = hi(guard(|| g.error(v)).must("graph error")?);
    if p.near_pi(x) {
        return Ok(());
    }
    ensure!(
        within("cost", rel(got, want), 1e-8 * loose),
        "cost",
        "{what}: graph reports {got:e}, the robust cost of the whitened residuals is {want:e}"
    );
    Ok(())
}
fn check_point(
    p: &Problem,
    g: &factrs::containers::Graph,
    v: &factrs::containers::Values,
    x: &[MV],
    forder: &[usize],
    wrap: bool,
    loose: f64,
) -> R {
    cost(p, g, v, x, "initial cost", loose)?;
    // each factor alone
    for i in forder {
        let f = &p.facs[*i];
        let vs: Vec<&MV> = f.keys.iter().map(|k| &x[*k]).collect();
        if f.near_cut(&vs) || f.rob.near_kink(f.mahalanobis2(&vs)) {
            probe("factor skipped at a cut");
            continue;
        }
        let rf = factor(p, f, wrap);
        let e = hi(guard(|| rf.error(v)).must("factor error")?);
        let want = f.error(&vs);
        ensure!(
            within("factor cost", rel(e, want), 1e-8 * loose),
            "factor-cost",
            "factor {i} {:?}: cost {e:e}, expected {want:e}",
            f.keys
        );
        let l = guard(|| rf.linearize(v)).must("factor linearize")?;
        let (h, gr, c) = f.normal(&vs);
        let (a, lb) = (&l.a.mat().map(hi), l.b.map(hi));
        ensure!(
            a.ncols() == h.ncols() && l.b.len() == a.nrows(),
            "factor-shape",
            "factor {i}: linearisation has {} columns, expected {}",
            a.ncols(),
            h.ncols()
        );
        let (rh, rg, rc) = (a.transpose() * a, a.transpose() * &lb, lb.norm_squared());
        let numeric = matches!(&f.res, Res::Custom(c) if c.numeric);
        let t = 1e-5;
        let sc = 1.0 + max_abs(&h);
        let name = if numeric { "factor hessian (numeric)" } else { "factor hessian" };
        let d = max_abs(&(rh - &h)) / sc;
        ensure!(
            within(name, d, t),
            "factor-jacobian",
            "factor {i} {}: A^T A deviates by {d:e} (relative)",
            gen::describe(&Problem { vars: vec![], facs: vec![f.clone()] })
        );
        let sg = 1.0 + (sc * c.max(0.0)).sqrt() + sc.sqrt() * rounding(f, &vs) / t;
        let d = (rg - gr).amax() / sg;
        ensure!(
            within("factor gradient", d, t),
            "factor-gradient",
            "factor {i} {}: A^T b deviates by {d:e} (relative)",
            gen::describe(&Problem { vars: vec![], facs: vec![f.clone()] })
        );
        ensure!(within("factor b", rel(rc, c), 1e-8 * loose), "factor-b", "factor {i}: |b|^2 = {rc:e}, expected {c:e}");
    }
    // the linearised cost of the whole graph at an arbitrary increment
    if p.near_cut(x) {
        return Ok(());
    }
    let n = p.normal(x);
    let lg = guard(|| g.linearize(v)).must("graph linearize")?;
    let order = ValuesOrder::from_values(v);
    let mut d = DVector::zeros(n.h.nrows());
    let mut real = VectorX::zeros(n.h.nrows());
    for (i, w) in p.vars.iter().enumerate() {
        let Some(idx) = order.get(vkey(w)) else { viol!("layout", "variable {}{} missing in the layout", w.chr, w.idx) };
        ensure!(idx.dim == x[i].dim(), "layout", "variable {} has {} columns", i, idx.dim);
        for k in 0..idx.dim {
            let t = sym(0.7);
            d[n.off[i] + k] = t;
            real[idx.idx + k] = lo(t);
        }
    }
    // the sparse system, laid out by the graph or by its linearisation, built whole or factor by factor
    let lg2 = if chance(1, 2) {
        None
    } else {
        let mut l = LinearGraph::new();
        for i in forder {
            l.add_factor(guard(|| factor(p, &p.facs[*i], wrap).linearize(v)).must("factor linearize")?);
        }
        Some(l)
    };
    let l = lg2.as_ref().unwrap_or(&lg);
    let pattern = if chance(1, 2) { g.sparsity_pattern(order.clone()) } else { l.sparsity_pattern(order.clone()) };
    let sys = guard(|| l.residual_jacobian(&pattern)).must("assembly")?;
    let (jac, b) = (dense(sys.diff.as_ref()), DVector::from_fn(sys.value.nrows(), |i, _| hi(sys.value[(i, 0)])));
    ensure!(
        jac.ncols() == n.h.nrows() && jac.nrows() == b.len(),
        "assembly-shape",
        "the system is {}x{} with {} right-hand sides, expected {} columns",
        jac.nrows(),
        jac.ncols(),
        b.len(),
        n.h.nrows()
    );
    let mut ix = Vec::new();
    for (i, w) in p.vars.iter().enumerate() {
        let c = order.get(vkey(w)).map(|i| i.idx).unwrap_or(0);
        ix.extend((0..x[i].dim()).map(|k| c + k));
    }
    let (h, gr) = (jac.transpose() * &jac, jac.transpose() * &b);
    let hm = 1.0 + max_abs(&n.h);
    let dh = max_abs(&(DMatrix::from_fn(ix.len(), ix.len(), |r, c| h[(ix[r], ix[c])]) - &n.h)) / hm;
    let noise = p.facs.iter().map(|f| rounding(f, &f.keys.iter().map(|k| &x[*k]).collect::<Vec<_>>())).sum::<f64>();
    let sg = 1.0 + (hm * n.c.max(0.0)).sqrt() + hm.sqrt() * noise / 1e-5;
    let dg = (DVector::from_fn(ix.len(), |r, _| gr[ix[r]]) - &n.g).amax() / sg;
    ensure!(within("assembled hessian", dh, 1e-5), "assembly", "the assembled system's A^T A is off by {dh:e}");
    ensure!(within("assembled gradient", dg, 1e-5), "assembly", "the assembled system's A^T b is off by {dg:e}");
    let got = hi(guard(|| l.error(&LinearValues::from_order_and_vector(order, real))).must("linear cost")?);
    let want = n.cost(&d);
    ensure!(
        within("linear cost", rel(got, want), 1e-5),
        "linear-cost",
        "linearised cost {got:e}, expected {want:e}"
    );
    // far away it is still the sum of squares of the system checked above
    let far = pick(&[1.0, 1e-6, 1e8]);
    let mut at = VectorX::zeros(jac.ncols());
    let mut dat = DVector::zeros(jac.ncols());
    for k in 0..jac.ncols() {
        let t = lo(sym(far));
        at[k] = t;
        dat[k] = hi(t);
    }
    let order = ValuesOrder::from_values(v);
    let got = hi(guard(|| l.error(&LinearValues::from_order_and_vector(order, at))).must("linear cost")?);
    let want = (&jac * &dat - &b).norm_squared() / 2.0;
    ensure!(
        within("linear cost of the system", rel(got, want), tol(1e-10, 1e-3)),
        "linear-cost",
        "linearised cost {got:e} at a distance of {far:e}, the system's is {want:e}"
    );
    Ok(())
}
/// What rounding of the coordinates alone may do to a whitened residual.
fn rounding(f: &Fac, vs: &[&MV]) -> f64 {
    let m = vs.iter().flat_map(|v| v.embed()).fold(1.0f64, |a, b| a.max(b.abs()));
    1e-14 * m * f.information().trace().sqrt()
}
/// Did the step from x to y go where the reference model's Gauss-Newton step goes? false: not comparable.
pub fn check_step(p: &Problem, x: &[MV], y: &[MV], k: usize) -> R<bool> {
    if !finite(x) || p.near_cut(x) {
        return Ok(false);
    }
    let n = p.normal(x);
    check_linear_step(p, &n, x, y, k, 0.0, false, "gauss-newton")
}
#[allow(clippy::too_many_arguments)]
pub fn check_linear_step(
    p: &Problem,
    n: &Normal,
    x: &[MV],
    y: &[MV],
    k: usize,
    lambda: f64,
    diagonal: bool,
    what: &str,
) -> R<bool> {
    let mut a = n.h.clone();
    for i in 0..a.nrows() {
        a[(i, i)] += lambda * if diagonal { n.h[(i, i)] } else { 1.0 };
    }
    let c = cond(&a);
    if !(c < 1e9) {
        return Ok(false);
    }
    let numeric = has_numeric(p);
    let Some(d) = solve_spd(&a, &n.g) else { return Ok(false) };
    if d.amax() > 1e6 {
        return Ok(false);
    }
    // forward: the new point itself
    let want = p.apply(x, n, &d);
    let tol = (if numeric { 2e-5 + 3e-6 * c.sqrt() + 1e-8 * c } else { 2e-5 + 3e-6 * c.sqrt() + 1e-9 * c }) * (1.0 + d.amax());
    // what cancels in the gradient is known only as well as the model's derivatives: factor by factor, before the
    // columns of a variable mentioned twice are added up
    let tol = tol + (if numeric { 1e-9 } else { 1e-10 }) * n.parts * c / max_abs(&a);
    let e = max_dist(&want, y);
    if tol < 1e-2 {
        ensure!(
            within(if numeric { "step (numeric)" } else { "step" }, e, tol),
            "step",
            "{what} step {k} is off by {e:e} (tolerance {tol:e}, condition {c:e}, lambda {lambda:e})"
        );
        probe("forward step check");
    }
    // backward: the increment actually taken solves the normal equations
    let mut inc = DVector::zeros(d.len());
    let mut usable = true;
    for i in 0..x.len() {
        let t = y[i].ominus(&x[i]);
        let rot = match x[i].kind() {
            Kind::SO2 | Kind::SE2 => d[n.off[i]].abs(),
            Kind::SO3 | Kind::SE3 => d.rows(n.off[i], 3).norm(),
            _ => f64::NEG_INFINITY,
        };
        // a turn of more than pi comes back wrapped, and an ill-posed step may really be one
        if rot + tol > 2.8 {
            usable = false;
        }
        for (j, z) in t.iter().enumerate() {
            inc[n.off[i] + j] = *z;
        }
    }
    if usable {
        let r = (&a * &inc - &n.g).amax();
        let cancel = 0.1 * (max_abs(&n.h) * n.c.max(0.0)).sqrt().max(n.parts);
        let sc = max_abs(&a) * (inc.amax() + 1e-3) * (a.nrows() as f64) + n.g.amax() + cancel;
        let t = if numeric { 1e-5 } else { 5e-6 };
        ensure!(
            within(if numeric { "normal equations (numeric)" } else { "normal equations" }, r / sc, t),
            "normal-equations",
            "{what} step {k}: the increment leaves a relative residual of {:e} in the normal equations",
            r / sc
        );
        probe("backward step check");
    }
    Ok(true)
}
