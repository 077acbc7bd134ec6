//! The multithreading build: linear algebra split into tasks whose order, thief and number of workers the tape decides.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::ValuesOrder;
use factrs::linalg::VectorX;
use factrs::linear::{LinearSolver, LinearValues};
use faer::Parallelism;
use nalgebra::{DMatrix, DVector};

/// A schedule of tasks for what follows.
fn schedule() -> usize {
    // only in the instrumented build do the halves of a split have points to switch at
    let (mixed, scale) = (pick(&[0u64, 4, 24, 64]), pick(&[1000u64, 100, 10_000, 10]));
    schedule_of(mixed, scale)
}
fn schedule_of(mixed: u64, scale: u64) -> usize {
    let n = pick(&[2usize, 3, 4, 8, 16, 1, 61]);
    let (rev, steal) = (pick(&[0u64, 16, 32, 64]), pick(&[0u64, 0, 4, 24]));
    let seed = draw(1 << 32);
    rayon_core::sim_start(seed, n, rev, steal, mixed, scale);
    faer::set_global_parallelism(Parallelism::Rayon(if chance(1, 2) { 0 } else { n }));
    ev!("{n} workers, {rev}/64 reversed, {steal}/64 stolen, {mixed}/64 interleaved every {scale}, seed {seed:x}");
    n
}
fn finish() {
    let rayon_core::Stats { joins, swaps, steals, pairs, switches, hash } = rayon_core::sim_stats();
    ev!("{joins} joins, {swaps} reversed, {steals} stolen, {pairs} interleaved, {switches} switches, schedule {hash:x}");
    if pairs > 0 {
        fault("tasks on two threads");
    }
    if switches > 0 {
        fault("tasks interleaved at basic blocks");
    }
    if joins > 0 {
        probe("tasks were split");
        nontrivial();
    }
    if joins > 50 {
        probe("more than fifty tasks");
    }
    if swaps > 0 {
        fault("task order reversed");
    }
    if steals > 0 {
        fault("task stolen by another thread");
    }
}
fn one_thread() {
    rayon_core::sim_start(1, 1, 0, 0, 0, 0);
    faer::set_global_parallelism(Parallelism::None);
}
pub fn run() -> R {
    let r = match draw(14) {
        0 | 1 => compare(),
        2..=4 => meshed(),
        5 => session(),
        12 | 13 => assembly(),
        n => {
            schedule();
            match n {
                6 => c01::run(),
                7 => c02::run(),
                8 => c03::run(),
                9 => c06::run(),
                10 => c07::run(),
                _ => c12::run(),
            }
        }
    };
    finish();
    r
}
/// A run on one thread, and the same under several schedules.
fn compare() -> R {
    let p = match draw(8) {
        0..=2 => gen::problem(&gen::Opts { at_least_vars: 2, ..gen::Opts::BENIGN }),
        3 | 4 => gen::large(8 + below(25)),
        5 if chance(1, 20) => gen::huge(),
        _ => gen::large(if chance(1, 4) { 40 + below(60) } else { 20 + below(20) }),
    };
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let mut s = Setup::new(chance(1, 2), pick(SOLVERS));
    s.params = some_params();
    s.params.max_iterations = s.params.max_iterations.min(12);
    one_thread();
    new_hash_world();
    let base = simple(&p, &s, &x0)?;
    if !decisive(&p, &s, &x0, &base, 1e6)? {
        probe("not decisive");
        return Ok(());
    }
    for _ in 0..1 + below(3) {
        schedule();
        let r = simple(&p, &s, &x0)?;
        same("schedule", "schedule", "one thread and many", &base, &r, 2e-6)?;
        probe("schedule compared");
        finish();
    }
    Ok(())
}
/// A densely connected graph, large enough for products and factorisations to be split.
fn meshed() -> R {
    let o = gen::Opts { custom: false, robust: false, ..gen::Opts::BENIGN };
    let k = pick(&[Kind::SE3, Kind::Vec(6), Kind::SE2, Kind::Bias, Kind::SO3, Kind::Vec(5)]);
    let mut p = Problem { vars: Vec::new(), facs: Vec::new() };
    let n = 8 + below(50);
    for _ in 0..n {
        gen::new_var(&mut p.vars, k, &o);
    }
    for i in 0..n {
        let f = if i == 0 || chance(1, 6) { gen::prior(&p, i, &o, true) } else { gen::between(&p, below(i), i, &o, true) };
        p.facs.push(f);
    }
    let local = 1 + below(n);
    for _ in 0..100 + below(350) {
        let i = below(n);
        let j = (i + 1 + below(local)) % n;
        if i != j {
            p.facs.push(gen::between(&p, i, j, &o, true));
        }
    }
    let x0 = p.init();
    let mut s = Setup::new(chance(1, 3), pick(SOLVERS));
    // damped steps close to the minimum are a matter of rounding
    s.params = fixed_steps(if s.lm { 1 } else { 1 + below(3) });
    ev!("{n} variables {k:?}, {} factors, lm {} {:?}", p.facs.len(), s.lm, s.solver);
    one_thread();
    new_hash_world();
    let base = simple(&p, &s, &x0)?;
    if let Out::Panicked(m) = &base.out {
        viol!("panic", "a well-posed problem panicked: {m}");
    }
    if s.lm && base.out.kind() == "failed-to-step" {
        probe("not decisive");
        return Ok(());
    }
    for _ in 0..1 + below(2) {
        schedule();
        let r = simple(&p, &s, &x0)?;
        same("schedule", "schedule", "one thread and many", &base, &r, 2e-6)?;
        probe("large schedule compared");
        finish();
    }
    Ok(())
}
/// Cost, linearisation, assembly and update of one problem at one point, under many schedules.
fn assembly() -> R {
    let p = if chance(1, 2) {
        gen::problem(&gen::Opts { at_least_vars: 2, ..gen::Opts::BENIGN })
    } else {
        gen::large(6 + below(20))
    };
    ev!("{}", gen::describe(&p));
    let fo = perm(p.facs.len());
    new_hash_world();
    let g = graph(&p, &fo, false);
    let x = p.init();
    let v = values(&p, &x, &perm(p.vars.len()));
    let order = ValuesOrder::from_values(&v);
    let d = VectorX::from_fn(order.dim(), |_, _| sym(0.5));
    struct Once {
        cost: f64,
        linear: f64,
        h: DMatrix<f64>,
        b: DVector<f64>,
        moved: Vec<MV>,
    }
    let once = || -> R<Once> {
        let r = guard(|| {
            let l = g.linearize(&v);
            let sys = l.residual_jacobian(&g.sparsity_pattern(order.clone()));
            let dx = LinearValues::from_order_and_vector(order.clone(), d.clone());
            let linear = l.error(&dx);
            let mut w = v.clone();
            w.oplus_mut(&dx);
            (g.error(&v), linear, dense(sys.diff.as_ref()), DVector::from_fn(sys.value.nrows(), |i, _| sys.value[(i, 0)]), w)
        });
        let (cost, linear, j, b, w) = r.must("assembly")?;
        Ok(Once { cost, linear, h: j.transpose() * &j, b: j.transpose() * b, moved: read_all(&p, &w)? })
    };
    one_thread();
    let a = once()?;
    for _ in 0..6 + below(12) {
        schedule_of(pick(&[64, 64, 16, 0]), pick(&[20u64, 100, 500, 5]));
        let o = once()?;
        finish();
        ensure!(within("scheduled cost", rel(o.cost, a.cost), 1e-9), "cost", "cost {:e}, on one thread {:e}", o.cost, a.cost);
        ensure!(within("scheduled linear cost", rel(o.linear, a.linear), 1e-9), "linear-cost", "linearised cost {:e}, on one thread {:e}", o.linear, a.linear);
        let hm = 1.0 + c02::max_abs(&a.h);
        ensure!(o.h.shape() == a.h.shape(), "assembly", "the system changed its shape");
        let dh = c02::max_abs(&(&o.h - &a.h)) / hm;
        ensure!(within("scheduled hessian", dh, 1e-9), "assembly", "A^T A deviates by {dh:e} from that on one thread");
        let db = (&o.b - &a.b).amax() / (hm + a.b.amax());
        ensure!(within("scheduled gradient", db, 1e-9), "assembly", "A^T b deviates by {db:e} from that on one thread");
        let dm = o.moved.iter().zip(&a.moved).map(|(s, t)| s.dist(t)).fold(0.0, f64::max);
        ensure!(within("scheduled update", dm, 1e-9), "update", "a tangent update deviates by {dm:e} from that on one thread");
        probe("assembly compared");
    }
    Ok(())
}
/// Large systems on one solver instance, each under its own schedule.
fn session() -> R {
    let kind = pick(SOLVERS);
    use_solver(kind);
    let mut solver = AnySolver::default();
    for k in 0..1 + below(3) {
        let sym_sys = chance(1, 2);
        let n = 20 + below(130);
        let m = if sym_sys { n } else { n + below(n) };
        let fill = n * n / pick(&[2, 8, 30]);
        let p = if sym_sys { c07::sym_pattern(n, fill) } else { c07::tall_pattern(m, n, fill) };
        let a = if sym_sys { c07::sym_values(n, &p) } else { c07::tall_values(m, n, &p) };
        let b = DVector::from_fn(m, |_, _| sym(2.0));
        let sp = c07::sparse(&a, &p);
        let fb = faer::Mat::from_fn(m, 1, |i, _| b[i]);
        schedule();
        let r = guard(|| {
            if sym_sys {
                solver.solve_symmetric(sp.as_ref(), fb.as_ref())
            } else {
                solver.solve_lst_sq(sp.as_ref(), fb.as_ref())
            }
        });
        ev!("{kind:?} system {k}: {m}x{n} {} entries", p.len());
        finish();
        let ata = if sym_sys { a.clone() } else { a.transpose() * &a };
        let atb = if sym_sys { b.clone() } else { a.transpose() * &b };
        let c = cond(&ata);
        let Some(want) = solve_spd(&ata, &atb) else { continue };
        if c > 1e8 {
            continue;
        }
        let x = r.must("solve")?;
        let got = DVector::from_fn(n, |i, _| x[(i, 0)]);
        let d = (&got - &want).amax();
        let tol = (1e-9 + 1e-12 * c) * (want.amax() + 1e-30);
        ensure!(within("large solution", d, tol), "solution", "{kind:?}: system {k} ({m}x{n}): solution off by {d:e}");
        probe("large solution checked");
    }
    Ok(())
}
