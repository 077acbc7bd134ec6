//! The optimize loop: scripted optimizers with arbitrary cost histories and failing steps, and the real ones.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::optimizers::{OptError, OptResult, Optimizer};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    Step,
    System,
    Limit,
    Crash,
}
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Init(u64),
    Step(u64, usize),
    Cost(u64),
}
/// A user-defined optimizer: iterate number n has the n-th scripted cost.
struct Scripted {
    params: OptParams,
    costs: Vec<Real>,
    fail: Option<(usize, Fail)>,
    /// iterates are labelled start + number of steps
    start: u64,
    calls: RefCell<Vec<Call>>,
}
impl Optimizer for Scripted {
    type Input = u64;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn init(&mut self, v: &u64) {
        self.calls.borrow_mut().push(Call::Init(*v));
    }
    fn error(&self, v: &u64) -> Real {
        tick();
        self.calls.borrow_mut().push(Call::Cost(*v));
        let n = v.wrapping_sub(self.start) as usize;
        self.costs.get(n).copied().unwrap_or_else(|| *self.costs.last().unwrap())
    }
    fn step(&mut self, v: u64, idx: usize) -> OptResult<u64> {
        tick();
        self.calls.borrow_mut().push(Call::Step(v, idx));
        let n = v.wrapping_sub(self.start) as usize + 1;
        if let Some((k, f)) = self.fail {
            if k == n {
                match f {
                    Fail::Step => return Err(OptError::FailedToStep),
                    Fail::System => return Err(OptError::InvalidSystem),
                    Fail::Limit => return Err(OptError::MaxIterations(v + 1_000_000)),
                    Fail::Crash => std::panic::panic_any(Crash),
                }
            }
        }
        Ok(v + 1)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Converged(u64),
    Limit(u64),
    Step,
    System,
    Crash,
    Other(String),
}
/// What the documented stopping rules say; steps taken and outcome.
fn expect(s: &Scripted) -> (usize, End) {
    let p = &s.params;
    let cost = |n: usize| s.costs.get(n).copied().unwrap_or_else(|| *s.costs.last().unwrap());
    if cost(0) <= p.error_tol {
        return (0, End::Converged(s.start));
    }
    let mut n = 0usize;
    loop {
        if n == p.max_iterations {
            return (n, End::Limit(s.start + n as u64));
        }
        n += 1;
        if let Some((k, f)) = s.fail {
            if k == n {
                let e = match f {
                    Fail::Step => End::Step,
                    Fail::System => End::System,
                    Fail::Limit => End::Limit(s.start + (n as u64 - 1) + 1_000_000),
                    Fail::Crash => End::Crash,
                };
                return (n, e);
            }
        }
        if stops(cost(n - 1), cost(n), p) {
            return (n, End::Converged(s.start + n as u64));
        }
    }
}
/// Is this step the last one? (Comparisons with a not-a-number are false.)
fn stops(old: Real, new: Real, p: &OptParams) -> bool {
    let d = old - new;
    new <= p.error_tol || d <= p.error_tol_absolute || d / old <= p.error_tol_relative
}
fn dyadic(top: u64) -> Real {
    draw(top) as Real / 64.0
}
/// Hundreds or thousands of small decreases.
fn long_script() -> Scripted {
    let n = if chance(1, 40) { 60_000 + below(80_000) } else { 90 + below(2400) };
    let top = (n as Real + 100.0) / 64.0;
    let mut costs: Vec<Real> = (0..=n).map(|i| top - i as Real / 64.0).collect();
    if chance(1, 2) {
        let last = costs[n];
        costs.push(pick(&[last, last + 1.0, last - 1.0 / 128.0, 0.0]));
    }
    let p = OptParams {
        max_iterations: pick(&[usize::MAX, n, n + 1, n.saturating_sub(1), 5_000, 100, 256, 1_000]),
        error_tol: pick(&[0.0, Real::NEG_INFINITY]),
        error_tol_absolute: pick(&[0.0, 1.0 / 128.0]),
        error_tol_relative: 0.0,
    };
    let fail = if chance(1, 3) { Some((1 + below(n + 1), pick(&[Fail::Step, Fail::System, Fail::Crash]))) } else { None };
    Scripted { params: p, costs, fail, start: draw(1000), calls: RefCell::new(vec![]) }
}
fn script() -> Scripted {
    if chance(1, 500) {
        return long_script();
    }
    // Costs and tolerances are multiples of 1/64, so that every comparison is exact, also at equality.
    let n = 1 + below(9);
    let mut costs = Vec::new();
    let mut c = 1.0 + dyadic(4096);
    if chance(1, 12) {
        // from the start
        costs.push(pick(&[Real::NAN, Real::INFINITY]));
    }
    for i in 0..=n {
        costs.push(c);
        let next = match draw(10) {
            0 => c / 2.0,
            1 => c - 1.0 / 64.0,
            2 => c,
            3 => c + dyadic(64),
            4 => c - dyadic(1 + (c.clamp(0.0, 60.0) * 64.0) as u64),
            5 => {
                if chance(1, 2) {
                    Real::NAN
                } else {
                    Real::INFINITY
                }
            }
            6 => 1.0 / 64.0,
            7 => 0.75 * c,
            8 => dyadic(512),
            _ => c / 4.0,
        };
        // keep costs representable and away from denormals
        c = if next.is_nan() || next.is_infinite() { next } else { (next * 64.0).round().max(1.0) / 64.0 };
        if !c.is_finite() && chance(1, 2) && i + 1 < n {
            costs.push(c);
            c = 1.0 + dyadic(512);
        }
    }
    let chg = |t: Real| if t == 0.0 { 0.0 } else { t };
    let mut p = OptParams {
        max_iterations: match draw(8) {
            0 => 100,
            1 => 0,
            2 => 1,
            7 => usize::MAX,
            _ => 1 + below(10),
        },
        error_tol: match draw(5) {
            0 => 0.0,
            1 => dyadic(256),
            2 => Real::NEG_INFINITY,
            _ => *costs.get(below(costs.len())).filter(|c| c.is_finite() && chance(1, 2)).unwrap_or(&0.0),
        },
        error_tol_absolute: match draw(4) {
            0 => 0.0,
            1 => dyadic(128),
            2 => Real::NEG_INFINITY,
            _ => {
                // exactly some decrease of the history
                let i = below(costs.len() - 1);
                let d = costs[i] - costs[i + 1];
                if d.is_finite() {
                    chg(d)
                } else {
                    0.0
                }
            }
        },
        error_tol_relative: match draw(5) {
            0 => 0.0,
            1 => pick(&[0.5, 0.25, 0.75]),
            2 => Real::NEG_INFINITY,
            3 => pick(&[1.0 / 64.0, 0.125, -0.125, -0.5]),
            _ => 0.0,
        },
    };
    if chance(1, 8) {
        // increases are put up with up to a part of what was there
        p.error_tol_absolute = Real::NEG_INFINITY;
        let i = below(costs.len() - 1);
        let r = (costs[i] - costs[i + 1]) / costs[i];
        if r.is_finite() {
            p.error_tol_relative = r * pick(&[0.5, 0.9, 1.1, 2.0]);
        }
    }
    let fail = if chance(1, 3) {
        Some((1 + below(n + 1), pick(&[Fail::Step, Fail::System, Fail::Limit, Fail::Crash])))
    } else {
        None
    };
    if p.max_iterations == usize::MAX && fail.is_none() {
        // unlimited: the script must end by itself
        let last = *costs.last().unwrap();
        if last.is_finite() {
            p.error_tol_absolute = p.error_tol_absolute.max(0.0);
        } else {
            p.max_iterations = 100;
        }
    }
    Scripted { params: p, costs, fail, start: draw(1000), calls: RefCell::new(vec![]) }
}
fn ended(r: Ended<OptResult<u64>>) -> End {
    match r {
        Ended::Done(Ok(v)) => End::Converged(v),
        Ended::Done(Err(OptError::MaxIterations(v))) => End::Limit(v),
        Ended::Done(Err(OptError::FailedToStep)) => End::Step,
        Ended::Done(Err(OptError::InvalidSystem)) => End::System,
        Ended::Crashed => End::Crash,
        Ended::Panicked(m) => End::Other(m),
    }
}
fn scripted() -> R {
    let mut s = script();
    ev!("costs {:?} of {} fail {:?} {}", &s.costs[..s.costs.len().min(12)], s.costs.len(), s.fail, fmt_params(&s.params));
    for round in 0..1 + below(2) {
        if round > 0 {
            s.start += 5_000;
            s.params.max_iterations = if s.params.max_iterations == usize::MAX { usize::MAX } else { below(12) };
            ev!("again: {}", fmt_params(&s.params));
        }
        let (steps, want) = expect(&s);
        s.calls.borrow_mut().clear();
        set_tick_limit(5_000 + 4 * s.costs.len() as u64);
        let start = s.start;
        let got = ended(guard(|| s.optimize(start)));
        ev!("expected {want:?} after {steps}, got {got:?}");
        if let Some((_, f)) = s.fail {
            if matches!(got, End::Step | End::System | End::Crash) {
                fault(match f {
                    Fail::Step => "step fails",
                    Fail::System => "step finds the system invalid",
                    Fail::Limit => "step reports its own limit",
                    Fail::Crash => "crash in step",
                });
            }
        }
        if s.costs.iter().any(|c| c.is_nan()) {
            fault("cost is not a number");
        }
        if s.costs.iter().any(|c| c.is_infinite()) {
            fault("cost is infinite");
        }
        let calls = s.calls.borrow().clone();
        // steps: each gets the iterate of the one before and the next number
        let taken: Vec<(u64, usize)> =
            calls.iter().filter_map(|c| if let Call::Step(v, i) = c { Some((*v, *i)) } else { None }).collect();
        for (k, (v, i)) in taken.iter().enumerate() {
            ensure!(*v == s.start + k as u64, "chain", "step {} started from iterate {}", k + 1, v - s.start);
            ensure!(*i == k + 1, "numbering", "step {} was numbered {i}", k + 1);
        }
        ensure!(taken.len() == steps, "steps", "{} steps taken, {steps} expected ({want:?}, got {got:?})", taken.len());
        ensure!(got == want, "outcome", "the run ended {got:?}, expected {want:?}");
        let inits: Vec<usize> =
            calls.iter().enumerate().filter(|(_, c)| matches!(c, Call::Init(_))).map(|(i, _)| i).collect();
        let first = calls.iter().position(|c| matches!(c, Call::Step(..)));
        ensure!(
            !inits.is_empty() && matches!(calls[inits[0]], Call::Init(v) if v == s.start),
            "init",
            "the run did not initialise from its starting values"
        );
        if let Some(f) = first {
            ensure!(inits.iter().all(|i| *i < f), "init", "initialisation came after a step");
        }
        probe("scripted run");
    }
    nontrivial();
    Ok(())
}
/// Some(stop?) unless within rounding of a threshold
fn judge(old: f64, new: f64, p: &OptParams) -> Option<bool> {
    let near = |a: f64, t: f64, s: f64| t.is_finite() && a.is_finite() && (a - t).abs() <= tol(1e-11, 1e-4) * (s + t.abs() + tol(0.0, 1e-2));
    let [tol_cost, tol_abs, tol_rel] = [p.error_tol, p.error_tol_absolute, p.error_tol_relative].map(hi);
    if new.is_nan() || old.is_nan() {
        return Some(false);
    }
    if new == tol_cost && tol_cost == 0.0 {
        return Some(true);
    }
    let d = old - new;
    if near(new, tol_cost, new.abs()) {
        return None;
    }
    if new <= tol_cost {
        return Some(true);
    }
    if near(d, tol_abs, old.abs() + new.abs()) || near(d / old, tol_rel, 1.0) {
        return None;
    }
    Some(d <= tol_abs || d / old <= tol_rel)
}
fn real() -> R {
    let lm = chance(1, 2);
    let o = if chance(1, 3) { gen::Opts::WILD } else { gen::Opts::BENIGN };
    let p = gen::problem(&gen::Opts { max_vars: 4, ..o });
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let mut s = Setup::new(lm, pick(SOLVERS));
    s.params = OptParams {
        max_iterations: pick(&[100, 0, 1, 2, 3, 7]),
        error_tol: pick(&[0.0, 1e-6, 0.1, 1.0, 10.0]),
        error_tol_absolute: pick(&[1e-6, 0.0, 1e-2, 1.0, Real::NEG_INFINITY]),
        error_tol_relative: pick(&[1e-6, 0.0, 1e-2, 0.5, Real::NEG_INFINITY]),
    };
    let mut plan = Vec::new();
    if chance(1, 2) {
        for k in 1..=10u64 {
            if chance(1, 4) {
                plan.push((k, pick(SOLVER_FAULTS)));
            }
        }
    }
    let always = if lm && chance(1, 8) { Some(pick(&[SolverFault::Nan, SolverFault::Zero])) } else { None };
    ev!("lm {lm} {:?} plan {plan:?} always {always:?} {}", s.solver, fmt_params(&s.params));
    new_hash_world();
    let v0 = values(&p, &x0, &perm(p.vars.len()));
    let mut ses = Session::new(&p, &s, &perm(p.facs.len()));
    hooks(|h| {
        h.solver_plan = plan;
        h.solver_always = always;
    });
    set_tick_limit(200_000);
    let rec = ses.run(&p, v0.clone())?;
    hooks(|h| {
        h.solver_plan.clear();
        h.solver_always = None;
    });
    ev!("ended {} after {} steps", rec.out.kind(), rec.seen.len());
    // the costs of the saved iterates, as the library reports them
    let saved = ses.saved.borrow().clone();
    let mut costs = Vec::new();
    for v in std::iter::once(&v0).chain(saved.iter()) {
        match guard(|| ses.opt.error(v)) {
            Ended::Done(c) => costs.push(c),
            _ => return Ok(()), // the run died on it too
        }
    }
    let m = saved.len();
    ensure!(m <= s.params.max_iterations, "steps", "{m} steps taken, limit {}", s.params.max_iterations);
    let start_done = costs[0] <= hi(s.params.error_tol);
    if (costs[0] - hi(s.params.error_tol)).abs() <= tol(1e-11, 1e-4) * (1.0 + costs[0]) {
        return Ok(());
    }
    if start_done {
        ensure!(m == 0, "steps", "the initial cost {:e} is within tolerance, yet {m} steps were taken", costs[0]);
    }
    for k in 1..=m {
        let last = k == m;
        match judge(costs[k - 1], costs[k], &s.params) {
            Some(true) => {
                ensure!(
                    last,
                    "steps",
                    "step {k} (cost {:e} -> {:e}) met a tolerance, yet the run went on",
                    costs[k - 1],
                    costs[k]
                );
                ensure!(
                    rec.out.kind() == "converged",
                    "outcome",
                    "step {k} met a tolerance, the run ended {}",
                    short(&rec.out)
                );
            }
            Some(false) if last => {
                if rec.out.kind() == "converged" {
                    viol!(
                        "outcome",
                        "success after step {k} with costs {:e} -> {:e}, which meet no tolerance ({})",
                        costs[k - 1],
                        costs[k],
                        fmt_params(&s.params)
                    );
                }
                if rec.out.kind() == "max-iterations" {
                    ensure!(
                        m == s.params.max_iterations,
                        "outcome",
                        "the limit of {} was reported after {m} steps",
                        s.params.max_iterations
                    );
                }
            }
            Some(false) => {}
            None => {
                probe("at a threshold");
                return Ok(());
            }
        }
    }
    if m == 0 {
        match &rec.out {
            Out::Converged(_) => ensure!(start_done, "outcome", "success without a step, initial cost {:e}", costs[0]),
            Out::MaxIter(_) => ensure!(s.params.max_iterations == 0 && !start_done, "outcome", "limit without a step"),
            _ => {}
        }
    }
    if let Some(v) = rec.out.vals() {
        let it = rec.iterates()?;
        match it.last() {
            Some(w) => {
                let same = v.iter().zip(w).all(|(a, b)| {
                    a.embed().iter().zip(b.embed()).all(|(x, y)| *x == y || (x.is_nan() && y.is_nan()))
                });
                ensure!(same, "returned-other", "the run returned something else than its latest iterate");
            }
            None => ensure!(max_dist(v, &x0) < tol(1e-9, 1e-6), "returned-other", "no step, yet the estimate changed"),
        }
        if rec.out.kind() == "converged" && m > 0 {
            ensure!(!costs[m].is_nan(), "nan-converged", "success with a cost that is not a number");
        }
    }
    nontrivial();
    probe("real run");
    Ok(())
}
pub fn run() -> R {
    if chance(1, 3) {
        real()
    } else {
        scripted()
    }
}
