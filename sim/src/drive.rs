//! Running the real optimizers and recording what they do.
use crate::core::*;
use crate::glue::*;
use crate::model::*;
use crate::num::*;
use factrs::containers::{Graph, Values};
use factrs::optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptParams, OptResult, Optimizer};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Leven {
    pub min: f64,
    pub max: f64,
    pub factor: f64,
    pub diagonal: bool,
}
impl Default for Leven {
    fn default() -> Self {
        Leven { min: 0.0, max: 1e5, factor: 10.0, diagonal: true }
    }
}
#[derive(Clone, Debug)]
pub struct Setup {
    pub lm: bool,
    pub solver: SolverKind,
    pub params: OptParams,
    pub leven: Option<Leven>,
    pub observers: usize,
    pub wrap: bool,
}
impl Setup {
    pub fn new(lm: bool, solver: SolverKind) -> Self {
        Setup { lm, solver, params: OptParams::default(), leven: None, observers: 1, wrap: false }
    }
    pub fn leven(&self) -> Leven {
        self.leven.clone().unwrap_or_default()
    }
}
pub enum Opt {
    G(GaussNewton<SS>),
    L(LevenMarquardt<SS>),
}
impl Opt {
    pub fn new(g: Graph, s: &Setup) -> Opt {
        use_solver(s.solver);
        let mut o = if s.lm { Opt::L(LevenMarquardt::new(g)) } else { Opt::G(GaussNewton::new(g)) };
        o.configure(s);
        o
    }
    pub fn configure(&mut self, s: &Setup) {
        match self {
            Opt::G(o) => o.params = s.params.clone(),
            Opt::L(o) => {
                o.params_base = s.params.clone();
                if let Some(l) = &s.leven {
                    o.params_leven.lambda_min = lo(l.min);
                    o.params_leven.lambda_max = lo(l.max);
                    o.params_leven.lambda_factor = lo(l.factor);
                    o.params_leven.diagonal_damping = l.diagonal;
                }
            }
        }
    }
    pub fn observe(&mut self, w: Watch) {
        match self {
            Opt::G(o) => o.observers.add(w),
            Opt::L(o) => o.observers.add(w),
        }
    }
    pub fn optimize(&mut self, v: Values) -> OptResult<Values> {
        match self {
            Opt::G(o) => o.optimize(v),
            Opt::L(o) => o.optimize(v),
        }
    }
    pub fn init(&mut self, v: &Values) {
        match self {
            Opt::G(o) => o.init(v),
            Opt::L(o) => o.init(v),
        }
    }
    pub fn step(&mut self, v: Values, i: usize) -> OptResult<Values> {
        match self {
            Opt::G(o) => o.step(v, i),
            Opt::L(o) => o.step(v, i),
        }
    }
    pub fn error(&self, v: &Values) -> f64 {
        match self {
            Opt::G(o) => hi(o.error(v)),
            Opt::L(o) => hi(o.error(v)),
        }
    }
    pub fn graph(&self) -> &Graph {
        match self {
            Opt::G(o) => o.graph(),
            Opt::L(o) => o.graph(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Out {
    Converged(Vec<MV>),
    MaxIter(Vec<MV>),
    Failed,
    Invalid,
    Panicked(String),
    Crashed,
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Converged(_) => "converged",
            Out::MaxIter(_) => "max-iterations",
            Out::Failed => "failed-to-step",
            Out::Invalid => "invalid-system",
            Out::Panicked(_) => "panicked",
            Out::Crashed => "crashed",
        }
    }
    pub fn vals(&self) -> Option<&Vec<MV>> {
        match self {
            Out::Converged(v) | Out::MaxIter(v) => Some(v),
            _ => None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub out: Out,
    pub seen: Vec<Seen>,
}
impl Rec {
    pub fn iterates(&self) -> R<Vec<Vec<MV>>> {
        self.seen.iter().filter(|s| s.who == 0).map(seen_vals).collect()
    }
}
pub fn seen_vals(s: &Seen) -> R<Vec<MV>> {
    s.vals
        .iter()
        .map(|v| match v {
            Some(m) => Ok(m.clone()),
            None => Err(Viol { class: "values-lost".into(), msg: "an announced iterate lacks a variable".into() }),
        })
        .collect()
}
pub struct Session {
    pub opt: Opt,
    pub log: Rc<RefCell<Vec<Seen>>>,
    pub saved: Rc<RefCell<Vec<Values>>>,
}
impl Session {
    pub fn new(p: &Problem, s: &Setup, order: &[usize]) -> Session {
        Session::over(graph(p, order, s.wrap), p, s)
    }
    pub fn over(g: Graph, p: &Problem, s: &Setup) -> Session {
        let mut opt = Opt::new(g, s);
        let log = Rc::new(RefCell::new(Vec::new()));
        let saved = Rc::new(RefCell::new(Vec::new()));
        let keys = keys_of(p);
        for who in 0..s.observers {
            opt.observe(Watch {
                who,
                keys: keys.clone(),
                log: log.clone(),
                saved: if who == 0 { Some(saved.clone()) } else { None },
            });
        }
        Session { opt, log, saved }
    }
    /// One optimize() call; the log holds this call's announcements only.
    pub fn run(&mut self, p: &Problem, v: Values) -> R<Rec> {
        self.log.borrow_mut().clear();
        self.saved.borrow_mut().clear();
        let opt = &mut self.opt;
        let r = guard(|| opt.optimize(v));
        let out = outcome(p, r)?;
        Ok(Rec { out, seen: self.log.borrow().clone() })
    }
}
pub fn outcome(p: &Problem, r: Ended<OptResult<Values>>) -> R<Out> {
    Ok(match r {
        Ended::Done(Ok(v)) => Out::Converged(read_all(p, &v)?),
        Ended::Done(Err(OptError::MaxIterations(v))) => Out::MaxIter(read_all(p, &v)?),
        Ended::Done(Err(OptError::FailedToStep)) => Out::Failed,
        Ended::Done(Err(OptError::InvalidSystem)) => Out::Invalid,
        Ended::Panicked(m) => Out::Panicked(m),
        Ended::Crashed => Out::Crashed,
    })
}
pub fn identity(n: usize) -> Vec<usize> {
    (0..n).collect()
}
/// A run with a new optimizer, graph and value store.
pub fn fresh(p: &Problem, s: &Setup, x0: &[MV], forder: &[usize], vorder: &[usize]) -> R<Rec> {
    let mut ss = Session::new(p, s, forder);
    ss.run(p, values(p, x0, vorder))
}
pub fn simple(p: &Problem, s: &Setup, x0: &[MV]) -> R<Rec> {
    fresh(p, s, x0, &identity(p.facs.len()), &identity(p.vars.len()))
}

/// Parameters with which a run never stops early: `k` steps exactly.
pub fn fixed_steps(k: usize) -> OptParams {
    OptParams {
        max_iterations: k,
        error_tol: Real::NEG_INFINITY,
        error_tol_absolute: Real::NEG_INFINITY,
        error_tol_relative: Real::NEG_INFINITY,
    }
}

/// Are all accept/stop decisions along this trajectory far enough from their thresholds that rounding cannot flip
/// them? (Costs by the reference model.) Also false where the cost surface is not smooth or the system is badly
/// conditioned, since then two correct runs may drift apart.
pub fn decisive(p: &Problem, s: &Setup, x0: &[MV], rec: &Rec, max_cond: f64) -> R<bool> {
    let iter = rec.iterates()?;
    let mut xs: Vec<&[MV]> = vec![x0];
    xs.extend(iter.iter().map(|v| v.as_slice()));
    let costs: Vec<f64> = xs.iter().map(|x| p.error(x)).collect();
    if costs.iter().any(|c| !c.is_finite()) {
        return Ok(false);
    }
    let near = |a: f64, b: f64, scale: f64| b.is_finite() && (a - b).abs() <= tol(1e-8, 1e-2) * scale;
    for (i, x) in xs.iter().enumerate() {
        let c = costs[i];
        if near(c, hi(s.params.error_tol), c.abs() + tol(1e-8, 1e-4)) {
            return Ok(false);
        }
        // a cost that is nothing but rounding: whether it counts as zero is chance
        if c < tol(1e-14, 1e-5) * (1.0 + costs[0]) * (1.0 + p.facs.len() as f64) {
            return Ok(false);
        }
        if i > 0 {
            let d = costs[i - 1] - c;
            let t = hi(s.params.error_tol_absolute);
            if near(d, t, costs[i - 1] + c) || near(d / costs[i - 1], hi(s.params.error_tol_relative), 1.0) {
                return Ok(false);
            }
        }
        let last = i == iter.len();
        if last && !matches!(rec.out, Out::Failed | Out::Invalid | Out::Panicked(_)) {
            break;
        }
        if p.near_cut(x) {
            return Ok(false);
        }
        let n = p.normal(x);
        if n.cond() > max_cond.min(tol(f64::INFINITY, 1e2)) {
            return Ok(false);
        }
        if s.lm {
            // predicted decrease g.d/2 of the undamped step, against the linearised cost
            let Some(d) = n.solve(0.0, false) else { return Ok(false) };
            if n.g.dot(&d) / 2.0 < tol(1e-9, 1e-2) * (n.c / 2.0 + tol(1e-12, 1e-5)) {
                return Ok(false);
            }
        }
    }
    Ok(true)
}
