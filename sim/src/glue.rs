//! The real side: instrumented implementations of the library's user-facing traits (residuals, noise, robust kernels,
//! observers, linear solver), and translation of model problems into real graphs and values.
use crate::core::*;
use crate::model::*;
use crate::num::*;
use std::fmt;
use factrs::containers::{DefaultSymbol, Factor, FactorBuilder, Graph, Key, Symbol, TypedSymbol, Values};
use factrs::fac;
use factrs::linalg::{vectorx, Const, ForwardProp, Matrix, MatrixX, NumericalDiff, Numeric, Vector, VectorX};
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};
use factrs::optimizers::OptObserver;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::variables::*;
use nalgebra::{DMatrix, DVector, Vector2, Vector3};
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------ hooks
pub type Action = Box<dyn FnOnce()>;
#[derive(Default)]
pub struct Hooks {
    pub count: u64,
    pub crash_at: Option<u64>,
    pub nested: Vec<(u64, Action)>,
    pub yields: bool,
    pub solver_calls: u64,
    pub solver_plan: Vec<(u64, SolverFault)>,
    pub solver_always: Option<SolverFault>,
    pub record: bool,
    pub solves: Vec<SolveRec>,
}
thread_local! {
    static HOOKS: RefCell<Hooks> = RefCell::new(Hooks::default());
}
pub fn reset_hooks() {
    HOOKS.with(|h| *h.borrow_mut() = Hooks::default());
}
pub fn hooks<T>(f: impl FnOnce(&mut Hooks) -> T) -> T {
    HOOKS.with(|h| f(&mut h.borrow_mut()))
}
/// Every user callback passes here: the points at which the simulator schedules, crashes or nests.
pub fn hook(site: &'static str) {
    tick();
    let (crash, action, yields) = hooks(|h| {
        h.count += 1;
        let c = h.crash_at == Some(h.count);
        if c {
            h.crash_at = None;
        }
        let pos = h.nested.iter().position(|(k, _)| *k == h.count);
        (c, pos.map(|p| h.nested.swap_remove(p).1), h.yields)
    });
    if let Some(a) = action {
        a();
    }
    if crash {
        fault(match site {
            "residual" => "crash in residual",
            "noise" => "crash in noise model",
            "robust" => "crash in robust kernel",
            "solver" => "crash in linear solver",
            "observer" => "crash in observer",
            _ => "crash in callback",
        });
        std::panic::panic_any(Crash);
    }
    if yields {
        crate::sched::yield_point(site);
    }
}
pub fn hook_count() -> u64 {
    hooks(|h| h.count)
}

// ------------------------------------------------------------------------------------------------ linear solver
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SolverFault {
    Nan,
    Inf,
    Zero,
    Negate,
    Scale,
    Garbage,
    OneNan,
    /// a small part of the answer: the run creeps
    Shrink,
}
pub const SOLVER_FAULTS: &[SolverFault] = &[
    SolverFault::Zero,
    SolverFault::Negate,
    SolverFault::Nan,
    SolverFault::Inf,
    SolverFault::Scale,
    SolverFault::Garbage,
    SolverFault::OneNan,
];
#[derive(Clone, Debug)]
pub struct SolveRec {
    pub sym: bool,
    pub a: DMatrix<f64>,
    pub b: DVector<f64>,
    pub x: DVector<f64>,
    pub faulted: bool,
}
/// The real solver `S` behind a seam that records systems and can return bad answers.
#[derive(Default)]
pub struct SimSolver<S> {
    inner: S,
}
pub fn dense(a: faer::sparse::SparseColMatRef<usize, Real>) -> DMatrix<f64> {
    let mut m = DMatrix::zeros(a.nrows(), a.ncols());
    for j in 0..a.ncols() {
        for (i, v) in a.row_indices_of_col(j).zip(a.values_of_col(j)) {
            m[(i, j)] += hi(*v);
        }
    }
    m
}
impl<S: LinearSolver> SimSolver<S> {
    fn run(
        &mut self,
        sym: bool,
        a: faer::sparse::SparseColMatRef<usize, Real>,
        b: faer::MatRef<Real>,
    ) -> faer::Mat<Real> {
        hook("solver");
        let (f, rec) = hooks(|h| {
            h.solver_calls += 1;
            let n = h.solver_calls;
            let f = h.solver_plan.iter().find(|(k, _)| *k == n).map(|p| p.1).or(h.solver_always);
            (f, h.record)
        });
        let mut x = if sym { self.inner.solve_symmetric(a, b) } else { self.inner.solve_lst_sq(a, b) };
        if let Some(f) = f {
            fault(match f {
                SolverFault::Nan => "solver returns NaN",
                SolverFault::Inf => "solver returns infinity",
                SolverFault::Zero => "solver returns zero",
                SolverFault::Negate => "solver returns ascent direction",
                SolverFault::Scale => "solver overshoots",
                SolverFault::Garbage => "solver returns garbage",
                SolverFault::OneNan => "solver returns one NaN",
                SolverFault::Shrink => "solver undershoots",
            });
            for i in 0..x.nrows() {
                let v = x[(i, 0)];
                x[(i, 0)] = match f {
                    SolverFault::Nan => Real::NAN,
                    SolverFault::Inf => Real::INFINITY,
                    SolverFault::Zero => 0.0,
                    SolverFault::Negate => -v,
                    SolverFault::Scale => 5.0 * v,
                    SolverFault::Shrink => 0.03 * v,
                    SolverFault::Garbage => 1e3 * ((i + 1) as Real) * if i % 2 == 0 { 1.0 } else { -1.0 },
                    SolverFault::OneNan => {
                        if i == 0 {
                            Real::NAN
                        } else {
                            v
                        }
                    }
                };
            }
        }
        if rec {
            let r = SolveRec {
                sym,
                a: dense(a),
                b: DVector::from_fn(b.nrows(), |i, _| hi(b[(i, 0)])),
                x: DVector::from_fn(x.nrows(), |i, _| hi(x[(i, 0)])),
                faulted: f.is_some(),
            };
            hooks(|h| h.solves.push(r));
        }
        x
    }
}
impl<S: LinearSolver> LinearSolver for SimSolver<S> {
    fn solve_symmetric(
        &mut self,
        a: faer::sparse::SparseColMatRef<usize, Real>,
        b: faer::MatRef<Real>,
    ) -> faer::Mat<Real> {
        self.run(true, a, b)
    }
    fn solve_lst_sq(&mut self, a: faer::sparse::SparseColMatRef<usize, Real>, b: faer::MatRef<Real>) -> faer::Mat<Real> {
        self.run(false, a, b)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SolverKind {
    Chol,
    Qr,
    Lu,
}
pub const SOLVERS: &[SolverKind] = &[SolverKind::Chol, SolverKind::Qr, SolverKind::Lu];
/// One optimizer-type-generic solver: picks the real solver from a thread-local at creation.
pub enum AnySolver {
    Chol(CholeskySolver),
    Qr(QRSolver),
    Lu(LUSolver),
}
thread_local! {
    static NEXT_SOLVER: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
pub fn use_solver(k: SolverKind) {
    NEXT_SOLVER.with(|c| c.set(k as u8));
}
impl Default for AnySolver {
    fn default() -> Self {
        match NEXT_SOLVER.with(|c| c.get()) {
            0 => AnySolver::Chol(Default::default()),
            1 => AnySolver::Qr(Default::default()),
            _ => AnySolver::Lu(Default::default()),
        }
    }
}
impl LinearSolver for AnySolver {
    fn solve_symmetric(
        &mut self,
        a: faer::sparse::SparseColMatRef<usize, Real>,
        b: faer::MatRef<Real>,
    ) -> faer::Mat<Real> {
        match self {
            AnySolver::Chol(s) => s.solve_symmetric(a, b),
            AnySolver::Qr(s) => s.solve_symmetric(a, b),
            AnySolver::Lu(s) => s.solve_symmetric(a, b),
        }
    }
    fn solve_lst_sq(&mut self, a: faer::sparse::SparseColMatRef<usize, Real>, b: faer::MatRef<Real>) -> faer::Mat<Real> {
        match self {
            AnySolver::Chol(s) => s.solve_lst_sq(a, b),
            AnySolver::Qr(s) => s.solve_lst_sq(a, b),
            AnySolver::Lu(s) => s.solve_lst_sq(a, b),
        }
    }
}
pub type SS = SimSolver<AnySolver>;

// ------------------------------------------------------------------------------------------------ observers
#[derive(Clone, Debug)]
pub struct Seen {
    pub who: usize,
    pub time: f64,
    /// callbacks before this one, solver calls before this one
    pub at: u64,
    pub solves: u64,
    pub vals: Vec<Option<MV>>,
}
pub struct Watch {
    pub who: usize,
    pub keys: Rc<Vec<(Key, Kind)>>,
    pub log: Rc<RefCell<Vec<Seen>>>,
    pub saved: Option<Rc<RefCell<Vec<Values>>>>,
}
impl OptObserver for Watch {
    type Input = Values;
    fn on_step(&self, values: &Values, time: f64) {
        let vals = self.keys.iter().map(|(k, kind)| read(values, *k, *kind)).collect();
        let (at, solves) = hooks(|h| (h.count, h.solver_calls));
        self.log.borrow_mut().push(Seen { who: self.who, time, at, solves, vals });
        if let Some(s) = &self.saved {
            s.borrow_mut().push(values.clone());
        }
        hook("observer");
    }
}

// ------------------------------------------------------------------------------------------------ noise, robust
#[derive(Clone, Debug)]
pub struct SimNoise<const N: usize> {
    inner: GaussianNoise<N>,
}
#[factrs::mark]
impl<const N: usize> NoiseModel for SimNoise<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        hook("noise");
        self.inner.whiten_vec(v)
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        hook("noise");
        self.inner.whiten_mat(m)
    }
}
impl<const N: usize> fmt::Display for SimNoise<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "SimNoise{N}")
    }
}
#[derive(Debug)]
pub struct SimRobust {
    inner: Box<dyn RobustCost>,
}
#[factrs::mark]
impl RobustCost for SimRobust {
    fn loss(&self, d2: Real) -> Real {
        hook("robust");
        self.inner.loss(d2)
    }
    fn weight(&self, d2: Real) -> Real {
        hook("robust");
        self.inner.weight(d2)
    }
}
fn robust(r: Rob) -> Box<dyn RobustCost> {
    if ROB_DEFAULTS.contains(&r) {
        return match r {
            Rob::L2 => Box::new(L2),
            Rob::L1 => Box::new(L1),
            Rob::Huber(_) => Box::new(Huber::default()),
            Rob::Fair(_) => Box::new(Fair::default()),
            Rob::Cauchy(_) => Box::new(Cauchy::default()),
            Rob::Geman(_) => Box::new(GemanMcClure::default()),
            Rob::Welsch(_) => Box::new(Welsch::default()),
            Rob::Tukey(_) => Box::new(Tukey::default()),
        };
    }
    match r {
        Rob::L2 => Box::new(L2),
        Rob::L1 => Box::new(L1),
        Rob::Huber(k) => Box::new(Huber::new(lo(k))),
        Rob::Fair(c) => Box::new(Fair::new(lo(c))),
        Rob::Cauchy(c) => Box::new(Cauchy::new(lo(c))),
        Rob::Geman(c) => Box::new(GemanMcClure::new(lo(c))),
        Rob::Welsch(c) => Box::new(Welsch::new(lo(c))),
        Rob::Tukey(c) => Box::new(Tukey::new(lo(c))),
    }
}
fn gauss<const N: usize>(n: &Noise) -> Option<GaussianNoise<N>> {
    let v = |x: &Vec<f64>| Vector::<N>::from_fn(|i, _| lo(x[i]));
    let m = |x: &DMatrix<f64>| Matrix::<N, N>::from_fn(|i, j| lo(x[(i, j)]));
    Some(match n {
        Noise::Unit => return None,
        Noise::ScalarSigma(s) => GaussianNoise::from_scalar_sigma(lo(*s)),
        Noise::ScalarCov(s) => GaussianNoise::from_scalar_cov(lo(*s)),
        Noise::VecSigma(x) | Noise::DiagSigmas(x) => GaussianNoise::from_vec_sigma(v(x).as_view()),
        Noise::VecCov(x) | Noise::DiagCovs(x) => GaussianNoise::from_vec_cov(v(x).as_view()),
        Noise::VecInf(x) => GaussianNoise::from_vec_inf(v(x).as_view()),
        Noise::MatCov(x) => GaussianNoise::from_matrix_cov(m(x).as_view()),
        Noise::MatInf(x) => GaussianNoise::from_matrix_inf(m(x).as_view()),
    })
}
macro_rules! diag_noise {
    ($name:ident, $n:literal, $($i:literal),*) => {
        fn $name(n: &Noise) -> Option<GaussianNoise<$n>> {
            match n {
                Noise::DiagSigmas(x) => Some(GaussianNoise::<$n>::from_diag_sigmas($(lo(x[$i])),*)),
                Noise::DiagCovs(x) => Some(GaussianNoise::<$n>::from_diag_covs($(lo(x[$i])),*)),
                o => gauss::<$n>(o),
            }
        }
    };
}
diag_noise!(noise1, 1, 0);
diag_noise!(noise2, 2, 0, 1);
diag_noise!(noise3, 3, 0, 1, 2);
diag_noise!(noise4, 4, 0, 1, 2, 3);
diag_noise!(noise5, 5, 0, 1, 2, 3, 4);
diag_noise!(noise6, 6, 0, 1, 2, 3, 4, 5);

macro_rules! finish {
    ($b:expr, $f:expr, $wrap:expr, $n:literal, $noise:ident) => {{
        let mut b: FactorBuilder<$n> = $b;
        match $noise(&$f.noise) {
            None => {
                if $wrap {
                    b = b.noise(SimNoise::<$n> { inner: GaussianNoise::<$n>::from_scalar_sigma(1.0) });
                } else if !$f.default_rob {
                    b = b.noise(UnitNoise::<$n>);
                }
            }
            Some(g) => {
                b = if $wrap { b.noise(SimNoise { inner: g }) } else { b.noise(g) };
            }
        }
        if $wrap {
            b = b.robust(SimRobust { inner: robust($f.rob) });
        } else if !$f.default_rob {
            b = match $f.rob {
                Rob::Huber(1.345) => b.robust(Huber::default()),
                Rob::Fair(1.3998) => b.robust(Fair::default()),
                Rob::Cauchy(2.3849) => b.robust(Cauchy::default()),
                Rob::Geman(1.3998) => b.robust(GemanMcClure::default()),
                Rob::Welsch(2.9846) => b.robust(Welsch::default()),
                Rob::Tukey(4.6851) => b.robust(Tukey::default()),
                Rob::L2 => b.robust(L2),
                Rob::L1 => b.robust(L1),
                Rob::Huber(k) => b.robust(Huber::new(lo(k))),
                Rob::Fair(c) => b.robust(Fair::new(lo(c))),
                Rob::Cauchy(c) => b.robust(Cauchy::new(lo(c))),
                Rob::Geman(c) => b.robust(GemanMcClure::new(lo(c))),
                Rob::Welsch(c) => b.robust(Welsch::new(lo(c))),
                Rob::Tukey(c) => b.robust(Tukey::new(lo(c))),
            };
        }
        b.build()
    }};
}

// ------------------------------------------------------------------------------------------------ user residuals
pub trait Feat<T: Numeric> {
    fn feat(&self, via: u8) -> Vec<T>;
}
impl<const N: usize, T: Numeric> Feat<T> for VectorVar<N, T> {
    fn feat(&self, via: u8) -> Vec<T> {
        match via {
            0 | 1 => (0..N).map(|i| self[i]).collect(),
            2 => self.compose(&self.inverse()).compose(self).0.iter().copied().collect(),
            _ => self.log().iter().copied().collect(),
        }
    }
}
/// The same element of the group, by a detour.
macro_rules! detour {
    ($x:expr, $ty:ident, $via:expr, $k:expr) => {
        match $via {
            2 => {
                let k = $ty::<T>::exp(VectorX::<T>::from_vec($k.iter().map(|x| T::from(lo(*x))).collect()).as_view());
                // (x k) k^-1, and k (x - k) with x - k = k^-1 x
                let y = $x.compose(&k).compose(&k.inverse());
                k.compose(&y.minus(&k))
            }
            _ => {
                let i = $ty::<T>::identity();
                let m = (&($x.clone() * i)).to_matrix();
                $ty::<T>::from_matrix(m.as_view())
            }
        }
    };
}
impl<T: Numeric> Feat<T> for SO2<T> {
    fn feat(&self, via: u8) -> Vec<T> {
        let v = Vector2::new(T::from(0.6), T::from(0.8));
        match via {
            0 => self.apply(v.as_view()).iter().copied().collect(),
            1 => (self.to_matrix() * v).iter().copied().collect(),
            via => detour!(self, SO2, via, [0.7]).apply(v.as_view()).iter().copied().collect(),
        }
    }
}
impl<T: Numeric> Feat<T> for SE2<T> {
    fn feat(&self, via: u8) -> Vec<T> {
        let v = Vector2::new(T::from(0.6), T::from(0.8));
        match via {
            0 => self.apply(v.as_view()).iter().copied().collect(),
            1 => {
                let h = self.to_matrix() * Vector3::new(v[0], v[1], T::from(1.0));
                vec![h[0], h[1]]
            }
            via => detour!(self, SE2, via, [0.7, -0.4, 1.1]).apply(v.as_view()).iter().copied().collect(),
        }
    }
}
impl<T: Numeric> Feat<T> for SO3<T> {
    fn feat(&self, via: u8) -> Vec<T> {
        let v = Vector3::new(T::from(0.3), T::from(-0.5), T::from(0.8));
        match via {
            0 => self.apply(v.as_view()).iter().copied().collect(),
            1 => (self.to_matrix() * v).iter().copied().collect(),
            via => detour!(self, SO3, via, [0.7, -0.4, 0.2]).apply(v.as_view()).iter().copied().collect(),
        }
    }
}
impl<T: Numeric> Feat<T> for SE3<T> {
    fn feat(&self, via: u8) -> Vec<T> {
        let v = Vector3::new(T::from(0.3), T::from(-0.5), T::from(0.8));
        match via {
            0 => self.apply(v.as_view()).iter().copied().collect(),
            1 => {
                let h = self.to_matrix() * nalgebra::Vector4::new(v[0], v[1], v[2], T::from(1.0));
                vec![h[0], h[1], h[2]]
            }
            via => detour!(self, SE3, via, [0.7, -0.4, 0.2, 0.5, 1.5, -1.0]).apply(v.as_view()).iter().copied().collect(),
        }
    }
}
impl<T: Numeric> Feat<T> for ImuBias<T> {
    fn feat(&self, via: u8) -> Vec<T> {
        match via {
            0 | 1 => self.gyro().iter().chain(self.accel().iter()).copied().collect(),
            2 => self.compose(&self.inverse()).compose(self).log().iter().copied().collect(),
            _ => self.log().iter().copied().collect(),
        }
    }
}
fn eval<T: Numeric>(c: &Custom, f: Vec<T>) -> VectorX<T> {
    hook("residual");
    let dot = |a: &[f64]| {
        let mut s = T::from(0.0);
        for (x, y) in a.iter().zip(&f) {
            s += *y * T::from(lo(*x));
        }
        s
    };
    let out: Vec<T> = (0..c.z.len()).map(|k| dot(&c.a[k]) + dot(&c.b[k]).sin() * T::from(0.3) - T::from(lo(c.z[k]))).collect();
    VectorX::from_vec(out)
}
/// Numerical differentiation with a step that suits the precision.
#[cfg(not(feature = "f32"))]
type Stepped = NumericalDiff<6>;
#[cfg(feature = "f32")]
type Stepped = NumericalDiff<3>;
macro_rules! user_residual {
    ($name:ident, $num:ident, $res:ident, $differ:ty, $din:literal, $dout:literal, $(($v:ident, $V:ident, $ty:ident)),*) => {
        #[derive(Clone, Debug)]
        pub struct $name(pub Custom);
        #[factrs::mark]
        impl $num for $name {
            type Differ = $differ;
            $(type $V = $ty;)*
            type DimIn = Const<$din>;
            type DimOut = Const<$dout>;
            fn $res<T: Numeric>(&self, $($v: $ty<T>),*) -> VectorX<T> {
                let mut f: Vec<T> = Vec::new();
                $(f.extend($v.feat(self.0.via));)*
                eval(&self.0, f)
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, stringify!($name))
            }
        }
    };
}
user_residual!(U0, Residual1, residual1, ForwardProp<Const<3>>, 3, 2, (v1, V1, VectorVar3));
user_residual!(U0N, Residual1, residual1, Stepped, 3, 2, (v1, V1, VectorVar3));
user_residual!(U1, Residual2, residual2, ForwardProp<Const<5>>, 5, 2, (v1, V1, SE2), (v2, V2, VectorVar2));
user_residual!(U1N, Residual2, residual2, Stepped, 5, 2, (v1, V1, SE2), (v2, V2, VectorVar2));
user_residual!(U2, Residual2, residual2, ForwardProp<Const<9>>, 9, 3, (v1, V1, SE3), (v2, V2, VectorVar3));
user_residual!(U2N, Residual2, residual2, Stepped, 9, 3, (v1, V1, SE3), (v2, V2, VectorVar3));
user_residual!(U3, Residual3, residual3, ForwardProp<Const<4>>, 4, 2, (v1, V1, VectorVar1), (v2, V2, SO2), (v3, V3, VectorVar2));
user_residual!(U3N, Residual3, residual3, Stepped, 4, 2, (v1, V1, VectorVar1), (v2, V2, SO2), (v3, V3, VectorVar2));
user_residual!(U4, Residual4, residual4, ForwardProp<Const<9>>, 9, 3, (v1, V1, SO3), (v2, V2, VectorVar2), (v3, V3, VectorVar1), (v4, V4, VectorVar3));
user_residual!(U4N, Residual4, residual4, Stepped, 9, 3, (v1, V1, SO3), (v2, V2, VectorVar2), (v3, V3, VectorVar1), (v4, V4, VectorVar3));
user_residual!(U5, Residual5, residual5, ForwardProp<Const<15>>, 15, 4, (v1, V1, VectorVar1), (v2, V2, VectorVar2), (v3, V3, VectorVar3), (v4, V4, VectorVar4), (v5, V5, VectorVar5));
user_residual!(U5N, Residual5, residual5, Stepped, 15, 4, (v1, V1, VectorVar1), (v2, V2, VectorVar2), (v3, V3, VectorVar3), (v4, V4, VectorVar4), (v5, V5, VectorVar5));
user_residual!(U6, Residual6, residual6, ForwardProp<Const<21>>, 21, 5, (v1, V1, VectorVar6), (v2, V2, SE2), (v3, V3, SO3), (v4, V4, VectorVar1), (v5, V5, ImuBias), (v6, V6, VectorVar2));
user_residual!(U6N, Residual6, residual6, Stepped, 21, 5, (v1, V1, VectorVar6), (v2, V2, SE2), (v3, V3, SO3), (v4, V4, VectorVar1), (v5, V5, ImuBias), (v6, V6, VectorVar2));
user_residual!(U7, Residual1, residual1, ForwardProp<Const<6>>, 6, 1, (v1, V1, SE3));
user_residual!(U7N, Residual1, residual1, Stepped, 6, 1, (v1, V1, SE3));
user_residual!(U8, Residual3, residual3, ForwardProp<Const<11>>, 11, 6, (v1, V1, VectorVar4), (v2, V2, SE3), (v3, V3, SO2));
user_residual!(U8N, Residual3, residual3, Stepped, 11, 6, (v1, V1, VectorVar4), (v2, V2, SE3), (v3, V3, SO2));
user_residual!(U9, Residual2, residual2, ForwardProp<Const<4>>, 4, 2, (v1, V1, VectorVar2), (v2, V2, VectorVar2));
user_residual!(U9N, Residual2, residual2, Stepped, 4, 2, (v1, V1, VectorVar2), (v2, V2, VectorVar2));
user_residual!(U10, Residual4, residual4, ForwardProp<Const<8>>, 8, 3, (v1, V1, SE2), (v2, V2, SE2), (v3, V3, VectorVar1), (v4, V4, VectorVar1));
user_residual!(U10N, Residual4, residual4, Stepped, 8, 3, (v1, V1, SE2), (v2, V2, SE2), (v3, V3, VectorVar1), (v4, V4, VectorVar1));

// ------------------------------------------------------------------------------------------------ translation
pub fn key(chr: char, idx: u64) -> Key {
    DefaultSymbol::new(chr, idx).into()
}
pub fn vkey(v: &Var) -> Key {
    key(v.chr, v.idx)
}
pub fn vv<const N: usize>(v: &[f64]) -> VectorVar<N> {
    VectorVar(Vector::<N>::from_fn(|i, _| lo(v[i])))
}
pub fn so2(m: &MV) -> SO2 {
    match m {
        MV::SO2(c, s) => SO2::from_theta(lo(s.atan2(*c))),
        _ => panic!("kind"),
    }
}
pub fn se2(m: &MV) -> SE2 {
    match m {
        MV::SE2(c, s, x, y) => SE2::new(lo(s.atan2(*c)), lo(*x), lo(*y)),
        _ => panic!("kind"),
    }
}
pub fn so3(m: &MV) -> SO3 {
    match m {
        MV::SO3(q) => SO3::from_vec(nalgebra::Vector4::new(lo(q[0]), lo(q[1]), lo(q[2]), lo(q[3]))),
        _ => panic!("kind"),
    }
}
pub fn se3(m: &MV) -> SE3 {
    match m {
        MV::SE3(q, t) => SE3::from_rot_trans(SO3::from_xyzw(lo(q[0]), lo(q[1]), lo(q[2]), lo(q[3])), Vector3::from(t.map(lo))),
        _ => panic!("kind"),
    }
}
pub fn bias(m: &MV) -> ImuBias {
    match m {
        MV::Bias(b) => ImuBias::new(Gyro::new(lo(b[0]), lo(b[1]), lo(b[2])), Accel::new(lo(b[3]), lo(b[4]), lo(b[5]))),
        _ => panic!("kind"),
    }
}
#[macro_export]
macro_rules! with_real {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            MV::Vec(v) => match v.len() {
                1 => { let $x = factrs::variables::VectorVar1::new($crate::num::lo(v[0])); $e }
                2 => { let $x = factrs::variables::VectorVar2::new($crate::num::lo(v[0]), $crate::num::lo(v[1])); $e }
                3 => { let $x = factrs::variables::VectorVar3::new($crate::num::lo(v[0]), $crate::num::lo(v[1]), $crate::num::lo(v[2])); $e }
                4 => { let $x = factrs::variables::VectorVar4::new($crate::num::lo(v[0]), $crate::num::lo(v[1]), $crate::num::lo(v[2]), $crate::num::lo(v[3])); $e }
                5 => { let $x = factrs::variables::VectorVar5::new($crate::num::lo(v[0]), $crate::num::lo(v[1]), $crate::num::lo(v[2]), $crate::num::lo(v[3]), $crate::num::lo(v[4])); $e }
                _ => { let $x = factrs::variables::VectorVar6::new($crate::num::lo(v[0]), $crate::num::lo(v[1]), $crate::num::lo(v[2]), $crate::num::lo(v[3]), $crate::num::lo(v[4]), $crate::num::lo(v[5])); $e }
            },
            m @ MV::SO2(..) => { let $x = $crate::glue::so2(m); $e }
            m @ MV::SE2(..) => { let $x = $crate::glue::se2(m); $e }
            m @ MV::SO3(..) => { let $x = $crate::glue::so3(m); $e }
            m @ MV::SE3(..) => { let $x = $crate::glue::se3(m); $e }
            m @ MV::Bias(..) => { let $x = $crate::glue::bias(m); $e }
        }
    };
}
pub fn insert(values: &mut Values, k: Key, m: &MV) -> Option<Box<dyn VariableSafe>> {
    with_real!(m, x => values.insert_unchecked(k, x))
}
pub fn m_vec<const N: usize>(v: &VectorVar<N>) -> MV {
    MV::Vec(v.0.iter().map(|x| hi(*x)).collect())
}
pub fn m_so2(v: &SO2) -> MV {
    let m = v.to_matrix();
    MV::SO2(hi(m[(0, 0)]), hi(m[(1, 0)]))
}
pub fn m_se2(v: &SE2) -> MV {
    let m = v.rot().to_matrix();
    MV::SE2(hi(m[(0, 0)]), hi(m[(1, 0)]), hi(v.x()), hi(v.y()))
}
pub fn m_so3(v: &SO3) -> MV {
    MV::SO3([v.x(), v.y(), v.z(), v.w()].map(hi))
}
pub fn m_se3(v: &SE3) -> MV {
    let q = v.rot().xyzw;
    let t = v.xyz();
    MV::SE3([q[0], q[1], q[2], q[3]].map(hi), [t[0], t[1], t[2]].map(hi))
}
pub fn m_bias(v: &ImuBias) -> MV {
    let (g, a) = (v.gyro(), v.accel());
    MV::Bias([g.x, g.y, g.z, a.x, a.y, a.z].map(hi))
}
pub fn read(v: &Values, k: Key, kind: Kind) -> Option<MV> {
    match kind {
        Kind::Vec(1) => v.get_unchecked::<_, VectorVar1>(k).map(m_vec),
        Kind::Vec(2) => v.get_unchecked::<_, VectorVar2>(k).map(m_vec),
        Kind::Vec(3) => v.get_unchecked::<_, VectorVar3>(k).map(m_vec),
        Kind::Vec(4) => v.get_unchecked::<_, VectorVar4>(k).map(m_vec),
        Kind::Vec(5) => v.get_unchecked::<_, VectorVar5>(k).map(m_vec),
        Kind::Vec(_) => v.get_unchecked::<_, VectorVar6>(k).map(m_vec),
        Kind::SO2 => v.get_unchecked::<_, SO2>(k).map(m_so2),
        Kind::SE2 => v.get_unchecked::<_, SE2>(k).map(m_se2),
        Kind::SO3 => v.get_unchecked::<_, SO3>(k).map(m_so3),
        Kind::SE3 => v.get_unchecked::<_, SE3>(k).map(m_se3),
        Kind::Bias => v.get_unchecked::<_, ImuBias>(k).map(m_bias),
    }
}
/// Any stored variable, whatever its type.
pub fn read_any(b: &dyn VariableSafe) -> Option<MV> {
    macro_rules! t {
        ($ty:ty, $f:ident) => {
            if let Some(x) = b.downcast_ref::<$ty>() {
                return Some($f(x));
            }
        };
    }
    t!(VectorVar1, m_vec);
    t!(VectorVar2, m_vec);
    t!(VectorVar3, m_vec);
    t!(VectorVar4, m_vec);
    t!(VectorVar5, m_vec);
    t!(VectorVar6, m_vec);
    t!(SO2, m_so2);
    t!(SE2, m_se2);
    t!(SO3, m_so3);
    t!(SE3, m_se3);
    t!(ImuBias, m_bias);
    None
}


/// A symbol that may name any of the provided variable types: keys checked at compile time.
#[derive(Clone, Copy, Debug)]
pub struct AnySym(pub Key);
impl From<AnySym> for Key {
    fn from(s: AnySym) -> Key {
        s.0
    }
}
impl Symbol for AnySym {}
macro_rules! any_sym {
    ($($t:ty),*) => { $(impl TypedSymbol<$t> for AnySym {})* };
}
any_sym!(VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, SO2, SE2, SO3, SE3, ImuBias);

/// The three ways of building a factor: unchecked keys, typed keys, the `fac!` shorthand.
macro_rules! build {
    ($f:expr, $wrap:expr, $n:literal, $noise:ident, $res:expr, $typed:ident, $new:ident, $($k:expr),*) => {
        match $f.built {
            Built::Unchecked => finish!(FactorBuilder::$new($res, $($k),*), $f, $wrap, $n, $noise),
            Built::Typed => finish!(FactorBuilder::$typed($res, $(AnySym($k)),*), $f, $wrap, $n, $noise),
            Built::Short => {
                let g = $noise(&$f.noise).unwrap_or_else(|| GaussianNoise::<$n>::from_scalar_sigma(1.0));
                match ($wrap, $f.rob) {
                    (true, r) => fac![$res, [$(AnySym($k)),*], SimNoise { inner: g }, SimRobust { inner: robust(r) }],
                    (_, Rob::L2) => fac![$res, [$(AnySym($k)),*], g],
                    (_, Rob::Huber(k)) => fac![$res, [$(AnySym($k)),*], g, Huber::new(lo(k))],
                    (_, r) => fac![$res, [$(AnySym($k)),*], g, SimRobust { inner: robust(r) }],
                }
            }
        }
    };
}
pub fn factor(p: &Problem, f: &Fac, wrap: bool) -> Factor {
    let k: Vec<Key> = f.keys.iter().map(|i| vkey(&p.vars[*i])).collect();
    match &f.res {
        Res::Prior(z) => match z {
            MV::Vec(v) => match v.len() {
                1 => build!(f, wrap, 1, noise1, PriorResidual::new(vv::<1>(v)), new1, new1_unchecked, k[0]),
                2 => build!(f, wrap, 2, noise2, PriorResidual::new(vv::<2>(v)), new1, new1_unchecked, k[0]),
                3 => build!(f, wrap, 3, noise3, PriorResidual::new(vv::<3>(v)), new1, new1_unchecked, k[0]),
                4 => build!(f, wrap, 4, noise4, PriorResidual::new(vv::<4>(v)), new1, new1_unchecked, k[0]),
                5 => build!(f, wrap, 5, noise5, PriorResidual::new(vv::<5>(v)), new1, new1_unchecked, k[0]),
                _ => build!(f, wrap, 6, noise6, PriorResidual::new(vv::<6>(v)), new1, new1_unchecked, k[0]),
            },
            MV::SO2(..) => build!(f, wrap, 1, noise1, PriorResidual::new(so2(z)), new1, new1_unchecked, k[0]),
            MV::SE2(..) => build!(f, wrap, 3, noise3, PriorResidual::new(se2(z)), new1, new1_unchecked, k[0]),
            MV::SO3(..) => build!(f, wrap, 3, noise3, PriorResidual::new(so3(z)), new1, new1_unchecked, k[0]),
            MV::SE3(..) => build!(f, wrap, 6, noise6, PriorResidual::new(se3(z)), new1, new1_unchecked, k[0]),
            MV::Bias(..) => build!(f, wrap, 6, noise6, PriorResidual::new(bias(z)), new1, new1_unchecked, k[0]),
        },
        Res::Between(z) => match z {
            MV::Vec(v) => match v.len() {
                1 => build!(f, wrap, 1, noise1, BetweenResidual::new(vv::<1>(v)), new2, new2_unchecked, k[0], k[1]),
                2 => build!(f, wrap, 2, noise2, BetweenResidual::new(vv::<2>(v)), new2, new2_unchecked, k[0], k[1]),
                3 => build!(f, wrap, 3, noise3, BetweenResidual::new(vv::<3>(v)), new2, new2_unchecked, k[0], k[1]),
                4 => build!(f, wrap, 4, noise4, BetweenResidual::new(vv::<4>(v)), new2, new2_unchecked, k[0], k[1]),
                5 => build!(f, wrap, 5, noise5, BetweenResidual::new(vv::<5>(v)), new2, new2_unchecked, k[0], k[1]),
                _ => build!(f, wrap, 6, noise6, BetweenResidual::new(vv::<6>(v)), new2, new2_unchecked, k[0], k[1]),
            },
            MV::SO2(..) => build!(f, wrap, 1, noise1, BetweenResidual::new(so2(z)), new2, new2_unchecked, k[0], k[1]),
            MV::SE2(..) => build!(f, wrap, 3, noise3, BetweenResidual::new(se2(z)), new2, new2_unchecked, k[0], k[1]),
            MV::SO3(..) => build!(f, wrap, 3, noise3, BetweenResidual::new(so3(z)), new2, new2_unchecked, k[0], k[1]),
            MV::SE3(..) => build!(f, wrap, 6, noise6, BetweenResidual::new(se3(z)), new2, new2_unchecked, k[0], k[1]),
            MV::Bias(..) => build!(f, wrap, 6, noise6, BetweenResidual::new(bias(z)), new2, new2_unchecked, k[0], k[1]),
        },
        Res::Custom(c) => {
            macro_rules! u {
                ($a:ident, $n:ident, $d:literal, $noise:ident, $typed:ident, $new:ident, $($i:literal),*) => {
                    if c.numeric {
                        build!(f, wrap, $d, $noise, $n(c.clone()), $typed, $new, $(k[$i]),*)
                    } else {
                        build!(f, wrap, $d, $noise, $a(c.clone()), $typed, $new, $(k[$i]),*)
                    }
                };
            }
            match c.shape {
                0 => u!(U0, U0N, 2, noise2, new1, new1_unchecked, 0),
                1 => u!(U1, U1N, 2, noise2, new2, new2_unchecked, 0, 1),
                2 => u!(U2, U2N, 3, noise3, new2, new2_unchecked, 0, 1),
                3 => u!(U3, U3N, 2, noise2, new3, new3_unchecked, 0, 1, 2),
                4 => u!(U4, U4N, 3, noise3, new4, new4_unchecked, 0, 1, 2, 3),
                5 => u!(U5, U5N, 4, noise4, new5, new5_unchecked, 0, 1, 2, 3, 4),
                6 => u!(U6, U6N, 5, noise5, new6, new6_unchecked, 0, 1, 2, 3, 4, 5),
                7 => u!(U7, U7N, 1, noise1, new1, new1_unchecked, 0),
                8 => u!(U8, U8N, 6, noise6, new3, new3_unchecked, 0, 1, 2),
                9 => u!(U9, U9N, 2, noise2, new2, new2_unchecked, 0, 1),
                _ => u!(U10, U10N, 3, noise3, new4, new4_unchecked, 0, 1, 2, 3),
            }
        }
        Res::Imu(_) => panic!("imu factors are built by the preintegrator"),
    }
}
pub fn graph(p: &Problem, order: &[usize], wrap: bool) -> Graph {
    let mut g = if order.len() % 2 == 0 { Graph::with_capacity(order.len() / 2) } else { Graph::new() };
    for i in order {
        g.add_factor(factor(p, &p.facs[*i], wrap));
    }
    g
}
pub fn values(p: &Problem, x: &[MV], order: &[usize]) -> Values {
    let mut v = Values::new();
    for i in order {
        insert(&mut v, vkey(&p.vars[*i]), &x[*i]);
    }
    v
}
pub fn keys_of(p: &Problem) -> Rc<Vec<(Key, Kind)>> {
    Rc::new(p.vars.iter().map(|v| (vkey(v), v.init.kind())).collect())
}
/// All variables of the problem read back; a missing or mistyped one is a violation.
pub fn read_all(p: &Problem, v: &Values) -> R<Vec<MV>> {
    if v.len() != p.vars.len() {
        viol!("values-lost", "store has {} entries, expected {}", v.len(), p.vars.len());
    }
    p.vars
        .iter()
        .map(|w| match read(v, vkey(w), w.init.kind()) {
            Some(m) => Ok(m),
            None => viol!("values-lost", "variable {}{} is gone or changed type", w.chr, w.idx),
        })
        .collect()
}
#[allow(dead_code)]
fn _unused() -> VectorX {
    vectorx![0.0]
}
