//! The executable reference model: variables, residuals, noise, robust kernels, linearisation and Gauss-Newton, written
//! from the documentation with its own arithmetic. Nothing here calls the library under test.
use crate::num::{hi, lo, SINGLE};
use nalgebra::{DMatrix, DVector, Matrix3, Vector3};

pub type Q = [f64; 4]; // x y z w

/// The update convention the library was built with (its cargo features `left` and `fake_exp`).
pub const LEFT: bool = cfg!(feature = "left");
pub const PRODUCT: bool = cfg!(feature = "fake_exp");

#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    Vec(Vec<f64>),
    SO2(f64, f64), // cos, sin
    SE2(f64, f64, f64, f64), // cos, sin, x, y
    SO3(Q),
    SE3(Q, [f64; 3]),
    Bias([f64; 6]), // gyro, accel
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Vec(usize),
    SO2,
    SE2,
    SO3,
    SE3,
    Bias,
}
impl Kind {
    pub fn dim(self) -> usize {
        match self {
            Kind::Vec(n) => n,
            Kind::SO2 => 1,
            Kind::SE2 | Kind::SO3 => 3,
            Kind::SE3 | Kind::Bias => 6,
        }
    }
    pub fn has_rotation(self) -> bool {
        !matches!(self, Kind::Vec(_) | Kind::Bias)
    }
}

pub fn qmul(a: Q, b: Q) -> Q {
    let (av, aw) = (Vector3::new(a[0], a[1], a[2]), a[3]);
    let (bv, bw) = (Vector3::new(b[0], b[1], b[2]), b[3]);
    let v = av.cross(&bv) + bv * aw + av * bw;
    [v.x, v.y, v.z, aw * bw - av.dot(&bv)]
}
pub fn qinv(a: Q) -> Q {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn qexp(w: Vector3<f64>) -> Q {
    let t = w.norm();
    let s = if t < 1e-7 { 0.5 - t * t / 48.0 } else { (t / 2.0).sin() / t };
    [w.x * s, w.y * s, w.z * s, (t / 2.0).cos()]
}
pub fn qlog(q: Q) -> Vector3<f64> {
    let f = if q[3] < 0.0 { -1.0 } else { 1.0 };
    let v = Vector3::new(q[0], q[1], q[2]) * f;
    let w = q[3] * f;
    let n = v.norm();
    if n < 1e-9 {
        v * (2.0 / w)
    } else {
        v * (2.0 * n.atan2(w) / n)
    }
}
pub fn qmat(q: Q) -> Matrix3<f64> {
    let [x, y, z, w] = q;
    let u = Vector3::new(x, y, z);
    // R v = v + 2w (u x v) + 2 u x (u x v), for a unit quaternion
    let h = hat(u);
    Matrix3::identity() + h * (2.0 * w) + h * h * 2.0
}
pub fn qrot(q: Q, v: Vector3<f64>) -> Vector3<f64> {
    qmat(q) * v
}
pub fn hat(v: Vector3<f64>) -> Matrix3<f64> {
    Matrix3::new(0.0, -v.z, v.y, v.z, 0.0, -v.x, -v.y, v.x, 0.0)
}
/// (1-cos t)/t^2 and (t - sin t)/t^3
pub fn bc(t2: f64) -> (f64, f64) {
    if t2 < 1e-4 {
        (0.5 - t2 / 24.0 + t2 * t2 / 720.0 - t2 * t2 * t2 / 40320.0, 1.0 / 6.0 - t2 / 120.0 + t2 * t2 / 5040.0)
    } else {
        let t = t2.sqrt();
        (2.0 * (t / 2.0).sin().powi(2) / t2, (t - t.sin()) / (t2 * t))
    }
}
/// left Jacobian of SO(3): the V matrix of SE(3)
pub fn vmat(w: Vector3<f64>) -> Matrix3<f64> {
    let (b, c) = bc(w.norm_squared());
    let h = hat(w);
    Matrix3::identity() + h * b + h * h * c
}
fn v2(t: f64) -> (f64, f64) {
    if t.abs() < 1e-3 {
        let t2 = t * t;
        (1.0 - t2 / 6.0 + t2 * t2 / 120.0, t / 2.0 - t * t2 / 24.0 + t * t2 * t2 / 720.0)
    } else {
        (t.sin() / t, 2.0 * (t / 2.0).sin().powi(2) / t)
    }
}

impl MV {
    pub fn kind(&self) -> Kind {
        match self {
            MV::Vec(v) => Kind::Vec(v.len()),
            MV::SO2(..) => Kind::SO2,
            MV::SE2(..) => Kind::SE2,
            MV::SO3(_) => Kind::SO3,
            MV::SE3(..) => Kind::SE3,
            MV::Bias(_) => Kind::Bias,
        }
    }
    pub fn dim(&self) -> usize {
        self.kind().dim()
    }
    pub fn identity(k: Kind) -> MV {
        MV::exp(k, &vec![0.0; k.dim()])
    }
    pub fn exp(k: Kind, x: &[f64]) -> MV {
        match k {
            Kind::Vec(_) => MV::Vec(x.to_vec()),
            Kind::SO2 => MV::SO2(x[0].cos(), x[0].sin()),
            Kind::SE2 => {
                let (a, b) = if PRODUCT { (1.0, 0.0) } else { v2(x[0]) };
                MV::SE2(x[0].cos(), x[0].sin(), a * x[1] - b * x[2], b * x[1] + a * x[2])
            }
            Kind::SO3 => MV::SO3(qexp(Vector3::new(x[0], x[1], x[2]))),
            Kind::SE3 => {
                let w = Vector3::new(x[0], x[1], x[2]);
                let v = if PRODUCT { Matrix3::identity() } else { vmat(w) };
                let t = v * Vector3::new(x[3], x[4], x[5]);
                MV::SE3(qexp(w), [t.x, t.y, t.z])
            }
            Kind::Bias => MV::Bias([x[0], x[1], x[2], x[3], x[4], x[5]]),
        }
    }
    pub fn log(&self) -> Vec<f64> {
        match self {
            MV::Vec(v) => v.clone(),
            MV::SO2(c, s) => vec![s.atan2(*c)],
            MV::SE2(c, s, x, y) => {
                let t = s.atan2(*c);
                let (a, b) = if PRODUCT { (1.0, 0.0) } else { v2(t) };
                let d = a * a + b * b;
                vec![t, (a * x + b * y) / d, (-b * x + a * y) / d]
            }
            MV::SO3(q) => qlog(*q).as_slice().to_vec(),
            MV::SE3(q, t) => {
                let w = qlog(*q);
                let v = if PRODUCT { Matrix3::identity() } else { vmat(w) };
                let v = v.try_inverse().unwrap_or_else(|| Matrix3::from_element(f64::NAN)) * Vector3::from(*t);
                vec![w.x, w.y, w.z, v.x, v.y, v.z]
            }
            MV::Bias(b) => b.to_vec(),
        }
    }
    pub fn compose(&self, o: &MV) -> MV {
        match (self, o) {
            (MV::Vec(a), MV::Vec(b)) => MV::Vec(a.iter().zip(b).map(|(x, y)| x + y).collect()),
            (MV::SO2(c, s), MV::SO2(c2, s2)) => MV::SO2(c * c2 - s * s2, s * c2 + c * s2),
            (MV::SE2(c, s, x, y), MV::SE2(c2, s2, x2, y2)) => {
                MV::SE2(c * c2 - s * s2, s * c2 + c * s2, x + c * x2 - s * y2, y + s * x2 + c * y2)
            }
            (MV::SO3(a), MV::SO3(b)) => MV::SO3(qmul(*a, *b)),
            (MV::SE3(a, t), MV::SE3(b, u)) => {
                let r = qrot(*a, Vector3::from(*u)) + Vector3::from(*t);
                MV::SE3(qmul(*a, *b), [r.x, r.y, r.z])
            }
            (MV::Bias(a), MV::Bias(b)) => MV::Bias(std::array::from_fn(|i| a[i] + b[i])),
            _ => panic!("model: composing different kinds"),
        }
    }
    pub fn inverse(&self) -> MV {
        match self {
            MV::Vec(v) => MV::Vec(v.iter().map(|x| -x).collect()),
            MV::SO2(c, s) => MV::SO2(*c, -s),
            MV::SE2(c, s, x, y) => MV::SE2(*c, -s, -(c * x + s * y), -(-s * x + c * y)),
            MV::SO3(q) => MV::SO3(qinv(*q)),
            MV::SE3(q, t) => {
                let r = -qrot(qinv(*q), Vector3::from(*t));
                MV::SE3(qinv(*q), [r.x, r.y, r.z])
            }
            MV::Bias(b) => MV::Bias(std::array::from_fn(|i| -b[i])),
        }
    }
    pub fn oplus(&self, d: &[f64]) -> MV {
        let e = MV::exp(self.kind(), d);
        if LEFT { e.compose(self) } else { self.compose(&e) }.normalized()
    }
    /// log(y^-1 self), or log(self y^-1)
    pub fn ominus(&self, y: &MV) -> Vec<f64> {
        if LEFT {
            return self.compose(&y.inverse()).log();
        }
        y.inverse().compose(self).log()
    }
    pub fn normalized(&self) -> MV {
        fn nq(q: Q) -> Q {
            let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
            q.map(|x| x / n)
        }
        match self {
            MV::SO2(c, s) => {
                let n = c.hypot(*s);
                MV::SO2(c / n, s / n)
            }
            MV::SE2(c, s, x, y) => {
                let n = c.hypot(*s);
                MV::SE2(c / n, s / n, *x, *y)
            }
            MV::SO3(q) => MV::SO3(nq(*q)),
            MV::SE3(q, t) => MV::SE3(nq(*q), *t),
            o => o.clone(),
        }
    }
    /// Coordinates in an embedding where rotations have no sign ambiguity (rotation matrices).
    pub fn embed(&self) -> Vec<f64> {
        match self {
            MV::Vec(v) => v.clone(),
            MV::SO2(c, s) => vec![*c, *s],
            MV::SE2(c, s, x, y) => vec![*c, *s, *x, *y],
            MV::SO3(q) => qmat(*q).as_slice().to_vec(),
            MV::SE3(q, t) => {
                let mut v = qmat(*q).as_slice().to_vec();
                v.extend_from_slice(t);
                v
            }
            MV::Bias(b) => b.to_vec(),
        }
    }
    /// Largest coordinate difference in the embedding, relative to the magnitude; NaN compares as infinite.
    /// As the library's number type can hold it.
    pub fn rounded(&self) -> MV {
        let r = |x: f64| hi(lo(x));
        if !SINGLE {
            return self.clone();
        }
        match self {
            MV::Vec(v) => MV::Vec(v.iter().map(|x| r(*x)).collect()),
            MV::SO2(a, b) => MV::SO2(r(*a), r(*b)),
            MV::SE2(a, b, x, y) => MV::SE2(r(*a), r(*b), r(*x), r(*y)),
            MV::SO3(q) => MV::SO3(q.map(r)),
            MV::SE3(q, t) => MV::SE3(q.map(r), t.map(r)),
            MV::Bias(b) => MV::Bias(b.map(r)),
        }
    }
    pub fn dist(&self, o: &MV) -> f64 {
        if self.kind() != o.kind() {
            return f64::INFINITY;
        }
        let (a, b) = (self.embed(), o.embed());
        let mut m: f64 = 0.0;
        for (x, y) in a.iter().zip(&b) {
            let d = (x - y).abs() / (1.0 + x.abs().max(y.abs()));
            if d.is_nan() {
                return f64::INFINITY;
            }
            m = m.max(d);
        }
        m
    }
    pub fn finite(&self) -> bool {
        self.embed().iter().all(|x| x.is_finite())
    }
    /// The action on a fixed generic point: smooth scalar coordinates of the variable used by user-defined residuals.
    pub fn features(&self) -> Vec<f64> {
        match self {
            MV::Vec(v) => v.clone(),
            MV::SO2(c, s) => vec![0.6 * c - 0.8 * s, 0.6 * s + 0.8 * c],
            MV::SE2(c, s, x, y) => vec![0.6 * c - 0.8 * s + x, 0.6 * s + 0.8 * c + y],
            MV::SO3(q) => qrot(*q, Vector3::new(0.3, -0.5, 0.8)).as_slice().to_vec(),
            MV::SE3(q, t) => (qrot(*q, Vector3::new(0.3, -0.5, 0.8)) + Vector3::from(*t)).as_slice().to_vec(),
            MV::Bias(b) => b.to_vec(),
        }
    }
    pub fn rot_angle(&self) -> f64 {
        match self {
            MV::SO2(c, s) | MV::SE2(c, s, ..) => s.atan2(*c).abs(),
            MV::SO3(q) | MV::SE3(q, _) => qlog(*q).norm(),
            _ => 0.0,
        }
    }
}

// ------------------------------------------------------------------------------------------------ robust kernels
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rob {
    L2,
    L1,
    Huber(f64),
    Fair(f64),
    Cauchy(f64),
    Geman(f64),
    Welsch(f64),
    Tukey(f64),
}
/// documented default parameters
pub const ROB_DEFAULTS: [Rob; 8] = [
    Rob::L2,
    Rob::L1,
    Rob::Huber(1.345),
    Rob::Fair(1.3998),
    Rob::Cauchy(2.3849),
    Rob::Geman(1.3998),
    Rob::Welsch(2.9846),
    Rob::Tukey(4.6851),
];
impl Rob {
    pub fn loss(self, d2: f64) -> f64 {
        let d = d2.sqrt();
        match self {
            Rob::L2 => d2 / 2.0,
            Rob::L1 => d,
            Rob::Huber(k) => {
                if d <= k {
                    d2 / 2.0
                } else {
                    k * (d - k / 2.0)
                }
            }
            Rob::Fair(c) => c * c * (d / c - (1.0 + d / c).ln()),
            Rob::Cauchy(c) => c * c / 2.0 * (1.0 + d2 / (c * c)).ln(),
            Rob::Geman(c) => c * c * d2 / 2.0 / (c * c + d2),
            Rob::Welsch(c) => c * c / 2.0 * (1.0 - (-d2 / (c * c)).exp()),
            Rob::Tukey(c) => {
                if d <= c {
                    c * c / 6.0 * (1.0 - (1.0 - d2 / (c * c)).powi(3))
                } else {
                    c * c / 6.0
                }
            }
        }
    }
    /// loss'(d)/d
    pub fn weight(self, d2: f64) -> f64 {
        let d = d2.sqrt();
        match self {
            Rob::L2 => 1.0,
            Rob::L1 => {
                if d2 <= 1e-3 {
                    1.0
                } else {
                    1.0 / d
                }
            }
            Rob::Huber(k) => {
                if d <= k {
                    1.0
                } else {
                    k / d
                }
            }
            Rob::Fair(c) => 1.0 / (1.0 + d / c),
            Rob::Cauchy(c) => 1.0 / (1.0 + d2 / (c * c)),
            Rob::Geman(c) => (c * c / (c * c + d2)).powi(2),
            Rob::Welsch(c) => (-d2 / (c * c)).exp(),
            Rob::Tukey(c) => {
                if d <= c {
                    (1.0 - d2 / (c * c)).powi(2)
                } else {
                    0.0
                }
            }
        }
    }
    /// close to a point where loss or weight is not smooth (comparison there is meaningless)
    pub fn near_kink(self, d2: f64) -> bool {
        let d = d2.sqrt();
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + b.abs());
        match self {
            Rob::L1 => near(d2, 1e-3) || d2 < 1e-14,
            Rob::Huber(k) => near(d, k),
            Rob::Tukey(c) => near(d, c),
            _ => false,
        }
    }
}

// ------------------------------------------------------------------------------------------------ noise
/// How a noise model is specified through the public constructors.
#[derive(Clone, Debug)]
pub enum Noise {
    Unit,
    ScalarSigma(f64),
    ScalarCov(f64),
    VecSigma(Vec<f64>),
    VecCov(Vec<f64>),
    VecInf(Vec<f64>),
    DiagSigmas(Vec<f64>),
    DiagCovs(Vec<f64>),
    MatCov(DMatrix<f64>),
    MatInf(DMatrix<f64>),
}
impl Noise {
    /// The same with every standard deviation `s` times as large.
    pub fn scaled(self, s: f64) -> Noise {
        let k = |v: Vec<f64>, f: f64| v.into_iter().map(|x| x * f).collect();
        match self {
            Noise::Unit => Noise::Unit,
            Noise::ScalarSigma(x) => Noise::ScalarSigma(x * s),
            Noise::ScalarCov(x) => Noise::ScalarCov(x * s * s),
            Noise::VecSigma(v) => Noise::VecSigma(k(v, s)),
            Noise::VecCov(v) => Noise::VecCov(k(v, s * s)),
            Noise::VecInf(v) => Noise::VecInf(k(v, 1.0 / (s * s))),
            Noise::DiagSigmas(v) => Noise::DiagSigmas(k(v, s)),
            Noise::DiagCovs(v) => Noise::DiagCovs(k(v, s * s)),
            Noise::MatCov(m) => Noise::MatCov(m * (s * s)),
            Noise::MatInf(m) => Noise::MatInf(m / (s * s)),
        }
    }
    pub fn information(&self, n: usize) -> DMatrix<f64> {
        let diag = |f: &dyn Fn(usize) -> f64| DMatrix::from_fn(n, n, |i, j| if i == j { f(i) } else { 0.0 });
        match self {
            Noise::Unit => DMatrix::identity(n, n),
            Noise::ScalarSigma(s) => diag(&|_| 1.0 / (s * s)),
            Noise::ScalarCov(s) => diag(&|_| 1.0 / s),
            Noise::VecSigma(v) | Noise::DiagSigmas(v) => diag(&|i| 1.0 / (v[i] * v[i])),
            Noise::VecCov(v) | Noise::DiagCovs(v) => diag(&|i| 1.0 / v[i]),
            Noise::VecInf(v) => diag(&|i| v[i]),
            Noise::MatCov(m) => m.clone().try_inverse().expect("model: covariance is invertible"),
            Noise::MatInf(m) => m.clone(),
        }
    }
}

// ------------------------------------------------------------------------------------------------ residuals
/// User-defined residual: out_k = a_k . f + 0.3 sin(b_k . f) - z_k, with f the features of its variables.
#[derive(Clone, Debug)]
pub struct Custom {
    pub shape: usize, // index into SHAPES
    pub a: Vec<Vec<f64>>,
    pub b: Vec<Vec<f64>>,
    pub z: Vec<f64>,
    pub numeric: bool,
    /// how the real residual computes its features (they are the same numbers): 0 action on a point, 1 matrix form,
    /// 2 composition and inverse, 3 through operators and matrix conversions
    pub via: u8,
}
/// variable kinds and output dimension of each user-defined residual shape
pub const SHAPES: &[(&[Kind], usize)] = &[
    (&[Kind::Vec(3)], 2),
    (&[Kind::SE2, Kind::Vec(2)], 2),
    (&[Kind::SE3, Kind::Vec(3)], 3),
    (&[Kind::Vec(1), Kind::SO2, Kind::Vec(2)], 2),
    (&[Kind::SO3, Kind::Vec(2), Kind::Vec(1), Kind::Vec(3)], 3),
    (&[Kind::Vec(1), Kind::Vec(2), Kind::Vec(3), Kind::Vec(4), Kind::Vec(5)], 4),
    (&[Kind::Vec(6), Kind::SE2, Kind::SO3, Kind::Vec(1), Kind::Bias, Kind::Vec(2)], 5),
    (&[Kind::SE3], 1),
    (&[Kind::Vec(4), Kind::SE3, Kind::SO2], 6),
    (&[Kind::Vec(2), Kind::Vec(2)], 2),
    (&[Kind::SE2, Kind::SE2, Kind::Vec(1), Kind::Vec(1)], 3),
];
pub fn nfeat(k: Kind) -> usize {
    MV::identity(k).features().len()
}
impl Custom {
    pub fn eval(&self, vs: &[&MV]) -> Vec<f64> {
        let f: Vec<f64> = vs.iter().flat_map(|v| v.features()).collect();
        let dot = |a: &[f64]| a.iter().zip(&f).map(|(x, y)| x * y).sum::<f64>();
        (0..self.z.len()).map(|k| dot(&self.a[k]) + 0.3 * dot(&self.b[k]).sin() - self.z[k]).collect()
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Prior(MV),
    Between(MV),
    Custom(Custom),
    Imu(Box<crate::imu::ImuModel>),
}
#[derive(Clone, Debug)]
pub struct Fac {
    pub keys: Vec<usize>, // indices into Problem::vars
    pub res: Res,
    pub noise: Noise,
    pub rob: Rob,
    /// robust kernel left at the builder's default (must be L2), noise likewise (must be unit)
    pub default_rob: bool,
    pub built: Built,
}
/// How the real factor is constructed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Built {
    Unchecked,
    Typed,
    Short,
}
impl Fac {
    pub fn dim_out(&self) -> usize {
        match &self.res {
            Res::Prior(z) | Res::Between(z) => z.dim(),
            Res::Custom(c) => c.z.len(),
            Res::Imu(_) => 15,
        }
    }
    pub fn residual(&self, vs: &[&MV]) -> Vec<f64> {
        match &self.res {
            Res::Prior(z) => z.ominus(vs[0]),
            Res::Between(z) => vs[0].compose(z).ominus(vs[1]),
            Res::Custom(c) => c.eval(vs),
            Res::Imu(m) => m.residual(vs),
        }
    }
    /// Rotation part of the residual is too close to pi for derivatives to make sense.
    pub fn near_cut(&self, vs: &[&MV]) -> bool {
        self.rot_gap(vs) < if matches!(self.res, Res::Imu(_)) { 0.15 } else { 0.012 }
    }
    /// How far the rotation part of the residual is from pi, where its logarithm jumps.
    pub fn rot_gap(&self, vs: &[&MV]) -> f64 {
        let a = match &self.res {
            Res::Prior(z) => vs[0].inverse().compose(z).rot_angle(),
            Res::Between(z) => vs[1].inverse().compose(&vs[0].compose(z)).rot_angle(),
            Res::Custom(_) => 0.0,
            Res::Imu(_) => {
                let r = self.residual(vs);
                Vector3::new(r[0], r[1], r[2]).norm()
            }
        };
        std::f64::consts::PI - a
    }
    pub fn information(&self) -> DMatrix<f64> {
        match &self.res {
            Res::Imu(m) => m.information(),
            _ => self.noise.information(self.dim_out()),
        }
    }
    pub fn mahalanobis2(&self, vs: &[&MV]) -> f64 {
        let r = DVector::from_vec(self.residual(vs));
        (r.transpose() * self.information() * &r)[(0, 0)]
    }
    pub fn error(&self, vs: &[&MV]) -> f64 {
        self.rob.loss(self.mahalanobis2(vs))
    }
    /// (A^T A, A^T b, b^T b) over the concatenated tangent spaces of `keys` in order.
    pub fn normal(&self, vs: &[&MV]) -> (DMatrix<f64>, DVector<f64>, f64) {
        let m = self.dim_out();
        let n: usize = vs.iter().map(|v| v.dim()).sum();
        let mut j = DMatrix::zeros(m, n);
        let mut col = 0;
        for (i, v) in vs.iter().enumerate() {
            // a rotation applied on the left moves far points far, and user-defined residuals are not linear in them
            let h = match (v, &self.res) {
                (MV::SE2(_, _, x, y), Res::Custom(_)) if LEFT => 1e-3 / (1.0 + x.hypot(*y)),
                (MV::SE3(_, t), Res::Custom(_)) if LEFT => 1e-3 / (1.0 + Vector3::from(*t).norm()),
                _ => 1e-3,
            };
            for k in 0..v.dim() {
                let at = |s: f64| {
                    let mut d = vec![0.0; v.dim()];
                    d[k] = s;
                    let vv = v.oplus(&d);
                    let mut w: Vec<&MV> = vs.to_vec();
                    w[i] = &vv;
                    // a repeated key is perturbed position by position: its column blocks add up
                    DVector::from_vec(self.residual(&w))
                };
                let d = ((at(h) - at(-h)) * 8.0 - (at(2.0 * h) - at(-2.0 * h))) / (12.0 * h);
                j.set_column(col, &d);
                col += 1;
            }
        }
        let om = self.information();
        let r = DVector::from_vec(self.residual(vs));
        let d2 = (r.transpose() * &om * &r)[(0, 0)];
        let w = self.rob.weight(d2);
        let jt = j.transpose() * &om;
        ((&jt * &j) * w, -(&jt * &r) * w, d2 * w)
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub chr: char,
    pub idx: u64,
    pub init: MV,
    pub truth: MV,
}
#[derive(Clone, Debug)]
pub struct Problem {
    pub vars: Vec<Var>,
    pub facs: Vec<Fac>,
}
/// Normal equations of the whole problem, columns in the order of `Problem::vars`.
pub struct Normal {
    pub h: DMatrix<f64>,
    pub g: DVector<f64>,
    pub c: f64,
    pub off: Vec<usize>,
    /// size of the factors' contributions to the gradient before anything cancels
    pub parts: f64,
}
impl Problem {
    pub fn init(&self) -> Vec<MV> {
        self.vars.iter().map(|v| v.init.rounded()).collect()
    }
    pub fn error(&self, x: &[MV]) -> f64 {
        self.facs.iter().map(|f| f.error(&f.keys.iter().map(|k| &x[*k]).collect::<Vec<_>>())).sum()
    }
    /// some rotation residual so close to pi that its logarithm is ambiguous
    pub fn near_pi(&self, x: &[MV]) -> bool {
        self.facs.iter().any(|f| f.rot_gap(&f.keys.iter().map(|k| &x[*k]).collect::<Vec<_>>()) < 2e-3)
    }
    pub fn near_cut(&self, x: &[MV]) -> bool {
        self.facs.iter().any(|f| {
            let vs: Vec<&MV> = f.keys.iter().map(|k| &x[*k]).collect();
            f.near_cut(&vs) || (f.rob != Rob::L2 && f.rob.near_kink(f.mahalanobis2(&vs)))
        })
    }
    pub fn normal(&self, x: &[MV]) -> Normal {
        let mut off = vec![0];
        for v in x {
            off.push(off.last().unwrap() + v.dim());
        }
        let n = *off.last().unwrap();
        let mut h = DMatrix::zeros(n, n);
        let mut g = DVector::zeros(n);
        let (mut c, mut parts) = (0.0, 0.0);
        for f in &self.facs {
            let vs: Vec<&MV> = f.keys.iter().map(|k| &x[*k]).collect();
            let (fh, fg, fc) = f.normal(&vs);
            c += fc;
            parts += (fh.amax() * fc.max(0.0)).sqrt();
            let mut map = Vec::new();
            for k in &f.keys {
                map.extend(off[*k]..off[*k + 1]);
            }
            for a in 0..map.len() {
                g[map[a]] += fg[a];
                for b in 0..map.len() {
                    h[(map[a], map[b])] += fh[(a, b)];
                }
            }
        }
        Normal { h, g, c, off, parts }
    }
    pub fn apply(&self, x: &[MV], n: &Normal, d: &DVector<f64>) -> Vec<MV> {
        x.iter().enumerate().map(|(i, v)| v.oplus(&d.as_slice()[n.off[i]..n.off[i + 1]])).collect()
    }
}
impl Problem {
    /// linearised cost at an increment (laid out in the order of the variables), factor by factor
    pub fn linear_cost(&self, x: &[MV], d: &[Vec<f64>]) -> f64 {
        let mut sum = 0.0;
        for f in &self.facs {
            let (h, g, c) = f.normal(&f.keys.iter().map(|k| &x[*k]).collect::<Vec<_>>());
            let v = DVector::from_vec(f.keys.iter().flat_map(|k| d[*k].iter().copied()).collect());
            sum += 0.5 * (v.dot(&(&h * &v)) - 2.0 * g.dot(&v) + c);
        }
        sum
    }
}
impl Normal {
    /// linearised cost 1/2 |A d - b|^2
    pub fn cost(&self, d: &DVector<f64>) -> f64 {
        0.5 * ((d.transpose() * &self.h * d)[(0, 0)] - 2.0 * self.g.dot(d) + self.c)
    }
    pub fn cond(&self) -> f64 {
        cond(&self.h)
    }
    pub fn solve(&self, lambda: f64, diagonal: bool) -> Option<DVector<f64>> {
        let n = self.h.nrows();
        let mut a = self.h.clone();
        for i in 0..n {
            a[(i, i)] += lambda * if diagonal { self.h[(i, i)] } else { 1.0 };
        }
        solve_spd(&a, &self.g)
    }
}
/// Symmetric positive definite solve with one round of iterative refinement.
pub fn solve_spd(a: &DMatrix<f64>, b: &DVector<f64>) -> Option<DVector<f64>> {
    let c = a.clone().cholesky()?;
    let mut x = c.solve(b);
    for _ in 0..2 {
        let r = b - a * &x;
        x += c.solve(&r);
    }
    Some(x)
}
pub fn cond(h: &DMatrix<f64>) -> f64 {
    if h.nrows() == 0 {
        return 1.0;
    }
    if !h.iter().all(|x| x.is_finite()) {
        return f64::INFINITY;
    }
    if h.nrows() > 40 {
        return estimate(h);
    }
    let e = h.clone().symmetric_eigenvalues();
    let (lo, hi) = e.iter().fold((f64::INFINITY, 0.0f64), |(l, h), x| (l.min(*x), h.max(*x)));
    if lo <= 0.0 {
        f64::INFINITY
    } else {
        hi / lo
    }
}
/// Power iteration, up and down: within a factor of two is enough.
fn estimate(h: &DMatrix<f64>) -> f64 {
    let Some(c) = h.clone().cholesky() else { return f64::INFINITY };
    let start = DVector::from_fn(h.nrows(), |i, _| 1.0 + 0.3 * (i as f64 * 1.7).sin());
    let (mut hi, mut lo) = (0.0, 0.0);
    let (mut u, mut v) = (start.clone() / start.norm(), start.clone() / start.norm());
    for _ in 0..20 {
        u = h * u;
        hi = u.norm();
        u /= hi;
        c.solve_mut(&mut v);
        lo = v.norm();
        v /= lo;
    }
    2.0 * hi * lo
}
pub fn max_dist(a: &[MV], b: &[MV]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x.dist(y)).fold(0.0, f64::max)
}
pub fn rel(a: f64, b: f64) -> f64 {
    let d = (a - b).abs() / (1.0 + a.abs().max(b.abs()));
    if d.is_nan() {
        if a.is_nan() && b.is_nan() || a == b {
            0.0
        } else {
            f64::INFINITY
        }
    } else {
        d
    }
}
