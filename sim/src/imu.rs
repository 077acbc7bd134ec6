//! Reference model of IMU preintegration, written from the discrete equations in the module's documentation.
use crate::model::*;
use nalgebra::{DMatrix, Matrix3, SMatrix, Vector3};

pub type M15 = SMatrix<f64, 15, 15>;

#[derive(Clone, Debug)]
pub struct ImuCov {
    pub accel: Matrix3<f64>,
    pub gyro: Matrix3<f64>,
    pub accel_bias: Matrix3<f64>,
    pub gyro_bias: Matrix3<f64>,
    pub integration: Matrix3<f64>,
    pub winit: Matrix3<f64>,
    pub ainit: Matrix3<f64>,
}
#[derive(Clone, Debug)]
pub struct ImuModel {
    pub dt: f64,
    pub th: Vector3<f64>,
    pub v: Vector3<f64>,
    pub p: Vector3<f64>,
    pub bg: Vector3<f64>,
    pub ba: Vector3<f64>,
    pub jg: SMatrix<f64, 9, 3>,
    pub ja: SMatrix<f64, 9, 3>,
    pub g: Vector3<f64>,
    pub cov: M15,
    pub q: ImuCov,
}
fn right_jac(w: Vector3<f64>) -> Matrix3<f64> {
    vmat(-w)
}
impl ImuModel {
    pub fn new(q: ImuCov, bg: Vector3<f64>, ba: Vector3<f64>, g: Vector3<f64>) -> Self {
        ImuModel {
            dt: 0.0,
            th: Vector3::zeros(),
            v: Vector3::zeros(),
            p: Vector3::zeros(),
            bg,
            ba,
            jg: SMatrix::zeros(),
            ja: SMatrix::zeros(),
            g,
            cov: M15::identity() * 1e-14,
            q,
        }
    }
    pub fn integrate(&mut self, gyro: Vector3<f64>, accel: Vector3<f64>, dt: f64) {
        let w = gyro - self.bg;
        let a = accel - self.ba;
        let r = qmat(qexp(self.th));
        let h = right_jac(self.th);
        let hi = h.try_inverse().unwrap_or_else(|| Matrix3::from_element(f64::NAN));
        let i3 = Matrix3::<f64>::identity();
        // state transition
        let mut am = M15::identity();
        am.fixed_view_mut::<3, 3>(0, 0).copy_from(&(i3 - hat(w) * (dt / 2.0)));
        am.fixed_view_mut::<3, 3>(3, 0).copy_from(&(-(r * hat(a) * h) * dt));
        am.fixed_view_mut::<3, 3>(6, 0).copy_from(&(-(r * hat(a) * h) * (dt * dt / 2.0)));
        am.fixed_view_mut::<3, 3>(6, 3).copy_from(&(i3 * dt));
        am.fixed_view_mut::<3, 3>(0, 9).copy_from(&(-hi * dt));
        am.fixed_view_mut::<3, 3>(3, 12).copy_from(&(-r * dt));
        am.fixed_view_mut::<3, 3>(6, 12).copy_from(&(-r * (dt * dt / 2.0)));
        // noise input: [w, a, wb, ab, int, init (gyro), init (accel)]
        let mut b = SMatrix::<f64, 15, 21>::zeros();
        b.fixed_view_mut::<3, 3>(0, 0).copy_from(&(hi * dt));
        b.fixed_view_mut::<3, 3>(3, 3).copy_from(&(r * dt));
        b.fixed_view_mut::<3, 3>(6, 3).copy_from(&(r * (dt * dt / 2.0)));
        b.fixed_view_mut::<3, 3>(9, 6).copy_from(&i3);
        b.fixed_view_mut::<3, 3>(12, 9).copy_from(&i3);
        b.fixed_view_mut::<3, 3>(6, 12).copy_from(&i3);
        b.fixed_view_mut::<3, 3>(0, 15).copy_from(&(-hi * dt));
        b.fixed_view_mut::<3, 3>(3, 18).copy_from(&(-r * dt));
        b.fixed_view_mut::<3, 3>(6, 18).copy_from(&(-r * (dt * dt / 2.0)));
        let mut q = SMatrix::<f64, 21, 21>::zeros();
        for (k, m) in [
            &self.q.gyro,
            &self.q.accel,
            &self.q.gyro_bias,
            &self.q.accel_bias,
            &self.q.integration,
            &self.q.winit,
            &self.q.ainit,
        ]
        .iter()
        .enumerate()
        {
            q.fixed_view_mut::<3, 3>(3 * k, 3 * k).copy_from(*m);
        }
        self.cov = am * self.cov * am.transpose() + b * q * b.transpose();
        let mini = am.fixed_view::<9, 9>(0, 0).into_owned();
        self.jg = mini * self.jg + am.fixed_view::<9, 3>(0, 9);
        self.ja = mini * self.ja + am.fixed_view::<9, 3>(0, 12);
        self.p += self.v * dt + r * a * (dt * dt / 2.0);
        self.v += r * a * dt;
        self.th += hi * w * dt;
        self.dt += dt;
    }
    pub fn residual(&self, vs: &[&MV]) -> Vec<f64> {
        let (q1, p1) = match vs[0] {
            MV::SE3(q, t) => (*q, Vector3::from(*t)),
            _ => panic!("model: imu"),
        };
        let v3 = |m: &MV| match m {
            MV::Vec(v) => Vector3::new(v[0], v[1], v[2]),
            _ => panic!("model: imu"),
        };
        let b6 = |m: &MV| match m {
            MV::Bias(b) => *b,
            _ => panic!("model: imu"),
        };
        let (v1, b1) = (v3(vs[1]), b6(vs[2]));
        let (q2, p2) = match vs[3] {
            MV::SE3(q, t) => (*q, Vector3::from(*t)),
            _ => panic!("model: imu"),
        };
        let (v2, b2) = (v3(vs[4]), b6(vs[5]));
        let dg = Vector3::new(b1[0], b1[1], b1[2]) - self.bg;
        let da = Vector3::new(b1[3], b1[4], b1[5]) - self.ba;
        let corr = self.jg * dg + self.ja * da;
        let th = self.th + corr.fixed_rows::<3>(0);
        let va = self.v + corr.fixed_rows::<3>(3);
        let pa = self.p + corr.fixed_rows::<3>(6);
        let r1 = qmat(q1);
        let qp = qmul(q1, qexp(th));
        let vp = r1 * va + v1 + self.g * self.dt;
        let pp = r1 * pa + p1 + v1 * self.dt + self.g * (self.dt * self.dt / 2.0);
        let rr = qlog(qmul(qinv(q2), qp));
        let mut out = rr.as_slice().to_vec();
        out.extend((vp - v2).iter());
        out.extend((pp - p2).iter());
        out.extend((0..6).map(|i| b1[i] - b2[i]));
        out
    }
    pub fn information(&self) -> DMatrix<f64> {
        let inv = self.cov.try_inverse().unwrap_or_else(|| M15::from_element(f64::NAN));
        DMatrix::from_fn(15, 15, |i, j| (inv[(i, j)] + inv[(j, i)]) / 2.0)
    }
    pub fn cond(&self) -> f64 {
        // after scaling to unit diagonal: what matters for the accuracy of an inverse
        let d: Vec<f64> = (0..15).map(|i| self.cov[(i, i)].sqrt()).collect();
        cond(&DMatrix::from_fn(15, 15, |i, j| (self.cov[(i, j)] + self.cov[(j, i)]) / 2.0 / d[i] / d[j]))
    }
}
