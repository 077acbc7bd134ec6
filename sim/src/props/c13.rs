//! Inertial sample streams through a lossy, jittery transport into several interleaved integrators, against the
//! documented discrete preintegration.
use super::*;
use crate::gen;
use crate::glue::*;
use crate::imu::*;
use factrs::containers::{Factor, FactorBuilder, Graph, ValuesOrder};
use factrs::linalg::VectorX;
use factrs::linear::LinearValues;
use factrs::residuals::{Accel, Gravity, Gyro, ImuCovariance, ImuPreintegrator, PriorResidual};
use nalgebra::{DVector, Matrix3, Vector3};

mod typed {
    use factrs::assign_symbols;
    use factrs::variables::*;
    assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
}

fn v3(mag: f64) -> Vector3<f64> {
    Vector3::new(sym(mag), sym(mag), sym(mag))
}
fn cov3(mags: &[f64]) -> Matrix3<f64> {
    let m = pick(mags);
    match draw(3) {
        0 => Matrix3::identity() * m,
        1 => Matrix3::from_diagonal(&Vector3::new(range(0.3, 2.0), range(0.3, 2.0), range(0.3, 2.0))) * m,
        _ => {
            let s = gen::spd(3);
            Matrix3::from_fn(|i, j| s[(i, j)]) * m
        }
    }
}
fn params() -> (ImuCovariance, ImuCov) {
    let mut c = ImuCovariance::default();
    if chance(1, 6) {
        // library defaults, documented in the constructor
        let i3 = Matrix3::<f64>::identity();
        let q = ImuCov {
            accel: i3 * 1e-5,
            gyro: i3 * 1e-5,
            accel_bias: i3 * 1e-6,
            gyro_bias: i3 * 1e-6,
            integration: i3 * 1e-7,
            winit: i3 * 1e-7,
            ainit: i3 * 1e-7,
        };
        return (c, q);
    }
    if chance(1, 4) {
        // the scalar setters
        let m = [1e-4, 1e-2, 1.0];
        let s: Vec<f64> = (0..6).map(|_| pick(&m) * range(0.5, 2.0)).collect();
        c.set_scalar_accel(s[0]);
        c.set_scalar_gyro(s[1]);
        c.set_scalar_accel_bias(s[2]);
        c.set_scalar_gyro_bias(s[3]);
        c.set_scalar_integration(s[4]);
        c.set_scalar_init(s[5]);
        let i3 = Matrix3::<f64>::identity();
        let q = ImuCov {
            accel: i3 * s[0],
            gyro: i3 * s[1],
            accel_bias: i3 * s[2],
            gyro_bias: i3 * s[3],
            integration: i3 * s[4],
            winit: i3 * s[5],
            ainit: i3 * s[5],
        };
        return (c, q);
    }
    let m = [1e-2, 1e-4, 1.0, 1e-1, 1e-3];
    c.cov_accel = cov3(&m);
    c.cov_gyro = cov3(&m);
    c.cov_accel_bias = cov3(&m);
    c.cov_gyro_bias = cov3(&m);
    c.cov_integration = cov3(&m);
    c.cov_winit = cov3(&[1e-2, 1e-4, 1.0, 0.0]);
    c.cov_ainit = cov3(&[1e-2, 1e-4, 1.0, 0.0]);
    let q = ImuCov {
        accel: c.cov_accel,
        gyro: c.cov_gyro,
        accel_bias: c.cov_accel_bias,
        gyro_bias: c.cov_gyro_bias,
        integration: c.cov_integration,
        winit: c.cov_winit,
        ainit: c.cov_ainit,
    };
    (c, q)
}
#[derive(Clone, Debug)]
struct Sample {
    g: Vector3<f64>,
    a: Vector3<f64>,
    dt: f64,
}
/// What the sensor emits, and what the transport makes of it.
fn stream() -> Vec<Sample> {
    let n = match draw(12) {
        0 => 0,
        1 => 1,
        2..=8 => 2 + below(30),
        9 | 10 => 30 + below(60),
        _ if chance(1, 6) => 600 + below(1600),
        _ => 150 + below(250),
    };
    let base = pick(&[0.01, 0.005, 0.1, 1e-4, 0.5, 2.0]);
    let rate = pick(&[0.3, 0.0, 2.0, 10.0, 1e-6]);
    let grav = chance(1, 2);
    let w0 = v3(rate);
    let a0 = v3(pick(&[3.0, 0.0, 20.0]));
    let mut out: Vec<Sample> = Vec::new();
    for k in 0..n {
        let jit = match draw(6) {
            0 => 1.0,
            1 => range(0.2, 3.0),
            _ => 1.0,
        };
        let mut s = Sample {
            g: if k > 0 && chance(1, 4) { v3(rate) } else { w0 },
            a: if k > 0 && chance(1, 3) { v3(5.0) } else { a0 },
            dt: base * jit,
        };
        if grav {
            s.a.z += 9.81;
        }
        match draw(24) {
            20 => {
                fault("sample lost");
                // the next one covers the gap
                s.dt += base;
            }
            21 => {
                fault("sample duplicated");
                out.push(s.clone());
            }
            22 => {
                fault("repeated timestamp");
                s.dt = 0.0;
            }
            23 => {
                fault("long gap");
                s.dt = base * range(5.0, 40.0);
            }
            _ => {}
        }
        out.push(s);
        let l = out.len();
        if l > 1 && chance(1, 20) {
            fault("samples reordered");
            out.swap(l - 1, l - 2);
        }
    }
    if !out.is_empty() && chance(1, 30) {
        // the clock all but stands still for a while
        fault("burst of samples");
        let at = below(out.len());
        let s = out[at].clone();
        let dt = range(1e-8, 2e-6);
        let burst = (0..300 + below(900)).map(|_| Sample { dt, ..s.clone() }).collect::<Vec<_>>();
        out.splice(at..at, burst);
    }
    out
}
#[derive(Clone)]
struct Node {
    real: ImuPreintegrator,
    model: ImuModel,
    queue: Vec<Sample>,
    next: usize,
    ok: bool,
    fed: usize,
}
fn feed(n: &mut Node) -> R {
    let s = n.queue[n.next].clone();
    n.next += 1;
    if !n.ok {
        return Ok(());
    }
    // the documented scheme is singular at a full turn of the accumulated rotation: stop well before it
    let mut m = n.model.clone();
    m.integrate(s.g, s.a, s.dt);
    if !(m.th.norm() < 5.2) || m.p.norm() > 1e6 {
        n.ok = false;
        probe("stream stopped before a full turn");
        return Ok(());
    }
    let real = &mut n.real;
    guard(|| real.integrate(&Gyro(s.g), &Accel(s.a), s.dt)).must("integrate")?;
    n.model = m;
    n.fed += 1;
    Ok(())
}
fn state_near(m: &ImuModel, x1: &MV, v1: &MV, b1: &MV, mag: &[f64; 5]) -> (MV, MV, MV) {
    // start from the model's prediction, then perturb
    let zero = [x1, v1, b1, &MV::identity(Kind::SE3), &MV::identity(Kind::Vec(3)), &MV::identity(Kind::Bias)];
    let r = m.residual(&zero.to_vec());
    let q = qexp(Vector3::new(r[0], r[1], r[2]));
    let x2 = MV::SE3(q, [r[6], r[7], r[8]]);
    let pert = |k: Kind, m: &[f64]| -> Vec<f64> { (0..k.dim()).map(|i| sym(m[i * m.len() / k.dim()])).collect() };
    let d = pert(Kind::SO3, &[mag[0]]);
    let x2 = match x2 {
        MV::SE3(q, t) => {
            let q = qmul(q, qexp(Vector3::new(d[0], d[1], d[2])));
            MV::SE3(q, [t[0] + sym(mag[2]), t[1] + sym(mag[2]), t[2] + sym(mag[2])])
        }
        _ => unreachable!(),
    };
    let v2 = MV::Vec(vec![r[3] + sym(mag[1]), r[4] + sym(mag[1]), r[5] + sym(mag[1])]);
    let MV::Bias(b) = b1 else { unreachable!() };
    let mut nb = *b;
    for i in 0..3 {
        nb[i] += sym(mag[3]);
        nb[i + 3] += sym(mag[4]);
    }
    (x2, v2, MV::Bias(nb))
}
pub fn run() -> R {
    new_hash_world();
    let n0 = 1 + below(3);
    let mut nodes: Vec<Node> = Vec::new();
    for _ in 0..n0 {
        let (c, q) = params();
        let (bg, ba) = (v3(pick(&[0.1, 0.0, 1.0])), v3(pick(&[0.2, 0.0, 2.0])));
        let (grav, g) = match draw(3) {
            0 => (Gravity::up(), Vector3::new(0.0, 0.0, 9.81)),
            1 => (Gravity::down(), Vector3::new(0.0, 0.0, -9.81)),
            _ => {
                let g = v3(10.0);
                (Gravity(g), g)
            }
        };
        let b = bias(&MV::Bias([bg.x, bg.y, bg.z, ba.x, ba.y, ba.z]));
        let real = guard(|| ImuPreintegrator::new(c, b, grav)).must("new integrator")?;
        nodes.push(Node { real, model: ImuModel::new(q, bg, ba, g), queue: stream(), next: 0, ok: true, fed: 0 });
    }
    nontrivial();
    // the scheduler decides whose sample is integrated next, and when an integrator is copied
    loop {
        let live: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].next < nodes[*i].queue.len()).collect();
        if live.is_empty() {
            break;
        }
        let i = live[below(live.len())];
        let burst = 1 + below(8);
        for _ in 0..burst {
            if nodes[i].next < nodes[i].queue.len() {
                feed(&mut nodes[i])?;
            }
        }
        if nodes.len() < 5 && chance(1, 20) {
            let mut c = nodes[i].clone();
            fault("integrator copied midway");
            // the copy lives on with a stream of its own
            if chance(1, 2) {
                let mut q = stream();
                q.truncate(20);
                c.queue.truncate(c.next);
                c.queue.extend(q);
            }
            nodes.push(c);
        }
    }
    for (i, n) in nodes.iter().enumerate() {
        ev!("integrator {i}: {} samples, dt {:.6} theta {:.6} ok {}", n.fed, n.model.dt, n.model.th.norm(), n.ok);
    }
    for n in &nodes {
        one(n)?;
    }
    if chance(1, 3) {
        chain(&nodes)?;
    }
    Ok(())
}
fn build(n: &Node, idx: [u64; 6]) -> R<Factor> {
    let real = n.real.clone();
    if chance(1, 2) {
        use typed::*;
        guard(|| real.build(X(idx[0]), V(idx[1]), B(idx[2]), X(idx[3]), V(idx[4]), B(idx[5]))).must("build")
    } else {
        guard(|| {
            real.build_unchecked(
                key('x', idx[0]),
                key('v', idx[1]),
                key('b', idx[2]),
                key('x', idx[3]),
                key('v', idx[4]),
                key('b', idx[5]),
            )
        })
        .must("build")
    }
}
fn var(chr: char, idx: u64, m: MV) -> Var {
    Var { chr, idx, init: m.clone(), truth: m }
}
fn imu_fac(m: &ImuModel, keys: Vec<usize>) -> Fac {
    Fac { keys, res: Res::Imu(Box::new(m.clone())), noise: Noise::Unit, rob: Rob::L2, default_rob: true, built: Built::Unchecked }
}
/// The factor of one integrator alone.
fn one(n: &Node) -> R {
    let c = n.model.cond();
    if !(c < 1e7) {
        probe("covariance too badly conditioned");
        return Ok(());
    }
    let idx = [draw(4), draw(4), draw(4), 4 + draw(4), 4 + draw(4), 4 + draw(4)];
    let f = build(n, idx)?;
    let fac = imu_fac(&n.model, (0..6).collect());
    for _ in 0..3 {
        let x1 = gen::value(Kind::SE3, 1.4);
        let v1 = gen::value(Kind::Vec(3), 3.0);
        let bm = pick(&[0.0, 0.05, 0.5]);
        let b1 = MV::Bias(std::array::from_fn(|i| {
            let b0 = if i < 3 { n.model.bg[i] } else { n.model.ba[i - 3] };
            b0 + sym(bm)
        }));
        // residual directions: each block on its own, or all together
        let mag = match draw(7) {
            0 => [0.3, 0.5, 0.5, 0.1, 0.1],
            1 => [0.5, 0.0, 0.0, 0.0, 0.0],
            2 => [0.0, 0.5, 0.0, 0.0, 0.0],
            3 => [0.0, 0.0, 0.5, 0.0, 0.0],
            4 => [0.0, 0.0, 0.0, 0.5, 0.0],
            5 => [0.0, 0.0, 0.0, 0.0, 0.5],
            _ => [1e-3, 1e-3, 1e-3, 1e-3, 1e-3],
        };
        let (x2, v2, b2) = state_near(&n.model, &x1, &v1, &b1, &mag);
        let x = vec![x1, v1, b1, x2, v2, b2];
        let p = Problem {
            vars: "xvbxvb".chars().zip(idx).zip(&x).map(|((c, i), m)| var(c, i, m.clone())).collect(),
            facs: vec![fac.clone()],
        };
        let vs: Vec<&MV> = x.iter().collect();
        if fac.near_cut(&vs) {
            probe("at a cut");
            continue;
        }
        let v = values(&p, &x, &perm(6));
        let got = guard(|| f.error(&v)).must("imu error")?;
        let want = fac.error(&vs);
        // rounding in the residual (values up to |p|) is magnified by the information matrix
        let info = n.model.information();
        let size = 1.0 + n.model.p.norm() + n.model.v.norm() + n.model.dt * n.model.dt * 10.0;
        let noise = (info.trace().abs()).sqrt() * size * 1e-13;
        let tol = (1e-6 + 1e-13 * c) * want.abs() + 2.0 * noise * (want.abs() * 2.0).sqrt() + noise * noise + 1e-12;
        ensure!(
            within("imu cost", (got - want).abs(), tol * 10.0),
            "imu-cost",
            "cost {got:e}, the documented preintegration gives {want:e} ({} samples, condition {c:e})",
            n.fed
        );
        probe("imu cost compared");
        let l = guard(|| f.linearize(&v)).must("imu linearize")?;
        let a = l.a.mat();
        ensure!(a.ncols() == 30 && a.nrows() == 15, "imu-shape", "linearisation is {} x {}", a.nrows(), a.ncols());
        let (h, g, cc) = fac.normal(&vs);
        let (rh, rg, rc) = (a.transpose() * a, a.transpose() * &l.b, l.b.norm_squared());
        // block by block, relative to the block's own scale
        let sc: Vec<f64> = (0..30).map(|i| h[(i, i)].max(rh[(i, i)]).sqrt() + 1e-9).collect();
        let mut worst = 0.0f64;
        for i in 0..30 {
            for j in 0..30 {
                worst = worst.max((h[(i, j)] - rh[(i, j)]).abs() / sc[i] / sc[j]);
            }
        }
        let amp = 1.0 + n.model.dt * n.model.dt + n.model.p.norm();
        let t = 1e-5 + 1e-9 * c.sqrt() * amp;
        if t < 1e-3 {
            ensure!(
                within("imu hessian", worst, t),
                "imu-jacobian",
                "linearisation deviates by {worst:e} (scaled, tolerance {t:e}; {} samples, condition {c:e})",
                n.fed
            );
            let mut wg = 0.0f64;
            for i in 0..30 {
                wg = wg.max((g[i] - rg[i]).abs() / sc[i] / (cc.sqrt() + 1e-3));
            }
            ensure!(within("imu gradient", wg, t * 10.0), "imu-gradient", "gradient deviates by {wg:e} (scaled, tolerance {t:e})");
            probe("imu linearisation compared");
        }
        ensure!(
            within("imu b", (rc / 2.0 - want).abs(), tol * 10.0),
            "imu-b",
            "|b|^2/2 = {:e}, cost {want:e}",
            rc / 2.0
        );
        // the linearised cost away from the point, which Levenberg-Marquardt judges candidates by
        let order = ValuesOrder::from_values(&v);
        let mut real = VectorX::zeros(order.dim());
        let mut d = DVector::zeros(30);
        let mut at = 0;
        for (i, w) in p.vars.iter().enumerate() {
            let t = gen::tangent(x[i].kind(), 0.3);
            let Some(ix) = order.get(vkey(w)) else { viol!("layout", "variable missing in the layout") };
            for (j, e) in t.iter().enumerate() {
                real[ix.idx + j] = *e;
                d[at + j] = *e;
            }
            at += t.len();
        }
        let ad = a * &d;
        let want = (&ad - &l.b).norm_squared() / 2.0;
        let got = guard(|| l.error(&LinearValues::from_order_and_vector(order, real))).must("imu linear cost")?;
        let tol = 1e-9 * (ad.norm_squared() + rc) + 1e-12;
        ensure!(
            within("imu linear cost", (got - want).abs(), tol),
            "imu-linear-cost",
            "linearised cost {got:e} at an increment, A and b give {want:e}"
        );
    }
    Ok(())
}
/// Keyframes joined by the factors, optimized: every step against the model.
fn chain(nodes: &[Node]) -> R {
    let use_: Vec<&Node> = nodes.iter().filter(|n| n.model.cond() < 1e6 && n.fed > 0 && n.model.dt < 20.0).collect();
    if use_.is_empty() {
        return Ok(());
    }
    let m = use_.len();
    let mut x = vec![gen::value(Kind::SE3, 0.5), gen::value(Kind::Vec(3), 0.5), gen::value(Kind::Bias, 0.05)];
    let mut facs = Vec::new();
    let mut real: Vec<Factor> = Vec::new();
    for (i, n) in use_.iter().enumerate() {
        let (a, b, c) = state_near(&n.model, &x[3 * i], &x[3 * i + 1], &x[3 * i + 2], &[0.05, 0.1, 0.1, 0.02, 0.02]);
        x.extend([a, b, c]);
        facs.push(imu_fac(&n.model, (3 * i..3 * i + 6).collect()));
        let j = i as u64;
        real.push(build(n, [j, j, j, j + 1, j + 1, j + 1])?);
    }
    let vars: Vec<Var> =
        x.iter().enumerate().map(|(i, v)| var(['x', 'v', 'b'][i % 3], (i / 3) as u64, v.clone())).collect();
    let mut g = Graph::new();
    let add = |g: &mut Graph, facs: &mut Vec<Fac>, i: usize| {
        let z = x[i].oplus(&gen::tangent(x[i].kind(), 0.1));
        facs.push(Fac { keys: vec![i], res: Res::Prior(z.clone()), noise: Noise::Unit, rob: Rob::L2, default_rob: true, built: Built::Unchecked });
        let k = vkey(&vars[i]);
        let f = match &z {
            MV::SE3(..) => FactorBuilder::new1_unchecked(PriorResidual::new(se3(&z)), k).build(),
            MV::Vec(v) => FactorBuilder::new1_unchecked(PriorResidual::new(vv::<3>(v)), k).build(),
            _ => FactorBuilder::new1_unchecked(PriorResidual::new(bias(&z)), k).build(),
        };
        g.add_factor(f);
    };
    for f in real {
        g.add_factor(f);
    }
    for i in 0..3 {
        add(&mut g, &mut facs, i);
    }
    add(&mut g, &mut facs, 3 * m);
    let p = Problem { vars: vars.clone(), facs };
    let x0 = p.init();
    let mut s = Setup::new(false, pick(SOLVERS));
    s.params = fixed_steps(1 + below(2));
    new_hash_world();
    let mut ses = Session::over(g, &p, &s);
    let rec = ses.run(&p, values(&p, &x0, &perm(x0.len())))?;
    ev!("chain of {m}: {} after {} steps", rec.out.kind(), rec.seen.len());
    let mut cur = x0;
    for (k, y) in rec.iterates()?.iter().enumerate() {
        if !super::c02::check_step(&p, &cur, y, k + 1)? {
            probe("imu step not comparable");
            return Ok(());
        }
        probe("imu step compared");
        cur = y.clone();
    }
    Ok(())
}
