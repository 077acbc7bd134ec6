//! Generation of factor-graph problems from the tape.
use crate::core::*;
use crate::model::*;
use nalgebra::DMatrix;

pub const ALL_KINDS: &[Kind] = &[
    Kind::Vec(2),
    Kind::SE2,
    Kind::SE3,
    Kind::Vec(3),
    Kind::SO3,
    Kind::SO2,
    Kind::Vec(1),
    Kind::Vec(6),
    Kind::Bias,
    Kind::Vec(4),
    Kind::Vec(5),
];

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub max_vars: usize,
    /// user-defined residuals
    pub custom: bool,
    /// robust kernels
    pub robust: bool,
    /// starts and measurements close to a common truth: every optimizer converges quickly
    pub benign: bool,
    pub at_least_vars: usize,
    /// unit of length (vectors, translations) and of noise
    pub len: f64,
    pub sig: f64,
    /// factors that mention one variable more than once
    pub repeats: bool,
}
impl Opts {
    pub const BENIGN: Opts = Opts { max_vars: 6, custom: true, robust: true, benign: true, at_least_vars: 1, len: 1.0, sig: 1.0, repeats: true };
    pub const WILD: Opts = Opts { max_vars: 6, custom: true, robust: true, benign: false, at_least_vars: 1, len: 1.0, sig: 1.0, repeats: true };
    /// WILD in other units.
    pub fn wide() -> Opts {
        Opts { len: pick(&[1e3, 1e-3, 30.0, 1.0]), sig: pick(&[1e-3, 0.05, 1.0, 20.0, 1e3]), ..Opts::WILD }
    }
}

pub fn tangent(k: Kind, mag: f64) -> Vec<f64> {
    (0..k.dim()).map(|_| sym(mag)).collect()
}
pub fn value(k: Kind, mag: f64) -> MV {
    MV::exp(k, &tangent(k, mag))
}
/// Which coordinates of the tangent space are rotations (they have no unit of length).
fn rotational(k: Kind) -> usize {
    match k {
        Kind::SO2 | Kind::SE2 => 1,
        Kind::SO3 | Kind::SE3 => 3,
        _ => 0,
    }
}
fn in_units(k: Kind, mut t: Vec<f64>, o: &Opts) -> Vec<f64> {
    for x in t.iter_mut().skip(rotational(k)) {
        *x *= o.len;
    }
    t
}
/// A turn that stops just short of half a revolution.
fn half_turn(k: Kind) -> Vec<f64> {
    let n = rotational(k);
    let mut t = tangent(k, 1.0);
    let norm = t[..n].iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
    let a = std::f64::consts::PI - pick(&[0.1, 0.02, 0.5, 0.013, 5e-3]);
    for x in t[..n].iter_mut() {
        *x *= a / norm;
    }
    t
}

/// A random symmetric positive definite matrix with eigenvalues in about [0.2, 6].
pub fn spd(n: usize) -> DMatrix<f64> {
    let a = DMatrix::from_fn(n, n, |_, _| sym(0.8));
    let d = DMatrix::from_fn(n, n, |i, j| if i == j { range(0.4, 2.0) } else { 0.0 });
    a.clone() * a.transpose() * (1.0 / n as f64) + d
}
pub fn noise(n: usize) -> Noise {
    let v = |lo: f64, hi: f64| (0..n).map(|_| range(lo, hi)).collect::<Vec<_>>();
    match draw(10) {
        0 => Noise::Unit,
        1 => Noise::ScalarSigma(range(0.3, 2.5)),
        2 => Noise::ScalarCov(range(0.2, 3.0)),
        3 => Noise::VecSigma(v(0.3, 2.5)),
        4 => Noise::VecCov(v(0.2, 3.0)),
        5 => Noise::VecInf(v(0.2, 5.0)),
        6 => Noise::DiagSigmas(v(0.3, 2.5)),
        7 => Noise::DiagCovs(v(0.2, 3.0)),
        8 => Noise::MatCov(spd(n)),
        _ => Noise::MatInf(spd(n)),
    }
}
/// Kernels whose weight never vanishes.
fn mild_robust() -> Rob {
    match draw(5) {
        0 => Rob::L2,
        1 => Rob::Huber(range(0.5, 3.0)),
        2 => Rob::Fair(range(0.5, 3.0)),
        3 => Rob::Cauchy(range(0.8, 3.0)),
        _ => Rob::L2,
    }
}
/// Kernels as their defaults configure them.
fn default_robust() -> Rob {
    pick(&ROB_DEFAULTS)
}
pub fn robust() -> Rob {
    if chance(1, 8) {
        return default_robust();
    }
    match draw(8) {
        0 => Rob::L2,
        1 => Rob::Huber(range(0.3, 2.5)),
        2 => Rob::Cauchy(range(0.3, 2.5)),
        3 => Rob::Geman(range(0.3, 3.0)),
        4 => Rob::Welsch(range(0.5, 3.0)),
        5 => Rob::Tukey(range(1.0, 5.0)),
        6 => Rob::Fair(range(0.3, 2.5)),
        _ => Rob::L1,
    }
}
pub fn new_var(vars: &mut Vec<Var>, k: Kind, o: &Opts) -> usize {
    let chr = pick(&['x', 'l', 'v', 'b', 'q']);
    let idx = match draw(8) {
        7 => (1u64 << 32) - 1 - draw(4),
        6 => 255 + draw(4) * 256,
        _ => draw(64),
    };
    // distinct symbols
    let mut idx = idx;
    while vars.iter().any(|v| v.chr == chr && v.idx == idx) {
        idx = (idx + 1) % (1u64 << 32);
    }
    let truth = MV::exp(k, &in_units(k, tangent(k, 1.4), o));
    let mag = if o.benign { pick(&[0.02, 0.1, 0.2]) } else { pick(&[0.1, 0.5, 1.5, 1e-3, 1e-6, 0.0]) };
    let init = truth.oplus(&in_units(k, tangent(k, mag), o));
    vars.push(Var { chr, idx, init, truth });
    vars.len() - 1
}
fn measurement(truth: &MV, o: &Opts) -> MV {
    let k = truth.kind();
    if !o.benign && chance(1, 5) {
        if rotational(k) > 0 && chance(1, 4) {
            return truth.oplus(&in_units(k, half_turn(k), o));
        }
        return MV::exp(k, &in_units(k, tangent(k, 1.4), o));
    }
    let mag = if o.benign { 0.05 } else { pick(&[0.05, 0.3, 1e-3, 1e-5, 0.0]) };
    truth.oplus(&in_units(k, tangent(k, mag), o))
}
pub fn prior(p: &Problem, i: usize, o: &Opts, structural: bool) -> Fac {
    let z = measurement(&p.vars[i].truth, o);
    finish(vec![i], Res::Prior(z), o, structural)
}
pub fn between(p: &Problem, i: usize, j: usize, o: &Opts, structural: bool) -> Fac {
    let z = measurement(&p.vars[i].truth.inverse().compose(&p.vars[j].truth), o);
    finish(vec![i, j], Res::Between(z), o, structural)
}
fn finish(keys: Vec<usize>, res: Res, o: &Opts, structural: bool) -> Fac {
    let mut f = Fac { keys, res, noise: Noise::Unit, rob: Rob::L2, default_rob: false, built: Built::Unchecked };
    let n = f.dim_out();
    f.built = pick(&[Built::Unchecked, Built::Unchecked, Built::Typed, Built::Short]);
    if chance(1, 6) {
        f.default_rob = true; // bare factor: unit noise, L2
        return f;
    }
    f.noise = noise(n).scaled(o.sig);
    if o.robust && chance(1, 3) {
        f.rob = if structural || o.benign { mild_robust() } else { robust() };
    } else if chance(1, 2) {
        f.default_rob = true;
    }
    f
}
pub fn custom(p: &mut Problem, shape: usize, o: &Opts, grow: bool) -> Option<Fac> {
    let (kinds, dim) = SHAPES[shape];
    let mut keys: Vec<usize> = Vec::new();
    for k in kinds {
        let again = o.repeats && chance(1, 4);
        let have: Vec<usize> =
            (0..p.vars.len()).filter(|i| p.vars[*i].truth.kind() == *k && (again || !keys.contains(i))).collect();
        let i = if !have.is_empty() {
            have[below(have.len())]
        } else if grow {
            new_var(&mut p.vars, *k, o)
        } else {
            return None;
        };
        keys.push(i);
    }
    let nf: usize = kinds.iter().map(|k| nfeat(*k)).sum();
    let rows = |m: f64| (0..dim).map(|_| (0..nf).map(|_| sym(m)).collect::<Vec<f64>>()).collect::<Vec<_>>();
    let a = rows(1.0);
    let b = rows(0.6);
    let mut c = Custom { shape, a, b, z: vec![0.0; dim], numeric: chance(1, 3), via: draw(4) as u8 };
    let t: Vec<&MV> = keys.iter().map(|i| &p.vars[*i].truth).collect();
    let mag = if o.benign { 0.05 } else { 0.4 * o.len };
    c.z = c.eval(&t).iter().map(|x| x + sym(mag)).collect();
    let f = finish(keys, Res::Custom(c), o, false);
    Some(f)
}

/// A problem in which every variable is tied down: by a prior, or by a chain of relative measurements to one.
pub fn problem(o: &Opts) -> Problem {
    let mut p = Problem { vars: Vec::new(), facs: Vec::new() };
    let nk = 1 + below(3);
    let kinds: Vec<Kind> = (0..nk).map(|_| ALL_KINDS[below(ALL_KINDS.len())]).collect();
    let n = o.at_least_vars + below(o.max_vars - o.at_least_vars + 1);
    for _ in 0..n {
        let k = kinds[below(nk)];
        new_var(&mut p.vars, k, o);
    }
    let mut extra = Vec::new();
    if o.custom && chance(1, 2) {
        for _ in 0..1 + below(2) {
            let s = below(SHAPES.len());
            let grow = p.vars.len() < o.max_vars + 2;
            if let Some(f) = custom(&mut p, s, o, grow) {
                extra.push(f);
            }
        }
    }
    for i in 0..p.vars.len() {
        let k = p.vars[i].truth.kind();
        let same: Vec<usize> = (0..i).filter(|j| p.vars[*j].truth.kind() == k).collect();
        let f = if !same.is_empty() && draw(3) > 0 {
            let j = same[below(same.len())];
            if chance(1, 3) {
                between(&p, i, j, o, true)
            } else {
                between(&p, j, i, o, true)
            }
        } else {
            prior(&p, i, o, true)
        };
        p.facs.push(f);
    }
    for _ in 0..below(1 + p.vars.len()) {
        let i = below(p.vars.len());
        let k = p.vars[i].truth.kind();
        let again = o.repeats && chance(1, 12);
        let same: Vec<usize> =
            (0..p.vars.len()).filter(|j| (again || *j != i) && p.vars[*j].truth.kind() == k).collect();
        let f = if !same.is_empty() && draw(3) > 0 {
            between(&p, i, same[below(same.len())], o, false)
        } else {
            prior(&p, i, o, false)
        };
        p.facs.push(f);
    }
    p.facs.extend(extra);
    p
}
/// A problem, once in a while a large one.
pub fn some(o: &Opts) -> Problem {
    match draw(50) {
        49 if chance(1, 10) => large(40 + below(60)),
        49 => large(9 + below(30)),
        _ => problem(o),
    }
}
/// A long chain of vectors and poses with loop closures (to reach sizes small problems cannot).
pub fn large(n: usize) -> Problem {
    let kinds = [pick(ALL_KINDS), pick(ALL_KINDS)];
    chain(n, kinds)
}
/// Hundreds of variables and factors; small ones, since the reference model is dense.
pub fn huge() -> Problem {
    let small = &[Kind::Vec(1), Kind::SO2, Kind::Vec(2)];
    let kinds = [pick(small), pick(small)];
    chain(130 + below(280), kinds)
}
fn chain(n: usize, kinds: [Kind; 2]) -> Problem {
    let o = Opts { custom: false, robust: chance(1, 2), ..Opts::BENIGN };
    let mut p = Problem { vars: Vec::new(), facs: Vec::new() };
    for _ in 0..n {
        let k = kinds[below(2)];
        new_var(&mut p.vars, k, &o);
    }
    for i in 0..n {
        let k = p.vars[i].truth.kind();
        let prev = (0..i).rev().find(|j| p.vars[*j].truth.kind() == k);
        let f = match prev {
            Some(j) if !chance(1, 8) => between(&p, j, i, &o, true),
            _ => prior(&p, i, &o, true),
        };
        p.facs.push(f);
        if i > 2 && chance(1, 6) {
            let j = below(i);
            if p.vars[j].truth.kind() == k {
                let f = between(&p, i, j, &o, true);
                p.facs.push(f);
            }
        }
    }
    // many measurements of one thing
    if chance(1, 4) {
        let i = below(n);
        for _ in 0..below(40) {
            let f = prior(&p, i, &o, true);
            p.facs.push(f);
        }
    }
    if chance(1, 3) {
        if let Some(f) = custom(&mut p, below(SHAPES.len()), &o, false) {
            p.facs.push(f);
        }
    }
    p
}
pub fn describe(p: &Problem) -> String {
    let v: Vec<String> = p.vars.iter().map(|v| format!("{}{}:{:?}", v.chr, v.idx, v.truth.kind())).collect();
    let f: Vec<String> = p
        .facs
        .iter()
        .map(|f| {
            let n = match &f.res {
                Res::Prior(_) => "prior".to_string(),
                Res::Between(_) => "between".into(),
                Res::Custom(c) => format!("custom{}{}", c.shape, if c.numeric { "n" } else { "" }),
                Res::Imu(_) => "imu".into(),
            };
            let d = format!("{:?}", f.noise);
            let d = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
            format!("{n}{:?}/{d}/{:?}", f.keys, f.rob)
        })
        .collect();
    format!("vars [{}] factors [{}]", v.join(" "), f.join(" "))
}
