//! Levenberg-Marquardt with a linear solver that misbehaves.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::ValuesOrder;
use nalgebra::{DMatrix, DVector};

/// Vectors with small whole-number measurements and starts: every cost is an exact sum, whatever the order, so a
/// candidate of all zeros leaves it exactly as it was.
fn exact() -> Problem {
    let k = Kind::Vec(1 + below(3));
    let unit = pick(&[1.0, 1.0, 1.0, 1024.0]);
    let whole = || MV::Vec((0..k.dim()).map(|_| unit * (below(7) as f64 - 3.0)).collect());
    let mut p = Problem { vars: Vec::new(), facs: Vec::new() };
    for idx in 0..1 + below(3) as u64 {
        let init = whole();
        p.vars.push(Var { chr: 'x', idx, init: init.clone(), truth: init });
    }
    let fac = |keys: Vec<usize>, res: Res| Fac { keys, res, noise: Noise::Unit, rob: Rob::L2, default_rob: false, built: Built::Unchecked };
    for i in 0..p.vars.len() {
        let at = p.vars[i].init.clone();
        if chance(1, 2) {
            // measurements cancelling out: the start is a minimum with cost
            let off = whole();
            p.facs.push(fac(vec![i], Res::Prior(at.compose(&off))));
            p.facs.push(fac(vec![i], Res::Prior(at.compose(&off.inverse()))));
        } else {
            p.facs.push(fac(vec![i], Res::Prior(whole())));
        }
        if i > 0 && chance(1, 2) {
            let z = p.vars[i - 1].init.inverse().compose(&at);
            p.facs.push(fac(vec![i - 1, i], Res::Between(if chance(1, 2) { z } else { whole() })));
        }
    }
    p
}

pub fn run() -> R {
    let whole = chance(1, 8);
    let mut p = match draw(8) {
        _ if whole => exact(),
        0..=5 => gen::problem(&gen::Opts { max_vars: 4, ..gen::Opts::BENIGN }),
        6 => gen::problem(&gen::Opts { max_vars: 4, ..gen::Opts::WILD }),
        _ => gen::some(&gen::Opts { max_vars: 4, ..gen::Opts::WILD }),
    };
    if !whole && chance(1, 10) {
        // very weak or very strong measurements
        let s = pick(&[1e4, 1e-4]);
        for f in &mut p.facs {
            if matches!(f.noise, Noise::Unit) {
                f.noise = Noise::ScalarSigma(1.0);
            }
            f.noise = f.noise.clone().scaled(s);
        }
        probe("extreme weights");
    }
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let long = chance(1, 16);
    let mut s = Setup::new(true, pick(SOLVERS));
    s.observers = 1 + below(2);
    s.params = match draw(16) {
        0..=3 => some_params(),
        4 => fixed_steps(7 + below(30)),
        5 if long => fixed_steps(100 + below(300)),
        _ => fixed_steps(1 + below(6)),
    };
    let lv = Leven {
        min: pick(&[0.0, 1e-9, 1e-3, 0.5]),
        max: pick(&[1e5, 1e-2, 10.0, 1e8]),
        factor: match draw(8) {
            0..=3 => 10.0,
            4 => 2.0,
            5 => 1.5,
            6 => 100.0,
            _ => 1e160,
        },
        diagonal: !chance(1, 2),
    };
    let lv = if lv.factor == 2.0 && chance(1, 2) {
        // damping in powers of two: once it rests on its minimum it is known exactly, and may meet its maximum exactly
        Leven { min: 0.5, max: 0.5 * 2f64.powi(below(6) as i32), ..lv }
    } else {
        lv
    };
    s.leven = if chance(1, 5) { None } else { Some(lv) };
    let lv = s.leven();
    // the fault plan
    let mut always = None;
    let mut plan = Vec::new();
    match draw(6) {
        // hundreds of steps: each only creeps towards the minimum
        _ if long && s.params.max_iterations >= 100 => {
            always = Some(SolverFault::Shrink);
            for k in 1..=400u64 {
                if chance(1, 40) {
                    plan.push((k, pick(SOLVER_FAULTS)));
                }
            }
        }
        0 => {}
        1 => always = Some(pick(SOLVER_FAULTS)),
        _ => {
            for k in 1..=30u64 {
                if chance(2, 5) {
                    plan.push((k, pick(SOLVER_FAULTS)));
                }
            }
        }
    }
    ev!("{:?} {:?} always {:?} plan {:?} {}", s.solver, lv, always, plan, fmt_params(&s.params));
    new_hash_world();
    let v = values(&p, &x0, &perm(p.vars.len()));
    let order = ValuesOrder::from_values(&v);
    let mut ses = Session::new(&p, &s, &perm(p.facs.len()));
    hooks(|h| {
        h.solver_plan = plan.clone();
        h.solver_always = always;
        h.record = true;
    });
    set_tick_limit(40_000);
    let rec = ses.run(&p, v)?;
    set_tick_limit(2_000_000);
    let solves = hooks(|h| {
        h.record = false;
        std::mem::take(&mut h.solves)
    });
    ev!("ended {} after {} steps, {} solves", rec.out.kind(), rec.seen.len(), solves.len());
    let base: Vec<&Seen> = rec.seen.iter().filter(|s| s.who == 0).collect();
    let it = rec.iterates()?;
    if rec.out.kind() == "failed-to-step" {
        probe("failed to step");
    }

    // which columns belong to which variable
    let mut col = vec![0; p.vars.len()];
    for (i, w) in p.vars.iter().enumerate() {
        match order.get(vkey(w)) {
            Some(ix) => col[i] = ix.idx,
            None => viol!("layout", "variable missing in the layout"),
        }
    }
    let mut lambda: Option<f64> = None;
    let mut rested = false; // the damping has been set to its minimum
    let mut x = x0.clone();
    let mut at = 0usize; // solves consumed
    for k in 0..=it.len() {
        let last = k == it.len();
        let end = if last { solves.len() } else { base[k].solves as usize };
        ensure!(end >= at && end <= solves.len(), "bookkeeping", "step {} consumed solves {at}..{end}", k + 1);
        let tries = &solves[at..end];
        if last && tries.is_empty() {
            if rec.out.kind() == "failed-to-step" {
                viol!("failed-without-trying", "step {} reported failure without any attempt", k + 1);
            }
            break;
        }
        if tries.is_empty() {
            viol!("no-solve", "step {} applied something without asking the linear solver", k + 1);
        }
        if !finite(&x) {
            viol!("corrupted", "the estimate before step {} is not finite", k + 1);
        }
        if p.near_cut(&x) {
            probe("cut short at a cut");
            return Ok(());
        }
        let n = p.normal(&x);
        if n.cond() > 1e8 {
            probe("cut short at an ill-conditioned point");
            return Ok(());
        }
        let dim = n.h.nrows();
        let map = |d: &DVector<f64>| {
            let mut o = DVector::zeros(dim);
            for i in 0..p.vars.len() {
                for j in 0..x[i].dim() {
                    o[n.off[i] + j] = d[col[i] + j];
                }
            }
            o
        };
        let mapm = |a: &DMatrix<f64>| {
            let mut ix = Vec::new();
            for i in 0..p.vars.len() {
                ix.extend((0..x[i].dim()).map(|j| col[i] + j));
            }
            DMatrix::from_fn(dim, dim, |r, c| a[(ix[r], ix[c])])
        };
        let hm = super::c02::max_abs(&n.h);
        let damp = |l: f64| {
            let mut a = n.h.clone();
            for i in 0..dim {
                a[(i, i)] += l * if lv.diagonal { n.h[(i, i)] } else { 1.0 };
            }
            a
        };
        let mut ambiguous = false;
        for (t, r) in tries.iter().enumerate() {
            // is this the system we think it is? (only then can it be inspected)
            let shaped = r.sym && r.a.nrows() == dim && r.b.len() == dim && r.x.len() == dim;
            let known = shaped && (map(&r.b) - &n.g).amax() <= 1e-5 * (1.0 + n.g.amax() + (hm * n.c).sqrt());
            if !known {
                probe("system not inspected");
            }
            if lambda.is_none() {
                // the damping a run starts with is not specified: read it off the first system
                let mut l0 = 1e-5;
                if known {
                    let a = mapm(&r.a);
                    let i = if lv.diagonal { n.h.diagonal().imax() } else { n.h.diagonal().imin() };
                    let w = if lv.diagonal { n.h[(i, i)] } else { 1.0 };
                    let e = (a[(i, i)] - n.h[(i, i)]) / w;
                    if (e - l0).abs() > 3e-6 * (1.0 + n.h[(i, i)] / w) && e >= 0.0 {
                        l0 = e;
                    }
                }
                lambda = Some(l0);
            }
            let l = lambda.unwrap();
            if known && l.is_finite() {
                let want = damp(l);
                let d = super::c02::max_abs(&(mapm(&r.a) - &want)) / (1.0 + hm) / (1.0 + l);
                ensure!(
                    within("damped system", d, 5e-5),
                    "damping",
                    "step {} attempt {}: the system is not H + lambda D with lambda {l:e} (relative deviation {d:e})",
                    k + 1,
                    t + 1
                );
                probe("damped system checked");
            }
            // between two attempts only the damping changed, by the same amount for every column
            if t > 0 && known && l.is_finite() && l < 1e12 {
                let q = &tries[t - 1];
                if q.a.shape() == r.a.shape() {
                    let (mut low, mut high, mut off) = (f64::INFINITY, f64::NEG_INFINITY, 0f64);
                    for i in 0..dim {
                        let (a, b) = (q.a[(i, i)], r.a[(i, i)]);
                        let e = if lv.diagonal { b / a } else { b - a };
                        if a > 1e-100 && e.is_finite() {
                            low = low.min(e);
                            high = high.max(e);
                        }
                        for j in 0..dim {
                            if i != j {
                                off = off.max((q.a[(i, j)] - r.a[(i, j)]).abs() / (q.a[(i, i)] * q.a[(j, j)]).abs().sqrt());
                            }
                        }
                    }
                    let scale = if lv.diagonal { 1.0 } else { r.a.diagonal().amax() };
                    let d = ((high - low) / scale.max(high.abs())).max(off);
                    ensure!(
                        low > high || within("damping of the columns", d, 1e-9),
                        "damping",
                        "step {} attempt {}: the damping did not grow alike in all columns ({low:e} to {high:e}, off the diagonal {off:e})",
                        k + 1,
                        t + 1
                    );
                    probe("growth of the damping checked");
                }
            }
            let final_try = t + 1 == tries.len();
            let accepted = final_try && !last;
            // does the candidate lower the linearised cost?
            let c0 = n.c / 2.0;
            let good = if known {
                let c = n.cost(&map(&r.x));
                if c.is_nan() {
                    Some(false)
                } else if whole && k == 0 && r.x.iter().all(|v| *v == 0.0) {
                    probe("exact zero candidate");
                    Some(false)
                } else if (c - c0).abs() <= 1e-7 * (c0 + 1e-9) + 1e-13 {
                    // too close for the model's derivatives: judge by the system the solver was given
                    let mut h = r.a.clone();
                    for i in 0..dim {
                        h[(i, i)] = if lv.diagonal { h[(i, i)] / (1.0 + l) } else { h[(i, i)] - l };
                    }
                    let (gx, xhx) = (r.b.dot(&r.x), (r.x.transpose() * &h * &r.x)[(0, 0)]);
                    let dec = gx - xhx / 2.0;
                    let margin = 1e-4 * (gx.abs() + xhx.abs()) + 1e-12 * (c0 + xhx.abs()) + 1e-13;
                    if l.is_finite() && dec.abs() > margin {
                        probe("judged by the recorded system");
                        Some(dec > 0.0)
                    } else {
                        None
                    }
                } else {
                    Some(c < c0)
                }
            } else if !r.faulted {
                None
            } else {
                None
            };
            match good {
                Some(true) if !accepted => {
                    if last && final_try && !matches!(rec.out, Out::Failed) {
                        // the run was ended by something else after this candidate
                    } else {
                        viol!(
                            "rejected-good",
                            "step {} attempt {}: a candidate that lowers the linearised cost was not applied",
                            k + 1,
                            t + 1
                        )
                    }
                }
                Some(false) if accepted => {
                    viol!(
                        "accepted-bad",
                        "step {} attempt {}: a candidate that does not lower the linearised cost was applied",
                        k + 1,
                        t + 1
                    )
                }
                None => ambiguous = true,
                _ => {}
            }
            if accepted {
                let y = &it[k];
                ensure!(finite(y), "corrupted", "step {} produced a non-finite estimate", k + 1);
                if r.faulted {
                    if known {
                        let want = p.apply(&x, &n, &map(&r.x));
                        let d = max_dist(&want, y);
                        ensure!(
                            within("applied candidate", d, 1e-7 * (1.0 + r.x.amax())),
                            "applied-other",
                            "step {}: what was applied is not the accepted candidate (off by {d:e})",
                            k + 1
                        );
                    }
                } else if l.is_finite() {
                    super::c02::check_linear_step(&p, &n, &x, y, k + 1, l, lv.diagonal, "levenberg-marquardt")?;
                    probe("damped step checked");
                }
                let mut nl = l / lv.factor;
                if nl < lv.min {
                    nl = lv.min;
                    rested = true;
                }
                lambda = Some(nl);
                if s.observers > 1 {
                    let n_here = rec.seen.iter().filter(|s| s.time as usize == k + 1).count();
                    ensure!(n_here == s.observers, "announced", "step {} was announced {} times", k + 1, n_here);
                }
            } else {
                fault("candidate rejected");
                let was = l;
                let mut nl = l * lv.factor;
                if was == 0.0 || !was.is_normal() {
                    // damping decayed to nothing: only bounded progress is required
                    probe("damping decayed to zero");
                    nl = f64::NAN;
                }
                lambda = Some(nl);
                if nl.is_nan() {
                    // cannot predict the rest exactly: the run ended (no hang), and nothing was corrupted
                    if let Some(v) = rec.out.vals() {
                        ensure!(finite(v), "corrupted", "the returned estimate is not finite");
                    }
                    return Ok(());
                }
                let over = nl > lv.max;
                let exact = rested && lv.factor == 2.0 && lv.min == 0.5;
                let near = !exact && (nl / lv.max - 1.0).abs() < 1e-9;
                if exact && nl == lv.max {
                    probe("damping exactly at its maximum");
                }
                if final_try && last {
                    // rejected, and no further attempt
                    match &rec.out {
                        Out::Failed => {
                            if !over && !near {
                                viol!("early-failure", "step {} failed with damping {nl:e}, maximum {:e}", k + 1, lv.max);
                            }
                        }
                        o => {
                            if !ambiguous {
                                viol!("bad-end", "step {} ended {} after a rejected candidate", k + 1, short(o))
                            }
                        }
                    }
                    return Ok(());
                }
                if over && !near {
                    viol!(
                        "late-failure",
                        "step {}: another attempt was made with damping {nl:e} above its maximum {:e}",
                        k + 1,
                        lv.max
                    );
                }
            }
        }
        at = end;
        if last {
            // the run ended inside this step without the last candidate having been rejected by us
            match &rec.out {
                Out::Panicked(m) => viol!("panic", "step {}: {m}", k + 1),
                Out::Failed if ambiguous => {}
                o => viol!("bad-end", "step {} ended {} with unannounced work", k + 1, short(o)),
            }
        } else {
            x = it[k].clone();
        }
    }
    match &rec.out {
        Out::Panicked(m) => {
            if p.near_cut(&x) || p.normal(&x).cond() > 1e8 {
                return Ok(());
            }
            viol!("panic", "{m}")
        }
        o => {
            if let Some(v) = o.vals() {
                ensure!(finite(v), "corrupted", "the returned estimate is not finite");
                let want = it.last().unwrap_or(&x0);
                ensure!(max_dist(v, want) <= 1e-12, "returned-other", "the returned estimate is not the last iterate");
            }
        }
    }
    Ok(())
}
