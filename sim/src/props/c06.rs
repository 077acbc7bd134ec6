//! One optimizer, many runs: each must be what a new optimizer would do, whatever came before.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::linear::LinearValues;

fn perturbed(p: &Problem) -> Vec<MV> {
    let mag = pick(&[0.02, 0.1, 0.3, 1.0, 3.0]);
    p.vars.iter().map(|v| v.truth.oplus(&gen::tangent(v.truth.kind(), mag))).collect()
}
fn setting(lm: bool, solver: SolverKind, wrap: bool) -> Setup {
    let mut s = Setup::new(lm, solver);
    s.wrap = wrap;
    s.params = match draw(5) {
        0 | 1 => some_params(),
        2 => fixed_steps(1 + below(12)),
        _ => OptParams { max_iterations: 1 + below(20), ..OptParams::default() },
    };
    s.leven = Some(if chance(1, 2) {
        Leven::default()
    } else {
        Leven {
            min: pick(&[0.0, 1e-6, 1e-2]),
            max: pick(&[1e5, 10.0, 1e8]),
            factor: pick(&[10.0, 2.0, 100.0]),
            diagonal: chance(1, 2),
        }
    });
    s
}
/// The problem with up to three more variables no factor mentions; under the same few keys, but of changing kinds.
fn with_bystanders(p: &Problem) -> Problem {
    let mut q = p.clone();
    for idx in 0..below(4) as u64 {
        let k = pick(&[Kind::Vec(1), Kind::Vec(2), Kind::SO2, Kind::Vec(3)]);
        let truth = gen::value(k, 1.0);
        q.vars.push(Var { chr: 'z', idx, init: truth.clone(), truth });
    }
    q
}
/// Costs of the optimizer's graph at fixed points.
fn fingerprint(p: &Problem, ses: &Session, pts: &[Vec<MV>]) -> R<Vec<f64>> {
    let mut out = vec![ses.opt.graph().len() as f64];
    for x in pts {
        let v = values(p, x, &identity(p.vars.len()));
        out.push(hi(guard(|| ses.opt.graph().error(&v)).must("graph error")?));
        let lg = guard(|| ses.opt.graph().linearize(&v)).must("graph linearize")?;
        out.push(hi(guard(|| lg.error(&LinearValues::zero_from_values(&v))).must("linear cost")?));
    }
    Ok(out)
}
pub fn run() -> R {
    let lm = chance(2, 3);
    let o = if chance(1, 5) { gen::Opts::WILD } else { gen::Opts::BENIGN };
    let p = gen::some(&gen::Opts { max_vars: 5, at_least_vars: 1, ..o });
    ev!("{}", gen::describe(&p));
    let solver = pick(SOLVERS);
    let wrap = chance(1, 3);
    let s0 = setting(lm, solver, wrap);
    new_hash_world();
    let fo = perm(p.facs.len());
    let mut ses = Session::new(&p, &s0, &fo);
    let pts: Vec<Vec<MV>> = (0..2).map(|_| perturbed(&p)).collect();
    let smooth = pts.iter().all(|x| !p.near_pi(x));
    let fp = if smooth { fingerprint(&p, &ses, &pts)? } else { vec![] };
    let rounds = if chance(1, 30) { 5 + below(14) } else { 1 + below(4) };
    for _ in 0..rounds {
        let s = setting(lm, solver, wrap);
        ses.opt.configure(&s);
        let q = if chance(1, 3) { with_bystanders(&p) } else { p.clone() };
        let x = perturbed(&q);
        new_hash_world();
        let v = values(&q, &x, &perm(q.vars.len()));
        let mut plan = Vec::new();
        let what = match draw(7) {
            0 | 1 => "plain",
            2 => {
                for k in 1..=20u64 {
                    if chance(1, 3) {
                        plan.push((k, pick(SOLVER_FAULTS)));
                    }
                }
                "faulty solver"
            }
            3 => {
                let k0 = 1 + draw(6);
                plan.extend((k0..k0 + 400).map(|k| (k, SolverFault::Nan)));
                "solver dies"
            }
            4 | 5 => {
                let c = 1 + draw(60);
                hooks(|h| h.crash_at = Some(h.count + c));
                "crash"
            }
            _ => "by hand",
        };
        hooks(|h| {
            h.solver_calls = 0;
            h.solver_plan = plan;
        });
        set_tick_limit(300_000);
        if what == "by hand" {
            // steps taken directly, abandoned in the middle
            let n = below(4);
            let opt = &mut ses.opt;
            let r = guard(|| {
                opt.init(&v);
                let mut v = v.clone();
                for k in 1..=n {
                    match opt.step(v, k) {
                        Ok(w) => v = w,
                        Err(_) => break,
                    }
                }
            });
            ev!("by hand {n} steps: {}", r.kind());
            fault("run abandoned");
        } else {
            let r = ses.run(&q, v)?;
            ev!("{what}: {} after {} steps lm {lm} {}", r.out.kind(), r.seen.len(), fmt_params(&s.params));
            if r.out.kind() == "failed-to-step" {
                fault("run failed");
            }
        }
        hooks(|h| {
            h.crash_at = None;
            h.solver_plan.clear();
        });
    }
    // the run that counts
    for _ in 0..1 + below(2) {
        let mut s = setting(lm, solver, wrap);
        s.observers = 1;
        // a damping that does not vanish for variables no factor constrains keeps the system solvable
        let by = lm && chance(1, 3);
        if by {
            s.leven = Some(Leven { diagonal: false, min: 1e-6, ..Leven::default() });
        }
        let q = if by { with_bystanders(&p) } else { p.clone() };
        let x0: Vec<MV> = q.vars.iter().map(|v| v.init.clone()).collect();
        let (w, vo) = (draw(1 << 32), perm(q.vars.len()));
        ses.opt.configure(&s);
        set_hash_stream(w);
        let used = ses.run(&q, values(&q, &x0, &vo))?;
        set_hash_stream(w);
        let mut new = Session::new(&p, &s, &fo);
        set_hash_stream(w);
        let fresh = new.run(&q, values(&q, &x0, &vo))?;
        ev!("used {} {} fresh {} {}", used.out.kind(), used.seen.len(), fresh.out.kind(), fresh.seen.len());
        if decisive(&p, &s, &x0[..p.vars.len()], &fresh, 1e6)? {
            let what = format!("after {rounds} runs (lm {lm})");
            if same("reuse", "reuse", &what, &fresh, &used, 1e-8).is_err() {
                // as much as another layout of the columns does to a new optimizer is rounding
                let mut t = 1e-8f64;
                for _ in 0..4 {
                    new_hash_world();
                    let r = Session::new(&p, &s, &perm(p.facs.len())).run(&q, values(&q, &x0, &perm(q.vars.len())))?;
                    let (a, b) = (fresh.iterates()?, r.iterates()?);
                    let d = a.iter().zip(&b).map(|(u, v)| max_dist(u, v)).fold(0.0, f64::max);
                    if d.is_finite() {
                        t = t.max(50.0 * d);
                    }
                }
                same("reuse, up to rounding", "reuse", &what, &fresh, &used, t.min(1e-4))?;
            }
            probe("reuse compared");
            if q.vars.len() > p.vars.len() {
                probe("reuse compared, with bystanders");
            }
            nontrivial();
        } else {
            probe("not decisive");
        }
    }
    if smooth {
        let now = fingerprint(&p, &ses, &pts)?;
        for (a, b) in fp.iter().zip(&now) {
            ensure!(within("graph", rel(*a, *b), 1e-12), "graph-changed", "the graph's cost changed from {a:e} to {b:e}");
        }
    }
    Ok(())
}
