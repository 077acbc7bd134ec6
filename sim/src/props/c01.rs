//! The same problem under different hash seeds, insertion orders and linear solvers.
use super::*;
use crate::gen;
use crate::glue::*;

pub fn run() -> R {
    let mode = draw(10);
    let p = match mode {
        0..=6 => gen::problem(&gen::Opts { at_least_vars: 2, ..gen::Opts::BENIGN }),
        7..=8 => gen::problem(&gen::Opts { at_least_vars: 2, ..gen::Opts::WILD }),
        _ if chance(1, 100) => gen::huge(),
        _ => gen::large(if chance(1, 12) { 40 + below(60) } else { 8 + below(25) }),
    };
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let mut s = Setup::new(chance(1, 2), SolverKind::Chol);
    s.params = some_params();
    if mode >= 7 && mode <= 8 {
        // far from a minimum: only a few steps are comparable
        s.params = fixed_steps(1 + below(2));
    }
    if s.lm && chance(1, 3) {
        s.leven = Some(Leven { diagonal: chance(1, 2), min: pick(&[0.0, 1e-4]), factor: pick(&[10.0, 3.0]), max: 1e5 });
    }
    new_hash_world();
    let base = simple(&p, &s, &x0)?;
    ev!("{} {} steps lm {} {}", base.out.kind(), base.seen.len(), s.lm, fmt_params(&s.params));
    if !decisive(&p, &s, &x0, &base, 1e6)? {
        probe("not decisive");
        // still: the cost itself must not depend on the order of anything
        return costs(&p, &x0);
    }
    if let Out::Panicked(m) = &base.out {
        viol!("panic", "a well-posed problem panicked: {m}");
    }
    costs(&p, &x0)?;
    for _ in 0..2 + below(3) {
        let mut s2 = s.clone();
        s2.solver = pick(SOLVERS);
        let h = new_hash_world();
        let fo = perm(p.facs.len());
        let vo = perm(p.vars.len());
        let r = fresh(&p, &s2, &x0, &fo, &vo)?;
        ev!("variant {:?} factors {:?} values {:?} hash {h:x}: {}", s2.solver, fo, vo, r.out.kind());
        fault("hash order and insertion order changed");
        same("order", "order", &format!("{:?} solver, factors {:?}, values {:?}", s2.solver, fo, vo), &base, &r, 2e-6)?;
        probe("variant compared");
    }
    Ok(())
}
/// Graph costs under different orders.
fn costs(p: &Problem, x: &[MV]) -> R {
    let mut first: Option<f64> = None;
    for _ in 0..3 {
        new_hash_world();
        let g = graph(p, &perm(p.facs.len()), false);
        let v = values(p, x, &perm(p.vars.len()));
        ensure!(g.len() == p.facs.len(), "graph-size", "graph has {} factors, {} were added", g.len(), p.facs.len());
        let e = hi(guard(|| g.error(&v)).must("graph error")?);
        match first {
            None => first = Some(e),
            Some(f) => ensure!(
                within("cost order", rel(e, f), tol(1e-11, 1e-4)),
                "order-cost",
                "the cost of the same values is {e:e} or {f:e} depending on order"
            ),
        }
    }
    Ok(())
}
