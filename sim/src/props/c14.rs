//! Incomplete or mistyped values: loud failure, no announcement, full recovery; bystander variables stay put.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::Values;

/// A value of another type under the same symbol: same dimension where there is one, or not.
fn other_type(k: Kind) -> MV {
    let same: Vec<Kind> = gen::ALL_KINDS.iter().copied().filter(|o| *o != k && o.dim() == k.dim()).collect();
    let any: Vec<Kind> = gen::ALL_KINDS.iter().copied().filter(|o| *o != k).collect();
    let o = if !same.is_empty() && !chance(1, 3) { same[below(same.len())] } else { any[below(any.len())] };
    gen::value(o, 1.0)
}
fn setting(lm: bool, solver: SolverKind, wrap: bool) -> Setup {
    let mut s = Setup::new(lm, solver);
    s.wrap = wrap;
    s.params = match draw(3) {
        0 => OptParams::default(),
        1 => fixed_steps(1 + below(4)),
        _ => some_params(),
    };
    s.leven = Some(if chance(1, 2) {
        Leven::default()
    } else {
        Leven { min: pick(&[0.0, 1e-3, 1e-9]), max: 1e5, factor: pick(&[10.0, 3.0]), diagonal: chance(1, 2) }
    });
    s.observers = 1 + below(2);
    s
}
pub fn run() -> R {
    // a variable no factor mentions makes Gauss-Newton's system singular, which single precision does not always notice
    if !SINGLE && chance(1, 3) {
        return bystanders();
    }
    let lm = chance(1, 2);
    let solver = pick(SOLVERS);
    let wrap = chance(1, 4);
    let o = if chance(1, 3) { gen::Opts::WILD } else { gen::Opts::BENIGN };
    let p = gen::some(&o);
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    new_hash_world();
    let fo = perm(p.facs.len());
    let s0 = setting(lm, solver, wrap);
    let mut ses = Session::new(&p, &s0, &fo);
    let rounds = 1 + below(4);
    for r in 0..rounds {
        if r > 0 && chance(1, 3) {
            // a complete run in between
            ses.opt.configure(&setting(lm, solver, wrap));
            let rec = ses.run(&p, values(&p, &x0, &perm(p.vars.len())))?;
            ev!("complete run: {}", rec.out.kind());
            continue;
        }
        new_hash_world();
        let nv = p.vars.len();
        let nbad = 1 + if chance(1, 4) { below(nv) } else { 0 };
        let bad: Vec<usize> = perm(nv).into_iter().take(nbad).collect();
        let mut v = Values::new();
        let mut how = Vec::new();
        for i in perm(nv) {
            let k = vkey(&p.vars[i]);
            if bad.contains(&i) {
                if chance(1, 2) {
                    fault("variable missing");
                    how.push(format!("{i} missing"));
                } else {
                    let m = other_type(x0[i].kind());
                    fault("variable of another type");
                    how.push(format!("{i} is {:?}", m.kind()));
                    insert(&mut v, k, &m);
                }
            } else {
                insert(&mut v, k, &x0[i]);
            }
        }
        let how = how.join(", ");
        // every factor that needs a bad variable, on its own
        for (fi, f) in p.facs.iter().enumerate() {
            let rf = factor(&p, f, wrap);
            let needs = f.keys.iter().any(|k| bad.contains(k));
            let e = guard(|| rf.error(&v));
            let l = guard(|| rf.linearize(&v));
            if needs {
                ensure!(
                    matches!(e, Ended::Panicked(_)),
                    "factor-evaluated",
                    "factor {fi} {:?} returned a cost although variable {how}",
                    f.keys
                );
                ensure!(
                    matches!(l, Ended::Panicked(_)),
                    "factor-linearised",
                    "factor {fi} {:?} was linearised although variable {how}",
                    f.keys
                );
                probe("factor refused");
            } else {
                e.must("factor with all its variables: error")?;
                l.must("factor with all its variables: linearize")?;
                probe("unaffected factor");
            }
        }
        let g = ses.opt.graph();
        ensure!(matches!(guard(|| g.error(&v)), Ended::Panicked(_)), "evaluated", "graph cost returned although variable {how}");
        ensure!(
            matches!(guard(|| g.linearize(&v)), Ended::Panicked(_)),
            "linearised",
            "graph linearised although variable {how}"
        );
        let s = setting(lm, solver, wrap);
        ses.opt.configure(&s);
        let by_hand = chance(1, 4);
        set_tick_limit(300_000);
        ses.log.borrow_mut().clear();
        let opt = &mut ses.opt;
        let r = guard(|| {
            if by_hand {
                opt.init(&v);
                opt.step(v, 1).map(|_| ())
            } else {
                opt.optimize(v).map(|_| ())
            }
        });
        ev!("incomplete run ({how}; {}): {}", fmt_params(&s.params), r.kind());
        let (done, n) = (format!("{:?}", r.kind()), ses.log.borrow().len());
        ensure!(
            matches!(r, Ended::Panicked(_) | Ended::Done(Err(_))),
            "optimized",
            "a run returned an estimate although variable {how}"
        );
        if let Ended::Done(Err(factrs::optimizers::OptError::MaxIterations(_))) = r {
            viol!("optimized", "a run returned an estimate although variable {how}");
        }
        ensure!(n == 0, "announced", "{n} announcements by a run ({done}) although variable {how}");
        probe("run refused");
    }
    // completed values: as if nothing had happened
    let mut s = setting(lm, solver, wrap);
    s.observers = s0.observers;
    ses.opt.configure(&s);
    let (w, vo) = (draw(1 << 32), perm(p.vars.len()));
    set_hash_stream(w);
    let after = ses.run(&p, values(&p, &x0, &vo))?;
    set_hash_stream(w);
    let mut new = Session::new(&p, &s, &fo);
    set_hash_stream(w);
    let fresh = new.run(&p, values(&p, &x0, &vo))?;
    if decisive(&p, &s, &x0, &fresh, 1e6)? {
        same("recovery", "recovery", "after the values were completed", &fresh, &after, 1e-8)?;
        probe("recovery compared");
    } else {
        ensure!(
            finite(&x0) && (fresh.out.kind() == "panicked") == (after.out.kind() == "panicked") || p.near_cut(&x0),
            "recovery-outcome",
            "fresh optimizer {}, recovered one {}",
            fresh.out.kind(),
            after.out.kind()
        );
        probe("recovery not decisive");
    }
    Ok(())
}
/// Variables no factor mentions.
fn bystanders() -> R {
    let lm = chance(2, 3);
    let p = gen::some(&gen::Opts::BENIGN);
    ev!("{}", gen::describe(&p));
    let s = {
        let mut s = setting(lm, pick(SOLVERS), false);
        if lm {
            s.leven = Some(Leven { min: pick(&[1e-3, 1e-6, 0.1, 0.0]), max: 1e5, factor: 10.0, diagonal: chance(1, 4) });
        }
        s
    };
    let x0 = p.init();
    new_hash_world();
    let mut v = values(&p, &x0, &perm(p.vars.len()));
    let n = 1 + below(3);
    let mut extra = Vec::new();
    for i in 0..n {
        let m = gen::value(pick(gen::ALL_KINDS), 2.0);
        let k = key(pick(&['z', 'a']), 1000 + i as u64);
        insert(&mut v, k, &m);
        let kind = m.kind();
        let m = read(&v, k, kind).expect("just stored");
        extra.push((k, kind, m));
    }
    fault("unmentioned variables");
    // not through Session: its store has extra entries
    let mut opt = Opt::new(graph(&p, &perm(p.facs.len()), false), &s);
    let saved = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    opt.observe(Watch { who: 0, keys: keys_of(&p), log: Default::default(), saved: Some(saved.clone()) });
    set_tick_limit(300_000);
    let r = guard(|| opt.optimize(v));
    let mut seen: Vec<Values> = saved.borrow_mut().drain(..).collect();
    let steps = seen.len();
    let kind = match &r {
        Ended::Done(Ok(_)) => "converged",
        Ended::Done(Err(factrs::optimizers::OptError::MaxIterations(_))) => "max",
        Ended::Done(Err(_)) => "failed",
        _ => "panicked",
    };
    ev!("bystanders {n} lm {lm} {:?} {:?}: {kind} after {steps} steps", s.solver, s.leven);
    probe(match kind {
        "converged" => "bystander run converged",
        "max" => "bystander run max iterations",
        "failed" => "bystander run failed",
        _ => "bystander run panicked",
    });
    match r {
        Ended::Done(Ok(v)) | Ended::Done(Err(factrs::optimizers::OptError::MaxIterations(v))) => seen.push(v),
        _ => {}
    }
    for v in &seen {
        ensure!(v.len() == p.vars.len() + n, "bystander-lost", "{} entries instead of {}", v.len(), p.vars.len() + n);
        for (k, kind, m) in &extra {
            let Some(now) = read(v, *k, *kind) else { viol!("bystander-lost", "an unmentioned variable vanished") };
            let d = now.dist(m);
            // Gauss-Newton gives the rank-deficient system as it is to the solver
            if !lm && s.solver == SolverKind::Qr && !now.finite() {
                viol!("bystander-nan-gauss-newton-qr", "an unmentioned variable became NaN: {m:?} -> {now:?}");
            }
            ensure!(
                within("bystander", d, 1e-12),
                "bystander-altered",
                "an unmentioned variable moved by {d:e} (lm {lm}, {:?}): {m:?} -> {now:?}",
                s.solver
            );
        }
    }
    if steps > 0 {
        probe("bystanders compared");
    }
    Ok(())
}
