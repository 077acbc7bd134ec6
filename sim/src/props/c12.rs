//! Crash and restart: an optimization killed at arbitrary points and resumed from the last saved iterate.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::Values;

/// Follows the model's own Gauss-Newton iteration to the minimum.
fn polish(p: &Problem, x: &[MV]) -> Option<Vec<MV>> {
    let mut x = x.to_vec();
    for _ in 0..60 {
        if p.near_cut(&x) {
            return None;
        }
        let n = p.normal(&x);
        if !(n.cond() < 1e7) {
            return None;
        }
        let d = n.solve(0.0, false)?;
        x = p.apply(&x, &n, &d);
        if d.amax() < 1e-9 {
            return Some(x);
        }
    }
    None
}
fn last(rec: &Rec) -> R<Option<Vec<MV>>> {
    if let Some(v) = rec.out.vals() {
        return Ok(Some(v.clone()));
    }
    Ok(rec.iterates()?.pop())
}
pub fn run() -> R {
    let lm = chance(1, 2);
    let far = !lm && chance(1, 4); // long steps, in units in which rounding is coarser
    let len = if far { 100.0 } else { 1.0 };
    let p = gen::some(&gen::Opts { at_least_vars: 1, len, ..gen::Opts::BENIGN });
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let mut s = Setup::new(lm, pick(SOLVERS));
    s.wrap = true; // crash points in every user callback
    s.params = OptParams { max_iterations: 100, ..OptParams::default() };
    if chance(1, 2) {
        s.params.error_tol_absolute = pick(&[1e-9, 1e-3, 1e-12]);
        s.params.error_tol_relative = pick(&[1e-9, 1e-3, 1e-12]);
    }
    if lm && chance(1, 2) {
        s.leven = Some(Leven { min: pick(&[0.0, 1e-6, 1e-3, 1.0]), max: 1e6, factor: pick(&[10.0, 2.0]), diagonal: chance(1, 2) });
    }
    // the run nobody disturbs
    new_hash_world();
    let fo = perm(p.facs.len());
    let c0 = hook_count();
    let whole = fresh(&p, &s, &x0, &fo, &perm(p.vars.len()))?;
    let calls = hook_count() - c0;
    ev!("undisturbed: {} after {} steps, {calls} callbacks, lm {lm} {}", whole.out.kind(), whole.seen.len(), fmt_params(&s.params));
    let n = whole.seen.len();
    let comparable = decisive(&p, &s, &x0, &whole, 1e6)? && whole.out.kind() == "converged";
    // what Gauss-Newton would do if it were not stopped
    let crashes = if chance(1, 20) { 4 + below(8) } else { 1 + below(3) };
    let longer = if lm || !comparable {
        Vec::new()
    } else {
        let mut t = s.clone();
        t.params = fixed_steps(n + crashes + 1);
        simple(&p, &t, &x0)?.iterates()?
    };

    let mut from: Vec<MV> = x0.clone();
    let mut live: Option<Values> = None; // the very object an observer saved (same process)
    let mut kept: Vec<(Values, Vec<MV>)> = Vec::new(); // every iterate ever saved
    let mut done = 0; // steps behind `from`
    let mut fin = None;
    for c in 0..=crashes {
        // restarted process: new hash seeds, graph rebuilt; or a new optimizer in the same process
        let restart = chance(1, 2);
        if restart {
            new_hash_world();
        }
        let forder = if restart { perm(p.facs.len()) } else { fo.clone() };
        let mut ses = Session::new(&p, &s, &forder);
        let v = match live.take() {
            Some(v) if !restart => v,
            _ => values(&p, &from, &perm(p.vars.len())),
        };
        if c < crashes {
            let at = 1 + draw(calls.max(1));
            hooks(|h| h.crash_at = Some(h.count + at));
        }
        set_tick_limit(400_000);
        let rec = ses.run(&p, v)?;
        hooks(|h| h.crash_at = None);
        let it = rec.iterates()?;
        ev!("attempt {c} (restart {restart}): {} after {} steps", rec.out.kind(), it.len());
        // along the undisturbed trajectory
        if !longer.is_empty() {
            for (i, y) in it.iter().enumerate() {
                let Some(want) = longer.get(done + i) else {
                    if far {
                        break;
                    }
                    viol!("resume-steps", "step {} of a run that takes {n} (after {c} crashes)", done + i + 1)
                };
                let d = max_dist(want, y);
                ensure!(
                    within("resumed step", d, len * len * tol(1e-7, 1e-2)),
                    "resume-trajectory",
                    "step {} taken after {c} crashes differs from the uninterrupted run by {d:e}",
                    done + i + 1
                );
                probe("resumed step compared");
            }
        }
        let saved: Vec<Values> = ses.saved.borrow().iter().cloned().collect();
        ensure!(saved.len() == it.len(), "saved", "{} saved iterates, {} announced", saved.len(), it.len());
        for (v, x) in ses.saved.borrow_mut().drain(..).zip(&it) {
            kept.push((v, x.clone()));
        }
        done += it.len();
        if let Some(x) = it.last() {
            from = x.clone();
            live = saved.last().cloned();
        }
        drop(ses);
        if rec.out.kind() != "crashed" {
            fin = Some((rec, c));
            break;
        }
        if it.is_empty() {
            probe("crash before the first step");
        } else {
            probe("crash after some steps");
        }
    }
    // saved iterates never change
    for (v, x) in &kept {
        let now = read_all(&p, v)?;
        ensure!(now == *x, "saved-changed", "an iterate saved by an observer changed afterwards");
    }
    let Some((rec, c)) = fin else { viol!("harness", "no final attempt") };
    if c == 0 {
        probe("finished before the crash point");
    }
    if far {
        // from afar only the trajectory is judged: where a run ends is at the mercy of rounding
        return Ok(());
    }
    if !comparable {
        probe("not decisive");
        if let Out::Panicked(m) = &rec.out {
            ensure!(whole.out.kind() == "panicked", "resume-outcome", "resumed run panicked: {m}");
        }
        return Ok(());
    }
    if !lm {
        ensure!(
            rec.out.kind() == "converged",
            "resume-outcome",
            "undisturbed run converged, the resumed one ended {} after {c} crashes",
            short(&rec.out)
        );
        ensure!(
            done >= n && done <= n + c,
            "resume-steps",
            "{done} steps in total after {c} crashes, the undisturbed run takes {n}"
        );
    } else {
        ensure!(
            matches!(rec.out.kind(), "converged" | "failed-to-step"),
            "resume-outcome",
            "undisturbed run converged, the resumed one ended {} after {c} crashes",
            short(&rec.out)
        );
    }
    // the same minimum
    let (Some(a), b) = (last(&whole)?, last(&rec)?.unwrap_or(from)) else { return Ok(()) };
    let Some(ma) = polish(&p, &a) else {
        probe("minimum not found by the model");
        return Ok(());
    };
    let Some(mb) = polish(&p, &b) else { viol!("resume-minimum", "the resumed run ended outside the basin of the minimum") };
    let d = max_dist(&ma, &mb);
    ensure!(within("minimum", d, tol(1e-5, 1e-2)), "resume-minimum", "the resumed run ended at another minimum ({d:e} away)");
    let (ca, cb) = (p.error(&a), p.error(&b));
    let cm = p.error(&ma);
    // both may stop short of the minimum, by an amount their tolerances set; damping that starts afresh may stop one of
    // them a little earlier
    let t = hi(s.params.error_tol_absolute) + hi(s.params.error_tol_relative) * (1.0 + ca);
    let slack = 10.0 * (ca - cm).abs() + 10.0 * t + 1e-4 * (1.0 + ca);
    ensure!(within("final cost", (cb - cm).max(0.0), slack), "resume-cost", "resumed run ends with cost {cb:e}, the undisturbed with {ca:e}, minimum {cm:e}");
    probe("minimum compared");
    Ok(())
}
