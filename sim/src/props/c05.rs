//! Announcements: every observer, every completed step, once, in order; under failing solvers and crashing callbacks.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::optimizers::{OptObserver, OptObserverVec};
use std::cell::RefCell;
use std::rc::Rc;

struct Note {
    who: usize,
    log: Rc<RefCell<Vec<(usize, u64, f64)>>>,
    crash: Option<u64>,
}
impl OptObserver for Note {
    type Input = u64;
    fn on_step(&self, v: &u64, time: f64) {
        tick();
        self.log.borrow_mut().push((self.who, *v, time));
        if self.crash == Some(*v) {
            fault("crash in observer");
            std::panic::panic_any(Crash);
        }
    }
}
/// The observer list by itself, with a user-defined kind of iterate.
fn list() -> R {
    let log = Rc::new(RefCell::new(Vec::new()));
    let mut obs: OptObserverVec<u64> = OptObserverVec::default();
    let mut who = Vec::new();
    let mut want = Vec::new();
    let mut crash: Vec<(usize, u64)> = Vec::new();
    for _ in 0..1 + below(10) {
        match draw(3) {
            0 => {
                let many = if chance(1, 4) { 1 + below(24) } else { 1 };
                for _ in 0..many {
                    let w = who.len();
                    let c = if many == 1 && chance(1, 6) { Some(draw(6)) } else { None };
                    if let Some(c) = c {
                        crash.push((w, c));
                    }
                    obs.add(Note { who: w, log: log.clone(), crash: c });
                    who.push(w);
                    ev!("add observer {w} crash {c:?}");
                }
            }
            _ => {
                let v = draw(6);
                let idx = match draw(4) {
                    0 => 1,
                    3 => 1 << 40,
                    _ => below(1000),
                };
                ev!("notify {v} {idx}");
                let r = guard(|| obs.notify(&v, idx));
                let mut died = false;
                for w in &who {
                    want.push((*w, v, idx as f64));
                    if crash.contains(&(*w, v)) {
                        died = true;
                        break;
                    }
                }
                let k = if died { "crashed" } else { "done" };
                ensure!(r.kind() == k, "notify", "notify ended {}, expected {k}", r.kind());
            }
        }
        ensure!(
            *log.borrow() == want,
            "notify",
            "observers heard {:?}, expected {:?}",
            log.borrow(),
            want
        );
    }
    probe("observer list history");
    nontrivial();
    Ok(())
}

/// Groups announcements into steps and checks who was told what.
fn check_groups(rec: &Rec, n: usize, complete: bool) -> R {
    if n == 0 {
        ensure!(rec.seen.is_empty(), "announced", "no observer, yet {} announcements", rec.seen.len());
        return Ok(());
    }
    for (i, s) in rec.seen.iter().enumerate() {
        let (step, who) = (i / n + 1, i % n);
        ensure!(
            s.who == who,
            "order",
            "announcement {} went to observer {}, expected observer {who} (step {step})",
            i + 1,
            s.who
        );
        ensure!(s.time == step as f64, "numbering", "step {step} was announced to observer {who} as {}", s.time);
        let first = &rec.seen[(step - 1) * n];
        ensure!(
            s.solves == first.solves,
            "late",
            "observer {who} heard of step {step} only after more work had been done"
        );
        let d = max_dist(&seen_vals(s)?, &seen_vals(first)?);
        let nan = !finite(&seen_vals(first)?);
        ensure!(d == 0.0 || nan, "different-iterate", "observers 0 and {who} saw different iterates of step {step}");
        if step > 1 {
            let before = &rec.seen[(step - 2) * n];
            ensure!(s.solves > before.solves, "repeated", "step {step} was announced without any work since the last");
        }
    }
    if complete {
        ensure!(
            rec.seen.len() % n == 0,
            "announced",
            "the last step was announced to {} of {n} observers",
            rec.seen.len() % n
        );
    }
    Ok(())
}

pub fn run() -> R {
    if chance(1, 8) {
        return list();
    }
    let lm = chance(1, 2);
    let p = gen::some(&gen::Opts { max_vars: 3, ..if chance(1, 4) { gen::Opts::WILD } else { gen::Opts::BENIGN } });
    ev!("{}", gen::describe(&p));
    let x0 = p.init();
    let mut s = Setup::new(lm, pick(SOLVERS));
    s.observers = if chance(1, 200) {
        60 + below(240)
    } else if chance(1, 10) {
        6 + below(30)
    } else {
        below(6)
    };
    s.wrap = chance(1, 2);
    s.params = match draw(4) {
        0 => OptParams::default(),
        1 => OptParams { max_iterations: below(4), ..OptParams::default() },
        2 if chance(1, 200) => fixed_steps(200 + below(200)),
        2 => fixed_steps(if chance(1, 12) { 8 + below(40) } else { below(7) }),
        _ => OptParams { error_tol: pick(&[0.1, 1e3]), ..OptParams::default() },
    };
    // the solver may become useless for good at some call
    let bad_from = if chance(1, 3) { Some(1 + draw(8)) } else { None };
    let kind = pick(&[SolverFault::Nan, SolverFault::Zero, SolverFault::Negate, SolverFault::Inf]);
    let plan: Vec<(u64, SolverFault)> = match (bad_from, lm) {
        (Some(k), true) => (k..k + 300).map(|i| (i, kind)).collect(),
        (Some(k), false) => vec![(k, SolverFault::Zero)],
        _ => vec![],
    };
    ev!("lm {lm} {:?} observers {} bad from {bad_from:?} {kind:?} {}", s.solver, s.observers, fmt_params(&s.params));
    let world = draw(1 << 32);
    let (fo, vo) = (perm(p.facs.len()), perm(p.vars.len()));
    let start = |ses: &mut Option<Session>, s: &Setup| {
        set_hash_stream(world);
        *ses = Some(Session::new(&p, s, &fo));
        values(&p, &x0, &vo)
    };
    let mut ses = None;
    let v0 = start(&mut ses, &s);
    let ses = ses.as_mut().unwrap();
    hooks(|h| h.solver_plan = plan.clone());
    let base = ses.run(&p, v0)?;
    let total = hook_count();
    ev!("ended {} with {} announcements", base.out.kind(), base.seen.len());
    if s.observers > 0 {
        nontrivial();
    }
    let died = matches!(base.out, Out::Panicked(_));
    check_groups(&base, s.observers, !died)?;
    let steps = if s.observers > 0 { base.seen.len() / s.observers } else { 0 };
    if s.observers > 0 {
        if let (Some(k), true, true, false) =
            (bad_from, lm, base.out.kind() == "failed-to-step", kind == SolverFault::Negate)
        {
            ensure!(
                base.seen.iter().all(|x| x.solves < k),
                "failed-announced",
                "a step whose every candidate was useless was announced"
            );
            probe("failing step announced nothing");
        }
        if let Some(v) = base.out.vals() {
            match base.seen.last() {
                Some(l) => {
                    let l = seen_vals(l)?;
                    ensure!(
                        max_dist(&l, v) <= 1e-12 || !finite(&l),
                        "returned-other",
                        "the run returned something else than the last announced iterate"
                    );
                }
                None => ensure!(max_dist(v, &x0) < tol(1e-9, 1e-6), "unannounced", "the estimate changed without any announcement"),
            }
            if base.out.kind() == "max-iterations" {
                ensure!(
                    steps == s.params.max_iterations,
                    "announced",
                    "{} steps were announced, {} were taken",
                    steps,
                    s.params.max_iterations
                );
            }
        }
    }
    // the same run by hand, without observers: each step's own product is what was announced
    if s.observers > 0 && steps > 0 && !died {
        let mut s2 = s.clone();
        s2.observers = 0;
        let mut hand = None;
        let mut v = start(&mut hand, &s2);
        let hand = hand.as_mut().unwrap();
        hooks(|h| {
            h.solver_calls = 0;
            h.solver_plan = plan.clone();
        });
        hand.opt.init(&v);
        for k in 1..=steps {
            let want = seen_vals(&base.seen[(k - 1) * s.observers])?;
            let r = guard(|| hand.opt.step(v.clone(), k));
            let nv = match r {
                Ended::Done(Ok(nv)) => nv,
                _ => viol!("announced-failed", "step {k} was announced, but by hand it does not complete"),
            };
            let got = read_all(&p, &nv)?;
            if !finite(&want) || !finite(&got) || p.normal(&read_all(&p, &v)?).cond() > 1e8 {
                break;
            }
            let d = max_dist(&got, &want);
            ensure!(
                within("announced iterate", d, 1e-6),
                "announced-other",
                "what was announced for step {k} is not what the step produced (off by {d:e})"
            );
            probe("announcement equals step product");
            v = nv;
        }
    }
    // cut short by a crash: what was announced up to then is unchanged
    if total > 0 && s.observers > 0 && chance(1, 2) {
        let at = if !base.seen.is_empty() && chance(2, 3) {
            base.seen[below(base.seen.len())].at + 1
        } else {
            1 + draw(total)
        };
        let mut cut = None;
        let v0 = start(&mut cut, &s);
        let cut = cut.as_mut().unwrap();
        hooks(|h| {
            h.solver_calls = 0;
            h.count = 0;
            h.solver_plan = plan.clone();
            h.crash_at = Some(at);
        });
        let rec = cut.run(&p, v0)?;
        hooks(|h| h.crash_at = None);
        ev!("crash at {at}: {} with {} announcements", rec.out.kind(), rec.seen.len());
        ensure!(rec.out.kind() == "crashed", "swallowed", "a panic in user code was swallowed: {}", short(&rec.out));
        check_groups(&rec, s.observers, false)?;
        let upto = base.seen.iter().filter(|x| x.at < at).count();
        ensure!(
            rec.seen.len() == upto,
            "announced",
            "{} announcements before the crash, {} expected",
            rec.seen.len(),
            upto
        );
        for (a, b) in rec.seen.iter().zip(&base.seen) {
            let (a, b) = (seen_vals(a)?, seen_vals(b)?);
            ensure!(max_dist(&a, &b) <= 1e-9 || !finite(&b), "announced-other", "announcements before the crash differ");
        }
        probe("crash run");
    }
    // another observer joins before the next run
    if s.observers > 0 && !died && chance(1, 2) {
        let who = s.observers;
        ses.opt.observe(Watch { who, keys: keys_of(&p), log: ses.log.clone(), saved: None });
        hooks(|h| {
            h.solver_calls = 0;
            h.solver_plan.clear();
        });
        let v = values(&p, &x0, &vo);
        let rec = ses.run(&p, v)?;
        check_groups(&rec, who + 1, !matches!(rec.out, Out::Panicked(_)))?;
        probe("late observer");
    }
    Ok(())
}
