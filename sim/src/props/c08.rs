//! Optimizations sharing nothing, interleaved: on threads, step by step, and inside each other's callbacks.
use super::*;
use crate::gen;
use crate::glue::*;
use crate::sched;
use factrs::containers::Values;
use factrs::optimizers::{OptError, OptResult};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
struct Job {
    p: Problem,
    s: Setup,
    x0: Vec<MV>,
    fo: Vec<usize>,
    vo: Vec<usize>,
    world: u64,
    crash_at: Option<u64>,
    plan: Vec<(u64, SolverFault)>,
}
impl Job {
    fn new(twin: Option<&Job>) -> Job {
        let p = match twin {
            // same structure, other numbers: what a shared cache would confuse
            Some(j) if chance(1, 2) => {
                let mut p = j.p.clone();
                for v in &mut p.vars {
                    v.init = v.truth.oplus(&gen::tangent(v.truth.kind(), 0.2));
                }
                for f in &mut p.facs {
                    match &mut f.res {
                        Res::Prior(z) | Res::Between(z) => *z = z.oplus(&gen::tangent(z.kind(), 0.1)),
                        Res::Custom(c) => c.z.iter_mut().for_each(|x| *x += sym(0.1)),
                        _ => {}
                    }
                }
                p
            }
            _ => gen::some(&gen::Opts { max_vars: 4, ..gen::Opts::BENIGN }),
        };
        let mut s = Setup::new(chance(1, 2), pick(SOLVERS));
        s.wrap = true;
        s.observers = 1 + below(2);
        s.params = match draw(3) {
            0 => OptParams::default(),
            1 => fixed_steps(1 + below(4)),
            _ => some_params(),
        };
        if s.lm && chance(1, 3) {
            s.leven = Some(Leven { diagonal: chance(1, 2), factor: pick(&[10.0, 3.0]), ..Leven::default() });
        }
        let mut plan = vec![];
        if s.lm && chance(1, 4) {
            let k0 = 1 + draw(4);
            let n = if chance(1, 3) { 400 } else { 1 + draw(2) };
            plan.extend((k0..k0 + n).map(|k| (k, pick(&[SolverFault::Nan, SolverFault::Zero]))));
        }
        Job {
            x0: p.init(),
            fo: perm(p.facs.len()),
            vo: perm(p.vars.len()),
            world: draw(1 << 32),
            crash_at: if chance(1, 5) { Some(1 + draw(80)) } else { None },
            p,
            s,
            plan,
        }
    }
    /// Runs in its own hash world with its own fault plan (thread-local hooks must be free).
    fn run(&self, yields: bool) -> R<Rec> {
        let keep = hash_stream();
        set_hash_stream(self.world);
        reset_hooks();
        hooks(|h| {
            h.crash_at = self.crash_at;
            h.solver_plan = self.plan.clone();
            h.yields = yields;
        });
        let mut ses = Session::new(&self.p, &self.s, &self.fo);
        let r = ses.run(&self.p, values(&self.p, &self.x0, &self.vo));
        reset_hooks();
        restore_hash_stream(keep);
        r
    }
}
fn compare(what: &str, j: &Job, solo: &Rec, got: &Rec) -> R {
    match same("interference", "interference", what, solo, got, 1e-8) {
        Ok(()) => {
            // every observer heard the same story
            let a: Vec<(usize, f64)> = solo.seen.iter().map(|s| (s.who, s.time)).collect();
            let b: Vec<(usize, f64)> = got.seen.iter().map(|s| (s.who, s.time)).collect();
            ensure!(a == b, "interference-observers", "{what}: announcements differ");
            probe("compared with solo run");
            Ok(())
        }
        Err(v) => {
            // could rounding alone have sent the two runs apart?
            if solo.out.kind() != "crashed" && !decisive(&j.p, &j.s, &j.x0, solo, 1e7)? {
                probe("not decisive");
                return Ok(());
            }
            Err(v)
        }
    }
}
fn threads(jobs: &[Job]) -> R<Vec<Rec>> {
    let bodies: Vec<Box<dyn FnOnce() -> R<Rec> + Send>> = jobs
        .iter()
        .cloned()
        .map(|j| Box::new(move || j.run(true)) as Box<dyn FnOnce() -> R<Rec> + Send>)
        .collect();
    // how often a thread is stopped in the middle of library code (instrumented build only)
    let scale = pick(&[0u64, 30_000, 3_000, 300, 30]);
    let (out, sw, pre) = sched::run(bodies, scale);
    ev!("{sw} switches, {pre} preemptions");
    if sw > jobs.len() as u64 {
        fault("threads interleaved");
    }
    if pre > 0 {
        fault("threads preempted in library code");
    }
    out.into_iter()
        .map(|r| match r {
            Ok(r) => r,
            Err(p) if p.is::<Budget>() => viol!("no-progress", "a thread made no progress"),
            Err(_) => viol!("panic", "a thread died"),
        })
        .collect()
}
/// The optimize loop by hand, one step at a time, so that several can be interleaved on one thread.
struct Hand {
    ses: Session,
    hooks: Option<Hooks>,
    stream: u64,
    v: Option<Values>,
    old: f64,
    k: usize,
    out: Option<Out>,
}
fn stepwise(jobs: &[Job]) -> R<Vec<Rec>> {
    let mut hands: Vec<Hand> = Vec::new();
    for j in jobs {
        set_hash_stream(j.world);
        reset_hooks();
        let ses = Session::new(&j.p, &j.s, &j.fo);
        let v = values(&j.p, &j.x0, &j.vo);
        let h = Hooks { crash_at: j.crash_at, solver_plan: j.plan.clone(), ..Hooks::default() };
        hands.push(Hand { ses, hooks: Some(h), stream: hash_stream(), v: Some(v), old: f64::NAN, k: 0, out: None });
    }
    let mut order = String::new();
    let mut lastw = usize::MAX;
    loop {
        let live: Vec<usize> = (0..hands.len()).filter(|i| hands[*i].out.is_none()).collect();
        if live.is_empty() {
            break;
        }
        let w = live[below(live.len())];
        if w != lastw && lastw != usize::MAX {
            fault("steps interleaved");
        }
        lastw = w;
        order.push((b'a' + w as u8) as char);
        let (j, h) = (&jobs[w], &mut hands[w]);
        set_hash_stream(h.stream);
        hooks(|x| *x = h.hooks.take().unwrap());
        let (first, k) = (h.k == 0 && h.old.is_nan(), h.k);
        let prm = j.s.params.clone();
        let v = h.v.take().unwrap();
        let opt = &mut h.ses.opt;
        let old = h.old;
        let r: Ended<Result<(Values, f64, bool), OptResult<Values>>> = guard(|| {
            if first {
                opt.init(&v);
                let e = opt.error(&v);
                if lo(e) <= prm.error_tol {
                    return Err(Ok(v));
                }
                return Ok((v, e, true));
            }
            if k == prm.max_iterations {
                return Err(Err(OptError::MaxIterations(v)));
            }
            let v = match opt.step(v, k + 1) {
                Ok(v) => v,
                Err(e) => return Err(Err(e)),
            };
            let e = opt.error(&v);
            let (e, old) = (lo(e), lo(old));
            let d = old - e;
            if e <= prm.error_tol || d <= prm.error_tol_absolute || d / old <= prm.error_tol_relative {
                return Err(Ok(v));
            }
            Ok((v, hi(e), false))
        });
        h.hooks = Some(hooks(std::mem::take));
        h.stream = hash_stream();
        match r {
            Ended::Done(Ok((v, e, init))) => {
                h.v = Some(v);
                h.old = e;
                if !init {
                    h.k += 1;
                }
                if e.is_nan() {
                    // cannot be told from the start marker; give up on this run
                    h.out = Some(Out::Invalid);
                }
            }
            Ended::Done(Err(r)) => h.out = Some(outcome(&j.p, Ended::Done(r))?),
            Ended::Crashed => h.out = Some(Out::Crashed),
            Ended::Panicked(m) => h.out = Some(Out::Panicked(m)),
        }
    }
    reset_hooks();
    ev!("order {order}");
    Ok(hands.into_iter().map(|h| Rec { out: h.out.unwrap(), seen: h.ses.log.borrow().clone() }).collect())
}
/// Job 1 (and 2) run inside callbacks of job 0.
fn nested(jobs: &[Job]) -> R<Vec<Rec>> {
    let inner: Rc<RefCell<Vec<Option<R<Rec>>>>> = Rc::new(RefCell::new(vec![None; jobs.len()]));
    let j0 = &jobs[0];
    set_hash_stream(j0.world);
    reset_hooks();
    hooks(|h| {
        h.crash_at = j0.crash_at;
        h.solver_plan = j0.plan.clone();
    });
    for (i, j) in jobs.iter().enumerate().skip(1) {
        let at = 1 + draw(60);
        let (j, inner) = (j.clone(), inner.clone());
        let act: Action = Box::new(move || {
            fault("nested run");
            let saved = hooks(std::mem::take);
            let r = j.run(false);
            hooks(|h| *h = saved);
            inner.borrow_mut()[i] = Some(r);
        });
        hooks(|h| h.nested.push((at, act)));
        ev!("job {i} nested at callback {at}");
    }
    let mut ses = Session::new(&j0.p, &j0.s, &j0.fo);
    let r0 = ses.run(&j0.p, values(&j0.p, &j0.x0, &j0.vo))?;
    reset_hooks();
    let mut out = vec![r0];
    let got = inner.borrow_mut().drain(..).skip(1).collect::<Vec<_>>();
    for (i, g) in got.into_iter().enumerate() {
        out.push(match g {
            Some(r) => r?,
            None => jobs[i + 1].run(false)?,
        });
    }
    Ok(out)
}
pub fn run() -> R {
    let n = if chance(1, 25) { 4 + below(4) } else { 2 + below(2) };
    let mut jobs: Vec<Job> = vec![Job::new(None)];
    for i in 1..n {
        let j = Job::new(Some(&jobs[below(i)]));
        jobs.push(j);
    }
    for (i, j) in jobs.iter().enumerate() {
        ev!(
            "job {i}: lm {} {:?} crash {:?} faults {} {} {}",
            j.s.lm,
            j.s.solver,
            j.crash_at,
            j.plan.len(),
            fmt_params(&j.s.params),
            gen::describe(&j.p)
        );
    }
    let mode = draw(5);
    // alone, driven the same way
    let alone = |j: &Job| -> R<Rec> {
        if mode == 2 || mode == 3 {
            Ok(stepwise(std::slice::from_ref(j))?.remove(0))
        } else {
            j.run(false)
        }
    };
    let mut solo = Vec::new();
    for j in &jobs {
        let r = alone(j)?;
        if !matches!(r.out, Out::Crashed) && !r.iterates()?.iter().all(|x| finite(x)) {
            return Ok(());
        }
        solo.push(r);
    }
    let got = match mode {
        0 | 1 => threads(&jobs)?,
        2 | 3 => stepwise(&jobs)?,
        _ => nested(&jobs)?,
    };
    let how = ["on threads", "on threads", "step by step", "step by step", "nested"][mode as usize];
    for (i, (a, b)) in solo.iter().zip(&got).enumerate() {
        ev!("job {i}: alone {} {}, {how} {} {}", a.out.kind(), a.seen.len(), b.out.kind(), b.seen.len());
    }
    for (i, j) in jobs.iter().enumerate() {
        compare(&format!("job {i} {how}"), j, &solo[i], &got[i])?;
    }
    // and nothing lingers
    let i = below(n);
    let again = alone(&jobs[i])?;
    compare(&format!("job {i} alone again"), &jobs[i], &solo[i], &again)
}
