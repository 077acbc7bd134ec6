//! simcheck: seeded simulation of factrs under a simulator that owns scheduling, hash order, callbacks, the linear
//! solver's answers and file reads. See /verif/DESIGN.md.
#[macro_use]
mod core;
mod drive;
mod gen;
#[macro_use]
mod glue;
mod imu;
mod io;
mod model;
mod num;
mod props;
mod sched;

use crate::core::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static ALLOC: preempt::Alloc = preempt::Alloc;

pub struct Done {
    pub sim: Sim,
    pub viol: Option<Viol>,
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(base);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index)
}
/// One complete simulated run.
pub fn run_one(prop: &str, seed: u64, tape: Option<Vec<u64>>) -> Done {
    begin(seed, tape);
    let r = std::panic::catch_unwind(|| props::run(prop));
    glue::reset_hooks();
    let (_, _) = io::disarm();
    let viol = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(p) => {
            if p.is::<Budget>() {
                Some(Viol { class: "no-progress".into(), msg: "step budget exhausted".into() })
            } else {
                Some(Viol { class: "panic".into(), msg: format!("uncaught panic: {}", last_panic()) })
            }
        }
    };
    let sim = finish();
    Done { sim, viol }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn jtape(t: &[u64]) -> String {
    let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn jviol(v: &Viol) -> String {
    format!("{{\"class\":{},\"msg\":{}}}", esc(&v.class), esc(&v.msg))
}
fn jevents(s: &Sim, n: usize) -> String {
    let v: Vec<String> = s.events.iter().take(n).map(|e| esc(e)).collect();
    format!("[{}]", v.join(","))
}
fn read_tape(path: &str) -> Vec<u64> {
    let s = std::fs::read_to_string(path).expect("tape file");
    s.split_whitespace().map(|x| x.parse().expect("tape number")).collect()
}

/// worker PROP BASESEED START STRIDE COUNT SECONDS OUTDIR ID [known-class...]
fn worker(a: &[String]) {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (base, start, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let dir = &a[6];
    let id = &a[7];
    let known: Vec<(String, String)> = a[8..]
        .iter()
        .map(|k| {
            let (c, m) = k.split_once('|').unwrap_or((k, ""));
            (c.to_string(), m.to_string())
        })
        .collect();
    let t0 = Instant::now();
    let prog = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(format!("{dir}/progress.{id}"))
        .expect("progress file");
    let mut hashes = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/hashes.{id}")).expect("hash file"));
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<&'static str, f64> = BTreeMap::new();
    let (mut runs, mut nontrivial, mut events, mut ticks, mut draws) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut found = String::from("null");
    let mut i = start;
    while i < count {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            let _ = prog.write_at(&i.to_le_bytes(), 0);
        }
        let d = run_one(prop, run_seed(base, prop, i), None);
        runs += 1;
        if d.sim.nontrivial {
            nontrivial += 1;
        }
        events += d.sim.nevents;
        ticks += d.sim.total_ticks;
        draws += d.sim.tape.len() as u64;
        for (k, v) in &d.sim.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &d.sim.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in &d.sim.maxima {
            let e = maxima.entry(k).or_insert(0.0);
            if *v > *e || v.is_nan() {
                *e = *v;
            }
        }
        let _ = hashes.write_all(&i.to_le_bytes());
        let _ = hashes.write_all(&d.sim.ehash.to_le_bytes());
        let _ = hashes.write_all(&[d.sim.nontrivial as u8]);
        if samples.len() < 2 && d.sim.nontrivial {
            samples.push(format!("{{\"index\":{},\"events\":{}}}", i, jevents(&d.sim, 25)));
        }
        if let Some(v) = &d.viol {
            if let Some((c, m)) = known.iter().find(|(c, m)| *c == v.class && v.msg.contains(m.as_str())) {
                *knowns.entry(format!("{c}|{m}")).or_insert(0) += 1;
            } else {
                found = format!(
                    "{{\"index\":{},\"viol\":{},\"tape\":{},\"ehash\":\"{:016x}\"}}",
                    i,
                    jviol(v),
                    jtape(&d.sim.tape),
                    d.sim.ehash
                );
                break;
            }
        }
        i += stride;
    }
    let _ = hashes.flush();
    let mx: Vec<String> = maxima
        .iter()
        .map(|(k, v)| format!("{}:{}", esc(k), if v.is_finite() { format!("{v:e}") } else { "1e300".into() }))
        .collect();
    let kn: Vec<String> = knowns.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let out = format!(
        "{{\"runs\":{runs},\"nontrivial\":{nontrivial},\"events\":{events},\"ticks\":{ticks},\"draws\":{draws},\"wall\":{:.3},\"faults\":{},\"probes\":{},\"maxima\":{{{}}},\"samples\":[{}],\"known\":{{{}}},\"found\":{}}}",
        t0.elapsed().as_secs_f64(),
        jmap(&faults),
        jmap(&probes),
        mx.join(","),
        samples.join(","),
        kn.join(","),
        found
    );
    std::fs::write(format!("{dir}/result.{id}.tmp"), out).expect("result");
    std::fs::rename(format!("{dir}/result.{id}.tmp"), format!("{dir}/result.{id}")).expect("result");
}
/// one PROP TAPEFILE : run one tape, print the verdict as JSON on stderr-independent file OUT
fn one(a: &[String]) {
    let d = run_one(&a[0], 0, Some(read_tape(&a[1])));
    let v = d.viol.as_ref().map(jviol).unwrap_or("null".into());
    let out = format!(
        "{{\"viol\":{},\"ehash\":\"{:016x}\",\"events\":{},\"faults\":{}}}",
        v,
        d.sim.ehash,
        jevents(&d.sim, 400),
        jmap(&d.sim.faults)
    );
    std::fs::write(&a[2], out).expect("out");
}
/// seeds PROP BASE OUT INDEX... : run the given indices in this process in order, one line per run
fn seeds(a: &[String]) {
    let base: u64 = a[1].parse().expect("seed");
    let mut out = String::new();
    for i in &a[3..] {
        let i: u64 = i.parse().expect("index");
        let d = run_one(&a[0], run_seed(base, &a[0], i), None);
        out.push_str(&format!(
            "{{\"index\":{i},\"ehash\":\"{:016x}\",\"viol\":{}}}\n",
            d.sim.ehash,
            d.viol.as_ref().map(jviol).unwrap_or("null".into())
        ));
        if std::env::var("SIM_EVENTS").ok() == Some(i.to_string()) {
            d.sim.events.iter().for_each(|e| println!("{e}"));
        }
    }
    std::fs::write(&a[2], out).expect("out");
}
/// shrink PROP TAPEFILE CLASS SECONDS OUT
fn shrink(a: &[String]) {
    let prop = &a[0];
    let mut best = read_tape(&a[1]);
    let class = a[2].clone();
    let secs: u64 = a[3].parse().expect("seconds");
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut try_it = |t: &[u64]| -> Option<Vec<u64>> {
        tries += 1;
        let d = run_one(prop, 0, Some(t.to_vec()));
        match d.viol {
            Some(v) if v.class == class => {
                let mut t = d.sim.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    };
    let over = || t0.elapsed().as_secs() >= secs;
    fn cost(t: &[u64]) -> (usize, u64) {
        (t.iter().filter(|x| **x != 0).count() * 4 + t.len(), t.iter().map(|x| (*x).min(1 << 20)).sum())
    }
    if let Some(t) = try_it(&best.clone()) {
        best = t;
        let mut improved = true;
        while improved && !over() {
            improved = false;
            // zero or delete blocks
            let mut size = best.len().max(1).next_power_of_two();
            while size >= 1 && !over() {
                let mut pos = 0;
                while pos < best.len() && !over() {
                    let end = (pos + size).min(best.len());
                    let mut moved = false;
                    for del in [true, false] {
                        let mut c = best.clone();
                        if del {
                            c.drain(pos..end);
                        } else {
                            if c[pos..end].iter().all(|x| *x == 0) {
                                continue;
                            }
                            c[pos..end].iter_mut().for_each(|x| *x = 0);
                        }
                        if let Some(t) = try_it(&c) {
                            if cost(&t) < cost(&best) {
                                best = t;
                                improved = true;
                                moved = true;
                                break;
                            }
                        }
                    }
                    if !moved {
                        pos += size;
                    }
                }
                size /= 2;
            }
            // lower single values
            let mut pos = 0;
            while pos < best.len() && !over() {
                let v = best[pos];
                for w in [1, v / 2, v.saturating_sub(1)] {
                    if w < v && pos < best.len() {
                        let mut c = best.clone();
                        c[pos] = w;
                        if let Some(t) = try_it(&c) {
                            if cost(&t) < cost(&best) {
                                best = t;
                                improved = true;
                                break;
                            }
                        }
                    }
                }
                pos += 1;
            }
        }
    }
    let s: Vec<String> = best.iter().map(|x| x.to_string()).collect();
    std::fs::write(&a[4], format!("{}\n{}", tries, s.join(" "))).expect("out");
}
fn main() {
    install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a[2..]),
        Some("one") => one(&a[2..]),
        Some("seeds") => seeds(&a[2..]),
        Some("shrink") => shrink(&a[2..]),
        Some("show") => {
            // show PROP BASE INDEX : run one seed verbosely
            let i: u64 = a[4].parse().expect("index");
            let base: u64 = a[3].parse().expect("seed");
            let d = run_one(&a[2], run_seed(base, &a[2], i), None);
            for e in &d.sim.events {
                eprintln!("{e}");
            }
            eprintln!("viol {:?}", d.viol);
            eprintln!("maxima {:?}", d.sim.maxima);
        }
        Some("time") => {
            // time PROP BASE N : throughput and slowest runs
            let base: u64 = a[3].parse().expect("seed");
            let n: u64 = a[4].parse().expect("n");
            let t0 = Instant::now();
            let mut slow: Vec<(u128, u64)> = Vec::new();
            let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut maxima: BTreeMap<&'static str, (f64, u64)> = BTreeMap::new();
            let mut viols: BTreeMap<String, (u64, Vec<u64>, String)> = BTreeMap::new();
            let mut nt = 0;
            for i in 0..n {
                let t = Instant::now();
                let d = run_one(&a[2], run_seed(base, &a[2], i), None);
                slow.push((t.elapsed().as_micros(), i));
                nt += d.sim.nontrivial as u64;
                for (k, v) in &d.sim.probes {
                    *probes.entry(k).or_insert(0) += v;
                }
                for (k, v) in &d.sim.faults {
                    *faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &d.sim.maxima {
                    let e = maxima.entry(k).or_insert((0.0, 0));
                    if *v > e.0 || v.is_nan() {
                        *e = (*v, i);
                    }
                }
                if let Some(v) = d.viol {
                    let e = viols.entry(v.class.clone()).or_insert((0, vec![], v.msg.clone()));
                    e.0 += 1;
                    if e.1.len() < 5 {
                        e.1.push(i);
                    }
                }
            }
            slow.sort();
            slow.reverse();
            eprintln!("{n} runs in {:.1}s, nontrivial {nt}; slowest {:?}", t0.elapsed().as_secs_f64(), &slow[..slow.len().min(4)]);
            eprintln!("probes {probes:?}\nfaults {faults:?}\nmaxima {maxima:?}");
            for (k, v) in viols {
                eprintln!("VIOL {k}: {} at {:?}: {}", v.0, v.1, v.2);
            }
        }
        _ => {
            eprintln!("usage: simcheck worker|one|seeds|shrink|show|time ...");
            std::process::exit(2);
        }
    }
}
