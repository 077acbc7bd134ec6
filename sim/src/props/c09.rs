//! Pose-graph files: loading through a disk that splits, interrupts, fails or truncates reads (C09), and the meaning of
//! what was loaded (C10).
use super::*;
use crate::gen;
use crate::glue::*;
use crate::io;
use factrs::containers::{Graph, Values, ValuesOrder};
use factrs::linalg::VectorX;
use factrs::linear::LinearValues;
use factrs::utils::load_g20;
use nalgebra::{DMatrix, DVector};

fn scratch() -> String {
    let d = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    format!("{d}/simcheck.{}.g2o", std::process::id())
}
struct Cleanup(Vec<String>);
impl Drop for Cleanup {
    fn drop(&mut self) {
        for f in &self.0 {
            let _ = std::fs::remove_file(f);
        }
    }
}

// ------------------------------------------------------------------------------------------------ meaning
/// What a file means.
#[derive(Clone, Debug)]
pub struct Meaning {
    /// last pose given for each vertex, in order of first appearance
    pub verts: Vec<(u64, MV)>,
    /// the first vertex and the poses given for it
    pub first: Option<(u64, Vec<MV>)>,
    pub edges: Vec<(u64, u64, MV, DMatrix<f64>)>,
    /// how far the written quaternions are from unit length: what the file means is only known up to that
    pub slack: f64,
}
/// The reference parser. Err: some record is unreadable, so loading has to fail. The flag says that something is in
/// there whose treatment is not specified (odd spacing, extra fields, a pose of two dimensions): then loading may also fail.
pub fn parse(bytes: &[u8]) -> (Result<Meaning, String>, bool) {
    let mut m = Meaning { verts: vec![], first: None, edges: vec![], slack: tol(0.0, 2e-6) };
    let mut odd = false;
    let Ok(text) = std::str::from_utf8(bytes) else { return (Err("not text".into()), true) };
    // poses are of one dimension throughout
    let mut kinds: std::collections::BTreeMap<u64, bool> = Default::default();
    for line in text.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        let f: Vec<&str> = line.split(' ').collect();
        let (ids, nums, is3) = match f[0] {
            "VERTEX_SE2" => (1, 3, false),
            "EDGE_SE2" => (2, 9, false),
            "VERTEX_SE3:QUAT" => (1, 7, true),
            "EDGE_SE3:QUAT" => (2, 28, true),
            t => {
                if t.trim().starts_with("VERTEX_SE") || t.trim().starts_with("EDGE_SE") {
                    odd = true; // torn tag, tab after the tag
                }
                if line.trim_start().starts_with("VERTEX_SE") || line.trim_start().starts_with("EDGE_SE") {
                    odd = true;
                }
                continue;
            }
        };
        if f.len() > 1 + ids + nums {
            odd = true;
        }
        let mut id = Vec::new();
        for k in 0..ids {
            match f.get(1 + k).and_then(|x| x.parse::<u64>().ok()) {
                Some(x) => {
                    if x >= 1 << 32 {
                        odd = true;
                    }
                    id.push(x)
                }
                None => return (Err(format!("id in {line:?}")), odd),
            }
        }
        for i in &id {
            if *kinds.entry(*i).or_insert(is3) != is3 {
                odd = true;
            }
        }
        let mut x = Vec::new();
        for k in 0..nums {
            match f.get(1 + ids + k).and_then(|x| x.parse::<f64>().ok()) {
                Some(v) => {
                    if !v.is_finite() {
                        odd = true;
                    }
                    x.push(v)
                }
                None => return (Err(format!("number in {line:?}")), odd),
            }
        }
        let pose = if is3 {
            let n = (x[3] * x[3] + x[4] * x[4] + x[5] * x[5] + x[6] * x[6]).sqrt();
            if !((n - 1.0).abs() < 1e-4) {
                odd = true;
            } else if (n - 1.0).abs() > 1e-15 {
                m.slack = m.slack.max((n - 1.0).abs());
            }
            MV::SE3([x[3], x[4], x[5], x[6]], [x[0], x[1], x[2]])
        } else {
            MV::SE2(x[2].cos(), x[2].sin(), x[0], x[1])
        };
        if ids == 1 {
            match &mut m.first {
                None => m.first = Some((id[0], vec![pose.clone()])),
                Some((v, ps)) if *v == id[0] => ps.push(pose.clone()),
                _ => {}
            }
            match m.verts.iter_mut().find(|v| v.0 == id[0]) {
                Some(v) => v.1 = pose,
                None => m.verts.push((id[0], pose)),
            }
        } else {
            // upper triangle, translation first; ours is rotation first
            let (n, t, off) = if is3 { (6, 3, 7) } else { (3, 2, 3) };
            let mut inf = DMatrix::zeros(n, n);
            let mut k = off;
            for r in 0..n {
                for c in r..n {
                    inf[(r, c)] = x[k];
                    inf[(c, r)] = x[k];
                    k += 1;
                }
            }
            let rot = n - t;
            let old = |i: usize| if i < rot { t + i } else { i - rot };
            let inf = DMatrix::from_fn(n, n, |r, c| inf[(old(r), old(c))]);
            if inf.clone().cholesky().is_none() || cond(&inf) > 1e7 {
                odd = true;
            }
            m.edges.push((id[0], id[1], pose, inf));
        }
    }
    (Ok(m), odd)
}
impl Meaning {
    fn problem(&self, prior: &MV) -> Problem {
        let mut p = Problem { vars: vec![], facs: vec![] };
        let mut at = |id: u64, pose: &MV, vars: &mut Vec<Var>| -> usize {
            match vars.iter().position(|v| v.idx == id) {
                Some(i) => i,
                None => {
                    vars.push(Var { chr: 'x', idx: id, init: pose.clone(), truth: pose.clone() });
                    vars.len() - 1
                }
            }
        };
        for (id, pose) in &self.verts {
            at(*id, pose, &mut p.vars);
        }
        if let Some((id, _)) = &self.first {
            let i = at(*id, prior, &mut p.vars);
            let noise = if prior.kind() == Kind::SE3 {
                Noise::DiagCovs(vec![1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4])
            } else {
                Noise::Unit
            };
            p.facs.push(Fac { keys: vec![i], res: Res::Prior(prior.clone()), noise, rob: Rob::L2, default_rob: true, built: Built::Unchecked });
        }
        for (a, b, z, inf) in &self.edges {
            let i = at(*a, &MV::identity(z.kind()), &mut p.vars);
            let j = at(*b, &MV::identity(z.kind()), &mut p.vars);
            p.facs.push(Fac {
                keys: vec![i, j],
                res: Res::Between(z.clone()),
                noise: Noise::MatInf(inf.clone()),
                rob: Rob::L2,
                default_rob: true,
                built: Built::Unchecked,
            });
        }
        p
    }
}
/// Is the loaded graph the file's meaning? Checked through values, sizes, costs and linearised costs.
fn check_loaded(m: &Meaning, g: &Graph, v: &Values) -> R {
    ensure!(v.len() == m.verts.len(), "vertices", "{} poses loaded, the file has {}", v.len(), m.verts.len());
    for (id, pose) in &m.verts {
        match read(v, key('x', *id), pose.kind()) {
            None => viol!("vertices", "vertex {id} is missing"),
            Some(got) => {
                let d = got.dist(pose);
                ensure!(within("vertex", d, 1e-12 * (1.0 + mag(pose)) + 10.0 * m.slack), "vertex", "vertex {id} is off by {d:e}");
            }
        }
    }
    let want = m.edges.len() + m.first.is_some() as usize;
    ensure!(g.len() == want, "factors", "{} factors loaded, {want} expected", g.len());
    // the prior may be at any pose the file gives for the first vertex
    let priors = m.first.as_ref().map(|f| f.1.clone()).unwrap_or_else(|| vec![MV::identity(Kind::SE2)]);
    let p0 = m.problem(&priors[0]);
    if p0.vars.is_empty() {
        return Ok(());
    }
    // quaternions written with few digits: the square root of the cost is known up to this
    let size = m.verts.iter().map(|v| &v.1).chain(m.edges.iter().map(|e| &e.2)).chain(&priors).fold(1.0, |a: f64, z| a.max(mag(z)));
    let weight = m.edges.iter().map(|e| e.3.trace()).sum::<f64>() + 4e6;
    let slack = 50.0 * m.slack * size * weight.sqrt();
    // with the first pose where its prior wants it, the edges are all there is, however weak
    let noise = 1e-28 * size * size * weight;
    let agree = |what: &'static str, got: f64, want: f64, tol: f64, pinned: bool| {
        let d = if pinned { (got - want).abs() / (noise / tol + got.abs().max(want.abs())) } else { rel(got, want) };
        m.slack > 0.0 && (got.sqrt() - want.sqrt()).abs() <= slack || within(what, d, tol)
    };
    for probe_n in 0..4 {
        let pinned = probe_n == 3;
        let x: Vec<MV> = p0
            .vars
            .iter()
            .map(|w| match probe_n {
                0 => w.init.clone(),
                3 if m.first.as_ref().is_some_and(|f| f.0 == w.idx) => priors[0].clone(),
                1 | 3 => w.init.oplus(&gen::tangent(w.init.kind(), 0.3)),
                _ => gen::value(w.init.kind(), 1.2),
            })
            .collect();
        let vals = values(&p0, &x, &identity(p0.vars.len()));
        let got = hi(guard(|| g.error(&vals)).must("cost of the loaded graph")?);
        if p0.near_pi(&x) {
            continue;
        }
        let lg = guard(|| g.linearize(&vals)).must("linearisation of the loaded graph")?;
        let order = ValuesOrder::from_values(&vals);
        let mut best: Option<Viol> = None;
        let inc: Vec<Vec<f64>> = p0.vars.iter().map(|w| gen::tangent(w.init.kind(), 0.5)).collect();
        let mut ok = false;
        for z in &priors {
            let p = m.problem(z);
            if p.near_pi(&x) {
                ok = true;
                break;
            }
            let want = p.error(&x);
            if !agree(if pinned { "cost of the edges" } else { "cost" }, got, want, 1e-6, pinned) {
                let old = best.map(|b: Viol| format!(" or: {}", b.msg)).unwrap_or_default();
                best = Some(Viol { class: "cost".into(), msg: format!("cost {got:e}, the file says {want:e}{old}") });
                continue;
            }
            let mut real = VectorX::zeros(order.dim());
            for (i, w) in p.vars.iter().enumerate() {
                let Some(ix) = order.get(vkey(w)) else { viol!("layout", "pose missing in the layout") };
                for c in 0..ix.dim {
                    real[ix.idx + c] = lo(inc[i][c]);
                }
            }
            let got = hi(guard(|| lg.error(&LinearValues::from_order_and_vector(order.clone(), real))).must("linear cost")?);
            let want = p.linear_cost(&x, &inc);
            if !agree("linear cost", got, want, 1e-5, false) {
                best = Some(Viol {
                    class: "linear-cost".into(),
                    msg: format!("linearised cost {got:e}, the file says {want:e}"),
                });
                continue;
            }
            ok = true;
            break;
        }
        if !ok {
            if let Some(v) = best {
                return Err(v);
            }
        }
        probe("loaded graph compared");
    }
    Ok(())
}
fn mag(m: &MV) -> f64 {
    m.embed().iter().fold(0.0, |a, b| a.max(b.abs()))
}

// ------------------------------------------------------------------------------------------------ files
fn number(x: f64) -> String {
    match draw(6) {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        2 => format!("{x:E}"),
        3 => {
            if x.is_sign_positive() {
                format!("+{x}")
            } else {
                format!("{x}")
            }
        }
        4 if chance(1, 300) => format!("{x:.17}{}", "0".repeat(1 + below(5000))),
        4 => format!("{x:.17}"),
        _ => format!("{x:?}"),
    }
}
fn rounded(x: f64) -> f64 {
    match draw(3) {
        0 => (x * 1e4).round() / 1e4,
        _ => x,
    }
}
struct Spec {
    text: Vec<u8>,
}
fn info(n: usize, t: usize) -> (Vec<f64>, DMatrix<f64>) {
    // in file order: translation first
    let scale = if chance(1, 20) { 1e-10 } else { pick(&[1.0, 1.0, 100.0, 0.05]) };
    let mut a = match draw(3) {
        0 => DMatrix::from_diagonal(&DVector::from_fn(n, |i, _| if i < t { 10.0 + i as f64 } else { 400.0 + i as f64 })),
        _ => gen::spd(n) * scale,
    };
    for r in 0..n {
        for c in r..n {
            a[(c, r)] = a[(r, c)];
        }
    }
    let mut up = Vec::new();
    for r in 0..n {
        for c in r..n {
            up.push(a[(r, c)]);
        }
    }
    (up, a)
}
/// Some writers print six digits: the quaternion is then a little off unit length.
fn digits(q: [f64; 4]) -> [f64; 4] {
    if chance(1, 12) {
        q.map(|x| (x * 1e6).round() / 1e6)
    } else {
        q
    }
}
fn vertex_line(three: bool, id: u64) -> String {
    let far = pick(&[10.0, 10.0, 10.0, 10.0, 10.0, 1e3, 1e5]);
    if three {
        let MV::SE3(q, t) = gen::value(Kind::SE3, pick(&[1.2, 3.0, 1e-4])) else { panic!() };
        let s = if chance(1, 3) { -1.0 } else { 1.0 };
        let mut l = format!("VERTEX_SE3:QUAT {id}");
        for x in t {
            l += &format!(" {}", number(rounded(x * far)));
        }
        for x in digits(q) {
            l += &format!(" {}", number(s * x));
        }
        l
    } else {
        let th = sym(pick(&[3.0, 0.1, 7.0]));
        format!("VERTEX_SE2 {id} {} {} {}", number(rounded(sym(2.0 * far))), number(rounded(sym(2.0 * far))), number(rounded(th)))
    }
}
fn edge_line(three: bool, a: u64, b: u64) -> String {
    let mut l;
    let up;
    if three {
        let MV::SE3(q, t) = gen::value(Kind::SE3, 1.2) else { panic!() };
        let s = if chance(1, 4) { -1.0 } else { 1.0 };
        l = format!("EDGE_SE3:QUAT {a} {b}");
        for x in t {
            l += &format!(" {}", number(rounded(x)));
        }
        for x in digits(q) {
            l += &format!(" {}", number(s * x));
        }
        up = info(6, 3).0;
    } else {
        l = format!("EDGE_SE2 {a} {b} {} {} {}", number(rounded(sym(3.0))), number(rounded(sym(3.0))), number(sym(3.0)));
        up = info(3, 2).0;
    }
    for x in up {
        l += &format!(" {}", number(x));
    }
    l
}
fn file(max: usize, allow_redefine: bool) -> Spec {
    let three = chance(1, 2);
    let n = if chance(1, 40) { 60 + below(60) } else { below(max + 1) };
    let ids: Vec<u64> = match draw(6) {
        0 | 1 => (0..n as u64).collect(),
        2 => {
            let p = perm(n);
            p.iter().map(|i| *i as u64 * 7 + 3).collect()
        }
        3 => {
            // ids of several sessions, robots or days
            let base = pick(&[1u64 << 24, 1 << 31, 65_530, 250, 1_000_000_007, (1 << 16) * 255]);
            let step = pick(&[1u64, 2, 256, 65_536]);
            (0..n as u64).map(|i| base + i * step).collect()
        }
        4 => {
            let p = perm(n);
            p.iter().map(|i| if i % 2 == 0 { *i as u64 } else { (1u64 << (8 + i % 23)) + *i as u64 }).collect()
        }
        _ => (0..n as u64).map(|i| (1u64 << 32) - 1 - i * 3).collect(),
    };
    let mut lines: Vec<String> = ids.iter().map(|i| vertex_line(three, *i)).collect();
    if n > 0 {
        for k in 1..n {
            let j = if chance(1, 4) { below(k) } else { k - 1 };
            let (a, b) = if chance(1, 4) { (ids[k], ids[j]) } else { (ids[j], ids[k]) };
            lines.push(edge_line(three, a, b));
        }
        if allow_redefine && chance(1, 4) {
            lines.push(vertex_line(three, ids[below(n)]));
        }
        if chance(1, 6) && n > 1 {
            // several edges between the same poses, in either direction; some of them equal
            let (a, b) = (ids[0], ids[1 + below(n - 1)]);
            for _ in 0..1 + below(3) {
                let (a, b) = if chance(1, 2) { (a, b) } else { (b, a) };
                let l = edge_line(three, a, b);
                if chance(1, 3) {
                    lines.push(l.clone());
                }
                lines.push(l);
            }
        }
        if chance(1, 12) {
            // an edge from a pose to itself
            let a = ids[below(n)];
            lines.push(edge_line(three, a, a));
        }
        if chance(1, 8) {
            lines.push(edge_line(three, ids[0], ids[n - 1].wrapping_add(1) % (1 << 32)));
        }
    }
    if n > 0 && chance(1, 12) {
        // poses of the other dimension in the same file, apart from the rest
        let other: Vec<u64> = (0..1 + below(3) as u64).map(|i| 40_000 + i).collect();
        let at = below(lines.len() + 1);
        let mut l: Vec<String> = other.iter().map(|i| vertex_line(!three, *i)).collect();
        for w in other.windows(2) {
            l.push(edge_line(!three, w[0], w[1]));
        }
        lines.splice(at..at, l);
    }
    if chance(1, 2) {
        let junk = ["# comment", "", "FIX 0", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "VERTEX_XY 3 1 2", "EDGE_XY 1 2 3", "x"];
        for _ in 0..1 + below(3) {
            let at = below(lines.len() + 1);
            lines.insert(at, junk[below(junk.len())].to_string());
        }
    }
    if chance(1, 4) {
        // any record order
        let p = perm(lines.len());
        lines = p.iter().map(|i| lines[*i].clone()).collect();
    }
    if chance(1, 300) {
        bulk(&mut lines, three);
    }
    let end = if chance(1, 4) { "\r\n" } else { "\n" };
    let mut text = lines.join(end);
    if !chance(1, 3) && !lines.is_empty() {
        text += end;
    }
    Spec { text: text.into_bytes() }
}
/// Files far beyond any buffer: long runs of records or of lines to ignore, before, between or after the rest.
fn bulk(lines: &mut Vec<String>, three: bool) {
    let at = below(lines.len() + 1);
    let more: Vec<String> = match draw(3) {
        0 => {
            let l = "# ".to_string() + &"-".repeat(1 + below(4000));
            vec![l; 1 + below(600)]
        }
        1 => vec!["# x".to_string(); 1 + below(20_000)],
        _ => {
            let n = 100 + below(1500) as u64;
            let base = 50_000 + draw(1000);
            let v = |i: u64| {
                let (x, y) = (i as f64 * 0.25, (i % 7) as f64);
                if three {
                    format!("VERTEX_SE3:QUAT {} {x} {y} 0.5 0 0 0.6 0.8", base + i)
                } else {
                    format!("VERTEX_SE2 {} {x} {y} 0.125", base + i)
                }
            };
            let e = |i: u64| {
                if three {
                    format!("EDGE_SE3:QUAT {} {} 0.25 {} 0 0 0 0 1 1 0 0 0 0 0 2 0 0 0 0 3 0 0 0 4 0 0 5 0 6", base + i, base + i + 1, (i % 5) as f64)
                } else {
                    format!("EDGE_SE2 {} {} 0.25 {} 0 1 0 0 2 0 3", base + i, base + i + 1, (i % 5) as f64)
                }
            };
            let mut l: Vec<String> = (0..n).map(v).collect();
            if chance(1, 2) {
                l.extend((0..n - 1).map(e));
            }
            l
        }
    };
    ev!("bulk of {} lines at {at}", more.len());
    lines.splice(at..at, more);
}
fn load(path: &str, plan: io::Plan) -> (Ended<(Graph, Values)>, io::Stats, bool) {
    io::arm(path, plan);
    let r = guard(|| load_g20(path));
    let (stats, open) = io::disarm();
    (r, stats, open)
}

// ------------------------------------------------------------------------------------------------ C10
pub fn run_c10() -> R {
    let path = scratch();
    let _c = Cleanup(vec![path.clone()]);
    let mut text = file(7, true).text;
    let mut damage = "none";
    match draw(6) {
        0 | 1 | 2 => {}
        3 | 4 => {
            // torn: everything after some byte is lost
            if !text.is_empty() {
                let at = below(text.len());
                text.truncate(at);
                damage = "truncated";
                fault("file truncated");
            }
        }
        _ => {
            let mut lines: Vec<String> =
                String::from_utf8_lossy(&text).split('\n').map(|s| s.to_string()).collect();
            let recs: Vec<usize> =
                (0..lines.len()).filter(|i| lines[*i].starts_with("VERTEX_SE") || lines[*i].starts_with("EDGE_SE")).collect();
            if !recs.is_empty() {
                let i = recs[below(recs.len())];
                let mut f: Vec<String> = lines[i].trim_end_matches('\r').split(' ').map(|s| s.to_string()).collect();
                let k = 1 + below(f.len() - 1);
                match draw(4) {
                    0 => {
                        f.remove(k);
                        fault("field missing");
                    }
                    1 => {
                        f[k] = pick(&["x", "1,5", "--1", "", "0x10", "1e"]).to_string();
                        fault("field unreadable");
                    }
                    2 => {
                        f.truncate(k);
                        fault("record cut short");
                    }
                    _ => {
                        f[1] = pick(&["-1", "1.5", "a"]).to_string();
                        fault("id unreadable");
                    }
                }
                lines[i] = f.join(" ");
                text = lines.join("\n").into_bytes();
                damage = "damaged record";
            }
        }
    }
    ev!("file of {} bytes, damage {damage}:", text.len());
    let shown: String = String::from_utf8_lossy(&text).replace('\n', "|").chars().take(4000).collect();
    ev!("{shown}");
    // truncation either on disk or by the file ending early
    let mut plan = io::Plan::default();
    let (want, odd) = parse(&text);
    if damage == "truncated" && chance(1, 2) {
        let mut long = text.clone();
        long.extend_from_slice(b"000 00 EDGE_SE2 0 1 2 3\nVERTEX_SE2 77 0 0 0\n");
        std::fs::write(&path, &long).expect("scratch file");
        plan.eof_at = Some(text.len());
    } else {
        std::fs::write(&path, &text).expect("scratch file");
    }
    if chance(1, 3) {
        plan.chunk = 1 + below(200);
        plan.jitter = true;
    }
    let (r, stats, _) = load(&path, plan);
    ev!("loading {} after {} reads", r.kind(), stats.reads);
    if damage != "none" || text.len() > 50 {
        nontrivial();
    }
    match (want, r) {
        (Ok(m), Ended::Done((g, v))) => {
            if odd && damage != "none" {
                // a torn record may still read as a record; if accepted it must mean that
                probe("accepted a readable torn file");
            }
            check_loaded_or_odd(&m, &g, &v, odd)
        }
        (Ok(_), Ended::Panicked(e)) => {
            if odd || damage == "truncated" {
                probe("refused");
                return Ok(());
            }
            viol!("refused", "a well-formed file was refused: {e}")
        }
        (Err(e), Ended::Done((g, v))) => {
            if odd && e == "not text" {
                return Ok(());
            }
            viol!("accepted", "a file with an unreadable record ({e}) was loaded: {} factors, {} poses", g.len(), v.len())
        }
        (Err(_), _) => {
            probe("refused as it must");
            Ok(())
        }
        (_, Ended::Crashed) => viol!("harness", "crash"),
    }
}
fn check_loaded_or_odd(m: &Meaning, g: &Graph, v: &Values, odd: bool) -> R {
    if odd {
        return Ok(());
    }
    check_loaded(m, g, v)
}

// ------------------------------------------------------------------------------------------------ C09
pub fn run_c09() -> R {
    let base = scratch();
    let paths = [base.clone(), format!("{base}.b")];
    let _c = Cleanup(paths.to_vec());
    let mut means = Vec::new();
    let mut lens = Vec::new();
    for p in &paths {
        let f = file(8, false);
        std::fs::write(p, &f.text).expect("scratch file");
        let (m, odd) = parse(&f.text);
        if odd {
            return Ok(()); // generator slipped into unspecified territory
        }
        match m {
            Ok(m) => means.push(m),
            Err(e) => viol!("harness", "generated file unreadable: {e}"),
        }
        lens.push(f.text.len());
    }
    for k in 0..2 + below(4) {
        let w = below(2);
        let len = lens[w];
        let mut plan = io::Plan::default();
        if chance(2, 3) {
            plan.chunk = pick(&[1, 2, 7, 33, 100, 1000]);
            plan.jitter = chance(1, 2);
        }
        if chance(1, 3) {
            plan.eintr = 2 + draw(4);
        }
        let missing = chance(1, 12);
        let path = if missing { format!("{}.none", paths[w]) } else { paths[w].clone() };
        match draw(5) {
            0 | 1 => {}
            2 => plan.open_err = Some(pick(&[libc::EMFILE, libc::EACCES, libc::EIO, libc::ENOENT, libc::ENOMEM])),
            _ => {
                let at = match draw(4) {
                    0 => len, // the read that would have found the end
                    1 => 0,
                    _ => below(len + 1),
                };
                plan.err_at = Some((at, pick(&[libc::EIO, libc::ENOMEM, libc::EAGAIN, libc::ESTALE, libc::EISDIR])));
                plan.err_once = chance(1, 2);
            }
        }
        ev!("load {k} of file {w} ({len} bytes): {plan:?} missing {missing}");
        let fail_open = missing || plan.open_err.is_some();
        if fail_open {
            fault(if missing { "file missing" } else { "open fails" });
        }
        let split = plan.chunk > 0;
        set_tick_limit(2_000_000);
        let (r, stats, open) = load(&path, plan);
        ev!("-> {} {} reads {} errors {} bytes", r.kind(), stats.reads, stats.errors, stats.delivered);
        if split && stats.shorts > 0 {
            fault("short reads");
        }
        nontrivial();
        ensure!(!open, "left-open", "the file was left open");
        let failed = fail_open || stats.errors > 0;
        match r {
            Ended::Done((g, v)) => {
                ensure!(
                    !failed,
                    "partial",
                    "a load whose {} failed returned a graph of {} factors and {} poses",
                    if fail_open { "open" } else { "read" },
                    g.len(),
                    v.len()
                );
                ensure!(
                    stats.delivered >= len,
                    "partial",
                    "a graph was returned after reading {} of {len} bytes",
                    stats.delivered
                );
                check_loaded(&means[w], &g, &v)?;
                probe("complete load");
            }
            Ended::Panicked(e) => {
                ensure!(failed, "refused", "an intact file was refused: {e}");
                probe("loud failure");
            }
            Ended::Crashed => viol!("harness", "crash"),
        }
    }
    Ok(())
}
