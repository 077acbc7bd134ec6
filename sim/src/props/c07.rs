//! Sessions of linear systems on one solver instance, with unsolvable systems in between.
use super::*;
use crate::glue::*;
use factrs::linear::LinearSolver;
use faer::sparse::SparseColMat;
use nalgebra::{DMatrix, DVector};
use std::collections::BTreeSet;

type Pattern = BTreeSet<(usize, usize)>;

/// Random sparsity of a tall matrix in which every column has its own row (so that full rank is possible).
pub fn tall_pattern(m: usize, n: usize, extra: usize) -> Pattern {
    let mut p: Pattern = (0..n).map(|i| (i, i)).collect();
    for _ in 0..extra {
        p.insert((below(m), below(n)));
    }
    p
}
pub fn sym_pattern(n: usize, extra: usize) -> Pattern {
    let mut p: Pattern = (0..n).map(|i| (i, i)).collect();
    for _ in 0..extra {
        let (a, b) = (below(n), below(n));
        p.insert((a, b));
        p.insert((b, a));
    }
    p
}
pub fn tall_values(m: usize, n: usize, p: &Pattern) -> DMatrix<f64> {
    let mut a = DMatrix::zeros(m, n);
    for (i, j) in p {
        a[(*i, *j)] = if i == j { pick(&[1.0, -1.0]) * range(0.5, 3.0) } else { sym(0.8) };
    }
    a * pick(&[1.0, 1.0, 1.0, 1e-3, 1e3])
}
pub fn sym_values(n: usize, p: &Pattern) -> DMatrix<f64> {
    let mut a = DMatrix::zeros(n, n);
    for (i, j) in p {
        if i < j {
            let v = sym(1.0);
            a[(*i, *j)] = v;
            a[(*j, *i)] = v;
        }
    }
    // diagonally dominant, hence positive definite
    let scale = pick(&[1.0, 1.0, 1e-3, 1e4]);
    for i in 0..n {
        let s: f64 = (0..n).filter(|j| *j != i).map(|j| a[(i, j)].abs()).sum();
        a[(i, i)] = s + range(0.2, 2.0);
    }
    a * scale
}
pub fn sparse(a: &DMatrix<f64>, p: &Pattern) -> SparseColMat<usize, f64> {
    // entries in random order, structural zeros of the pattern kept
    let e: Vec<(usize, usize)> = p.iter().copied().collect();
    if chance(1, 10) {
        return loose(a, p);
    }
    let t: Vec<(usize, usize, f64)> = e.iter().map(|(i, j)| (*i, *j, a[(*i, *j)])).collect();
    SparseColMat::try_new_from_triplets(a.nrows(), a.ncols(), &t).expect("harness: sparse matrix")
}
/// The same matrix in the storage with gaps between the columns.
fn loose(a: &DMatrix<f64>, p: &Pattern) -> SparseColMat<usize, f64> {
    probe("storage with gaps");
    let mut cols: Vec<Vec<usize>> = vec![Vec::new(); a.ncols()];
    for (i, j) in p {
        cols[*j].push(*i);
    }
    let (mut ptr, mut nnz, mut rows, mut val) = (vec![0], vec![], vec![], vec![]);
    for (j, c) in cols.iter_mut().enumerate() {
        c.sort_unstable();
        nnz.push(c.len());
        for i in c.iter() {
            rows.push(*i);
            val.push(a[(*i, j)]);
        }
        for _ in 0..below(3) {
            rows.push(0);
            val.push(7.0);
        }
        ptr.push(rows.len());
    }
    let s = faer::sparse::SymbolicSparseColMat::new_checked(a.nrows(), a.ncols(), ptr, Some(nnz), rows);
    SparseColMat::new(s, val)
}
/// The same row indices read column by column, with the borders between columns elsewhere.
fn other_borders(n: usize, p: &Pattern) -> Pattern {
    let mut cols: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (i, j) in p {
        cols[*j].push(*i);
    }
    cols.iter_mut().for_each(|c| c.sort_unstable());
    for _ in 0..1 + below(3) {
        for j in perm(n.saturating_sub(1)) {
            let (a, b) = (cols[j].last().copied(), cols[j + 1].first().copied());
            if let (Some(a), Some(b)) = (a, b) {
                if a < b && cols[j + 1].len() > 1 && chance(1, 2) {
                    cols[j].push(b);
                    cols[j + 1].remove(0);
                    break;
                } else if a < b && cols[j].len() > 1 {
                    cols[j + 1].insert(0, a);
                    cols[j].pop();
                    break;
                }
            }
        }
    }
    cols.iter().enumerate().flat_map(|(j, c)| c.iter().map(move |i| (*i, j))).collect()
}
/// As many entries in every column, in other rows.
fn other_rows(m: usize, n: usize, p: &Pattern, symmetric: bool) -> Pattern {
    let deg = |k: usize| p.iter().filter(|(_, j)| *j == k).count();
    if symmetric {
        let i = below(n);
        let like: Vec<usize> = (0..n).filter(|j| *j != i && deg(*j) == deg(i)).collect();
        if like.is_empty() {
            return p.clone();
        }
        let j = like[below(like.len())];
        let f = |k: usize| if k == i { j } else if k == j { i } else { k };
        return p.iter().map(|(a, b)| (f(*a), f(*b))).collect();
    }
    let mut q = p.clone();
    for _ in 0..1 + below(4) {
        let off: Vec<(usize, usize)> = q.iter().filter(|(i, j)| i != j).copied().collect();
        if off.is_empty() {
            break;
        }
        let (i, j) = off[below(off.len())];
        let k = below(m);
        if !q.contains(&(k, j)) {
            q.remove(&(i, j));
            q.insert((k, j));
        }
    }
    let _ = n;
    q
}
fn size() -> usize {
    match draw(12) {
        0..=7 => 1 + below(6),
        8..=10 => 4 + below(14),
        _ => 24 + below(50),
    }
}
pub fn run() -> R {
    let kind = pick(SOLVERS);
    let mut solver: AnySolver = {
        use_solver(kind);
        AnySolver::default()
    };
    ev!("{kind:?}");
    let mut last: Option<(bool, usize, usize, Pattern)> = None;
    let mut rows: Vec<usize> = Vec::new();
    let mut before: Option<(Vec<f64>, Pattern, bool)> = None;
    let mut last_b: Option<DMatrix<f64>> = None;
    let n_sys = if chance(1, 40) { 10 + below(40) } else { 2 + below(7) };
    for k in 0..n_sys {
        let sym_sys = chance(1, 2);
        // the same shape as before with another pattern, the same pattern, or something new
        let mode = draw(8);
        let (m, n, p) = match (&last, mode) {
            (Some((ls, m, n, p)), 1) if *ls == sym_sys => (*m, *n, p.clone()),
            (Some((ls, m, n, p)), 2) if *ls == sym_sys => {
                // same size and number of entries, other places
                let extra = p.len().saturating_sub(*n);
                let mut q: Pattern = (0..*n).map(|i| (i, i)).collect();
                let mut tries = 0;
                while q.len() < *n + extra && tries < 400 {
                    tries += 1;
                    let (a, b) = (below(*m), below(*n));
                    q.insert((a, b));
                    if sym_sys {
                        q.insert((b, a));
                    }
                }
                (*m, *n, q)
            }
            (Some((ls, m, n, p)), 4) if *ls == sym_sys => {
                probe("other rows");
                (*m, *n, other_rows(*m, *n, p, sym_sys))
            }
            (Some((false, m, n, p)), 5) if !sym_sys => {
                probe("other column borders");
                (*m, *n, other_borders(*n, p))
            }
            (Some((false, m, n, p)), 6) if !sym_sys => {
                // equations added that say nothing, or such ones removed
                let least = p.iter().map(|(i, _)| i + 1).max().unwrap_or(1).max(*n);
                (least + below(*m - least + 3), *n, p.clone())
            }
            (Some((_, _, n, _)), 3) => {
                let n = *n;
                if sym_sys {
                    (n, n, sym_pattern(n, below(2 * n + 1)))
                } else {
                    let m = n + below(n + 2);
                    (m, n, tall_pattern(m, n, below(3 * n + 1)))
                }
            }
            _ => {
                let n = size();
                if sym_sys {
                    let dense = if n > 20 && chance(1, 2) { n * n / 3 } else { below(2 * n + 1) };
                    (n, n, sym_pattern(n, dense))
                } else {
                    let m = n + below(n + 2);
                    let dense = if n > 20 && chance(1, 2) { n * n / 2 } else { below(3 * n + 1) };
                    (m, n, tall_pattern(m, n, dense))
                }
            }
        };
        let mut a = if sym_sys { sym_values(n, &p) } else { tall_values(m, n, &p) };
        // the very numbers of the system before, in the same places or, column by column, in others
        if let Some((nums, old, _)) = before.as_ref().filter(|(v, _, s)| v.len() == p.len() && *s == sym_sys) {
            if chance(1, 3) {
                if *old == p {
                    probe("same matrix again");
                }
                if !sym_sys || *old == p {
                    let mut cols: Vec<(usize, usize)> = p.iter().map(|(i, j)| (*j, *i)).collect();
                    cols.sort_unstable();
                    for ((j, i), v) in cols.iter().zip(nums) {
                        a[(*i, *j)] = *v;
                    }
                }
            }
        }
        let mut cols: Vec<(usize, usize)> = p.iter().map(|(i, j)| (*j, *i)).collect();
        cols.sort_unstable();
        before = Some((cols.iter().map(|(j, i)| a[(*i, *j)]).collect::<Vec<f64>>(), p.clone(), sym_sys));
        last = Some((sym_sys, m, n, p.clone()));
        // the equations of a least-squares system come in any order
        let mut p = p;
        if !sym_sys {
            if rows.len() != m || !chance(1, 2) {
                rows = if chance(1, 3) { perm(m) } else { (0..m).collect() };
            }
            p = p.iter().map(|(i, j)| (rows[*i], *j)).collect();
            let mut q = DMatrix::zeros(m, n);
            for i in 0..m {
                q.set_row(rows[i], &a.row(i));
            }
            a = q;
        }
        let cols = if chance(1, 8) { pick(&[2, 2, 3, 5]) } else { 1 };
        let bs = pick(&[1.0, 1.0, 1.0, 1e-5, 1e6, 0.0]);
        let b = match last_b {
            Some(b) if b.shape() == (m, cols) && chance(1, 6) => b,
            _ => DMatrix::from_fn(m, cols, |_, _| sym(2.0) * bs),
        };
        last_b = Some(b.clone());
        let unsolvable = chance(1, 6);
        if unsolvable {
            match draw(4) {
                0 => a.fill(0.0),
                1 => a[(0, 0)] = f64::NAN,
                2 => a = -a,
                _ => {
                    // two equal columns (and rows)
                    if n > 1 {
                        for i in 0..m {
                            a[(i, 1)] = if p.contains(&(i, 1)) { a[(i, 0)] } else { 0.0 };
                        }
                    } else {
                        a[(0, 0)] = 0.0;
                    }
                }
            }
            fault("unsolvable system");
        }
        let sp = sparse(&a, &p);
        let fb = faer::Mat::from_fn(m, cols, |i, j| b[(i, j)]);
        let r = guard(|| {
            if sym_sys {
                solver.solve_symmetric(sp.as_ref(), fb.as_ref())
            } else {
                solver.solve_lst_sq(sp.as_ref(), fb.as_ref())
            }
        });
        ev!("system {k}: {} {m}x{n} {} entries: {}", if sym_sys { "sym" } else { "lsq" }, p.len(), r.kind());
        if unsolvable {
            continue;
        }
        // reference: dense orthogonal factorisation
        let (ata, atb) = (a.transpose() * &a, a.transpose() * &b);
        let c2 = cond(&ata);
        if c2 > 1e9 {
            probe("ill-conditioned");
            continue;
        }
        let x = match r {
            Ended::Done(x) => x,
            e => viol!(
                "solve-failed",
                "{kind:?}: system {k} ({}, {m}x{n}) is solvable, the call ended {}",
                if sym_sys { "symmetric" } else { "least squares" },
                match e {
                    Ended::Panicked(m) => m,
                    e => e.kind().into(),
                }
            ),
        };
        ensure!(x.nrows() == n && x.ncols() == cols, "solve-shape", "{kind:?}: solution is {}x{}", x.nrows(), x.ncols());
        for j in 0..cols {
            let got = DVector::from_fn(n, |i, _| x[(i, j)]);
            let bj = b.column(j).into_owned();
            let want = if sym_sys {
                match a.clone().lu().solve(&bj) {
                    Some(w) => w,
                    None => continue,
                }
            } else {
                match solve_spd(&ata, &atb.column(j).into_owned()) {
                    Some(w) => w,
                    None => continue,
                }
            };
            let d = (&got - &want).amax();
            let amp = if sym_sys { c2.sqrt() } else { c2 };
            let tol = (1e-9 + 1e-13 * amp) * (want.amax() + 1e-30) + 1e-13 * amp * bj.norm() / a.norm();
            ensure!(
                within("solution", d, tol),
                "solution",
                "{kind:?}: system {k} ({}, {m}x{n}, {} entries): solution off by {d:e}",
                if sym_sys { "symmetric" } else { "least squares" },
                p.len()
            );
            probe("solution checked");
        }
        if k > 0 {
            nontrivial();
        }
    }
    Ok(())
}
