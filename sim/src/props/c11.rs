//! Histories of operations on value stores against a plain map.
use super::*;
use crate::gen;
use crate::glue::*;
use factrs::containers::{DefaultSymbol, Idx, Key, Values, ValuesOrder};
use factrs::linalg::VectorX;
use factrs::linear::LinearValues;
use factrs::variables::*;
use std::collections::hash_map::Entry;
use std::collections::BTreeMap;

mod typed {
    use factrs::assign_symbols;
    use factrs::variables::*;
    assign_symbols!(X: SE2, SE3, VectorVar3; L: VectorVar2, VectorVar3, VectorVar6; B: ImuBias, VectorVar6; R: SO2, SO3, VectorVar1);
}
use typed::{B, L, R as Rr, X};

type Model = BTreeMap<(char, u64), MV>;

const CHARS: &[char] = &['x', 'l', 'b', 'r', 'X', 'a', 'z', '0', '~', 'é', 'λ', '中', '\u{1F600}', '\u{1}'];
const IDX: &[u64] = &[
    0, 1, 2, 10, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31,
    (1 << 32) - 2, (1 << 32) - 1,
];

fn symbol() -> (char, u64) {
    let c = if chance(1, 3) { CHARS[below(CHARS.len())] } else { CHARS[below(4)] };
    let i = if chance(1, 2) { draw(6) } else { IDX[below(IDX.len())] };
    (c, i)
}
fn sym_of(m: &Model) -> (char, u64) {
    if !m.is_empty() && !chance(1, 4) {
        *m.keys().nth(below(m.len())).unwrap()
    } else {
        symbol()
    }
}
fn k(s: (char, u64)) -> Key {
    key(s.0, s.1)
}
/// exact agreement: a stored value is never touched
fn eq(a: &MV, b: &MV) -> bool {
    a.kind() == b.kind() && a.dist(b) <= tol(1e-12, 1e-5)
}
struct Store {
    real: Values,
    model: Model,
}
fn check(st: &Store, what: &str) -> R {
    let (v, m) = (&st.real, &st.model);
    ensure!(v.len() == m.len(), "length", "{what}: {} entries, expected {}", v.len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "length", "{what}: is_empty is {}", v.is_empty());
    let keys: BTreeMap<u64, (char, u64)> = m.keys().map(|s| (k(*s).0, *s)).collect();
    ensure!(keys.len() == m.len(), "alias", "{what}: distinct symbols share a key");
    let mut seen = std::collections::BTreeSet::new();
    for (key, b) in v.iter() {
        let Some(s) = keys.get(&key.0) else { viol!("phantom", "{what}: traversal yields an unknown key {key:?}") };
        ensure!(seen.insert(key.0), "twice", "{what}: traversal yields {s:?} twice");
        let Some(x) = read_any(b.as_ref()) else { viol!("type", "{what}: {s:?} has an unknown type") };
        ensure!(eq(&x, &m[s]), "value", "{what}: {s:?} is {x:?}, expected {:?}", m[s]);
        ensure!(b.dim() == x.dim(), "dim", "{what}: {s:?} reports dimension {}", b.dim());
    }
    ensure!(seen.len() == m.len(), "skipped", "{what}: traversal visits {} of {} entries", seen.len(), m.len());
    for (s, want) in m {
        for kind in gen::ALL_KINDS {
            let got = read(v, k(*s), *kind);
            match got {
                Some(x) => {
                    ensure!(*kind == want.kind(), "type", "{what}: {s:?} found as {kind:?}, stored as {:?}", want.kind());
                    ensure!(eq(&x, want), "value", "{what}: lookup of {s:?} gives {x:?}, expected {want:?}");
                }
                None => ensure!(*kind != want.kind(), "lost", "{what}: lookup of {s:?} as {kind:?} finds nothing"),
            }
        }
    }
    Ok(())
}
/// traversal by type
fn check_filter(st: &Store, what: &str) -> R {
    macro_rules! f {
        ($ty:ty, $kind:expr, $conv:ident) => {{
            let mut got: Vec<MV> = st.real.filter::<$ty>().map($conv).collect();
            let mut want: Vec<MV> = st.model.values().filter(|m| m.kind() == $kind).cloned().collect();
            ensure!(got.len() == want.len(), "filter", "{what}: {} entries of type {:?}, expected {}", got.len(), $kind, want.len());
            for w in want.drain(..) {
                match got.iter().position(|g| eq(g, &w)) {
                    Some(i) => { got.swap_remove(i); }
                    None => viol!("filter", "{what}: {w:?} not visited"),
                }
            }
        }};
    }
    f!(VectorVar1, Kind::Vec(1), m_vec);
    f!(VectorVar2, Kind::Vec(2), m_vec);
    f!(VectorVar3, Kind::Vec(3), m_vec);
    f!(VectorVar4, Kind::Vec(4), m_vec);
    f!(VectorVar5, Kind::Vec(5), m_vec);
    f!(VectorVar6, Kind::Vec(6), m_vec);
    f!(SO2, Kind::SO2, m_so2);
    f!(SE2, Kind::SE2, m_se2);
    f!(SO3, Kind::SO3, m_so3);
    f!(SE3, Kind::SE3, m_se3);
    f!(ImuBias, Kind::Bias, m_bias);
    Ok(())
}
fn layout(st: &Store) -> R {
    let o = guard(|| ValuesOrder::from_values(&st.real)).must("layout")?;
    layout_of(&o, &st.model, "layout")
}
fn layout_of(o: &ValuesOrder, m: &Model, what: &str) -> R {
    let total: usize = m.values().map(|v| v.dim()).sum();
    ensure!(o.len() == m.len() && o.is_empty() == m.is_empty(), "layout", "{what}: {} blocks for {} variables", o.len(), m.len());
    ensure!(o.dim() == total, "layout", "{what}: dimension {}, expected {total}", o.dim());
    let mut used = vec![false; total];
    for (s, v) in m {
        let Some(i) = o.get(k(*s)) else { viol!("layout", "{what}: {s:?} has no block") };
        ensure!(i.dim == v.dim(), "layout", "{what}: {s:?} has a block of {} columns, dimension {}", i.dim, v.dim());
        ensure!(i.idx + i.dim <= total, "layout", "{what}: block of {s:?} ends past the last column");
        for c in i.idx..i.idx + i.dim {
            ensure!(!used[c], "layout", "{what}: column {c} belongs to two variables");
            used[c] = true;
        }
    }
    let back: BTreeMap<u64, (char, u64)> = m.keys().map(|s| (k(*s).0, *s)).collect();
    let n = o.iter().count();
    ensure!(n == m.len(), "layout", "{what}: iterating gives {n} blocks");
    for (key, idx) in o.iter() {
        let Some(s) = back.get(&key.0) else { viol!("layout", "{what}: block for unknown key {key:?}") };
        let j = o.get(k(*s)).unwrap();
        ensure!((idx.idx, idx.dim) == (j.idx, j.dim), "layout", "{what}: traversal and lookup disagree on {s:?}");
    }
    Ok(())
}
/// Increments for some variables of this store, some foreign ones, laid out by a store of their own.
fn oplus(st: &mut Store, spare: bool) -> R {
    let mut om: Model = BTreeMap::new();
    let mut deltas: BTreeMap<(char, u64), Vec<f64>> = BTreeMap::new();
    let mut ov = Values::new();
    let keep = 1 + draw(4);
    let all: Vec<_> = st.model.iter().map(|(s, m)| (*s, m.kind())).collect();
    for (s, kind) in all {
        if draw(4) < keep {
            let m = MV::identity(kind);
            // the layout only needs the dimension: another type of the same dimension does as well
            om.insert(s, m.clone());
            deltas.insert(s, gen::tangent(kind, pick(&[0.3, 1e-3, 2.0, 0.0, 1e-8, 2e-2])));
        }
    }
    if spare {
        for _ in 0..1 + below(3) {
            let s = symbol();
            if !st.model.contains_key(&s) {
                let kind = pick(gen::ALL_KINDS);
                om.insert(s, MV::identity(kind));
                deltas.insert(s, gen::tangent(kind, 1.0));
                fault("increment for an absent variable");
            }
        }
    }
    let order: Vec<_> = om.keys().copied().collect();
    for i in perm(order.len()) {
        insert(&mut ov, k(order[i]), &om[&order[i]]);
    }
    let explicit = chance(1, 3);
    let o = if explicit {
        // a layout of the caller's own making
        let mut map = ahash::HashMap::default();
        let mut at = 0;
        for i in perm(order.len()) {
            let dim = om[&order[i]].dim();
            map.insert(k(order[i]), Idx { idx: at, dim });
            at += dim;
        }
        ValuesOrder::new(map)
    } else {
        ValuesOrder::from_values(&ov)
    };
    layout_of(&o, &om, "increment layout")?;
    let mut vec = VectorX::zeros(o.dim());
    for (s, d) in &deltas {
        let i = o.get(k(*s)).unwrap();
        for (j, x) in d.iter().enumerate() {
            vec[i.idx + j] = lo(*x);
        }
    }
    for z in [LinearValues::zero_from_values(&ov), LinearValues::zero_from_order(ValuesOrder::from_values(&ov))] {
        ensure!(z.len() == om.len() && z.dim() == deltas.values().map(|d| d.len()).sum::<usize>(), "increments", "zero increments: {} of {}", z.len(), om.len());
        for (s, d) in &deltas {
            let x = z.get(k(*s));
            ensure!(x.map(|x| x.len() == d.len() && x.iter().all(|x| *x == 0.0)).unwrap_or(false), "increments", "zero increment of {s:?}: {x:?}");
        }
    }
    let lin = match draw(3) {
        0 if !explicit => LinearValues::from_values_and_vector(&ov, vec),
        _ => LinearValues::from_order_and_vector(o, vec),
    };
    // the increments themselves read back
    ensure!(lin.len() == om.len() && lin.is_empty() == om.is_empty(), "increments", "{} increments for {}", lin.len(), om.len());
    ensure!(lin.dim() == deltas.values().map(|d| d.len()).sum::<usize>(), "increments", "total dimension {}", lin.dim());
    for (s, d) in &deltas {
        match lin.get(k(*s)) {
            Some(x) => ensure!(x.iter().zip(d).all(|(a, b)| *a == lo(*b)) && x.len() == d.len(), "increments", "{s:?}: {x:?} instead of {d:?}"),
            None => viol!("increments", "{s:?}: increment lost"),
        }
    }
    let mut n = 0;
    let back: BTreeMap<u64, (char, u64)> = om.keys().map(|s| (k(*s).0, *s)).collect();
    for (key, x) in lin.iter() {
        n += 1;
        let Some(s) = back.get(&key.0) else { viol!("increments", "unknown key {key:?}") };
        ensure!(x.iter().zip(&deltas[s]).all(|(a, b)| *a == lo(*b)), "increments", "{s:?}: traversal gives {x:?}");
    }
    ensure!(n == om.len(), "increments", "traversal gives {n} of {} increments", om.len());
    let other = symbol();
    if !om.contains_key(&other) {
        ensure!(lin.get(k(other)).is_none(), "increments", "increment found for absent {other:?}");
    }
    let real = &mut st.real;
    guard(|| real.oplus_mut(&lin)).must("oplus_mut")?;
    for (s, d) in &deltas {
        if let Some(m) = st.model.get_mut(s) {
            *m = m.oplus(d);
            // compare loosely once, then take over the stored representation
            let Some(now) = read(&st.real, k(*s), m.kind()) else { viol!("oplus", "{s:?} lost its value or type") };
            let e = now.dist(m);
            // a tiny increment moves it by that much, not merely somewhere near
            let t = if d.iter().all(|x| x.abs() < 1e-7) { 1e-12 } else { 1e-9 };
            ensure!(within("oplus", e, tol(t, 1e-4)), "oplus", "{s:?} moved to {now:?}, expected {m:?}");
            *m = now;
            probe("variable moved");
        }
    }
    Ok(())
}
fn typed_ops(st: &mut Store) -> R {
    const CASES: [(char, Kind); 11] = [
        ('x', Kind::SE2),
        ('x', Kind::SE3),
        ('x', Kind::Vec(3)),
        ('l', Kind::Vec(2)),
        ('l', Kind::Vec(3)),
        ('l', Kind::Vec(6)),
        ('b', Kind::Bias),
        ('b', Kind::Vec(6)),
        ('r', Kind::SO2),
        ('r', Kind::SO3),
        ('r', Kind::Vec(1)),
    ];
    let mut i = if chance(1, 2) { draw(4) } else { IDX[below(IDX.len())] };
    let mut case = below(11);
    let stored: Vec<(usize, u64)> = st
        .model
        .iter()
        .filter_map(|(s, m)| CASES.iter().position(|c| *c == (s.0, m.kind())).map(|c| (c, s.1)))
        .collect();
    if !stored.is_empty() && chance(2, 3) {
        (case, i) = stored[below(stored.len())];
    }
    macro_rules! t {
        ($sym:expr, $chr:literal, $ty:ty, $kind:expr, $conv:ident) => {{
            let s = ($chr, i);
            let have = st.model.get(&s).cloned();
            let right = have.as_ref().map(|m| m.kind() == $kind).unwrap_or(false);
            match draw(4) {
                0 => {
                    let m = gen::value($kind, 1.5);
                    let mut tmp = Values::new();
                    insert(&mut tmp, k(s), &m);
                    let x: $ty = tmp.get_unchecked::<_, $ty>(k(s)).expect("scratch store").clone();
                    let prev = st.real.insert($sym(i), x);
                    compare_prev(prev.as_deref(), have.as_ref(), s)?;
                    st.model.insert(s, read(&tmp, k(s), $kind).unwrap());
                    ev!("typed insert {s:?} {:?}", $kind);
                }
                1 => {
                    let got: Option<&$ty> = st.real.get($sym(i));
                    match got {
                        Some(x) => ensure!(right && eq(&$conv(x), have.as_ref().unwrap()), "typed-get", "{s:?}: {x:?}, stored {have:?}"),
                        None => ensure!(!right, "typed-get", "{s:?} as {:?} finds nothing, stored {have:?}", $kind),
                    }
                    probe("typed lookup");
                }
                2 => {
                    let d = gen::tangent($kind, 0.5);
                    let mut now = None;
                    let got: Option<&mut $ty> = st.real.get_mut($sym(i));
                    match got {
                        Some(x) => {
                            ensure!(right, "typed-get", "{s:?} found as {:?}, stored {have:?}", $kind);
                            *x = x.oplus(VectorX::from_vec(d.iter().map(|x| lo(*x)).collect()).as_view());
                            now = Some($conv(x));
                        }
                        None => ensure!(!right, "typed-get", "{s:?} mutably as {:?} finds nothing, stored {have:?}", $kind),
                    }
                    if let Some(n) = now {
                        st.model.insert(s, n);
                        probe("edited in place");
                    }
                }
                _ => {
                    let got: Option<$ty> = st.real.remove($sym(i));
                    ev!("typed remove {s:?} {:?} -> {}", $kind, got.is_some());
                    match got {
                        Some(x) => ensure!(right && eq(&$conv(&x), have.as_ref().unwrap()), "remove", "{s:?}: removed {x:?}, stored {have:?}"),
                        None => ensure!(!right, "remove", "{s:?}: nothing removed, stored {have:?}"),
                    }
                    if right {
                        st.model.remove(&s);
                        probe("removed");
                    } else if have.is_some() {
                        // removal under another type: both leaving and dropping the entry are accepted
                        fault("removal under another type");
                        if st.real.len() < st.model.len() {
                            st.model.remove(&s);
                        }
                    }
                }
            }
        }};
    }
    match case {
        0 => t!(X, 'x', SE2, Kind::SE2, m_se2),
        1 => t!(X, 'x', SE3, Kind::SE3, m_se3),
        2 => t!(X, 'x', VectorVar3, Kind::Vec(3), m_vec),
        3 => t!(L, 'l', VectorVar2, Kind::Vec(2), m_vec),
        4 => t!(L, 'l', VectorVar3, Kind::Vec(3), m_vec),
        5 => t!(L, 'l', VectorVar6, Kind::Vec(6), m_vec),
        6 => t!(B, 'b', ImuBias, Kind::Bias, m_bias),
        7 => t!(B, 'b', VectorVar6, Kind::Vec(6), m_vec),
        8 => t!(Rr, 'r', SO2, Kind::SO2, m_so2),
        9 => t!(Rr, 'r', SO3, Kind::SO3, m_so3),
        _ => t!(Rr, 'r', VectorVar1, Kind::Vec(1), m_vec),
    }
    Ok(())
}
fn compare_prev(prev: Option<&dyn VariableSafe>, have: Option<&MV>, s: (char, u64)) -> R {
    match (prev.and_then(read_any), have) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if eq(&a, b) => Ok(()),
        (a, b) => viol!("previous", "storing under {s:?} returned {a:?}, previously stored was {b:?}"),
    }
}
/// in-place edit through an unchecked mutable lookup
fn edit(v: &mut Values, s: (char, u64), kind: Kind, d: &[f64]) -> bool {
    let d = VectorX::from_vec(d.iter().map(|x| lo(*x)).collect());
    macro_rules! e {
        ($ty:ty) => {
            match v.get_unchecked_mut::<_, $ty>(k(s)) {
                Some(x) => {
                    *x = x.oplus(d.as_view());
                    true
                }
                None => false,
            }
        };
    }
    match kind {
        Kind::Vec(1) => e!(VectorVar1),
        Kind::Vec(2) => e!(VectorVar2),
        Kind::Vec(3) => e!(VectorVar3),
        Kind::Vec(4) => e!(VectorVar4),
        Kind::Vec(5) => e!(VectorVar5),
        Kind::Vec(_) => e!(VectorVar6),
        Kind::SO2 => e!(SO2),
        Kind::SE2 => e!(SE2),
        Kind::SO3 => e!(SO3),
        Kind::SE3 => e!(SE3),
        Kind::Bias => e!(ImuBias),
    }
}
pub fn run() -> R {
    new_hash_world();
    let mut stores = vec![Store { real: Values::new(), model: Model::new() }];
    let mut n = if chance(1, 30) { 80 + below(200) } else { 3 + below(40) };
    nontrivial();
    if chance(1, 12) {
        // a map of realistic size: hundreds of entries, more than a thousand columns
        let st = &mut stores[0];
        let huge = chance(1, 300);
        let m = if huge { 1000 + below(2500) } else { 40 + below(260) };
        let (c, base, step) = (CHARS[below(CHARS.len())], IDX[below(11)], if huge { 1 } else { pick(&[1u64, 1, 2, 256]) });
        if huge {
            n = n.min(12);
        }
        let kinds: Vec<Kind> = (0..1 + below(3)).map(|_| pick(gen::ALL_KINDS)).collect();
        ev!("store 0: {m} entries from {c}{base}, step {step}");
        for i in 0..m {
            let s = (if i % 7 == 3 { 'l' } else { c }, base + step * i as u64);
            let x = gen::value(kinds[i % kinds.len()], 1.5);
            insert(&mut st.real, k(s), &x);
            let Some(now) = read(&st.real, k(s), x.kind()) else { viol!("lost", "{s:?} not found right after storing it") };
            ensure!(now.dist(&x) < tol(1e-9, 1e-5), "value", "{s:?}: stored {x:?}, found {now:?}");
            st.model.insert(s, now);
        }
        probe("large store");
    }
    let mut last = String::new();
    for step in 0..n {
        if chance(1, 8) {
            new_hash_world();
        }
        let w = below(stores.len());
        let cnt = stores.len();
        let st = &mut stores[w];
        let op = draw(15);
        match op {
            0..=3 => {
                let s = if chance(1, 3) { sym_of(&st.model) } else { symbol() };
                let m = gen::value(pick(gen::ALL_KINDS), 1.5);
                let have = st.model.get(&s).cloned();
                ev!("{step} store {w}: insert {s:?} {:?}", m.kind());
                let prev = insert(&mut st.real, k(s), &m);
                compare_prev(prev.as_deref(), have.as_ref(), s)?;
                if have.is_some() {
                    probe("replaced");
                }
                let Some(now) = read(&st.real, k(s), m.kind()) else { viol!("lost", "{s:?} not found right after storing it") };
                ensure!(now.dist(&m) < tol(1e-9, 1e-5), "value", "{s:?}: stored {m:?}, found {now:?}");
                st.model.insert(s, now);
            }
            4 => {
                let s = sym_of(&st.model);
                let kind = match st.model.get(&s) {
                    Some(m) if !chance(1, 4) => m.kind(),
                    _ => pick(gen::ALL_KINDS),
                };
                let d = gen::tangent(kind, 0.5);
                let did = edit(&mut st.real, s, kind, &d);
                let want = st.model.get(&s).map(|m| m.kind() == kind).unwrap_or(false);
                ev!("{step} store {w}: edit {s:?} as {kind:?}: {did}");
                ensure!(did == want, "lookup", "mutable lookup of {s:?} as {kind:?}: found {did}, stored {:?}", st.model.get(&s));
                if did {
                    let m = st.model[&s].oplus(&d);
                    let now = read(&st.real, k(s), kind).unwrap();
                    ensure!(within("edit", now.dist(&m), tol(1e-9, 1e-4)), "value", "{s:?} edited to {now:?}, expected {m:?}");
                    st.model.insert(s, now);
                    probe("edited in place");
                }
            }
            5 | 6 | 14 => typed_ops(st)?,
            7 => {
                let s = sym_of(&st.model);
                let m = gen::value(pick(gen::ALL_KINDS), 1.5);
                let have = st.model.get(&s).cloned();
                let sel = draw(3);
                ev!("{step} store {w}: entry {s:?} ({sel})");
                match st.real.entry(k(s)) {
                    Entry::Occupied(mut e) => {
                        let x = read_any(e.get().as_ref());
                        ensure!(have.is_some() && x.as_ref().map(|x| eq(x, have.as_ref().unwrap())).unwrap_or(false), "entry", "{s:?}: entry holds {x:?}, expected {have:?}");
                        match sel {
                            0 => {
                                e.remove();
                                st.model.remove(&s);
                            }
                            1 => {
                                e.insert(with_real!(&m, x => Box::new(x) as Box<dyn VariableSafe>));
                                st.model.insert(s, read(&st.real, k(s), m.kind()).unwrap_or(m));
                            }
                            _ => {}
                        }
                        probe("entry occupied");
                    }
                    Entry::Vacant(e) => {
                        ensure!(have.is_none(), "entry", "{s:?}: entry is vacant, stored {have:?}");
                        if sel > 0 {
                            e.insert(with_real!(&m, x => Box::new(x) as Box<dyn VariableSafe>));
                            st.model.insert(s, read(&st.real, k(s), m.kind()).unwrap_or(m));
                        }
                        probe("entry vacant");
                    }
                }
            }
            8 | 9 => {
                ev!("{step} store {w}: tangent update");
                let spare = chance(1, 2);
                oplus(st, spare)?;
            }
            10 => {
                if cnt < 3 {
                    let c = Store { real: st.real.clone(), model: st.model.clone() };
                    ev!("{step} store {w}: copied to {cnt}");
                    stores.push(c);
                    probe("store copied");
                } else {
                    let v = stores.swap_remove(w);
                    ev!("{step} store {w}: consumed");
                    let mut left = v.model.clone();
                    for (key, b) in v.real {
                        let Some(s) = left.keys().find(|s| k(**s) == key).copied() else { viol!("into-iter", "unknown or repeated key {key:?}") };
                        let x = read_any(b.as_ref());
                        ensure!(x.as_ref().map(|x| eq(x, &left[&s])).unwrap_or(false), "into-iter", "{s:?}: {x:?}");
                        left.remove(&s);
                    }
                    ensure!(left.is_empty(), "into-iter", "{} entries not yielded", left.len());
                    probe("store consumed");
                }
            }
            11 => {
                // an increment of the wrong size: refused, never applied to another variable
                let victims: Vec<_> = st.model.iter().map(|(s, m)| (*s, m.kind())).collect();
                if victims.is_empty() {
                    continue;
                }
                let (s, kind) = victims[below(victims.len())];
                let o = pick(gen::ALL_KINDS);
                if o.dim() == kind.dim() {
                    continue;
                }
                let mut ov = Values::new();
                insert(&mut ov, k(s), &MV::identity(o));
                let lin = LinearValues::from_values_and_vector(&ov, VectorX::from_vec(gen::tangent(o, 1.0).into_iter().map(lo).collect()));
                let real = &mut st.real;
                let r = guard(|| real.oplus_mut(&lin));
                fault("increment of the wrong dimension");
                ensure!(matches!(r, Ended::Panicked(_)), "oplus", "an increment of dimension {} was applied to {s:?} of dimension {}", o.dim(), kind.dim());
            }
            12 => {
                layout(st)?;
                check_filter(st, "filter")?;
                let s = format!("{:?} {} {:#}", st.real, st.real, st.real);
                ensure!(s.len() >= 2, "display", "empty rendering");
                probe("layout checked");
            }
            _ => {
                let s = symbol();
                if !st.model.contains_key(&s) {
                    for kind in gen::ALL_KINDS {
                        ensure!(read(&st.real, k(s), *kind).is_none(), "alias", "lookup of absent {s:?} as {kind:?} finds a value");
                    }
                    probe("absent lookup");
                }
                // symbols survive packing
                let t = symbol();
                if s != t {
                    ensure!(k(s) != k(t), "alias", "{s:?} and {t:?} share a key");
                }
                let _ = format!("{:?}", DefaultSymbol::from(k(s)));
            }
        }
        last = format!("after operation {step}");
        if chance(1, 3) || step + 1 == n {
            for (i, st) in stores.iter().enumerate() {
                check(st, &format!("{last} store {i}"))?;
            }
        }
    }
    for (i, st) in stores.iter().enumerate() {
        check(st, &format!("{last} store {i}"))?;
        check_filter(st, "end")?;
        layout(st)?;
    }
    Ok(())
}
