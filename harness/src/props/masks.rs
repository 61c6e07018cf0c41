//! C22: masks

use super::*;
use crate::model::*;
use bellframe::{music::Regex, Mask};
use serde_json::json;

pub type M = Vec<Option<usize>>;

pub fn mask_text(m: &M) -> String {
    m.iter().map(|b| b.map_or("x".to_string(), bell_text)).collect()
}

/// The real mask, through the means that has no limit on bells
pub fn real(m: &M) -> Mask {
    let mut k = Mask::empty(stage(m.len()));
    for (i, b) in m.iter().enumerate() {
        if let Some(b) = b {
            k.set_bell(bell(*b), i).unwrap_or_else(|_| panic!("can't set bell index {b} in an empty mask"));
        }
    }
    k
}

/// All masks with distinct bells on `n` bells
pub fn all_masks(n: usize) -> Vec<M> {
    let mut out = vec![];
    fn go(n: usize, cur: &mut M, out: &mut Vec<M>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for b in std::iter::once(None).chain((0..n).map(Some)) {
            if b.is_none() || !cur.contains(&b) {
                cur.push(b);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    go(n, &mut vec![], &mut out);
    out
}

pub fn has(m: &M, r: &[usize]) -> bool {
    m.len() == r.len() && m.iter().zip(r).all(|(m, b)| m.map_or(true, |m| m == *b))
}

/// The exact intersection
fn meet(a: &M, b: &M) -> Option<M> {
    if a.len() != b.len() {
        return None;
    }
    let mut out = vec![];
    for (x, y) in a.iter().zip(b) {
        out.push(match (x, y) {
            (Some(x), Some(y)) if x != y => return None,
            (x, y) => x.or(*y),
        });
    }
    let mut bells: Vec<usize> = out.iter().flatten().copied().collect();
    bells.sort_unstable();
    let n = bells.len();
    bells.dedup();
    (n == bells.len()).then_some(out)
}

fn fill(m: &M) -> M {
    // With one hole, the only bell that can go there
    let mut m = m.clone();
    if m.iter().filter(|b| b.is_none()).count() == 1 {
        let missing = (0..m.len()).find(|b| !m.contains(&Some(*b)));
        *m.iter_mut().find(|b| b.is_none()).unwrap() = missing;
    }
    m
}

/// Is every row of `a` in `b`?
fn subset(a: &M, b: &M) -> bool {
    let a = fill(a);
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| y.is_none() || x == y)
}

fn as_row(m: &M) -> Option<Perm> {
    fill(m).into_iter().collect()
}

/// `k` stands for the set `m`.  The set of a mask with one hole can be written in two ways; either is accepted here.
fn same_set(k: &Mask, m: &M, what: &str) -> Result<(), String> {
    let n = m.len();
    eq!(k.stage().num_bells(), n, "stage of {what}");
    let mut got: M = vec![None; n];
    for b in 0..n {
        if let Some(p) = k.place_of(bell(b)) {
            ensure!(p < n && got[p].is_none(), "{what}: two bells at place {p} of {k}");
            got[p] = Some(b);
        }
    }
    eq!(fill(&got), fill(m), "{what}");
    let holes: Vec<usize> = k.unspecified_places().collect();
    let want: Vec<usize> = (0..n).filter(|i| got[*i].is_none()).collect();
    eq!(holes, want, "unspecified places of {what} ({k})");
    Ok(())
}

fn single_case(m: &M, rows: &[Perm], o: &mut Obs) -> Result<(), String> {
    let n = m.len();
    let k = real(m);
    same_set(&k, m, "mask")?;
    for i in 0..n {
        eq!(k.unspecified_places().any(|p| p == i), m[i].is_none(), "place {i} of {k}");
    }
    eq!(k.to_string(), mask_text(m), "display");
    eq!(format!("{k:?}"), format!("Mask({})", mask_text(m)), "Debug");
    if m.iter().flatten().all(|b| *b < 33) {
        let p = Mask::parse(&mask_text(m));
        ensure!(p == k && hash_of(&p) == hash_of(&k), "parsing {k} gave {p}");
        let noisy: String = m.iter().map(|b| b.map_or("X !.".chars().nth(n % 4).filter(|c| "X.".contains(*c)).unwrap_or('.').to_string(), |b| format!("é{}-", bell_text(b)))).collect();
        let p = Mask::parse(&noisy);
        ensure!(p == k, "parsing {noisy:?} gave {p} rather than {k}");
    }
    for b in 0..n + 2 {
        eq!(k.place_of(bell(b)), m.iter().position(|x| *x == Some(b)), "place of bell index {b} in {k}");
    }
    eq!(k.is_empty(), m.iter().all(|b| b.is_none()), "is_empty of {k}");
    eq!(k.as_row().map(|r| perm(&r)), as_row(m), "as_row of {k}");
    let re = Regex::from(k.clone());
    for r in rows {
        let real = row(r);
        eq!(k.matches(&real), has(m, r), "does {k} match {}", row_text(r));
        eq!(re.matches(&real), has(m, r), "does the pattern of {k} match {}", row_text(r));
        o.see(&(m, has(m, r)));
    }
    if let Some(p) = as_row(m) {
        let f = Mask::full_row(&row(&p));
        same_set(&f, &p.iter().map(|b| Some(*b)).collect(), "full_row")?;
    }
    o.step(8 + 2 * rows.len() as u64);
    // Multiplication on either side
    for r in rows.iter().filter(|r| r.len() == n) {
        let real = row(r);
        let left: M = m.iter().map(|b| b.map(|b| r[b])).collect();
        same_set(&(real.as_row() * &k), &left, "row * mask")?;
        let right: M = r.iter().map(|b| m[*b]).collect();
        same_set(&(&k * real.as_row()), &right, "mask * row")?;
        o.step(2);
    }
    // Rows of other stages can't be multiplied with
    for other in [n.wrapping_sub(1), n + 1, n + 2] {
        if let Some(r) = rows.iter().find(|r| r.len() == other) {
            let real = row(r);
            ensure!(panics(|| real.as_row() * &k), "{real} * {k} didn't panic");
            ensure!(panics(|| &k * real.as_row()), "{k} * {real} didn't panic");
            o.step(2);
        }
    }
    Ok(())
}

fn pair_case(a: &M, b: &M, ka: &Mask, kb: &Mask, o: &mut Obs) -> Result<(), String> {
    let i = meet(a, b);
    o.see(&(a.len(), &i));
    eq!(ka.is_compatible_with(kb), i.is_some(), "is {ka} compatible with {kb}");
    eq!(ka.is_subset_of(kb), subset(a, b), "is {ka} a subset of {kb}");
    match (ka.combine(kb), &i) {
        (None, None) => {}
        (Some(k), Some(i)) => same_set(&k, i, "combination")?,
        (g, w) => return Err(format!("combining {ka} and {kb} gave {g:?}, expected {w:?}")),
    }
    super::check_eq(ka, kb, a == b).map_err(|e| format!("{ka} and {kb}: {e}"))?;
    if a == b {
        eq!(hash_of(ka), hash_of(kb), "hash of equal masks");
    }
    super::copies(ka, [kb.clone()], |c| {
        super::check_eq(c, ka, true)?;
        ensure!(hash_of(c) == hash_of(ka), "hash of a copy");
        same_set(c, a, "copy")
    })?;
    o.step(4);
    Ok(())
}

// ------------------------------------------------------------- fixing bells

struct Fixing {
    n: usize,
}

#[derive(Clone, Debug)]
enum Op {
    Fix(usize),
    Set(usize, usize),
}

impl System for Fixing {
    type State = (Mask, M);
    type Op = Op;
    type Key = M;
    fn key(&self, s: &Self::State) -> M {
        s.1.clone()
    }
    fn describe(&self, s: &Self::State) -> String {
        mask_text(&s.1)
    }
    fn ops(&self, s: &Self::State) -> Vec<Op> {
        let n = self.n;
        let mut v: Vec<Op> = (0..n + 1).map(Op::Fix).collect();
        let places: Vec<usize> = if n <= 6 { (0..n).collect() } else { boundary_places(n) };
        for &b in &places {
            for &p in &places {
                // Setting a bell where another one is replaces it
                v.push(Op::Set(b, p));
            }
            v.push(Op::Set(b, n));
        }
        let _ = s;
        v
    }
    fn apply(&self, s: &Self::State, op: &Op, o: &mut Obs) -> Result<Self::State, String> {
        let (mut k, mut m) = s.clone();
        let (b, p) = match op {
            Op::Fix(b) => (*b, *b),
            Op::Set(b, p) => (*b, *p),
        };
        let r = caught(|| match op {
            Op::Fix(b) => k.fix(bell(*b)),
            Op::Set(b, p) => k.set_bell(bell(*b), *p),
        });
        let at = m.iter().position(|x| *x == Some(b));
        match r {
            Err(_) => ensure!(p >= self.n && (at.is_none() || at != Some(p)), "{op:?} on {} panicked", mask_text(&m)),
            Ok(Ok(())) => {
                let mut u = s.0.clone();
                match op {
                    Op::Fix(b) => unsafe { u.fix_unchecked(bell(*b)) },
                    Op::Set(b, p) => unsafe { u.set_bell_unchecked(bell(*b), *p) },
                }
                eq!(u, k, "the unchecked form of {op:?} on {}", mask_text(&m));
                ensure!(p < self.n && (at.is_none() || at == Some(p)), "{op:?} on {} was accepted", mask_text(&m));
                m[p] = Some(b);
            }
            Ok(Err(_)) => ensure!(at.is_some() && at != Some(p), "{op:?} on {} was refused", mask_text(&m)),
        }
        same_set(&k, &m, "mask")?;
        eq!(k.to_string(), mask_text(&m), "display");
        o.step(1);
        o.see(&m);
        Ok((k, m))
    }
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "A case is one mask with every row of its stage and of the neighbouring stages, one pair of masks, or one fixing \
               operation on one reached mask; all compared with the explicit set of rows.  Distinct by mask and membership, or \
               by intersection.",
        bounds: |t| {
            json!({"masks": t.pick("all on 1 to 5 bells", "all on 1 to 6 bells"), "rows": "all of that stage, its neighbours, products on both sides",
                "pairs": t.pick("all on 1 to 4 bells (mixed stages), all on 5", "all on 1 to 4 bells (mixed stages), all on 5, all on 6"), "fixing_sequences": {"stages": [1, 2, 3, 4, 5, 7, 8, 33, 65], "depth": t.pick("4 (2 on 7 bells and more)", "6 (3 on 7 and 8 bells, 2 on 33 and 65)")},
                "structured": "masks with 0, 1, 2, all but 2, all but 1, all bells fixed, for structured rows on wide stages"})
        },
        assumptions: &["masks have distinct bells within their stage, at least one place", "a combination may be written in any way that stands for the same set of rows"],
        units: |t| {
            let mut u = vec![];
            for n in 1..=t.pick(5usize, 6) {
                split_unit(&mut u, &format!("masks-{n}"), if n < 4 { 1 } else { 8 }, move |c, part| {
                    let mut rows = all_perms(n);
                    rows.extend(if n < 5 { all_perms(n + 1) } else { small_family(n + 1) });
                    if n > 1 {
                        rows.extend(all_perms(n - 1));
                    }
                    for m in all_masks(n) {
                        if part.mine() {
                            c.case(|| format!("mask {}", mask_text(&m)), |o| single_case(&m, &rows, o));
                        }
                    }
                });
            }
            split_unit(&mut u, "pairs-mixed", 8, |c, part| {
                let all: Vec<M> = (1..=4).flat_map(all_masks).collect();
                let reals: Vec<Mask> = all.iter().map(real).collect();
                for (a, ka) in all.iter().zip(&reals) {
                    if part.mine() {
                        for (b, kb) in all.iter().zip(&reals) {
                            c.case(|| format!("masks {} and {}", mask_text(a), mask_text(b)), |o| {
                                pair_case(a, b, ka, kb, o)?;
                                // The harness's own notion of these relations, by enumeration
                                if a.len() == b.len() && a.len() <= 3 {
                                    let rows = all_perms(a.len());
                                    let both = rows.iter().any(|r| has(a, r) && has(b, r));
                                    eq!(both, meet(a, b).is_some(), "harness: intersection");
                                    eq!(rows.iter().all(|r| !has(a, r) || has(b, r)), subset(a, b), "harness: subset");
                                }
                                Ok(())
                            });
                        }
                    }
                }
            });
            for n in [5usize, 6] {
                if n == 6 && !t.thorough() {
                    continue;
                }
                split_unit(&mut u, &format!("pairs-{n}"), 32, move |c, part| {
                    let all = all_masks(n);
                    let reals: Vec<Mask> = all.iter().map(real).collect();
                    for (a, ka) in all.iter().zip(&reals) {
                        if part.mine() {
                            for (b, kb) in all.iter().zip(&reals) {
                                c.case(|| format!("masks {} and {}", mask_text(a), mask_text(b)), |o| pair_case(a, b, ka, kb, o));
                            }
                        }
                    }
                });
            }
            for n in [1usize, 2, 3, 4, 5, 7, 8, 33, 65] {
                let d = if n > 8 { 2 } else if n > 5 { t.pick(2, 3) } else { t.pick(4, 6) };
                u.push(unit(format!("fixing-{n}"), move |c| {
                    let m: M = vec![None; n];
                    explore(c, &Fixing { n }, vec![("empty mask".into(), (Mask::empty(stage(n)), m))], d, 300_000, true);
                }));
            }
            u.push(unit("fix-bells", |c| {
                for n in (1..=6usize).chain([12, 33, 34, 64, 65, 256]) {
                    let count = 1usize << n.min(8);
                    for set in 0..count {
                        c.case(|| format!("fixing the bells of set {set:#b} on {n} bells"), |o| {
                            let places = if n <= 8 { (0..n).collect() } else { boundary_places(n) };
                            let chosen: Vec<usize> = places.iter().enumerate().filter(|(i, _)| set >> (i % 8) & 1 == 1).map(|(_, p)| *p).collect();
                            let mut m: M = vec![None; n];
                            chosen.iter().for_each(|p| m[*p] = Some(*p));
                            same_set(&Mask::fix_bells(stage(n), bells(&chosen)), &m, "fix_bells")?;
                            let twice: Vec<usize> = chosen.iter().rev().chain(&chosen).copied().collect();
                            let k = Mask::fix_bells(stage(n), bells(&twice));
                            same_set(&k, &m, "fix_bells twice")?;
                            eq!(k.to_string(), mask_text(&m), "display");
                            o.step(2);
                            o.see(&m);
                            Ok(())
                        });
                    }
                }
            }));
            split_unit(&mut u, "structured", 16, move |c, part| {
                for n in wide_stages(t.thorough()) {
                    if !part.mine() {
                        continue;
                    }
                    let f = small_family(n);
                    let rows: Vec<Perm> = f.iter().take(10).cloned().chain([identity(n + 1)]).chain((n > 1).then(|| identity(n - 1))).collect();
                    let mut ms: Vec<M> = vec![];
                    for r in f.iter().step_by(4).take(5) {
                        let full: M = r.iter().map(|b| Some(*b)).collect();
                        ms.push(full.clone());
                        ms.push(vec![None; n]);
                        for p in boundary_places(n).into_iter().step_by(if n > 40 { 4 } else { 1 }) {
                            let mut m = full.clone();
                            m[p] = None;
                            ms.push(m.clone());
                            m[n - 1 - p] = None;
                            ms.push(m.clone());
                            m[n / 2] = None;
                            ms.push(m.clone());
                            let mut m: M = vec![None; n];
                            m[p] = full[p];
                            ms.push(m.clone());
                            m[n - 1] = full[n - 1];
                            ms.push(m);
                        }
                    }
                    for m in &ms {
                        c.case(|| format!("mask {}", mask_text(m)), |o| single_case(m, &rows, o));
                    }
                    let ks: Vec<Mask> = ms.iter().map(real).collect();
                    for (a, ka) in ms.iter().zip(&ks).step_by(if n > 70 { 5 } else { 1 }) {
                        for (b, kb) in ms.iter().zip(&ks).step_by(if n > 70 { 3 } else { 1 }) {
                            c.case(|| format!("masks {} and {}", mask_text(a), mask_text(b)), |o| pair_case(a, b, ka, kb, o));
                        }
                    }
                }
            });
            u
        },
    }
}
