//! C11: a same-stage row collection behaves exactly like a list of rows

use super::*;
use crate::model::*;
use bellframe::{
    row::same_stage_vec,
    RowBuf, SameStageVec,
};
use serde_json::json;
use std::ops::Bound;

pub type Rg = (Bound<usize>, Bound<usize>);

/// The half-open range that a range argument means for a list of length `len`
pub fn resolve(r: &Rg, len: usize) -> (usize, usize) {
    let s = match r.0 {
        Bound::Included(a) => a,
        Bound::Excluded(a) => a + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Included(a) => a + 1,
        Bound::Excluded(a) => a,
        Bound::Unbounded => len,
    };
    (s, e)
}

/// The indices of a list of length `len`, and two more; only those near boundaries if the list is long
pub fn positions(len: usize) -> Vec<usize> {
    if len <= 12 {
        return (0..=len + 1).collect();
    }
    let mut v = vec![0, 1, 63, 64, 127, 128, 255, 256, 257, 65535, 65536, len / 2, len - 1, len, len + 1];
    if len > 10_000 {
        v = vec![0, 256, 65_535, 65_536, len - 1, len, len + 1];
    }
    v.retain(|i| *i <= len + 1);
    v.sort_unstable();
    v.dedup();
    v
}

/// The lengths of long lists
pub fn long_lengths(thorough: bool) -> Vec<usize> {
    let mut v = vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    if thorough {
        v.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]);
    }
    v
}

/// Stages and numbers of rows which need more than 12 and 16 bits
pub const HUGE_LISTS: [(usize, usize); 4] = [(1, 65_537), (3, 70_000), (2, 4097), (2, 65_537)];

/// All ranges with bounds up to `len + 1`, in several spellings, including reversed ones
pub fn ranges(len: usize, spellings: bool) -> Vec<Rg> {
    use Bound::*;
    let mut v: Vec<Rg> = vec![(Unbounded, Unbounded)];
    let at = positions(len);
    for &a in &at {
        for &b in &at {
            if b + 1 < a {
                continue;
            }
            v.push((Included(a), Excluded(b)));
            if spellings && b >= a {
                v.push((Included(a), Included(b)));
            }
        }
        if spellings {
            v.push((Included(a), Unbounded));
            v.push((Unbounded, Excluded(a)));
            v.push((Unbounded, Included(a)));
            v.push((Excluded(a), Unbounded));
        }
    }
    v.push((Included(0), Excluded(len + 64)));
    v.push((Included(len + 7), Excluded(len + 9)));
    v
}

#[derive(Clone, Debug)]
pub enum Op {
    Push(Perm),
    Pop,
    Extend(Vec<Perm>),
    ExtendFromBuf(usize, Vec<Perm>),
    ExtendTransposed(Perm, usize, Vec<Perm>),
    ExtendRangeTransposed(Perm, usize, Vec<Perm>, Rg),
    ExtendWithin(Rg, Perm),
    PreMultiply(Perm),
    Permute(Perm),
    PreMultiplied(Perm),
    SplitLeft(usize),
    SplitRight(usize),
    Swap(usize, usize, usize),
    SwapFirst,
    SwapLast,
    Reparse,
    Shrink,
}

#[derive(Clone)]
pub struct St {
    real: SameStageVec,
    model: Vec<Perm>,
    last: u8,
}

pub struct Sys {
    n: usize,
    rows: Vec<Perm>,
    others: Vec<(usize, Vec<Perm>)>,
    wrong: Vec<Perm>,
    max_len: usize,
    spellings: bool,
    deep: bool,
}

/// `len` rows, of which any two nearby ones differ, and no two blocks of 2^k rows are alike
pub fn long_list(n: usize, len: usize, salt: usize) -> Vec<Perm> {
    let f = if n <= 4 { all_perms(n) } else { small_family(n) };
    (0..len).map(|i| f[(i + i / 7 + i / 64 + i / 256 + salt) % f.len()].clone()).collect()
}

impl Sys {
    pub fn new(n: usize, max_len: usize, spellings: bool, deep: bool) -> Self {
        let f = if n <= 3 { all_perms(n) } else { small_family(n) };
        let pick = |i: usize| f[i % f.len()].clone();
        let rows: Vec<Perm> = if n <= 2 { f.clone() } else { vec![pick(0), pick(1), pick(3), pick(f.len() - 1)] };
        let mut wrong = vec![identity(n + 1)];
        if n > 1 {
            wrong.push((0..n - 1).rev().collect());
        }
        if n % 2 == 0 {
            wrong.push((0..n / 2).rev().collect());
        }
        wrong.push((0..2 * n).rev().collect());
        let mut others = vec![(n, vec![]), (n, vec![pick(1)]), (n, vec![pick(2), pick(4)]), (n, vec![pick(1), pick(0), pick(3)])];
        for w in &wrong {
            others.push((w.len(), vec![]));
            others.push((w.len(), vec![w.clone()]));
            others.push((w.len(), vec![w.clone(), w.clone(), identity(w.len())]));
        }
        Sys { n, rows, others, wrong, max_len, spellings, deep }
    }

    fn init(&self, model: &[Perm]) -> St {
        St { real: ssv(self.n, model), model: model.to_vec(), last: 0 }
    }

    fn extending(&self, src: &[Perm], t: &Perm, r: &Rg) -> Option<Vec<Perm>> {
        let (s, e) = resolve(r, src.len());
        if s > e || e > src.len() {
            return None;
        }
        Some(src[s..e].iter().map(|p| mul(t, p)).collect())
    }
}

impl System for Sys {
    type State = St;
    type Op = Op;
    type Key = (Vec<Perm>, u8);

    fn key(&self, s: &St) -> Self::Key {
        (s.model.clone(), s.last)
    }
    fn describe(&self, s: &St) -> String {
        format!("{:?}", s.model)
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Pop, Op::SwapFirst, Op::SwapLast, Op::Reparse, Op::Shrink];
        let grow = s.model.len() < self.max_len;
        for r in self.rows.iter().chain(&self.wrong) {
            if grow || r.len() != self.n {
                v.push(Op::Push(r.clone()));
            }
            v.push(Op::PreMultiply(r.clone()));
        }
        v.push(Op::Permute(self.rows[1 % self.rows.len()].clone()));
        v.push(Op::Permute(self.wrong[0].clone()));
        v.push(Op::PreMultiplied(self.rows[1 % self.rows.len()].clone()));
        v.push(Op::PreMultiplied(self.wrong[0].clone()));
        for i in positions(s.model.len()).into_iter().chain([usize::MAX, usize::MAX / self.n, (usize::MAX / self.n).saturating_add(1)]) {
            v.push(Op::SplitLeft(i));
            if i <= s.model.len() {
                v.push(Op::SplitRight(i));
                v.push(Op::Swap(i, 0, self.n - 1));
                v.push(Op::Swap(i, self.n - 1, self.n));
            }
        }
        let (r0, r1) = (self.rows[0].clone(), self.rows[self.rows.len() - 1].clone());
        if grow {
            for l in [vec![], vec![r1.clone()], vec![r1.clone(), r0.clone(), r1.clone()]] {
                v.push(Op::Extend(l));
            }
            for (_, l) in self.others.iter().filter(|(m, l)| *m == self.n && l.len() > 3) {
                v.push(Op::Extend(l.clone()));
                let mut l = l.clone();
                *l.last_mut().unwrap() = self.wrong[0].clone();
                v.push(Op::Extend(l));
            }
        }
        for w in &self.wrong {
            v.push(Op::Extend(vec![w.clone()]));
            v.push(Op::Extend(vec![r1.clone(), w.clone()]));
            v.push(Op::Extend(vec![r1.clone(), r0.clone(), w.clone(), r1.clone()]));
        }
        let t = self.rows[(self.rows.len() - 1).min(2)].clone();
        for (m, o) in &self.others {
            if *m == self.n && !grow {
                continue;
            }
            v.push(Op::ExtendFromBuf(*m, o.clone()));
            v.push(Op::ExtendTransposed(t.clone(), *m, o.clone()));
            if *m == self.n {
                for rg in ranges(o.len(), self.spellings) {
                    v.push(Op::ExtendRangeTransposed(t.clone(), *m, o.clone(), rg));
                }
                for w in &self.wrong {
                    v.push(Op::ExtendTransposed(w.clone(), *m, o.clone()));
                }
            } else {
                v.push(Op::ExtendRangeTransposed(t.clone(), *m, o.clone(), (Bound::Included(0), Bound::Excluded(o.len().min(1)))));
                v.push(Op::ExtendTransposed(identity(*m), *m, o.clone()));
            }
        }
        if grow {
            for rg in ranges(s.model.len(), self.spellings) {
                v.push(Op::ExtendWithin(rg, t.clone()));
            }
        }
        for w in &self.wrong {
            v.push(Op::ExtendWithin((Bound::Unbounded, Bound::Unbounded), w.clone()));
        }
        v
    }

    fn apply(&self, s: &St, op: &Op, o: &mut Obs) -> Result<St, String> {
        let n = self.n;
        let mut real = s.real.clone();
        let mut model = s.model.clone();
        // The outcome of an operation which extends by transposed rows or panics
        let range_op = |what: &str, r: Result<Result<(), bellframe::IncompatibleStages>, String>, t: &Perm, m: usize, src: &[Perm], rg: &Rg, model: &mut Vec<Perm>| -> Result<(), String> {
            if t.len() != n {
                match r {
                    Ok(r) if m == n => return refused(r, n, t.len(), what),
                    Ok(Err(e)) => return check_ist(&e, n, m, what).or(check_ist(&e, n, t.len(), what)),
                    Ok(Ok(())) => return Err(format!("{what} accepted stages {n}, {} and {m}", t.len())),
                    // Refusing by panic is only for ranges
                    Err(e) => return Err(format!("{what} panicked: {e}")),
                }
            }
            let (a, b) = resolve(rg, src.len());
            let bad_range = a > b || b > src.len();
            if m != n {
                return match r {
                    Ok(r) => refused(r, n, m, what),
                    Err(_) if bad_range => Ok(()),
                    Err(e) => Err(format!("{what} panicked: {e}")),
                };
            }
            match (r, self.extending(src, t, rg)) {
                (Ok(Ok(())), Some(rows)) => {
                    model.extend(rows);
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (Ok(Ok(())), None) if a > b => Ok(()), // reversed ranges may be taken as empty
                (Err(e), Some(_)) => Err(format!("{what} panicked: {e}")),
                (Ok(Err(e)), _) => Err(format!("{what} refused equal stages: {e}")),
                (Ok(Ok(())), None) => Err(format!("{what} accepted the range {rg:?} of {} rows", src.len())),
            }
        };
        let kind: u8 = match op {
            Op::Push(r) => {
                let res = real.push(&row(r));
                if r.len() == n {
                    eq!(res, Ok(()), "push");
                    model.push(r.clone());
                } else {
                    refused(res, n, r.len(), "push")?;
                }
                1
            }
            Op::Pop => {
                eq!(real.pop().map(|r| perm(&r)), model.pop(), "pop");
                2
            }
            Op::Extend(l) => {
                let rows: Vec<RowBuf> = l.iter().map(|r| row(r)).collect();
                let res = real.extend(rows.iter());
                match l.iter().find(|r| r.len() != n) {
                    None => {
                        eq!(res, Ok(()), "extend");
                        model.extend(l.iter().cloned());
                    }
                    Some(w) => refused(res, n, w.len(), "extend")?,
                }
                3
            }
            Op::ExtendFromBuf(m, l) => {
                let res = real.extend_from_buf(&ssv(*m, l));
                if *m == n {
                    eq!(res, Ok(()), "extend_from_buf");
                    model.extend(l.iter().cloned());
                } else {
                    refused(res, n, *m, "extend_from_buf")?;
                }
                4
            }
            Op::ExtendTransposed(t, m, l) => {
                let other = ssv(*m, l);
                let res = caught(|| real.extend_transposed(&row(t), &other));
                range_op("extend_transposed", res, t, *m, l, &(Bound::Unbounded, Bound::Unbounded), &mut model)?;
                eq!(ssv_perms(&other), *l, "the other collection");
                5
            }
            Op::ExtendRangeTransposed(t, m, l, rg) => {
                let other = ssv(*m, l);
                let res = caught(|| real.extend_range_transposed(&row(t), &other, *rg));
                range_op("extend_range_transposed", res, t, *m, l, rg, &mut model)?;
                eq!(ssv_perms(&other), *l, "the other collection");
                6
            }
            Op::ExtendWithin(rg, t) => {
                let src = model.clone();
                let res = caught(|| real.extend_transposed_from_within(*rg, &row(t)));
                range_op("extend_transposed_from_within", res, t, n, &src, rg, &mut model)?;
                7
            }
            Op::PreMultiply(r) | Op::Permute(r) | Op::PreMultiplied(r) => {
                let (what, res) = match op {
                    Op::PreMultiply(_) => ("pre_multiply", real.pre_multiply(&row(r))),
                    Op::Permute(_) => ("permute", real.permute(&row(r))),
                    _ => {
                        let res = real.pre_multiplied(&row(r));
                        eq!(ssv_perms(&real), model, "receiver of pre_multiplied");
                        ("pre_multiplied", res.map(|x| real = x))
                    }
                };
                if r.len() == n {
                    eq!(res, Ok(()), "{what}");
                    model.iter_mut().for_each(|p| *p = mul(r, p));
                } else {
                    refused(res, n, r.len(), what)?;
                }
                8
            }
            Op::SplitLeft(i) | Op::SplitRight(i) => {
                let left = matches!(op, Op::SplitLeft(_));
                match (real.clone().split(*i), *i <= model.len()) {
                    (None, false) => {}
                    (Some((a, b)), true) => {
                        eq!(ssv_perms(&a), model[..*i].to_vec(), "left of split({i})");
                        eq!(ssv_perms(&b), model[*i..].to_vec(), "right of split({i})");
                        eq!((a.stage().num_bells(), b.stage().num_bells()), (n, n), "stages after split");
                        if left {
                            real = a;
                            model.truncate(*i);
                        } else {
                            real = b;
                            model.drain(..*i);
                        }
                    }
                    (r, _) => return Err(format!("split({i}) of {} rows gave {r:?}", model.len())),
                }
                if left { 9 } else { 10 }
            }
            Op::Swap(i, a, b) => {
                let res = caught(|| real.get_mut(*i).map(|r| r.swap(*a, *b)));
                match res {
                    Ok(r) => {
                        eq!(r.is_some(), *i < model.len(), "get_mut({i})");
                        if r.is_some() {
                            ensure!(*a < n && *b < n, "swap({a}, {b}) on {n} bells was accepted");
                            model[*i].swap(*a, *b);
                        }
                    }
                    Err(e) => ensure!(*i < model.len() && (*a >= n || *b >= n), "get_mut({i}).swap({a}, {b}) panicked: {e}"),
                }
                11
            }
            Op::SwapFirst => {
                let r = real.first_mut().map(|r| r.swap(0, n - 1));
                eq!(r.is_some(), !model.is_empty(), "first_mut");
                if let Some(p) = model.first_mut() {
                    p.swap(0, n - 1);
                }
                12
            }
            Op::SwapLast => {
                let r = real.last_mut().map(|r| r.swap(0, n - 1));
                eq!(r.is_some(), !model.is_empty(), "last_mut");
                if let Some(p) = model.last_mut() {
                    p.swap(0, n - 1);
                }
                13
            }
            Op::Reparse => {
                let text: Vec<String> = model.iter().map(|p| row_text(p)).collect();
                if n <= 33 {
                    match (SameStageVec::parse(&text.join("\n")), model.is_empty()) {
                        (Ok(v), false) => real = v,
                        (Err(_), true) => {}
                        (r, _) => return Err(format!("parsing {text:?} gave {r:?}")),
                    }
                }
                14
            }
            Op::Shrink => {
                let mut v = SameStageVec::with_capacity(stage(n), 1);
                eq!(v.extend_from_buf(&real), Ok(()), "extend_from_buf");
                let all = model.iter().flat_map(|p| bells(p)).collect();
                eq!(unsafe { SameStageVec::from_bell_vec_unchecked(all, stage(n)) }, v, "from_bell_vec_unchecked");
                real = v;
                15
            }
        };
        observe(&real, &model, n, o, self.deep)?;
        Ok(St { real, model, last: kind })
    }
}

/// Everything observable about a collection
pub fn observe(v: &SameStageVec, model: &[Perm], n: usize, o: &mut Obs, deep: bool) -> Result<(), String> {
    eq!(v.stage().num_bells(), n, "stage");
    eq!(v.len(), model.len(), "len");
    eq!(v.is_empty(), model.is_empty(), "is_empty");
    let got: Vec<Perm> = v.iter().map(|r| perm(r)).collect();
    eq!(got, model.to_vec(), "rows");
    let got: Vec<Perm> = v.into_iter().rev().map(|r| perm(r)).collect();
    ensure!(got.iter().eq(model.iter().rev()), "rows backwards: {got:?}");
    for (i, p) in model.iter().enumerate() {
        eq!(v.get(i).map(perm).as_ref(), Some(p), "get({i})");
        eq!(perm(&v[i]), *p, "[{i}]");
    }
    eq!(v.first().map(perm).as_ref(), model.first(), "first");
    eq!(v.last().map(perm).as_ref(), model.last(), "last");
    o.step(8 + 2 * model.len() as u64);
    o.see(model);
    for b in (0..n.min(40)).chain([n - 1]) {
        let path: Vec<usize> = model.iter().map(|p| p.iter().position(|x| *x == b).unwrap()).collect();
        eq!(v.path_of(bell(b)), Some(path), "path_of bell index {b}");
    }
    for b in [n, n + 1, n + 64, 1 << 40] {
        eq!(v.path_of(bell(b)), None, "path_of absent bell index {b}");
    }
    let text: Vec<String> = model.iter().map(|p| row_text(p)).collect();
    let dbg = if text.is_empty() { "SameStageVec".to_string() } else { format!("SameStageVec({})", text.join(", ")) };
    eq!(format!("{v:?}"), dbg, "Debug");
    // Equality and hash against independently built collections
    let same = ssv(n, model);
    ensure!(*v == same && same == *v, "not equal to a fresh collection of the same rows");
    eq!(hash_of(v), hash_of(&same), "hash");
    let mut olds = vec![ssv(n, &[]), ssv(n + 1, &[]), ssv(2 * n, &[identity(2 * n)]), same.clone()];
    olds.push(ssv(n, &vec![(0..n).rev().collect::<Perm>(); model.len().min(8) + 1]));
    if n > 1 {
        olds.push(ssv(n - 1, &[identity(n - 1), identity(n - 1)]));
    }
    super::copies(v, olds, |c| {
        ensure!(ssv_perms(c) == model && c.stage().num_bells() == n && c.len() == model.len(), "copy is {c:?} of stage {}", c.stage());
        super::check_eq(c, v, true)?;
        eq!(hash_of(c), hash_of(v), "hash of a copy");
        if model.len() < 64 {
            let mut c = c.clone();
            super::refused(c.push(&RowBuf::rounds(stage(n + 1))), n, n + 1, "push onto a copy")?;
            eq!(c.push(&RowBuf::backrounds(stage(n))), Ok(()), "push onto a copy");
            eq!(c.last().map(perm), Some((0..n).rev().collect::<Perm>()), "row pushed onto a copy");
        }
        Ok(())
    })?;
    super::check_eq(&ssv(n + 1, &[]), &ssv(n, &[]), false)?;
    let mut longer = model.to_vec();
    longer.push(identity(n));
    ensure!(*v != ssv(n, &longer), "equal to a longer collection");
    if let Some(last) = model.last() {
        ensure!(*v != ssv(n, &model[..model.len() - 1]), "equal to a shorter collection");
        if n > 1 {
            let mut other = model.to_vec();
            let mut l = last.clone();
            l.swap(0, n - 1);
            *other.last_mut().unwrap() = l;
            ensure!(*v != ssv(n, &other), "equal to a different collection");
        }
    } else {
        ensure!(*v != ssv(n + 1, &[]), "equal to an empty collection of another stage");
    }
    let mut w = v.clone();
    for i in [model.len(), model.len() + 1, model.len() + 64, usize::MAX, usize::MAX - 1, usize::MAX / n, (usize::MAX / n).saturating_add(1), usize::MAX / 2 + 1, (1 << 63) / n, (1 << 32) / n + 1, 1 << 32, 1 << 62] {
        if i < model.len() {
            continue;
        }
        eq!(v.get(i).map(perm), None, "get({i}) of {} rows", model.len());
        eq!(w.get_mut(i).map(|r| perm(r)), None, "get_mut({i}) of {} rows", model.len());
        if deep {
            ensure!(panics(|| perm(&v[i])), "[{i}] of {} rows didn't panic", model.len());
        }
        if i > model.len() {
            ensure!(v.clone().split(i).is_none(), "split({i}) of {} rows gave something", model.len());
        }
    }
    o.step(30);
    Ok(())
}

/// What parsing several lines must give
fn parse_case(s: &str, o: &mut Obs) -> Result<(), String> {
    use same_stage_vec::ParseError::*;
    let lines: Vec<&str> = s.lines().collect();
    let rows: Vec<Perm> = lines.iter().map(|l| l.chars().filter_map(bell_of_char).collect()).collect();
    o.step(1);
    o.see(s);
    let fine = !rows.is_empty() && rows.iter().all(|r| is_perm(r) && r.len() == rows[0].len());
    match SameStageVec::parse(s) {
        Ok(v) => {
            ensure!(fine, "{s:?} was accepted as {v:?}");
            observe(&v, &rows, rows[0].len(), o, false)
        }
        Err(e) => {
            ensure!(!fine, "{s:?} was refused: {e}");
            let _ = format!("{e} {e:?}");
            match e {
                // No lines at all
                ZeroStage => ensure!(rows.first().map_or(true, |r| r.is_empty()), "{s:?} refused as {e:?}"),
                InvalidRow { line_num, err } => {
                    let empty = vec![];
                    let r = match rows.get(line_num.wrapping_sub(1)) {
                        Some(r) => r,
                        None if rows.is_empty() && line_num == 1 => &empty,
                        None => return Err(format!("{s:?}: no line {line_num}")),
                    };
                    ensure!(!is_perm(r), "{s:?}: line {line_num} is fine");
                    row_build::truthful(&err, r, r.len(), false)?;
                }
                IncompatibleStages { line_num, first_stage, different_stage } => {
                    let r = rows.get(line_num.wrapping_sub(1)).ok_or(format!("{s:?}: no line {line_num}"))?;
                    eq!((first_stage.num_bells(), different_stage.num_bells()), (rows[0].len(), r.len()), "{s:?}: stages named");
                    ensure!(r.len() != rows[0].len(), "{s:?}: line {line_num} has the right stage");
                }
            }
            Ok(())
        }
    }
}

const BASE: usize = 4099;

/// Row `i` of `millions`
pub fn millions_row(n: usize, i: usize, len: usize) -> Perm {
    if i + 1 == len {
        return (0..n).rev().collect();
    }
    let k = i % BASE;
    let mut p: Perm = (0..n).map(|j| (j + k) % n).collect();
    p.swap(0, k / n % n);
    p
}

/// Millions of rows
pub fn millions(n: usize, len: usize) -> Result<SameStageVec, String> {
    let base: Vec<Perm> = (0..BASE).map(|i| millions_row(n, i, len)).collect();
    let base = ssv(n, &base);
    let mut v = SameStageVec::new(stage(n));
    while v.len() + BASE < len {
        v.extend_from_buf(&base).map_err(|e| e.to_string())?;
    }
    for i in v.len()..len {
        v.push(&row(&millions_row(n, i, len))).map_err(|e| e.to_string())?;
    }
    Ok(v)
}

fn millions_case(n: usize, len: usize, o: &mut Obs) -> Result<(), String> {
    let mut v = millions(n, len)?;
    let want = |i: usize| millions_row(n, i, len);
    eq!((v.len(), v.is_empty(), v.stage().num_bells()), (len, false, n), "len");
    let at: Vec<usize> = (0..25).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, len - 1 - (1 << k) % len]).chain([len / 2, len - 1, len - 2]).filter(|&i| i < len).collect();
    for &i in &at {
        eq!(v.get(i).map(perm), Some(want(i)), "get({i})");
        eq!(v.get_mut(i).map(|r| perm(r)), Some(want(i)), "get_mut({i})");
        eq!(perm(&v[i]), want(i), "[{i}]");
    }
    for i in [len, len + 1, 2 * len, 1 << 31, 1 << 32, usize::MAX] {
        eq!(v.get(i).map(perm), None, "get({i})");
    }
    eq!((v.first().map(perm), v.last().map(perm)), (Some(want(0)), Some(want(len - 1))), "ends");
    let path = v.path_of(bell(n - 1)).ok_or("no path")?;
    eq!(path.len(), len, "length of a path");
    for &i in &at {
        eq!(path[i], want(i).iter().position(|b| *b == n - 1).unwrap(), "path at {i}");
    }
    drop(path);
    let c = v.clone();
    ensure!(c == v, "a clone is different");
    for i in [len, len - 1, len / 2, 65_536, 0] {
        let (a, b) = c.clone().split(i).ok_or(format!("split({i}) gave nothing"))?;
        eq!((a.len(), b.len()), (i, len - i), "lengths of the halves at {i}");
        eq!(a.last().map(perm), i.checked_sub(1).map(want), "last row before {i}");
        eq!(b.first().map(perm), (i < len).then(|| want(i)), "first row after {i}");
        eq!(b.last().map(perm), (i < len).then(|| want(len - 1)), "last row of the second half at {i}");
    }
    let back = row(&(0..n).rev().collect::<Perm>());
    for (lo, hi) in [(len - 2, len), (len / 2, len / 2 + 3), (65_535, 65_538), (0, len)] {
        let mut w = ssv(n, &[identity(n)]);
        eq!(w.extend_range_transposed(&back, &v, lo..hi), Ok(()), "extend_range_transposed({lo}..{hi})");
        eq!(w.len(), 1 + hi - lo, "length after adding {lo}..{hi}");
        for i in [lo, hi - 1] {
            eq!(w.get(1 + i - lo).map(perm), Some(mul(&perm(&back), &want(i))), "row {i} transposed");
        }
    }
    let mut w = c;
    eq!(w.extend_transposed_from_within(len - 3..len, &back), Ok(()), "extend_transposed_from_within");
    eq!(w.len(), len + 3, "len after");
    for i in 0..3 {
        eq!(w.get(len + i).map(perm), Some(mul(&perm(&back), &want(len - 3 + i))), "transposed row {i}");
        eq!(w.get(len - 3 + i).map(perm), Some(want(len - 3 + i)), "row {i} that was there before");
    }
    eq!((w.pop().map(|r| perm(&r)), w.len()), (Some(mul(&perm(&back), &want(len - 1))), len + 2), "pop");
    eq!(w.pre_multiply(&back), Ok(()), "pre_multiply");
    eq!(w.len(), len + 2, "len after pre_multiply");
    for &i in &at {
        eq!(w.get(i).map(perm), Some(mul(&perm(&back), &want(i))), "row {i} after pre_multiply");
    }
    o.step(len as u64);
    o.see(&(n, len));
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "A case is one operation on one reached state (real collection and list of plain rows, advanced together), \
               followed by comparing every observer; states are merged when rows and kind of last operation agree.  \
               Distinct by resulting list.",
        bounds: |t| {
            json!({"systems": "stages 1, 2, 3, 4, 12, 33, 65", "depth": t.pick("3 (4 on 1 and 2 bells)", "5 (stages 1, 2), 4 (others)"), "max_rows_before_growing": 4,
                "long_lists": {"stages": [1, 2, 3, 12, 65, 257], "rows": long_lengths(t.thorough()), "depth": "every operation once"},
                "huge_lists": "2 bells x 4097 and 65537 rows (thorough: 1 x 65537 and 3 x 70000), every operation once with bounds around 2^8, 2^16 and the ends",
                "millions": "2^24 + 1 rows on one bell, 5592407 on 3, 2500003 on 7: length, rows around every power of 2, halves, ranges, transposing and popping",
                "operation_instances_per_state": "about 100 to 250: every operation with matching and mismatching stages and every range with bounds up to len+1",
                "parse_texts": {"alphabet": "1 2 3 newline CR space", "length": [0, t.pick(8, 9)]}})
        },
        assumptions: &["a reversed range may be treated as empty or panic; a range beyond the end must panic"],
        units: |t| {
            let mut u = vec![];
            for (n, d) in [(1, t.pick(4, 5)), (2, t.pick(4, 5)), (3, t.pick(3, 4)), (4, t.pick(3, 4)), (12, 3), (33, t.pick(2, 3)), (65, t.pick(2, 3))] {
                // One unit per initial collection
                let sys = Sys::new(n, 4, n <= 4, n <= 3);
                let mut inits: Vec<Vec<Perm>> = vec![vec![]];
                inits.push(vec![sys.rows[1 % sys.rows.len()].clone()]);
                inits.push(sys.rows.iter().rev().take(2).cloned().collect());
                inits.push(sys.rows.clone());
                for (k, i) in inits.into_iter().enumerate() {
                    u.push(unit(format!("operations-{n}-{k}"), move |c| {
                        let sys = Sys::new(n, 4, n <= 4, n <= 3);
                        let st = sys.init(&i);
                        explore(c, &sys, vec![(format!("{i:?}"), st)], d, 400_000, true);
                    }));
                }
            }
            // Every operation once on long lists, with long lists
            for (k, len) in long_lengths(t.thorough()).into_iter().enumerate() {
                for n in [1, 2, 3, 12, 65, 257] {
                    if len > 300 && n > 3 || n > 12 && k % 3 != 0 {
                        continue;
                    }
                    u.push(unit(format!("long-{n}-{len}"), move |c| {
                        let mut sys = Sys::new(n, usize::MAX, false, true);
                        sys.others.push((n, long_list(n, len, 1)));
                        sys.others.push((n, long_list(n, 300 - len.min(299), 2)));
                        let init = sys.init(&long_list(n, len, 0));
                        explore(c, &sys, vec![(format!("{len} rows on {n} bells"), init)], 1, 400_000, true);
                    }));
                }
            }
            // And on huge ones
            for (n, len) in HUGE_LISTS.into_iter().skip(if t.thorough() { 0 } else { 2 }) {
                u.push(unit(format!("huge-{n}-{len}"), move |c| {
                    let mut sys = Sys::new(n, usize::MAX, false, false);
                    sys.others.push((n, long_list(n, len, 1)));
                    let init = sys.init(&long_list(n, len, 0));
                    explore(c, &sys, vec![(format!("{len} rows on {n} bells"), init)], 1, 400_000, true);
                }));
            }
            // And on lists of more bells than a 24-bit mantissa holds
            split_unit(&mut u, "millions", 3, |c, part| {
                for (n, len) in [(1usize, (1usize << 24) + 1), (3, 5_592_407), (7, 2_500_003)] {
                    if part.mine() {
                        c.case(|| format!("{len} rows on {n} bells"), |o| millions_case(n, len, o));
                    }
                }
            });
            u.push(unit("initial", |c| {
                for n in wide_stages(false) {
                    c.case(|| format!("new collections of stage {n}"), |o| {
                        observe(&SameStageVec::new(stage(n)), &[], n, o, true)?;
                        observe(&SameStageVec::with_capacity(stage(n), 3), &[], n, o, true)?;
                        for p in small_family(n).into_iter().take(4) {
                            observe(&SameStageVec::from_row_buf(row(&p)), &[p], n, o, true)?;
                        }
                        Ok(())
                    });
                }
            }));
            let max = t.pick(8, 9);
            split_unit(&mut u, "parse", 16, move |c, part| {
                all_strings(&['1', '2', '3', '\n', '\r', ' '], max, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                    }
                });
                all_strings(&['1', '2', '\n'], max + 3, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                    }
                });
                // Many lines, one of them bad
                for n in [3usize, 12, 33] {
                    let f = small_family(n);
                    for len in [1usize, 5, 64, 257] {
                        for at in [0, 1, len / 2, len - 1, len] {
                            for bad in ["", "1", "12", "11", "13", "1234"] {
                                if !part.mine() {
                                    continue;
                                }
                                let lines: Vec<String> = (0..len).map(|i| if i == at { bad.into() } else { row_text(&f[i % f.len()]) }).collect();
                                for s in [lines.join("\n"), lines.join("\r\n"), lines.join("\n") + "\n"] {
                                    c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                                }
                            }
                        }
                    }
                }
            });
            u
        },
    }
}
