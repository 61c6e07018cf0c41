//! C01: no sequence of safe calls reaches an invalid row, a misaligned list or a lopsided block.

use super::*;
use crate::model::*;
use bellframe::{
    row::RowAccumulator, AnnotBlock, Bell, Mask, PlaceNot, PnBlock, Row, RowBuf, SameStageVec,
};
use serde_json::json;
use std::{fmt, ops::Bound, sync::Arc};

/// All the objects of a program
#[derive(Clone)]
pub struct World {
    r: RowBuf,
    v: SameStageVec,
    b: AnnotBlock<u8>,
    m: Mask,
    a: RowAccumulator,
}

/// Everything observable about a world
type Key = (Perm, (usize, Vec<Perm>), (usize, Vec<Perm>, Vec<u8>), String, Perm);

/// How an operation may end
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Done,
    /// Refused with an error
    Refused,
}

/// What holds after a panic
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum After {
    /// Nothing may have changed (the panic is about an index or range)
    Same,
    /// Only the invariants need to hold
    Valid,
}

#[derive(Clone)]
pub struct Op {
    name: String,
    after: After,
    run: Arc<dyn Fn(&mut World) -> Result<End, String> + Send + Sync>,
}

impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.name)
    }
}

fn valid_row(r: &Row, what: &str) -> Result<Perm, String> {
    let p: Perm = r.slice().iter().map(|b| b.index()).collect();
    ensure!(is_perm(&p), "{what} is {p:?}, which isn't a row");
    eq!(r.stage().num_bells(), p.len(), "stage of {what}");
    eq!(r.bell_iter().map(|b| b.index()).collect::<Vec<_>>(), p, "bells of {what}");
    Ok(p)
}

fn valid_list(v: &SameStageVec, what: &str) -> Result<Vec<Perm>, String> {
    let n = v.stage().num_bells();
    let mut rows = vec![];
    for r in v {
        ensure!(rows.len() < 10_000, "{what} doesn't end");
        let p = valid_row(r, what)?;
        eq!(p.len(), n, "stage of a row of {what}");
        rows.push(p);
    }
    eq!(v.len(), rows.len(), "length of {what}");
    eq!(v.is_empty(), rows.is_empty(), "emptiness of {what}");
    for (i, p) in rows.iter().enumerate() {
        eq!(v.get(i).map(perm).as_ref(), Some(p), "row {i} of {what}");
    }
    ensure!(v.get(rows.len()).is_none(), "{what} has a row beyond its end");
    eq!(v.iter().rev().count(), rows.len(), "rows of {what} backwards");
    eq!(v.last().map(perm).as_ref(), rows.last(), "last row of {what}");
    Ok(rows)
}

fn valid_block(b: &AnnotBlock<u8>, what: &str) -> Result<(Vec<Perm>, Vec<u8>), String> {
    let rows = valid_list(b.row_vec(), what)?;
    let annots: Vec<u8> = b.annots().copied().collect();
    eq!(rows.len(), annots.len() + 1, "rows against annotations of {what}");
    eq!(b.len(), annots.len(), "length of {what}");
    eq!(b.annot_rows().count(), annots.len(), "annotated rows of {what}");
    eq!(b.rows().count(), annots.len(), "rows() of {what}");
    eq!(b.all_rows().count(), rows.len(), "all_rows() of {what}");
    valid_row(b.leftover_row(), what)?;
    valid_row(b.first_row(), what)?;
    Ok((rows, annots))
}

fn check(w: &World) -> Result<Key, String> {
    let r = valid_row(&w.r, "the row")?;
    let v = valid_list(&w.v, "the list")?;
    let (rows, annots) = valid_block(&w.b, "the block")?;
    let a = valid_row(w.a.total(), "the accumulated row")?;
    if let Some(x) = w.m.as_row() {
        valid_row(&x, "the mask's row")?;
    }
    Ok((r, (w.v.stage().num_bells(), v), (w.b.stage().num_bells(), rows, annots), format!("{}", w.m), a))
}

struct Sys {
    ops: Vec<Op>,
    /// No operation is applied to longer lists
    max_len: usize,
}

impl System for Sys {
    type State = (World, Key);
    type Op = Op;
    type Key = Key;

    fn key(&self, s: &Self::State) -> Key {
        s.1.clone()
    }
    fn describe(&self, s: &Self::State) -> String {
        format!("{:?}", s.1)
    }
    fn ops(&self, s: &Self::State) -> Vec<Op> {
        if s.1 .1 .1.len() > self.max_len || s.1 .2 .1.len() > self.max_len {
            return self.ops.iter().filter(|o| o.name.contains("pop") || o.name.contains("split")).cloned().collect();
        }
        self.ops.clone()
    }
    fn apply(&self, s: &Self::State, op: &Op, o: &mut Obs) -> Result<Self::State, String> {
        let mut w = s.0.clone();
        let end = {
            let w = &mut w;
            caught(|| (op.run)(w))
        };
        let key = match end {
            Ok(end) => {
                end?;
                check(&w)?
            }
            Err(msg) => {
                let k = check(&w).map_err(|e| format!("after panicking ({msg}): {e}"))?;
                if op.after == After::Same {
                    ensure!(k == s.1, "panicked ({msg}) and left {k:?}");
                }
                k
            }
        };
        o.step(1);
        o.see(&(&op.name, &key));
        Ok((w, key))
    }
}

fn end<T, E>(r: Result<T, E>) -> Result<End, String> {
    Ok(if r.is_ok() { End::Done } else { End::Refused })
}

fn ok<T>(_: T) -> Result<End, String> {
    Ok(End::Done)
}

type Rg = (Bound<usize>, Bound<usize>);

fn all_ranges(max: usize) -> Vec<Rg> {
    use Bound::*;
    let mut v = vec![(Unbounded, Unbounded)];
    let mut ends: Vec<usize> = (0..=max).collect();
    ends.extend([max + 3, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    for &a in &ends {
        for &b in &ends {
            v.push((Included(a), Excluded(b)));
        }
        v.push((Included(a), Unbounded));
        v.push((Unbounded, Excluded(a)));
        v.push((Unbounded, Included(a)));
        v.push((Excluded(a), Unbounded));
    }
    v
}

/// A few rows of several stages
fn some_rows(n: usize) -> Vec<Perm> {
    let mut v = vec![];
    for m in [n, n + 1, n.saturating_sub(1), 2 * n] {
        if m > 0 {
            let f = family(m);
            v.push(f[1 % f.len()].clone());
            if m == n {
                v.push(f[f.len() / 2].clone());
            }
        }
    }
    v.dedup();
    v
}

fn ops(n: usize, max: usize, all: bool) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, after: After, run: Box<dyn Fn(&mut World) -> Result<End, String> + Send + Sync>| {
        v.push(Op { name, after, run: run.into() });
    };
    use After::*;
    let places: Vec<usize> = vec![0, 1, n - 1, n, n + 1, usize::MAX];
    let indices: Vec<usize> = vec![0, 1, 2, max, max + 1, usize::MAX / 2, usize::MAX];
    let rows = some_rows(n);
    let stages: Vec<usize> = [1, n.saturating_sub(1), n, n + 1, 2 * n].into_iter().filter(|&x| x > 0).collect();

    // ---- rows
    for &a in &places {
        for &b in &places {
            if a > b && !all {
                continue;
            }
            add(format!("r.swap({a}, {b})"), Same, Box::new(move |w| ok(w.r.swap(a, b))));
            add(format!("v.first_mut().swap({a}, {b})"), Same, Box::new(move |w| ok(w.v.first_mut().map(|r| r.swap(a, b)))));
            add(format!("v.last_mut().swap({a}, {b})"), Same, Box::new(move |w| ok(w.v.last_mut().map(|r| r.swap(a, b)))));
        }
        add(format!("r[{a}]"), Same, Box::new(move |w| ok(w.r[a])));
        add(format!("v[{a}]"), Same, Box::new(move |w| ok(w.v[a].is_rounds())));
    }
    for i in indices.clone() {
        add(format!("v.get_mut({i}).swap(0, {})", n - 1), Same, Box::new(move |w| ok(w.v.get_mut(i).map(|r| r.swap(0, n - 1)))));
        add(format!("v.get_mut({i}).parity()"), Valid, Box::new(move |w| ok(w.v.get_mut(i).map(|r| r.parity()))));
        add(format!("v.get({i}) into v.get_mut(0)"), Valid, Box::new(move |w| {
            let Some(src) = w.v.get(i).map(|r| r.to_owned()) else { return Ok(End::Refused) };
            let Some(dst) = w.v.get_mut(0) else { return Ok(End::Refused) };
            end(src.inv_into(dst))
        }));
        add(format!("r into v.get_mut({i}) by mul_into_row"), Valid, Box::new(move |w| {
            let r = w.r.clone();
            let t = w.a.total().to_owned();
            match w.v.get_mut(i) {
                Some(dst) => end(r.mul_into_row(&t, dst)),
                None => Ok(End::Refused),
            }
        }));
        add(format!("r.inv_into(v.get_mut({i}))"), Valid, Box::new(move |w| match w.v.get_mut(i) {
            Some(dst) => end(w.r.inv_into(dst)),
            None => Ok(End::Refused),
        }));
        add(format!("pn.permute(v.get_mut({i}))"), Valid, Box::new(move |w| {
            let p = PlaceNot::parse(if n % 2 == 0 { "x" } else { "1" }, stage(n)).map_err(|e| e.to_string())?;
            match w.v.get_mut(i) {
                Some(dst) => end(p.permute(dst)),
                None => Ok(End::Refused),
            }
        }));
        add(format!("r = v.get({i})"), Valid, Box::new(move |w| {
            if let Some(x) = w.v.get(i) {
                w.r = x.to_owned();
            }
            Ok(End::Done)
        }));
        add(format!("r = b.get_row({i})"), Valid, Box::new(move |w| {
            if let Some(x) = w.b.get_row(i) {
                w.r = x.to_owned();
            }
            Ok(End::Done)
        }));
        add(format!("v = left of v.split({i})"), Valid, Box::new(move |w| {
            if let Some((a, b)) = w.v.clone().split(i) {
                valid_list(&b, "the right half")?;
                w.v = a;
            }
            Ok(End::Done)
        }));
        add(format!("v = right of v.split({i})"), Valid, Box::new(move |w| {
            if let Some((a, b)) = w.v.clone().split(i) {
                valid_list(&a, "the left half")?;
                w.v = b;
            }
            Ok(End::Done)
        }));
        add(format!("b = left of b.split({i})"), Valid, Box::new(move |w| {
            if let Some((a, b)) = w.b.clone().split(i) {
                valid_block(&b, "the right half")?;
                w.b = a;
            }
            Ok(End::Done)
        }));
        add(format!("b = right of b.split({i})"), Valid, Box::new(move |w| {
            if let Some((a, b)) = w.b.clone().split(i) {
                valid_block(&a, "the left half")?;
                w.b = b;
            }
            Ok(End::Done)
        }));
        add(format!("*b.get_annot_mut({i}) = 9"), Valid, Box::new(move |w| {
            if let Some(x) = w.b.get_annot_mut(i) {
                *x = 9;
            }
            ok(w.b.get_annot(i).copied())
        }));
        add(format!("b.get_annot_row({i})"), Valid, Box::new(move |w| {
            if let Some(x) = w.b.get_annot_row(i) {
                valid_row(x.row(), "an annotated row")?;
            }
            Ok(End::Done)
        }));
    }
    for &m in &stages {
        add(format!("r.extend_to_stage({m})"), Valid, Box::new(move |w| ok(w.r.extend_to_stage(stage(m)))));
        add(format!("r = rounds({m})"), Valid, Box::new(move |w| ok(w.r = RowBuf::rounds(stage(m)))));
        if all {
            add(format!("r = queens({m})"), Valid, Box::new(move |w| ok(w.r = RowBuf::queens(stage(m)))));
            add(format!("r = backrounds({m})"), Valid, Box::new(move |w| ok(w.r = RowBuf::backrounds(stage(m)))));
            add(format!("b = empty({m})"), Valid, Box::new(move |w| ok(w.b = AnnotBlock::empty(stage(m)))));
        }
        add(format!("v = with_capacity({m})"), Valid, Box::new(move |w| ok(w.v = SameStageVec::with_capacity(stage(m), 3))));
        add(format!("a = rounds({m})"), Valid, Box::new(move |w| ok(w.a = RowAccumulator::rounds(stage(m)))));
        add(format!("m = empty({m})"), Valid, Box::new(move |w| ok(w.m = Mask::empty(stage(m)))));
        add(format!("r.parse_with_stage(r, {m})"), Valid, Box::new(move |w| {
            match RowBuf::parse_with_stage(&w.r.to_string(), stage(m)) {
                Ok(x) => {
                    w.r = x;
                    Ok(End::Done)
                }
                Err(_) => Ok(End::Refused),
            }
        }));
    }
    for row_ in &rows {
        let p = row_.clone();
        let x = move || row(&p);
        let t = row_text(row_);
        macro_rules! with {
            ($name:expr, $after:expr, $f:expr) => {{
                let x = x.clone();
                let f: fn(&mut World, RowBuf) -> Result<End, String> = $f;
                add(format!($name, t), $after, Box::new(move |w| f(w, x())));
            }};
        }
        with!("r.overwrite_from({})", Valid, |w, x| ok(w.r.overwrite_from(&x)));
        with!("{}.copy_into(r)", Valid, |w, x| ok(x.copy_into(&mut w.r)));
        with!("r = r * {}", Valid, |w, x| ok(w.r = &w.r * &x));
        with!("{}.mul_into(v0, r)", Valid, |w, x| match w.v.first() {
            Some(f) => end(x.mul_into(f, &mut w.r)),
            None => Ok(End::Refused),
        });
        with!("r.mul_into({}, r)", Valid, |w, x| {
            let r = w.r.clone();
            end(r.mul_into(&x, &mut w.r))
        });
        with!("{}.mul_into_row(r, r)", Valid, |w, x| {
            let r = w.r.clone();
            end(x.mul_into_row(&r, &mut w.r))
        });
        with!("{}.inv_into(r)", Valid, |w, x| end(x.inv_into(&mut w.r)));
        with!("{}.inv_into_buf(r)", Valid, |w, x| ok(x.inv_into_buf(&mut w.r)));
        with!("solve r, {}", Valid, |w, x| {
            for y in [Row::solve_ax_equals_b(&w.r, &x), Row::solve_xa_equals_b(&w.r, &x), w.r.tranposition_to(&x), w.r.mul_result(&x)] {
                match y {
                    Ok(y) => {
                        valid_row(&y, "a solution")?;
                    }
                    Err(_) => return Ok(End::Refused),
                }
            }
            w.r = Row::solve_ax_equals_b(&w.r, &x).map_err(|e| e.to_string())?;
            Ok(End::Done)
        });
        with!("v.push({})", Valid, |w, x| end(w.v.push(&x)));
        with!("v.extend([r, {}, v0])", Valid, |w, x| {
            let mut l = vec![w.r.clone(), x];
            l.extend(w.v.first().map(|r| r.to_owned()));
            end(w.v.extend(l))
        });
        with!("v.extend([{0}, {0}])", Valid, |w, x| end(w.v.extend([x.clone(), x])));
        with!("v.pre_multiply({})", Valid, |w, x| end(w.v.pre_multiply(&x)));
        with!("v.permute({})", Valid, |w, x| end(w.v.permute(&x)));
        with!("v = v.pre_multiplied({})", Valid, |w, x| match w.v.pre_multiplied(&x) {
            Ok(v) => ok(w.v = v),
            Err(_) => Ok(End::Refused),
        });
        with!("v.extend_transposed({}, b.row_vec())", Valid, |w, x| end(w.v.extend_transposed(&x, w.b.row_vec())));
        with!("v.extend_transposed_from_within(.., {})", Valid, |w, x| end(w.v.extend_transposed_from_within(.., &x)));
        with!("v = from_row_buf({})", Valid, |w, x| ok(w.v = SameStageVec::from_row_buf(x)));
        with!("b.pre_multiply({})", Valid, |w, x| end(w.b.pre_multiply(&x)));
        with!("b.permute({})", Valid, |w, x| end(w.b.permute(&x)));
        with!("repeating b from {}", Valid, |w, x| {
            let b = w.b.clone();
            let Ok(mut it) = b.repeat_iter(x) else { return Ok(End::Refused) };
            for _ in 0..2 * b.len() + 1 {
                match it.next() {
                    Some((r, i, _)) => {
                        valid_row(&r, "a repeated row")?;
                        ensure!(i < b.len(), "repeated row has index {i}");
                    }
                    None => break,
                }
                // Into a row of whatever stage it has
                if it.next_into(&mut w.r).is_none() {
                    break;
                }
            }
            Ok(End::Done)
        });
        with!("a.accumulate({})", Valid, |w, x| end(w.a.accumulate(&x)));
        with!("a.pre_accumulate({})", Valid, |w, x| end(w.a.pre_accumulate(&x)));
        with!("a *= {}", Valid, |w, x| ok(w.a *= &x));
        with!("a.set({})", Valid, |w, x| ok(w.a.set(&x)));
        with!("m = full_row({})", Valid, |w, x| ok(w.m = Mask::full_row(&x)));
        with!("m = m * {}", Valid, |w, x| ok(w.m = &w.m * &*x));
        with!("m = {} * m", Valid, |w, x| ok(w.m = &*x * &w.m));
        with!("m.matches({})", Valid, |w, x| ok(w.m.matches(&x)));
        with!("m = m.combine(full {})", Valid, |w, x| {
            if let Some(m) = w.m.combine(&Mask::full_row(&x)) {
                w.m = m;
            }
            Ok(End::Done)
        });
        with!("rows of plain hunt from {}", Valid, |w, x| {
            let n = w.r.stage();
            let p = PnBlock::parse(if n.num_bells() % 2 == 0 { "x1" } else { "1" }, n).map_err(|e| e.to_string())?;
            match p.to_rows(x.clone()) {
                Ok(v) => {
                    w.v = v;
                    let b: AnnotBlock<u8> = p.to_block(x).map_err(|e| e.to_string())?;
                    w.b = b;
                    Ok(End::Done)
                }
                Err(_) => Ok(End::Refused),
            }
        });
        with!("closures of {}", Valid, |w, x| {
            for y in x.closure().iter().chain(&x.closure_from_rounds()) {
                valid_row(y, "a power")?;
            }
            if let Ok(l) = Row::multi_cartesian_product([vec![w.r.clone(), x.clone()], vec![x.clone()]]) {
                for y in &l {
                    valid_row(y, "a product")?;
                }
            }
            if x.stage().num_bells() > 5 {
                return Ok(End::Done); // the group may be astronomical
            }
            if let Ok(l) = Row::least_group_containing([&*w.r, &*x]) {
                for y in &l {
                    valid_row(y, "a group member")?;
                }
            }
            Ok(End::Done)
        });
    }
    // ---- constructors on damaged bells
    for (what, f) in [
        ("without the last", (|b: &mut Vec<Bell>| drop(b.pop())) as fn(&mut Vec<Bell>)),
        ("without the first", |b| drop(b.remove(0))),
        ("with the first twice", |b| b.push(b[0])),
        ("with the last replaced by the first", |b| *b.last_mut().unwrap() = b[0]),
        ("with the first replaced by the next bell", |b| b[0] = Bell::from_index(b.len())),
        ("with one more", |b| b.push(Bell::from_index(b.len()))),
        ("with a huge bell", |b| b[0] = Bell::from_index(usize::MAX - 1)),
        ("with a bell 64 higher", |b| b[0] = b[0] + 64),
        ("with the highest twice and the last gone", |b| {
            let m = *b.iter().max().unwrap();
            *b.last_mut().unwrap() = m;
        }),
        ("reversed", |b| b.reverse()),
        ("emptied", |b| b.clear()),
    ] {
        add(format!("r = from_vec(r {what})"), Valid, Box::new(move |w| {
            let mut bells = w.r.clone().into_bell_vec();
            f(&mut bells);
            let mut out = vec![RowBuf::from_vec(bells.clone()), RowBuf::from_bell_iter(bells.iter().copied())];
            for m in 1..=n + 2 {
                out.push(RowBuf::from_vec_with_stage(bells.clone(), stage(m)));
            }
            let text: String = bells.iter().map(|b| b.name()).collect();
            out.push(RowBuf::parse(&text));
            for m in 1..=n + 2 {
                out.push(RowBuf::parse_with_stage(&text, stage(m)));
            }
            for x in out.iter().flatten() {
                valid_row(x, "a constructed row")?;
            }
            if let Ok(v) = SameStageVec::parse(&format!("{}\n{text}", w.r)) {
                valid_list(&v, "a parsed list")?;
                w.v = v;
            }
            if let Ok(b) = AnnotBlock::parse(&format!("{text}\n{}\n{text}", w.r)) {
                valid_block(&b, "a parsed block")?;
                w.b = b;
            }
            match RowBuf::from_vec(bells) {
                Ok(x) => {
                    w.r = x;
                    Ok(End::Done)
                }
                Err(_) => Ok(End::Refused),
            }
        }));
        add(format!("m from r {what}"), Valid, Box::new(move |w| {
            let mut bells = w.r.clone().into_bell_vec();
            f(&mut bells);
            let text: String = bells.iter().map(|b| b.name()).collect();
            ok(w.m = Mask::parse(&text))
        }));
        add(format!("m.fix_bells(r {what})"), Valid, Box::new(move |w| {
            let mut bells = w.r.clone().into_bell_vec();
            f(&mut bells);
            ok(w.m = Mask::fix_bells(w.r.stage(), bells))
        }));
    }
    // ---- lists and blocks
    add("v.pop()".into(), Valid, Box::new(|w| match w.v.pop() {
        Some(x) => {
            valid_row(&x, "the popped row")?;
            w.r = x;
            Ok(End::Done)
        }
        None => Ok(End::Refused),
    }));
    add("v.push(r)".into(), Valid, Box::new(|w| end(w.v.push(&w.r))));
    add("v.extend_from_buf(b.row_vec())".into(), Valid, Box::new(|w| end(w.v.extend_from_buf(w.b.row_vec()))));
    add("v.extend_from_buf(v)".into(), Valid, Box::new(|w| {
        let c = w.v.clone();
        end(w.v.extend_from_buf(&c))
    }));
    add("v.pre_multiply(r)".into(), Valid, Box::new(|w| end(w.v.pre_multiply(&w.r))));
    add("b.pre_multiply(r)".into(), Valid, Box::new(|w| end(w.b.pre_multiply(&w.r))));
    add("v = b.into_row_vec()".into(), Valid, Box::new(|w| ok(w.v = w.b.clone().into_row_vec())));
    add("b = with_default_annots(v)".into(), Same, Box::new(|w| {
        let b = AnnotBlock::with_default_annots(w.v.clone());
        ok(w.b = b)
    }));
    add("b = with_annots_from_indices(v)".into(), Valid, Box::new(|w| match AnnotBlock::with_annots_from_indices(w.v.clone(), |i| i as u8) {
        Some(b) => ok(w.b = b),
        None => Ok(End::Refused),
    }));
    add("b.extend(b)".into(), Valid, Box::new(|w| {
        let c = w.b.clone();
        end(w.b.extend(&c))
    }));
    add("b.extend(with_default_annots(v))".into(), Same, Box::new(|w| {
        let c = AnnotBlock::with_default_annots(w.v.clone());
        end(w.b.extend(&c))
    }));
    add("b = b.map_annots_with_index".into(), Valid, Box::new(|w| ok(w.b = w.b.clone().map_annots_with_index(|i, a| a.wrapping_add(i as u8)))));
    add("r.parity()".into(), Valid, Box::new(|w| ok(w.r.parity())));
    for rg in all_ranges(max) {
        let t = format!("{:?}..{:?}", rg.0, rg.1);
        add(format!("v.extend_range_transposed(r, b, {t})"), Same, Box::new(move |w| end(w.v.extend_range_transposed(&w.r, w.b.row_vec(), rg))));
        add(format!("v.extend_transposed_from_within({t}, r)"), Same, Box::new(move |w| end(w.v.extend_transposed_from_within(rg, &w.r))));
        add(format!("b.extend_range(b, {t})"), Same, Box::new(move |w| {
            let c = w.b.clone();
            end(w.b.extend_range(&c, rg))
        }));
        add(format!("b.extend_from_within({t})"), Same, Box::new(move |w| ok(w.b.extend_from_within(rg))));
        add(format!("b.extend_range(block of v, {t})"), Same, Box::new(move |w| match AnnotBlock::with_annots_from_indices(w.v.clone(), |i| 50 + i as u8) {
            Some(c) => end(w.b.extend_range(&c, rg)),
            None => Ok(End::Refused),
        }));
    }
    // ---- masks
    for &p in &places {
        for i in [0, n - 1, n, n + 1] {
            add(format!("m.set_bell({i}, {p})"), Same, Box::new(move |w| end(w.m.set_bell(bell(i), p))));
        }
    }
    for i in [0, n - 1, n, usize::MAX - 1] {
        add(format!("m.fix({i})"), Same, Box::new(move |w| end(w.m.fix(bell(i)))));
    }
    add("r = m.as_row()".into(), Valid, Box::new(|w| match w.m.as_row() {
        Some(r) => ok(w.r = r),
        None => Ok(End::Refused),
    }));
    add("m = full_row(r)".into(), Valid, Box::new(|w| ok(w.m = Mask::full_row(&w.r))));
    // ---- accumulator
    add("r = a.total()".into(), Valid, Box::new(|w| ok(w.r = w.a.total().to_owned())));
    add("a = new(r)".into(), Valid, Box::new(|w| ok(w.a = RowAccumulator::new(w.r.clone()))));
    add("a.set(r)".into(), Valid, Box::new(|w| ok(w.a.set(&w.r))));
    add("a.accumulate(r)".into(), Valid, Box::new(|w| end(w.a.accumulate(&w.r))));
    add("a.pre_accumulate(r)".into(), Valid, Box::new(|w| end(w.a.pre_accumulate(&w.r))));
    v
}

/// A list of rows, maybe of different stages, given to everything that takes several rows
fn mixed_case(l: &[Perm], o: &mut Obs) -> Result<(), String> {
    let real: Vec<RowBuf> = l.iter().map(|p| row(p)).collect();
    let same = l.iter().all(|p| p.len() == l[0].len());
    o.see(&l);
    // Every way to divide them into consecutive sets
    let cuts: Vec<u32> = if l.len() <= 6 { (0..1u32 << (l.len() - 1)).collect() } else { vec![0, 1, 1 << 4, 1 << 8] };
    for cut in cuts {
        let mut sets: Vec<Vec<RowBuf>> = vec![vec![]];
        for (i, r) in real.iter().enumerate() {
            sets.last_mut().unwrap().push(r.clone());
            if i + 1 < real.len() && i < 32 && cut >> i & 1 == 1 {
                sets.push(vec![]);
            }
        }
        if sets.iter().map(|s| s.len()).product::<usize>() > 2_000 {
            continue;
        }
        if let Ok(out) = Row::multi_cartesian_product(sets) {
            for r in &out {
                valid_row(r, "a product")?;
            }
            ensure!(same || out.is_empty(), "a product of rows of different stages");
        }
        o.step(1);
    }
    if l.iter().all(|p| p.len() <= 5) || l.iter().all(|p| order(p) <= 2) {
        if let Ok(out) = Row::least_group_containing(real.iter().map(|r| r.as_row())) {
            for r in &out {
                valid_row(r, "a group member")?;
            }
            ensure!(same, "a group of rows of different stages");
        }
        if let Ok(yes) = Row::is_group(real.iter().map(|r| r.as_row())) {
            ensure!(same || !yes, "rows of different stages are a group");
        }
    }
    for n in [l[0].len(), l[l.len() - 1].len()] {
        let mut v = SameStageVec::new(stage(n));
        let _ = v.extend(&real);
        valid_list(&v, "an extended list")?;
        let mut v = SameStageVec::new(stage(n));
        let mut b: AnnotBlock<u8> = AnnotBlock::empty(stage(n));
        let mut a = RowAccumulator::rounds(stage(n));
        for r in &real {
            let fits = r.stage() == stage(n);
            eq!(v.push(r).is_ok(), fits, "pushing {r} to a list on {n} bells");
            valid_list(&v, "a list")?;
            let one = SameStageVec::from_row_buf(r.clone());
            eq!(v.extend_from_buf(&one).is_ok(), fits, "adding a list on {} bells to one on {n}", r.stage());
            valid_list(&v, "a list")?;
            let mut other = AnnotBlock::with_default_annots(one.clone());
            eq!(b.extend(&other).is_ok(), fits, "adding a block on {} bells to one on {n}", r.stage());
            valid_block(&b, "a block")?;
            if other.extend(&b).is_ok() {
                valid_block(&other, "a block")?;
            }
            let _ = a.accumulate(r);
            valid_row(a.total(), "an accumulated row")?;
            let _ = a.pre_accumulate(r);
            valid_row(a.total(), "an accumulated row")?;
            let _ = v.pre_multiply(r);
            valid_list(&v, "a transposed list")?;
            let _ = v.permute(r);
            valid_list(&v, "a permuted list")?;
            let _ = b.pre_multiply(r);
            valid_block(&b, "a transposed block")?;
            let _ = b.permute(r);
            valid_block(&b, "a permuted block")?;
            let mut w = v.clone();
            let _ = w.extend_transposed(r, &v);
            let _ = w.extend_transposed_from_within(.., r);
            let _ = w.extend_range_transposed(r, &one, ..);
            valid_list(&w, "a list with transposed rows")?;
            o.step(12);
        }
    }
    let text: String = real.iter().map(|r| format!("{r}\n")).collect();
    if real.iter().all(|r| r.stage().num_bells() <= 33) {
        if let Ok(v) = SameStageVec::parse(&text) {
            valid_list(&v, "a parsed list")?;
            ensure!(same, "rows of different stages were parsed into one list");
        }
        if let Ok(b) = AnnotBlock::<u8>::parse(&text) {
            valid_block(&b, "a parsed block")?;
            ensure!(same, "rows of different stages were parsed into one block");
        }
    }
    Ok(())
}

fn starts(n: usize) -> Vec<(String, World)> {
    let mut out = vec![];
    let f = family(n);
    let pick = |i: usize| f[i % f.len()].clone();
    let block = |rows: Vec<Perm>| AnnotBlock::with_annots_from_indices(ssv(rows[0].len(), &rows), |i| i as u8 + 1).expect("not empty");
    out.push((
        format!("all on {n} bells"),
        World { r: row(&pick(1)), v: ssv(n, &[pick(2), pick(0)]), b: block(vec![pick(0), pick(1), pick(3)]), m: Mask::empty(stage(n)), a: RowAccumulator::new(row(&pick(1))) },
    ));
    let g = family(n + 1);
    let other = g[1 % g.len()].clone();
    out.push((
        format!("list on {} bells, empty block", n + 1),
        World { r: row(&pick(3)), v: ssv(n + 1, &[other.clone()]), b: block(vec![pick(1)]), m: Mask::parse(&row_text(&pick(1))), a: RowAccumulator::rounds(stage(n + 1)) },
    ));
    out.push((
        format!("row on {} bells, empty list", n + 1),
        World { r: row(&other), v: SameStageVec::new(stage(n)), b: block(vec![other.clone(), identity(n + 1)]), m: Mask::fix_bells(stage(n), vec![bell(0)]), a: RowAccumulator::new(row(&pick(1))) },
    ));
    out
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "A case is one operation applied to a state (row, list, block, mask and accumulator) reached by a shorter \
               sequence; every row, list and block must be valid after it, whether it succeeded, was refused or panicked, and \
               unchanged if it panicked about an index or range.  Distinct by operation and resulting state.",
        bounds: |t| {
            json!({"objects": ["row", "row list", "annotated block", "mask", "accumulator"], "stages": stages_of(t),
                "operations_per_state": ops(3, 3, t.thorough()).len(), "depth": "2 with every operation, 3 with every operation on the smallest stages", "start_states": 3,
                "ranges": "every pair of bounds up to the length and one beyond, far beyond and at the integer limit, also reversed",
                "mixed_rows": format!("all lists of 1 to {} of 5 rows on 1 to 4 bells, divided into sets in every way; the odd one out at every position of up to 40 rows on up to 65 bells", t.pick(5, 6)),
                "masks": "as_row of every text of up to 6 over '1 2 3 4 x Z'"})
        },
        assumptions: &["user code passed to the library (iterators, closures, Clone of annotations) doesn't panic", "no safe call is given usize::MAX as bell index"],
        units: |t| {
            let mut u = vec![];
            let thorough = t.thorough();
            for n in stages_of(t) {
                // The first step is split over units, the second explored in each
                for (i, (name, _)) in starts(n).into_iter().enumerate() {
                    let parts = 8;
                    for k in 0..parts {
                        let name = name.clone();
                        u.push(unit(format!("sequences-{n}-{i}-{k}"), move |c| {
                            let max = if n <= 2 { 3 } else { 2 };
                            let all = ops(n, max, thorough);
                            let (_, w) = starts(n).swap_remove(i);
                            let key = check(&w).expect("start state is valid");
                            // (the first operation is drawn from this unit's share; the later ones are all)
                            let share: Vec<Op> = all.iter().enumerate().filter(|(j, _)| j % parts == k).map(|(_, o)| o.clone()).collect();
                            let first = Sys { ops: share, max_len: 6 };
                            let rest = Sys { ops: all, max_len: 6 };
                            let mut inits: Vec<(String, (World, Key))> = vec![];
                            let mut seen = FxSet::default();
                            for op in &first.ops {
                                let mut next = None;
                                let s = (w.clone(), key.clone());
                                c.case(|| format!("{name}; {op:?}"), |o| {
                                    next = Some(rest.apply(&s, op, o)?);
                                    Ok(())
                                });
                                c.t.transitions += 1;
                                if let Some(x) = next {
                                    if seen.insert(hash_of(&x.1)) {
                                        inits.push((format!("{name}; {op:?}"), x));
                                    }
                                }
                            }
                            let depth = if thorough && n <= 1 { 3 } else if n == 1 || thorough && n <= 65 { 2 } else { 1 };
                            explore(c, &rest, inits, depth, 3_000_000, true);
                        }));
                    }
                }
            }
            // Rows of several stages, in every order and grouping, given to whatever takes many rows
            split_unit(&mut u, "mixed-rows", 8, move |c, part| {
                let rows: Vec<Perm> = vec![vec![0], vec![1, 0], vec![1, 2, 0], vec![0, 2, 1], vec![3, 0, 1, 2]];
                for len in 1..=if thorough { 6 } else { 5 } {
                    all_seqs(rows.len(), len, &mut |ix| {
                        if part.mine() {
                            let l: Vec<Perm> = ix.iter().map(|&i| rows[i].clone()).collect();
                            c.case(|| format!("rows {l:?}"), |o| mixed_case(&l, o));
                        }
                    });
                }
                // The odd one out in every position, among long lists of wide rows
                for n in [5usize, 16, 17, 64, 65] {
                    for m in [1, n - 1, n + 1, 2 * n] {
                        for len in [2usize, 3, 9, 40] {
                            for at in 0..len {
                                if part.mine() {
                                    let mut l = vec![identity(n); len];
                                    l[at] = (0..m).rev().collect();
                                    c.case(|| format!("{len} rows on {n} bells with one on {m} at {at}"), |o| mixed_case(&l, o));
                                }
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "masks", 4, |c, part| {
                all_strings(&['1', '2', '3', '4', 'x', 'Z'], 6, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("mask {s:?}"), |o| {
                            let m = Mask::parse(&s);
                            o.see(&s);
                            if let Some(r) = m.as_row() {
                                let p = valid_row(&r, "the mask's row")?;
                                let shown = row_text(&p);
                                ensure!(s.len() == p.len() && s.chars().zip(shown.chars()).all(|(a, b)| a == b || a == 'x'), "row of mask {s:?} is {shown}");
                            }
                            Ok(())
                        });
                    }
                });
            });
            u
        },
    }
}

fn stages_of(t: Tier) -> Vec<usize> {
    t.pick(vec![1, 2, 3, 4, 65], vec![1, 2, 3, 4, 5, 33, 65, 257])
}
