//! C24: the row accumulator.  C25: the forms of a row.

use super::*;
use crate::model::*;
use bellframe::{row::RowAccumulator, Row, RowBuf};
use serde_json::json;
use std::{
    borrow::{Borrow, BorrowMut},
    collections::{hash_map::DefaultHasher, BTreeSet, HashSet},
    hash::{Hash, Hasher},
    rc::Rc,
    sync::Arc,
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Post(Perm),
    PostAssign(Perm),
    PostAssignBuf(Perm),
    Pre(Perm),
    Set(Perm),
    Clone,
    CloneInto(Perm, bool),
    Rebuild,
}

struct Acc {
    rows: Vec<Perm>,
    /// Rows of other stages, and whether the accumulator may be reset to them
    others: Vec<Perm>,
}

impl System for Acc {
    type State = (RowAccumulator, Perm, u64);
    type Op = Op;
    /// Nothing that the hidden buffer may depend on is merged: the last two operations are part of the key
    type Key = (Perm, u64);

    fn key(&self, s: &Self::State) -> Self::Key {
        (s.1.clone(), s.2)
    }
    fn describe(&self, s: &Self::State) -> String {
        format!("{:?}", s.1)
    }
    fn ops(&self, s: &Self::State) -> Vec<Op> {
        let mut v = vec![Op::Clone, Op::Rebuild];
        for r in self.rows.iter().chain(&self.others) {
            v.push(Op::Post(r.clone()));
            v.push(Op::Pre(r.clone()));
            v.push(Op::Set(r.clone()));
        }
        for r in self.rows.iter().take(2).chain(&self.others) {
            v.push(Op::PostAssign(r.clone()));
            v.push(Op::PostAssignBuf(r.clone()));
            v.push(Op::CloneInto(r.clone(), r.len() % 2 == 0));
        }
        let _ = s;
        v
    }
    fn apply(&self, s: &Self::State, op: &Op, o: &mut Obs) -> Result<Self::State, String> {
        let (mut acc, mut total, hist) = s.clone();
        let n = total.len();
        let mut verdict = |what: &str, r: Result<Result<(), bellframe::IncompatibleStages>, String>, panicky: bool, row: &Perm, product: Perm| -> Result<(), String> {
            if row.len() == n {
                eq!(r, Ok(Ok(())), "{what}");
                total = product;
                return Ok(());
            }
            match r {
                Err(_) if panicky => Ok(()),
                Err(e) => Err(format!("{what} panicked: {e}")),
                Ok(r) => refused(r, n, row.len(), what),
            }
        };
        let prod = |a: &Perm, b: &Perm| if a.len() == b.len() { mul(a, b) } else { vec![] };
        let before = s.1.clone();
        match op {
            Op::Post(r) => {
                let res = caught(|| acc.accumulate(&row(r)));
                verdict("accumulate", res, false, r, prod(&before, r))?
            }
            Op::PostAssign(r) => {
                let x = row(r);
                let res = caught(|| {
                    acc *= x.as_row();
                    Ok(())
                });
                verdict("*= row", res, true, r, prod(&before, r))?
            }
            Op::PostAssignBuf(r) => {
                let x = row(r);
                let res = caught(|| {
                    acc *= &x;
                    Ok(())
                });
                verdict("*= row buffer", res, true, r, prod(&before, r))?
            }
            Op::Pre(r) => {
                let res = caught(|| acc.pre_accumulate(&row(r)));
                verdict("pre_accumulate", res, false, r, prod(r, &before))?
            }
            Op::Set(r) => {
                acc.set(&row(r));
                total = r.clone();
            }
            Op::Clone => acc = acc.clone(),
            Op::CloneInto(r, used) => {
                let mut old = RowAccumulator::new(row(r));
                if *used {
                    old.pre_accumulate(&row(r)).map_err(|e| e.to_string())?;
                }
                old.clone_from(&acc);
                eq!(perm(acc.total()), total, "total of the accumulator that was cloned");
                acc = old;
            }
            Op::Rebuild => acc = RowAccumulator::new(acc.into_total()),
        }
        eq!(perm(acc.total()), total, "total");
        eq!(acc.total().stage().num_bells(), total.len(), "stage of the total");
        eq!(perm(&acc.clone().into_total()), total, "into_total");
        o.step(4);
        o.see(&total);
        Ok((acc, total, hash_of(&(hist & 0xffff, op))))
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        level: "model_checking",
        rule: "A case is one operation on one reached accumulator (advanced together with the product on plain vectors); states are \
               merged when the total and the last operations agree.  Distinct by total.",
        bounds: |t| {
            json!({"stages": "1 to 3 with all rows, 4, 12, 33 and 65 with structured rows", "depth": t.pick("4 (stages 1-3), 3 (others)", "5, 4"),
                "operations": "post-, pre-multiplication, *= with both right-hand types, reset, clone, clone into a used or unused accumulator of any of these stages, rebuilding; rows of the same, smaller, larger and double stage",
                "long_products": "300 operations on every wide stage, 70000 on 8 stages"})
        },
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            for n in [1usize, 2, 3, 4, 12, 33, 65] {
                for k in 0..3 {
                    u.push(unit(format!("operations-{n}-{k}"), move |c| {
                        let rows = if n <= 3 { all_perms(n) } else { small_family(n).into_iter().step_by(3).take(5).collect() };
                        let mut others = vec![(0..n + 1).rev().collect::<Perm>(), (0..2 * n).map(|i| (i + 1) % (2 * n)).collect()];
                        if n > 1 {
                            others.push((0..n - 1).rev().collect());
                        }
                        let sys = Acc { rows, others };
                        let start = sys.rows[k % sys.rows.len()].clone();
                        let acc = if k == 0 { RowAccumulator::rounds(stage(n)) } else { RowAccumulator::new(row(&start)) };
                        let d = if n <= 3 { t.pick(4, 5) } else { t.pick(3, 4) };
                        explore(c, &sys, vec![(format!("accumulator of {start:?}"), (acc, start.clone(), 0))], d, 6_000_000, true);
                    }));
                }
            }
            split_unit(&mut u, "huge", 8, |c, part| {
                for n in [1usize, 2, 3, 4, 5, 7, 12, 16] {
                    if !part.mine() {
                        continue;
                    }
                    let f = small_family(n);
                    c.case(|| format!("70000 operations on stage {n}"), |o| {
                        let mut acc = RowAccumulator::rounds(stage(n));
                        let mut total = identity(n);
                        for k in 0..70_000usize {
                            let r = &f[(k + k / 7 + k / 256) % f.len()];
                            // (long stretches of one kind)
                            if k / 66_000 == 0 {
                                eq!(acc.accumulate(&row(r)), Ok(()), "accumulate");
                                total = mul(&total, r);
                            } else {
                                eq!(acc.pre_accumulate(&row(r)), Ok(()), "pre_accumulate");
                                total = mul(r, &total);
                            }
                            eq!(perm(acc.total()), total, "total after {k} operations");
                        }
                        let mut acc = RowAccumulator::rounds(stage(n));
                        let mut total = identity(n);
                        for k in 0..66_000usize {
                            let r = &f[(k * 3 + k / 5) % f.len()];
                            if k == 65_000 {
                                acc = acc.clone();
                            }
                            acc.pre_accumulate(&row(r)).map_err(|e| e.to_string())?;
                            total = mul(r, &total);
                            eq!(perm(acc.total()), total, "total after {k} pre-multiplications");
                        }
                        eq!(perm(&acc.into_total()), total, "into_total");
                        o.step(136_000);
                        o.see(&total);
                        Ok(())
                    });
                }
            });
            split_unit(&mut u, "long", 8, |c, part| {
                for n in wide_stages(true) {
                    if !part.mine() {
                        continue;
                    }
                    let f = small_family(n);
                    for seed in 0..4usize {
                        c.case(|| format!("300 operations on stage {n}, pattern {seed}"), |o| {
                            let mut acc = RowAccumulator::rounds(stage(n));
                            eq!(perm(acc.total()), identity(n), "rounds");
                            let mut total = identity(n);
                            for k in 0..300usize {
                                let r = &f[(k * 7 + seed * 3) % f.len()];
                                match (k / (seed + 1)) % 3 {
                                    0 => {
                                        eq!(acc.accumulate(&row(r)), Ok(()), "accumulate");
                                        total = mul(&total, r);
                                    }
                                    1 => {
                                        eq!(acc.pre_accumulate(&row(r)), Ok(()), "pre_accumulate");
                                        total = mul(r, &total);
                                    }
                                    _ => {
                                        acc *= row(r).as_row();
                                        total = mul(&total, r);
                                    }
                                }
                                if k % 5 == 4 {
                                    refused(acc.accumulate(&RowBuf::rounds(stage(n + 1))), n, n + 1, "accumulate")?;
                                    refused(acc.pre_accumulate(&RowBuf::rounds(stage(2 * n))), n, 2 * n, "pre_accumulate")?;
                                }
                                eq!(perm(acc.total()), total, "total after {k} operations");
                            }
                            o.step(300);
                            o.see(&total);
                            Ok(())
                        });
                    }
                }
            });
            u
        },
    }
}

// ---------------------------------------------------------------------------------------------

fn std_hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Calls recorded by a hasher, so that forms are compared for every possible hasher
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
fn recorded<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r.0
}

fn single_case(p: &Perm, targets: &[Perm], o: &mut Obs) -> Result<(), String> {
    let n = p.len();
    let owned = row(p);
    let borrowed: &Row = owned.as_row();
    let rc: Rc<Row> = borrowed.to_rc();
    let arc: Arc<Row> = borrowed.to_arc();
    let rc2 = rc.clone();
    let arc2 = arc.clone();
    let via_borrow: &Row = owned.borrow();
    let via_as_ref: &Row = owned.as_ref();
    let cloned = owned.clone();
    let to_owned: RowBuf = borrowed.to_owned();
    let unchecked = unsafe { Row::from_slice_unchecked(owned.slice()) };
    let mut overwritten = RowBuf::rounds(stage(1));
    overwritten.overwrite_from(borrowed);
    let mut bell_vec = bells(p);
    let from_mut: &Row = unsafe { Row::from_mut_slice_unchecked(&mut bell_vec) };
    let forms: Vec<(&str, &Row)> = vec![
        ("as_row", borrowed),
        ("deref", &*owned),
        ("Rc", &rc),
        ("Arc", &arc),
        ("cloned Rc", &rc2),
        ("cloned Arc", &arc2),
        ("Borrow", via_borrow),
        ("AsRef", via_as_ref),
        ("clone", &cloned),
        ("to_owned", &to_owned),
        ("from_slice_unchecked", unchecked),
        ("overwrite_from", &overwritten),
        ("from_mut_slice_unchecked", from_mut),
    ];
    let text = row_text(p);
    for (what, r) in &forms {
        eq!(perm(r), *p, "{what}");
        eq!(r.stage().num_bells(), n, "stage of {what}");
        ensure!(*r == borrowed && owned == **r && **r == owned, "{what} differs");
        eq!(r.cmp(&borrowed), std::cmp::Ordering::Equal, "order of {what}");
        eq!(std_hash(*r), std_hash(&owned), "hash of {what}");
        eq!(recorded(*r), recorded(&owned), "hasher calls of {what}");
        eq!(r.to_string(), text, "display of {what}");
        eq!(r.bell_iter().map(|b| b.index()).collect::<Vec<_>>(), *p, "bell_iter of {what}");
        eq!(r.bell_iter().rev().map(|b| b.index()).collect::<Vec<_>>(), p.iter().rev().copied().collect::<Vec<_>>(), "bell_iter backwards of {what}");
        eq!((*r).into_iter().map(|b| b.index()).collect::<Vec<_>>(), *p, "into_iter of {what}");
    }
    eq!(std_hash(&rc), std_hash(&owned), "hash of Rc");
    eq!(std_hash(&arc), std_hash(&owned), "hash of Arc");
    ensure!(rc == rc2 && arc == arc2 && *rc == *arc, "shared forms differ");
    eq!(Rc::strong_count(&rc), 2, "owners of the Rc");
    eq!(Arc::strong_count(&arc), 2, "owners of the Arc");
    eq!((&owned).into_iter().map(|b| b.index()).collect::<Vec<_>>(), *p, "into_iter of a row buffer");
    eq!(owned.to_string(), text, "display");
    eq!(format!("{owned:?}"), format!("RowBuf({text})"), "Debug");
    eq!(format!("{borrowed:?}"), format!("Row({text})"), "Debug");
    let v: Vec<usize> = owned.clone().into_bell_vec().iter().map(|b| b.index()).collect();
    eq!(v, *p, "into_bell_vec");
    eq!(RowBuf::from_vec(owned.clone().into_bell_vec()), Ok(owned.clone()), "from_vec");
    eq!(RowBuf::from_bell_iter(borrowed.bell_iter()), Ok(owned.clone()), "from_bell_iter");
    if n <= 33 {
        eq!(text.parse::<RowBuf>(), Ok(owned.clone()), "FromStr");
    }
    o.step(forms.len() as u64 * 9 + 10);
    o.see(p);
    // Copying into what held something else before
    for t in targets {
        let mut out = row(t);
        borrowed.copy_into(&mut out);
        ensure!(out == owned && perm(&out) == *p && out.stage().num_bells() == n, "copying {text} into {} gave {out}", row_text(t));
        let mut out = row(t);
        out.overwrite_from(borrowed);
        ensure!(out == owned && perm(&out) == *p, "overwriting {} by {text} gave {out}", row_text(t));
        let mut out = row(t);
        out.clone_from(&owned);
        ensure!(out == owned && perm(&out) == *p, "cloning {text} into {} gave {out}", row_text(t));
        let mut out = row(t);
        borrowed.clone_into(&mut out);
        ensure!(out == owned && perm(&out) == *p, "cloning {text} into {} gave {out}", row_text(t));
        eq!(perm(&owned), *p, "the source");
        // ... and going on to use it
        out.extend_to_stage(stage(n + 2));
        eq!(perm(&out), p.iter().copied().chain([n, n + 1]).collect::<Vec<_>>(), "extending the copy");
        out.overwrite_from(&row(t));
        eq!(perm(&out), *t, "overwriting again");
        o.step(6);
    }
    for m in [n, n + 1, n + 2, 2 * n, n + 64, 33, 256] {
        if m < n {
            continue;
        }
        let mut r = owned.clone();
        r.extend_to_stage(stage(m));
        let want: Perm = p.iter().copied().chain(n..m).collect();
        eq!(perm(&r), want, "extend_to_stage({m})");
        ensure!(r == row(&want) && std_hash(&r) == std_hash(&row(&want)), "extended row differs");
        eq!(r == owned, m == n, "is the row extended to stage {m} equal to the original");
    }
    if n > 1 {
        // There are no covers to take away
        let mut r = owned.clone();
        let res = caught(|| r.extend_to_stage(stage(n - 1)));
        ensure!(res.is_err() || perm(&r) == *p, "extend_to_stage({}) changed the row to {r}", n - 1);
        eq!(perm(&r), *p, "row after a refused extend_to_stage");
    }
    // Swaps, through every mutable view
    let places: Vec<usize> = if n <= 8 { (0..n).collect() } else { boundary_places(n).into_iter().step_by(3).collect() };
    for &a in &places {
        for &b in &places {
            let mut want = p.clone();
            want.swap(a, b);
            let mut r = owned.clone();
            r.swap(a, b);
            eq!(perm(&r), want, "swap({a}, {b})");
            let mut r = owned.clone();
            let m: &mut Row = match (a + b) % 4 {
                0 => r.as_mut_row(),
                1 => r.as_mut(),
                2 => r.borrow_mut(),
                _ => &mut r,
            };
            m.swap(a, b);
            eq!(perm(&r), want, "swap({a}, {b}) through a mutable view");
            o.step(2);
        }
    }
    for (a, b) in [(0, n), (n, 0), (n, n), (0, usize::MAX), (n + 63, n - 1)] {
        let mut r = owned.clone();
        ensure!(panics(|| r.swap(a, b)), "swap({a}, {b}) on {n} bells was accepted");
        eq!(perm(&r), *p, "row after a refused swap");
    }
    for i in [n, n + 1, n + 63, usize::MAX] {
        ensure!(panics(|| owned[i]), "[{i}] on {n} bells was accepted");
    }
    Ok(())
}

fn pair_case(p: &Perm, q: &Perm, o: &mut Obs) -> Result<(), String> {
    let (a, b) = (row(p), row(q));
    let (ra, rb): (&Row, &Row) = (&a, &b);
    let same = p == q;
    eq!(a == b, same, "RowBuf == RowBuf");
    eq!(*ra == *rb, same, "Row == Row");
    eq!(a == *rb, same, "RowBuf == Row");
    eq!(*ra == b, same, "Row == RowBuf");
    eq!(a != *rb, !same, "RowBuf != Row");
    eq!(ra.to_rc() == rb.to_rc(), same, "Rc == Rc");
    eq!(ra.to_arc() == rb.to_arc(), same, "Arc == Arc");
    let ord = a.cmp(&b);
    eq!(ord == std::cmp::Ordering::Equal, same, "cmp equal");
    eq!(ra.cmp(rb), ord, "Row::cmp");
    eq!(a.partial_cmp(&b), Some(ord), "RowBuf::partial_cmp");
    eq!(ra.partial_cmp(rb), Some(ord), "Row::partial_cmp");
    eq!(b.cmp(&a), ord.reverse(), "cmp the other way");
    eq!((a < b, a > b, a <= b, a >= b), (ord.is_lt(), ord.is_gt(), ord.is_le(), ord.is_ge()), "comparison operators");
    eq!((ra < rb, ra > rb), (ord.is_lt(), ord.is_gt()), "comparison operators of borrowed rows");
    eq!((ra <= rb, ra >= rb, ra != rb), (ord.is_le(), ord.is_ge(), !same), "comparison operators of borrowed rows");
    super::check_ord(&a, &b, ord)?;
    super::check_ord(&ra, &rb, ord)?;
    super::check_ord(&ra.to_rc(), &rb.to_rc(), ord)?;
    super::check_ord(&ra.to_arc(), &rb.to_arc(), ord)?;
    super::copies(&a, [b.clone(), RowBuf::rounds(stage(1)), a.clone()], |c| {
        ensure!(perm(c) == *p && recorded(c) == recorded(&a) && c.stage().num_bells() == p.len(), "copy of {a} is {c}");
        super::check_eq(c, &a, true)
    })?;
    eq!(ra.to_rc().cmp(&rb.to_rc()), ord, "Rc::cmp");
    eq!(ra.to_arc().cmp(&rb.to_arc()), ord, "Arc::cmp");
    if same {
        eq!(recorded(&a), recorded(rb), "hash");
    }
    let set: HashSet<RowBuf> = [a.clone()].into_iter().collect();
    eq!(set.contains(rb), same, "found in a hash set by its borrowed form");
    let set: BTreeSet<RowBuf> = [a.clone()].into_iter().collect();
    eq!(set.contains(rb), same, "found in an ordered set by its borrowed form");
    o.step(18);
    o.see(&(p.len(), q.len(), ord));
    Ok(())
}

/// Sequences of conversions that pass a row on
fn chain_case(p: &Perm, others: &[Perm], steps: &[usize], o: &mut Obs) -> Result<(), String> {
    let mut r = row(p);
    let mut m = p.clone();
    let mut buf = row(&others[0]);
    for (k, s) in steps.iter().enumerate() {
        let n = m.len();
        match s {
            0 => r = RowBuf::from_vec(r.into_bell_vec()).map_err(|e| e.to_string())?,
            1 => r = (*r.to_rc()).to_owned(),
            2 => {
                let a = r.to_arc();
                let b = a.clone();
                drop(a);
                r = (*b).to_owned();
            }
            3 => {
                r.copy_into(&mut buf);
                std::mem::swap(&mut r, &mut buf);
            }
            4 => {
                buf.overwrite_from(&r);
                r = buf.clone();
                buf.extend_to_stage(stage(n + 1));
            }
            5 => {
                r.extend_to_stage(stage(n + 1));
                m.push(n);
            }
            6 => {
                r.swap(0, n - 1);
                m.swap(0, n - 1);
            }
            _ => {
                r = r.inv();
                m = inv(&m);
            }
        }
        eq!(perm(&r), m, "row after step {k}");
        let fresh = row(&m);
        ensure!(r == fresh && recorded(&r) == recorded(&fresh) && r.cmp(&fresh).is_eq(), "row after step {k} differs from a fresh one");
        ensure!(is_perm(&perm(&buf)), "spare buffer after step {k}: {buf}");
        o.step(1);
    }
    o.see(&(&m, steps));
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "A case is one row in all its forms (with all targets to copy into and all swaps), one pair of rows, one row among all \
               others in sets, or one sequence of conversions.  Distinct by row, stages and order, or final row.",
        bounds: |t| {
            json!({"rows": t.pick("all on 1 to 6 bells", "all on 1 to 7 bells"), "pairs": t.pick("all on 1 to 4 bells mixed, 5 x 5", "all on 1 to 4 bells mixed, every 7th 6 x 6"),
                "equality_and_order": t.pick("all pairs of rows on 1 to 6 bells mixed", "all pairs of rows on 1 to 7 bells mixed"),
                "transitivity": "total order over all rows on 1 to 5 bells, by position in a sorted list",
                "conversion_sequences": {"steps": 8, "length": t.pick(4, 5)}, "structured_rows_on": wide_stages(t.thorough()).len()})
        },
        assumptions: &["extending to a smaller stage is refused by a panic"],
        units: |t| {
            let mut u = vec![];
            let small: Vec<Perm> = (1..=3).flat_map(all_perms).chain([identity(7), (0..12).rev().collect(), identity(70)]).collect();
            for n in 1..=t.pick(6usize, 7) {
                let small = small.clone();
                split_unit(&mut u, &format!("forms-{n}"), 4, move |c, part| {
                    for p in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("row {}", row_text(&p)), |o| single_case(&p, &small, o));
                        }
                    }
                });
            }
            split_unit(&mut u, "forms-wide", 8, move |c, part| {
                for n in wide_stages(t.thorough()) {
                    let f = small_family(n);
                    if !part.mine() {
                        continue;
                    }
                    let targets = vec![identity(1), identity(n), (0..n + 1).rev().collect(), (0..2 * n).collect()];
                    for p in f.iter().step_by(if n > 140 { 6 } else { 1 }) {
                        c.case(|| format!("row {}", row_text(p)), |o| single_case(p, &targets, o));
                    }
                    for p in &f {
                        for q in f.iter().chain([&identity(n + 1)]) {
                            c.case(|| format!("rows {} and {}", row_text(p), row_text(q)), |o| pair_case(p, q, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "pairs", 8, move |c, part| {
                let all: Vec<Perm> = (1..=4).flat_map(all_perms).collect();
                for p in &all {
                    if part.mine() {
                        for q in &all {
                            c.case(|| format!("rows {} and {}", row_text(p), row_text(q)), |o| pair_case(p, q, o));
                        }
                    }
                }
                let all: Vec<Perm> = all_perms(t.pick(5, 6));
                for p in all.iter().step_by(t.pick(1, 7)) {
                    if part.mine() {
                        for q in &all {
                            c.case(|| format!("rows {} and {}", row_text(p), row_text(q)), |o| pair_case(p, q, o));
                        }
                    }
                }
            });
            // Every row against every other, equality and order alone
            split_unit(&mut u, "equal-or-not", 32, move |c, part| {
                let all: Vec<Perm> = (1..=t.pick(6, 7)).flat_map(all_perms).collect();
                let real: Vec<RowBuf> = all.iter().map(|p| row(p)).collect();
                for (i, p) in all.iter().enumerate() {
                    if !part.mine() {
                        continue;
                    }
                    c.case(|| format!("row {} against all others", row_text(p)), |o| {
                        let a = &real[i];
                        for (b, q) in real.iter().zip(&all) {
                            let same = p == q;
                            ensure!((a == b) == same && (a != b) != same, "{a} == {b} is {}, {a} != {b} is {}", a == b, a != b);
                            let (x, y): (&Row, &Row) = (a, b);
                            ensure!((x == y) == same && (x != y) != same && (x == b) == same && (a == y) == same, "{a} == {b} is {} as rows", x == y);
                            let c = a.cmp(b);
                            ensure!(c == x.cmp(y) && c.is_eq() == same && c == b.cmp(a).reverse(), "order of {a} and {b} is {c:?}, as rows {:?}, reversed {:?}", x.cmp(y), b.cmp(a));
                        }
                        o.step(8 * all.len() as u64);
                        o.see(p);
                        Ok(())
                    });
                }
            });
            u.push(unit("sets", |c| {
                c.case(|| "all rows on 1 to 5 bells in sets".into(), |o| {
                    let all: Vec<Perm> = (1..=5).flat_map(all_perms).collect();
                    let rows: Vec<RowBuf> = all.iter().map(|p| row(p)).collect();
                    let hs: HashSet<RowBuf> = rows.iter().cloned().collect();
                    let bs: BTreeSet<RowBuf> = rows.iter().rev().cloned().collect();
                    let rcs: HashSet<Rc<Row>> = rows.iter().map(|r| r.to_rc()).collect();
                    let arcs: BTreeSet<Arc<Row>> = rows.iter().map(|r| r.to_arc()).collect();
                    eq!((hs.len(), bs.len(), rcs.len(), arcs.len()), (all.len(), all.len(), all.len(), all.len()), "sizes of sets");
                    for r in &rows {
                        let b: &Row = r;
                        ensure!(hs.get(b).map(|x| x.as_row()) == Some(b), "{b} not found in a hash set");
                        ensure!(bs.get(b).map(|x| x.as_row()) == Some(b), "{b} not found in an ordered set");
                        ensure!(rcs.contains(b), "{b} not found in a hash set of Rc");
                        ensure!(arcs.contains(b), "{b} not found in an ordered set of Arc");
                    }
                    // The order is total: sorting gives a list that agrees with every pairwise comparison
                    let mut sorted = rows.clone();
                    sorted.sort();
                    for (i, a) in sorted.iter().enumerate() {
                        for (j, b) in sorted.iter().enumerate() {
                            eq!(a.cmp(b), i.cmp(&j), "order of {a} and {b}");
                            eq!(a.as_row().cmp(b.as_row()), i.cmp(&j), "order of borrowed {a} and {b}");
                        }
                    }
                    o.step(3 * (rows.len() * rows.len()) as u64);
                    o.see("sets");
                    Ok(())
                });
            }));
            let len = t.pick(4usize, 5);
            split_unit(&mut u, "conversions", 8, move |c, part| {
                let starts: Vec<Perm> = (1..=3).flat_map(all_perms).chain([small_family(12)[3].clone(), small_family(33)[5].clone(), small_family(64)[4].clone()]).collect();
                for p in &starts {
                    for l in 1..=len {
                        all_seqs(8, l, &mut |s| {
                            if part.mine() {
                                c.case(|| format!("row {} through conversions {s:?}", row_text(p)), |o| chain_case(p, &[vec![2, 0, 1]], s, o));
                            }
                        });
                    }
                }
            });
            u
        },
    }
}
