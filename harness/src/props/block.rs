//! C12: annotated blocks.  C13: repeating blocks.

use super::ssv::{long_lengths, long_list, positions, ranges, resolve, Rg, HUGE_LISTS};
use super::*;
use crate::model::*;
use bellframe::{block, AnnotBlock, Block, RowBuf};
use serde_json::json;
use std::ops::Bound;

/// The model of a block: one more row than annotations
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub rows: Vec<Perm>,
    pub annots: Vec<u8>,
}

impl Model {
    pub fn new(rows: Vec<Perm>, base: u8) -> Self {
        let annots = (1..rows.len()).map(|i| base.wrapping_add(i as u8).wrapping_add((31 * (i >> 8) + 7 * (i >> 16)) as u8)).collect();
        Model { rows, annots }
    }
    pub fn n(&self) -> usize {
        self.rows[0].len()
    }
    pub fn len(&self) -> usize {
        self.annots.len()
    }
    pub fn left(&self) -> &Perm {
        self.rows.last().unwrap()
    }
    /// Appends part of `o`; `None` if the range lies outside it
    fn extend(&mut self, o: &Model, (s, e): (usize, usize)) -> Option<()> {
        if s > e || e > o.len() {
            return None;
        }
        let t = solve_xa(&o.rows[s], self.left());
        self.rows.pop();
        self.rows.extend(o.rows[s..=e].iter().map(|r| mul(&t, r)));
        self.annots.extend_from_slice(&o.annots[s..e]);
        Some(())
    }
    pub fn real(&self) -> AnnotBlock<u8> {
        AnnotBlock::with_annots_from_indices(ssv(self.n(), &self.rows), |i| self.annots[i]).expect("not empty")
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Extend(Model),
    ExtendRange(Model, Rg),
    ExtendClone(Rg),
    ExtendWithin(Rg),
    PreMultiply(Perm),
    Permute(Perm),
    SetAnnot(usize),
    Map,
    MapIndex,
    CloneMapIndex,
    SplitLeft(usize),
    SplitRight(usize),
    Rebuild,
    RebuildDefault,
    /// Split, then join both parts again
    SplitJoin(usize),
}

#[derive(Clone)]
pub struct St {
    real: AnnotBlock<u8>,
    model: Model,
    last: u8,
}

pub struct Sys {
    n: usize,
    rows: Vec<Perm>,
    others: Vec<Model>,
    wrong: Vec<Model>,
    max_len: usize,
    spellings: bool,
}

impl Sys {
    pub fn new(n: usize, max_len: usize, spellings: bool) -> Self {
        let f = if n <= 3 { all_perms(n) } else { small_family(n) };
        let pick = |i: usize| f[i % f.len()].clone();
        let rows = vec![pick(0), pick(1), pick(3), pick(f.len() - 1)];
        let mut others = vec![
            Model::new(vec![pick(0)], 0),
            Model::new(vec![pick(2)], 0),
            Model::new(vec![pick(0), pick(1)], 100),
            Model::new(vec![pick(3), pick(1), pick(4)], 110),
        ];
        if n > 1 {
            others.push(Model::new(vec![pick(1), pick(0), pick(2), pick(f.len() - 1)], 120));
        }
        let mut wrong = vec![];
        let mut sizes = vec![n + 1, 2 * n];
        if n > 1 {
            sizes.push(n - 1);
        }
        for m in sizes {
            let r: Perm = (0..m).rev().collect();
            wrong.push(Model::new(vec![identity(m)], 0));
            wrong.push(Model::new(vec![r.clone(), identity(m), r], 200));
        }
        Sys { n, rows, others, wrong, max_len, spellings }
    }

    fn inits(&self) -> Vec<Model> {
        self.others.clone()
    }
}

impl System for Sys {
    type State = St;
    type Op = Op;
    type Key = (Model, u8);

    fn key(&self, s: &St) -> Self::Key {
        (s.model.clone(), s.last)
    }
    fn describe(&self, s: &St) -> String {
        format!("{:?}", s.model)
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Map, Op::MapIndex, Op::CloneMapIndex, Op::Rebuild, Op::RebuildDefault];
        let len = s.model.len();
        let grow = len < self.max_len;
        if grow {
            for o in &self.others {
                v.push(Op::Extend(o.clone()));
                for r in ranges(o.len(), self.spellings) {
                    v.push(Op::ExtendRange(o.clone(), r));
                }
            }
            for r in ranges(len, self.spellings) {
                v.push(Op::ExtendClone(r));
                v.push(Op::ExtendWithin(r));
            }
        } else {
            // Only refusals
            use Bound::*;
            for r in [(Included(0), Excluded(len + 1)), (Included(len + 1), Unbounded), (Included(len), Included(len)), (Included(1), Excluded(len + 9))] {
                v.push(Op::ExtendWithin(r));
                v.push(Op::ExtendClone(r));
            }
        }
        for w in &self.wrong {
            v.push(Op::Extend(w.clone()));
            v.push(Op::ExtendRange(w.clone(), (Bound::Included(0), Bound::Excluded(w.len()))));
            v.push(Op::ExtendRange(w.clone(), (Bound::Included(w.len()), Bound::Unbounded)));
            v.push(Op::ExtendRange(w.clone(), (Bound::Included(0), Bound::Excluded(w.len() + 1))));
            v.push(Op::PreMultiply(w.rows[0].clone()));
            v.push(Op::Permute(w.rows[0].clone()));
        }
        for r in &self.rows {
            v.push(Op::PreMultiply(r.clone()));
        }
        v.push(Op::Permute(self.rows[1].clone()));
        for i in positions(len).into_iter().chain([len + 2, usize::MAX, usize::MAX / self.n, (usize::MAX / self.n).saturating_add(1)]) {
            v.push(Op::SetAnnot(i));
            v.push(Op::SplitLeft(i));
            if i <= len {
                v.push(Op::SplitRight(i));
                v.push(Op::SplitJoin(i));
            }
        }
        v
    }

    fn apply(&self, s: &St, op: &Op, o: &mut Obs) -> Result<St, String> {
        let n = self.n;
        let mut real = s.real.clone();
        let mut model = s.model.clone();
        let mut range_op = |what: &str, r: Result<Result<(), bellframe::IncompatibleStages>, String>, src: &Model, rg: &Rg| -> Result<(), String> {
            let (a, b) = resolve(rg, src.len());
            let bad = a > b || b > src.len();
            if src.n() != n {
                return match r {
                    Ok(r) => refused(r, n, src.n(), what),
                    Err(_) if bad => Ok(()),
                    Err(e) => Err(format!("{what} panicked: {e}")),
                };
            }
            match r {
                Ok(Err(e)) => Err(format!("{what} refused equal stages: {e}")),
                Err(_) if bad => Ok(()),
                Err(e) => Err(format!("{what} panicked: {e}")),
                Ok(Ok(())) if a > b => Ok(()),
                Ok(Ok(())) => model.extend(src, (a, b)).ok_or(format!("{what} accepted the range {rg:?} of {} rows", src.len())),
            }
        };
        let all = (Bound::Unbounded, Bound::Unbounded);
        let kind: u8 = match op {
            Op::Extend(m) => {
                let other = m.real();
                let r = caught(|| real.extend(&other));
                range_op("extend", r, m, &all)?;
                observe(&other, m, o, false)?;
                1
            }
            Op::ExtendRange(m, rg) => {
                let other = m.real();
                let r = caught(|| real.extend_range(&other, *rg));
                range_op("extend_range", r, m, rg)?;
                observe(&other, m, o, false)?;
                2
            }
            Op::ExtendClone(rg) => {
                let other = real.clone();
                let r = caught(|| real.extend_range(&other, *rg));
                range_op("extend_range by itself", r, &s.model, rg)?;
                3
            }
            Op::ExtendWithin(rg) => {
                let r = caught(|| {
                    real.extend_from_within(*rg);
                    Ok(())
                });
                range_op("extend_from_within", r, &s.model, rg)?;
                4
            }
            Op::PreMultiply(r) | Op::Permute(r) => {
                let res = if matches!(op, Op::Permute(_)) { real.permute(&row(r)) } else { real.pre_multiply(&row(r)) };
                if r.len() == n {
                    eq!(res, Ok(()), "pre_multiply");
                    model.rows.iter_mut().for_each(|p| *p = mul(r, p));
                } else {
                    refused(res, n, r.len(), "pre_multiply")?;
                }
                5
            }
            Op::SetAnnot(i) => {
                let a = real.get_annot_mut(*i);
                eq!(a.as_deref().copied(), model.annots.get(*i).copied(), "get_annot_mut({i})");
                if let Some(a) = a {
                    *a = 77;
                    model.annots[*i] = 77;
                }
                6
            }
            Op::Map => {
                real = real.map_annots(|a| (a, a)).map_annots(|(a, _)| a.wrapping_mul(3).wrapping_add(1));
                model.annots.iter_mut().for_each(|a| *a = a.wrapping_mul(3).wrapping_add(1));
                7
            }
            Op::MapIndex => {
                real = real.map_annots_with_index(|i, a| (i, a)).map_annots_with_index(|i, (j, a)| if i == j { a.wrapping_add(((7 * i) as u8).wrapping_add(1)) } else { 255 });
                model.annots.iter_mut().enumerate().for_each(|(i, a)| *a = a.wrapping_add(((7 * i) as u8).wrapping_add(1)));
                8
            }
            Op::CloneMapIndex => {
                let new = real.clone_map_annots_with_index(|i, a| (i, a));
                let want: Vec<(usize, u8)> = model.annots.iter().copied().enumerate().collect();
                eq!(new.annots().map(|(i, a)| (*i, **a)).collect::<Vec<_>>(), want, "clone_map_annots_with_index");
                eq!(ssv_perms(new.row_vec()), model.rows, "rows of clone_map_annots_with_index");
                let new = new.map_annots(|(i, a)| a.wrapping_sub(i as u8));
                observe(&real, &model, o, false)?;
                real = new;
                model.annots.iter_mut().enumerate().for_each(|(i, a)| *a = a.wrapping_sub(i as u8));
                9
            }
            Op::SplitLeft(i) | Op::SplitRight(i) | Op::SplitJoin(i) => {
                let i = *i;
                match (real.clone().split(i), i <= model.len()) {
                    (None, false) => {}
                    (Some((a, b)), true) => {
                        let ma = Model { rows: model.rows[..=i].to_vec(), annots: model.annots[..i].to_vec() };
                        let mb = Model { rows: model.rows[i..].to_vec(), annots: model.annots[i..].to_vec() };
                        observe(&a, &ma, o, false)?;
                        observe(&b, &mb, o, false)?;
                        match op {
                            Op::SplitLeft(_) => (real, model) = (a, ma),
                            Op::SplitRight(_) => (real, model) = (b, mb),
                            _ => {
                                let mut a = a;
                                eq!(a.extend(&b), Ok(()), "joining again");
                                ensure!(a == s.real, "splitting at {i} and joining gave {a:?} instead of {:?}", s.real);
                                real = a;
                            }
                        }
                    }
                    (r, _) => return Err(format!("split({i}) of {} rows gave {r:?}", model.len())),
                }
                match op {
                    Op::SplitLeft(_) => 10,
                    Op::SplitRight(_) => 11,
                    _ => 12,
                }
            }
            Op::Rebuild => {
                let annots = model.annots.clone();
                real = AnnotBlock::with_annots_from_indices(real.into_row_vec(), |i| annots[i]).ok_or("with_annots_from_indices refused")?;
                13
            }
            Op::RebuildDefault => {
                real = AnnotBlock::with_default_annots(real.into_row_vec());
                model.annots.iter_mut().for_each(|a| *a = 0);
                14
            }
        };
        observe(&real, &model, o, true)?;
        Ok(St { real, model, last: kind })
    }
}

pub fn effective(rows: &[Perm]) -> usize {
    rows.iter()
        .map(|p| p.iter().enumerate().rposition(|(i, b)| i != *b).map_or(1, |i| i + 1))
        .max()
        .unwrap_or(1)
}

/// Everything observable about a block
pub fn observe(b: &AnnotBlock<u8>, m: &Model, o: &mut Obs, full: bool) -> Result<(), String> {
    let (n, len) = (m.n(), m.len());
    eq!(b.len(), len, "len");
    eq!(ssv_perms(b.row_vec()), m.rows, "rows");
    eq!(b.annots().copied().collect::<Vec<_>>(), m.annots, "annotations");
    eq!(b.stage().num_bells(), n, "stage");
    eq!(b.row_vec().stage().num_bells(), n, "stage of the rows");
    eq!(perm(b.leftover_row()), *m.left(), "leftover_row");
    o.step(6);
    if !full {
        return Ok(());
    }
    o.see(m);
    eq!(b.is_empty(), len == 0, "is_empty");
    eq!(b.effective_stage().num_bells(), effective(&m.rows), "effective_stage");
    for i in (0..=len + 2).chain([usize::MAX, usize::MAX / n, (usize::MAX / n).saturating_add(1), usize::MAX - 1]) {
        eq!(b.get_row(i).map(perm).as_ref(), m.rows.get(i), "get_row({i})");
        eq!(b.get_annot(i), m.annots.get(i), "get_annot({i})");
        let want = m.annots.get(i).map(|a| (m.rows[i].clone(), *a));
        eq!(b.get_annot_row(i).map(|r| (perm(r.row()), *r.annot())), want, "get_annot_row({i})");
    }
    eq!(perm(b.first_row()), m.rows[0], "first_row");
    let first = m.annots.first().map(|a| (m.rows[0].clone(), *a));
    eq!(b.first_annot_row().map(|r| (perm(r.row()), *r.annot())), first, "first_annot_row");
    eq!(b.rows().map(perm).collect::<Vec<_>>(), m.rows[..len].to_vec(), "rows()");
    eq!(b.rows().len(), len, "rows().len()");
    eq!(b.all_rows().map(perm).collect::<Vec<_>>(), m.rows, "all_rows()");
    let want: Vec<(Perm, u8)> = m.rows.iter().cloned().zip(m.annots.iter().copied()).collect();
    eq!(b.annot_rows().map(|r| (perm(r.row()), *r.annot())).collect::<Vec<_>>(), want, "annot_rows()");
    eq!(b.annot_rows().map(|r| { #[allow(clippy::clone_on_copy)] r.clone() }).map(|r| (perm(r.row()), *r.annot())).collect::<Vec<_>>(), want, "annot_rows() cloned");
    for x in (0..n.min(40)).chain([n - 1]) {
        let path: Vec<usize> = m.rows.iter().map(|p| p.iter().position(|y| *y == x).unwrap()).collect();
        eq!(b.full_path_of(bell(x)).as_ref(), Some(&path), "full_path_of bell index {x}");
        let want = (path[..len].to_vec(), path[len]);
        eq!(b.path_of(bell(x)), Some(want), "path_of bell index {x}");
    }
    for x in [n, n + 1, n + 64] {
        eq!(b.full_path_of(bell(x)), None, "full_path_of bell index {x}");
        eq!(b.path_of(bell(x)), None, "path_of bell index {x}");
    }
    let mut parts: Vec<String> = want.iter().map(|(r, a)| format!("{}: {a:?}", row_text(r))).collect();
    parts.push(row_text(m.left()));
    eq!(format!("{b:?}"), format!("AnnotBlock({})", parts.join(", ")), "Debug");
    // Equality and hash
    let same = m.real();
    ensure!(*b == same && same == *b, "not equal to a fresh block of the same rows and annotations");
    eq!(hash_of(b), hash_of(&same), "hash");
    let mut olds = vec![AnnotBlock::empty(stage(n)), AnnotBlock::empty(stage(n + 1)), same.clone()];
    let mut longer = m.clone();
    longer.rows.push((0..n).rev().collect());
    longer.annots.push(9);
    olds.push(longer.real());
    olds.push(Model::new(vec![(0..2 * n).rev().collect(), identity(2 * n), identity(2 * n)], 3).real());
    super::copies(b, olds, |c| {
        super::check_eq(c, b, true)?;
        eq!(c.annot_rows().map(|r| (perm(r.row()), *r.annot())).collect::<Vec<_>>(), want, "rows of a copy");
        eq!((perm(c.leftover_row()), c.stage().num_bells(), c.len()), (m.left().clone(), n, len), "leftover row, stage and length of a copy");
        eq!(hash_of(c), hash_of(b), "hash of a copy");
        Ok(())
    })?;
    let mut other = m.clone();
    other.rows.push(identity(n));
    other.annots.push(0);
    ensure!(*b != other.real(), "equal to a longer block");
    for i in positions(len).into_iter().filter(|i| *i < len) {
        let mut other = m.clone();
        other.annots[i] ^= 1;
        ensure!(*b != other.real(), "equal to a block with another annotation {i}");
    }
    if n > 1 {
        for i in positions(len).into_iter().filter(|i| *i <= len) {
            let mut other = m.clone();
            other.rows[i].swap(0, n - 1);
            ensure!(*b != other.real(), "equal to a block with another row {i}");
        }
    }
    o.step(24 + 4 * len as u64);
    Ok(())
}

fn parse_case(s: &str, o: &mut Obs) -> Result<(), String> {
    let rows: Vec<Perm> = s.lines().map(|l| l.chars().filter_map(bell_of_char).collect()).collect();
    let fine = !rows.is_empty() && rows.iter().all(|r| is_perm(r) && r.len() == rows[0].len());
    o.see(s);
    match Block::parse(s) {
        Ok(b) => {
            ensure!(fine, "{s:?} was accepted as {b:?}");
            eq!(ssv_perms(b.row_vec()), rows, "rows");
            eq!((b.len(), b.annots().count()), (rows.len() - 1, rows.len() - 1), "length");
            observe(&b.map_annots(|()| 0), &Model { annots: vec![0; rows.len() - 1], rows }, o, true)?;
        }
        Err(e) => {
            ensure!(!fine, "{s:?} was refused: {e}");
            let _ = format!("{e} {e:?}");
            // If there is a line, then the problem isn't that there are none
            ensure!(rows.is_empty() || matches!(e, block::ParseError::Other(_)), "{s:?} was refused as {e:?}");
        }
    }
    o.step(1);
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "A case is one operation on one reached state (real block and list of rows with annotations, advanced together), \
               followed by comparing every observer; states are merged when rows, annotations and kind of last operation \
               agree.  Distinct by resulting rows and annotations.",
        bounds: |t| {
            json!({"stages": [1, 2, 3, 4, 12, 65], "depth": t.pick("3 (2 on 12 and 65 bells)", "4 (3 on 12 and 65 bells)"), "max_rows_before_growing": 4,
                "long_blocks": {"stages": [1, 2, 3, 12, 65, 257], "rows": long_lengths(t.thorough()), "depth": "every operation once"},
                "huge_lists": "2 bells x 4097 and 65537 rows (thorough: 1 x 65537 and 3 x 70000), every operation once with bounds around 2^8, 2^16 and the ends",
                "operation_instances_per_state": "about 100: every operation, every range with bounds up to len+1 in all spellings, matching and mismatching stages",
                "initial_blocks": 5, "parse_texts": {"alphabet": "1 2 newline CR space / 1 2 3 newline", "length": [0, t.pick(8, 9)]}})
        },
        assumptions: &["a reversed range may be treated as empty or panic; a range beyond the end must panic"],
        units: |t| {
            let mut u = vec![];
            for (n, d) in [(1, t.pick(3, 4)), (2, t.pick(3, 4)), (3, t.pick(3, 4)), (4, t.pick(3, 4)), (12, t.pick(2, 3)), (65, t.pick(2, 3))] {
                let count = Sys::new(n, 4, n <= 3).inits().len();
                for k in 0..count {
                    u.push(unit(format!("operations-{n}-{k}"), move |c| {
                        let sys = Sys::new(n, 4, n <= 3);
                        let m = sys.inits().swap_remove(k);
                        let st = St { real: m.real(), model: m.clone(), last: 0 };
                        explore(c, &sys, vec![(format!("{m:?}"), st)], d, 600_000, true);
                    }));
                }
            }
            // Every operation once on long blocks, with long blocks
            for (k, len) in long_lengths(t.thorough()).into_iter().enumerate() {
                for n in [1, 2, 3, 12, 65, 257] {
                    if len > 300 && n > 3 || n > 12 && k % 3 != 0 {
                        continue;
                    }
                    u.push(unit(format!("long-{n}-{len}"), move |c| {
                        let mut sys = Sys::new(n, usize::MAX, false);
                        sys.others.push(Model::new(long_list(n, len + 1, 1), 20));
                        sys.others.push(Model::new(long_list(n, 301 - len.min(299), 2), 30));
                        let m = Model::new(long_list(n, len + 1, 0), 0);
                        let st = St { real: m.real(), model: m, last: 0 };
                        explore(c, &sys, vec![(format!("block of {len} rows on {n} bells"), st)], 1, 600_000, true);
                    }));
                }
            }
            // And on huge ones
            for (n, len) in HUGE_LISTS.into_iter().skip(if t.thorough() { 0 } else { 2 }) {
                u.push(unit(format!("huge-{n}-{len}"), move |c| {
                    let mut sys = Sys::new(n, usize::MAX, false);
                    sys.others.push(Model::new(long_list(n, len + 1, 1), 20));
                    let m = Model::new(long_list(n, len + 1, 0), 0);
                    let st = St { real: m.real(), model: m, last: 0 };
                    explore(c, &sys, vec![(format!("block of {len} rows on {n} bells"), st)], 1, 600_000, true);
                }));
            }
            u.push(unit("constructors", |c| {
                for n in wide_stages(false) {
                    c.case(|| format!("new blocks of stage {n}"), |o| {
                        observe(&AnnotBlock::empty(stage(n)), &Model::new(vec![identity(n)], 0), o, true)?;
                        ensure!(AnnotBlock::<u8>::with_annots_from_indices(ssv(n, &[]), |_| 0).is_none(), "block of no rows");
                        let f = small_family(n);
                        for len in 0..=5 {
                            let rows: Vec<Perm> = (0..=len).map(|i| f[(i * 5 + 1) % f.len()].clone()).collect();
                            let m = Model::new(rows.clone(), 3);
                            observe(&m.real(), &m, o, true)?;
                            let b: AnnotBlock<u8> = AnnotBlock::with_default_annots(ssv(n, &rows));
                            observe(&b, &Model { annots: vec![0; len], rows }, o, true)?;
                        }
                        Ok(())
                    });
                    c.case(|| format!("extending blocks of stage {n} by parts of themselves"), |o| {
                        let f = small_family(n);
                        let rows: Vec<Perm> = (0..5).map(|i| f[(i * 3 + 2) % f.len()].clone()).collect();
                        let m = Model::new(rows, 3);
                        for s in 0..=4 {
                            for e in s..=4 {
                                let mut want = m.clone();
                                want.extend(&m, (s, e)).unwrap();
                                let mut b = m.real();
                                b.extend_from_within(s..e);
                                observe(&b, &want, o, true)?;
                                let mut b = m.real();
                                eq!(b.extend_range(&m.real(), s..e), Ok(()), "extend_range");
                                observe(&b, &want, o, true)?;
                            }
                        }
                        Ok(())
                    });
                }
            }));
            let max = t.pick(8, 9);
            split_unit(&mut u, "parse", 8, move |c, part| {
                for (alphabet, max) in [(&['1', '2', '\n', '\r', ' '][..], max), (&['1', '2', '3', '\n'][..], max + 1)] {
                    all_strings(alphabet, max, &mut |s| {
                        if part.mine() {
                            let s = s.to_owned();
                            c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                        }
                    });
                }
            });
            u
        },
    }
}

// ---------------------------------------------------------------------------------------------

/// The `k`th row of ringing a block (that starts from rounds) over and over from `start`
fn rung(m: &Model, start: &Perm, k: usize) -> (Perm, usize, u8) {
    let (q, r) = (k / m.len(), k % m.len());
    let head = mul(start, &pow(m.left(), q as i64));
    (mul(&head, &m.rows[r]), r, m.annots[r])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Next,
    /// Into a buffer of this stage
    Into(usize),
    Nth(usize),
    Clone,
}

struct Rep<'b> {
    m: &'b Model,
    start: Perm,
    depth: usize,
    steps: Vec<Step>,
    rows: usize,
}

#[derive(Clone)]
struct RepSt<'b> {
    it: bellframe::block::RepeatIter<'b, u8>,
    pos: usize,
    path: Vec<Step>,
}

impl<'b> System for Rep<'b> {
    type State = RepSt<'b>;
    type Op = Step;
    type Key = Vec<Step>; // nothing is merged

    fn key(&self, s: &RepSt<'b>) -> Self::Key {
        s.path.clone()
    }
    fn describe(&self, s: &RepSt<'b>) -> String {
        format!("{:?}", s.path)
    }
    fn ops(&self, s: &RepSt<'b>) -> Vec<Step> {
        if s.pos > self.rows || s.path.len() >= self.depth {
            return vec![];
        }
        let mut v = self.steps.clone();
        if s.path.last() == Some(&Step::Clone) {
            v.retain(|x| *x != Step::Clone);
        }
        v
    }
    fn apply(&self, s: &RepSt<'b>, op: &Step, o: &mut Obs) -> Result<RepSt<'b>, String> {
        // The state was cloned from the iterator which made the earlier steps; `Clone` continues with a clone of a clone
        let mut it = s.it.clone();
        let mut pos = s.pos;
        do_step(&mut it, self.m, &self.start, &mut pos, *op)?;
        o.see(&(pos, op));
        let mut path = s.path.clone();
        path.push(*op);
        Ok(RepSt { it, pos, path })
    }
}

fn do_step<'b>(it: &mut bellframe::block::RepeatIter<'b, u8>, m: &Model, start: &Perm, pos: &mut usize, op: Step) -> Result<(), String> {
    let (lo, hi) = it.size_hint();
    if m.len() == 0 {
        ensure!(lo == 0, "size_hint of an iterator that has ended: {lo}..");
    } else {
        ensure!(hi.is_none(), "size_hint bounds an endless iterator by {hi:?}");
    }
    let want = |k: usize| (m.len() > 0).then(|| rung(m, start, k));
    match op {
        Step::Next => {
            let got = it.next().map(|(r, i, a)| (perm(&r), i, *a));
            eq!(got, want(*pos), "row {pos} by next()");
            *pos += 1;
        }
        Step::Nth(k) => {
            let got = it.nth(k).map(|(r, i, a)| (perm(&r), i, *a));
            eq!(got, want(*pos + k), "nth({k}) from row {pos}");
            *pos += k + 1;
        }
        Step::Into(st) => {
            let before: Perm = (0..st).rev().collect();
            let mut buf = row(&before);
            let got = it.next_into(&mut buf).map(|(i, a)| (i, *a));
            match (got, want(*pos)) {
                (None, None) => eq!(perm(&buf), before, "buffer after the end"),
                (Some((i, a)), Some(w)) => eq!((perm(&buf), i, a), w, "row {pos} into a buffer of stage {st}"),
                (g, w) => return Err(format!("row {pos} by next_into() gave {g:?}, expected {w:?}")),
            }
            *pos += 1;
        }
        Step::Clone => {
            // Half of the copies are made over an iterator which was further on
            let mut c = it.clone();
            if *pos % 2 == 0 {
                c.nth(*pos % 3);
                c.clone_from(it);
            }
            *it = c;
        }
    }
    Ok(())
}

/// One linear run with a pattern of steps
fn run(m: &Model, start: &Perm, steps: &mut dyn FnMut(usize) -> Step, rows: usize, o: &mut Obs) -> Result<(), String> {
    let b = m.real();
    let mut it = b.repeat_iter(row(start)).map_err(|e| e.to_string())?;
    let mut pos = 0;
    let mut k = 0;
    // One buffer for everything would hide nothing: `do_step` makes a fresh one each time, so reuse is tried here
    let mut buf = RowBuf::rounds(stage(1));
    let mut reuse = b.repeat_iter(row(start)).map_err(|e| e.to_string())?;
    for r in 0..rows.min(3 * m.len() + 2) {
        let got = reuse.next_into(&mut buf).map(|(i, a)| (perm(&buf), i, *a));
        eq!(got, (m.len() > 0).then(|| rung(m, start, r)), "row {r} into a reused buffer");
    }
    while pos < rows {
        do_step(&mut it, m, start, &mut pos, steps(k))?;
        k += 1;
    }
    o.step(k as u64);
    o.see(&(m, start));
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "A case is one step of an iterator (next, next_into with a buffer of some stage, nth, clone) after one history of \
               steps - no histories are merged - or one linear run of a block from a start row; every yielded row, index and \
               annotation is compared with repeated multiplication of permutations.  Distinct by position and step.",
        bounds: |t| {
            json!({"all_interleavings": {"stages": [1, 2, 3], "rows_per_block": [0, 1, 2, 3], "depth": t.pick(5, 7), "steps": "next, next_into(same / smaller / larger stage), nth(1), nth(2), clone"},
                "all_blocks": {"stages": "1 to 4", "rows_per_block": t.pick("1 to 2 (3 on up to 3 bells)", "1 to 3"), "start_rows": "all", "repetitions": 3, "patterns_of_next_and_next_into": t.pick(8, 32)},
                "wide_stages": wide_stages(t.thorough()).len(), "long_runs": "up to 3000 rows", "huge": "blocks of 1 to 70000 rows, over 140000 rows rung"})
        },
        assumptions: &["the block starts from rounds"],
        units: |t| {
            let mut u = vec![];
            let depth = t.pick(5, 7);
            split_unit(&mut u, "interleavings", 32, move |c, part| {
                for n in 1..=3usize {
                    let all = all_perms(n);
                    for len in 0..=3usize {
                        let mut models = vec![];
                        all_seqs(all.len(), len, &mut |s| {
                            let mut rows = vec![identity(n)];
                            rows.extend(s.iter().map(|&i| all[i].clone()));
                            models.push(Model::new(rows, 10));
                        });
                        // Every leftover row but only every fifth choice of longer contents, here
                        let step = if len == 3 { 13 } else { 1 };
                        for m in models.iter().step_by(step) {
                            for start in &all {
                                if !part.mine() {
                                    continue;
                                }
                                let b = m.real();
                                let it = match b.repeat_iter(row(start)) {
                                    Ok(it) => it,
                                    Err(e) => {
                                        c.violation(format!("block {m:?} from {}", row_text(start)), e.to_string());
                                        continue;
                                    }
                                };
                                let steps = vec![Step::Next, Step::Into(n), Step::Into(n + 1), Step::Nth(1), Step::Nth(2), Step::Clone];
                                let sys = Rep { m, start: start.clone(), depth, steps, rows: 3 * len + 2 };
                                explore(c, &sys, vec![(format!("block {m:?} from {}", row_text(start)), RepSt { it, pos: 0, path: vec![] })], depth, 1_000_000, false);
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "all-blocks", 32, move |c, part| {
                for n in 1..=4usize {
                    let all = all_perms(n);
                    for len in 1..=3usize {
                        if n == 4 && len == 3 && !t.thorough() {
                            continue;
                        }
                        all_seqs(all.len(), len, &mut |s| {
                            if !part.mine() {
                                return;
                            }
                            let mut rows = vec![identity(n)];
                            rows.extend(s.iter().map(|&i| all[i].clone()));
                            let m = Model::new(rows, 10);
                            for start in &all {
                                c.case(|| format!("block {m:?} from {}", row_text(start)), |o| {
                                    for pat in 0..t.pick(8u32, 32) {
                                        run(&m, start, &mut |k| if pat >> (k % 5) & 1 == 0 { Step::Next } else { Step::Into(n) }, 3 * len + 2, o)?;
                                    }
                                    Ok(())
                                });
                            }
                        });
                    }
                }
            });
            split_unit(&mut u, "wide", 16, move |c, part| {
                for n in wide_stages(t.thorough()) {
                    if !part.mine() {
                        continue;
                    }
                    let f = small_family(n);
                    for len in [0usize, 1, 2, 7] {
                        let mut rows = vec![identity(n)];
                        rows.extend((0..len).map(|i| f[(i * 7 + 1) % f.len()].clone()));
                        let m = Model::new(rows, 10);
                        for start in &f {
                            c.case(|| format!("block {m:?} from {}", row_text(start)), |o| {
                                run(&m, start, &mut |k| [Step::Next, Step::Into(n), Step::Into(1), Step::Nth(3), Step::Clone, Step::Into(2 * n)][k % 6], 4 * len.max(1) + 3, o)
                            });
                        }
                    }
                    for m in [1, n + 1, n.saturating_sub(1), 2 * n, n / 2] {
                        if m == 0 || m == n {
                            continue;
                        }
                        c.case(|| format!("block of stage {n} from a row of stage {m}"), |o| {
                            for len in [0usize, 1, 2] {
                                let mm = Model::new(vec![identity(n); len + 1], 0);
                                o.step(1);
                                refused(mm.real().repeat_iter(RowBuf::rounds(stage(m))).map(|_| ()), m, n, "repeat_iter")?;
                            }
                            Ok(())
                        });
                    }
                }
                // Many repetitions
                for (n, len) in [(5, 3), (7, 10), (12, 1), (8, 32), (16, 255), (16, 256), (16, 257)] {
                    if !part.mine() {
                        continue;
                    }
                    let f = small_family(n);
                    let mut rows = vec![identity(n)];
                    rows.extend((0..len).map(|i| f[(i * 7 + 3) % f.len()].clone()));
                    let m = Model::new(rows, 10);
                    c.case(|| format!("long run of a block of {len} rows on {n} bells"), |o| run(&m, &f[2], &mut |k| if k % 3 == 0 { Step::Next } else { Step::Into(n) }, 3000, o));
                }
            });
            split_unit(&mut u, "huge", 8, |c, part| {
                // More repetitions, and longer blocks, than fit into 16 bits
                for (n, len) in [(1, 1), (2, 1), (3, 1), (3, 2), (4, 1), (5, 3), (7, 1), (2, 65_535), (3, 65_536), (3, 65_537), (4, 70_000)] {
                    if !part.mine() {
                        continue;
                    }
                    let m = Model::new(std::iter::once(identity(n)).chain(long_list(n, len, 3)).collect(), 10);
                    let f = small_family(n);
                    c.case(|| format!("huge run of a block of {len} rows on {n} bells"), |o| {
                        for pat in [2, 3] {
                            let mut steps = |k: usize| if k % pat == 0 { Step::Next } else { Step::Into(n) };
                            run(&m, &f[1 % f.len()], &mut steps, 2 * len.max(70_000) + 7, o)?;
                        }
                        let mut far = |k: usize| [Step::Nth(999), Step::Nth(65_535), Step::Clone, Step::Next, Step::Into(2)][k % 5];
                        run(&m, &f[0], &mut far, 300_000, o)
                    });
                }
            });
            u.push(unit("adaptors", |c| {
                for n in 1..=4usize {
                    let f = all_perms(n);
                    for len in 0..=3usize {
                        let rows: Vec<Perm> = std::iter::once(identity(n)).chain((0..len).map(|i| f[(i * 5 + 1) % f.len()].clone())).collect();
                        let m = Model::new(rows, 10);
                        for start in &f {
                            c.case(|| format!("adaptors on block {m:?} from {}", row_text(start)), |o| {
                                let b = m.real();
                                let it = || b.repeat_iter(row(start)).unwrap().map(|(r, i, a)| (perm(&r), i, *a));
                                let want: Vec<_> = if len == 0 { vec![] } else { (0..20).map(|k| rung(&m, start, k)).collect() };
                                for skip in 0..8 {
                                    for take in 0..8 {
                                        let w: Vec<_> = want.iter().skip(skip).take(take).cloned().collect();
                                        eq!(it().skip(skip).take(take).collect::<Vec<_>>(), w, "skip({skip}).take({take})");
                                        o.step(1);
                                    }
                                }
                                for step in 1..6 {
                                    let w: Vec<_> = want.iter().step_by(step).take(4).cloned().collect();
                                    let got: Vec<_> = if len == 0 { it().step_by(step).collect() } else { it().step_by(step).take(w.len()).collect() };
                                    eq!(got, w, "step_by({step})");
                                }
                                o.see(&m);
                                Ok(())
                            });
                        }
                    }
                }
            }));
            u
        },
    }
}
