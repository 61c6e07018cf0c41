//! C26: iterators over rows

use super::block::Model;
use super::*;
use crate::model::*;
use bellframe::{Row, SameStageVec};
use serde_json::json;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Clone,
}
use Step::*;

const STEPS: [Step; 8] = [Next, Back, Nth(0), Nth(1), Nth(2), NthBack(1), NthBack(2), Clone];

/// What a list yields for a step
fn model_step(m: &mut VecDeque<Perm>, s: Step) -> Option<Option<Perm>> {
    Some(match s {
        Next => m.pop_front(),
        Back => m.pop_back(),
        Nth(k) => {
            m.drain(..k.min(m.len()));
            m.pop_front()
        }
        NthBack(k) => {
            m.truncate(m.len() - k.min(m.len()));
            m.pop_back()
        }
        Clone => return None,
    })
}

/// The remaining rows, in every way of asking
fn check_rest<'a, I: DoubleEndedIterator<Item = &'a Row> + ExactSizeIterator + std::clone::Clone>(it: &I, m: &VecDeque<Perm>, o: &mut Obs) -> Result<(), String> {
    let v: Vec<Perm> = m.iter().cloned().collect();
    let rev: Vec<Perm> = m.iter().rev().cloned().collect();
    let n = v.len();
    eq!(it.len(), n, "len()");
    eq!(it.size_hint(), (n, Some(n)), "size_hint()");
    eq!(it.clone().count(), n, "count()");
    eq!(it.clone().last().map(perm).as_ref(), v.last(), "last()");
    eq!(it.clone().map(perm).collect::<Vec<_>>(), v, "collect()");
    eq!(it.clone().rev().map(perm).collect::<Vec<_>>(), rev, "rev()");
    eq!(it.clone().fold(vec![], |mut a, r| { a.push(perm(r)); a }), v, "fold()");
    eq!(it.clone().rfold(vec![], |mut a, r| { a.push(perm(r)); a }), rev, "rfold()");
    eq!(it.clone().enumerate().rev().map(|(i, r)| (i, perm(r))).collect::<Vec<_>>(), v.iter().cloned().enumerate().rev().collect::<Vec<_>>(), "enumerate().rev()");
    eq!(it.clone().zip(it.clone()).rev().map(|(a, b)| (perm(a), perm(b))).collect::<Vec<_>>(), rev.iter().cloned().zip(rev.iter().cloned()).collect::<Vec<_>>(), "zip().rev()");
    for k in 0..=n + 1 {
        eq!(it.clone().skip(k).map(perm).collect::<Vec<_>>(), v[k.min(n)..].to_vec(), "skip({k})");
        eq!(it.clone().skip(k).rev().map(perm).collect::<Vec<_>>(), rev[..n - k.min(n)].to_vec(), "skip({k}).rev()");
        eq!(it.clone().take(k).map(perm).collect::<Vec<_>>(), v[..k.min(n)].to_vec(), "take({k})");
        eq!(it.clone().take(k).rev().map(perm).collect::<Vec<_>>(), rev[n - k.min(n)..].to_vec(), "take({k}).rev()");
        eq!(it.clone().step_by(k + 1).map(perm).collect::<Vec<_>>(), v.iter().step_by(k + 1).cloned().collect::<Vec<_>>(), "step_by({})", k + 1);
        eq!(it.clone().nth(k).map(perm).as_ref(), v.get(k), "nth({k})");
        eq!(it.clone().nth_back(k).map(perm).as_ref(), rev.get(k), "nth_back({k})");
        eq!(it.clone().skip(k).len(), n - k.min(n), "skip({k}).len()");
    }
    if let Some(x) = v.first() {
        let x = row(x);
        eq!(it.clone().position(|r| r == x.as_row()), v.iter().position(|r| *r == perm(&x)), "position()");
        eq!(it.clone().rposition(|r| r == x.as_row()), v.iter().rposition(|r| *r == perm(&x)), "rposition()");
        eq!(it.clone().max().map(perm).as_ref(), v.iter().max(), "max()");
        eq!(it.clone().min().map(perm).as_ref(), v.iter().min(), "min()");
    }
    let mut p = it.clone().peekable();
    eq!(p.peek().map(|r| perm(r)).as_ref(), v.first(), "peek()");
    eq!(p.len(), n, "peekable().len()");
    eq!(it.clone().chain(it.clone()).map(perm).count(), 2 * n, "chain()");
    let (mut a, mut b) = (vec![], vec![]);
    it.clone().for_each(|r| a.push(perm(r)));
    ensure!(it.clone().all(|r| { b.push(perm(r)); true }), "all()");
    eq!((a, b), (v.clone(), v), "for_each(), all()");
    o.step(20 + 8 * n as u64);
    o.see(m);
    Ok(())
}

/// Every sequence of steps until past exhaustion
fn dfs<'a, I: DoubleEndedIterator<Item = &'a Row> + ExactSizeIterator + std::clone::Clone>(
    c: &mut Ctx,
    what: &str,
    it: &I,
    m: &VecDeque<Perm>,
    path: &mut Vec<Step>,
    depth: usize,
    spare: usize,
) {
    if !c.case(|| format!("{what}; {path:?}"), |o| check_rest(it, m, o)) || depth == 0 || c.stopped() {
        return;
    }
    for s in STEPS {
        if s == Clone && (path.last() == Some(&Clone) || path.len() > 3) {
            continue;
        }
        let mut it2 = it.clone();
        let mut m2 = m.clone();
        let want = model_step(&mut m2, s);
        path.push(s);
        let ok = c.case(
            || format!("{what}; {path:?} yields"),
            |o| {
                o.step(1);
                let got = match s {
                    Next => it2.next(),
                    Back => it2.next_back(),
                    Nth(k) => it2.nth(k),
                    NthBack(k) => it2.nth_back(k),
                    Clone => {
                        let mut c = it2.clone();
                        c.nth(path.len() % 2);
                        c.next_back();
                        c.clone_from(&it2);
                        it2 = c;
                        return Ok(());
                    }
                };
                eq!(Some(got.map(perm)), want, "yielded");
                Ok(())
            },
        );
        c.t.transitions += 1;
        if ok {
            let spare2 = if m.is_empty() { spare.saturating_sub(1) } else { spare };
            if m.is_empty() && spare == 0 {
                c.t.traces += 1;
            } else {
                dfs(c, what, &it2, &m2, path, depth - 1, spare2);
            }
        }
        path.pop();
    }
    c.t.states += 1;
}

fn forward<I: Iterator<Item = (Perm, u8)> + std::clone::Clone>(it: &I, m: &VecDeque<(Perm, u8)>, depth: usize, o: &mut Obs) -> Result<(), String> {
    let n = m.len();
    let v: Vec<_> = m.iter().cloned().collect();
    let (lo, hi) = it.size_hint();
    ensure!(lo <= n && hi.map_or(true, |h| h >= n), "size_hint() {lo}..{hi:?} with {n} left");
    eq!(it.clone().collect::<Vec<_>>(), v, "collect()");
    eq!(it.clone().count(), n, "count()");
    eq!(it.clone().last(), v.last().cloned(), "last()");
    o.step(4);
    o.see(m);
    if depth > 0 {
        for k in 0..3 {
            let (mut a, mut b) = (it.clone(), m.clone());
            b.drain(..k.min(n));
            eq!(a.nth(k), b.pop_front(), "nth({k})");
            forward(&a, &b, depth - 1, o)?;
        }
        let (mut a, mut b) = (it.clone(), m.clone());
        eq!(a.next(), b.pop_front(), "next()");
        forward(&a, &b, depth - 1, o)?;
    }
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        level: "model_checking",
        rule: "A state is a history of steps (next, next_back, nth, nth_back, clone) of an iterator over one collection, nothing \
               merged; at each, the yielded row and (on clones) the remaining rows through every standard adaptor are \
               compared with a double-ended queue.  Distinct by remaining rows.",
        bounds: |t| {
            json!({"stages": [1, 2, 3, 12, 33, 64, 65, 256, 300], "rows": [0, 1, 2, 3, 4, t.pick(4, 5)],
                "depth": "to exhaustion and one step beyond, at most length + 2 steps",
                "iterators": "SameStageVec::iter, into_iter, AnnotBlock::rows, all_rows; annots and annot_rows forwards",
                "longer": "31 to 513 rows: every pair of jumps of up to 257 rows from either end in four orders; all adaptors on up to 300 rows", "huge": "4097, 65537 and 70000 rows: run to the end from both sides, jumps around 2^8, 2^12, 2^16 and the ends",
                "millions": "2^24 + 1 rows on one bell, 5592407 on 3, 2500003 on 7: steps and jumps from both ends, run to the end"})
        },
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            for n in [1usize, 2, 3, 12, 33, 64, 65, 256, 300] {
                let max = if n == 3 { t.pick(4, 5) } else { t.pick(3, 4) };
                for len in 0..=max {
                    for kind in 0..4 {
                        // A block's rows are one fewer
                        u.push(unit(format!("{}-{n}-{len}", ["iter", "into-iter", "rows", "all-rows"][kind]), move |c| {
                            let f = small_family(n);
                            let rows: Vec<Perm> = (0..len).map(|i| f[(i * 3 + 1) % f.len()].clone()).collect();
                            let dq: VecDeque<Perm> = rows.iter().cloned().collect();
                            let what = format!("{:?}", rows.iter().map(|r| row_text(r)).collect::<Vec<_>>());
                            let v: SameStageVec = ssv(n, &rows);
                            match kind {
                                0 => dfs(c, &what, &v.iter(), &dq, &mut vec![], len + 2, 1),
                                1 => dfs(c, &what, &(&v).into_iter(), &dq, &mut vec![], len.min(3) + 2, 1),
                                2 => {
                                    let mut all = rows.clone();
                                    all.push(f[2 % f.len()].clone());
                                    let b = Model::new(all, 0).real();
                                    dfs(c, &what, &b.rows(), &dq, &mut vec![], len.min(3) + 2, 1)
                                }
                                _ => {
                                    if len > 0 {
                                        let b = Model::new(rows, 0).real();
                                        dfs(c, &what, &b.all_rows(), &dq, &mut vec![], len.min(3) + 2, 1)
                                    }
                                }
                            }
                        }));
                    }
                }
            }
            u.push(unit("annotated", |c| {
                for n in [1usize, 2, 3, 12, 65] {
                    for len in 0..=5usize {
                        let f = small_family(n);
                        let rows: Vec<Perm> = (0..=len).map(|i| f[(i * 3 + 1) % f.len()].clone()).collect();
                        let m = Model::new(rows, 40);
                        c.case(|| format!("annot_rows of {m:?}"), |o| {
                            let b = m.real();
                            let want: VecDeque<(Perm, u8)> = m.rows.iter().cloned().zip(m.annots.iter().copied()).collect();
                            forward(&b.annot_rows().map(|r| (perm(r.row()), *r.annot())), &want, 5, o)?;
                            forward(&b.rows().zip(b.annots()).map(|(r, a)| (perm(r), *a)), &want, 4, o)?;
                            eq!(b.annots().len(), len, "annots().len()");
                            eq!(b.annots().rev().copied().collect::<Vec<_>>(), m.annots.iter().rev().copied().collect::<Vec<_>>(), "annots().rev()");
                            Ok(())
                        });
                    }
                }
            }));
            u.push(unit("long", |c| {
                for n in wide_stages(false) {
                    for len in [1usize, 7, 64, 100] {
                        let f = small_family(n);
                        let rows: Vec<Perm> = (0..len).map(|i| f[(i * 3 + 1) % f.len()].clone()).collect();
                        c.case(|| format!("{len} rows of stage {n} from both ends"), |o| {
                            let v = ssv(n, &rows);
                            for pat in 0..8u32 {
                                let mut it = v.iter();
                                let mut m: VecDeque<Perm> = rows.iter().cloned().collect();
                                let mut k = 0;
                                while !m.is_empty() {
                                    eq!(it.len(), m.len(), "len");
                                    let (g, w) = if pat >> (k % 3) & 1 == 0 { (it.next(), m.pop_front()) } else { (it.next_back(), m.pop_back()) };
                                    eq!(g.map(perm), w, "step {k} of pattern {pat}");
                                    k += 1;
                                }
                                ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none() && it.len() == 0, "goes on after the end");
                                o.step(2 * k as u64);
                            }
                            o.see(&rows);
                            Ok(())
                        });
                    }
                }
            }));
            split_unit(&mut u, "huge", 8, |c, part| {
                for (n, len) in super::ssv::HUGE_LISTS {
                    if !part.mine() {
                        continue;
                    }
                    let rows = super::ssv::long_list(n, len, 2);
                    c.case(|| format!("{len} rows of stage {n}"), |o| {
                        let v = ssv(n, &rows);
                        let all: VecDeque<Perm> = rows.iter().cloned().collect();
                        for pat in [0b000u32, 0b111, 0b010] {
                            let (mut it, mut m, mut k) = (v.iter(), all.clone(), 0);
                            while !m.is_empty() {
                                eq!((it.len(), it.size_hint()), (m.len(), (m.len(), Some(m.len()))), "len");
                                let (g, w) = if pat >> (k % 3) & 1 == 0 { (it.next(), m.pop_front()) } else { (it.next_back(), m.pop_back()) };
                                eq!(g.map(perm), w, "step {k} of pattern {pat}");
                                k += 1;
                            }
                            ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "goes on after the end");
                            o.step(k as u64);
                        }
                        for j in [0, 255, 256, 4095, 4096, len / 2, 65_534, 65_535, 65_536, len - 1, len, len + 1, usize::MAX] {
                            for back in [false, true] {
                                let (mut it, mut m) = (v.iter(), all.clone());
                                for s in if back { [NthBack(j), Next, Back] } else { [Nth(j), Next, Back] } {
                                    let want = match s {
                                        // (not one by one)
                                        Nth(j) => {
                                            m = m.split_off(j.min(m.len()));
                                            m.pop_front()
                                        }
                                        NthBack(j) => {
                                            m.truncate(m.len().saturating_sub(j));
                                            m.pop_back()
                                        }
                                        Next => m.pop_front(),
                                        _ => m.pop_back(),
                                    };
                                    let got = match s {
                                        Nth(j) => it.nth(j),
                                        NthBack(j) => it.nth_back(j),
                                        Next => it.next(),
                                        _ => it.next_back(),
                                    };
                                    eq!(got.map(perm), want, "{s:?}");
                                    eq!(it.len(), m.len(), "len after {s:?}");
                                }
                            }
                        }
                        eq!((v.iter().count(), v.iter().last().map(perm)), (len, rows.last().cloned()), "count and last");
                        let b = Model::new(rows.clone(), 0).real();
                        eq!((b.rows().len(), b.all_rows().len(), b.annots().len(), b.annot_rows().count()), (len - 1, len, len - 1, len - 1), "lengths of a block's iterators");
                        ensure!(b.rows().map(perm).eq(rows[..len - 1].iter().cloned()), "rows of a block");
                        o.see(&(n, len));
                        Ok(())
                    });
                }
            });
            // More bells than a 24-bit mantissa holds
            split_unit(&mut u, "millions", 4, |c, part| {
                for (n, len) in [(1usize, (1usize << 24) + 1), (3, 5_592_407), (7, 2_500_003)] {
                    if part.mine() {
                        c.case(|| format!("{len} rows of stage {n}"), |o| {
                            let v = super::ssv::millions(n, len)?;
                            let want = |i: usize| super::ssv::millions_row(n, i, len);
                            let mut it = v.iter();
                            for (k, j) in [0, 1, 65_535, 1 << 20, len / 2].into_iter().enumerate() {
                                eq!((it.len(), it.size_hint()), (len - 2 * k, (len - 2 * k, Some(len - 2 * k))), "len after {k} from each end");
                                eq!(it.next().map(perm), Some(want(k)), "next");
                                eq!(it.len(), len - 2 * k - 1, "len");
                                eq!(it.next_back().map(perm), Some(want(len - 1 - k)), "next_back");
                                let mut x = v.iter();
                                eq!((x.nth(j).map(perm), x.len()), (Some(want(j)), len - j - 1), "nth({j})");
                                let mut x = v.iter();
                                eq!((x.nth_back(j).map(perm), x.len()), (Some(want(len - 1 - j)), len - j - 1), "nth_back({j})");
                            }
                            let mut x = v.iter();
                            eq!((x.nth(len - 1).map(perm), x.len()), (Some(want(len - 1)), 0), "the last one");
                            eq!((v.iter().nth(len).map(perm), v.iter().nth_back(len).map(perm)), (None, None), "beyond the end");
                            eq!((v.iter().last().map(perm), v.iter().rev().last().map(perm)), (Some(want(len - 1)), Some(want(0))), "last");
                            let (mut a, mut k) = (v.iter(), 0);
                            while let Some(r) = a.next() {
                                if k % 4099 == 0 || k + 3 > len {
                                    eq!((perm(r), a.len()), (want(k), len - k - 1), "row {k} and the rows after it");
                                }
                                k += 1;
                            }
                            eq!(k, len, "number of rows");
                            let b = bellframe::AnnotBlock::<()>::with_default_annots(v);
                            eq!((b.rows().len(), b.all_rows().len(), b.annots().len(), b.len()), (len - 1, len, len - 1, len - 1), "lengths of a block's iterators");
                            o.step(len as u64);
                            o.see(&(n, len));
                            Ok(())
                        });
                    }
                }
            });
            split_unit(&mut u, "longer", 16, |c, part| {
                for n in [1usize, 2, 3, 8, 16, 17, 65] {
                    for len in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 513] {
                        let f = small_family(n);
                        let rows: Vec<Perm> = (0..len).map(|i| f[(i * i + i / 5) % f.len()].clone()).collect();
                        // Jumps from the front and back, near all powers of two and the ends
                        let jumps: Vec<usize> = [0, 1, 2, 15, 16, 31, 32, 63, 64, 65, 127, 128, 254, 255, 256, 257].into_iter().chain(len.saturating_sub(2)..=len + 1).collect();
                        for &j in &jumps {
                            for &k in &jumps {
                                if !part.mine() {
                                    continue;
                                }
                                c.case(|| format!("{len} rows of stage {n}: nth({j}), nth_back({k})"), |o| {
                                    let v = ssv(n, &rows);
                                    let all: VecDeque<Perm> = rows.iter().cloned().collect();
                                    for (a, b) in [(Nth(j), NthBack(k)), (NthBack(k), Nth(j)), (Nth(j), Nth(k)), (NthBack(j), NthBack(k))] {
                                        let (mut it, mut m) = (v.iter(), all.clone());
                                        for s in [a, b, Next, Back, a] {
                                            let want = model_step(&mut m, s);
                                            let got = match s {
                                                Next => it.next(),
                                                Back => it.next_back(),
                                                Nth(k) => it.nth(k),
                                                NthBack(k) => it.nth_back(k),
                                                Clone => None,
                                            };
                                            eq!(Some(got.map(perm)), want, "{s:?} after {a:?}, {b:?}");
                                            eq!(it.len(), m.len(), "len after {s:?} after {a:?}, {b:?}");
                                        }
                                        eq!(it.map(perm).collect::<Vec<_>>(), m.iter().cloned().collect::<Vec<_>>(), "rest after {a:?}, {b:?}");
                                        o.step(11);
                                    }
                                    o.see(&(n, len, j, k));
                                    Ok(())
                                });
                            }
                        }
                        if part.mine() && len <= 300 {
                            c.case(|| format!("all adaptors on {len} rows of stage {n}"), |o| {
                                let v = ssv(n, &rows);
                                check_rest(&v.iter(), &rows.iter().cloned().collect(), o)?;
                                let b = Model::new(rows.clone(), 0).real();
                                check_rest(&b.all_rows(), &rows.iter().cloned().collect(), o)?;
                                check_rest(&b.rows(), &rows[..len - 1].iter().cloned().collect(), o)
                            });
                        }
                    }
                }
            });
            u
        },
    }
}
