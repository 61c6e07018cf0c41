//! C05: closures, groups and cartesian products of rows

use super::*;
use crate::model::*;
use bellframe::{Row, RowBuf};
use serde_json::json;
use std::collections::BTreeSet;

fn closures(a: &Perm, o: &mut Obs) -> Result<(), String> {
    let ord = order(a);
    let r = row(a);
    let want: Vec<Perm> = (1..=ord).map(|e| pow(a, e as i64)).collect();
    let got: Vec<Perm> = r.closure().iter().map(|r| perm(r)).collect();
    eq!(got, want, "closure");
    let want: Vec<Perm> = (0..ord).map(|e| pow(a, e as i64)).collect();
    let got: Vec<Perm> = r.closure_from_rounds().iter().map(|r| perm(r)).collect();
    eq!(got, want, "closure_from_rounds");
    o.step(2);
    o.see(&(a, ord));
    Ok(())
}

/// The group generated by `gens`, by saturation from both sides (independently of the crate's algorithm)
pub fn generated(gens: &[Perm]) -> BTreeSet<Perm> {
    let mut s: BTreeSet<Perm> = gens.iter().cloned().collect();
    let mut new: Vec<Perm> = s.iter().cloned().collect();
    while let Some(p) = new.pop() {
        for g in gens {
            let q = mul(g, &p);
            if s.insert(q.clone()) {
                new.push(q);
            }
        }
    }
    s
}

fn least_group(gens: &[Perm], o: &mut Obs) -> Result<(), String> {
    let rows: Vec<RowBuf> = gens.iter().map(|g| row(g)).collect();
    let got = Row::least_group_containing(rows.iter().map(|r| r.as_row())).map_err(|e| e.to_string())?;
    let got: BTreeSet<Perm> = got.iter().map(|r| perm(r)).collect();
    let want = generated(gens);
    eq!(got.len(), want.len(), "size of the least group containing {gens:?}");
    ensure!(got == want, "least group containing {gens:?} is wrong");
    // (The pairs on 6 bells generate few different large groups, over and over)
    if !gens.is_empty() && !(gens[0].len() == 6 && gens.len() == 2 && want.len() > 72) && want.len() <= 1000 {
        let g: Vec<RowBuf> = want.iter().map(|p| row(p)).collect();
        eq!(Row::is_group(g.iter().map(|r| r.as_row())), Ok(true), "is_group of a generated group");
    }
    o.step(2);
    o.see(&want);
    Ok(())
}

/// Named generator lists of groups with more than a handful of rows
fn large_groups(thorough: bool) -> Vec<(String, Vec<Perm>)> {
    let cycle = |n: usize, at: usize, len: usize| -> Perm {
        let mut p = identity(n);
        for i in 0..len {
            p[at + i] = at + (i + 1) % len;
        }
        p
    };
    let mut v = vec![];
    for n in 5..=if thorough { 8 } else { 7 } {
        v.push((format!("S{n}"), vec![cycle(n, 0, n), cycle(n, 0, 2)]));
        v.push((format!("S{n} by swaps"), (0..n - 1).map(|i| cycle(n, i, 2)).collect()));
        v.push((format!("A{n}"), (0..n - 2).map(|i| cycle(n, i, 3)).collect()));
        v.push((format!("S{} among {n}", n - 1), vec![cycle(n, 1, n - 1), cycle(n, n - 2, 2)]));
    }
    // Elementary abelian groups: disjoint swaps
    for k in [5, 8, 9] {
        v.push((format!("2^{k}"), (0..k).map(|i| cycle(2 * k, 2 * i, 2)).collect()));
        v.push((format!("2^{k} on 65 bells"), (0..k).map(|i| cycle(65, 2 * i + 3, 2)).collect()));
    }
    // Coprime disjoint cycles: a cyclic group from several generators
    v.push(("5*7*8".into(), vec![cycle(20, 0, 5), cycle(20, 5, 7), cycle(20, 12, 8)]));
    v.push(("5*7*8 as one".into(), vec![mul(&cycle(20, 0, 5), &mul(&cycle(20, 5, 7), &cycle(20, 12, 8)))]));
    v.push(("16*17".into(), vec![cycle(33, 0, 16), cycle(33, 16, 17)]));
    for n in if thorough { vec![100, 128, 129, 250, 255] } else { vec![30, 64, 65, 100, 129, 200] } {
        let rot = cycle(n, 0, n);
        v.push((format!("C{n}"), vec![rot.clone()]));
        v.push((format!("D{n}"), vec![(0..n).rev().collect(), rot]));
    }
    v
}

fn model_is_group(set: &BTreeSet<Perm>) -> bool {
    !set.is_empty()
        && set.iter().all(|a| set.contains(&inv(a)))
        && set.iter().all(|a| set.iter().all(|b| set.contains(&mul(a, b))))
}

fn is_group(rows: &[Perm], o: &mut Obs) -> Result<(), String> {
    let real: Vec<RowBuf> = rows.iter().map(|r| row(r)).collect();
    let want = model_is_group(&rows.iter().cloned().collect());
    eq!(Row::is_group(real.iter().map(|r| r.as_row())), Ok(want), "is_group({rows:?})");
    o.step(1);
    o.see(&(rows, want));
    Ok(())
}

fn product(sets: &[Vec<Perm>], o: &mut Obs) -> Result<(), String> {
    let real: Vec<Vec<RowBuf>> = sets.iter().map(|s| s.iter().map(|r| row(r)).collect()).collect();
    let stages: BTreeSet<usize> = sets.iter().flatten().map(|p| p.len()).collect();
    let any_empty = sets.is_empty() || sets.iter().any(|s| s.is_empty());
    let got = Row::multi_cartesian_product(real.iter());
    o.step(1);
    o.see(sets);
    match got {
        Err(_) if stages.len() > 1 => Ok(()),
        Err(e) => Err(format!("product of {sets:?} was refused: {e}")),
        Ok(v) => {
            let mut got: Vec<Perm> = v.iter().map(|r| perm(r)).collect();
            if any_empty {
                eq!(got, Vec::<Perm>::new(), "product of {sets:?}");
                return Ok(());
            }
            ensure!(stages.len() == 1, "product of different stages {sets:?} was accepted");
            let mut want = sets[0].clone();
            for s in &sets[1..] {
                want = want.iter().flat_map(|a| s.iter().map(move |b| mul(a, b))).collect();
            }
            got.sort();
            want.sort();
            eq!(got, want, "product of {sets:?}");
            Ok(())
        }
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "A case is one row (closures), one list of generators (least group), one list of rows (is_group) or one \
               list of lists of rows (cartesian product), compared with a saturation / definition oracle on plain \
               vectors.  Distinct by input and result.",
        bounds: |t| {
            json!({"closure_all_rows_up_to_stage": t.pick(7, 9), "generators": "all lists of <=3 rows on <=3 bells, all sets of <=3 rows on 4 bells, all ordered pairs on 5 bells",
                "generators_thorough": "also all pairs on 6 bells", "is_group": t.pick("all subsets on <=3 bells, all subsets of size <=4 on 4 bells, all 2-generated groups on <=5 bells and their one-row changes; sets of 1 to 4 structured rows and swaps on all wide stages", "also all subsets of the 24 rows on 4 bells"),
                "products": "all lists of <=3 lists of <=2 rows on 3 bells; all lists of <=3 lists of <=2 rows of mixed stages 1 to 3",
                "large": t.pick("S5 to S7, A5 to A7, 2^5 to 2^9, cyclic and dihedral groups up to 200 bells: generated, tested, tested without each row and with one more; products of up to 33 lists and of up to 14400 rows", "the same with S8, A8 and groups of up to 255 bells")})
        },
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(7, 9);
            split_unit(&mut u, "closure", 8, move |c, part| {
                for n in 1..=max {
                    for a in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("closure of {a:?}"), |o| closures(&a, o));
                        }
                    }
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "closure-wide", 16, move |c, part| {
                for n in wide_stages(thorough) {
                    for a in family(n) {
                        if part.mine() && order(&a) * n <= 600_000 {
                            c.case(|| format!("closure of {a:?}"), |o| closures(&a, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "least-group", 16, move |c, part| {
                c.case(|| "least group of nothing".into(), |o| least_group(&[], o));
                for n in 1..=3 {
                    let ps = all_perms(n);
                    for len in 1..=3 {
                        all_seqs(ps.len(), len, &mut |ix| {
                            if part.mine() {
                                let g: Vec<Perm> = ix.iter().map(|&i| ps[i].clone()).collect();
                                c.case(|| format!("generators {g:?}"), |o| least_group(&g, o));
                            }
                        });
                    }
                }
                let ps = all_perms(4);
                for i in 0..24 {
                    for j in i..24 {
                        for k in j..24 {
                            if part.mine() {
                                let g = vec![ps[k].clone(), ps[i].clone(), ps[j].clone()];
                                c.case(|| format!("generators {g:?}"), |o| least_group(&g, o));
                            }
                        }
                    }
                }
                let ps = all_perms(5);
                for a in &ps {
                    for b in &ps {
                        if part.mine() {
                            let g = vec![a.clone(), b.clone()];
                            c.case(|| format!("generators {g:?}"), |o| least_group(&g, o));
                        }
                    }
                }
                if thorough {
                    let ps = all_perms(6);
                    for (i, a) in ps.iter().enumerate() {
                        for b in &ps[i..] {
                            if part.mine() {
                                let g = vec![a.clone(), b.clone()];
                                c.case(|| format!("generators {g:?}"), |o| least_group(&g, o));
                            }
                        }
                    }
                }
                // Cyclic and dihedral groups of larger stages
                for n in [7, 8, 12, 16, 17, 33, 64, 65, 100] {
                    let rot: Perm = (0..n).map(|i| (i + 1) % n).collect();
                    let back: Perm = (0..n).rev().collect();
                    for g in [vec![rot.clone()], vec![back.clone()], vec![rot.clone(), back.clone()], vec![inv(&rot), mul(&rot, &back), back.clone()]] {
                        if part.mine() {
                            c.case(|| format!("generators {g:?}"), |o| least_group(&g, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "is-group", 16, move |c, part| {
                for n in 1..=3 {
                    let ps = all_perms(n);
                    for bits in 0..1u32 << ps.len() {
                        if part.mine() {
                            let g: Vec<Perm> = (0..ps.len()).filter(|i| bits >> i & 1 == 1).map(|i| ps[i].clone()).collect();
                            c.case(|| format!("rows {g:?}"), |o| is_group(&g, o));
                        }
                    }
                }
                let ps = all_perms(4);
                for len in 1..=4usize {
                    all_seqs(24, len, &mut |ix| {
                        // increasing only; the first repeated, to exercise duplicates in the list
                        if ix.windows(2).all(|w| w[0] < w[1]) && part.mine() {
                            let g: Vec<Perm> = ix.iter().map(|&i| ps[i].clone()).chain([ps[ix[0]].clone()]).collect();
                            c.case(|| format!("rows {g:?}"), |o| is_group(&g, o));
                        }
                    });
                }
                for n in 3..=5 {
                    let ps = all_perms(n);
                    let mut groups = BTreeSet::new();
                    for (i, a) in ps.iter().enumerate() {
                        for b in &ps[i..] {
                            groups.insert(generated(&[a.clone(), b.clone()]));
                        }
                    }
                    for g in groups {
                        if !part.mine() {
                            continue;
                        }
                        let g: Vec<Perm> = g.into_iter().collect();
                        c.case(|| format!("rows {g:?}"), |o| is_group(&g, o));
                        for i in 0..g.len() {
                            let mut h = g.clone();
                            h.remove(i);
                            c.case(|| format!("rows {h:?}"), |o| is_group(&h, o));
                            // coset
                            let h: Vec<Perm> = g.iter().map(|p| mul(p, &ps[ps.len() - 1])).collect();
                            c.case(|| format!("rows {h:?}"), |o| is_group(&h, o));
                        }
                        for p in ps.iter().filter(|p| !g.contains(p)).take(12) {
                            let mut h = g.clone();
                            h.push(p.clone());
                            c.case(|| format!("rows {h:?}"), |o| is_group(&h, o));
                        }
                    }
                }
            });
            // Small sets of rows of all stages
            split_unit(&mut u, "is-group-wide", 16, move |c, part| {
                for n in wide_stages(thorough) {
                    if !part.mine() || n < 2 {
                        continue;
                    }
                    let mut rows = small_family(n);
                    for p in boundary_places(n) {
                        for q in [p + 1, n - 1, n / 2] {
                            if p < n && q < n && p != q {
                                let mut r = identity(n);
                                r.swap(p, q);
                                rows.push(r);
                            }
                        }
                    }
                    let rounds = identity(n);
                    for (i, r) in rows.iter().enumerate() {
                        let other = &rows[(i + 1) % rows.len()];
                        for g in [
                            vec![r.clone()],
                            vec![r.clone(), rounds.clone()],
                            vec![r.clone(), inv(r)],
                            vec![rounds.clone(), r.clone(), inv(r)],
                            vec![rounds.clone(), r.clone(), other.clone()],
                            vec![mul(r, other), other.clone(), rounds.clone(), r.clone()],
                        ] {
                            c.case(|| format!("rows {g:?}"), |o| is_group(&g, o));
                        }
                    }
                }
            });
            u.push(unit("mixed-stages", |c| {
                // Every list of <=3 rows on 1 to 3 bells with at least two stages
                let ps: Vec<Perm> = (1..=3).flat_map(all_perms).collect();
                for len in 2..=3 {
                    all_seqs(ps.len(), len, &mut |ix| {
                        let g: Vec<Perm> = ix.iter().map(|&i| ps[i].clone()).collect();
                        let st: BTreeSet<usize> = g.iter().map(|p| p.len()).collect();
                        if st.len() < 2 {
                            return;
                        }
                        c.case(|| format!("mixed rows {g:?}"), |o| {
                            let rows: Vec<RowBuf> = g.iter().map(|g| row(g)).collect();
                            let e1 = Row::least_group_containing(rows.iter().map(|r| r.as_row()));
                            let e2 = Row::is_group(rows.iter().map(|r| r.as_row()));
                            for (what, e) in [("least_group_containing", e1.err()), ("is_group", e2.err())] {
                                let e = e.ok_or_else(|| format!("{what} accepted mixed stages {g:?}"))?;
                                let named = st.iter().any(|&a| st.iter().any(|&b| a != b && e == ist(a, b)));
                                ensure!(named, "{what} of {g:?} reported {e}");
                            }
                            o.step(2);
                            o.see(&g);
                            Ok(())
                        });
                    });
                }
            }));
            if thorough {
                split_unit(&mut u, "is-group-all-subsets-4", 64, move |c, part| {
                    let ps = all_perms(4);
                    let rows: Vec<RowBuf> = ps.iter().map(|p| row(p)).collect();
                    let mut index = FxMap::default();
                    for (i, p) in ps.iter().enumerate() {
                        index.insert(p.clone(), i);
                    }
                    // table[i]: bit set of quotients a*b^-1
                    let table: Vec<Vec<usize>> = ps.iter().map(|a| ps.iter().map(|b| index[&mul(a, &inv(b))]).collect()).collect();
                    for hi in 0..1u32 << 12 {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("all row sets on 4 bells with high bits {hi:#x}"), |o| {
                            for lo in 0..1u32 << 12 {
                                let bits = hi << 12 | lo;
                                let want = bits != 0
                                    && (0..24).all(|i| bits >> i & 1 == 0 || (0..24).all(|j| bits >> j & 1 == 0 || bits >> table[i][j] & 1 == 1));
                                let got = Row::is_group((0..24).filter(|i| bits >> i & 1 == 1).map(|i| rows[i].as_row()));
                                eq!(got, Ok(want), "row set {bits:#x}");
                                o.step(1);
                            }
                            o.see(&hi);
                            Ok(())
                        });
                    }
                });
            }
            split_unit(&mut u, "products", 8, move |c, part| {
                let ps = all_perms(3);
                let mut sets: Vec<Vec<Perm>> = vec![vec![]];
                for a in &ps {
                    sets.push(vec![a.clone()]);
                    for b in &ps {
                        sets.push(vec![a.clone(), b.clone()]);
                    }
                }
                for len in 0..=3 {
                    all_seqs(sets.len(), len, &mut |ix| {
                        if part.mine() {
                            let s: Vec<Vec<Perm>> = ix.iter().map(|&i| sets[i].clone()).collect();
                            c.case(|| format!("sets {s:?}"), |o| product(&s, o));
                        }
                    });
                }
                // Four factors, fewer sets
                let few: Vec<Vec<Perm>> = vec![ps[3..5].to_vec(), vec![ps[1].clone()], ps[..3].to_vec(), vec![]];
                for len in 4..=5 {
                    all_seqs(few.len(), len, &mut |ix| {
                        if part.mine() {
                            let s: Vec<Vec<Perm>> = ix.iter().map(|&i| few[i].clone()).collect();
                            c.case(|| format!("sets {s:?}"), |o| product(&s, o));
                        }
                    });
                }
                // Mixed stages
                let ps: Vec<Perm> = vec![vec![0], vec![1, 0], vec![0, 1], vec![2, 0, 1], vec![1, 0, 2]];
                let mut sets: Vec<Vec<Perm>> = vec![vec![]];
                for a in &ps {
                    sets.push(vec![a.clone()]);
                    for b in &ps {
                        sets.push(vec![a.clone(), b.clone()]);
                    }
                }
                for len in 0..=3 {
                    all_seqs(sets.len(), len, &mut |ix| {
                        if part.mine() {
                            let s: Vec<Vec<Perm>> = ix.iter().map(|&i| sets[i].clone()).collect();
                            c.case(|| format!("sets {s:?}"), |o| product(&s, o));
                        }
                    });
                }
                for n in wide_stages(false) {
                    if part.mine() {
                        let f = small_family(n);
                        let s = vec![f.iter().take(5).cloned().collect(), f.iter().rev().take(4).cloned().collect(), f.iter().skip(2).take(3).cloned().collect()];
                        c.case(|| format!("family sets on {n}"), |o| product(&s, o));
                    }
                }
            });
            split_unit(&mut u, "large", 32, move |c, part| {
                for (name, g) in large_groups(thorough) {
                    if part.mine() {
                        c.case(|| format!("generators of {name}: {g:?}"), |o| least_group(&g, o));
                    }
                    let rev: Vec<Perm> = g.iter().rev().cloned().chain(g.first().cloned()).collect();
                    if part.mine() {
                        c.case(|| format!("generators of {name}: {rev:?}"), |o| least_group(&rev, o));
                    }
                }
                // Many generators, all but the last few of which generate less (or nothing new)
                for k in [20usize, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049] {
                    for (name, gens) in large_groups(false) {
                        let n = gens[0].len();
                        if !part.mine() || n > 8 || n < 5 {
                            continue;
                        }
                        // A small group on the same bells, repeated
                        let small: Vec<Perm> = generated(&gens[..1]).into_iter().take(6).collect();
                        let mut many: Vec<Perm> = (0..k).map(|i| small[i % small.len()].clone()).collect();
                        many.extend(gens.iter().cloned());
                        c.case(|| format!("{k} rows of a small group, then generators of {name}: {gens:?}"), |o| least_group(&many, o));
                    }
                }
                for (name, gens) in large_groups(false) {
                    let all: Vec<Perm> = generated(&gens).into_iter().collect();
                    if part.mine() && all.len() <= 400 {
                        c.case(|| format!("all {} rows of {name} as generators", all.len()), |o| least_group(&all, o));
                    }
                }
                // Group tests of larger groups, of the groups without each single row, and with one row more
                for (name, gens) in large_groups(false) {
                    let all: Vec<Perm> = generated(&gens).into_iter().collect();
                    if all.len() > 800 {
                        continue;
                    }
                    let n = all[0].len();
                    for i in 0..all.len() {
                        if part.mine() {
                            let mut h = all.clone();
                            h.swap_remove(i);
                            c.case(|| format!("{name} without {:?}", all[i]), |o| {
                                let real: Vec<RowBuf> = h.iter().map(|r| row(r)).collect();
                                eq!(Row::is_group(real.iter().map(|r| r.as_row())), Ok(false), "is_group");
                                o.step(1);
                                o.see(&(&name, i));
                                Ok(())
                            });
                        }
                    }
                    let known: BTreeSet<&Perm> = all.iter().collect();
                    for p in small_family(n).into_iter().filter(|p| !known.contains(p)) {
                        if part.mine() {
                            let mut h = all.clone();
                            h.push(p.clone());
                            c.case(|| format!("{name} with {p:?}"), |o| {
                                let real: Vec<RowBuf> = h.iter().map(|r| row(r)).collect();
                                // A larger group would be at least twice as large
                                eq!(Row::is_group(real.iter().map(|r| r.as_row())), Ok(false), "is_group");
                                o.step(1);
                                o.see(&(&name, &p));
                                Ok(())
                            });
                        }
                    }
                }
                // Products of many and of large lists
                let s5 = all_perms(5);
                let pick = |from: usize, len: usize| -> Vec<Perm> { (0..len).map(|i| s5[(from + 37 * i) % 120].clone()).collect() };
                let mut lists: Vec<Vec<Vec<Perm>>> = vec![];
                for len in [1, 2, 5, 6, 8, 9, 11] {
                    lists.push((0..len).map(|i| pick(i * 11 + 1, 2)).collect());
                    lists.push((0..len * 3).map(|i| pick(i * 7 + 3, 1)).collect());
                }
                for (a, b) in [(120, 1), (1, 120), (120, 2), (2, 120), (120, 120), (130, 3), (3, 255), (256, 2), (2, 257), (300, 3)] {
                    lists.push(vec![pick(5, a), pick(9, b)]);
                    lists.push(vec![pick(5, a), pick(4, 1), pick(9, b)]);
                }
                for empty in 0..7 {
                    lists.push((0..7).map(|i| pick(i, if i == empty { 0 } else { 2 })).collect());
                }
                for s in lists {
                    if part.mine() {
                        c.case(|| format!("product of lists of {:?} rows on 5 bells", s.iter().map(|s| s.len()).collect::<Vec<_>>()), |o| product(&s, o));
                    }
                }
                for n in wide_stages(thorough) {
                    if part.mine() {
                        let f = small_family(n);
                        let s: Vec<Vec<Perm>> = (0..6).map(|i| f.iter().cycle().skip(i).take(2).cloned().collect()).collect();
                        c.case(|| format!("product of six lists of two rows on {n} bells"), |o| product(&s, o));
                    }
                }
            });
            u
        },
    }
}
