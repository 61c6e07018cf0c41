//! C04: row observers describe the row, and the fast hash is perfect up to 16 bells

use crate::{fw::*, model::*};
use bellframe::{Parity, Row};
use serde_json::json;

fn observe(p: &Perm, o: &mut Obs) -> Result<(), String> {
    let n = p.len();
    let rb = row(p);
    let r: &Row = &rb;
    eq!(r.stage().num_bells(), n, "stage");
    let bs = bells(p);
    eq!(r.slice(), &bs[..], "slice");
    eq!(r.bell_iter().collect::<Vec<_>>(), bs, "bell_iter");
    eq!(r.into_iter().collect::<Vec<_>>(), bs, "&Row into_iter");
    eq!((&rb).into_iter().collect::<Vec<_>>(), bs, "&RowBuf into_iter");
    eq!(r.bell_iter().len(), n, "bell_iter().len()");
    eq!(r.bell_iter().rev().collect::<Vec<_>>(), bs.iter().rev().copied().collect::<Vec<_>>(), "bell_iter().rev()");
    let pinv = inv(p);
    let probe: Vec<usize> = if n <= 40 { (0..n).collect() } else { boundary_places(n) };
    for &i in &probe {
        eq!(r[i], bs[i], "index {i}");
        eq!(unsafe { r.get_bell_unchecked(i) }, bs[i], "get_bell_unchecked({i})");
        eq!(r.place_of(bell(i)), Some(pinv[i]), "place_of bell index {i}");
    }
    for absent in [n, n + 1, n + 63, n + 64, n + 255, n + 256, 1 << 16, 1 << 32, usize::MAX - 1] {
        if absent >= n {
            eq!(r.place_of(bell(absent)), None, "place_of absent bell index {absent}");
        }
    }
    for out in [n, n + 1, n + 64, usize::MAX] {
        ensure!(panics(|| r[out]), "indexing place {out} of {n} didn't panic");
    }
    let rounds = p.iter().enumerate().all(|(i, b)| i == *b);
    eq!(r.is_rounds(), rounds, "is_rounds");
    eq!(r.is_backrounds(), p.iter().enumerate().all(|(i, b)| n - 1 - i == *b), "is_backrounds");
    let eff = (0..n).rev().find(|&i| p[i] != i).map_or(1, |i| i + 1);
    eq!(r.effective_stage().num_bells(), eff, "effective_stage");
    let fixed: Vec<usize> = (0..n).filter(|&i| p[i] == i).collect();
    eq!(r.fixed_bells().map(|b| b.index()).collect::<Vec<_>>(), fixed, "fixed_bells");
    let mut copy = rb.clone();
    eq!(copy.parity(), Parity::from_is_odd(is_odd(p)), "parity");
    ensure!(is_perm(&perm(&copy)), "parity left an invalid row {:?}", perm(&copy));
    let h = r.fast_hash();
    eq!(row(p).fast_hash(), h, "fast_hash of an equal row");
    eq!(perm(r), *p, "row after being observed");
    o.step(20 + 3 * probe.len() as u64);
    o.see(&(p, h, eff));
    Ok(())
}

/// Checks that different rows have different hashes
struct Hashes {
    seen: FxMap<usize, Perm>,
}
impl Hashes {
    fn add(&mut self, c: &mut Ctx, p: &Perm) {
        let seen = &mut self.seen;
        c.case(
            || format!("fast_hash of {p:?}"),
            |o| {
                let h = row(p).fast_hash();
                o.see(&(p.len(), h));
                match seen.get(&h) {
                    Some(q) if q != p => Err(format!("{q:?} and {p:?} both have hash {h}")),
                    Some(_) => Ok(()),
                    None => {
                        seen.insert(h, p.clone());
                        Ok(())
                    }
                }
            },
        );
    }
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "A case is one row given to every observer (or one row added to the set of hashes of its stage, or one \
               pair of rows for parity of products); answers are compared with the plain index vector.  Distinct by \
               row and answers.",
        bounds: |t| {
            json!({"all_rows_up_to_stage": t.pick(8, 9), "hash_all_rows_up_to_stage": t.pick(8, 10),
                "hash_stages_9_to_16": "every permutation of every 6 neighbouring places (and of 3 spread sets of 6 places) of 5 base rows, all 3-cycles and products of two transpositions",
                "parity_of_products_all_pairs_up_to_stage": t.pick(6, 6), "wide_stages": wide_stages(t.thorough())})
        },
        assumptions: &["64-bit machine", "hash perfection on 9 to 16 bells is explored over structured sub-families, not all rows"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(8, 9);
            split_unit(&mut u, "all-rows", 16, move |c, part| {
                for n in 1..=max {
                    for p in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("row {p:?}"), |o| observe(&p, o));
                        }
                    }
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "wide", 16, move |c, part| {
                for n in wide_stages(thorough) {
                    for p in family(n) {
                        if part.mine() {
                            c.case(|| format!("row {p:?}"), |o| observe(&p, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "parity-products", 8, move |c, part| {
                for n in 1..=6 {
                    let ps = all_perms(n);
                    for a in &ps {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("parity of {a:?} times every row"), |o| {
                            let pa = row(a).parity();
                            for b in &ps {
                                let (mut rb, mut rab) = (row(b), row(&mul(a, b)));
                                eq!(rab.parity(), pa * rb.parity(), "parity of {a:?} * {b:?}");
                                o.step(2);
                            }
                            o.see(a);
                            Ok(())
                        });
                    }
                }
            });
            u.push(unit("parity-type", |c| {
                for i in (0..200usize).chain([usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1]) {
                    c.case(|| format!("parity from {i}"), |o| {
                        let odd = i % 2 == 1;
                        let p = Parity::from_number(i);
                        eq!(p, if odd { Parity::Odd } else { Parity::Even }, "from_number");
                        eq!(Parity::from_is_odd(odd), p, "from_is_odd");
                        eq!(p.zero_or_one(), odd as u8, "zero_or_one");
                        eq!(p.plus_or_minus(), if odd { '-' } else { '+' }, "plus_or_minus");
                        for q in [Parity::Even, Parity::Odd] {
                            let q_odd = q == Parity::Odd;
                            eq!(p * q, Parity::from_is_odd(odd != q_odd), "{p:?} * {q:?}");
                        }
                        o.see(&i);
                        Ok(())
                    });
                }
            }));
            for n in 1..=t.pick(8, 10) {
                u.push(unit(format!("hash-all-{n}"), move |c| {
                    let mut h = Hashes { seen: FxMap::default() };
                    for p in all_perms(n) {
                        h.add(c, &p);
                    }
                }));
            }
            for n in 9..=16 {
                u.push(unit(format!("hash-family-{n}"), move |c| {
                    let mut h = Hashes { seen: FxMap::default() };
                    let f = family(n);
                    let perms6 = all_perms(6);
                    let mut sets: Vec<Vec<usize>> = (0..=n - 6).map(|i| (i..i + 6).collect()).collect();
                    sets.push(vec![0, 1, 2, n - 3, n - 2, n - 1]);
                    sets.push((0..6).map(|i| i * (n - 1) / 5).collect());
                    sets.push(vec![0, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1]);
                    for base in f.iter().take(if thorough { f.len() } else { 5 }) {
                        for s in &sets {
                            for q in &perms6 {
                                let mut p = base.clone();
                                for (k, &place) in s.iter().enumerate() {
                                    p[place] = base[s[q[k]]];
                                }
                                h.add(c, &p);
                            }
                        }
                    }
                    let id = identity(n);
                    for i in 0..n {
                        for j in i + 1..n {
                            for k in 0..n {
                                for l in k + 1..n {
                                    let mut p = id.clone();
                                    p.swap(i, j);
                                    p.swap(k, l);
                                    h.add(c, &p);
                                }
                            }
                        }
                    }
                }));
            }
            u
        },
    }
}
