//! C07: one place notation means exactly one change.  C08: applying it.

use super::*;
use crate::model::*;
use bellframe::{
    place_not::{ParseError, PlaceNot},
    Row,
};
use serde_json::json;

/// The places of a notation, all given explicitly, or the reasons why there is none
pub fn meaning(places: &[usize], n: usize) -> Result<Vec<usize>, ()> {
    let mut p = places.to_vec();
    p.sort_unstable();
    if p.is_empty() || *p.last().unwrap() >= n || p.windows(2).any(|w| w[0] == w[1]) {
        return Err(());
    }
    let mut full = vec![];
    if p[0] % 2 == 1 {
        full.push(0);
    }
    for (i, &x) in p.iter().enumerate() {
        full.push(x);
        let next = p.get(i + 1).copied();
        match next {
            Some(y) => match y - x - 1 {
                1 => full.push(x + 1),
                g if g % 2 == 1 => return Err(()),
                _ => {}
            },
            None => {
                if (n - 1 - x) % 2 == 1 {
                    full.push(n - 1);
                }
            }
        }
    }
    Ok(full)
}

pub fn truthful(e: &ParseError, places: &[usize], lone_cross: bool, n: usize) -> Result<(), String> {
    let mut p = places.to_vec();
    p.sort_unstable();
    let ok = match e {
        ParseError::PlaceOutOfStage { place, stage } => stage.num_bells() == n && *place >= n && p.contains(place),
        ParseError::AmbiguousPlacesBetween { p: a, q: b } => {
            p.windows(2).any(|w| w[0] == *a && w[1] == *b) && b > a && (b - a - 1) % 2 == 1 && b - a - 1 > 1
        }
        ParseError::DuplicatePlace(x) => p.iter().filter(|y| *y == x).count() > 1,
        ParseError::OddStageCross(s) => lone_cross && n % 2 == 1 && s.num_bells() == n,
        ParseError::NoPlacesGiven => p.is_empty() && !lone_cross,
    };
    if ok {
        let _ = format!("{e:?}");
        // The message names what's wrong
        let named = match e {
            ParseError::PlaceOutOfStage { place, stage } => vec![bell(*place).to_string(), stage.to_string()],
            ParseError::AmbiguousPlacesBetween { p, q } => vec![bell(*p).to_string(), bell(*q).to_string(), (q - p - 1).to_string()],
            ParseError::DuplicatePlace(x) => vec![bell(*x).to_string()],
            ParseError::OddStageCross(s) => vec![s.to_string()],
            ParseError::NoPlacesGiven => vec![],
        };
        let shown = e.to_string();
        ensure!(named.iter().all(|x| shown.contains(x)), "{e:?} is shown as {shown:?}");
        Ok(())
    } else {
        Err(format!("refusal {e:?} isn't true of places {places:?} on {n} bells"))
    }
}

pub fn pn_text(full: &[usize]) -> String {
    if full.is_empty() {
        "-".into()
    } else {
        row_text(full)
    }
}

/// Everything observable about a place notation which makes the places `full`
pub fn check_pn(pn: &PlaceNot, full: &[usize], n: usize, o: &mut Obs) -> Result<(), String> {
    let text = pn_text(full);
    eq!(format!("{pn}"), text, "Display");
    eq!(format!("{pn:?}"), format!("PlaceNot({text})"), "Debug");
    eq!(pn.stage().num_bells(), n, "stage");
    eq!(pn.is_cross(), full.is_empty(), "is_cross of {text}");
    for i in (0..n.min(70) + 2).chain([n, n + 63, n + 64, n + 256, usize::MAX]) {
        eq!(pn.contains(i), full.contains(&i), "contains({i}) of {text}");
    }
    let internal = full.iter().any(|&p| p != 0 && p != n - 1);
    eq!(pn.has_internal_places(), internal, "has_internal_places of {text}");
    eq!(perm(&pn.transposition()), transposition(full, n), "transposition of {text}");
    o.step(8);
    Ok(())
}

pub fn transposition(full: &[usize], n: usize) -> Perm {
    let mut r = identity(n);
    let mut i = 0;
    while i < n {
        if full.contains(&i) {
            i += 1;
        } else {
            r.swap(i, i + 1);
            i += 2;
        }
    }
    r
}

fn text_case(s: &str, n: usize, o: &mut Obs) -> Result<(), String> {
    let lone_cross = s == "x" || s == "X" || s == "-";
    let places: Vec<usize> = s.chars().filter_map(bell_of_char).collect();
    let want = if lone_cross {
        if n % 2 == 0 { Ok(vec![]) } else { Err(()) }
    } else {
        meaning(&places, n)
    };
    o.step(1);
    match (PlaceNot::parse(s, stage(n)), want) {
        (Ok(pn), Ok(full)) => {
            check_pn(&pn, &full, n, o)?;
            if n <= 33 {
                let text = format!("{pn}");
                eq!(PlaceNot::parse(&text, stage(n)), Ok(pn.clone()), "parse of displayed {text}");
            }
            if full.is_empty() {
                eq!(PlaceNot::cross(stage(n)), Some(pn), "cross");
            }
            o.see(&(n, full));
            Ok(())
        }
        (Err(e), Err(())) => {
            o.see(&(n, s));
            truthful(&e, &places, lone_cross, n)
        }
        (Ok(pn), Err(())) => Err(format!("{s:?} was accepted on {n} bells as {pn}")),
        (Err(e), Ok(full)) => Err(format!("{s:?} (places {full:?}) was refused on {n} bells: {e:?}")),
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "A case is one text with one stage; the result is compared with the definition of place notation on a \
               set of places (explicit plus forced implicit), refusals are checked against the text's faults.  \
               Distinct by stage and resulting places (or refused text).",
        bounds: |t| {
            json!({"texts": {"stages": [1, 8], "alphabet": "bell names 1..9, x - space ! é", "length": [0, t.pick(4, 5)]},
                "place_sets": {"all_subsets_up_to_stage": t.pick(14, 18), "orders": "ascending, descending, interleaved, first place repeated"},
                "place_triples_on_stages": "up to 33 and 34..300 (places named by the 33 names)", "single_characters": "all, on stages 1 to 6",
                "long": "0 to 70000 repetitions of 8 kinds of junk around 9 notations; every prefix, suffix and one- or two-name gap of the 33 names, on stages 1 to 36, 64, 65, 256, 257"})
        },
        assumptions: &["round trip through display only for at most 33 bells (later bells have no one-character name)"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(4, 5);
            split_unit(&mut u, "texts", 16, move |c, part| {
                let alpha: Vec<char> = "123456789x- !é".chars().collect();
                all_strings(&alpha, max, &mut |s| {
                    if !part.mine() {
                        return;
                    }
                    let s = s.to_owned();
                    c.case(|| format!("text {s:?} on stages 1 to 8"), |o| {
                        for n in 1..=8 {
                            text_case(&s, n, o)?;
                        }
                        Ok(())
                    });
                });
                all_strings(&['1', '4', 'x', 'X', '-', '.'], max + 2, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?} on stages 3 to 6"), |o| {
                            for n in 3..=6 {
                                text_case(&s, n, o)?;
                            }
                            Ok(())
                        });
                    }
                });
            });
            split_unit(&mut u, "characters", 8, move |c, part| {
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            for n in 1..=6 {
                                text_case(&ch.to_string(), n, o)?;
                            }
                            text_case(&format!("{ch}2"), 4, o)?;
                            text_case(&format!("1{ch}"), 4, o)
                        });
                    }
                }
            });
            let max = t.pick(14, 18);
            split_unit(&mut u, "place-sets", 16, move |c, part| {
                for n in 1..=max {
                    for bits in 0..1u32 << (n + 1).min(max) {
                        if !part.mine() {
                            continue;
                        }
                        let ps: Vec<usize> = (0..=n).filter(|i| bits >> i & 1 == 1).collect();
                        c.case(|| format!("places {ps:?} on {n}"), |o| {
                            let asc = row_text(&ps);
                            text_case(&asc, n, o)?;
                            text_case(&asc.chars().rev().collect::<String>(), n, o)?;
                            let inter: String = asc.chars().skip(1).step_by(2).chain(asc.chars().step_by(2)).collect();
                            text_case(&inter, n, o)?;
                            if let Some(f) = asc.chars().next() {
                                text_case(&format!("{asc}{f}"), n, o)?;
                                text_case(&format!("{f} {asc}"), n, o)?;
                            }
                            Ok(())
                        });
                    }
                }
            });
            split_unit(&mut u, "place-triples", 16, move |c, part| {
                for n in (9..=40).chain([63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300]) {
                    let m = n.min(33);
                    for i in 0..m {
                        if !part.mine() {
                            continue;
                        }
                        for j in i..(m + 1).min(33) {
                            for k in [j, j + 1, j + 2, j + 3, j + 4, n - 1, n, 32] {
                                if k < j || k > 32 {
                                    continue;
                                }
                                let s = row_text(&[k, i, j]);
                                c.case(|| format!("text {s:?} on {n}"), |o| {
                                    text_case(&s, n, o)?;
                                    text_case(&row_text(&[j, i]), n, o)?;
                                    text_case(&row_text(&[i]), n, o)
                                });
                            }
                        }
                    }
                    c.case(|| format!("cross on {n}"), |o| {
                        for s in ["x", "X", "-", "", " x", "x ", "xx", "--"] {
                            text_case(s, n, o)?;
                        }
                        eq!(PlaceNot::cross(stage(n)).is_some(), n % 2 == 0, "cross({n})");
                        Ok(())
                    });
                }
            });
            split_unit(&mut u, "long", 8, move |c, part| {
                // Junk around, many names, and every name among all others
                let names: String = NAMES.iter().collect();
                for k in (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 70_000]) {
                    let mut texts = vec![];
                    for junk in [" ", "!", "é", "x", "\u{0}", "🦀", ".", "+"] {
                        let j = junk.repeat(k);
                        texts.extend([j.clone(), format!("{j}14"), format!("14{j}"), format!("1{j}4"), format!("4{j}1"), format!("1{j}5"), format!("1{j}1"), format!("9{j}"), format!("x{j}")]);
                    }
                    texts.extend(["1".repeat(k), format!("{}4", "1".repeat(k)), names.chars().cycle().take(k).collect()]);
                    for s in texts {
                        if part.mine() {
                            let short: String = s.chars().take(100).collect();
                            c.case(|| format!("text of {} bytes {short:?}", s.len()), |o| {
                                for n in [4, 5, 33] {
                                    text_case(&s, n, o)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
                for n in (1..=36).chain([64, 65, 256, 257]) {
                    for k in 0..=33usize {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("the first {k} names and all but the {k}th, on {n}"), |o| {
                            let all: Vec<usize> = (0..33).collect();
                            for p in [&all[..k], &all[k..]] {
                                text_case(&row_text(p), n, o)?;
                                let rev: Vec<usize> = p.iter().rev().copied().collect();
                                text_case(&row_text(&rev), n, o)?;
                                let odd: Vec<usize> = p.iter().step_by(2).copied().collect();
                                text_case(&row_text(&odd), n, o)?;
                            }
                            let p: Vec<usize> = all.iter().copied().filter(|&i| i != k && i < n).collect();
                            text_case(&row_text(&p), n, o)?;
                            let p: Vec<usize> = all.iter().copied().filter(|&i| i != k && i != k + 1 && i < n).collect();
                            text_case(&row_text(&p), n, o)
                        });
                    }
                }
            });
            u.push(unit("equality", |c| {
                // Different notations are different, equal ones hash alike
                let mut all: Vec<(usize, Vec<usize>, PlaceNot)> = vec![];
                for n in 1..=7 {
                    for full in all_changes(n) {
                        if let Ok(pn) = PlaceNot::parse(&pn_text(&full), stage(n)) {
                            all.push((n, full, pn));
                        }
                    }
                }
                for (n, f, a) in &all {
                    c.case(|| format!("comparing {} on {n}", pn_text(f)), |o| {
                        for (m, g, b) in &all {
                            let same = n == m && f == g;
                            super::check_eq(a, b, same).map_err(|e| format!("{} on {m}: {e}", pn_text(g)))?;
                            let mut c = b.clone();
                            c.clone_from(a);
                            ensure!(c == *a && c.stage().num_bells() == *n && c.to_string() == a.to_string() && hash_of(&c) == hash_of(a), "{} on {m} overwritten is {c:?}", pn_text(g));
                            if same {
                                eq!(hash_of(a), hash_of(b), "hash");
                            }
                            o.step(1);
                        }
                        eq!(a.clone(), *a, "clone");
                        o.see(&(n, f));
                        Ok(())
                    });
                }
            }));
            u
        },
    }
}

/// All the changes of a stage, as sets of places
pub fn all_changes(n: usize) -> Vec<Vec<usize>> {
    fn go(i: usize, n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if i == n {
            out.push(cur.clone());
            return;
        }
        cur.push(i);
        go(i + 1, n, cur, out);
        cur.pop();
        if i + 2 <= n {
            go(i + 2, n, cur, out);
        }
    }
    let mut out = vec![];
    go(0, n, &mut vec![], &mut out);
    out
}

/// Some changes of a large stage
pub fn change_family(n: usize) -> Vec<Vec<usize>> {
    if n <= 9 {
        return all_changes(n);
    }
    let mut v: Vec<Vec<usize>> = vec![identity(n)];
    if n % 2 == 0 {
        v.push(vec![]);
        v.push(vec![0, n - 1]);
    } else {
        v.push(vec![0]);
        v.push(vec![n - 1]);
    }
    for &p in &boundary_places(n) {
        // one swap at p
        if p + 1 < n {
            v.push((0..n).filter(|&i| i != p && i != p + 1).collect());
        }
        // only the places p (and what parity forces)
        if let Ok(f) = meaning(&[p], n) {
            v.push(f);
        }
        if p + 3 < n {
            if let Ok(f) = meaning(&[p, p + 3], n) {
                v.push(f);
            }
        }
        // swaps up to p, places above
        v.push((0..n).filter(|&i| i >= p / 2 * 2).collect());
        // places up to p, swaps above
        v.push((0..n).filter(|&i| i < p || (i == n - 1 && (n - p) % 2 == 1)).collect());
    }
    v.sort();
    v.dedup();
    v
}

/// The real place notation for a set of (explicit) places, on any stage
pub fn make_pn(full: &[usize], n: usize) -> Result<PlaceNot, String> {
    if full.is_empty() {
        return PlaceNot::cross(stage(n)).ok_or_else(|| "cross on an odd stage".into());
    }
    // The slice is sorted, as the function requires
    unsafe { PlaceNot::from_sorted_slice(full, stage(n)) }.map_err(|e| format!("{e:?}"))
}

fn apply(pn: &PlaceNot, full: &[usize], p: &Perm, o: &mut Obs) -> Result<(), String> {
    let n = p.len();
    let t = transposition(full, n);
    let want = mul(p, &t);
    let r = row(p);
    let mut x = r.clone();
    eq!(pn.permute(&mut x), Ok(()), "permute");
    eq!(perm(&x), want, "{} permuting {p:?}", pn_text(full));
    for (i, w) in want.iter().enumerate() {
        if full.contains(&i) {
            ensure!(*w == p[i], "place {i} isn't kept by {}", pn_text(full));
        }
    }
    let mut y = r.clone();
    unsafe { pn.permute_unchecked(&mut y) };
    eq!(y, x, "permute_unchecked");
    eq!(pn.permute_new(&r), Ok(x.clone()), "permute_new");
    eq!(unsafe { pn.permute_new_unchecked(&r) }, x, "permute_new_unchecked");
    eq!(&r * &pn.transposition(), x, "multiplying by the transposition");
    eq!(pn.permute(&mut x), Ok(()), "second permute");
    eq!(x, r, "permuting twice");
    o.step(7);
    o.see(&(full, p));
    between(p, &want, o)
}

fn between(a: &Perm, b: &Perm, o: &mut Obs) -> Result<(), String> {
    let (ra, rb) = (row(a), row(b));
    let got = PlaceNot::pn_between(&ra, &rb);
    o.step(1);
    let n = a.len();
    let exists = n == b.len() && {
        let (ia, ib) = (inv(a), inv(b));
        (0..n).all(|x| ia[x].abs_diff(ib[x]) <= 1)
    };
    match got {
        None => {
            ensure!(!exists, "no place notation found between {a:?} and {b:?}");
            Ok(())
        }
        Some(pn) => {
            ensure!(exists, "{pn} isn't a change from {a:?} to {b:?}");
            let full: Vec<usize> = (0..n).filter(|&i| a[i] == b[i]).collect();
            check_pn(&pn, &full, n, o)?;
            eq!(pn.permute_new(&ra).as_ref(), Ok(&rb), "applying {pn} to {a:?}");
            Ok(())
        }
    }
}

fn wrong_stage(pn: &PlaceNot, n: usize, p: &Perm, o: &mut Obs) -> Result<(), String> {
    let m = p.len();
    let r = row(p);
    let mut x = r.clone();
    refused(pn.permute(&mut x), n, m, "permute")?;
    eq!(x, r, "row after refused permute");
    refused(pn.permute_new(&r), n, m, "permute_new")?;
    let y: &mut Row = &mut x;
    refused(pn.permute(y), n, m, "permute")?;
    eq!(perm(y), *p, "row after refused permute");
    eq!(PlaceNot::pn_between(&row(&identity(n)), &r), None, "pn_between stages {n} and {m}");
    o.step(4);
    o.see(&(n, m));
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "A case is a change (set of places) with every row it is applied to, or one ordered pair of rows given to \
               pn_between; results are compared with swapping pairs in a plain vector.  Distinct by change and row.",
        bounds: |t| {
            json!({"all_changes_on_all_rows_up_to_stage": t.pick(6, 7), "all_pairs_of_rows_up_to_stage": t.pick(6, 7),
                "wide_stages": wide_stages(t.thorough()), "mismatched_stages": "all pairs up to 6, and pairs differing by 1, 2, 8, 64, 256"})
        },
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(6, 7);
            split_unit(&mut u, "apply", 16, move |c, part| {
                for n in 1..=max {
                    let ps = all_perms(n);
                    for full in all_changes(n) {
                        for p in &ps {
                            if part.mine() {
                                c.case(|| format!("{} on {p:?}", pn_text(&full)), |o| apply(&make_pn(&full, n)?, &full, p, o));
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "between", 32, move |c, part| {
                for n in 1..=max {
                    let ps = all_perms(n);
                    for a in &ps {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("between {a:?} and every row"), |o| {
                            o.see(a);
                            ps.iter().try_for_each(|b| between(a, b, o))
                        });
                    }
                }
            });
            u.push(unit("mismatch", |c| {
                for n in (1..=6usize).chain([15, 16, 17, 64, 65, 255, 256]) {
                    for m in (1..=7).chain([n + 1, n.saturating_sub(1), n + 2, n + 8, n + 64, n + 256]) {
                        if m == n || m == 0 {
                            continue;
                        }
                        for full in change_family(n).into_iter().take(10) {
                            for p in family(m).into_iter().take(4) {
                                c.case(|| format!("{} of stage {n} on {p:?}", pn_text(&full)), |o| wrong_stage(&make_pn(&full, n)?, n, &p, o));
                            }
                        }
                    }
                }
            }));
            let thorough = t.thorough();
            split_unit(&mut u, "wide", 24, move |c, part| {
                for n in wide_stages(thorough) {
                    let f = small_family(n);
                    for full in change_family(n) {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("places {full:?} on {n}"), |o| {
                            let pn = make_pn(&full, n)?;
                            check_pn(&pn, &full, n, o)?;
                            f.iter().take(if n > 150 { 6 } else { 24 }).try_for_each(|p| apply(&pn, &full, p, o))
                        });
                    }
                    // Pairs which aren't one change apart
                    if part.mine() {
                        c.case(|| format!("between family rows on {n}"), |o| {
                            let f = family(n);
                            f.iter().take(40).try_for_each(|a| f.iter().try_for_each(|b| between(a, b, o)))
                        });
                    }
                }
            });
            u
        },
    }
}
