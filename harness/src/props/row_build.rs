//! C02: rows are built exactly from permutations, and display/parse round-trips

use crate::{fw::*, model::*};
use bellframe::{Bell, InvalidRowError, RowBuf};
use serde_json::json;

/// Does `e` name a fault that the bells really have?
pub fn truthful(e: &InvalidRowError, bells: &[usize], stage: usize, given_stage: bool) -> Result<(), String> {
    let ok = match e {
        InvalidRowError::NoBells => bells.is_empty(),
        InvalidRowError::DuplicateBell(b) => bells.iter().filter(|x| **x == b.index()).count() > 1,
        InvalidRowError::BellOutOfStage(b, s) => {
            bells.contains(&b.index()) && s.num_bells() == stage && b.index() >= stage
        }
        InvalidRowError::MissingBell(b) => {
            !bells.contains(&b.index())
                && if given_stage { bells.iter().any(|x| *x > b.index()) } else { b.index() < stage }
        }
    };
    if ok {
        Ok(())
    } else {
        Err(format!("refusal {e:?} names a fault which {bells:?} (stage {stage}) doesn't have"))
    }
}

fn check_plain(bs: &[usize], r: Result<RowBuf, InvalidRowError>, what: &str, o: &mut Obs) -> Result<(), String> {
    o.step(1);
    match r {
        Ok(row) => {
            ensure!(is_perm(bs), "{what}: {bs:?} was accepted as {:?}", perm(&row));
            eq!(perm(&row), bs.to_vec(), "{what}");
            o.see(&(0u8, bs));
        }
        Err(e) => {
            ensure!(!is_perm(bs), "{what}: permutation {bs:?} refused with {e:?}");
            truthful(&e, bs, bs.len(), false)?;
            let _ = format!("{e} {e:?}");
            o.see(&(1u8, bs));
        }
    }
    Ok(())
}

fn check_staged(bs: &[usize], n: usize, r: Result<RowBuf, InvalidRowError>, what: &str, o: &mut Obs) -> Result<(), String> {
    o.step(1);
    let ok = (bs.is_empty() || is_perm(bs)) && bs.len() <= n;
    match r {
        Ok(row) => {
            ensure!(ok, "{what}: {bs:?} was accepted for stage {n} as {:?}", perm(&row));
            let exp: Perm = bs.iter().copied().chain(bs.len()..n).collect();
            eq!(perm(&row), exp, "{what} with stage {n}");
            o.see(&(2u8, bs, n));
        }
        Err(e) => {
            ensure!(!ok, "{what}: {bs:?} refused for stage {n} with {e:?}");
            truthful(&e, bs, n, true)?;
            let _ = format!("{e} {e:?}");
            o.see(&(3u8, bs, n));
        }
    }
    Ok(())
}

fn all_constructors(bs: &[usize], stages: &[usize], o: &mut Obs) -> Result<(), String> {
    check_plain(bs, RowBuf::from_vec(bells(bs)), "from_vec", o)?;
    check_plain(bs, RowBuf::from_bell_iter(bells(bs).into_iter()), "from_bell_iter", o)?;
    for &n in stages {
        check_staged(bs, n, RowBuf::from_vec_with_stage(bells(bs), stage(n)), "from_vec_with_stage", o)?;
    }
    Ok(())
}

fn all_texts(s: &str, stages: &[usize], o: &mut Obs) -> Result<(), String> {
    let bs: Perm = s.chars().filter_map(bell_of_char).collect();
    check_plain(&bs, RowBuf::parse(s), "parse", o)?;
    check_plain(&bs, s.parse::<RowBuf>(), "from_str", o)?;
    for &n in stages {
        check_staged(&bs, n, RowBuf::parse_with_stage(s, stage(n)), "parse_with_stage", o)?;
    }
    Ok(())
}

fn round_trip(p: &[usize], o: &mut Obs) -> Result<(), String> {
    let r = row(p);
    let text = row_text(p);
    eq!(format!("{r}"), text, "Display of RowBuf");
    eq!(format!("{}", r.as_row()), text, "Display of Row");
    eq!(format!("{r:?}"), format!("RowBuf({text})"), "Debug of RowBuf");
    eq!(format!("{:?}", r.as_row()), format!("Row({text})"), "Debug of Row");
    eq!(unsafe { RowBuf::from_bell_iter_unchecked(bells(p).into_iter()) }, r, "from_bell_iter_unchecked");
    eq!(unsafe { RowBuf::from_vec_unchecked(bells(p)) }, r, "from_vec_unchecked");
    o.see(&text);
    if p.len() <= 33 {
        eq!(RowBuf::parse(&text), Ok(r.clone()), "parse of displayed row {text}");
        eq!(RowBuf::parse_with_stage(&text, stage(p.len())), Ok(r.clone()), "parse_with_stage of displayed row {text}");
    }
    all_constructors(p, &[p.len(), p.len() + 1, p.len().saturating_sub(1).max(1)], o)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "A case is one sequence of bells (or one text) given to every safe row constructor; it is \
               non-trivial when the constructors' answers were compared with the oracle (permutation test on the \
               plain list), and distinct by input.",
        bounds: |t| {
            json!({"bell_sequences": {"length": [0, t.pick(6, 7)], "bell_indices": "0..=len+1 (base 7)"},
                "texts": {"alphabet": "1234 0 E Z space newline x . ! é <", "length": [0, t.pick(4, 5)]},
                "single_characters": "every Unicode scalar value", "all_rows_up_to_stage": t.pick(8, 9),
                "wide_stages": wide_stages(t.thorough())})
        },
        assumptions: &["rows on stages above the bounds are represented by structured families at boundary stages"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(6, 7);
            split_unit(&mut u, "sequences", 8, move |c, part| {
                for len in 0..=max {
                    all_seqs(7, len, &mut |s| {
                        if !part.mine() {
                            return;
                        }
                        let s = s.to_vec();
                        c.case(|| format!("bells {s:?}"), |o| all_constructors(&s, &[1, 2, 3, 4, 5, 6, 7, 9], o));
                    });
                }
            });
            let tl = t.pick(4, 5);
            split_unit(&mut u, "texts", 8, move |c, part| {
                let alpha: Vec<char> = "12340EZ \nx.!é<".chars().collect();
                all_strings(&alpha, tl, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| all_texts(&s, &[1, 2, 3, 4, 5, 12], o));
                    }
                });
                // Longer texts over few characters
                all_strings(&['1', '2', '3', ' '], tl + 3, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| all_texts(&s, &[2, 3, 4], o));
                    }
                });
            });
            split_unit(&mut u, "characters", 8, move |c, part| {
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            all_texts(&format!("2{ch}1"), &[3], o)?;
                            all_texts(&format!("{ch}"), &[1], o)
                        });
                    }
                }
            });
            let max = t.pick(8, 9);
            split_unit(&mut u, "all-rows", 8, move |c, part| {
                for n in 1..=max {
                    for p in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("row {p:?}"), |o| round_trip(&p, o));
                        }
                    }
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "wide", 16, move |c, part| {
                for n in wide_stages(thorough) {
                    if part.mine() {
                        wide(c, n)
                    }
                }
            });
            u
        },
    }
}

fn wide(c: &mut Ctx, n: usize) {
    c.case(|| format!("standard rows on {n}"), |o| {
        let id = identity(n);
        eq!(perm(&RowBuf::rounds(stage(n))), id, "rounds({n})");
        let mut b = id.clone();
        b.reverse();
        eq!(perm(&RowBuf::backrounds(stage(n))), b, "backrounds({n})");
        let q: Perm = (0..n).filter(|i| i % 2 == 0).chain((0..n).filter(|i| i % 2 == 1)).collect();
        eq!(perm(&RowBuf::queens(stage(n))), q, "queens({n})");
        check_staged(&[], n, RowBuf::parse_with_stage("", stage(n)), "parse_with_stage", o)?;
        o.see(&n);
        Ok(())
    });
    for p in family(n) {
        c.case(|| format!("row {p:?}"), |o| round_trip(&p, o));
    }
    let bp = boundary_places(n);
    for p in small_family(n).into_iter().take(8) {
        // One fault at each boundary place
        for &at in &bp {
            for with in [p[(at + 1) % n], p[0], p[n - 1], n, n + 1, 1 << 40] {
                let mut q = p.clone();
                q[at] = with;
                c.case(|| format!("bells {q:?}"), |o| all_constructors(&q, &[n, n + 1, n + 5], o));
            }
            // A missing bell
            let mut q = p.clone();
            q.remove(at);
            c.case(|| format!("bells {q:?}"), |o| all_constructors(&q, &[n, n + 1, (n - 1).max(1)], o));
        }
        // Covers
        for extra in [1, 2, 31, 32, 63, 64, 65] {
            c.case(|| format!("bells {p:?} + {extra} covers"), |o| {
                check_staged(&p, n + extra, RowBuf::from_vec_with_stage(bells(&p), stage(n + extra)), "from_vec_with_stage", o)?;
                if n <= 33 {
                    check_staged(&p, n + extra, RowBuf::parse_with_stage(&row_text(&p), stage(n + extra)), "parse_with_stage", o)?;
                }
                Ok(())
            });
        }
    }
    let _ = Bell::TREBLE;
}
