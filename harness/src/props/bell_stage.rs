//! C06: bells and stages have exact, unambiguous names, numbers and conversions

use super::*;
use crate::model::*;
use bellframe::{Bell, Stage};
use serde_json::json;
use std::convert::TryFrom;

pub const STAGE_NAMES: [&str; 22] = [
    "One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques",
    "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty",
    "Decuples", "Twenty-two",
];

const CONSTS: [(Stage, usize); 16] = [
    (Stage::ONE, 1), (Stage::TWO, 2), (Stage::SINGLES, 3), (Stage::MINIMUS, 4), (Stage::DOUBLES, 5),
    (Stage::MINOR, 6), (Stage::TRIPLES, 7), (Stage::MAJOR, 8), (Stage::CATERS, 9), (Stage::ROYAL, 10),
    (Stage::CINQUES, 11), (Stage::MAXIMUS, 12), (Stage::SEXTUPLES, 13), (Stage::FOURTEEN, 14),
    (Stage::SEPTUPLES, 15), (Stage::SIXTEEN, 16),
];

fn bell_case(i: usize, o: &mut Obs) -> Result<(), String> {
    let b = Bell::from_index(i);
    eq!(b.index(), i, "index");
    eq!(b.number(), i + 1, "number");
    eq!(Bell::from_number(i + 1), Some(b), "from_number");
    eq!(b.name(), bell_text(i), "name");
    eq!(b.to_char(), NAMES.get(i).copied(), "to_char");
    eq!(format!("{b}"), bell_text(i), "Display");
    eq!(format!("{b:?}"), format!("Bell({})", bell_text(i)), "Debug");
    if i < 33 {
        eq!(Bell::from_name(NAMES[i]), Some(b), "from_name of its name");
    }
    eq!(Stage::new(i + 1).tenor(), b, "tenor of stage {}", i + 1);
    eq!(Bell::tenor(Stage::new(i + 1)), b, "Bell::tenor of stage {}", i + 1);
    eq!(b == Bell::TREBLE, i == 0, "is TREBLE");
    for d in (0..40).chain([63, 64, 127, 128, 255, 256, 1 << 20]) {
        eq!((b + d).index(), i + d, "+ {d}");
        let mut c = b;
        c += d;
        eq!(c.index(), i + d, "+= {d}");
        if d <= i {
            eq!((b - d).index(), i - d, "- {d}");
            let mut c = b;
            c -= d;
            eq!(c.index(), i - d, "-= {d}");
        }
        let other = Bell::from_index(i + d);
        super::check_ord(&b, &other, 0.cmp(&d)).map_err(|e| format!("against bell index {}: {e}", i + d))?;
        super::check_ord(&other, &b, d.cmp(&0)).map_err(|e| format!("bell index {} against it: {e}", i + d))?;
        o.step(5);
    }
    o.step(8);
    o.see(&(i, b.name()));
    Ok(())
}

fn stage_case(n: usize, o: &mut Obs) -> Result<(), String> {
    let s = Stage::new(n);
    eq!(s.num_bells(), n, "num_bells");
    eq!(s.as_usize(), n, "as_usize");
    eq!(Stage::try_from(n).ok(), Some(s), "try_from");
    eq!(s.is_even(), n % 2 == 0, "is_even");
    if n <= 2000 {
        eq!(s.bells().map(|b| b.index()).collect::<Vec<_>>(), identity(n), "bells()");
    }
    let name = STAGE_NAMES.get(n - 1).copied();
    eq!(s.name(), name, "name");
    eq!(format!("{s}"), name.map_or(format!("{n} bells"), |x| x.to_owned()), "Display");
    let dbg = match name {
        Some(x) if n <= 16 => format!("Stage::{}", x.to_uppercase()),
        _ => format!("Stage({n})"),
    };
    eq!(format!("{s:?}"), dbg, "Debug");
    if let Some(x) = name {
        eq!(Stage::from_lower_case_name(&x.to_lowercase()), Some(s), "from_lower_case_name");
    }
    for m in [1, n.saturating_sub(1), n, n + 1, n + 8, n + 16, n + 64, n + 256, n + (1 << 32)] {
        if m == 0 {
            continue;
        }
        let q = Stage::new(m);
        super::check_ord(&s, &q, n.cmp(&m)).map_err(|e| format!("against stage {m}: {e}"))?;
        let r = bellframe::IncompatibleStages::test_err(s, q);
        eq!(r.is_ok(), n == m, "test_err({n}, {m})");
        if let Err(e) = r {
            eq!(format!("{e}"), format!("Incompatible stages: {s} (lhs), {q} (rhs)"), "Display of mismatch");
            let mut opt = Some(s);
            eq!(bellframe::IncompatibleStages::test_err_opt(&mut opt, q), Err(e), "test_err_opt");
            eq!(opt, Some(s), "test_err_opt's option after a mismatch");
        }
        let mut opt = Some(s);
        eq!(bellframe::IncompatibleStages::test_err_opt(&mut opt, s), Ok(()), "test_err_opt with the same");
        eq!(opt, Some(s), "test_err_opt's option");
        let mut opt = None;
        eq!(bellframe::IncompatibleStages::test_err_opt(&mut opt, q), Ok(()), "test_err_opt with none");
        eq!(opt, Some(q), "test_err_opt's option");
        o.step(6);
    }
    o.step(8);
    o.see(&(n, format!("{s} {s:?}")));
    Ok(())
}

fn name_lookup(s: &str, o: &mut Obs) -> Result<(), String> {
    let want = STAGE_NAMES.iter().position(|x| x.to_lowercase() == s).map(|i| i + 1);
    eq!(Stage::from_lower_case_name(s).map(|s| s.num_bells()), want, "from_lower_case_name({s:?})");
    o.see(s);
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "A case is one bell index, one stage, one character (all Unicode scalar values are enumerated) or one \
               text looked up as a stage name; every answer is compared with independent tables.  Distinct by input.",
        bounds: |t| {
            json!({"bell_indices": [0, t.pick(2000, 100_000)], "stages": [1, t.pick(2000, 100_000)], "characters": "all",
                "stage_texts": "all strings of <=3 (thorough 4) letters a-z, all one-character edits of every stage name over [a-zA-Z0-9 -] and non-ASCII, all prefixes, suffixes and letter-case changes of one letter, all concatenations of two names"})
        },
        assumptions: &["bell index usize::MAX is excluded (its number isn't representable)"],
        units: |t| {
            let mut u = vec![];
            let max: usize = t.pick(2000, 100_000);
            split_unit(&mut u, "bells", 8, move |c, part| {
                for i in (0..max).chain([1 << 16, (1 << 16) + 1, 1 << 32, (1 << 32) + 7, 1 << 62]) {
                    if part.mine() {
                        c.case(|| format!("bell index {i}"), |o| bell_case(i, o));
                    }
                }
            });
            split_unit(&mut u, "stages", 8, move |c, part| {
                for i in (1..=max).chain([1 << 16, (1 << 16) + 1, 1 << 32, (1 << 32) + 7, 1 << 62]) {
                    if part.mine() {
                        c.case(|| format!("stage {i}"), |o| stage_case(i, o));
                    }
                }
            });
            u.push(unit("constants", |c| {
                c.case(|| "constants and zero".into(), |o| {
                    for (s, n) in CONSTS {
                        eq!(s.num_bells(), n, "constant stage");
                    }
                    ensure!(Stage::try_from(0).is_err(), "Stage::try_from(0) was accepted");
                    ensure!(panics(|| Stage::new(0)), "Stage::new(0) was accepted");
                    eq!(Bell::from_number(0), None, "Bell::from_number(0)");
                    eq!(Bell::TREBLE.index(), 0, "TREBLE");
                    eq!(format!("{}", Stage::try_from(0).unwrap_err()).is_empty(), false, "error text");
                    for i in 0..40usize {
                        ensure!(panics(|| Bell::from_index(i) - (i + 1)), "bell {i} - {} didn't panic", i + 1);
                    }
                    o.see("constants");
                    Ok(())
                });
            }));
            split_unit(&mut u, "characters", 8, move |c, part| {
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            eq!(Bell::from_name(ch).map(|b| b.index()), bell_of_char(ch), "from_name({ch:?})");
                            o.see(&ch);
                            Ok(())
                        });
                    }
                }
            });
            let len = t.pick(3, 4);
            u.push(unit("stage-texts", move |c| {
                let letters: Vec<char> = ('a'..='z').collect();
                all_strings(&letters, len, &mut |s| {
                    let s = s.to_owned();
                    c.case(|| format!("text {s:?}"), |o| name_lookup(&s, o));
                });
                let alpha: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain([' ', '-', '\n', '\0', 'é', 'ı', 'K', 'ſ']).collect();
                for n in STAGE_NAMES {
                    for base in [n.to_owned(), n.to_lowercase(), n.to_uppercase()] {
                        let cs: Vec<char> = base.chars().collect();
                        let mut texts = vec![base.clone()];
                        for i in 0..=cs.len() {
                            texts.push(cs[..i].iter().collect());
                            texts.push(cs[i..].iter().collect());
                            for &a in &alpha {
                                let mut x = cs.clone();
                                x.insert(i, a);
                                texts.push(x.iter().collect());
                                if i < cs.len() {
                                    let mut x = cs.clone();
                                    x[i] = a;
                                    texts.push(x.iter().collect());
                                }
                            }
                            if i < cs.len() {
                                let mut x = cs.clone();
                                x.remove(i);
                                texts.push(x.iter().collect());
                            }
                        }
                        for m in STAGE_NAMES {
                            let m = m.to_lowercase();
                            texts.extend([format!("{base}{m}"), format!("{base} {m}"), format!("{base}-{m}")]);
                        }
                        for s in texts {
                            c.case(|| format!("text {s:?}"), |o| name_lookup(&s, o));
                        }
                    }
                }
                for i in 0..=40 {
                    for s in [format!("{i}"), format!("{i} bells"), format!("stage {i}")] {
                        c.case(|| format!("text {s:?}"), |o| name_lookup(&s, o));
                    }
                }
            }));
            u
        },
    }
}
