//! C09: blocks of place notation expand as written.  C10: they generate the rows that ringing them gives.

use super::place_not::*;
use super::*;
use crate::model::*;
use bellframe::{
    call::{NOTATION_BOB, NOTATION_SINGLE},
    method::LABEL_LEAD_END,
    place_not::{InvalidPnBlockError, PnBlockParseError},
    Block, Call, PlaceNot, PnBlock,
};
use serde_json::json;

#[derive(Debug, Clone)]
pub enum Fault {
    Plus(usize),
    /// A notation: first place's byte index, end of last place, latest acceptable end, places (or a cross)
    Notation { start: usize, min_end: usize, max_end: usize, places: Vec<usize>, cross: bool },
}

/// What a text denotes: the notations' full places, or all its faults (possibly none: an empty block)
pub fn denote(s: &str, n: usize) -> Result<Vec<Vec<usize>>, Vec<Fault>> {
    let mut faults = vec![];
    let mut total: Vec<Vec<usize>> = vec![];
    let parts: Vec<&str> = s.split(',').collect();
    let mut offset = 0;
    for part in &parts {
        let mut cs: Vec<(usize, char)> = part.char_indices().map(|(i, c)| (i + offset, c)).collect();
        let end = offset + part.len();
        offset = end + 1;
        let is_cross = |c: char| matches!(c, 'x' | 'X' | '-');
        let first = cs.iter().position(|&(_, c)| bell_of_char(c).is_some() || is_cross(c) || c == '+');
        let mut plain = parts.len() == 1;
        if let Some(i) = first {
            if cs[i].1 == '+' {
                plain = true;
                cs.drain(..=i);
            }
        }
        let mut notations: Vec<Vec<usize>> = vec![];
        let mut cur: Vec<(usize, usize)> = vec![]; // byte index, place
        let mut flush = |cur: &mut Vec<(usize, usize)>, at: usize, notations: &mut Vec<Vec<usize>>| {
            if cur.is_empty() {
                return;
            }
            let places: Vec<usize> = cur.iter().map(|x| x.1).collect();
            match meaning(&places, n) {
                Ok(f) => notations.push(f),
                Err(()) => faults.push(Fault::Notation {
                    start: cur[0].0,
                    min_end: cur.last().unwrap().0 + 1,
                    max_end: at,
                    places,
                    cross: false,
                }),
            }
            cur.clear();
        };
        let mut crosses = vec![];
        let mut pluses = vec![];
        for (i, c) in cs {
            if let Some(b) = bell_of_char(c) {
                cur.push((i, b));
            } else if is_cross(c) {
                flush(&mut cur, i, &mut notations);
                if n % 2 == 0 {
                    notations.push(vec![]);
                } else {
                    crosses.push(i);
                }
            } else if c == ' ' || c == '.' {
                flush(&mut cur, i, &mut notations);
            } else if c == '+' {
                pluses.push(i);
            }
        }
        flush(&mut cur, end, &mut notations);
        faults.extend(pluses.into_iter().map(Fault::Plus));
        faults.extend(crosses.into_iter().map(|i| Fault::Notation { start: i, min_end: i + 1, max_end: i + 1, places: vec![], cross: true }));
        total.extend(notations.iter().cloned());
        if !plain && !notations.is_empty() {
            total.extend(notations[..notations.len() - 1].iter().rev().cloned());
        }
    }
    if faults.is_empty() && !total.is_empty() {
        Ok(total)
    } else {
        Err(faults)
    }
}

pub fn parse_case(s: &str, n: usize, o: &mut Obs) -> Result<(), String> {
    let got = PnBlock::parse(s, stage(n));
    let want = denote(s, n);
    o.step(1);
    match (got, want) {
        (Ok(b), Ok(w)) => {
            check_block(&b, &w, n)?;
            o.see(&(n, w));
            Ok(())
        }
        (Err(e), Err(faults)) => {
            o.see(&(n, s));
            let _ = format!("{e} {e:?}");
            let ok = match &e {
                PnBlockParseError::EmptyBlock => faults.is_empty(),
                PnBlockParseError::PlusNotAtBlockStart(i) => faults.iter().any(|f| matches!(f, Fault::Plus(j) if i == j)),
                PnBlockParseError::PnError(r, pe) => faults.iter().any(|f| match f {
                    Fault::Notation { start, min_end, max_end, places, cross } => {
                        r.start == *start && (*min_end..=*max_end).contains(&r.end) && truthful(pe, places, *cross, n).is_ok()
                    }
                    _ => false,
                }),
            };
            ensure!(ok, "{s:?} on {n} bells: refusal {e:?} isn't one of its faults {faults:?}");
            Ok(())
        }
        (Ok(b), Err(f)) => Err(format!("{s:?} was accepted on {n} bells as {b:?}, despite {f:?}")),
        (Err(e), Ok(w)) => Err(format!("{s:?} was refused on {n} bells with {e:?}; it means {w:?}")),
    }
}

fn check_block(b: &PnBlock, w: &[Vec<usize>], n: usize) -> Result<(), String> {
    eq!(b.place_nots().map(|p| p.to_string()).collect::<Vec<_>>(), w.iter().map(|f| pn_text(f)).collect::<Vec<_>>(), "notations");
    eq!(b.len(), w.len(), "len");
    eq!(b.stage().num_bells(), n, "stage");
    for (p, f) in b.place_nots().zip(w) {
        eq!(p.stage().num_bells(), n, "stage of a notation");
        eq!(perm(&p.transposition()), transposition(f, n), "transposition of {p}");
    }
    Ok(())
}

/// Copies made in every way
fn check_copies(b: &PnBlock, w: &[Vec<usize>], n: usize) -> Result<(), String> {
    let longer = PnBlock::from_vec(w.iter().rev().chain(w).map(|f| make_pn(f, n)).collect::<Result<_, _>>()?).map_err(|e| e.to_string())?;
    let olds = [PnBlock::parse("1.1", stage(n + 1 + n % 2)).map_err(|e| e.to_string())?, longer, PnBlock::parse("12", stage(2 * n)).map_err(|e| e.to_string())?];
    super::copies(b, olds, |c| {
        ensure!(hash_of(c) == hash_of(b), "hash of a copy");
        super::check_eq(c, b, true)?;
        check_block(c, w, n)
    })
}

pub const METHODS: &[(&str, usize)] = &[
    ("x16x16x16,12", 6), ("-36-14-12-36-14-56,12", 6), ("-38-14-1258-36-14-58-16-78,12", 8), ("5,1.5.1.5.1", 5), ("+5.1.5.1.5,2", 5),
    ("-1T-1T-1T-1T-1T-1T,12", 12), ("3,1.9.1.5.1.9.1.9.1,+1.9", 9), ("34-36.14-12-36.14-14.36,12", 6), ("3.1.3.1.3", 3), ("+3.1.7.3.1.3,1", 7), ("&-38-14,+12", 8),
    ("x3x4x2x3x4x5,2", 6), ("-5-4.5-5.36.4-4.5-4-1,8", 8), ("1", 1), ("12.12", 2), ("-,1", 4), ("+-.1,+2", 4),
];

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "A case is one text with its stages; the expansion (or the refusal and its byte position) is compared with \
               an independent reading of the text.  Distinct by stage and resulting notations (or refused text).",
        bounds: |t| {
            json!({"texts": [{"alphabet": "1 2 4 x . , + space ! é", "length": [0, t.pick(6, 7)], "stages": [3, 4, 5]},
                 {"alphabet": "1 - , + .", "length": [0, t.pick(8, 10)], "stages": [3, 4]}],
                "token_sequences": {"tokens": 20, "length": [0, t.pick(4, 5)], "stages": [5, 6, 8]},
                "edits_of_method_notations": "every one-character deletion, insertion and replacement in 17 real notations",
                "changes_in_a_row": format!("every ordered pair of changes on 1 to {} bells, every ordered triple on 1 to {}", t.pick(12, 15), t.pick(7, 9)),
                "many_notations": "1 to 40, 63..66, 127..130, 255..258, 511..513, 1000, 65535..65537, 70000 and more notations or blocks in a text, in 8 arrangements with 6 separators and with one or two faults"})
        },
        assumptions: &["an error range may end anywhere from the culprit's last place to the delimiter that ends it"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(6, 7);
            split_unit(&mut u, "texts", 32, move |c, part| {
                let alpha: Vec<char> = "124x.,+ !é".chars().collect();
                all_strings(&alpha, max, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| {
                            for n in 3..=5 {
                                parse_case(&s, n, o)?;
                            }
                            Ok(())
                        });
                    }
                });
            });
            let max = t.pick(8, 10);
            split_unit(&mut u, "long-texts", 32, move |c, part| {
                all_strings(&['1', '-', ',', '+', '.'], max, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| {
                            for n in 3..=4 {
                                parse_case(&s, n, o)?;
                            }
                            Ok(())
                        });
                    }
                });
            });
            let max = t.pick(4, 5);
            split_unit(&mut u, "tokens", 32, move |c, part| {
                let toks = ["x", "X", "-", ".", " ", ",", "+", "12", "14", "1458", "41", "3", "36", "15", "11", "0", "é", "&", "5!6", "<1>"];
                for len in 0..=max {
                    all_seqs(toks.len(), len, &mut |ix| {
                        if part.mine() {
                            let s: String = ix.iter().map(|&i| toks[i]).collect();
                            c.case(|| format!("text {s:?}"), |o| {
                                for n in [5, 6, 8] {
                                    parse_case(&s, n, o)?;
                                }
                                Ok(())
                            });
                        }
                    });
                }
            });
            split_unit(&mut u, "method-edits", 8, move |c, part| {
                let alpha: Vec<char> = "1234567890ETxX-., +é&\n\0".chars().collect();
                for (m, n) in METHODS {
                    let cs: Vec<char> = m.chars().collect();
                    let mut texts: Vec<String> = vec![m.to_string(), m.repeat(3), format!("{m},{m}"), format!("é{m}"), format!("{m} ,é+{m}")];
                    for i in 0..=cs.len() {
                        texts.push(cs[..i].iter().collect());
                        texts.push(cs[i..].iter().collect());
                        for &a in &alpha {
                            let mut x = cs.clone();
                            x.insert(i, a);
                            texts.push(x.iter().collect());
                            if i < cs.len() {
                                let mut x = cs.clone();
                                x[i] = a;
                                texts.push(x.iter().collect());
                            }
                            // and two faults
                            let mut x = cs.clone();
                            x.insert(i, a);
                            x.insert(i / 2, '+');
                            texts.push(x.iter().collect());
                        }
                        if i < cs.len() {
                            let mut x = cs.clone();
                            x.remove(i);
                            texts.push(x.iter().collect());
                        }
                    }
                    for s in texts {
                        if part.mine() {
                            c.case(|| format!("text {s:?}"), |o| {
                                for k in [n.saturating_sub(1).max(1), *n, n + 1, n + 2] {
                                    parse_case(&s, k, o)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            });
            // Every change after every other
            let (pairs_to, triples_to) = t.pick((12, 7), (15, 9));
            split_unit(&mut u, "change-pairs", 32, move |c, part| {
                for n in 1..=pairs_to {
                    let ch = super::place_not::all_changes(n);
                    // (shown in full, and without the places that are implied)
                    let short = |f: &Vec<usize>| -> String {
                        let inner: Vec<usize> = f.iter().copied().filter(|&p| p != 0 && p != n - 1).collect();
                        if !inner.is_empty() && super::place_not::meaning(&inner, n).as_ref() == Ok(f) { pn_text(&inner) } else { pn_text(f) }
                    };
                    let (texts, shorts): (Vec<String>, Vec<String>) = (ch.iter().map(|f| pn_text(f)).collect(), ch.iter().map(short).collect());
                    for i in 0..ch.len() {
                        if !part.mine() {
                            continue;
                        }
                        for j in 0..ch.len() {
                            c.case(|| format!("{} then {} on {n} bells", texts[i], texts[j]), |o| {
                                parse_case(&format!("{}.{}", texts[i], texts[j]), n, o)?;
                                parse_case(&format!("{} {},{}", shorts[i], shorts[j], texts[i]), n, o)?;
                                parse_case(&format!("+{}.{}", shorts[j], texts[i]), n, o)
                            });
                        }
                    }
                }
                for n in 1..=triples_to {
                    let texts: Vec<String> = super::place_not::all_changes(n).iter().map(|f| pn_text(f)).collect();
                    all_seqs(texts.len(), 3, &mut |ix| {
                        if part.mine() {
                            let (a, b, d) = (&texts[ix[0]], &texts[ix[1]], &texts[ix[2]]);
                            c.case(|| format!("{a}, {b} and {d} on {n} bells"), |o| {
                                parse_case(&format!("{a}.{b}.{d}"), n, o)?;
                                parse_case(&format!("{a}.{b},+{d}.{a}"), n, o)
                            });
                        }
                    });
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "many-notations", 32, move |c, part| {
                let notations = ["x", "14", "36", "-", "1458", "x", "5", "12", "34", "-"];
                let join = |len: usize, sep: &str, salt: usize| -> String {
                    (0..len).map(|i| notations[(i * i + salt + i / 7) % notations.len()]).collect::<Vec<_>>().join(sep)
                };
                let lens: Vec<usize> = (1..=40).chain([63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1000]).chain(if thorough { vec![4000, 20_000] } else { vec![3000] }).collect();
                for &len in &lens {
                    let mut texts = vec![];
                    for (k, sep) in [".", " ", ". .", "é.", "!.", "\n."].into_iter().enumerate() {
                        let a = join(len, sep, k);
                        texts.push(a.clone());
                        texts.push(format!("+{a}"));
                        texts.push(format!("{a},12"));
                        texts.push(format!("x,{a}"));
                        texts.push(format!("+{a},16"));
                        texts.push(format!("18,+{a}"));
                        texts.push(format!("{a},{a}"));
                        texts.push(format!("{}{a},{}", sep.repeat(len), sep.repeat(len)));
                        // One fault at the end, in the middle, and both
                        for bad in ["15", "9", "11", "+", "158+"] {
                            texts.push(format!("{a}{sep}{bad}"));
                            texts.push(format!("{a},{bad}"));
                            texts.push(format!("{a}{sep}{bad}{sep}{a}"));
                            texts.push(format!("{a},{bad}{sep}{a},+{bad}"));
                        }
                    }
                    // Many blocks
                    for b in ["x", "14", "+14", "x14", "x.16.5", "+x14", "", " "] {
                        texts.push(vec![b; len].join(","));
                        texts.push(vec![b; len].join(",+36,x12,"));
                        texts.push(format!("{},19", vec![b; len].join(",")));
                    }
                    for s in texts {
                        if part.mine() {
                            let short: String = s.chars().take(60).collect();
                            c.case(|| format!("text of {} bytes: {}", s.len(), if s.len() < 500 { &s } else { &short }), |o| {
                                for n in [8, 7] {
                                    parse_case(&s, n, o)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
                // More notations than fit into 16 bits
                for len in [65_535usize, 65_536, 65_537, 70_000] {
                    let a = join(len, ".", 1);
                    for s in [a.clone(), format!("{a},12"), format!("x,+{a}"), format!("{a}.15"), format!("{a},{a}+"), vec!["x"; len].join(","), vec!["+14"; len].join(","), "é".repeat(len) + "x.9"] {
                        if part.mine() {
                            c.case(|| format!("text of {} bytes: {}", s.len(), s.chars().take(60).collect::<String>()), |o| parse_case(&s, 8, o));
                        }
                    }
                }
                // All places of one notation named in many orders, and every stage
                let names: Vec<char> = (0..33).map(|i| NAMES[i]).collect();
                for n in (1..=34).chain([64, 65, 255, 256, 257]) {
                    for k in 1..=33usize {
                        let all: String = names[..k].iter().collect();
                        let rev: String = names[..k].iter().rev().collect();
                        let odd: String = names[..k].iter().step_by(2).collect();
                        for s in [format!("{all}.{rev}"), format!("{rev},{all}"), format!("{odd}.x"), format!("+{odd}{all}")] {
                            if part.mine() {
                                c.case(|| format!("text {s:?} on {n}"), |o| parse_case(&s, n, o));
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "characters", 8, move |c, part| {
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            parse_case(&format!("1{ch}4,2"), 4, o)?;
                            parse_case(&format!("{ch}+x1"), 4, o)?;
                            parse_case(&format!("{ch}"), 3, o)?;
                            parse_case(&format!("{ch}x13{ch}5"), 6, o)
                        });
                    }
                }
            });
            u
        },
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Seven(u32);
impl Default for Seven {
    fn default() -> Self {
        Seven(7)
    }
}

/// The rows of ringing `changes` from `start`
pub fn ring(start: &Perm, changes: &[Vec<usize>]) -> Vec<Perm> {
    let n = start.len();
    let mut v = vec![start.clone()];
    for f in changes {
        let mut r = v.last().unwrap().clone();
        let mut i = 0;
        while i < n {
            if f.contains(&i) {
                i += 1;
            } else {
                r.swap(i, i + 1);
                i += 2;
            }
        }
        v.push(r);
    }
    v
}

pub fn make_block(changes: &[Vec<usize>], n: usize) -> Result<PnBlock, String> {
    let pns: Vec<PlaceNot> = changes.iter().map(|f| make_pn(f, n)).collect::<Result<_, _>>()?;
    PnBlock::from_vec(pns).map_err(|e| e.to_string())
}

fn rows_case(changes: &[Vec<usize>], start: &Perm, o: &mut Obs) -> Result<(), String> {
    let n = start.len();
    let b = make_block(changes, n)?;
    check_block(&b, changes, n)?;
    check_copies(&b, changes, n)?;
    let want = ring(start, changes);
    let rows = b.to_rows(row(start)).map_err(|e| e.to_string())?;
    eq!(ssv_perms(&rows), want, "to_rows");
    eq!(rows.len(), changes.len() + 1, "number of rows");
    let blk = b.to_block::<Seven>(row(start)).map_err(|e| e.to_string())?;
    eq!(ssv_perms(blk.row_vec()), want, "rows of to_block");
    eq!(blk.annots().cloned().collect::<Vec<_>>(), vec![Seven(7); changes.len()], "annotations of to_block");
    let from_rounds = ring(&identity(n), changes);
    let blk = b.to_block_from_rounds::<Seven>();
    eq!(ssv_perms(blk.row_vec()), from_rounds, "rows of to_block_from_rounds");
    eq!(blk.annots().cloned().collect::<Vec<_>>(), vec![Seven(7); changes.len()], "annotations of to_block_from_rounds");
    o.step(3);
    o.see(&want);
    for m in [n + 1, n.saturating_sub(1), n + 64, n + 256] {
        if m > 0 && m != n {
            refused(b.to_rows(row(&identity(m))), n, m, "to_rows")?;
            refused(b.to_block::<()>(row(&identity(m))), n, m, "to_block")?;
        }
    }
    for (call, notation) in [(Call::le_bob(b.clone()), '-'), (Call::le_single(b.clone()), 's')] {
        check_call(&call, notation, "LE", changes.len(), &from_rounds)?;
    }
    let block: Block = b.to_block(row(start)).map_err(|e| e.to_string())?;
    let k = changes.len() * 3 + 5;
    let call = Call::new('ß', "Before è".into(), k, block.clone());
    let other = Call::new('-', "LE".into(), 7, Block::with_default_annots(ssv(n + 3, &[identity(n + 3)])));
    super::copies(&call, [other, Call::le_single(b.clone())], |c| check_call(c, 'ß', "Before è", k, &want))?;
    check_call(&Call::new('x', String::new(), 0, block).clone(), 'x', "", 0, &want)?;
    o.step(4);
    Ok(())
}

fn check_call(c: &Call, notation: char, location: &str, covers: usize, rows: &[Perm]) -> Result<(), String> {
    eq!(c.notation(), notation, "notation");
    eq!(c.location(), location, "location");
    eq!(c.cover_len(), covers, "cover_len");
    eq!(c.len(), rows.len() - 1, "len");
    eq!(c.stage().num_bells(), rows[0].len(), "stage");
    eq!(ssv_perms(c.block().row_vec()), rows.to_vec(), "block");
    eq!(perm(c.transposition()), *rows.last().unwrap(), "transposition");
    let eff = rows.iter().map(|p| (0..p.len()).rev().find(|&i| p[i] != i).map_or(1, |i| i + 1)).max().unwrap();
    eq!(c.effective_stage().num_bells(), eff, "effective_stage");
    Ok(())
}

fn from_vec_case(pns: &[(usize, Vec<usize>)], o: &mut Obs) -> Result<(), String> {
    let real: Vec<PlaceNot> = pns.iter().map(|(n, f)| make_pn(f, *n)).collect::<Result<_, _>>()?;
    let bad = pns.iter().position(|p| p.0 != pns[0].0);
    o.see(pns);
    for (what, r) in [("from_vec", PnBlock::from_vec(real.clone())), ("from_iter", PnBlock::from_iter(real.clone()))] {
        o.step(1);
        match (r, bad) {
            (Ok(b), None) if !pns.is_empty() => {
                check_block(&b, &pns.iter().map(|p| p.1.clone()).collect::<Vec<_>>(), pns[0].0)?;
                eq!(b.place_nots().cloned().collect::<Vec<_>>(), real, "{what}");
            }
            (Err(InvalidPnBlockError::EmptyBlock), _) if pns.is_empty() => {}
            (Err(InvalidPnBlockError::IncompatibleStages(i, e)), Some(j)) => {
                eq!(i, j, "index of the first different notation");
                check_ist(&e, pns[0].0, pns[j].0, what)?;
                let shown = InvalidPnBlockError::IncompatibleStages(i, e).to_string();
                ensure!([pns[0].0, pns[j].0].iter().all(|n| shown.contains(&stage(*n).to_string())), "{what} of {pns:?} is refused as {shown:?}");
            }
            (r, _) => return Err(format!("{what} of {pns:?} gave {r:?}")),
        }
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "A case is a sequence of changes with a start row (rung as rows, block, block from rounds and calls) or a \
               list of notations of possibly different stages given to the constructors; compared with ringing on \
               plain vectors.  Distinct by rows or list.",
        bounds: |t| {
            json!({"change_sequences": "all of length 1..=3 from all rows on 1 to 4 bells; length 1..=2 on 5 bells; thorough one longer",
                "pairs_of_changes": format!("all on 6 to {} bells, from one row each", t.pick(9, 11)),
                "mixed_lists": {"notations": 8, "length": [0, t.pick(4, 5)]}, "wide_stages": wide_stages(t.thorough()), "long_blocks": [1, 63, 64, 65, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_000]})
        },
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            let extra = t.pick(0, 1);
            split_unit(&mut u, "sequences", 16, move |c, part| {
                for n in 1..=5 {
                    let ch = all_changes(n);
                    for len in 1..=(if n == 5 { 2 } else { 3 }) + extra {
                        all_seqs(ch.len(), len, &mut |ix| {
                            if !part.mine() {
                                return;
                            }
                            let seq: Vec<Vec<usize>> = ix.iter().map(|&i| ch[i].clone()).collect();
                            for p in all_perms(n) {
                                c.case(|| format!("ringing {:?} from {p:?}", seq.iter().map(|f| pn_text(f)).collect::<Vec<_>>()), |o| rows_case(&seq, &p, o));
                            }
                        });
                    }
                }
            });
            // Every change after every other on more bells
            let pairs_to = t.pick(9, 11);
            split_unit(&mut u, "change-pairs", 16, move |c, part| {
                for n in 6..=pairs_to {
                    let ch = super::place_not::all_changes(n);
                    let starts = small_family(n);
                    for f in &ch {
                        for g in &ch {
                            if part.mine() {
                                let p = &starts[(f.len() * 7 + g.len()) % starts.len()];
                                c.case(|| format!("ringing {} and {} from {p:?}", pn_text(f), pn_text(g)), |o| rows_case(&[f.clone(), g.clone()], p, o));
                            }
                        }
                    }
                }
            });
            let max = t.pick(4, 5);
            u.push(unit("lists", move |c| {
                let pns: Vec<(usize, Vec<usize>)> =
                    vec![(2, vec![]), (2, vec![0, 1]), (3, vec![0]), (3, vec![2]), (4, vec![]), (4, vec![0, 3]), (67, vec![0]), (3 + 256, vec![0])];
                for len in 0..=max {
                    all_seqs(pns.len(), len, &mut |ix| {
                        let l: Vec<_> = ix.iter().map(|&i| pns[i].clone()).collect();
                        c.case(|| format!("list {l:?}"), |o| from_vec_case(&l, o));
                    });
                }
                // One different notation far along
                for len in [10, 64, 65, 256, 257, 65_535, 65_536, 65_537, 70_000] {
                    for at in [0, 1, 2, len / 2, len - 2, len - 1] {
                        let mut l = vec![(4, vec![]); len];
                        l[at] = (6, vec![]);
                        c.case(|| format!("list of {len} with a different stage at {at}"), |o| from_vec_case(&l, o));
                    }
                }
            }));
            let thorough = t.thorough();
            split_unit(&mut u, "wide", 16, move |c, part| {
                for n in wide_stages(thorough) {
                    if !part.mine() {
                        continue;
                    }
                    let ch = change_family(n);
                    for p in small_family(n).into_iter().take(5) {
                        c.case(|| format!("ringing a family of changes from {p:?}"), |o| rows_case(&ch, &p, o));
                    }
                }
                for len in [1usize, 63, 64, 65, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_000] {
                    if !part.mine() {
                        continue;
                    }
                    for n in [3, 4, 8, 12] {
                        let ch = change_family(n);
                        let seq: Vec<Vec<usize>> = (0..len).map(|i| ch[(i * i + i / 3) % ch.len()].clone()).collect();
                        for p in small_family(n).into_iter().take(if len > 60_000 { 2 } else { 6 }) {
                            c.case(|| format!("ringing {len} changes from {p:?}"), |o| rows_case(&seq, &p, o));
                        }
                    }
                }
            });
            u.push(unit("constants", |c| {
                c.case(|| "constants".into(), |o| {
                    eq!(NOTATION_BOB, '-', "NOTATION_BOB");
                    eq!(NOTATION_SINGLE, 's', "NOTATION_SINGLE");
                    eq!(LABEL_LEAD_END, "LE", "LABEL_LEAD_END");
                    o.see("constants");
                    Ok(())
                });
            }));
            u
        },
    }
}
