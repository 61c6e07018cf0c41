//! C27: every parser takes any text.

use super::*;
use crate::model::*;
use bellframe::{
    music::Regex, method_lib::QueryError, AnnotBlock, Bell, Block, Mask, Method, MethodLib, PlaceNot, PnBlock, RowBuf, SameStageVec, Stage,
};
use serde_json::json;
use std::hash::Hash;

/// Values seen so far with the text they displayed as
struct Seen<T>(FxMap<T, String>);

impl<T: Hash + Eq + Clone> Seen<T> {
    fn new() -> Self {
        Seen(FxMap::default())
    }
    fn check(&mut self, x: &T, shown: &str, what: &str) -> Result<(), String> {
        match self.0.get(x) {
            Some(s) => {
                ensure!(s == shown, "equal {what}s display as {s:?} and {shown:?}");
            }
            None => {
                if self.0.len() < 200_000 {
                    self.0.insert(x.clone(), shown.to_owned());
                }
            }
        }
        Ok(())
    }
}

pub struct World {
    rows: Seen<RowBuf>,
    pns: Seen<PlaceNot>,
    blocks: Seen<PnBlock>,
    masks: Seen<Mask>,
    regexes: Seen<Regex>,
    lists: Seen<SameStageVec>,
    lib: MethodLib,
}

impl World {
    fn new() -> Self {
        World { rows: Seen::new(), pns: Seen::new(), blocks: Seen::new(), masks: Seen::new(), regexes: Seen::new(), lists: Seen::new(), lib: MethodLib::from_json(LIBRARY).unwrap() }
    }
}

fn show<T: std::fmt::Display + std::fmt::Debug>(x: &T) -> String {
    format!("{x}|{x:?}|{x:40}|{x:#?}")
}

const LIBRARY: &str = r#"{"groups":[{"s":6,"c":2,"m":[{"n":"A","p":"x16,12"},{"n":"","p":"1"},{"n":"é","p":"bad","t":"é "}]},{"s":2,"c":0,"m":[{"n":"12","p":"x"}]}]}"#;

fn run(w: &mut World, s: &str, stages: &[usize]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    match RowBuf::parse(s) {
        Ok(r) => {
            let t = show(&r);
            ensure!(is_perm(&perm(&r)), "row of {s:?} is {r:?}");
            w.rows.check(&r, &t, "row")?;
            out.push(t);
        }
        Err(e) => out.push(show(&e)),
    }
    match s.parse::<RowBuf>() {
        Ok(r) => out.push(show(&r)),
        Err(e) => out.push(show(&e)),
    }
    ensure!(out[0] == out[1], "{s:?} parsed as {} and from_str as {}", out[0], out[1]);
    match SameStageVec::parse(s) {
        Ok(v) => {
            let t = format!("{v:?}");
            w.lists.check(&v, &t, "row list")?;
            ensure!(v.iter().all(|r| is_perm(&perm(r))), "list of {s:?} is {v:?}");
            out.push(t);
        }
        Err(e) => out.push(show(&e)),
    }
    match Block::parse(s) {
        Ok(b) => {
            eq!(b.row_vec().len(), b.len() + 1, "rows of {b:?}");
            out.push(format!("{b:?}"));
        }
        Err(e) => out.push(show(&e)),
    }
    match AnnotBlock::<String>::parse(s) {
        Ok(b) => out.push(format!("{b:?}")),
        Err(e) => out.push(show(&e)),
    }
    let m = Mask::parse(s);
    let t = show(&m);
    w.masks.check(&m, &t, "mask")?;
    if let Some(r) = m.as_row() {
        ensure!(is_perm(&perm(&r)), "mask {s:?} became the row {r:?}");
        out.push(show(&r));
    }
    out.push(t);
    let r = Regex::parse(s);
    let t = show(&r);
    w.regexes.check(&r, &t, "pattern")?;
    out.push(t);
    // Names of bells, stages and methods
    out.push(format!("{:?} {:?}", Bell::from_name(s.chars().next().unwrap_or('?')), Stage::from_lower_case_name(s)));
    out.push(match serde_json::from_str::<Stage>(s) {
        Ok(x) => show(&x),
        Err(e) => show(&e),
    });
    out.push(match serde_json::from_str::<Bell>(s) {
        Ok(x) => show(&x),
        Err(e) => show(&e),
    });
    match MethodLib::from_json(s) {
        Ok(lib) => out.push(format!("{:?}", lib.get_by_title_with_suggestions("", 2).is_ok())),
        Err(e) => out.push(show(&e)),
    }
    if s.len() < 3000 {
        for &k in if s.len() < 4 { &[0, 2, 9][..] } else { &[2][..] } {
            out.push(match w.lib.get_by_title_with_suggestions(s, k) {
                Ok(m) => format!("{m:?}|{}", m.title()),
                Err(QueryError::PnParseErr { pn, error }) => format!("{pn}|{error}"),
                // Suggestions with equal distances come in any order
                Err(QueryError::NotFound(v)) => format!("{:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()),
            });
        }
        out.push(format!("{:?}", w.lib.get_by_title(s).map(|m| format!("{m:?}"))));
    }
    for &n in stages {
        match RowBuf::parse_with_stage(s, stage(n)) {
            Ok(r) => {
                ensure!(is_perm(&perm(&r)) && r.stage().num_bells() == n, "row of {s:?} on {n} bells is {r:?}");
                let t = show(&r);
                w.rows.check(&r, &t, "row")?;
                out.push(t);
            }
            Err(e) => out.push(show(&e)),
        }
        match PlaceNot::parse(s, stage(n)) {
            Ok(p) => {
                eq!(p.stage().num_bells(), n, "stage of notation {s:?}");
                let t = show(&p);
                w.pns.check(&p, &t, "notation")?;
                out.push(t);
                out.push(show(&p.transposition()));
            }
            Err(e) => out.push(show(&e)),
        }
        match PnBlock::parse(s, stage(n)) {
            Ok(b) => {
                eq!(b.stage().num_bells(), n, "stage of notation block {s:?}");
                let t = format!("{b:?}");
                w.blocks.check(&b, &t, "notation block")?;
                out.push(t);
            }
            Err(e) => out.push(show(&e)),
        }
        match Method::from_place_not_string("N".into(), stage(n), s) {
            Ok(m) => {
                eq!(m.stage().num_bells(), n, "stage of method {s:?}");
                out.push(format!("{m:?}|{}", m.title()));
            }
            Err(e) => out.push(show(&e)),
        }
        let m = Method::from_place_not_string(s.to_owned(), stage(n), if n % 2 == 0 { "x" } else { "1" }).map_err(|e| e.to_string())?;
        eq!(m.name(), s, "name of method {s:?}");
    }
    Ok(out)
}

fn text_case(w: &mut World, s: &str, stages: &[usize], o: &mut Obs) -> Result<(), String> {
    let a = run(w, s, stages)?;
    // Again, from another copy of the text and after other texts
    let copy = format!("{s}!");
    let b = run(w, &copy[..s.len()], stages)?;
    eq!(b, a, "parsing {s:?} again");
    o.step(2 * (15 + 4 * stages.len() as u64));
    o.see(&a);
    Ok(())
}

const STAGES: &[usize] = &[1, 2, 3, 4, 7, 12, 33, 34, 40];

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "A case is one text, given twice to every parser (with each stage where one is taken); it must return a value \
               that displays or an error that displays, the same both times.  Distinct by all that was displayed.",
        bounds: |t| {
            json!({"texts": {"alphabet": "1 2 3 E x - . , + * ? & space \\n \\r \\t \\0 é combining 🦀 [ ]", "length": [0, t.pick(4, 4)], "stages": STAGES},
                "long_texts": {"alphabet": "1 2 x , + . \\n é", "length": [0, t.pick(6, 7)], "stages": [2, 3, 4, 5]},
                "characters": "every Unicode character alone and in eight templates", "large": "repetitions of 12 tokens up to 2000 times, alone and between two rows", "large_stages": [64, 65, 255, 256, 257, 1000]})
        },
        assumptions: &["the stage of an empty mask isn't asked for"],
        units: |t| {
            let mut u = vec![];
            split_unit(&mut u, "texts", 32, |c, part| {
                let mut w = World::new();
                let alpha: Vec<char> = "123Ex-.,+*?& \n\r\t\0é\u{301}🦀[]".chars().collect();
                let mut rest = |c: &mut Ctx, s: &str, stages: &[usize]| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| text_case(&mut w, &s, stages, o));
                    }
                };
                all_strings(&alpha, 3, &mut |s| rest(c, s, STAGES));
                all_strings(&alpha, 4, &mut |s| {
                    if s.chars().count() == 4 {
                        rest(c, s, &[2, 5])
                    }
                });
            });
            let len = t.pick(6, 7);
            split_unit(&mut u, "long-texts", 32, move |c, part| {
                let mut w = World::new();
                all_strings(&['1', '2', 'x', ',', '+', '.', '\n', 'é'], len, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| text_case(&mut w, &s, &[2, 3, 4], o));
                    }
                });
            });
            split_unit(&mut u, "characters", 32, |c, part| {
                let mut w = World::new();
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            for (s, stages) in [
                                (format!("{ch}"), &[1usize, 4, 40][..]),
                                (format!("1{ch}2"), &[2, 5]),
                                (format!("{ch}12\n21{ch}"), &[2]),
                                (format!("12{ch}\n{ch}\n21"), &[2]),
                                (format!("+x1{ch}4.{ch},{ch}2"), &[4, 6]),
                                (format!("*{ch}?1x{ch}"), &[3]),
                                (format!("{ch}A{ch}Bob{ch}Minor"), &[1]),
                                (format!("A Bob{ch} Minor{ch}"), &[1]),
                            ] {
                                text_case(&mut w, &s, stages, o)?;
                            }
                            Ok(())
                        });
                    }
                }
            });
            split_unit(&mut u, "large", 16, |c, part| {
                let mut w = World::new();
                let names: String = NAMES.iter().collect();
                let back: String = NAMES.iter().rev().collect();
                let mut texts = vec![names.clone(), back.clone(), format!("{names}\n{back}"), format!("{names}1"), format!("1{names}"), names.to_lowercase(), names.repeat(20)];
                for k in 0..NAMES.len() {
                    texts.push(names[..k].to_owned());
                    texts.push(names[k..].to_owned());
                    texts.push(format!("{}x{}", &names[..k], &names[k..]));
                    texts.push(format!("{}\r\n{}", &names[..k], &back[k..]));
                    texts.push(names.chars().step_by(k + 1).collect());
                    texts.push(names.chars().skip(k).step_by(2).collect());
                }
                texts.extend(["é".repeat(1000), "1".repeat(1000), "x".repeat(1000), "\n".repeat(1000), ",".repeat(1000), "x,".repeat(300), "+".repeat(1000), "*".repeat(1000), "?".repeat(1000), "12\n21\n".repeat(300), "🦀12\n".repeat(50), "14.".repeat(500)]);
                for k in [255usize, 256, 257, 2000] {
                    for t in ["1", "x", "é", "\n", "12\n", "x,", "14.", "+", "*", " ", "\r\n", "🦀"] {
                        texts.push(t.repeat(k));
                        texts.push(format!("21{}12", t.repeat(k)));
                    }
                }
                for s in texts {
                    if part.mine() && s.len() > 3000 {
                        c.case(|| format!("text of {} bytes: {}", s.len(), s.chars().take(30).collect::<String>()), |o| text_case(&mut w, &s, &[3, 8], o));
                    } else if part.mine() {
                        c.case(|| format!("text {s:?}"), |o| text_case(&mut w, &s, &[1, 16, 32, 33, 34, 64, 65, 255, 256, 257], o));
                    }
                }
            });
            u
        },
    }
}
