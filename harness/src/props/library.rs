//! C17, C18: the method library.

use super::*;
use super::{bell_stage::STAGE_NAMES, methods::{check_debug_class, Cls}, place_not::transposition, pn_block::denote};
use crate::model::*;
use bellframe::{method_lib::QueryError, Method, MethodLib, PnBlock};
use reqwest::stub::{self, Answer, Body};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------- Model

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    n: usize,
    cls: Cls,
    title: Option<String>,
    name: String,
    pn: String,
}

fn entry(n: usize, cls: Cls, title: Option<&str>, name: &str, pn: &str) -> Entry {
    Entry { n, cls, title: title.map(str::to_owned), name: name.to_owned(), pn: pn.to_owned() }
}

fn cls(class: usize, flags: &str) -> Cls {
    Cls { jump: flags.contains('j'), little: flags.contains('l'), diff: flags.contains('d'), class }
}

impl Entry {
    fn full_title(&self) -> String {
        self.title.clone().unwrap_or_else(|| self.cls.title(&self.name, self.n))
    }
}

/// stage, lower-case title -> method
type Model = BTreeMap<(usize, String), Entry>;

fn model(entries: &[Entry]) -> Model {
    entries.iter().map(|e| ((e.n, e.full_title().to_lowercase()), e.clone())).collect()
}

fn find<'m>(m: &'m Model, query: &str) -> Option<&'m Entry> {
    let q = query.to_lowercase();
    let last = q.rsplit(' ').next().unwrap();
    let n = STAGE_NAMES.iter().position(|s| s.to_lowercase() == last)? + 1;
    m.get(&(n, q))
}

/// How library JSON is laid out
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Layout {
    /// One group per method, only the necessary fields
    Split,
    /// Neighbouring methods of one stage and class share a group, all fields explicit, spaced out, in another order
    Merged,
}

fn text(entries: &[Entry], layout: Layout) -> String {
    let s = |x: &str| serde_json::to_string(x).unwrap();
    let mut groups: Vec<Vec<&Entry>> = vec![];
    for e in entries {
        match groups.last_mut() {
            Some(g) if layout == Layout::Merged && g[0].n == e.n && g[0].cls == e.cls => g.push(e),
            _ => groups.push(vec![e]),
        }
    }
    let groups: Vec<String> = groups
        .into_iter()
        .map(|g| {
            let (n, c) = (g[0].n, g[0].cls);
            if layout == Layout::Split {
                let flags: String = [("j", c.jump), ("l", c.little), ("d", c.diff)]
                    .iter()
                    .filter(|f| f.1)
                    .map(|f| format!("\"{}\":true,", f.0))
                    .collect();
                let ms: Vec<String> = g
                    .iter()
                    .map(|e| {
                        let t = e.title.as_ref().map_or(String::new(), |t| format!("\"t\":{},", s(t)));
                        format!("{{{t}\"n\":{},\"p\":{}}}", s(&e.name), s(&e.pn))
                    })
                    .collect();
                format!("{{\"s\":{n},{flags}\"c\":{},\"m\":[{}]}}", c.class, ms.join(","))
            } else {
                let ms: Vec<String> = g
                    .iter()
                    .map(|e| {
                        let t = e.title.as_ref().map_or("null".into(), |t| s(t));
                        format!("{{ \"p\" : {}, \"n\" : {}, \"t\" : {t} }}", s(&e.pn), s(&e.name))
                    })
                    .collect();
                format!(
                    "{{\n \"m\" : [ {} ],\n \"d\" : {}, \"l\" : {}, \"j\" : {}, \"c\" : {}, \"s\" : {n} }}",
                    ms.join(" , "), c.diff, c.little, c.jump, c.class
                )
            }
        })
        .collect();
    if layout == Layout::Split {
        format!("{{\"groups\":[{}]}}", groups.join(","))
    } else {
        format!("\n{{ \"groups\" : [ {} ] }}\n", groups.join(" , "))
    }
}

/// JSON with everything kept: repeated keys, order, number spelling
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    U(u64),
    Num,
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl<'de> serde::Deserialize<'de> for J {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = J;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("any JSON")
            }
            fn visit_unit<E>(self) -> Result<J, E> {
                Ok(J::Null)
            }
            fn visit_bool<E>(self, b: bool) -> Result<J, E> {
                Ok(J::Bool(b))
            }
            fn visit_u64<E>(self, v: u64) -> Result<J, E> {
                Ok(J::U(v))
            }
            fn visit_i64<E>(self, _: i64) -> Result<J, E> {
                Ok(J::Num)
            }
            fn visit_f64<E>(self, _: f64) -> Result<J, E> {
                Ok(J::Num)
            }
            fn visit_str<E>(self, s: &str) -> Result<J, E> {
                Ok(J::Str(s.to_owned()))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(J::Arr(v))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(J::Obj(v))
            }
        }
        d.deserialize_any(V)
    }
}

/// What must become of a text read as a library
#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    /// Must be read, as this
    Accept(Vec<Entry>),
    /// Must be refused
    Reject,
    /// Either is fine (arrays instead of objects, unknown or repeated fields, ...)
    Either,
}

enum Bad {
    Reject,
    Either,
}

/// The fields of an object: all the known ones that are there.  Anything doubtful is remembered in `odd`.
fn fields<'j>(j: &'j J, known: &[&str], odd: &mut bool) -> Result<BTreeMap<&'j str, &'j J>, Bad> {
    let v = match j {
        J::Obj(v) => v,
        J::Arr(_) => return Err(Bad::Either),
        _ => return Err(Bad::Reject),
    };
    let mut m = BTreeMap::new();
    for (k, x) in v {
        if !known.contains(&k.as_str()) || m.insert(k.as_str(), x).is_some() {
            *odd = true;
        }
    }
    Ok(m)
}

fn flag(f: &BTreeMap<&str, &J>, k: &str) -> Result<bool, Bad> {
    match f.get(k) {
        None => Ok(false),
        Some(J::Bool(b)) => Ok(*b),
        Some(J::Null) => Err(Bad::Either),
        Some(_) => Err(Bad::Reject),
    }
}

fn string(f: &BTreeMap<&str, &J>, k: &str) -> Result<String, Bad> {
    match f.get(k) {
        Some(J::Str(s)) => Ok(s.clone()),
        _ => Err(Bad::Reject),
    }
}

fn decode(j: &J, odd: &mut bool) -> Result<Vec<Entry>, Bad> {
    let root = fields(j, &["groups"], odd)?;
    let groups = match root.get("groups") {
        Some(J::Arr(g)) => g,
        _ => return Err(Bad::Reject),
    };
    // A definite fault anywhere outweighs doubts elsewhere only if nothing is doubtful before it: be lenient
    let mut out = vec![];
    for g in groups {
        let f = fields(g, &["s", "j", "l", "d", "c", "m"], odd)?;
        let n = match f.get("s") {
            Some(J::U(0)) => return Err(Bad::Reject),
            Some(J::U(n)) => *n,
            _ => return Err(Bad::Reject),
        };
        let class = match f.get("c") {
            Some(J::U(c)) if *c <= 8 => *c as usize,
            _ => return Err(Bad::Reject),
        };
        let c = Cls { jump: flag(&f, "j")?, little: flag(&f, "l")?, diff: flag(&f, "d")?, class };
        if n > 1 << 40 {
            *odd = true;
        }
        let ms = match f.get("m") {
            Some(J::Arr(m)) => m,
            _ => return Err(Bad::Reject),
        };
        for m in ms {
            let f = fields(m, &["t", "n", "p"], odd)?;
            let title = match f.get("t") {
                None | Some(J::Null) => None,
                Some(J::Str(s)) => Some(s.clone()),
                Some(_) => return Err(Bad::Reject),
            };
            out.push(Entry { n: n as usize, cls: c, title, name: string(&f, "n")?, pn: string(&f, "p")? });
        }
    }
    Ok(out)
}

fn verdict(s: &str) -> Verdict {
    let Ok(j) = serde_json::from_str::<J>(s) else { return Verdict::Reject };
    let mut odd = false;
    match decode(&j, &mut odd) {
        _ if odd => Verdict::Either,
        Ok(v) => Verdict::Accept(v),
        Err(Bad::Reject) => Verdict::Reject,
        Err(Bad::Either) => Verdict::Either,
    }
}

/// Rows of the first lead of a notation, or `None` if it's no good
fn lead(pn: &str, n: usize) -> Option<Vec<Perm>> {
    let changes = denote(pn, n).ok()?;
    if changes.is_empty() {
        return None;
    }
    let mut rows = vec![identity(n)];
    for c in changes {
        let next = mul(rows.last().unwrap(), &transposition(&c, n));
        rows.push(next);
    }
    Some(rows)
}

// --------------------------------------------------------------------------------------- Observation

fn check_method(m: &Method, e: &Entry, rows: &[Perm]) -> Result<(), String> {
    eq!(m.title(), e.full_title(), "title");
    eq!(m.name(), e.name, "name");
    eq!(m.stage().num_bells(), e.n, "stage");
    check_debug_class(m, e.cls)?;
    eq!(ssv_perms(m.first_lead().row_vec()), rows, "rows of {e:?}");
    eq!(m.lead_len(), rows.len() - 1, "lead length");
    Ok(())
}

fn check_query(lib: &MethodLib, m: &Model, query: &str, o: &mut Obs) -> Result<(), String> {
    o.step(1);
    let r = lib.get_by_title(query);
    let want = find(m, query);
    match (&r, want) {
        (Err(QueryError::NotFound(())), None) => {}
        (_, None) => return Err(format!("query {query:?} should not be found, but: {r:?}")),
        (_, Some(e)) => match (&r, lead(&e.pn, e.n)) {
            (Ok(got), Some(rows)) => check_method(got, e, &rows).map_err(|x| format!("query {query:?}: {x}"))?,
            (Err(QueryError::PnParseErr { pn, error }), None) => {
                eq!(*pn, e.pn, "invalid notation found by {query:?}");
                let real = PnBlock::parse(&e.pn, stage(e.n)).map(|_| ());
                ensure!(real.as_ref() == Err(error), "query {query:?}: {error:?} instead of {real:?}");
            }
            (r, rows) => return Err(format!("query {query:?} for {e:?} (rows {rows:?}): {r:?}")),
        },
    }
    // The other views of the same answer
    let found = r.is_ok();
    let invalid = matches!(r, Err(QueryError::PnParseErr { .. }));
    match r.map_err(|e| e.map_not_found(|()| 7)) {
        Ok(_) => ensure!(found, "map_not_found"),
        Err(QueryError::NotFound(x)) => ensure!(!found && !invalid && x == 7, "map_not_found"),
        Err(e @ QueryError::PnParseErr { .. }) => {
            ensure!(invalid, "map_not_found");
            ensure!(panics(|| e.unwrap_parse_err()), "unwrap_parse_err didn't panic");
        }
    }
    if !invalid {
        match lib.get_by_title(query).map_err(|e| e.map_not_found(|()| 5).unwrap_parse_err()) {
            Ok(_) => ensure!(found, "unwrap_parse_err"),
            Err(Err(x)) => ensure!(!found && x == 5, "unwrap_parse_err"),
            Err(Ok(_)) => return Err("unwrap_parse_err made up a method".into()),
        }
    }
    Ok(())
}

fn edit_distance(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 || j == 0 {
                i + j
            } else {
                (d[i - 1][j] + 1).min(d[i][j - 1] + 1).min(d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize)
            };
        }
    }
    d[a.len()][b.len()]
}

fn check_suggestions(lib: &MethodLib, m: &Model, query: &str, k: usize, o: &mut Obs) -> Result<(), String> {
    o.step(1);
    let what = || format!("{k} suggestions for {query:?}");
    let r = lib.get_by_title_with_suggestions(query, k);
    let Some(e) = find(m, query) else {
        let Err(QueryError::NotFound(got)) = r else { return Err(format!("{}: {r:?}", what())) };
        let q = query.to_lowercase();
        let mut all: Vec<(usize, String)> = m.iter().map(|((_, low), e)| (edit_distance(&q, low), e.full_title())).collect();
        all.sort();
        let want: Vec<usize> = all.iter().map(|x| x.0).take(k).collect();
        let ds: Vec<usize> = got.iter().map(|x| x.1).collect();
        eq!(ds, want, "distances of {}: {got:?} of {all:?}", what());
        // Each is a stored title with its distance, none more often than stored
        for (t, d) in got {
            let i = all.iter().position(|(d2, t2)| *d2 == d && t2 == t);
            let Some(i) = i else { return Err(format!("{}: {t:?} with distance {d} (left: {all:?})", what())) };
            all.remove(i);
        }
        return Ok(());
    };
    match (r, lead(&e.pn, e.n)) {
        (Ok(got), Some(rows)) => check_method(&got, e, &rows).map_err(|x| format!("{}: {x}", what())),
        (Err(QueryError::PnParseErr { pn, .. }), None) => {
            eq!(pn, e.pn, "{}", what());
            Ok(())
        }
        (r, _) => Err(format!("{}: {r:?}", what())),
    }
}

fn other_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// The library holds exactly the model's methods.
fn check_lib(lib: &MethodLib, m: &Model, o: &mut Obs) -> Result<(), String> {
    for e in m.values() {
        let t = e.full_title();
        for q in [t.clone(), t.to_ascii_lowercase(), t.to_ascii_uppercase(), other_case(&t)] {
            check_query(lib, m, &q, o)?;
        }
        for q in [format!("{t} "), format!(" {t}"), t.replace(' ', "  "), t.chars().skip(1).collect(), e.name.clone(), format!("{} {}", t, STAGE_NAMES[5])] {
            check_query(lib, m, &q, o)?;
        }
        // The same title on the neighbouring stages, and that of the other classes
        for n in [e.n.saturating_sub(1), e.n.saturating_add(1)] {
            if n > 0 {
                check_query(lib, m, &e.cls.title(&e.name, n), o)?;
            }
        }
        for class in 0..9 {
            check_query(lib, m, &Cls { class, ..e.cls }.title(&e.name, e.n), o)?;
        }
    }
    check_query(lib, m, "", o)?;
    check_suggestions(lib, m, "", m.len() + 1, o)
}

/// ... and still does after going through JSON.
fn check_round_trip(lib: &MethodLib, m: &Model, o: &mut Obs) -> Result<(), String> {
    check_lib(lib, m, o)?;
    let json = lib.to_json().map_err(|e| format!("to_json: {e}"))?;
    if let Verdict::Accept(entries) = verdict(&json) {
        eq!(entries.len(), m.len(), "number of methods in {json}");
        let got = model(&entries);
        ensure!(got.len() == m.len(), "methods in {json}, expected {m:?}");
        for (k, e) in m {
            let Some(g) = got.get(k) else { return Err(format!("{e:?} is missing in {json}")) };
            eq!((g.full_title(), &g.name, g.cls, &g.pn), (e.full_title(), &e.name, e.cls, &e.pn), "in {json}");
        }
    } else {
        return Err(format!("to_json wrote {json}"));
    }
    let again = MethodLib::from_json(&json).map_err(|e| format!("from_json of {json}: {e}"))?;
    o.step(2);
    check_lib(&again, m, o).map_err(|e| format!("after a round trip: {e}"))?;
    o.see(&m.iter().map(|(k, e)| (k.clone(), e.pn.clone(), format!("{:?}", e.cls))).collect::<Vec<_>>());
    Ok(())
}

/// Every stored title is found before and after a round trip, whatever the names are.
fn named_lib_case(es: &[Entry], o: &mut Obs) -> Result<(), String> {
    let json = text(es, Layout::Split);
    let m = model(es);
    let mut lib = MethodLib::from_json(&json).map_err(|e| format!("from_json of {json}: {e}"))?;
    for _ in 0..2 {
        for e in m.values() {
            let t = e.full_title();
            for q in [t.to_ascii_lowercase(), t.to_ascii_uppercase(), t] {
                check_query(&lib, &m, &q, o)?;
            }
        }
        let json = lib.to_json().map_err(|e| format!("to_json: {e}"))?;
        lib = MethodLib::from_json(&json).map_err(|e| format!("from_json of {json}: {e}"))?;
    }
    o.see(&json);
    Ok(())
}

/// Words which turn up in method names
const VOCABULARY: &[&str] = &[
    "", "A", "The", "St", "St.", "Plain", "Reverse", "Double", "Little", "Differential", "Jump", "Treble", "Bob", "Place", "Treble Bob",
    "Treble Place", "Delight", "Surprise", "Alliance", "Hybrid", "Principle", "Court", "Slow Course", "Grandsire", "Stedman", "No. 2",
    "No.2", "23rd", "(1)", "\"X\"", "'", "O'", "-", "x", "&", "and", "of", "in", "Singles", "Minor", "Major", "minor", "Twenty-two", "6", "É",
];

fn lib_case(entries: &[Entry], layout: Layout, o: &mut Obs) -> Result<(), String> {
    let json = text(entries, layout);
    let lib = MethodLib::from_json(&json).map_err(|e| format!("from_json of {json}: {e}"))?;
    check_round_trip(&lib, &model(entries), o)?;
    check_round_trip(&lib.clone(), &model(entries), o)?;
    for es in [&entries[..entries.len().min(1)], &pool()[..]] {
        let mut old = MethodLib::from_json(&text(es, layout)).map_err(|e| e.to_string())?;
        old.clone_from(&lib);
        check_lib(&old, &model(entries), o).map_err(|e| format!("a library overwritten: {e}"))?;
    }
    Ok(())
}

// ----------------------------------------------------------------------------------------------- C17

/// Notations for a stage, good and bad
fn notations(n: usize) -> Vec<String> {
    let top = bell_text(n - 1);
    let mut v = vec!["1".to_owned(), format!("1.{top}"), "x".into(), "-1-,1".into(), "+1.1".into(), "".into(), ".".into(), "x1x,".into(), "1x+1".into(), format!("1.{}", bell_text(n.min(32)))];
    if n >= 4 {
        v.extend(["x14x12,12".into(), "3.1.5.1.5,1".into(), "14".into(), "12".into(), "13".into(), "é14".into(), "X 14;12".into()]);
    }
    v
}

fn alphabet() -> Vec<Entry> {
    let mut v = vec![];
    let bob = cls(2, "");
    let surprise = cls(5, "");
    for n in [5, 6] {
        let st = STAGE_NAMES[n - 1];
        v.push(entry(n, bob, None, "A", "1"));
        v.push(entry(n, surprise, None, "A", "12"));
        v.push(entry(n, bob, None, "a", "14"));
        v.push(entry(n, cls(0, ""), None, "A", "3.1,1"));
        v.push(entry(n, cls(8, "l"), None, "A", "1.3"));
        v.push(entry(n, bob, Some(&format!("A {st}")), "B", "1.1"));
        v.push(entry(n, bob, Some(&format!("A bob {st}")), "C", "x"));
        v.push(entry(n, surprise, Some(&bob.title("A", n)), "A", "16,1"));
    }
    v.push(entry(6, bob, Some("A Bob Doubles"), "A", "x14"));
    v.push(entry(6, bob, Some("A Bob"), "A", "x16"));
    v.push(entry(6, bob, Some(""), "A", "x12"));
    v.push(entry(6, bob, None, "", "x36"));
    v.push(entry(6, cls(2, "d"), None, "A", "x56"));
    v.push(entry(6, cls(2, "l"), None, "A", "34"));
    v.push(entry(6, cls(2, "j"), None, "A", "1234"));
    v.push(entry(6, cls(0, "l"), None, "A", "1256"));
    v.push(entry(23, bob, None, "A", "x1x"));
    v.push(entry(6, bob, None, "Little", "x1"));
    v.push(entry(6, bob, None, "é \"\\\n", "12,12"));
    v
}

const TITLE_WORDS: [&str; 14] = ["", "A", "a", "é", " ", "Bob", "bob ", "Little ", "Minor", "MINOR", "minor", " Minor", "Doubles", "\n"];

fn pool() -> Vec<Entry> {
    vec![
        entry(6, cls(2, ""), None, "Plain", "x16x16x16,12"),
        entry(5, cls(2, ""), None, "Plain", "5.1.5.1.5,125"),
        entry(6, cls(5, ""), None, "Cambridge", "x36x14x12x36x14x56,12"),
        entry(6, cls(4, ""), None, "Cambridge", "x36x14x12x36x14x16,12"),
        entry(8, cls(5, ""), None, "Ée", "x18,12"),
        entry(6, cls(2, ""), Some("Grandsire"), "Grandsire", "3,1.5"),
        entry(6, cls(2, ""), Some("plain BOB Minor"), "P", "bad"),
        entry(30, cls(1, ""), None, "X", "x1"),
    ]
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "A case is one library: read from JSON in two layouts, queried for every stored title in four letter cases and for \
               near misses, written out, read back and queried again; or one query or suggestion request.  Distinct by contents.",
        bounds: |t| json!({"alphabet": alphabet().len(), "library_lists": format!("all lists of up to {} methods over the alphabet", t.pick(2, 3)),
            "singles": "72 classes x stages 1..=24 and 33, 64, 2^40 x overridden titles; all notations of the list on stages 1..=34",
            "big_groups": format!("100 to {} methods of one class", t.pick(3000, 20_000)),
            "long_texts": "names, notations and queries of 63 to 6000 words and characters",
            "characters": "names and titles with every Unicode character up to U+3000 and every 16th above (thorough: every one)",
            "vocabulary": format!("all names of up to two of {} words, on 3 stages in all classes", VOCABULARY.len()),
            "queries": format!("all sequences of up to {} of {} title words", t.pick(4, 5), TITLE_WORDS.len()),
            "suggestions": "all sub-libraries of an 8-method pool x all single-character edits of all titles x all counts"}),
        assumptions: &["Letter case is varied for ASCII letters only", "Only libraries read from JSON can be built through the public API"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(2, 3);
            split_unit(&mut u, "lists", 16, move |c, part| {
                let a = alphabet();
                for len in 0..=max {
                    all_seqs(a.len(), len, &mut |ix| {
                        if part.mine() {
                            let es: Vec<Entry> = ix.iter().map(|&i| a[i].clone()).collect();
                            c.case(|| format!("library {}", text(&es, Layout::Split)), |o| {
                                lib_case(&es, Layout::Split, o)?;
                                lib_case(&es, Layout::Merged, o)
                            });
                        }
                    });
                }
            });
            split_unit(&mut u, "classes-and-stages", 16, |c, part| {
                for n in (1..=24).chain([33, 64, 1 << 40]) {
                    for cl in Cls::all() {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("{n} bells, {cl:?}"), |o| {
                            let std = cl.title("A b", n);
                            let mut titles = vec![None, Some(std.clone()), Some(std.to_uppercase()), Some("A b".to_owned())];
                            for other in Cls::all() {
                                titles.push(Some(other.title("A b", n)));
                            }
                            for s in STAGE_NAMES {
                                titles.push(Some(format!("A b {s}")));
                            }
                            for t in titles {
                                let es = [entry(n, cl, t.as_deref(), "A b", "1")];
                                let json = text(&es, Layout::Split);
                                let lib = MethodLib::from_json(&json).map_err(|e| format!("{json}: {e}"))?;
                                if n < 1000 {
                                    check_round_trip(&lib, &model(&es), o)?;
                                } else {
                                    check_suggestions(&lib, &model(&es), "x", 2, o)?;
                                    let again = lib.to_json().ok().and_then(|j| MethodLib::from_json(&j).ok());
                                    let Some(again) = again else { return Err(format!("round trip of {json}")) };
                                    check_suggestions(&again, &model(&es), "x", 2, o)?;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            });
            split_unit(&mut u, "notations", 4, |c, part| {
                for n in 1..=34 {
                    for pn in notations(n) {
                        if part.mine() {
                            c.case(|| format!("{n} bells, notation {pn:?}"), |o| {
                                for (t, nm) in [(None, "A"), (Some("Q"), "Q"), (Some("Z Minor"), "Z")] {
                                    lib_case(&[entry(n, cls(3, ""), t, nm, &pn)], Layout::Split, o)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            });
            let all_chars = t == Tier::Thorough;
            split_unit(&mut u, "characters", 32, move |c, part| {
                for ch in '\0'..=char::MAX {
                    if (!all_chars && ch > '\u{3000}' && ch as u32 % 16 != 5) || !part.mine() {
                        continue;
                    }
                    c.case(|| format!("names and titles with {ch:?}"), |o| {
                        let es = [
                            entry(6, cls(2, ""), None, &format!("A{ch}b"), "12"),
                            entry(5, cls(0, ""), Some(&format!("{ch}q{ch} Doubles")), &ch.to_string(), "3"),
                        ];
                        named_lib_case(&es, o)
                    });
                }
            });
            split_unit(&mut u, "vocabulary", 32, move |c, part| {
                for a in VOCABULARY {
                    for b in VOCABULARY {
                        if part.mine() {
                            c.case(|| format!("methods called {a:?} {b:?}"), |o| {
                                let name = if b.is_empty() { (*a).to_owned() } else { format!("{a} {b}") };
                                let mut es = vec![];
                                for n in [3, 6, 8] {
                                    for class in 0..9 {
                                        for flags in ["", "l", "d", "j", "jl", "ld"] {
                                            es.push(entry(n, cls(class, flags), None, &name, "1"));
                                        }
                                    }
                                    es.push(entry(n, cls(2, ""), Some(&format!("{name} {}", STAGE_NAMES[n - 1])), &name, "3"));
                                    es.push(entry(n, cls(5, ""), Some(&name), "Name", "123"));
                                }
                                named_lib_case(&es, o)
                            });
                        }
                    }
                }
            });
            let words = t.pick(4, 5);
            split_unit(&mut u, "queries", 16, move |c, part| {
                let mut es = pool();
                es.extend([
                    entry(6, cls(0, ""), None, "", "1"),
                    entry(6, cls(2, ""), None, "A", "12"),
                    entry(5, cls(2, ""), None, "A Minor", "1"),
                    entry(6, cls(2, ""), None, "é", "bad"),
                    entry(6, cls(2, "l"), None, "a  a", "14"),
                    entry(6, cls(2, ""), Some("A\nMinor"), "n", "14"),
                    entry(6, cls(2, ""), Some("minor minor minor"), "n", "16"),
                    entry(6, cls(2, ""), Some(" Minor"), "n", "x16"),
                    entry(6, cls(2, ""), Some("A bob Doubles"), "n", "x16"),
                ]);
                let m = model(&es);
                let lib = MethodLib::from_json(&text(&es, Layout::Split)).unwrap();
                for len in 0..=words {
                    all_seqs(TITLE_WORDS.len(), len, &mut |ix| {
                        if part.mine() {
                            let q: String = ix.iter().map(|&i| TITLE_WORDS[i]).collect();
                            c.case(|| format!("query {q:?}"), |o| {
                                check_query(&lib, &m, &q, o)?;
                                o.see(&find(&m, &q).map(|e| e.pn.clone()));
                                check_suggestions(&lib, &m, &q, 3, o)
                            });
                        }
                    });
                }
            });
            split_unit(&mut u, "suggestions", 16, |c, part| {
                let p = pool();
                for set in 0..1usize << p.len() {
                    if !part.mine() {
                        continue;
                    }
                    let es: Vec<Entry> = (0..p.len()).filter(|i| set >> i & 1 != 0).map(|i| p[i].clone()).collect();
                    let m = model(&es);
                    let lib = MethodLib::from_json(&text(&es, Layout::Merged)).unwrap();
                    let mut queries: Vec<String> = vec!["".into(), "x".into(), "é minor".into(), "Minor".into(), "a".repeat(200)];
                    for e in &p {
                        let t: Vec<char> = e.full_title().chars().collect();
                        queries.push(t.iter().collect());
                        for i in 0..t.len() {
                            let mut x = t.clone();
                            x.remove(i);
                            queries.push(x.iter().collect());
                            let mut x = t.clone();
                            x[i] = 'z';
                            queries.push(x.iter().collect());
                            let mut x = t.clone();
                            x.insert(i, 'É');
                            queries.push(x.iter().collect());
                            if i > 0 {
                                let mut x = t.clone();
                                x.swap(i, i - 1);
                                queries.push(x.iter().collect());
                            }
                        }
                    }
                    for q in queries {
                        c.case(|| format!("library {set:#b}, query {q:?}"), |o| {
                            for k in (0..=es.len() + 2).chain([1000, 1 << 40, usize::MAX]) {
                                check_suggestions(&lib, &m, &q, k, o)?;
                            }
                            o.see(&(set, &q));
                            Ok(())
                        });
                    }
                }
            });
            u.push(unit("big-groups", move |c| {
                for k in [100usize, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, t.pick(3000, 20_000)] {
                    c.case(|| format!("{k} methods of one class"), |o| {
                        let es: Vec<Entry> = (0..k).map(|i| entry(8, cls(5, ""), None, &format!("N{i}"), "x18,12")).collect();
                        named_lib_case(&es, o)?;
                        let lib = MethodLib::from_json(&text(&es, Layout::Merged)).map_err(|e| e.to_string())?;
                        for n in [1, 63, 64, 65, 255, 256, 257, 1000, k - 1, k, k + 1] {
                            check_suggestions(&lib, &model(&es), "N7x Surprise Major", n, o)?;
                        }
                        Ok(())
                    });
                }
                // Long names, notations and queries
                for k in [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 3000] {
                    c.case(|| format!("names, notations and queries of {k} words and characters"), |o| {
                        let es = [
                            entry(6, cls(2, ""), None, &"A".repeat(k), "12"),
                            entry(6, cls(2, ""), None, &"B ".repeat(k), &"x14".repeat(k)),
                            entry(6, cls(0, ""), Some(&format!("{} Minor", "Cé".repeat(k))), &"q".repeat(k), &"x.".repeat(k)),
                            entry(6, cls(4, "l"), None, "Z", &format!("bad{}", ".".repeat(k))),
                        ];
                        named_lib_case(&es, o)?;
                        let (lib, m) = (MethodLib::from_json(&text(&es, Layout::Split)).map_err(|e| e.to_string())?, model(&es));
                        for q in ["A".repeat(k), "A".repeat(k - 1) + " Bob Minor", "z".repeat(2 * k), "é".repeat(k), "B ".repeat(k), "Z".into()] {
                            for n in [1, 4] {
                                check_suggestions(&lib, &m, &q, n, o)?;
                            }
                        }
                        Ok(())
                    });
                }
            }));
            u.push(unit("big-library", |c| {
                c.case(|| "thousands of methods".into(), |o| {
                    let mut es = vec![];
                    for n in [4, 5, 6, 7, 8, 12, 22, 23] {
                        for (i, cl) in Cls::all().into_iter().enumerate() {
                            for k in 0..5 {
                                let name = format!("Method {i} {k}");
                                es.push(entry(n, cl, None, &name, ["1", "14", "x14,12", "x", "12.34"][(i + k) % 5]));
                            }
                            es.push(entry(n, cl, Some(&format!("Other {i} {}", STAGE_NAMES[n.min(22) - 1])), "O", "14"));
                        }
                    }
                    let m = model(&es);
                    let lib = MethodLib::from_json(&text(&es, Layout::Merged)).map_err(|e| e.to_string())?;
                    check_round_trip(&lib, &m, o)?;
                    for k in [0, 1, 2, 10, 100, es.len(), es.len() + 1] {
                        check_suggestions(&lib, &m, "Method 1 7 Bob Minor", k, o)?;
                    }
                    Ok(())
                });
            }));
            u
        },
    }
}

// ----------------------------------------------------------------------------------------------- C18

/// Reads `s`, and uses whatever comes out.
fn read_case(s: &str, o: &mut Obs) -> Result<(), String> {
    let v = verdict(s);
    o.step(1);
    let r = MethodLib::from_json(s);
    o.see(&(matches!(v, Verdict::Accept(_)), r.is_ok(), r.as_ref().err().map(|e| e.to_string())));
    match (r, v) {
        (Ok(_), Verdict::Reject) => Err("this damaged library was read".into()),
        (Err(e), Verdict::Accept(_)) => Err(format!("this well-formed library was refused: {e}")),
        (Err(_), _) => Ok(()),
        (Ok(lib), Verdict::Accept(es)) if es.iter().all(|e| e.n < 1000) => check_round_trip(&lib, &model(&es), o),
        (Ok(lib), Verdict::Accept(es)) => check_suggestions(&lib, &model(&es), "q", es.len(), o),
        (Ok(lib), Verdict::Either) => {
            let j = lib.to_json().map_err(|e| format!("to_json: {e}"))?;
            ensure!(MethodLib::from_json(&j).is_ok(), "round trip of {j}");
            let _ = lib.get_by_title_with_suggestions("q", 3);
            Ok(())
        }
    }
}

fn documents() -> Vec<String> {
    let a = alphabet();
    let some: Vec<Entry> = [0, 5, 12, 19, 25, 27].iter().filter_map(|&i| a.get(i).cloned()).collect();
    vec![
        text(&pool(), Layout::Split),
        text(&some, Layout::Merged),
        text(&some[..2], Layout::Split),
        "{\"groups\":[]}".to_owned(),
        "{\"groups\":[{\"s\":6,\"c\":0,\"m\":[]}]}".to_owned(),
    ]
}

/// Values to put in place of one value of a document
fn replacements() -> Vec<String> {
    let mut v: Vec<String> = ["null", "true", "false", "0", "-0", "-1", "1", "2", "8", "9", "22", "23", "255", "256", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
        "1.0", "0.5", "6.0", "1e400", "6e0", "\"\"", "\"6\"", "\"x\"", "\"Minor\"", "\"\\ud800\"", "\"\\u0000\"", "[]", "[1]", "[[]]", "[null]", "{}", "{\"s\":6}", "{\"groups\":[]}", "", "NaN", "nul", "\"", "[", "{", "}", "]", ","]
        .iter().map(|s| s.to_string()).collect();
    v.push("[".repeat(200));
    v.push("[".repeat(100) + &"]".repeat(100));
    v
}

/// All documents made from `j` by replacing one value with `new` (`None`: removing the entry)
fn mutate(j: &serde_json::Value, f: &mut dyn FnMut(&serde_json::Value, &str)) {
    const HOLE: &str = "@HOLE@";
    fn walk(root: &mut serde_json::Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        let here = root.pointer(&path.iter().map(|p| format!("/{p}")).collect::<String>()).cloned();
        out.push(path.clone());
        match here {
            Some(serde_json::Value::Array(a)) => {
                for i in 0..a.len() {
                    path.push(i.to_string());
                    walk(root, path, out);
                    path.pop();
                }
            }
            Some(serde_json::Value::Object(m)) => {
                for k in m.keys() {
                    path.push(k.clone());
                    walk(root, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    let mut paths = vec![];
    walk(&mut j.clone(), &mut vec![], &mut paths);
    for p in paths {
        let ptr = p.iter().map(|p| format!("/{p}")).collect::<String>();
        let mut x = j.clone();
        if let Some(v) = x.pointer_mut(&ptr) {
            *v = HOLE.into();
        }
        f(&x, &format!("\"{HOLE}\""));
    }
}

/// What is at the cache file's place
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Cache {
    /// No file, but its directory exists
    Absent,
    Bytes(Vec<u8>),
    /// A directory where the file should be
    Dir,
    /// The cache directory itself is missing
    NoDir,
    /// A file where the cache directory should be
    FileForDir,
    /// A link to nowhere
    Dangling,
    /// A link to itself
    Loop,
}

fn cache_dir() -> PathBuf {
    let p = PathBuf::from(std::env::var_os("XDG_CACHE_HOME").expect("XDG_CACHE_HOME"));
    let scratch = PathBuf::from(std::env::var_os("MC_SCRATCH").expect("MC_SCRATCH"));
    assert!(p.starts_with(&scratch) && p != scratch, "cache outside the scratch directory");
    p
}

fn wipe(p: &Path) {
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            for e in std::fs::read_dir(p).unwrap() {
                wipe(&e.unwrap().path());
            }
            std::fs::remove_dir(p).unwrap();
        } else {
            std::fs::remove_file(p).unwrap();
        }
    }
}

const FILE: &str = "cccbr-methods.json";

fn set_cache(c: &Cache) {
    let d = cache_dir();
    wipe(&d);
    let f = d.join(FILE);
    match c {
        Cache::NoDir => return,
        Cache::FileForDir => return std::fs::write(&d, "x").unwrap(),
        _ => std::fs::create_dir(&d).unwrap(),
    }
    match c {
        Cache::Bytes(b) => std::fs::write(f, b).unwrap(),
        Cache::Dir => std::fs::create_dir(f).unwrap(),
        Cache::Dangling => std::os::unix::fs::symlink(d.join("missing").join("x"), f).unwrap(),
        Cache::Loop => std::os::unix::fs::symlink(FILE, f).unwrap(),
        _ => {}
    }
}

fn get_cache() -> Cache {
    let d = cache_dir();
    match std::fs::symlink_metadata(&d) {
        Err(_) => return Cache::NoDir,
        Ok(m) if !m.is_dir() => return Cache::FileForDir,
        _ => {}
    }
    let f = d.join(FILE);
    match std::fs::symlink_metadata(&f) {
        Err(_) => Cache::Absent,
        Ok(m) if m.is_dir() => Cache::Dir,
        Ok(m) if m.is_file() => Cache::Bytes(std::fs::read(&f).unwrap()),
        Ok(_) if std::fs::read_link(&f).unwrap() == Path::new(FILE) => Cache::Loop,
        Ok(_) => Cache::Dangling,
    }
}

/// Can a file be written there, as far as the environment goes?
fn writable(c: &Cache) -> bool {
    matches!(c, Cache::Absent | Cache::Bytes(_))
}

fn body_verdict(b: &[u8]) -> Verdict {
    std::str::from_utf8(b).map_or(Verdict::Reject, verdict)
}

/// Runs `f` while no file may grow beyond `limit` bytes: a disk that fills up during a write
fn disk_full<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    struct Restore(libc::rlimit);
    impl Drop for Restore {
        fn drop(&mut self) {
            unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &self.0) };
        }
    }
    let _restore = unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        Restore(old)
    };
    f()
}

/// A fetch in cache state `c` whose write to the cache breaks off after `limit` bytes
fn load_disk_full(c: &Cache, body: &[u8], limit: usize, o: &mut Obs) -> Result<Cache, String> {
    let Verdict::Accept(es) = body_verdict(body) else { return Err("bad test body".into()) };
    set_cache(c);
    stub::script(vec![Answer::Response { status: 200, body: Body::Whole(body.to_vec()) }; 8]);
    let r = disk_full(limit as u64, MethodLib::cc_lib);
    o.step(1);
    let after = get_cache();
    let Some(lib) = r else { return Err(format!("the result was lost because the disk was full after {limit} bytes")) };
    check_lib(&lib, &model(&es), o).map_err(|e| format!("fetched: {e}"))?;
    match &after {
        a if a == c => {}
        Cache::Absent => {}
        Cache::Bytes(b) if body.starts_with(b) => {}
        a => return Err(format!("the cache became {a:?}")),
    }
    o.see(&(3, hash_of(c), limit, hash_of(&after)));
    Ok(after)
}

/// One load in cache state `c` with answer `a`; returns the state of the cache afterwards
fn load(c: &Cache, a: &Answer, o: &mut Obs) -> Result<Cache, String> {
    set_cache(c);
    // A client that tries again gets the same answer again
    stub::script(vec![a.clone(); 8]);
    let r = MethodLib::cc_lib();
    let after = get_cache();
    let asked = stub::requests().len();
    o.step(1);
    let cached = match c {
        Cache::Bytes(b) => body_verdict(b),
        _ => Verdict::Reject,
    };
    if let Verdict::Accept(es) = &cached {
        let Some(lib) = r else { return Err("nothing loaded although the cache is valid".into()) };
        check_lib(&lib, &model(es), o).map_err(|e| format!("loaded from a valid cache: {e}"))?;
        ensure!(asked == 0, "{asked} requests although the cache is valid");
        ensure!(after == *c, "a valid cache was changed to {after:?}");
        o.see(&(0, hash_of(c)));
        return Ok(after);
    }
    if cached == Verdict::Either {
        return Ok(after);
    }
    let Answer::Response { status, body: Body::Whole(body) } = a else {
        ensure!(r.is_none(), "a library was loaded from nowhere");
        ensure!(after == *c, "the cache became {after:?} without a response");
        ensure!(asked > 0, "no request was made");
        o.see(&(1, hash_of(c), hash_of(a)));
        return Ok(after);
    };
    ensure!(asked > 0, "no request was made");
    match body_verdict(body) {
        Verdict::Accept(es) => {
            match r {
                Some(lib) => {
                    check_lib(&lib, &model(&es), o).map_err(|e| format!("fetched: {e}"))?;
                    ensure!(after == *c || after == Cache::Bytes(body.clone()), "the cache became {after:?}");
                    if writable(c) {
                        ensure!(after == Cache::Bytes(body.clone()), "the fetched library was not cached: {after:?}");
                    }
                }
                // An error status is reason enough to refuse the body
                None => {
                    ensure!(!(200..300).contains(status), "nothing loaded although a valid response arrived");
                    ensure!(after == *c, "the cache became {after:?}");
                }
            }
        }
        Verdict::Reject => {
            ensure!(r.is_none(), "a library was made of an invalid response");
            ensure!(after == *c, "the cache became {after:?} after an invalid response");
        }
        Verdict::Either => {
            ensure!(after == *c || (r.is_some() && after == Cache::Bytes(body.clone())), "the cache became {after:?}");
        }
    }
    o.see(&(2, hash_of(c), hash_of(a), hash_of(&after)));
    Ok(after)
}

fn lib_a() -> Vec<u8> {
    text(&pool()[..3], Layout::Split).into_bytes()
}

fn lib_b() -> Vec<u8> {
    text(&[pool()[4].clone(), entry(6, cls(2, ""), None, "Plain", "x14,12")], Layout::Merged).into_bytes()
}

fn answers() -> Vec<Answer> {
    let whole = |status, b: &[u8]| Answer::Response { status, body: Body::Whole(b.to_vec()) };
    let (a, b) = (lib_a(), lib_b());
    vec![
        Answer::NoConnection,
        Answer::Response { status: 200, body: Body::Broken },
        whole(200, &a),
        whole(200, &b),
        whole(200, &b[..b.len() / 2]),
        whole(200, &b[..b.len() - 3]),
        whole(200, b""),
        whole(200, b"<html>404</html>"),
        whole(404, b"404: Not Found"),
        whole(404, &b),
        whole(500, b"{}"),
        whole(200, b"{\"groups\":[{\"s\":0,\"c\":0,\"m\":[]}]}"),
        whole(200, b"{\"groups\":[{\"s\":6,\"c\":9,\"m\":[]}]}"),
        whole(200, b"{\"groups\":[]}"),
        whole(200, b"\xff\xfe"),
        Answer::Response { status: 503, body: Body::Broken },
    ]
}

fn caches() -> Vec<Cache> {
    let (a, b) = (lib_a(), lib_b());
    let mut v = vec![Cache::Absent, Cache::Dir, Cache::NoDir, Cache::FileForDir, Cache::Dangling, Cache::Loop];
    for x in [
        a.clone(), b.clone(), a[..a.len() - 1].to_vec(), a[..a.len() / 2].to_vec(), vec![], b" ".to_vec(), b"{}".to_vec(), b"null".to_vec(),
        b"\xff".to_vec(), [&a[..20], b"\x80", &a[20..]].concat(), [&a[..], b"\n\n"].concat(), [&a[..], b"}"].concat(), [&a[..], &b[..]].concat(),
        vec![0; a.len()], [&a[..30], &vec![0; a.len() - 30][..]].concat(), [&b[..30], &a[30..]].concat(),
        b"{\"groups\":[{\"s\":0,\"c\":0,\"m\":[]}]}".to_vec(), b"{\"groups\":[{\"s\":6,\"c\":9,\"m\":[]}]}".to_vec(), b"{\"groups\":[]}".to_vec(),
    ] {
        v.push(Cache::Bytes(x));
    }
    v
}

/// Many methods, and few with long texts
fn big_libraries() -> Vec<Vec<Entry>> {
    let many = |k: usize| (0..k).map(|i| entry(6 + i % 3, cls(i % 9, ["", "l", "d"][i / 9 % 3]), None, &format!("Méthode {i}"), ["12", "x14,12", "bad"][i % 3])).collect();
    let long = |k: usize, len: usize| (0..k).map(|i| entry(6, cls(2, ""), None, &format!("{i}{}", "aé\"\u{1F514}".repeat(len)), "x16x16x16,12")).collect();
    vec![many(40), many(400), many(2000), long(3, 1000), long(2, 10_000), long(3, 120_000)]
}

fn show_cache(c: &Cache) -> String {
    match c {
        Cache::Bytes(b) => format!("cache file {:?}", String::from_utf8_lossy(b)),
        c => format!("{c:?}"),
    }
}

fn show_answer(a: &Answer) -> String {
    match a {
        Answer::Response { status, body: Body::Whole(b) } => format!("{status} {:?}", String::from_utf8_lossy(b)),
        a => format!("{a:?}"),
    }
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        level: "fault_enumeration",
        rule: "A case is one damaged text read as a library, or one history: an initial cache state and one network answer per \
               consecutive load, the cache file being left as each load leaves it.  Distinct by state, answers and outcome.",
        bounds: |t| json!({"prefixes": "every byte prefix and every removed byte range of up to 2 bytes, of 5 documents", "byte_substitutions": "every byte of 5 documents by every ASCII byte",
            "field_replacements": format!("every value of 5 documents by each of {} values", replacements().len()),
            "cache_states": caches().len(), "answers": answers().len(), "loads": t.pick(2, 3),
            "torn_writes": "every prefix of two libraries as cache file x all answers, then a second load with all answers",
            "disk_full": "writes breaking off after every byte x all invalid cache states, then a load without and one with a network",
            "big_libraries": "6 libraries of up to 2000 methods and up to 3 MB: cached, fetched, and torn at and around every power of two from 512 bytes",
            "torn_responses": "every prefix of two libraries as response x all cache states"}),
        assumptions: &["The network is a stand-in for reqwest's blocking client", "Damaged texts that serde may reasonably read either way (arrays for objects, unknown or repeated fields) only need not panic",
            "A response with an error status but a valid body may be used or refused"],
        units: |t| {
            let mut u = vec![];
            split_unit(&mut u, "prefixes", 4, |c, part| {
                for (k, d) in documents().into_iter().enumerate() {
                    for i in 0..=d.len() {
                        for drop in 0..=2usize {
                            if !part.mine() || i + drop > d.len() || !d.is_char_boundary(i) || !d.is_char_boundary(i + drop) {
                                continue;
                            }
                            let s = if drop == 0 { d[..i].to_owned() } else { format!("{}{}", &d[..i], &d[i + drop..]) };
                            c.case(|| format!("document {k}, byte {i}, drop {drop}: {s}"), |o| read_case(&s, o));
                        }
                        if d.is_char_boundary(i) && part.mine() {
                            let s = &d[i..];
                            c.case(|| format!("document {k}, from byte {i}: {s}"), |o| read_case(s, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "substitutions", 16, move |c, part| {
                for (k, d) in documents().into_iter().enumerate() {
                    for i in 0..d.len() {
                        if !d.is_char_boundary(i) || !d.is_char_boundary(i + 1) {
                            continue;
                        }
                        for b in 0..128u8 {
                            if !part.mine() {
                                continue;
                            }
                            let b = b as char;
                            let s = format!("{}{b}{}", &d[..i], &d[i + 1..]);
                            c.case(|| format!("document {k}, byte {i} := {b:?}"), |o| read_case(&s, o));
                            if t.thorough() {
                                let s = format!("{}{b}{}", &d[..i], &d[i..]);
                                c.case(|| format!("document {k}, byte {i} inserted {b:?}"), |o| read_case(&s, o));
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "fields", 8, |c, part| {
                let reps = replacements();
                for (k, d) in documents().into_iter().enumerate() {
                    let j: serde_json::Value = serde_json::from_str(&d).unwrap();
                    mutate(&j, &mut |x, hole| {
                        let with_hole = x.to_string();
                        for r in &reps {
                            if part.mine() {
                                let s = with_hole.replacen(hole, r, 1);
                                c.case(|| format!("document {k}: {s}"), |o| read_case(&s, o));
                            }
                        }
                        // Entry removed (its key renamed), repeated, swapped for an array
                        for (pat, to) in [
                            (format!(":{hole}"), ":1,\"zz\":2".to_owned()),
                            (format!(":{hole}"), ":\"A\",\"n\":\"B\"".to_owned()),
                            (format!("{hole},"), String::new()),
                            (format!(",{hole}"), String::new()),
                        ] {
                            if with_hole.contains(&pat) && part.mine() {
                                let s = with_hole.replacen(&pat, &to, 1);
                                c.case(|| format!("document {k}: {s}"), |o| read_case(&s, o));
                            }
                        }
                    });
                    // Every key lost or renamed
                    for key in ["groups", "s", "j", "l", "d", "c", "m", "t", "n", "p"] {
                        let pat = format!("\"{key}\"");
                        for (at, _) in d.match_indices(&pat) {
                            for new in ["\"zz\"", "\"s\"", "\"t\"", "\"\"", "s", "1", "null"] {
                                if part.mine() {
                                    let s = format!("{}{new}{}", &d[..at], &d[at + pat.len()..]);
                                    c.case(|| format!("document {k}, key {key} at {at} := {new}"), |o| read_case(&s, o));
                                }
                            }
                        }
                    }
                }
            });
            // The cache and the network are one environment: a single unit, explored one load after the other
            let depth = t.pick(2, 3);
            u.push(unit("loads", move |c| {
                let (cs, ans) = (caches(), answers());
                let mut frontier: Vec<(String, Cache)> = cs.iter().map(|x| (show_cache(x), x.clone())).collect();
                let mut seen: FxSet<u64> = frontier.iter().map(|x| hash_of(&x.1)).collect();
                c.t.states += frontier.len() as u64;
                for d in 0..depth {
                    let mut next = vec![];
                    for (label, cache) in &frontier {
                        for a in &ans {
                            let mut after = None;
                            c.case(|| format!("{label}; load with {}", show_answer(a)), |o| {
                                after = Some(load(cache, a, o)?);
                                Ok(())
                            });
                            c.t.transitions += 1;
                            let Some(after) = after else { continue };
                            if seen.insert(hash_of(&after)) {
                                c.t.states += 1;
                            }
                            // States aren't merged: anything remembered from one load to the next would show
                            if d == 0 || (d + 1 < depth && after != *cache) {
                                next.push((format!("{label}; load with {}", show_answer(a)), after));
                            }
                        }
                    }
                    if d + 1 == depth {
                        break;
                    }
                    frontier = next;
                }
                // Torn writes: a crash after every byte of the cache file
                for whole in [lib_a(), lib_b()] {
                    for k in 0..=whole.len() {
                        let cache = Cache::Bytes(whole[..k].to_vec());
                        for a in &ans {
                            c.case(|| format!("torn {}; two loads with {}", show_cache(&cache), show_answer(a)), |o| {
                                let after = load(&cache, a, o)?;
                                load(&after, &Answer::NoConnection, o)?;
                                Ok(())
                            });
                            c.t.transitions += 2;
                        }
                    }
                }
                // Torn responses that claim to be whole
                for whole in [lib_a(), lib_b()] {
                    for k in 0..=whole.len() {
                        let a = Answer::Response { status: 200, body: Body::Whole(whole[..k].to_vec()) };
                        for cache in &cs {
                            c.case(|| format!("{}; load with {}; load", show_cache(cache), show_answer(&a)), |o| {
                                let after = load(cache, &a, o)?;
                                load(&after, &Answer::NoConnection, o)?;
                                Ok(())
                            });
                            c.t.transitions += 2;
                        }
                    }
                }
                // Libraries the size of the real one and larger, whole and torn at and around buffer sizes
                for es in big_libraries() {
                    let whole = text(&es, Layout::Merged).into_bytes();
                    let whole_answer = Answer::Response { status: 200, body: Body::Whole(whole.clone()) };
                    let label = format!("{} methods in {} bytes", es.len(), whole.len());
                    for cache in [Cache::Absent, Cache::Bytes(whole.clone()), Cache::NoDir, Cache::Bytes(lib_a())] {
                        let from = if let Cache::Bytes(b) = &cache { format!("a cache file of {} bytes", b.len()) } else { show_cache(&cache) };
                        c.case(|| format!("{from}; load with {label}; load"), |o| {
                            let after = load(&cache, &whole_answer, o)?;
                            load(&after, &ans[3], o)?;
                            Ok(())
                        });
                        c.t.transitions += 2;
                    }
                    let mut cuts: Vec<usize> = vec![whole.len() / 2, whole.len() - 1];
                    cuts.extend((9..24).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]));
                    cuts.extend([1000, 10_000, 100_000, 1_000_000]);
                    for k in cuts {
                        if k >= whole.len() {
                            continue;
                        }
                        c.case(|| format!("cache file of the first {k} bytes of {label}; load; load with it; load"), |o| {
                            let torn = Cache::Bytes(whole[..k].to_vec());
                            load(&torn, &Answer::NoConnection, o)?;
                            load(&torn, &Answer::Response { status: 200, body: Body::Whole(whole[..k].to_vec()) }, o)?;
                            let after = load(&torn, &ans[3], o)?;
                            load(&after, &Answer::NoConnection, o)?;
                            Ok(())
                        });
                        c.t.transitions += 4;
                    }
                }
                // A disk which is full after every byte of the write; then loads without and with a network
                for whole in [lib_a(), lib_b()] {
                    for k in 0..=whole.len() + 1 {
                        for cache in &cs {
                            if matches!(cache, Cache::Bytes(b) if matches!(body_verdict(b), Verdict::Accept(_) | Verdict::Either)) {
                                continue;
                            }
                            c.case(|| format!("{}; load with {} bytes of room for {:?}; load; load", show_cache(cache), k, String::from_utf8_lossy(&whole)), |o| {
                                let after = load_disk_full(cache, &whole, k, o)?;
                                load(&after, &Answer::NoConnection, o)?;
                                load(&after, &ans[3], o)?;
                                Ok(())
                            });
                            c.t.transitions += 3;
                        }
                    }
                }
                set_cache(&Cache::Absent);
            }));
            u
        },
    }
}
