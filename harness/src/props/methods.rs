//! C14: methods, their courses and labels.  C15: classification.  C16: titles and class names.

use super::bell_stage::STAGE_NAMES;
use super::place_not::*;
use super::pn_block::{make_block, ring, METHODS};
use super::*;
use crate::model::*;
use bellframe::{
    method::{
        class::{Class, FullClass, HuntBellClass},
        generate_title, LABEL_LEAD_END,
    },
    AnnotBlock, Block, Method, PnBlock,
};
use serde_json::json;

pub const CLASSES: [Class; 9] = [
    Class::Principle, Class::Place, Class::Bob, Class::TrebleBob, Class::Delight, Class::Surprise,
    Class::TreblePlace, Class::Alliance, Class::Hybrid,
];
pub const CLASS_NAMES: [&str; 9] =
    ["Principle", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"];

/// Flags and index into [`CLASSES`]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Cls {
    pub jump: bool,
    pub little: bool,
    pub diff: bool,
    pub class: usize,
}

impl Cls {
    pub fn real(self) -> FullClass {
        FullClass::new(self.jump, self.little, self.diff, CLASSES[self.class])
    }
    pub fn all() -> Vec<Cls> {
        let mut v = vec![];
        for class in 0..9 {
            for b in 0..8 {
                v.push(Cls { jump: b & 1 != 0, little: b & 2 != 0, diff: b & 4 != 0, class });
            }
        }
        v
    }
    /// Words of the class in a title (or on its own)
    fn words(self, title: bool) -> Vec<&'static str> {
        let mut w = vec![];
        let silent = title && (self.class == 0 || self.class == 8);
        if self.jump {
            w.push("Jump");
        }
        if self.diff {
            w.push("Differential");
        }
        if self.little && !silent {
            w.push("Little");
        }
        if !silent {
            w.push(CLASS_NAMES[self.class]);
        }
        w
    }
    pub fn title(self, name: &str, n: usize) -> String {
        let stage = STAGE_NAMES.get(n - 1).map_or(format!("{n} bells"), |s| s.to_string());
        let mut w = if name.is_empty() { vec![] } else { vec![name] };
        w.extend(self.words(true));
        w.push(&stage);
        w.join(" ")
    }
}

/// If a class can be made out in the method's debug output, it must be the right one.
pub fn check_debug_class(m: &Method, c: Cls) -> Result<(), String> {
    let text = format!("{m:?}");
    if text.matches("FullClass {").count() == 1 {
        let want = format!("{:?}", c.real());
        ensure!(text.contains(&want), "method reports another class than {want}: {text}");
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C15

/// The documented rules, on the rows of a lead (the last being the lead head)
pub fn classify(rows: &[Perm]) -> Cls {
    let n = rows[0].len();
    let len = rows.len() - 1;
    // place of every place bell at every row
    let at: Vec<Perm> = rows.iter().map(|r| inv(r)).collect();
    let lead = |b: usize| -> Vec<usize> { (0..len).map(|i| at[i][b]).collect() };
    let ends: Perm = at[len].clone();
    let mut cycles: Vec<Vec<usize>> = vec![];
    let mut seen = vec![false; n];
    for b in 0..n {
        let mut cyc = vec![];
        let mut x = b;
        while !seen[x] {
            seen[x] = true;
            cyc.push(x);
            x = ends[x];
        }
        if !cyc.is_empty() {
            cycles.push(cyc);
        }
    }
    let hunts: Vec<usize> = cycles.iter().filter(|c| c.len() == 1).map(|c| c[0]).collect();
    let mut lens: Vec<usize> = cycles.iter().filter(|c| c.len() > 1).map(|c| c.len()).collect();
    lens.sort();
    lens.dedup();
    let diff = lens.len() > 1;
    if hunts.is_empty() {
        return Cls { jump: false, little: false, diff, class: 0 };
    }
    // 0 plain, 1 treble dodging, 2 treble place, 3 alliance, 4 hybrid
    let kind = |p: &[usize]| -> usize {
        let counts: Vec<usize> = (0..n).map(|x| p.iter().filter(|&&y| y == x).count()).filter(|&c| c > 0).collect();
        if counts.len() == 1 {
            return 2;
        }
        if counts.iter().all(|&c| c == 2) {
            return 0;
        }
        let l = p.len();
        let symmetric = (0..l).any(|k| (0..l).all(|i| p[i] == p[(k + l - i) % l]));
        let even = counts.iter().all(|&c| c == counts[0]);
        let made = (0..l).filter(|&i| p[i] == p[(i + 1) % l]).count();
        match (symmetric, even) {
            (false, _) => 4,
            (true, false) => 3,
            (true, true) if made > 2 => 2,
            (true, true) if made == 2 => 1,
            (true, true) => 4,
        }
    };
    let kinds: Vec<(usize, usize)> = hunts.iter().map(|&b| (b, kind(&lead(b)))).collect();
    let best = kinds.iter().map(|k| k.1).min().unwrap();
    let dominant: Vec<usize> = kinds.iter().filter(|k| k.1 == best).map(|k| k.0).collect();
    let little = dominant.iter().all(|&b| {
        let p = lead(b);
        (0..n).any(|x| !p.contains(&x))
    });
    let class = match best {
        0 => {
            let bob = cycles.iter().filter(|c| !(c.len() == 1 && dominant.contains(&c[0]))).any(|c| {
                let p: Vec<usize> = c.iter().flat_map(|&b| lead(b)).collect();
                let l = p.len();
                (0..l).any(|i| {
                    let (a, b, c) = (p[i], p[(i + 1) % l], p[(i + 2) % l]);
                    a == c && a.abs_diff(b) == 1
                })
            });
            if bob {
                2
            } else {
                1
            }
        }
        1 => {
            let (mut with, mut without) = (0, 0);
            for i in 0..len {
                let crosses = dominant.iter().any(|&b| {
                    let p = lead(b);
                    let base = *p.iter().min().unwrap();
                    (p[i] - base) / 2 != (p[(i + 1) % len] - base) / 2
                });
                if crosses {
                    let internal = (1..n.saturating_sub(1)).any(|x| rows[i][x] == rows[i + 1][x]);
                    if internal {
                        with += 1;
                    } else {
                        without += 1;
                    }
                }
            }
            match (with, without) {
                (0, _) => 3,
                (_, 0) => 5,
                _ => 4,
            }
        }
        2 => 6,
        3 => 7,
        _ => 8,
    };
    Cls { jump: false, little, diff, class }
}

fn block_of(rows: &[Perm]) -> Block {
    AnnotBlock::with_annots_from_indices(ssv(rows[0].len(), rows), |_| ()).expect("not empty")
}

fn class_text(c: Cls) -> String {
    format!("{:?}", c.real())
}

fn classify_case(changes: &[Vec<usize>], n: usize, deep: bool, o: &mut Obs) -> Result<(), String> {
    let rows = ring(&identity(n), changes);
    let want = classify(&rows);
    let got = FullClass::classify(&block_of(&rows));
    o.step(1);
    o.see(&(n, want, changes.len()));
    ensure!(got == want.real(), "{} on {n} bells: got {got:?}, expected {}", pns(changes), class_text(want));
    if deep {
        let b = make_block(changes, n)?;
        let plain: Block = b.to_block_from_rounds();
        eq!(FullClass::classify(&plain), got, "class of the block made from notation");
        let annotated: AnnotBlock<Option<String>> =
            AnnotBlock::with_annots_from_indices(ssv(n, &rows), |i| if i % 2 == 0 { Some(format!("l{i}")) } else { None }).unwrap();
        eq!(FullClass::classify(&annotated), got, "class of the annotated block");
        let mut joined = block_of(&rows[..1]);
        for i in 0..changes.len() {
            joined.extend(&block_of(&rows[i..i + 2])).map_err(|e| e.to_string())?;
        }
        eq!(FullClass::classify(&joined), got, "class of the block joined from single changes");
        let title = want.title("X y", n);
        eq!(Method::with_name("X y".into(), annotated).title(), title, "title of with_name");
        let m = Method::with_lead_end("X y".into(), &b);
        eq!(m.title(), title, "title of with_lead_end");
        check_debug_class(&m, want)?;
        let text = changes.iter().map(|f| pn_text(f)).collect::<Vec<_>>().join(".");
        if n <= 33 {
            let m = Method::from_place_not_string("X y".into(), stage(n), &format!("+{text}")).map_err(|e| format!("{text}: {e}"))?;
            eq!(m.title(), title, "title of from_place_not_string");
            check_debug_class(&m, want)?;
        }
        o.step(6);
    }
    Ok(())
}

fn pns(changes: &[Vec<usize>]) -> String {
    changes.iter().map(|f| pn_text(f)).collect::<Vec<_>>().join(".")
}

/// Published methods with their published class
const PUBLISHED: &[(&str, usize, usize, bool, bool)] = &[
    // notation, stage, class, little, differential
    ("x16x16x16,12", 6, 2, false, false),                                    // Plain Bob Minor
    ("5.1.5.1.5,125", 5, 2, false, false),                                   // Plain Bob Doubles
    ("5.1.5.1.5,123", 5, 1, false, false),                                   // Reverse Canterbury Pleasure Place-like
    ("3,1.5.1.5.1", 5, 2, false, false),                                     // Grandsire Doubles
    ("3,1.7.1.7.1.7.1", 7, 2, false, false),                                 // Grandsire Triples
    ("3.1.5.3.1.3,1", 5, 0, false, false),                                   // Stedman Doubles (its six begins elsewhere)
    ("+3.1.7.3.1.3.1.3.7.1.3.1", 7, 0, false, false),                        // Stedman Triples
    ("-36-14-12-36-14-56,12", 6, 5, false, false),                           // Cambridge Surprise Minor
    ("-38-14-1258-36-14-58-16-78,12", 8, 5, false, false),                   // Cambridge Surprise Major
    ("-36-14-58-36-14-58-36-78,12", 8, 5, false, false),                     // Superlative-like
    ("34-34.16-12-16-12-16,16", 6, 3, false, false),                         // Kent Treble Bob Minor
    ("-34-16-12-16-12-16,16", 6, 3, false, false),                           // Oxford Treble Bob Minor
    ("34-36.14-12-36-14-56,12", 6, 5, false, false),                         // treble dodging minor
    ("-14-36-58-18,18", 8, 2, false, false),                                 // Double Norwich-like
    ("-14-14,12", 6, 2, true, false),                                        // little
    ("-16-14,12", 6, 2, true, false),                                        // little
    ("-1T-1T-1T-1T-1T-1T,12", 12, 2, false, false),                          // Plain Bob Maximus
    ("-3T-14-125T-36-147T-58-169T-70-18-9T-10-ET,12", 12, 5, false, false),  // Cambridge Surprise Maximus
];

/// All sequences of `len` steps (each 0, +1 or -1 or swap partners) that bring bell `b0` back: closed paths
fn closed_paths(n: usize, start: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, start: usize, len: usize, p: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        let at = *p.last().unwrap();
        let left = len - (p.len() - 1);
        if at.abs_diff(start) > left {
            return;
        }
        if left == 0 {
            f(&p[..len]);
            return;
        }
        for d in [-1i64, 0, 1] {
            let x = at as i64 + d;
            if x >= 0 && (x as usize) < n {
                p.push(x as usize);
                go(n, start, len, p, f);
                p.pop();
            }
        }
    }
    go(n, start, len, &mut vec![start], f);
}

/// The changes on `n` bells which take the bells with these `paths` from index `i` to the next (cyclically)
fn compatible(changes: &[Vec<usize>], paths: &[Vec<usize>], i: usize) -> Vec<Vec<usize>> {
    changes
        .iter()
        .filter(|f| {
            paths.iter().all(|p| {
                let (a, b) = (p[i % p.len()], p[(i + 1) % p.len()]);
                // where does the bell in place a go?
                let mut x = 0;
                let mut to = a;
                while x <= a {
                    if f.contains(&x) {
                        x += 1;
                    } else {
                        if x == a {
                            to = a + 1;
                        } else if x + 1 == a {
                            to = a - 1;
                        }
                        x += 2;
                    }
                }
                to == b
            })
        })
        .cloned()
        .collect()
}

/// A treble-dodging path over `dodges` dodging positions starting at place `base`, rotated by `phase`
fn dodging_path(base: usize, dodges: usize, per: usize, phase: usize) -> Vec<usize> {
    let mut up = vec![];
    for d in 0..dodges {
        for _ in 0..per {
            up.extend([base + 2 * d, base + 2 * d + 1]);
        }
    }
    let mut p = up.clone();
    p.extend(up.iter().rev());
    p.rotate_left(phase);
    p
}

fn plain_path(base: usize, places: usize, phase: usize) -> Vec<usize> {
    let up: Vec<usize> = (base..base + places).collect();
    let mut p = up.clone();
    p.extend(up.iter().rev());
    p.rotate_left(phase);
    p
}

/// The lead of a bell on the closed path `p`, the other bells swapping or making places according to `variant`
fn filled(n: usize, p: &[usize], variant: usize) -> Vec<Vec<usize>> {
    (0..p.len())
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (lo, hi) = (a.min(b), a.max(b));
            let mut places = vec![];
            let mut x = 0;
            while x < n {
                let free = |x: usize| x < n && (x < lo || x > hi);
                if x == lo {
                    if a == b {
                        places.push(x);
                    }
                    x = hi + 1;
                } else if free(x) && free(x + 1) && {
                    match variant {
                        0 => true,
                        1 => false,
                        2 => (x + i) % 5 != 0,
                        3 => x < n / 2,
                        // only symmetrically about the middle of the lead
                        4 => (x + i.min(p.len().saturating_sub(2).wrapping_sub(i).min(i + p.len()))) % 7 != 3,
                        _ => x + 3 > n,
                    }
                } {
                    x += 2;
                } else {
                    places.push(x);
                    x += 1;
                }
            }
            places
        })
        .collect()
}

/// Leads on many bells and of many changes, around one hunt bell
fn wide_leads(thorough: bool, f: &mut dyn FnMut(usize, Vec<Vec<usize>>)) {
    let mut stages: Vec<usize> = vec![10, 12, 13, 16, 17, 22, 33, 34, 64, 65, 128, 129, 256, 257];
    if thorough {
        stages.extend([11, 14, 15, 18, 20, 24, 30, 31, 32, 36, 40, 48, 63, 66, 96, 100, 127, 130, 192, 254, 255, 258]);
    }
    for n in stages {
        let mut paths: Vec<Vec<usize>> = vec![];
        for places in [1, 2, 3, 4, n / 2, n - 1, n] {
            for base in [0, 1, (n - places) / 2, n - places] {
                if base + places <= n {
                    for phase in [0, 1, places, 2 * places - 1] {
                        paths.push(plain_path(base, places, phase));
                    }
                }
            }
        }
        for (dodges, per) in [(1, 2), (1, 40), (1, 64), (2, 2), (2, 3), (2, 32), (n / 4, 2), (n / 2, 2), (n / 2, 1), (n / 2, 3)] {
            for base in [0, n - 2 * dodges, (n - 2 * dodges) / 2] {
                for phase in [0, 1, 2 * per - 1, 2 * dodges * per] {
                    paths.push(dodging_path(base, dodges, per, phase % (4 * dodges * per)));
                }
            }
        }
        // Long and unsymmetric paths
        for k in [3usize, 60, 127, 128, 129] {
            let mut p: Vec<usize> = (0..k).flat_map(|i| [i % 2, (i + 1) % 2]).collect();
            paths.push(p.clone());
            p.extend([1, 2, 2, 1]);
            paths.push(p.clone());
            p.extend(vec![0; k]);
            paths.push(p.clone());
            paths.push(vec![n - 1; 2 * k]);
        }
        paths.iter_mut().for_each(|p| if p.last().unwrap().abs_diff(p[0]) > 1 { p.truncate(0) });
        paths.retain(|p| !p.is_empty() && p.windows(2).all(|w| w[0].abs_diff(w[1]) <= 1));
        paths.sort();
        paths.dedup();
        for p in paths {
            for v in 0..if n > 100 && !thorough { 1 } else { 6 } {
                // On many bells, one filling each in turn
                let v = if n > 100 && !thorough { (p.len() / 2 + p[0]) % 6 } else { v };
                f(n, filled(n, &p, v));
            }
        }
    }
}

/// Explores all leads in which bells follow `paths`: all options at the steps `free` selects (up to `cap` options
/// each), one of `variants` fixed fillings elsewhere.
#[allow(clippy::too_many_arguments)]
fn constrained(
    c: &mut Ctx,
    part: &mut Part,
    n: usize,
    paths: &[Vec<usize>],
    free: &dyn Fn(usize) -> bool,
    cap: usize,
    variants: usize,
) {
    let ch = all_changes(n);
    let len = paths[0].len();
    let mut opts: Vec<Vec<Vec<usize>>> = (0..len).map(|i| compatible(&ch, paths, i)).collect();
    if opts.iter().any(|o| o.is_empty()) {
        return;
    }
    let free_steps: Vec<usize> = (0..len).filter(|&i| free(i)).collect();
    for &i in &free_steps {
        // few and many internal places first
        opts[i].sort_by_key(|f| (f.iter().filter(|&&x| x > 0 && x + 1 < n).count(), f.clone()));
        if opts[i].len() > cap {
            let o = &opts[i];
            opts[i] = (0..cap).map(|k| o[k * (o.len() - 1) / (cap - 1).max(1)].clone()).collect();
        }
    }
    let total: usize = free_steps.iter().map(|&i| opts[i].len()).product();
    for v in 0..variants {
        for k in 0..total {
            if !part.mine() {
                continue;
            }
            let mut k2 = k;
            let seq: Vec<Vec<usize>> = (0..len)
                .map(|i| {
                    let o = &opts[i];
                    if free_steps.contains(&i) {
                        let x = k2 % o.len();
                        k2 /= o.len();
                        o[x].clone()
                    } else {
                        o[(v * (i + 1) + v / 2) % o.len()].clone()
                    }
                })
                .collect();
            let deep = k % 97 == 0;
            c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| classify_case(&seq, n, deep, o));
        }
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "A case is one lead of place notation; its class is compared with an independent reading of the documented \
               rules, and (for one case in about fifty and all named ones) again with annotations, built in other ways and \
               through the method constructors.  Distinct by stage, length and class.",
        bounds: |t| {
            json!({"all_leads": lead_bounds(t), "palindromic_leads": "half leads of up to 7 changes on 2-3 bells, 6 on 4, 4 on 5, 3 on 6, 2 on 7, 1 on 8-9 bells (thorough one more)",
                "hunt_paths": "every closed path of one bell: 4 bells up to 10 changes, 5 bells up to 9, 6 bells up to 8 (thorough two longer), four fillings each",
                "treble_dodging": "all changes at the cross sections of dodging paths over 1 to 4 positions on 4, 6 and 8 bells, also of two hunt bells at every relative phase",
                "wide": "on stages 10 to 258: a bell plain hunting, dodging or zigzagging over 1 to n places at several positions and phases, leads of up to 800 changes, six fillings each",
                "plain_hunting": "all leads with a plain hunting treble on up to 5 bells, symmetric ones on 6"})
        },
        assumptions: &["leads are those of place notation from rounds (the classifier does not support jump changes)"],
        units: |t| {
            let mut u = vec![];
            for (n, len) in lead_bounds(t) {
                split_unit(&mut u, &format!("leads-{n}-{len}"), if all_changes(n).len().pow(len as u32) > 5000 { 8 } else { 1 }, move |c, part| {
                    let ch = all_changes(n);
                    let mut k = 0;
                    all_seqs(ch.len(), len, &mut |ix| {
                        if part.mine() {
                            k += 1;
                            let seq: Vec<Vec<usize>> = ix.iter().map(|&i| ch[i].clone()).collect();
                            c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| classify_case(&seq, n, k % 53 == 0, o));
                        }
                    });
                });
            }
            let extra = t.pick(0, 1);
            split_unit(&mut u, "palindromic", 32, move |c, part| {
                for (n, half) in [(2, 7), (3, 7 + extra), (4, 6 + extra), (5, 4 + extra), (6, 3 + extra), (7, 2 + extra), (8, 1 + extra), (9, 1)] {
                    let ch = all_changes(n);
                    for len in 1..=half {
                        all_seqs(ch.len(), len + 2, &mut |ix| {
                            if !part.mine() {
                                return;
                            }
                            let mut seq: Vec<Vec<usize>> = ix[..len].iter().map(|&i| ch[i].clone()).collect();
                            let back: Vec<Vec<usize>> = seq.iter().rev().cloned().collect();
                            seq.push(ch[ix[len]].clone());
                            seq.extend(back);
                            seq.push(ch[ix[len + 1]].clone());
                            let deep = ix.iter().sum::<usize>() % 53 == 0;
                            c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| classify_case(&seq, n, deep, o));
                        });
                    }
                }
            });
            let extra = t.pick(0, 2);
            split_unit(&mut u, "hunt-paths", 32, move |c, part| {
                for (n, max) in [(2, 10 + extra), (3, 10 + extra), (4, 10 + extra), (5, 9 + extra), (6, 8 + extra)] {
                    let ch = all_changes(n);
                    for len in 1..=max {
                        for start in 0..n {
                            closed_paths(n, start, len, &mut |p| {
                                if !part.mine() {
                                    return;
                                }
                                for v in 0..4 {
                                    let seq: Vec<Vec<usize>> = (0..len)
                                        .map(|i| {
                                            let o = compatible(&ch, &[p.to_vec()], i);
                                            o[(v * (2 * i + 1) + (v / 2) * 3) % o.len()].clone()
                                        })
                                        .collect();
                                    c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| classify_case(&seq, n, false, o));
                                }
                            });
                        }
                    }
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "treble-dodging", 32, move |c, part| {
                for n in [4usize, 5, 6, 7, 8] {
                    for dodges in 1..=n / 2 {
                        for per in if n <= 6 { 2..=3 } else { 2..=2 } {
                            for base in 0..=(n - 2 * dodges) {
                                let l = 4 * dodges * per;
                                for phase in 0..l {
                                    if !thorough && n >= 7 && phase % 3 != 0 {
                                        continue;
                                    }
                                    let p = dodging_path(base, dodges, per, phase);
                                    let cross = |i: usize| (p[i] - base) / 2 != (p[(i + 1) % l] - base) / 2;
                                    let cap = match dodges {
                                        4 => 2,
                                        3 if n > 6 => 3,
                                        _ => 4,
                                    };
                                    constrained(c, part, n, &[p.clone()], &cross, cap, if thorough { 8 } else { 4 });
                                    // A second hunt bell elsewhere, at every relative phase
                                    for d2 in 1..=n / 2 {
                                        for base2 in 0..=(n - 2 * d2) {
                                            if l % (4 * d2) != 0 || (base2 < base + 2 * dodges && base < base2 + 2 * d2) {
                                                continue;
                                            }
                                            for phase2 in 0..l {
                                                if !thorough && (phase > 1 || n == 7) {
                                                    continue;
                                                }
                                                let q = dodging_path(base2, d2, l / (4 * d2), phase2);
                                                let cross = |i: usize| {
                                                    let j = (i + 1) % l;
                                                    (p[i] - base) / 2 != (p[j] - base) / 2 || (q[i] - base2) / 2 != (q[j] - base2) / 2
                                                };
                                                constrained(c, part, n, &[p.clone(), q.clone()], &cross, 2, if thorough { 4 } else { 2 });
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "plain-hunting", 32, move |c, part| {
                for n in 3usize..=5 {
                    for places in 2..=n {
                        for base in 0..=(n - places) {
                            for phase in 0..2 * places {
                                if !thorough && n == 5 && phase > 0 && places == 5 {
                                    continue;
                                }
                                let p = plain_path(base, places, phase);
                                constrained(c, part, n, &[p.clone()], &|_| true, if n == 5 && places == 5 { 3 } else { 8 }, 1);
                                // Two or three plain hunters, one after the other
                                for k in 1..2 * places {
                                    let q = plain_path(base, places, (phase + k) % (2 * places));
                                    if q[0] != p[0] {
                                        constrained(c, part, n, &[p.clone(), q], &|_| true, 8, 1);
                                    }
                                }
                                // A hunt bell on a longer path beside it
                                for b2 in 0..n {
                                    constrained(c, part, n, &[p.clone(), vec![b2; 2 * places]], &|_| true, 8, 1);
                                }
                            }
                        }
                    }
                }
                // Symmetric leads of plain methods on 6 bells
                let ch = all_changes(6);
                let p = plain_path(0, 6, 0);
                let opts: Vec<Vec<Vec<usize>>> = (0..12).map(|i| compatible(&ch, &[p.clone()], i)).collect();
                let free = [0, 1, 2, 3, 4, 5, 11];
                let total: usize = free.iter().map(|&i| opts[i].len()).product();
                for k in 0..total {
                    if !part.mine() {
                        continue;
                    }
                    let mut k2 = k;
                    let mut seq = vec![vec![]; 12];
                    for &i in &free {
                        seq[i] = opts[i][k2 % opts[i].len()].clone();
                        k2 /= opts[i].len();
                    }
                    for i in 0..5 {
                        seq[10 - i] = seq[i].clone();
                    }
                    c.case(|| format!("lead {} on 6 bells", pns(&seq)), |o| classify_case(&seq, 6, k % 97 == 0, o));
                }
            });
            split_unit(&mut u, "wide", 64, move |c, part| {
                wide_leads(thorough, &mut |n, seq| {
                    if part.mine() {
                        c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| classify_case(&seq, n, false, o));
                    }
                });
            });
            u.push(unit("published", |c| {
                for (pn, n, class, little, diff) in PUBLISHED {
                    c.case(|| format!("{pn:?} on {n} bells"), |o| {
                        let (changes, rows) = parse_lead(pn, *n)?;
                        let got = FullClass::classify(&block_of(&rows));
                        let want = Cls { jump: false, little: *little, diff: *diff, class: *class };
                        ensure!(got == want.real(), "got {got:?}, expected {}", class_text(want));
                        classify_case(&changes, *n, true, o)
                    });
                }
                for (pn, n) in METHODS {
                    c.case(|| format!("{pn:?} on {n} bells and rotations"), |o| {
                        let (mut changes, _) = parse_lead(pn, *n)?;
                        for _ in 0..changes.len() {
                            classify_case(&changes, *n, true, o)?;
                            changes.rotate_left(1);
                        }
                        for k in 1..changes.len() {
                            classify_case(&changes[..k], *n, true, o)?;
                        }
                        let twice = [changes.clone(), changes.clone()].concat();
                        classify_case(&twice, *n, true, o)
                    });
                }
                for n in wide_stages(false) {
                    c.case(|| format!("plain methods on {n} bells"), |o| {
                        if n < 4 || n > 70 {
                            return Ok(());
                        }
                        let (a, b) = if n % 2 == 0 { (vec![], vec![0, n - 1]) } else { (vec![n - 1], vec![0]) };
                        let mut seq = vec![];
                        for i in 0..2 * n {
                            seq.push(if i % 2 == 0 { a.clone() } else { b.clone() });
                        }
                        let last = 2 * n - 1;
                        for le in [vec![0, n - 1], vec![0], vec![0, 1], vec![0, 1, n - 1], vec![0, 1, 2, n - 1], vec![0, 1, 2]] {
                            if let Ok(f) = meaning(&le, n) {
                                seq[last] = f;
                                classify_case(&seq, n, true, o)?;
                            }
                        }
                        Ok(())
                    });
                }
            }));
            u
        },
    }
}

fn lead_bounds(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (n, q, th) in [(1, 10, 12), (2, 12, 16), (3, 11, 13), (4, 8, 9), (5, 6, 7), (6, 5, 6), (7, 4, 5), (8, 4, 4), (9, 2, 3), (10, 2, 3)] {
        for len in 1..=t.pick(q, th) {
            v.push((n, len));
        }
    }
    v
}

fn parse_lead(pn: &str, n: usize) -> Result<(Vec<Vec<usize>>, Vec<Perm>), String> {
    let changes = super::pn_block::denote(pn, n).map_err(|e| format!("bad test data {pn:?}: {e:?}"))?;
    let rows = ring(&identity(n), &changes);
    Ok((changes, rows))
}

// --------------------------------------------------------------------------------------------- C16

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "A case is a name with a stage, all 72 classes being tried; titles, class names and predicates are compared with \
               an independent composition.  Distinct by title.",
        bounds: |t| json!({"classes": 72, "stages": wide_stages(t.thorough()), "names": NAMES_TO_TRY.len(), "short_names": "all strings of up to 3 over 'a B space é'"}),
        assumptions: &[],
        units: |t| {
            let mut u = vec![];
            let thorough = t.thorough();
            split_unit(&mut u, "titles", 8, move |c, part| {
                let mut stages = wide_stages(thorough);
                stages.extend([10_000, 1 << 20, 1 << 40, usize::MAX]);
                for n in stages {
                    for name in NAMES_TO_TRY {
                        if part.mine() {
                            c.case(|| format!("name {name:?}, {n} bells"), |o| title_case(name, n, o));
                        }
                    }
                }
                all_strings(&['a', 'B', ' ', 'é'], 3, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("name {s:?}, all named stages"), |o| {
                            for n in 1..=24 {
                                title_case(&s, n, o)?;
                            }
                            Ok(())
                        });
                    }
                });
            });
            u.push(unit("class-names", |c| {
                for x in Cls::all() {
                    c.case(|| format!("{x:?}"), |o| {
                        let f = x.real();
                        eq!(f.to_string(), x.words(false).join(" "), "Display");
                        eq!((f.is_jump(), f.is_little(), f.is_differential()), (x.jump, x.little, x.diff), "flags");
                        eq!(f.class(), CLASSES[x.class], "class");
                        eq!(f.class().to_string(), CLASS_NAMES[x.class], "class Display");
                        eq!(f.class().name(), CLASS_NAMES[x.class], "class name");
                        let silent = x.class == 0 || x.class == 8;
                        eq!(f.class().name_in_title(), if silent { None } else { Some(CLASS_NAMES[x.class]) }, "name_in_title");
                        eq!(f.class().is_plain(), [1, 2].contains(&x.class), "is_plain");
                        eq!(f.class().is_treble_dodging(), [3, 4, 5].contains(&x.class), "is_treble_dodging");
                        eq!(f.class().is_symmetric_hunter(), (1..=7).contains(&x.class), "is_symmetric_hunter");
                        use HuntBellClass::*;
                        let hb = [None, Some(Plain), Some(Plain), Some(TrebleDodging), Some(TrebleDodging), Some(TrebleDodging), Some(TreblePlace), Some(Alliance), Some(Hybrid)];
                        eq!(f.class().hunt_bell_class(), hb[x.class], "hunt_bell_class");
                        for y in Cls::all() {
                            eq!(f == y.real(), x == y, "equality with {y:?}");
                            eq!(f.to_string() == y.real().to_string(), x == y, "equality of names with {y:?}");
                            if f == y.real() {
                                eq!(hash_of(&f), hash_of(&y.real()), "hash");
                            }
                        }
                        o.step(90);
                        o.see(&f.to_string());
                        Ok(())
                    });
                }
                c.case(|| "dominance order".into(), |o| {
                    use HuntBellClass::*;
                    let v = [Plain, TrebleDodging, TreblePlace, Alliance, Hybrid];
                    for i in 0..5 {
                        for j in 0..5 {
                            eq!(v[i].cmp(&v[j]), i.cmp(&j), "order of {:?} and {:?}", v[i], v[j]);
                            eq!(v[i] == v[j], i == j, "equality of {:?} and {:?}", v[i], v[j]);
                        }
                    }
                    o.see("order");
                    Ok(())
                });
            }));
            // Titles of real methods, through every constructor
            split_unit(&mut u, "constructors", 4, |c, part| {
                for n in 1..=5 {
                    let ch = all_changes(n);
                    for len in 1..=3 {
                        all_seqs(ch.len(), len, &mut |ix| {
                            if !part.mine() {
                                return;
                            }
                            let seq: Vec<Vec<usize>> = ix.iter().map(|&i| ch[i].clone()).collect();
                            c.case(|| format!("methods with lead {} on {n} bells", pns(&seq)), |o| {
                                let b = make_block(&seq, n)?;
                                let class = FullClass::classify(&b.to_block_from_rounds::<()>());
                                for name in ["", "Ab", "a b ", "ß€"] {
                                    let want = Cls::all().into_iter().find(|x| x.real() == class).unwrap().title(name, n);
                                    o.see(&want);
                                    for m in [
                                        Method::with_name(name.into(), b.to_block_from_rounds()),
                                        Method::with_lead_end(name.into(), &b),
                                        Method::from_place_not_string(name.into(), stage(n), &format!("+{}", pns(&seq))).map_err(|e| e.to_string())?,
                                    ] {
                                        eq!(m.title(), want, "title");
                                        eq!(m.name(), name, "name");
                                        o.step(2);
                                    }
                                }
                                Ok(())
                            });
                        });
                    }
                }
            });
            u
        },
    }
}

const NAMES_TO_TRY: &[&str] = &[
    "", "Bristol", "Plain", "St Clement's College", "two  spaces", " leading", "trailing ", " ", "Ünï cödé", "日本語", "Little", "Jump",
    "Differential Little", "Surprise", "Minor", "Principle", "Hybrid", "a", "\n", "\0", "e\u{301}", "Cambridge Surprise Major", "{}", "%s",
];

fn title_case(name: &str, n: usize, o: &mut Obs) -> Result<(), String> {
    for x in Cls::all() {
        let got = generate_title(name, x.real(), stage(n));
        eq!(got, x.title(name, n), "title of {name:?}, {x:?}, {n} bells");
        o.step(1);
    }
    o.see(&(name, n));
    Ok(())
}

// --------------------------------------------------------------------------------------------- C14

/// The model of a method
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    rows: Vec<Perm>,
    labels: Vec<Option<String>>,
}

impl M {
    fn len(&self) -> usize {
        self.labels.len()
    }
    fn head(&self) -> &Perm {
        self.rows.last().unwrap()
    }
    fn course(&self) -> (Vec<Perm>, Vec<usize>) {
        let (mut rows, mut idx) = (vec![], vec![]);
        let mut start = identity(self.rows[0].len());
        loop {
            for i in 0..self.len() {
                rows.push(mul(&start, &self.rows[i]));
                idx.push(i);
            }
            start = mul(&start, self.head());
            if start == identity(start.len()) {
                rows.push(start);
                return (rows, idx);
            }
        }
    }
}

fn check_labels(m: &Method, w: &M, o: &mut Obs) -> Result<(), String> {
    let mut words: Vec<String> = ["LE", "", "a", "b", "le", "nowhere"].iter().map(|s| s.to_string()).collect();
    for (i, l) in w.labels.iter().enumerate() {
        eq!(m.get_label(i), l.as_deref(), "get_label({i})");
        eq!(m.first_lead().get_annot(i).cloned(), Some(l.clone()), "annotation {i} of the first lead");
        if let Some(l) = l {
            if !words.contains(l) {
                words.push(l.clone());
            }
        }
    }
    for word in &words {
        let want: Vec<usize> = (0..w.len()).filter(|&i| w.labels[i].as_deref() == Some(word)).collect();
        eq!(m.label_indices(word).collect::<Vec<_>>(), want, "label_indices({word:?})");
        let mut it = m.label_indices(word);
        for x in &want {
            eq!(it.next(), Some(*x), "label_indices({word:?}) one by one");
        }
        eq!(it.next(), None, "end of label_indices({word:?})");
    }
    o.step(w.len() as u64 * 2 + words.len() as u64);
    Ok(())
}

fn check_method(m: &Method, w: &M, deep: bool, o: &mut Obs) -> Result<(), String> {
    let n = w.rows[0].len();
    eq!(m.stage().num_bells(), n, "stage");
    eq!(m.lead_len(), w.len(), "lead_len");
    eq!(perm(m.lead_head()), *w.head(), "lead_head");
    eq!(ssv_perms(m.first_lead().row_vec()), w.rows, "rows of the first lead");
    eq!(ssv_perms(m.lead().row_vec()), w.rows, "rows of lead()");
    check_labels(m, w, o)?;
    for i in 0..w.rows.len() {
        eq!(perm(m.row_in_plain_lead(i)), w.rows[i], "row_in_plain_lead({i})");
    }
    ensure!(panics(|| m.row_in_plain_lead(w.rows.len()).to_owned()), "row_in_plain_lead accepts {}", w.rows.len());
    let (rows, idx) = w.course();
    let pc = m.plain_course();
    eq!(pc.len(), idx.len(), "length of the plain course");
    eq!(ssv_perms(pc.row_vec()), rows, "rows of the plain course");
    eq!(pc.annots().map(|a| a.sub_lead_idx()).collect::<Vec<_>>(), idx, "indices of the plain course");
    eq!(
        pc.annots().map(|a| a.label().map(str::to_owned)).collect::<Vec<_>>(),
        idx.iter().map(|&i| w.labels[i].clone()).collect::<Vec<_>>(),
        "labels of the plain course"
    );
    let l = idx.len();
    let every = if n > 16 && l > 400 { vec![0, 1, w.len() - 1, w.len(), w.len() + 1, 2 * w.len() + w.len() / 2, 255, 256, 257, l - 1, l, l + 1, l + l / 2, 2 * l] } else { (0..(2 * l + w.len() + 1).min(4000)).collect() };
    let ends = [w.len() - 1, w.len(), 65_535, 65_536, 65_537, l - 1, l, l + 1];
    for i in every.into_iter().chain(ends) {
        eq!(perm(&m.row_in_plain_course(i)), rows[i % l], "row_in_plain_course({i})");
    }
    if deep {
        for i in [l * 100, l * 100 - 1, l * 99 + l / 2, 255, 256, 257, 511, 512, 1023, 1024] {
            eq!(perm(&m.row_in_plain_course(i)), rows[i % l], "row_in_plain_course({i})");
        }
    }
    let other = AnnotBlock::with_annots_from_indices(ssv(n + 1, &[identity(n + 1), (0..=n).rev().collect()]), |_| Some("ZZ".to_owned())).unwrap();
    let old = Method::new("Another Title".into(), "Another".into(), Cls::all()[7].real(), other);
    super::copies(m, [old], |c| {
        eq!((c.title(), c.name(), c.stage(), c.lead_len()), (m.title(), m.name(), m.stage(), m.lead_len()), "clone");
        eq!(ssv_perms(c.first_lead().row_vec()), w.rows, "rows of a copy");
        eq!(perm(c.lead_head()), *w.head(), "lead head of a copy");
        if n <= 16 && w.len() < 64 {
            eq!(format!("{c:?}"), format!("{m:?}"), "Debug of a copy");
        }
        check_labels(c, w, &mut Obs::default())
    })?;
    o.step(10 + w.rows.len() as u64 + 2 * l as u64);
    o.see(&(l, w));
    Ok(())
}

fn label_pattern(k: usize, len: usize) -> Vec<Option<String>> {
    (0..len)
        .map(|i| match (k, (i + k) % 4) {
            (0, _) => None,
            (_, 0) => Some("LE".to_owned()),
            (_, 1) => None,
            (_, 2) => Some("a".to_owned()),
            _ => Some(format!("b{}", i % 2)),
        })
        .collect()
}

fn lead_case(rows: &[Perm], k: usize, deep: bool, o: &mut Obs) -> Result<(), String> {
    let n = rows[0].len();
    let labels = label_pattern(k, rows.len() - 1);
    let w = M { rows: rows.to_vec(), labels: labels.clone() };
    let lead: AnnotBlock<Option<String>> = AnnotBlock::with_annots_from_indices(ssv(n, rows), |i| labels[i].clone()).unwrap();
    // with_name classifies, which is only defined for place notation; `new` takes anything
    let all = Cls::all();
    let cls = all[(k * 31 + rows.len() * 7 + n) % all.len()];
    let m = Method::new("The Title".into(), "A Name".into(), cls.real(), lead);
    eq!((m.title(), m.name()), ("The Title", "A Name"), "title and name");
    check_debug_class(&m, cls)?;
    check_method(&m, &w, deep, o)
}

fn changes_case(changes: &[Vec<usize>], n: usize, deep: bool, o: &mut Obs) -> Result<(), String> {
    let rows = ring(&identity(n), changes);
    let b = make_block(changes, n)?;
    let len = changes.len();
    let mut labels = vec![None; len];
    let blank = M { rows: rows.clone(), labels: labels.clone() };
    let text = format!("+{}", pns(changes));
    if n <= 33 {
        let m = Method::from_place_not_string("N".into(), stage(n), &text).map_err(|e| format!("{text}: {e}"))?;
        eq!(m.name(), "N", "name");
        check_method(&m, &blank, deep, o)?;
    }
    let lead: AnnotBlock<Option<String>> = b.to_block_from_rounds();
    let m = Method::with_name("N".into(), lead);
    check_method(&m, &blank, false, o)?;
    labels[len - 1] = Some(LABEL_LEAD_END.to_owned());
    let m = Method::with_lead_end("N".into(), &b);
    eq!(m.name(), "N", "name");
    check_method(&m, &M { rows: rows.clone(), labels }, false, o)?;
    for k in 0..4 {
        lead_case(&rows, k, deep, o)?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, Option<&'static str>),
    LeadEnd,
    Bad(usize),
}

struct Labels {
    max: usize,
}

#[derive(Clone)]
struct St {
    m: Method,
    w: M,
}

impl System for Labels {
    type State = St;
    type Op = Op;
    type Key = M;
    fn key(&self, s: &St) -> M {
        s.w.clone()
    }
    fn describe(&self, s: &St) -> String {
        format!("{:?}", s.w)
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::LeadEnd, Op::Bad(s.w.len()), Op::Bad(s.w.len() + 1), Op::Bad(usize::MAX)];
        for i in 0..s.w.len().min(self.max) {
            for l in [None, Some("LE"), Some(""), Some("a"), Some("é b")] {
                v.push(Op::Set(i, l));
            }
        }
        v
    }
    fn apply(&self, s: &St, op: &Op, o: &mut Obs) -> Result<St, String> {
        let mut t = s.clone();
        match op {
            Op::Set(i, l) => {
                t.m.set_label(*i, l.map(str::to_owned));
                t.w.labels[*i] = l.map(str::to_owned);
            }
            Op::LeadEnd => {
                t.m.set_lead_end_label();
                t.w.labels[0] = Some("LE".to_owned());
            }
            Op::Bad(i) => {
                let m = &mut t.m;
                ensure!(panics(|| m.set_label(*i, Some("bad".into()))), "set_label({i}) accepted");
                ensure!(panics(|| m.get_label(*i).map(str::to_owned)), "get_label({i}) accepted");
            }
        }
        check_method(&t.m, &t.w, false, o)?;
        Ok(t)
    }
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "A case is a lead (with several label layouts, through every constructor) or one step of a sequence of label \
               operations; the plain course, every row lookup over two courses and all label queries are compared with \
               repeating the lead on plain vectors.  Distinct by rows and labels.",
        bounds: |t| {
            json!({"leads_of_place_notation": "all of 1..=5 changes on 1-4 bells, 4 on 5 bells, 3 on 6 bells, 2 on 7-8 bells (thorough one more on 3, 4 and 7 bells)",
                "leads_of_any_rows": "all of 1-4 rows on 3 bells, 1-2 on 4 bells (thorough one more)", "label_sequences_depth": t.pick(4, 5), "known_methods": METHODS.len(), "huge": "leads of up to 70000 rows; a plain course of 120120 leads"})
        },
        assumptions: &["leads start from rounds and have at least one change"],
        units: |t| {
            let mut u = vec![];
            let extra = t.pick(0, 1);
            split_unit(&mut u, "leads", 32, move |c, part| {
                for (n, max) in [(1, 5), (2, 6), (3, 6 + extra), (4, 5 + extra), (5, 4), (6, 3), (7, 2 + extra), (8, 2)] {
                    let ch = all_changes(n);
                    for len in 1..=max {
                        all_seqs(ch.len(), len, &mut |ix| {
                            if part.mine() {
                                let seq: Vec<Vec<usize>> = ix.iter().map(|&i| ch[i].clone()).collect();
                                c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| changes_case(&seq, n, true, o));
                            }
                        });
                    }
                }
            });
            split_unit(&mut u, "any-rows", 16, move |c, part| {
                for (n, max) in [(1, 3), (2, 6), (3, 4 + extra), (4, 2 + extra)] {
                    let ps = all_perms(n);
                    for len in 1..=max {
                        all_seqs(ps.len(), len, &mut |ix| {
                            if part.mine() {
                                let mut rows = vec![identity(n)];
                                rows.extend(ix.iter().map(|&i| ps[i].clone()));
                                for k in 0..3 {
                                    c.case(|| format!("lead {rows:?}, labels {k}"), |o| lead_case(&rows, k, true, o));
                                }
                            }
                        });
                    }
                }
                // Lead heads with interesting orders
                for n in [5, 7, 8, 9, 10, 12, 16, 33, 34, 64, 65] {
                    for p in small_family(n) {
                        if part.mine() {
                            if order(&p) > 1000 {
                                continue;
                            }
                            let rows = vec![identity(n), family(n)[1 % family(n).len()].clone(), p.clone()];
                            c.case(|| format!("lead {rows:?}"), |o| lead_case(&rows, 1, true, o));
                            let rows = vec![identity(n), p];
                            c.case(|| format!("lead {rows:?}"), |o| lead_case(&rows, 0, true, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "wide", 32, move |c, part| {
                wide_leads(t.thorough(), &mut |n, seq| {
                    let rows = ring(&identity(n), &seq);
                    let leads = order(rows.last().unwrap());
                    if leads.saturating_mul(seq.len()) > t.pick(6_000, 60_000) || leads.saturating_mul(seq.len()).saturating_mul(n) > t.pick(200_000, 4_000_000) {
                        return;
                    }
                    if part.mine() {
                        c.case(|| format!("lead {} on {n} bells", pns(&seq)), |o| {
                            for k in [1, 2] {
                                lead_case(&rows, k, false, o)?;
                            }
                            let mut labels = vec![None; seq.len()];
                            let b = make_block(&seq, n)?;
                            labels[seq.len() - 1] = Some(LABEL_LEAD_END.to_owned());
                            let m = Method::with_lead_end("N".into(), &b);
                            eq!(m.title(), classify(&rows).title("N", n), "title");
                            check_method(&m, &M { rows: rows.clone(), labels }, false, o)
                        });
                    }
                });
            });
            split_unit(&mut u, "huge", 8, |c, part| {
                // Leads of more rows, and courses of more leads, than fit into 16 bits
                for (n, len) in [(2usize, 65_535usize), (2, 65_536), (3, 65_537), (4, 70_000)] {
                    for k in [1, 3] {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("lead of {len} rows on {n} bells"), |o| {
                            let mut rows = vec![identity(n)];
                            rows.extend(super::ssv::long_list(n, len, k));
                            lead_case(&rows, k, false, o)
                        });
                    }
                }
                if part.mine() {
                    c.case(|| "course of 120120 leads".into(), |o| {
                        // Cycles of 3, 5, 7, 8, 11 and 13 bells
                        let mut head = vec![];
                        for l in [3usize, 5, 7, 8, 11, 13] {
                            let at = head.len();
                            head.extend((0..l).map(|i| at + (i + 1) % l));
                        }
                        let rows = [identity(head.len()), head];
                        lead_case(&rows, 1, false, o)
                    });
                }
            });
            let depth = t.pick(4, 5);
            for (name, pn, n) in [("plain-bob-4", "x14x14,12", 4), ("one-change", "1", 3), ("grandsire-5", "3,1.5.1.5.1", 5), ("two", "x1", 2)] {
                u.push(unit(format!("labels-{name}"), move |c| {
                    let (changes, rows) = parse_lead(pn, n).expect("test data");
                    let b = make_block(&changes, n).expect("test data");
                    let mut inits = vec![];
                    let labels: Vec<Option<String>> = vec![None; changes.len()];
                    inits.push(("with_name".to_owned(), St { m: Method::with_name("x".into(), b.to_block_from_rounds()), w: M { rows: rows.clone(), labels: labels.clone() } }));
                    let mut l2 = labels;
                    *l2.last_mut().unwrap() = Some("LE".into());
                    inits.push(("with_lead_end".to_owned(), St { m: Method::with_lead_end("x".into(), &b), w: M { rows, labels: l2 } }));
                    explore(c, &Labels { max: 4 }, inits, depth, 200_000, true);
                }));
            }
            split_unit(&mut u, "known-methods", 8, |c, part| {
                for (pn, n) in METHODS.iter().copied().chain(PUBLISHED.iter().map(|p| (p.0, p.1))) {
                    if part.mine() {
                        c.case(|| format!("{pn:?} on {n} bells"), |o| {
                            let (changes, rows) = parse_lead(pn, n)?;
                            let m = Method::from_place_not_string("Q".into(), stage(n), pn).map_err(|e| e.to_string())?;
                            // (far lookups are linear in the number of leads)
                            let w = M { rows, labels: vec![None; changes.len()] };
                            let course = w.course().0;
                            let l = course.len() - 1;
                            for i in [l * 1000, l * 1000 - 1, l * 999 + l / 2, 65535, 65536, 65537, 100_003] {
                                eq!(perm(&m.row_in_plain_course(i)), course[i % l], "row_in_plain_course({i})");
                            }
                            check_method(&m, &w, true, o)?;
                            changes_case(&changes, n, true, o)
                        });
                        c.case(|| format!("bad notations near {pn:?} on {n} bells"), |o| {
                            for bad in [format!("{pn}++"), String::new(), format!("{pn}.{}", NAMES[n]), ".".into()] {
                                let want = PnBlock::parse(&bad, stage(n)).err().map(|e| format!("{e:?}"));
                                let got = Method::from_place_not_string("Q".into(), stage(n), &bad).err().map(|e| format!("{e:?}"));
                                eq!(got, want, "refusal of {bad:?}");
                                o.see(&got);
                            }
                            Ok(())
                        });
                    }
                }
            });
            u
        },
    }
}
