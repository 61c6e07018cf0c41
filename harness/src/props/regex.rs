//! C19: music patterns.  C20: counting their matches.  C21: runs.

use super::*;
use crate::model::*;
use bellframe::music::{Regex, RegexElem};
use serde_json::json;

/// A pattern element: `B(i)` is the bell with index `i`
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    B(usize),
    X,
    G,
}
use E::*;

pub fn elem(e: E) -> RegexElem {
    match e {
        B(i) => RegexElem::Bell(bell(i)),
        X => RegexElem::Any,
        G => RegexElem::Glob,
    }
}

pub fn elem_of(e: &RegexElem) -> E {
    match e {
        RegexElem::Bell(b) => B(b.index()),
        RegexElem::Any => X,
        RegexElem::Glob => G,
    }
}

pub fn text(p: &[E]) -> String {
    p.iter()
        .map(|e| match e {
            B(i) => bell_text(*i),
            X => "x".into(),
            G => "*".into(),
        })
        .collect()
}

/// Can the row be cut up as the pattern says?
pub fn matches(p: &[E], r: &[usize]) -> bool {
    // The set of prefixes of the row which the pattern so far can match
    let n = r.len();
    if n < 63 {
        // Bit i: the first i bells
        let all = (1u64 << (n + 1)) - 1;
        let mut at = 1u64;
        for e in p {
            at = match e {
                B(b) => (at & r.iter().position(|x| x == b).map_or(0, |i| 1 << i)) << 1,
                X => (at << 1) & all,
                G if at == 0 => 0,
                G => all & !((1u64 << at.trailing_zeros()) - 1),
            };
        }
        return at >> n & 1 == 1;
    }
    let mut at = vec![false; n + 1];
    at[0] = true;
    for e in p {
        let mut next = vec![false; n + 1];
        match e {
            B(b) => (0..n).for_each(|i| next[i + 1] = at[i] && r[i] == *b),
            X => (0..n).for_each(|i| next[i + 1] = at[i]),
            G => {
                let mut any = false;
                for i in 0..=n {
                    any |= at[i];
                    next[i] = any;
                }
            }
        }
        at = next;
    }
    at[n]
}

/// Between bells: wildcards, then at most one glob
pub fn normal(p: &[E]) -> Vec<E> {
    let mut out = vec![];
    for chunk in p.split_inclusive(|e| matches!(e, B(_))) {
        out.extend(chunk.iter().filter(|e| **e == X));
        if chunk.contains(&G) {
            out.push(G);
        }
        out.extend(chunk.iter().filter(|e| matches!(e, B(_))));
    }
    out
}

pub fn positions(p: &[E], r: &[usize]) -> Option<Vec<usize>> {
    matches(p, r).then(|| {
        p.iter()
            .filter_map(|e| match e {
                B(b) => r.iter().position(|x| x == b),
                _ => None,
            })
            .collect()
    })
}

fn check_regex(re: &Regex, p: &[E], what: &str) -> Result<(), String> {
    let got: Vec<E> = re.elems().iter().map(elem_of).collect();
    eq!(got, normal(p), "elements of {what}");
    eq!(format!("{re:?}"), format!("Regex({})", text(&got)), "Debug of {what}");
    for (x, e) in re.elems().iter().zip(&got) {
        eq!((x.bell().map(|b| b.index()), x.to_string()), (if let B(i) = e { Some(*i) } else { None }, text(&[*e])), "element {e:?}");
    }
    Ok(())
}

fn pattern_case(p: &[E], rows: &[Perm], o: &mut Obs) -> Result<(), String> {
    let re = Regex::from_elems(p.iter().map(|e| elem(*e)));
    check_regex(&re, p, "from_elems")?;
    let v = Regex::from_vec(p.iter().map(|e| elem(*e)).collect());
    ensure!(re == v && hash_of(&re) == hash_of(&v), "from_vec gave {v:?}, from_elems {re:?}");
    let elems: Vec<_> = normal(p).iter().map(|e| elem(*e)).collect();
    eq!(unsafe { Regex::from_vec_unchecked(elems.clone()) }, re, "from_vec_unchecked");
    eq!(unsafe { Regex::from_elems_unchecked(elems) }, re, "from_elems_unchecked");
    let mut twice = re.clone();
    twice.normalise();
    eq!(twice, re, "normalising again");
    super::copies(&re, [Regex::parse("*1"), Regex::parse("x*2x*3456*78"), Regex::parse(""), v], |c| {
        super::check_eq(c, &re, true)?;
        ensure!(hash_of(c) == hash_of(&re), "hash of a copy");
        check_regex(c, p, "a copy")
    })?;
    let shown = text(&normal(p));
    eq!(re.to_string(), shown, "display");
    if p.iter().all(|e| !matches!(e, B(i) if *i >= 33)) {
        eq!(Regex::parse(&shown), re, "parsing the displayed pattern");
        eq!(Regex::parse(&text(p)), re, "parsing the pattern as written");
    }
    for r in rows {
        let real = row(r);
        let want = positions(p, r);
        eq!(re.matches(&real), want.is_some(), "{} on {}", text(p), row_text(r));
        eq!(re.match_pattern(&real), want, "positions of {} on {}", text(p), row_text(r));
        if let Some(w) = want {
            o.see(&(r, w));
        }
    }
    o.step(5 + 2 * rows.len() as u64);
    Ok(())
}

fn parse_case(s: &str, o: &mut Obs) -> Result<(), String> {
    let p: Vec<E> = s
        .chars()
        .filter_map(|c| match c {
            'x' | '.' => Some(X),
            '*' => Some(G),
            c => bell_of_char(c).map(B),
        })
        .collect();
    let re = Regex::parse(s);
    o.step(1);
    o.see(&normal(&p));
    check_regex(&re, &p, "parse")
}

fn seqs(elems: &[E], max: usize, f: &mut dyn FnMut(Vec<E>)) {
    for len in 0..=max {
        all_seqs(elems.len(), len, &mut |s| f(s.iter().map(|&i| elems[i]).collect()));
    }
}

/// Patterns which nearly match `r`, in structured ways
fn structured(r: &[usize]) -> Vec<Vec<E>> {
    let n = r.len();
    let mut v: Vec<Vec<E>> = vec![];
    let full: Vec<E> = r.iter().map(|b| B(*b)).collect();
    let mut cuts = boundary_places(n);
    cuts.push(n);
    for &k in &cuts {
        let (a, b) = (&full[..k], &full[k..]);
        v.push([a, &[G]].concat());
        v.push([&[G], b].concat());
        v.push([&vec![X; k][..], b].concat());
        v.push([a, &vec![X; n - k]].concat());
        v.push([a, &vec![X; n - k + 1]].concat());
        v.push([a, &vec![X; n - k], &[G]].concat());
        v.push([a, &[G, X, G], &vec![X; n - k]].concat());
        v.push([a, &[G], b].concat());
        v.push([a, &[X], b].concat());
        v.push([&[G], a].concat());
        v.push([b, &[G]].concat());
        if k < n {
            v.push([a, &[X], &full[k + 1..]].concat());
            v.push([a, &[G], &full[k + 1..]].concat());
            v.push([a, &[X, X], &full[k + 1..]].concat());
            v.push([a, &full[k + 1..]].concat());
            v.push(vec![G, full[k], G]);
            v.push([&vec![X; k][..], &[full[k], G]].concat());
            v.push([&vec![X; k + 1][..], &[full[k], G]].concat());
            v.push(vec![G, full[k], X, G]);
            v.push(vec![full[0], G, full[k], G, full[n - 1]]);
            v.push(vec![G, full[k], G, full[0], G]);
            v.push(vec![G, full[k], G, full[k], G]);
        }
        if k > 0 && k < n {
            v.push(vec![G, full[k - 1], full[k], G]);
            v.push(vec![G, full[k - 1], X, full[k], G]);
            v.push(vec![G, full[k], full[k - 1], G]);
        }
    }
    v.push(vec![G, B(n), G]);
    v.push([&full[..], &[B(n)]].concat());
    v.push([&[B(n), G], &full[..]].concat());
    v.push(vec![X; n]);
    v.push(vec![X; n + 1]);
    v.push(full.iter().flat_map(|b| [G, *b]).chain([G]).collect());
    v.push(full.iter().flat_map(|b| [*b, G, X, G]).collect());
    v
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "A case is one pattern with all its rows: its normal form, equality of all ways of making it, display/parse and the \
               match (with positions) of every row are compared with a simulation on sets of prefixes.  Distinct by row and \
               match positions.",
        bounds: |t| {
            json!({"patterns": [{"elements": "bells 1-4, 5, wildcard, glob", "length": [0, t.pick(7, 8)], "rows": "all on 1 to 4 bells"},
                {"elements": "bells 1, 3, 5, wildcard, glob", "length": [0, t.pick(7, 8)], "rows": "all on 5 bells"},
                {"elements": "bell 1, wildcard, glob", "length": [0, t.pick(10, 12)], "rows": "all on 3 and 5 bells"}],
                "texts": {"alphabet": "1 2 x . * X space é -", "length": [0, t.pick(6, 7)]},
                "structured": "about 25 patterns per boundary place for structured rows on wide stages"})
        },
        assumptions: &["display and parse are inverse for bells with names (1 to Z)"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(7, 8);
            split_unit(&mut u, "patterns-1-to-4", 32, move |c, part| {
                let rows: Vec<Perm> = (1..=4).flat_map(all_perms).collect();
                seqs(&[B(0), B(1), B(2), B(3), B(4), X, G], max, &mut |p| {
                    if part.mine() {
                        c.case(|| format!("pattern {}", text(&p)), |o| pattern_case(&p, &rows, o));
                    }
                });
            });
            split_unit(&mut u, "patterns-5", 32, move |c, part| {
                let rows = all_perms(5);
                seqs(&[B(0), B(2), B(4), X, G], max, &mut |p| {
                    if part.mine() {
                        c.case(|| format!("pattern {}", text(&p)), |o| pattern_case(&p, &rows, o));
                    }
                });
            });
            let long = t.pick(10, 12);
            split_unit(&mut u, "patterns-long", 16, move |c, part| {
                let mut rows = all_perms(3);
                rows.extend(all_perms(5).into_iter().step_by(7));
                rows.extend([identity(9), identity(10), identity(11)]);
                seqs(&[B(0), X, G], long, &mut |p| {
                    if part.mine() {
                        c.case(|| format!("pattern {}", text(&p)), |o| pattern_case(&p, &rows, o));
                    }
                });
            });
            let tmax = t.pick(6, 7);
            split_unit(&mut u, "texts", 16, move |c, part| {
                all_strings(&['1', '2', 'x', '.', '*', 'X', ' ', 'é', '-'], tmax, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                    }
                });
                for ch in ('\0'..='\u{2ffff}').filter(|c| (*c as u32) < 0x3000 || (*c as u32) % 97 == 0) {
                    if part.mine() {
                        for s in [ch.to_string(), format!("1{ch}*"), format!("x*{ch}x")] {
                            c.case(|| format!("text {s:?}"), |o| parse_case(&s, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "structured", 32, move |c, part| {
                for n in wide_stages(t.thorough()) {
                    let f = small_family(n);
                    for r in &f {
                        if !part.mine() {
                            continue;
                        }
                        let rows = vec![r.clone(), identity(n), (0..n).rev().collect(), f[f.len() / 2].clone(), identity(n + 1)];
                        let ps = structured(r);
                        let step = if n > 70 { 5 } else { 1 };
                        for p in ps.into_iter().skip(r[0] % step).step_by(step) {
                            c.case(|| format!("pattern {} around {}", text(&p), row_text(r)), |o| pattern_case(&p, &rows, o));
                        }
                    }
                }
            });
            u
        },
    }
}

// ---------------------------------------------------------------------------------------------

/// Exact count (`None`: more than fits), and whether all factorials the count is made of fit as well
fn count(p: &[E], n: usize) -> (Option<u64>, bool) {
    let p = normal(p);
    let mut seen = vec![];
    for e in &p {
        if let B(b) = e {
            if *b >= n || seen.contains(b) {
                return (Some(0), true);
            }
            seen.push(*b);
        }
    }
    let x = p.iter().filter(|e| **e == X).count();
    let g = p.iter().filter(|e| **e == G).count();
    let free = n - seen.len();
    if x > free || (g == 0 && x < free) {
        return (Some(0), true);
    }
    // Fill the wildcards, then insert the other bells one by one anywhere into the globs
    let mut c = Some(1u64);
    for k in 0..x {
        c = c.and_then(|c| c.checked_mul((free - k) as u64));
    }
    for k in 0..free - x {
        // k bells in g globs: k + g slots for the next
        c = c.and_then(|c| c.checked_mul((k + g) as u64));
    }
    (c, free <= 20 && free - x + g.saturating_sub(1) <= 20)
}

fn count_case(p: &[E], n: usize, want: Option<u64>, small: bool, o: &mut Obs) -> Result<(), String> {
    let re = Regex::from_elems(p.iter().map(|e| elem(*e)));
    let got = re.num_matching_rows(stage(n));
    o.step(1);
    o.see(&(n, want));
    match (got, want) {
        (None, Some(w)) => ensure!(!small, "unknown number of rows on {n} bells matching {}: it is {w}", text(p)),
        (g, w) => eq!(g.map(|g| g as u64), w, "number of rows on {n} bells matching {}", text(p)),
    }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "A case is one pattern on one stage: the reported count is compared with the number of rows counted by brute force \
               (small stages; the matcher is the oracle's own) or with a closed form (itself compared with the brute force on \
               the small stages).  Distinct by stage and count.",
        bounds: |t| {
            json!({"brute_force": [{"elements": "bells 1, 2, 4, 7, wildcard, glob", "length": [0, t.pick(6, 7)], "stages": [1, 2, 3, 4, 5, 6]},
                {"elements": "bell 1, 2, 3, wildcard, glob", "length": [0, t.pick(7, 8)], "stages": [3, 4, 5, 7]}],
                "closed_form": {"stages": "1 to 70", "bells": "0..stage", "wildcards": "0..stage+1", "globs": "0..bells+1"}})
        },
        assumptions: &["'unknown' is accepted only if the count, or a factorial of at most the number of unfixed bells plus globs, doesn't fit into 64 bits"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(6, 7);
            for (k, (elems, max, stages)) in [
                (vec![B(0), B(1), B(3), B(6), X, G], max, vec![1usize, 2, 3, 4, 5, 6]),
                (vec![B(0), B(1), B(2), X, G], max + 1, vec![3, 4, 5, 7]),
                (vec![B(0), X, G], max + 5, vec![1, 2, 6, 7]),
            ]
            .into_iter()
            .enumerate()
            {
                split_unit(&mut u, &format!("brute-force-{k}"), 32, move |c, part| {
                    let rows: Vec<Vec<Perm>> = stages.iter().map(|n| all_perms(*n)).collect();
                    // The brute force is shared by patterns with equal normal forms
                    let mut memo: FxMap<(Vec<E>, usize), u64> = FxMap::default();
                    seqs(&elems, max, &mut |p| {
                        let nf = normal(&p);
                        if hash_of(&nf) % 32 != part.k() as u64 {
                            return;
                        }
                        for (rows, n) in rows.iter().zip(&stages) {
                            let w = *memo.entry((nf.clone(), *n)).or_insert_with(|| rows.iter().filter(|r| matches(&nf, r)).count() as u64);
                            c.case(|| format!("pattern {} on {n} bells", text(&p)), |o| {
                                eq!(count(&p, *n), (Some(w), true), "harness: closed form of {}", text(&p));
                                count_case(&p, *n, Some(w), true, o)
                            });
                        }
                    });
                });
            }
            split_unit(&mut u, "closed-form", 16, move |c, part| {
                for n in (1..=70).chain([99, 100, 128, 255, 256, 300]) {
                    for b in (0..=n + 1).filter(|b| n <= 36 || *b < 4 || *b + 24 > n) {
                        if !part.mine() {
                            continue;
                        }
                        for x in (0..=n + 2).filter(|x| n <= 36 || *x < 4 || *x + 24 > n || x + b + 24 > n) {
                            for g in 0..=b + 1 {
                                if g > 6 && g != b + 1 && n > 12 {
                                    continue;
                                }
                                // x…x 1 * 2 * 3 …
                                let mut p: Vec<E> = vec![X; x];
                                if g == b + 1 {
                                    p.push(G);
                                }
                                for i in 0..b {
                                    p.push(B(i));
                                    if i < g && i < b {
                                        p.push(G);
                                    }
                                }
                                let (w, small) = count(&p, n);
                                c.case(|| format!("pattern {} on {n} bells", text(&p)), |o| count_case(&p, n, w, small, o));
                                // The same elements in another order
                                p.reverse();
                                let (w, small) = count(&p, n);
                                c.case(|| format!("pattern {} on {n} bells", text(&p)), |o| count_case(&p, n, w, small, o));
                            }
                        }
                    }
                }
            });
            u
        },
    }
}

// ---------------------------------------------------------------------------------------------

/// Has `r` a run of `len` bells starting at place `i`?
fn run_at(r: &[usize], i: usize, len: usize) -> bool {
    if i + len > r.len() {
        return false;
    }
    let w = &r[i..i + len];
    w.windows(2).all(|p| p[0].checked_add(1) == Some(p[1])) || w.windows(2).all(|p| Some(p[0]) == p[1].checked_add(1))
}

fn run_length(r: &[usize]) -> usize {
    (1..=r.len()).take_while(|l| run_at(r, 0, *l)).count()
}

fn run_case(n: usize, len: usize, rows: &[Perm], o: &mut Obs) -> Result<(), String> {
    type Pred = fn(&[usize], usize) -> bool;
    let front: Pred = |r, l| run_at(r, 0, l);
    let back: Pred = |r, l| l <= r.len() && run_at(r, r.len() - l, l);
    let both: Pred = |r, l| run_at(r, 0, l) || (l <= r.len() && run_at(r, r.len() - l, l));
    let any: Pred = |r, l| (0..=r.len()).any(|i| run_at(r, i, l));
    let s = stage(n);
    let sets: [(&str, Vec<Regex>, Pred); 6] = [
        ("runs_front", Regex::runs_front(s, len), front),
        ("runs_back", Regex::runs_back(s, len), back),
        ("all_runs", Regex::all_runs(s, len), any),
        ("runs_front_or_back", Regex::runs_front_or_back(s, len), both),
        ("runs(internal)", Regex::runs(s, len, true), any),
        ("runs(not internal)", Regex::runs(s, len, false), both),
    ];
    for (name, set, pred) in sets {
        if len > n {
            ensure!(set.is_empty(), "{name}({n}, {len}) isn't empty: {set:?}");
            continue;
        }
        for r in rows {
            let real = row(r);
            let hits = set.iter().filter(|re| re.matches(&real)).count();
            eq!(hits > 0, pred(r, len), "does {name}({n}, {len}) match {}", row_text(r));
            o.see(&(name, r, hits > 0));
        }
        o.step((set.len() * rows.len()) as u64);
        for re in &set {
            // Every pattern is a usable, normalised one, and demands a run of that length
            let e: Vec<E> = re.elems().iter().map(elem_of).collect();
            eq!(normal(&e), e, "normal form of a pattern of {name}");
            let bells: Vec<usize> = e.iter().filter_map(|e| if let B(i) = e { Some(*i) } else { None }).collect();
            ensure!(bells.len() == len && run_at(&bells, 0, len) && bells.iter().all(|b| *b < n), "{name}({n}, {len}) contains {re}");
        }
        if len >= 2 {
            let distinct: std::collections::HashSet<&Regex> = set.iter().collect();
            eq!(distinct.len(), set.len(), "distinct patterns of {name}({n}, {len})");
            let per = 2 * (n - len + 1);
            eq!(set.len(), if name.contains("not") || name.contains("or_back") { 2 * per } else { per }, "number of patterns of {name}({n}, {len})");
        }
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "A case is one stage and run length with all rows (or structured rows) against all six pattern sets, or the run \
               length of one sequence of distinct bells.  Distinct by set, row and verdict (or sequence).",
        bounds: |t| {
            json!({"all_rows_on": t.pick("1 to 7 bells", "1 to 8 bells"), "lengths": "0..=stage+2", "structured_rows_on": "8 to 40 bells and wider",
                "run_len": t.pick("all rows and row prefixes up to 7 bells", "... 8 bells"), "sequences_of_distinct_bells": "all of length 0..=5 over 8 bells including far ones; all of length 0..=3 over 15 bells around the limits of integer types; runs of up to 1000 bells broken at every place"})
        },
        assumptions: &["only sequences of distinct bells are given to run_len"],
        units: |t| {
            let mut u = vec![];
            for n in 1..=t.pick(7usize, 8) {
                for len in 0..=n + 2 {
                    u.push(unit(format!("runs-{n}-{len}"), move |c| {
                        let rows = all_perms(n);
                        for ch in rows.chunks(64) {
                            c.case(|| format!("runs of {len} on {n} bells from {}", row_text(&ch[0])), |o| run_case(n, len, ch, o));
                        }
                    }));
                }
            }
            split_unit(&mut u, "runs-wide", 16, move |c, part| {
                for n in (6..=40).chain([63, 64, 65, 100, 128, 255, 256, 257]) {
                    let mut f = small_family(n);
                    // Runs of each direction in the middle and at the ends
                    for l in [2, 3, 4, n / 2, n - 2, n - 1] {
                        for at in [0, 1, n / 2, n - l] {
                            if at + l <= n {
                                let mut r: Perm = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
                                // move bells x..x+l to `at`
                                for up in [true, false] {
                                    let x = (n - l) / 2;
                                    r.retain(|b| !(x..x + l).contains(b));
                                    let mut bells: Vec<usize> = (x..x + l).collect();
                                    if !up {
                                        bells.reverse();
                                    }
                                    r.splice(at.min(r.len())..at.min(r.len()), bells);
                                    f.push(r.clone());
                                }
                            }
                        }
                    }
                    for len in (0..=6).chain([8, 16, 32, 33, n / 2, n - 1, n, n + 1, n + 50]) {
                        if part.mine() && (n <= 70 || len <= 5 || len >= n - 1) {
                            c.case(|| format!("runs of {len} on {n} bells"), |o| run_case(n, len, &f, o));
                        }
                    }
                    if part.mine() {
                        for r in &f {
                            c.case(|| format!("run length of {}", row_text(r)), |o| {
                                o.step(2);
                                o.see(r);
                                eq!(bellframe::run_len(bells(r)), run_length(r), "run_len");
                                eq!(bellframe::run_len(row(r).bell_iter().rev()), run_length(&r.iter().rev().copied().collect::<Vec<_>>()), "run_len backwards");
                                Ok(())
                            });
                        }
                    }
                }
            });
            u.push(unit("run-len", move |c| {
                for n in 1..=t.pick(7usize, 8) {
                    for r in all_perms(n) {
                        c.case(|| format!("run lengths in {}", row_text(&r)), |o| {
                            for k in 0..=n {
                                eq!(bellframe::run_len(bells(&r[k..])), run_length(&r[k..]), "run_len of {:?}", &r[k..]);
                            }
                            eq!(bellframe::run_len(&row(&r)), run_length(&r), "run_len of the row");
                            o.step(n as u64 + 2);
                            o.see(&r);
                            Ok(())
                        });
                    }
                }
                // Bells around the limits of the integer types
                let huge = [0usize, 1, 127, 128, 65_535, 65_536, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize - 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 1, usize::MAX];
                for len in 0..=3 {
                    all_seqs(huge.len(), len, &mut |s| {
                        let b: Vec<usize> = s.iter().map(|i| huge[*i]).collect();
                        if (1..b.len()).all(|i| !b[..i].contains(&b[i])) {
                            c.case(|| format!("run length of bells {b:?}"), |o| {
                                o.step(1);
                                o.see(&b);
                                eq!(bellframe::run_len(bells(&b)), run_length(&b), "run_len");
                                Ok(())
                            });
                        }
                    });
                }
                // Long runs, broken anywhere
                for len in [30usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000] {
                    for start in [0usize, 1, 200, 65_500, usize::MAX - len] {
                        let up: Vec<usize> = (start..start + len).collect();
                        let down: Vec<usize> = up.iter().rev().copied().collect();
                        for base in [up, down] {
                            c.case(|| format!("runs of {len} bells from {}, broken anywhere", base[0]), |o| {
                                eq!(bellframe::run_len(bells(&base)), len, "run_len");
                                for at in 0..len {
                                    let mut cut = base.clone();
                                    cut[at..].rotate_left(1);
                                    eq!(bellframe::run_len(bells(&cut)), run_length(&cut), "run_len broken at {at}");
                                    eq!(bellframe::run_len(bells(&base[at..])), len - at, "run_len from {at}");
                                    o.step(2);
                                }
                                o.see(&base);
                                Ok(())
                            });
                        }
                    }
                }
                let far = [0usize, 1, 2, 3, 32, 33, 255, 256];
                for len in 0..=5 {
                    all_seqs(far.len(), len, &mut |s| {
                        let b: Vec<usize> = s.iter().map(|i| far[*i]).collect();
                        if (1..b.len()).all(|i| !b[..i].contains(&b[i])) {
                            c.case(|| format!("run length of bells {b:?}"), |o| {
                                o.step(1);
                                o.see(&b);
                                eq!(bellframe::run_len(bells(&b)), run_length(&b), "run_len");
                                Ok(())
                            });
                        }
                    });
                }
            }));
            u
        },
    }
}
