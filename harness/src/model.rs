//! The reference model: rows are plain vectors of 0-based bell numbers.
#![allow(dead_code)]

use bellframe::{Bell, Row, RowBuf, SameStageVec, Stage};

pub type Perm = Vec<usize>;

pub fn is_perm(p: &[usize]) -> bool {
    let mut s = p.to_vec();
    s.sort_unstable();
    !p.is_empty() && s.iter().enumerate().all(|(i, b)| i == *b)
}

pub fn mul(a: &[usize], b: &[usize]) -> Perm {
    b.iter().map(|&x| a[x]).collect()
}

pub fn inv(a: &[usize]) -> Perm {
    let mut r = vec![0; a.len()];
    for (i, &x) in a.iter().enumerate() {
        r[x] = i;
    }
    r
}

pub fn identity(n: usize) -> Perm {
    (0..n).collect()
}

/// x such that x * a = b
pub fn solve_xa(a: &[usize], b: &[usize]) -> Perm {
    let mut x = vec![usize::MAX; a.len()];
    for i in 0..a.len() {
        x[a[i]] = b[i];
    }
    x
}

pub fn is_odd(a: &[usize]) -> bool {
    // n - number of cycles
    let mut seen = vec![false; a.len()];
    let mut cycles = 0;
    for i in 0..a.len() {
        if !seen[i] {
            cycles += 1;
            let mut j = i;
            while !seen[j] {
                seen[j] = true;
                j = a[j];
            }
        }
    }
    (a.len() - cycles) % 2 == 1
}

pub fn order(a: &[usize]) -> usize {
    fn gcd(a: usize, b: usize) -> usize {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let mut seen = vec![false; a.len()];
    let mut l = 1usize;
    for i in 0..a.len() {
        let (mut j, mut n) = (i, 0);
        while !seen[j] {
            seen[j] = true;
            j = a[j];
            n += 1;
        }
        if n > 0 {
            l = (l / gcd(l, n)).saturating_mul(n);
        }
    }
    l
}

/// a^e by cycles
pub fn pow(a: &[usize], e: i64) -> Perm {
    let mut r = vec![0; a.len()];
    let mut seen = vec![false; a.len()];
    for i in 0..a.len() {
        if seen[i] {
            continue;
        }
        let mut cyc = vec![];
        let mut j = i;
        while !seen[j] {
            seen[j] = true;
            cyc.push(j);
            j = a[j];
        }
        let n = cyc.len() as i64;
        let shift = e.rem_euclid(n) as usize;
        for (k, &c) in cyc.iter().enumerate() {
            r[c] = cyc[(k + shift) % cyc.len()];
        }
    }
    r
}

/// All permutations of `n` bells in lexicographic order
pub fn all_perms(n: usize) -> Vec<Perm> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut used = vec![false; n];
    fn go(n: usize, cur: &mut Perm, used: &mut Vec<bool>, out: &mut Vec<Perm>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for b in 0..n {
            if !used[b] {
                used[b] = true;
                cur.push(b);
                go(n, cur, used, out);
                cur.pop();
                used[b] = false;
            }
        }
    }
    go(n, &mut cur, &mut used, &mut out);
    out
}

/// Stages that cross every boundary a shortcut might have (bit-sets, bytes, names, ...)
pub fn wide_stages(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    v.extend([48, 50, 60, 63, 64, 65, 66, 96, 99, 100, 101, 126, 127, 128, 129, 130, 192, 200]);
    v.extend([254, 255, 256, 257, 258, 300]);
    if thorough {
        v.extend(41..=140);
        v.extend([320, 384, 400, 500, 511, 512, 513, 640, 1000, 1023, 1024, 1025]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Places of a stage which are near a boundary of some kind
pub fn boundary_places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17];
    v.extend([30, 31, 32, 33, 34, 62, 63, 64, 65, 98, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257]);
    v.extend([n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)]);
    v.retain(|&p| p < n);
    v.sort_unstable();
    v.dedup();
    v
}

/// Structured permutations of a (possibly large) stage
pub fn family(n: usize) -> Vec<Perm> {
    let id = identity(n);
    let mut v = vec![id.clone()];
    let mut add = |p: Perm| {
        debug_assert!(is_perm(&p));
        if !v.contains(&p) {
            v.push(p)
        }
    };
    let mut b = id.clone();
    b.reverse();
    add(b.clone());
    // queens, tittums
    add((0..n).step_by(2).chain((1..n).step_by(2)).collect());
    let h = n.div_ceil(2);
    add((0..n).map(|i| if i % 2 == 0 { i / 2 } else { h + i / 2 }).collect());
    // rotations
    for k in [1, 2, n / 2, n.saturating_sub(1)] {
        add((0..n).map(|i| (i + k) % n).collect());
    }
    // crosses
    for off in [0usize, 1] {
        let mut c = id.clone();
        let mut i = off;
        while i + 1 < n {
            c.swap(i, i + 1);
            i += 2;
        }
        add(c);
    }
    // reversed halves, near-backrounds
    let mut c = id.clone();
    c[..n / 2].reverse();
    add(c);
    let mut c = id.clone();
    c[n / 2..].reverse();
    add(c);
    let mut c = b.clone();
    if n >= 2 {
        c.swap(0, 1);
        add(c.clone());
        c.swap(0, 1);
        c.swap(n - 2, n - 1);
        add(c);
    }
    // transpositions at the boundaries
    let bp = boundary_places(n);
    for &p in &bp {
        if p + 1 < n {
            let mut c = id.clone();
            c.swap(p, p + 1);
            add(c);
        }
        if n > 2 && p != n - 1 {
            let mut c = id.clone();
            c.swap(p, n - 1);
            add(c);
        }
        if p > 0 {
            let mut c = id.clone();
            c.swap(0, p);
            add(c);
            // 3-cycle
            if p + 1 < n {
                let mut c = id.clone();
                c[0] = p;
                c[p] = p + 1;
                c[p + 1] = 0;
                add(c);
            }
        }
    }
    v
}

/// A smaller structured family, for quadratic enumerations
pub fn small_family(n: usize) -> Vec<Perm> {
    let f = family(n);
    if f.len() <= 24 {
        return f;
    }
    let step = f.len() / 12;
    let mut v: Vec<Perm> = f[..12].to_vec();
    v.extend(f[12..].iter().step_by(step.max(1)).cloned());
    v.extend(f.last().cloned());
    v
}

// ------------------------------------------------------------------ conversions

pub fn stage(n: usize) -> Stage {
    Stage::new(n)
}

pub fn bell(i: usize) -> Bell {
    Bell::from_index(i)
}

pub fn bells(p: &[usize]) -> Vec<Bell> {
    p.iter().map(|&i| Bell::from_index(i)).collect()
}

/// The real row for a model row
pub fn row(p: &[usize]) -> RowBuf {
    debug_assert!(is_perm(p));
    // Safe because model rows are permutations; going through the unchecked constructor means that a bug in
    // the validating one is reported by the property that is about it.
    unsafe { RowBuf::from_vec_unchecked(bells(p)) }
}

/// The model row for a real row (which may be invalid if the code is broken)
pub fn perm(r: &Row) -> Perm {
    r.slice().iter().map(|b| b.index()).collect()
}

pub fn ssv(n: usize, rows: &[Perm]) -> SameStageVec {
    let mut v = SameStageVec::new(stage(n));
    for r in rows {
        v.push(&row(r)).expect("stages match");
    }
    v
}

pub fn ssv_perms(v: &SameStageVec) -> Vec<Perm> {
    v.iter().map(perm).collect()
}

/// Standard bell names, independent of the crate's table
pub const NAMES: [char; 33] = [
    '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'E', 'T', 'A', 'B', 'C', 'D', 'F', 'G', 'H', 'J', 'K', 'L',
    'M', 'N', 'P', 'Q', 'R', 'S', 'U', 'V', 'W', 'Y', 'Z',
];

pub fn bell_of_char(c: char) -> Option<usize> {
    NAMES.iter().position(|x| *x == c)
}

pub fn bell_text(i: usize) -> String {
    match NAMES.get(i) {
        Some(c) => c.to_string(),
        None => format!("<{}>", i + 1),
    }
}

pub fn row_text(p: &[usize]) -> String {
    p.iter().map(|&i| bell_text(i)).collect()
}

/// All strings over `alphabet` of length `0..=max`
pub fn all_strings(alphabet: &[char], max: usize, f: &mut dyn FnMut(&str)) {
    let mut idx: Vec<usize> = vec![];
    let mut s = String::new();
    loop {
        s.clear();
        s.extend(idx.iter().map(|&i| alphabet[i]));
        f(&s);
        // next
        let mut k = idx.len();
        loop {
            if k == 0 {
                if idx.len() == max {
                    return;
                }
                idx = vec![0; idx.len() + 1];
                break;
            }
            k -= 1;
            if idx[k] + 1 < alphabet.len() {
                idx[k] += 1;
                for j in idx[k + 1..].iter_mut() {
                    *j = 0;
                }
                break;
            }
        }
    }
}

/// All sequences over `0..base` of length exactly `len`
pub fn all_seqs(base: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; len];
    if base == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut k = len;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            if v[k] + 1 < base {
                v[k] += 1;
                for x in v[k + 1..].iter_mut() {
                    *x = 0;
                }
                break;
            }
        }
    }
}
